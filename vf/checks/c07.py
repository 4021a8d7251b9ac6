"""C07: coordinate grids and reported geometry."""
import numpy as np
from vf import opt, ref

RULE = ("each case is one device (random size, odd and even, pitch, wavelength, focal length; or a named model) and one or more simulations "
        "with random padding; every coordinate of all four grids is compared with the convention computed in float64, and the pixel "
        "areas, sizes and parameters reported are compared with the grids; non-trivial: distinct geometry")
NEED = {"cases": 60, "points_compared": 100000, "padded": 60, "odd": 20, "models": 4, "large": 4}


def run(ctx):
    P, eps = ctx.P, ctx.eps
    from pySLM2 import simulation as S

    def grids(case, dev, g, px=None, sim=None):
        if sim is None:
            fx, fy = dev.fourier_plane_grid; ix, iy = dev.image_plane_grid
            wf, wi = g.fgrid(), g.igrid(); Nx, Ny = g.Nx, g.Ny
        else:
            fx, fy = sim.fourier_plane_padded_grid; ix, iy = sim.image_plane_padded_grid
            wf, wi = g.fgrid(*px), g.igrid(*px); Nx, Ny = g.Nx + 2 * px[0], g.Ny + 2 * px[1]
        for got, want, name in ((fx, wf[0], "x of the SLM"), (fy, wf[1], "y of the SLM"), (ix, wi[0], "x of the image plane"), (iy, wi[1], "y of the image plane")):
            case.true(isinstance(got, np.ndarray) and got.dtype == ctx.rdtype, f"{name}: wrong type", got=getattr(got, "dtype", type(got)))
            case.equal(got.shape, (Ny, Nx), f"{name}: wrong shape")
            case.close(got, want, 6 * eps * max(np.max(np.abs(want)), g.pixel), f"{name} grid")
        case.true(np.all(ix[:, Nx // 2] == 0) and np.all(iy[Ny // 2, :] == 0), "the optical axis is not at index (Ny//2, Nx//2)")
        return fx, fy, ix, iy

    def device(case):
        rng = case.rng
        g = opt.geometry(rng, 1, 60, kind=["DMD", "LCOS", "SLM"][rng.integers(3)])
        if g.Nx % 2 or g.Ny % 2: case.event("odd")
        dev = P.slm.SLM(g.wavelength, g.focal, g.Nx, g.Ny, g.pixel) if g.kind == "SLM" else g.make(P)
        case.note("device", g.desc())
        order = rng.random() < 0.5
        if order: full = grids(case, dev, g)
        reported(case, dev, g)
        pads = [(0, 0)] + [tuple(int(v) for v in rng.integers(0, 25, 2)) for _ in range(2)]
        for px in pads:
            sim = S.SLMSimulation(dev, *px) if g.kind != "DMD" or rng.random() < 0.5 else S.DMDSimulation(dev, padding_x=px[0], padding_y=px[1])
            case.note("pad", px)
            case.event("padded")
            fx, fy, ix, iy = grids(case, dev, g, px, sim)
            case.equal((sim.Nx, sim.Ny), (g.Nx + 2 * px[0], g.Ny + 2 * px[1]), "padded size")
            case.equal((sim.padding_x, sim.padding_y), px, "padding")
            case.close(float(sim.fourier_plane_pixel_area), g.pixel ** 2, 1e-6 * g.pixel ** 2, "pixel area of the SLM plane")
            wi = g.lf ** 2 / (sim.Nx * sim.Ny * g.pixel ** 2)
            case.close(float(sim.image_plane_pixel_area), wi, 1e-6 * wi, "pixel area of the image plane")
            case.close(float(sim.scaling_factor), g.lf, 1e-6 * g.lf, "scaling factor of the simulation")
            if min(ix.shape) > 1:
                da = abs(float(ix[0, 1]) - float(ix[0, 0])) * abs(float(iy[1, 0]) - float(iy[0, 0]))
                case.close(da, wi, 1e-3 * wi + 40 * eps * np.max(np.abs(ix)) * np.max(np.abs(iy)), "pixel area against the grid spacing")
            mx, my = dev.fourier_plane_grid
            inner = (slice(px[1], px[1] + g.Ny), slice(px[0], px[0] + g.Nx))
            case.close(fx[inner], mx, 8 * eps * np.max(np.abs(fx)), "padding moved pixels in x"); case.close(fy[inner], my, 8 * eps * np.max(np.abs(fy)), "padding moved pixels in y")
        full = grids(case, dev, g)
        again = grids(case, dev, g)
        for a, b in zip(full, again):
            case.same(a, b, "the grid changed between two reads")

    def reported(case, dev, g):
        case.equal((dev.Nx, dev.Ny), (g.Nx, g.Ny), "size")
        for name, want in (("wavelength", g.wavelength), ("focal_length", g.focal), ("pixel_size", g.pixel), ("scaling_factor", g.lf)):
            case.close(float(getattr(dev, name)), want, 1e-6 * want, f"reported {name}")

    ctx.each("device", ctx.n(60, 600), device)

    def large(case):
        """devices and lattices of the size of real ones"""
        rng = case.rng
        g = opt.large(rng, case.index + 2 * ctx.seed, ["DMD", "LCOS"][case.index % 2])
        dev = g.make(P)
        case.note("large", g.desc())
        reported(case, dev, g)
        px = (int(rng.integers(30, 700)), int(rng.integers(30, 700)))
        case.note("pad", px)
        sim = S.SLMSimulation(dev, *px) if g.kind != "DMD" or rng.random() < 0.5 else S.DMDSimulation(dev, padding_x=px[0], padding_y=px[1])
        if rng.random() < .5: grids(case, dev, g)
        grids(case, dev, g, px, sim); grids(case, dev, g)
        case.equal((sim.Nx, sim.Ny), (g.Nx + 2 * px[0], g.Ny + 2 * px[1]), "padded size")
        wi = g.lf ** 2 / (sim.Nx * sim.Ny * g.pixel ** 2)
        case.close(float(sim.image_plane_pixel_area), wi, 1e-6 * wi, "pixel area of the image plane")
        case.event("large")

    ctx.each("large", ctx.n(4, 24), large)

    def models(case):
        rng = case.rng
        g0 = opt.geometry(rng)
        name = ["DLP9500", "DLP7000", "DLP9000", "PLUTO_2"][case.index % 4]
        Nx, Ny, pix = {"DLP9500": (1920, 1080, 10.8), "DLP7000": (1024, 768, 13.68), "DLP9000": (2560, 1600, 7.56), "PLUTO_2": (1920, 1080, 8.0)}[name]
        g = opt.Geo(Nx, Ny, pix * 1e-6, g0.wavelength, g0.focal, g0.period, g0.theta, g0.neg)
        cls = getattr(P, name)
        dev = cls(g.wavelength, g.focal) if name == "PLUTO_2" else cls(g.wavelength, g.focal, g.period, g.theta, negative_order=g.neg) if rng.random() < .5 \
            else cls(g.wavelength, g.focal, g.period, g.theta, g.neg)
        case.note("model", name, g.desc())
        case.event("models")
        reported(case, dev, g)
        grids(case, dev, g)
        if name != "PLUTO_2":
            case.equal(bool(dev.negative_order), g.neg, "negative order")
            case.close(float(dev.theta), R.r(g.theta), 0, "grating angle")
            ox, oy = dev.first_order_origin
            case.close([float(ox), float(oy)], g.origin, 10 * eps * g.lf / g.period / g.pixel, "first order origin of the model")
            case.equal(dev.dmd_state.shape, (Ny, Nx), "shape of the state")
        else:
            case.equal(dev.slm_state.shape, (Ny, Nx), "shape of the state")

    R = ref.R(ctx.prec)
    ctx.each("models", 4 * ctx.n(1, 4), models)
