"""C15: propagation against direct Fourier sums; powers; padding; linearity."""
import numpy as np
from vf import opt, ref

RULE = ("each case propagates random beams (arrays, tensors, profiles, numbers) through one random device (binary and gray mirror states, random "
        "phase states) with random padding and compares every point of input, output and image plane field with a direct Fourier sum in "
        "float64, and the powers and intensities with the fields; non-trivial: distinct device, state, padding and beam")
NEED = {"cases": 40, "propagations": 100, "points_compared": 100000, "padded": 40, "phase_devices": 15, "power_checks": 100, "large": 4, "much_padding": 6, "integer_states": 4}


def state_for(rng, g, ctx):
    """(array to assign, complex modulation)"""
    shape = (g.Ny, g.Nx)
    if g.kind == "DMD":
        k = int(rng.integers(5))
        if k == 0: s = rng.random(shape) < rng.random()
        elif k == 4: s = (rng.random(shape) < rng.random()).astype([np.uint8, np.int64, np.int32, np.float16, np.float64][rng.integers(5)])
        elif k == 1: s = rng.random(shape)
        elif k == 2: s = (np.indices(shape).sum(0) % 3 == 0)
        else: s = rng.random(shape).astype(np.float32)
        return s, s.astype(complex)
    k = int(rng.integers(4))
    s = rng.integers(-9, 10, shape).astype([np.int64, np.int16, np.int32][rng.integers(3)]) if k == 3 else rng.uniform(-np.pi, np.pi, shape) if k == 0 else rng.uniform(-20, 20, shape) if k == 1 else rng.uniform(0, 2 * np.pi, shape).astype(np.float32)
    return s, np.exp(1j * s.astype(ctx.rdtype).astype(float))


def expected(g, field, px, py):
    f = np.pad(field, ((py, py), (px, px)))
    return f, g.pixel ** 2 / g.lf * opt.to_image(f)


def run(ctx):
    P, R, eps = ctx.P, ref.R(ctx.prec), ctx.eps
    import tensorflow as tf

    def verify(case, sim, g, inp, mod, px, py, ein=0.0, what=""):
        Fi, _ = expected(g, inp, px, py)
        Fo, E = expected(g, inp * mod, px, py)
        ti = 4 * eps * np.max(np.abs(Fi)) + np.pad(np.broadcast_to(ein, inp.shape), ((py, py), (px, px)))
        to = ti * max(1, np.max(np.abs(mod))) + 60 * eps * np.max(np.abs(Fi))
        for got, name in ((sim.input_field, "input"), (sim.output_field, "output"), (sim.image_plane_field, "image")):
            case.true(isinstance(got, np.ndarray) and got.dtype == ctx.cdtype, f"{what}{name} field: wrong type", got=getattr(got, "dtype", type(got)))
        case.close(sim.input_field, Fi, ti, what + "input field")
        case.close(sim.output_field, Fo, to, what + "output field")
        pad = np.pad(np.ones(inp.shape), ((py, py), (px, px))) == 0
        case.true(not np.any(sim.output_field[pad]) and not np.any(sim.input_field[pad]), what + "field in the padding")
        case.close(sim.image_plane_field, E, g.pixel ** 2 / g.lf * (opt.fft_err(Fo, R) + 1.5 * np.sum(to) * (np.max(ein) > 0) + np.linalg.norm(to * np.ones(Fo.shape))),
                   what + "image plane field", points=opt.Geo.igrid(g, px, py))
        for field, inten, name in ((sim.input_field, sim.input_intensity, "input"), (sim.output_field, sim.output_intensity, "output"), (sim.image_plane_field, sim.image_plane_intensity, "image")):
            f = field.astype(complex)
            case.close(inten, np.abs(f) ** 2, 8 * eps * np.abs(f) ** 2 + 1e-30, what + f"{name} intensity")
        case.equal(sim.image_plane_intensity.dtype, np.dtype(ctx.rdtype), what + "type of the intensity")
        pi, po, pm = float(sim.get_input_power()), float(sim.get_output_power()), float(sim.get_image_plane_power())
        wi, wo = np.sum(np.abs(Fi) ** 2) * g.pixel ** 2, np.sum(np.abs(Fo) ** 2) * g.pixel ** 2
        tol = 1e-3 if ctx.prec == 32 else 1e-9
        slack = (2 * np.sum(np.broadcast_to(ein, inp.shape) * np.abs(inp)) + np.sum(np.broadcast_to(ein, inp.shape) ** 2)) * g.pixel ** 2
        case.close(pi, wi, tol * wi + slack, what + "input power"); case.close(po, wo, tol * wo + slack, what + "output power")
        case.close(pm, po, tol * wo + 1e-12 * wi, what + "image plane power differs from the output power")
        case.event("power_checks"); case.event("propagations")
        if px or py: case.event("padded")
        return pi, po

    def propagate(case, g=None):
        rng = case.rng
        big = g is not None
        g = g or opt.geometry(rng, 2, 34, kind=["DMD", "LCOS"][case.index % 2])
        dev = g.make(P)
        if g.kind == "LCOS": case.event("phase_devices")
        case.note(g.desc())
        powers = []
        st, mod = state_for(rng, g, ctx)
        attr = "dmd_state" if g.kind == "DMD" else "slm_state"
        fresh = rng.random() < .2
        if fresh: mod = np.zeros((g.Ny, g.Nx)) if g.kind == "DMD" else np.ones((g.Ny, g.Nx))
        else:
            setattr(dev, attr, st)
            if st.dtype.kind in "ui": case.event("integer_states")
        k = int(rng.integers(4))
        if k == 0:
            inp = rng.normal(size=(g.Ny, g.Nx)) + 1j * rng.normal(size=(g.Ny, g.Nx)); inp = inp.astype(ctx.cdtype); arg, ein = inp, 0.0
        elif k == 1:
            inp = (rng.normal(size=(g.Ny, g.Nx)) + 1j * rng.normal(size=(g.Ny, g.Nx))).astype(ctx.cdtype); arg, ein = tf.constant(inp), 0.0
        elif k == 2:
            spec = opt.amp_phase_profile(rng, g); inp, ein = opt.sample(spec, g.fgrid(), R)
            if np.isfinite(ein).all(): arg = ref.build(P, spec)
            else: inp = inp.astype(ctx.cdtype); arg, ein = inp, 0.0
        else:
            v = ref.scalar(rng) or 1; inp, arg, ein = np.full((g.Ny, g.Nx), complex(v)), v, 0.0
        inp = np.array(inp).astype(complex)
        case.note("state", str(st.dtype), "input", k)
        for px, py in [(0, 0), tuple(int(v) for v in rng.integers(0, 14, 2)), (int(rng.integers(1, 9)), 0)] if not big else [tuple(int(v) for v in rng.integers(0, [g.Nx // 2, g.Ny // 2]))]:
            sim = P.SLMSimulation(dev, padding_x=px, padding_y=py) if rng.random() < .6 or g.kind != "DMD" else P.DMDSimulation(dev, px, py)
            case.note("padding", (px, py))
            sim.propagate_to_image(arg)
            powers.append(verify(case, sim, g, inp, mod, px, py, ein))
        if big: case.event("large")
        for p in powers[1:]:
            case.close(p, powers[0], 1e-4 * powers[0][0], "padding changes the power")

    ctx.each("propagate", ctx.n(40, 400), propagate)

    ctx.each("large", ctx.n(4, 24), lambda case: propagate(case, opt.large(case.rng, case.index + 4 * ctx.seed, ["DMD", "LCOS"][case.index % 2], limit=1.3e6)))

    def much_padding(case):
        """small devices in the middle of far larger lattices"""
        rng = case.rng
        g = opt.geometry(rng, 3, 24, kind=["DMD", "LCOS"][case.index % 2])
        dev = g.make(P)
        st, mod = state_for(rng, g, ctx); setattr(dev, "dmd_state" if g.kind == "DMD" else "slm_state", st)
        inp = (rng.normal(size=(g.Ny, g.Nx)) + 1j * rng.normal(size=(g.Ny, g.Nx))).astype(ctx.cdtype)
        px, py = [int(v) for v in [(rng.integers(40, 400), rng.integers(40, 400)), (rng.integers(500, 2000), rng.integers(3)), (rng.integers(3), rng.integers(500, 2000))][case.index % 3]]
        case.note("much padding", g.desc(), (px, py))
        sim = (P.DMDSimulation if g.kind == "DMD" else P.SLMSimulation)(dev, px, py)
        sim.propagate_to_image(inp)
        verify(case, sim, g, inp.astype(complex), mod, px, py)
        case.event("much_padding")

    ctx.each("much_padding", ctx.n(6, 40), much_padding)

    def linear(case):
        """linear in the input, on the same simulation object, in any order"""
        rng = case.rng
        g = opt.geometry(rng, 4, 26, kind=["DMD", "LCOS"][case.index % 2])
        dev = g.make(P)
        st, mod = state_for(rng, g, ctx)
        setattr(dev, "dmd_state" if g.kind == "DMD" else "slm_state", st)
        px, py = [int(v) for v in rng.integers(0, 8, 2)]
        sim = P.SLMSimulation(dev, px, py)
        case.note("linear", g.desc(), (px, py))
        a, b = [(rng.normal(size=(g.Ny, g.Nx)) + 1j * rng.normal(size=(g.Ny, g.Nx))).astype(ctx.cdtype) for _ in range(2)]
        al, be = complex(ref.r4(rng, -2, 2), ref.r4(rng, -2, 2)), complex(ref.r4(rng, -2, 2), ref.r4(rng, -2, 2))
        E = {}
        for name, f in (("a", a), ("b", b), ("ab", (al * a + be * b).astype(ctx.cdtype)), ("a again", a)):
            sim.propagate_to_image(f)
            E[name] = sim.image_plane_field.astype(complex)
            verify(case, sim, g, f.astype(complex), mod, px, py)
        tol = 8 * opt.fft_err(np.abs(al) * np.abs(a) + np.abs(be) * np.abs(b), R) * g.pixel ** 2 / g.lf
        case.close(E["ab"], al * E["a"] + be * E["b"], tol, "propagation is not linear")
        case.close(E["a again"], E["a"], tol, "the same input propagated again")

    ctx.each("linear", ctx.n(10, 100), linear)

    def point(case):
        """a single lit pixel gives a plane wave of the right amplitude, direction and phase"""
        rng = case.rng
        g = opt.geometry(rng, 3, 30)
        dev = g.make(P)
        dev.set_dmd_state_on()
        i, j = int(rng.integers(g.Ny)), int(rng.integers(g.Nx))
        a = complex(ref.r4(rng, -2, 2), ref.r4(rng, .2, 2))
        f = np.zeros((g.Ny, g.Nx), complex); f[i, j] = a
        px, py = [int(v) for v in rng.integers(0, 6, 2)]
        sim = P.DMDSimulation(dev, px, py)
        case.note("point", g.desc(), (i, j), (px, py))
        sim.propagate_to_image(f)
        gx, gy = sim.image_plane_padded_grid
        x, y = (j + px - (g.Nx + 2 * px) // 2) * g.pixel, -(i + py - (g.Ny + 2 * py) // 2) * g.pixel
        want = a * g.pixel ** 2 / g.lf * np.exp(2j * np.pi * (x * gx.astype(float) + y * gy.astype(float)) / g.lf)
        case.close(sim.image_plane_field, want, 200 * eps * abs(a) * g.pixel ** 2 / g.lf * 10, "plane wave of one pixel")
        case.event("propagations")

    ctx.each("point", ctx.n(10, 80), point)
