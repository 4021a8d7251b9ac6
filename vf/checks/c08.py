"""C08: whatever is accepted as a profile becomes the right sampled field."""
import numpy as np
from vf import opt, ref
from vf.checks import c04

RULE = ("each case samples, on one random device, inputs of every accepted kind (profiles and expressions, constants, arrays and tensors of "
        "several types, numbers) at either plane as real or complex field and compares each pixel with the reference; non-trivial: "
        "distinct device and inputs")
NEED = {"cases": 30, "points_decided": 20000, "kind:profile": 60, "kind:array": 60, "kind:tensor": 60, "kind:number": 60, "complex_kept": 30, "large": 4, "other_types": 20}


def run(ctx):
    import tensorflow as tf
    P, R = ctx.P, ref.R(ctx.prec)

    def field(case, g=None):
        rng = case.rng
        several = 9 if g is None else 4
        g = g or opt.geometry(rng, 3, 40, kind=["DMD", "LCOS"][rng.integers(2)])
        dev = g.make(P)
        case.note("device", g.desc())
        shape = (g.Ny, g.Nx)
        for _ in range(several):
            at_fp = bool(rng.integers(2)); cplx = bool(rng.integers(2))
            grid = g.fgrid() if at_fp else g.igrid()
            kind = ["profile", "array", "tensor", "number"][rng.integers(4)]
            scale = float(np.max(np.abs(grid[0])))
            tol = 0.0
            if kind == "profile":
                sub = int(rng.integers(4))
                if sub == 0: spec = ("C", [ref.r4(rng, -3, 3), complex(ref.r4(rng, -3, 3), ref.r4(rng, -3, 3))][rng.integers(2)])
                elif sub == 1: spec = ("+", ref.leaf(rng, scale, order=2), ref.leaf(rng, scale, order=2))
                elif sub == 2: spec = ("shift", ref.leaf(rng, scale, order=3), 0.1 * scale, -0.2 * scale)
                else: spec = ref.leaf(rng, scale, order=3)
                if ref.is_complex(spec): cplx = True
                val = ref.build(P, spec); want, err = opt.sample(spec, grid, R); tol = 4 * err
                case.note(kind, repr(spec)[:200], at_fp, cplx)
            elif kind in ("array", "tensor"):
                dt = [np.float64, np.float32, np.int64, np.int32, np.complex128, np.complex64, bool][rng.integers(7)]
                if kind == "array" and rng.random() < .3: dt = [np.uint8, np.int8, np.uint16, np.int16, np.float16, np.dtype(">f8"), np.dtype(">f4"), np.dtype(">i4"), np.dtype(">c16")][rng.integers(9)]; case.event("other_types")
                if np.dtype(dt).kind == "c": cplx = True; a = (rng.normal(size=shape) + 1j * rng.normal(size=shape)).astype(dt)
                elif dt is bool: a = rng.random(shape) < 0.5
                elif np.dtype(dt).kind in "iu": a = rng.integers(0 if np.dtype(dt).kind == "u" else -50, 50, shape).astype(dt)
                else: a = rng.normal(size=shape).astype(dt)
                if dt is bool and kind == "array": a = a.astype(np.uint8)
                sub = int(rng.integers(4)) if kind == "array" else 0
                if sub == 1: a = np.asfortranarray(a)
                if sub == 2: a = a[::-1, ::-1]
                want = np.array(a).astype(complex); tol = 2 * R.eps * np.abs(want)
                val = a if kind == "array" else tf.constant(a)
                if sub == 3: val = a.tolist()
                if kind == "tensor" and rng.random() < 0.2:
                    val = val[0, 0]; want = np.full(shape, want[0, 0]); tol = 2 * R.eps * np.abs(want)
                case.note(kind, str(np.dtype(dt)), at_fp, cplx)
            else:
                v = ref.scalar(rng)
                if isinstance(v, complex): cplx = True
                want = np.full(shape, v, dtype=complex); tol = 2 * R.eps * np.abs(want)
                val = v
                case.note(kind, v, at_fp, cplx)
            case.event("kind:" + kind)
            got = dev.profile_to_tensor(val, at_fourier_plane=at_fp, complex=cplx) if rng.random() < 0.8 or not at_fp or cplx else dev.profile_to_tensor(val)
            case.true(isinstance(got, tf.Tensor), "the field must be a tensor", got=type(got))
            got = np.array(got)
            case.equal(got.dtype, np.dtype(ctx.cdtype if cplx else ctx.rdtype), f"{kind}: wrong type")
            case.equal(got.shape, shape, f"{kind}: wrong shape")
            case.close(got, want, tol, f"field sampled from a {kind}", points=grid)
            tolb = np.broadcast_to(tol, want.shape)
            case.event("points_decided", int(np.sum(np.isfinite(tolb))))
            if cplx and np.max(np.abs(np.imag(want))) > 0.1: case.event("complex_kept")

    ctx.each("field", ctx.n(36, 300), field)

    def large(case):
        field(case, opt.large(case.rng, case.index + 3 * ctx.seed, ["DMD", "LCOS"][case.index % 2]))
        case.event("large")

    ctx.each("large", ctx.n(4, 24), large)

    def reuse(case):
        """one profile on several devices and planes, changing a parameter in between"""
        rng = case.rng
        gs = [opt.geometry(rng, 4, 24) for _ in range(3)]
        if rng.random() < 0.7:
            gs[1].Nx, gs[1].Ny = gs[0].Nx, gs[0].Ny      # same size, other pitch
        devs = [g.make(P) for g in gs]
        q = dict(x0=2e-5, y0=-1e-5, a=1.5, w=ref.r4(rng, 0.5, 1.5) * 1e-4, n=1, m=0)
        obj = P.HermiteGaussian(**q)
        case.note("reuse", [g.desc() for g in gs])
        for _ in range(8):
            k = int(rng.integers(3)); at_fp = bool(rng.integers(2))
            if rng.random() < 0.4:
                q["w"] = ref.r4(rng, 0.5, 1.5) * 1e-4; obj.w = q["w"]
            grid = gs[k].fgrid() if at_fp else gs[k].igrid()
            want, err = opt.sample(("HG", q), grid, R)
            case.close(np.array(devs[k].profile_to_tensor(obj, at_fourier_plane=at_fp)), want, 4 * err, "profile sampled again", points=grid)
            case.event("kind:profile"); case.event("points_decided", want.size)

    ctx.each("reuse", ctx.n(10, 80), reuse)

    def repeated(case):
        """an array of one row, one column or one number is refused, or repeated"""
        rng = case.rng
        for k in range(6):
            g = opt.geometry(rng, 2, 15, kind=["DMD", "LCOS"][k % 2]); dev = g.make(P)
            case.note("repeated", g.desc())
            for size in [(1, g.Nx), (g.Ny, 1), (g.Nx,), (1, 1), (1,), ()]:
                a = rng.normal(size=size); cplx = bool(rng.integers(2))
                if cplx: a = a + 1j * rng.normal(size=size)
                form = [np.asarray, tf.constant, lambda v: np.asarray(v).tolist()][rng.integers(3)]
                try:
                    got = np.array(dev.profile_to_tensor(form(a), at_fourier_plane=bool(rng.integers(2)), complex=cplx))
                except Exception:
                    case.event("smaller_refused")
                    continue
                want = np.broadcast_to(a, (g.Ny, g.Nx))
                case.equal(got.shape, want.shape, "repeated: wrong shape")
                case.close(got, want, 2 * R.eps * np.abs(want), "array of shape %s repeated" % (size,))
                case.event("smaller_repeated"); case.event("points_decided", want.size)

    ctx.each("repeated", ctx.n(6, 60), repeated)
