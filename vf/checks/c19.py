"""C19: choice of precision and FFT backend, observed in fresh library instances (forked children)."""
import numpy as np
from vf import forked, opt, ref, tap
from vf.checks import c09, c12, c13, c15

LIBRARY = False
PLAN = {"quick": [(32, 4), (64, 4)], "thorough": [(32, 4), (64, 4)]}
RULE = ("each case is one fresh library instance in a forked child: a random sequence of valid and invalid choices of the precision, a first use "
        "drawn from every kind of public entry point, refused choices afterwards, then a sweep over public results whose type must be the chosen "
        "one and whose values must match a float64 reference to that precision; a second family computes everything under interleaved FFT "
        "backends and compares with the reference and with each other; non-trivial: distinct sequence of choices and uses")
NEED = {"cases": 30, "first_uses": 12, "refused": 60, "typed_results": 600, "switches": 150, "fft_results": 100}
BAD = ["float16", "bfloat16", "int32", "int64", "complex64", "complex128", "bool", "string"]


def first_uses(P):
    c = [0.2, 0.1]
    return {
        "HermiteGaussian": lambda: P.HermiteGaussian(0, 0, 1, 1), "LaguerreGaussian": lambda: P.LaguerreGaussian(0, 0, 1, 1),
        "SuperGaussian": lambda: P.SuperGaussian(0, 0, 1, 1), "Zernike": lambda: P.Zernike(1, 1, 2, 0), "ConstantProfile": lambda: P.ConstantProfile(1.5),
        "complex constant": lambda: P.ConstantProfile(1 + 2j), "rectangle": lambda: P.RectangularWindowRectangle(0, 0, 1, 1),
        "circle": lambda: P.RectangularWindowCircular(0, 0, 1), "DMD": lambda: P.DMD(1e-6, 1.0, 4, 0.3, 8, 6, 1e-5), "DLP9000": lambda: P.DLP9000(1e-6, .2, 4, 0.3),
        "LCOS grid": lambda: P.LCOS_SLM(1e-6, 1.0, 8, 6, 1e-5).fourier_plane_grid, "LCOS image grid": lambda: P.LCOS_SLM(1e-6, 1.0, 8, 6, 1e-5).image_plane_grid,
        "real field": lambda: P.LCOS_SLM(1e-6, 1.0, 8, 6, 1e-5).profile_to_tensor(1.0), "complex field": lambda: P.LCOS_SLM(1e-6, 1.0, 8, 6, 1e-5).profile_to_tensor(1.0, complex=True),
        "simulation": lambda: P.SLMSimulation(P.LCOS_SLM(1e-6, 1.0, 8, 6, 1e-5)).propagate_to_image(1.0),
        "simulation grid": lambda: P.SLMSimulation(P.LCOS_SLM(1e-6, 1.0, 8, 6, 1e-5), 1, 2).image_plane_padded_grid,
        "reading dtype": lambda: P.BACKEND.dtype, "reading dtype_complex": lambda: P.BACKEND.dtype_complex, "reading dtype_int": lambda: P.BACKEND.dtype_int,
    }


def sweep(case, P, prec, rng, rounds=2):
    """types and values of public results"""
    import tensorflow as tf
    rt, ct = (np.float32, np.complex64) if prec == 32 else (np.float64, np.complex128)
    R = ref.R(prec)

    def typed(v, want, what):
        v = np.asarray(v)
        case.true(v.dtype == want, f"{what}: type {v.dtype} instead of {np.dtype(want)}")
        case.event("typed_results")
        return v

    case.equal(P.BACKEND.dtype, tf.float32 if prec == 32 else tf.float64, "BACKEND.dtype")
    case.equal(P.BACKEND.dtype_complex, tf.complex64 if prec == 32 else tf.complex128, "BACKEND.dtype_complex")
    for _ in range(rounds):
        for kind in ("HG", "SG", "LG", "Z", "C", "RW", "CW"):
            leaf = ref.leaf(rng, 1.0, (kind,))
            spec = leaf
            for _ in range(int(rng.integers(3))):
                k = int(rng.integers(7))
                if k == 0: spec = ("shift", spec, ref.r4(rng, -1, 1), ref.r4(rng, -1, 1))
                elif k == 1: spec = ("rot", spec, ref.r4(rng, -3, 3))
                elif k == 2: spec = ("rx", spec, ref.r4(rng, .5, 2))
                elif k == 3: spec = ("*", spec, ref.leaf(rng, 1.0))
                elif k == 4: spec = ("+", spec, ("num", ref.scalar(rng)))
                elif k == 5: spec = ("-", spec, ref.leaf(rng, 1.0))
                elif not ref.is_complex(spec): spec = ("cx", spec)
            x, y = ref.points(rng, 24)
            want, err = ref.reference(spec, x, y, R)
            obj = ref.build(P, spec)
            got = typed(obj(x, y), ct if ref.is_complex(spec) else rt, f"values of {spec!r}"[:300])
            if got.shape == want.shape: case.close(got, want, err * 1.0, f"values at {prec} bits of {spec!r}"[:300])
            typed(obj(x.astype(np.float32), y.astype(np.float32)), ct if ref.is_complex(spec) else rt, "values at float32 coordinates")
            for name in ("x0", "y0", "a", "w", "r", "wx", "wy", "c"):
                base = ref.build(P, leaf)
                if kind != "LG" and hasattr(base, name):
                    typed(getattr(base, name), ct if kind == "C" and isinstance(leaf[1], complex) else rt, f"parameter {name}")
        kind = ["DMD", "LCOS"][rng.integers(2)]
        for kind in ("DMD", "LCOS"):
            g = opt.geometry(rng, 6, 16, kind=kind)
            dev = g.make(P)
            for got, want in zip(dev.fourier_plane_grid + dev.image_plane_grid, g.fgrid() + g.igrid()):
                typed(got, rt, "grid"); case.close(got, want, 8 * R.eps * np.max(np.abs(want)), f"grid at {prec} bits")
            for v in (1, 0.1, np.ones((g.Ny, g.Nx)), np.ones((g.Ny, g.Nx), np.float32), np.ones((g.Ny, g.Nx), np.int32), tf.ones((g.Ny, g.Nx), tf.float32),
                      tf.ones((g.Ny, g.Nx), tf.float64), tf.constant(2, tf.int32), P.HermiteGaussian(0, 0, 1.0, 1e-4), P.ConstantProfile(0.1)):
                typed(dev.profile_to_tensor(v), rt, f"real field of a {type(v).__name__}")
                f = typed(dev.profile_to_tensor(v, complex=True), ct, f"complex field of a {type(v).__name__}")
                if isinstance(v, float) or isinstance(v, P.ConstantProfile): case.close(f, np.full((g.Ny, g.Nx), R.r(0.1)), 0, "the number 0.1 as a field")
            inp = (rng.normal(size=(g.Ny, g.Nx)) + 2.5 + 1j * rng.normal(size=(g.Ny, g.Nx))).astype(ct)
            tgt = (rng.normal(size=(g.Ny, g.Nx)) + 1j * rng.normal(size=(g.Ny, g.Nx))).astype(ct)
            sim = P.SLMSimulation(dev, int(rng.integers(4)), int(rng.integers(4)))
            for a in sim.image_plane_padded_grid + sim.fourier_plane_padded_grid: typed(a, rt, "padded grid")
            if kind == "DMD":
                typed(dev.theta, rt, "theta")
                eta = dev.calculate_dmd_state(inp, tgt, method="ideal")
                lee = opt.Lee(g, inp.astype(complex), tgt.astype(complex), R)
                typed(dev.dmd_state, rt, "gray-scale state")
                case.close(dev.dmd_state, lee.ideal, lee.err, f"gray-scale state at {prec} bits"); case.close(float(eta), lee.eta, lee.eta * 2 * lee.rel, "efficiency")
                mod = dev.dmd_state.astype(complex)
                o = dev.first_order_origin
                case.close(np.asarray(o, dtype=float), np.asarray(g.origin), 20 * R.eps * np.max(np.abs(g.origin)), f"first order origin at {prec} bits")
            else:
                dev.calculate_hologram(inp, np.abs(tgt), N=2); typed(dev.slm_state, rt, "gs hologram")
                dev.calculate_hologram(inp, np.abs(tgt), method="mraf", N=2, signal_window=1.0); typed(dev.slm_state, rt, "mraf hologram")
                mod = np.exp(1j * dev.slm_state.astype(float))
            sim.propagate_to_image(inp)
            Fo, E = c15.expected(g, inp.astype(complex) * mod, sim.padding_x, sim.padding_y)
            for name in ("input_field", "output_field", "image_plane_field"): typed(getattr(sim, name), ct, name)
            for name in ("input_intensity", "output_intensity", "image_plane_intensity"): typed(getattr(sim, name), rt, name)
            case.close(sim.image_plane_field, E, 4 * opt.fft_err(np.abs(Fo) + 1, R) * g.pixel ** 2 / g.lf, f"image plane field at {prec} bits")


def run(ctx):
    forked.prepare()

    def choice(case):
        def body(case):
            import tensorflow as tf
            rng = case.rng
            P = forked.library()
            B = P.BACKEND
            good = {32: [B.TENSOR_32BITS, tf.float32, np.float32, "float32"], 64: [B.TENSOR_64BITS, tf.float64, np.float64, "float64"]}
            bad = [getattr(tf, n) for n in BAD] + [np.float16, np.int64, None, "half"]
            final = 32
            seq = []
            for _ in range(int(rng.integers(0, 5))):
                k = int(rng.integers(3))
                if k == 0:
                    v = bad[rng.integers(len(bad))]; seq.append(f"bad {v}")
                    case.raises(Exception, lambda: setattr(B, "dtype", v), f"the precision {v} must be refused")
                    case.event("refused")
                elif k == 1:
                    v = int(rng.integers(2)); seq.append(f"fft {v}"); B.fft_backend = v
                    case.equal(int(B.fft_backend), v, "fft_backend reads back")
                else:
                    final = [32, 64][rng.integers(2)]
                    v = good[final][rng.integers(2 if rng.random() < .7 else 4)]; seq.append(f"set {v}")
                    B.dtype = v
            # the last word before the first use
            if ctx.prec != final:
                v = good[ctx.prec][rng.integers(2)]; B.dtype = v; seq.append(f"set {v}"); final = ctx.prec
            uses = first_uses(P)
            name = sorted(uses)[case.index % len(uses)]
            case.note(seq, "first use:", name)
            keep = uses[name]()
            case.event("first_uses")
            other = 96 - final
            rt = np.float32 if final == 32 else np.float64
            for _ in range(3):
                for v in good[other][:2] + [bad[rng.integers(len(bad))]]:
                    case.raises(Exception, lambda: setattr(B, "dtype", v), f"after {name} the precision {v} must be refused")
                    case.event("refused")
                case.equal(B.dtype.as_numpy_dtype, rt, f"a refused choice after {name} changed the precision")
                a = P.HermiteGaussian(0, 0, 1, 1)(0.3, 0.2)
                case.equal(a.dtype, np.dtype(rt), "a refused choice changed the type of the results")
            try: B.dtype = good[final][0]      # refused or harmless
            except Exception: case.event("refused")
            sweep(case, P, final, rng, 1)
            del keep
        forked.case(case, body)

    ctx.each("choice", ctx.n(19, 114), choice)

    def default(case):
        def body(case):
            P = forked.library()
            case.note("default precision")
            P.HermiteGaussian(0, 0, 1, 1)
            sweep(case, P, 32, case.rng, ctx.n(1, 3))
        forked.case(case, body)

    ctx.each("default", ctx.n(1, 4), default)

    def types(case):
        def body(case):
            P = forked.library(ctx.prec)
            case.note("sweep", case.index)
            sweep(case, P, ctx.prec, case.rng, ctx.n(4, 8))
        forked.case(case, body)

    ctx.each("types", ctx.n(4, 40), types)

    def fft(case):
        def body(case):
            import tensorflow as tf
            tap.install()
            P = forked.library()
            rng = case.rng
            P.BACKEND.fft_backend = int(rng.integers(2))
            P = forked.library(ctx.prec)
            R, B = ref.R(ctx.prec), P.BACKEND
            BE = [B.FFT_BACKEND_TENSORFLOW, B.FFT_BACKEND_NUMPY]
            case.true(BE[0] != BE[1], "two backends")

            def use(k):
                B.fft_backend = BE[k]
                case.equal(int(B.fft_backend), BE[k], "fft_backend reads back")
                case.event("switches")
            for _ in range(ctx.n(3, 8)):
                g = opt.geometry(rng, 6, 24); gl = opt.geometry(rng, 6, 24, kind="LCOS")
                if rng.random() < .3: gl.Nx, gl.Ny = g.Nx, g.Ny
                dev, lc = g.make(P), gl.make(P)
                px, py = [int(v) for v in rng.integers(0, 5, 2)]
                case.note("fft", g.desc(), gl.desc(), (px, py))
                sim = P.DMDSimulation(dev, px, py)
                order = [int(v) for v in rng.integers(0, 2, 2)] + [0, 1, 0]
                inp = (rng.normal(size=(g.Ny, g.Nx)) + 2.5 + 1j * rng.normal(size=(g.Ny, g.Nx))).astype(ctx.cdtype)
                tgt = (rng.normal(size=(g.Ny, g.Nx)) + 1j * rng.normal(size=(g.Ny, g.Nx))).astype(ctx.cdtype)
                lee = opt.Lee(g, inp.astype(complex), tgt.astype(complex), R)
                S = opt.sample(("CW", dict(x0=0.0, y0=0.0, r=.3 * g.lf / g.pixel)), g.igrid(), R)[0]
                N = int(rng.integers(1, 9))
                wanti, gray = c12.ifta(inp.astype(complex), lee.ideal, S, N, 1.0)
                firm = (np.abs(inp) > .02 * np.abs(inp).max()) & (np.abs(gray - .5) > (0.02 if ctx.prec == 32 else 1e-6))
                ginp = (rng.normal(size=(gl.Ny, gl.Nx)) + 2.5 + 1j * rng.normal(size=(gl.Ny, gl.Nx))).astype(ctx.cdtype)
                T = (rng.uniform(0.1, 1, (gl.Ny, gl.Nx)) ** 2).astype(ctx.rdtype)
                seed = int(rng.integers(2 ** 31))
                tap.arm(seed)
                seen = {}
                for k in order:
                    use(k)
                    eta = float(dev.calculate_dmd_state(inp, tgt, method="ideal"))
                    c09.compare(case, dev.dmd_state, lee, "ideal", "under either backend")
                    case.close(eta, lee.eta, lee.eta * (2 * lee.rel + 8 * ctx.eps), "efficiency")
                    if rng.random() < .5: use(1 - k)
                    mod = dev.dmd_state.astype(complex)
                    sim.propagate_to_image(inp)
                    Fo, E = c15.expected(g, inp.astype(complex) * mod, px, py)
                    f = sim.image_plane_field
                    case.close(f, E, 2 * opt.fft_err(np.abs(Fo) + 1, R) * g.pixel ** 2 / g.lf, "image plane field under either backend")
                    use(1 - k)
                    case.same(sim.image_plane_field, f, "switching the backend changed a finished result")
                    use(k)
                    dev.calculate_dmd_state(inp, tgt, method="simple"); c09.compare(case, dev.dmd_state, lee, "simple", "under either backend")
                    dev.calculate_dmd_state(inp, tgt, method="ifta", N=N, signal_window=S)
                    case.true(int((dev.dmd_state != wanti)[firm].sum()) <= max(1, (.05 if ctx.prec == 32 else .004) * max(20, wanti.sum())), "ifta mirrors under either backend")
                    tap.reseed(seed); dev.calculate_dmd_state(inp, tgt, method="random"); seen.setdefault("random", []).append(dev.dmd_state)
                    for n in (1, 2):
                        tap.reseed(seed); lc.calculate_hologram(ginp, T, N=n)
                        c = c13.starts(tap.log, T.shape)
                        seen.setdefault(f"gs{n}", []).append(lc.slm_state)
                        tapped = bool(c)
                    tap.reseed(seed); lc.calculate_hologram(ginp, T / T.size ** .5, method="mraf", N=2, signal_window=.7)
                    seen.setdefault("mraf", []).append(lc.slm_state)
                    case.event("fft_results", 7)
                tap.disarm()
                if tapped:
                    w = np.abs(opt.fast_to_fourier(T)); w = np.abs(ginp)
                    for name, states in seen.items():
                        for s in states[1:]:
                            if name == "random":
                                case.true(np.sum(s != states[0]) <= 1 + .01 * s.size, "random state from the same draws under either backend", differ=int(np.sum(s != states[0])))
                            else:
                                d = c13.compare(s.astype(float), states[0].astype(float), w)
                                case.true(d < (.03 if ctx.prec == 32 else 1e-4), f"{name} hologram from the same start under either backend", distance=d)
        forked.case(case, body)

    ctx.each("fft", ctx.n(8, 60), fft)
