"""C09: gray-scale and thresholded Lee holograms, pixel by pixel."""
import math
import numpy as np
from vf import opt, ref

RULE = ("each case computes holograms on one random device, from amplitude and phase maps or from a pair of beams (aberrated, apertured, sign "
        "changing inputs; asymmetric targets; windows; both orders), and compares every mirror with the Lee formula evaluated in float64 "
        "with explicit Fourier sums; thresholded states are compared wherever the gray level is not within rounding of 1/2; "
        "non-trivial: distinct device and beams")
NEED = {"cases": 40, "mirrors": 20000, "dark_mirrors": 1000, "windowed": 10, "negative": 20, "simple_mirrors": 8000, "aberrated": 10, "complex_windows": 5, "narrow": 10, "scaled": 10, "large": 6, "aligned": 150, "exact_halves": 20}


def beams(case, g, R, rng):
    si = opt.amp_phase_profile(rng, g)
    st = opt.target_profile(rng, g)
    sw = None
    if rng.random() < 0.5:
        k = int(rng.integers(6)); X, Y = g.Nx * g.pixel, g.Ny * g.pixel
        if k == 0: sw = ("CW", dict(x0=ref.r4(rng, -.2, .2) * X, y0=ref.r4(rng, -.2, .2) * Y, r=ref.r4(rng, 0.3, 0.6) * min(X, Y)))
        elif k == 1: sw = ("RW", dict(x0=ref.r4(rng, -.2, .2) * X, y0=ref.r4(rng, -.2, .2) * Y, wx=ref.r4(rng, .3, .9) * X, wy=ref.r4(rng, .3, .9) * Y))
        else: sw = ("SG", dict(x0=0.0, y0=ref.r4(rng, -.1, .1) * Y, a=ref.r4(rng, 0.5, 2), w=ref.r4(rng, .4, .8) * X, p=2.0))
        # a window may also shift the phase: it multiplies the field
        if k == 3: sw = ("*", sw, ("num", complex(ref.r4(rng, -1, 1), ref.r4(rng, .2, 1)))); case.event("complex_windows")
        elif k == 4: sw = ("HG", dict(x0=ref.r4(rng, -.2, .2) * X, y0=0.0, a=ref.r4(rng, 0.5, 2), w=ref.r4(rng, .3, .6) * X, n=1, m=int(rng.integers(2)))); case.event("complex_windows")
        elif k == 5: sw = ("LG", dict(x0=ref.r4(rng, -.1, .1) * X, y0=0.0, a=ref.r4(rng, 0.5, 2), w=ref.r4(rng, .3, .6) * X, l=int(rng.choice([-2, -1, 1, 2])), p=int(rng.integers(2)))); case.event("complex_windows")
        case.event("windowed")
    return si, st, sw


def as_input(rng, P, spec, values, ctx):
    """the beam as a profile, as an array, as a tensor"""
    import tensorflow as tf
    k = int(rng.integers(4))
    if k < 2: return ref.build(P, spec)
    if k == 2: return np.array(values).astype(ctx.cdtype)
    return tf.constant(np.array(values).astype(ctx.cdtype))


def decided(err):
    return np.isfinite(err) & (err < 0.02)


def compare(case, state, lee, method, what):
    case.true(isinstance(state, np.ndarray), what + ": the state must be an array")
    case.equal(state.shape, lee.ideal.shape, what + ": shape")
    if method == "simple":
        case.equal(state.dtype, np.dtype(bool), what + ": thresholded state must be boolean")
        sure = np.abs(lee.ideal - 0.5) > lee.err + 1e-9
        bad = sure & (state != (lee.ideal > 0.5))
        case.true(not bad.any(), what + ": wrong mirrors", count=int(bad.sum()), at=np.argwhere(bad)[:2].tolist(), gray=lee.ideal[bad][:2])
        case.event("simple_mirrors", int(sure.sum()))
    else:
        case.true(np.all(np.isfinite(state)), what + ": not finite", count=int(np.sum(~np.isfinite(state))))
        case.true(state.min() >= 0 and state.max() <= 1 + 1e-6, what + ": outside [0, 1]", lo=state.min(), hi=state.max())
        case.close(state, lee.ideal, lee.err, what + ": wrong gray level")
    case.event("mirrors", int(decided(lee.err).sum()))


def run(ctx):
    P, R = ctx.P, ref.R(ctx.prec)

    def from_beams(case, g=None):
        rng = case.rng
        several = 2 if g is None else 1
        g = g or opt.geometry(rng, 8, 34)
        dev = g.make(P)
        case.note(g.desc())
        for _ in range(several):
            si, st, sw = beams(case, g, R, rng)
            inp, ein = opt.sample(si, g.fgrid(), R); tgt, et = opt.sample(st, g.igrid(), R)
            win, ew = opt.sample(sw, g.fgrid(), R) if sw else (None, 0.0)
            if rng.random() < 0.3:
                g.neg = not g.neg; dev.negative_order = g.neg
            if g.neg: case.event("negative")
            bad = ~np.isfinite(ein)
            if sw: bad |= ~np.isfinite(ew); ew = np.where(bad, 0, ew)
            # pixels on the very edge of a window may go either way: give those inputs as arrays
            arr = bad.any()
            ein = np.where(bad, 0, ein)
            i_arg = np.array(inp).astype(ctx.cdtype) if arr else as_input(rng, P, si, inp, ctx)
            t_arg = as_input(rng, P, st, tgt, ctx)
            w_arg = (np.array(win).astype(ctx.cdtype) if arr else as_input(rng, P, sw, win, ctx)) if sw else None
            lee = opt.Lee(g, inp, tgt, R, win, ein, et, ew)
            case.note(repr((si, st, sw))[:500])
            if not (lee.rel < 0.02):
                case.event("ill_conditioned"); continue
            if ref.is_complex(si): case.event("aberrated")
            case.event("dark_mirrors", int(np.sum(inp == 0)))
            for method in (("ideal", "simple") if rng.random() < 0.7 else ("simple", "ideal", "ideal")):
                kw = {} if w_arg is None else {"window": w_arg}
                eta = dev.calculate_dmd_state(i_arg, t_arg, method=method, **kw)
                compare(case, dev.dmd_state, lee, method, f"calculate_dmd_state({method})")
                case.close(float(eta), lee.eta, lee.eta * (lee.rel * 2 + 1e-5), "efficiency")
                if method == "ideal":
                    near = lee.a > 1 - 1e-9
                    case.close(float(np.max(lee.a)), 1.0, 1e-12, "reference normalised")

    ctx.each("beams", ctx.n(40, 400), from_beams)

    def from_maps(case, g=None):
        rng = case.rng
        several = 3 if g is None else 1
        g = g or opt.geometry(rng, 3, 40)
        dev = g.make(P)
        case.note(g.desc())
        shape = (g.Ny, g.Nx)

        def one(lo, hi, positive=False):
            k = int(rng.integers(4))
            if k == 0:
                v = ref.r4(rng, lo, hi); return v, np.full(shape, R.r(v))
            if k == 1:
                v = rng.uniform(lo, hi, shape); return v, v.astype(ctx.rdtype).astype(float)
            if k == 2:
                import tensorflow as tf
                v = rng.uniform(lo, hi, shape).astype(ctx.rdtype); return tf.constant(v), v.astype(float)
            s = g.Nx * g.pixel
            if positive: spec = ("SG", dict(x0=0.1 * s, y0=0.0, a=ref.r4(rng, 0.1, 1), w=0.6 * s, p=1.0))
            else: spec = ("HG", dict(x0=0.1 * s, y0=0.0, a=ref.r4(rng, lo, hi) / 2, w=0.6 * s, n=1, m=0))
            v, e = opt.sample(spec, g.fgrid(), R)
            return ref.build(P, spec), v
        for _ in range(several):
            amp, A = one(0, 1, True); pin, PI = one(-3, 3); pout, PO = one(-6, 6)
            if rng.random() < 0.3: g.neg = not g.neg; dev.negative_order = g.neg
            if g.neg: case.event("negative")

            class L: pass
            lee = L()
            s = -1 if g.neg else 1
            lee.ideal = A * (1 + np.cos(g.grating() - s * (PO - PI))) / 2
            lee.err = (30 * R.eps * (4 + np.max(np.abs(g.grating())) + 60)) * np.ones(shape)
            for method in ("ideal", "simple"):
                if rng.random() < 0.15:
                    dev.set_dmd_grating_state(method=method)     # defaults: amplitude 1, phases 0
                    d = L(); d.ideal = (1 + np.cos(g.grating())) / 2; d.err = lee.err
                    compare(case, dev.dmd_state, d, method, f"set_dmd_grating_state({method}) with defaults")
                else:
                    dev.set_dmd_grating_state(amp, pin, pout, method=method)
                    compare(case, dev.dmd_state, lee, method, f"set_dmd_grating_state({method})")

    ctx.each("maps", ctx.n(30, 300), from_maps)

    def aligned(case):
        """gratings along the axes and diagonals, whole and half periods, angles given in every way, and mirrors whose value is exactly 1/2"""
        rng = case.rng
        thetas = [0, 0.0, math.pi, -math.pi, math.pi / 2, -math.pi / 2, 3 * math.pi / 2, 2 * math.pi, -2 * math.pi, math.pi / 4, -3 * math.pi / 4, 3 * math.pi / 4, 1, -4, 30.0, np.float64(math.pi), np.float64(.7), np.pi + 1e-4]
        g = opt.geometry(rng, 4, 26)
        g.theta = thetas[case.index % len(thetas)]
        g.period = [4, 2, 3, 4.3, 2.0, 1.5, 10, 1.0, np.float64(5.5), 1000.0][(case.index // 2) % 10]
        dev = g.make(P)
        case.note("aligned", g.desc())
        shape = (g.Ny, g.Nx)

        class L: pass
        lee = L()
        for amp, pi, po in ((1, 0, 0), (ref.r4(rng, .3, 1), ref.r4(rng, -3, 3), ref.r4(rng, -6, 6)), (1.0, 0.0, math.pi / 2), (.5, 0, 0), (0, 0, 1.0), (0.0, 0.0, 0.0)):
            s = -1 if g.neg else 1
            lee.ideal = amp * (1 + np.cos(g.grating() - s * (po - pi))) / 2
            lee.err = (30 * R.eps * (4 + np.max(np.abs(g.grating())) + 60)) * np.ones(shape)
            dev.set_dmd_grating_state(amp, pi, po, method="ideal"); gray = dev.dmd_state
            compare(case, gray, lee, "ideal", "aligned grating (ideal)")
            dev.set_dmd_grating_state(amp, pi, po, method="simple")
            compare(case, dev.dmd_state, lee, "simple", "aligned grating (simple)")
            if amp == .5:      # the crests, where the grating phase is zero: half on exactly, which is not more than half
                crest = (np.abs(g.grating()) < 1e-12) & (gray == .5)
                case.event("exact_halves", int(crest.sum()))
                case.true(not np.any(dev.dmd_state[crest]), "a mirror whose ideal value is 1/2 is on", at=np.argwhere(crest & (dev.dmd_state != 0))[:2].tolist())
            case.event("aligned")
        if g.neg: case.event("negative")

    ctx.each("aligned", ctx.n(36, 180), aligned)

    def large(case):
        """devices of the size of real ones: every mirror again"""
        g = opt.large(case.rng, case.index // 2 + 2 * ctx.seed)
        (from_beams if case.index % 2 else from_maps)(case, g)
        case.event("large")

    ctx.each("large", ctx.n(6, 36), large)

    def dark(case):
        """input beams that are dark nearly everywhere, on whole rows, or only lit in single pixels"""
        rng = case.rng
        g = opt.geometry(rng, 6, 24)
        dev = g.make(P)
        inp = (rng.normal(size=(g.Ny, g.Nx)) + 1j * rng.normal(size=(g.Ny, g.Nx)))
        inp = inp / np.abs(inp) * rng.uniform(0.5, 2, inp.shape)
        k = int(rng.integers(4))
        if k == 0: inp[rng.random(inp.shape) < 0.7] = 0
        elif k == 1: inp[: g.Ny // 2] = 0
        elif k == 2: inp[:, int(g.Nx // 2):] = 0
        else:
            keep = inp[g.Ny // 2, g.Nx // 2]; inp[:] = 0; inp[g.Ny // 2, g.Nx // 2] = keep
        inp = inp.astype(ctx.cdtype)
        if not np.any(inp): inp[0, 0] = 1
        tgt = (rng.normal(size=inp.shape) + 1j * rng.normal(size=inp.shape)).astype(ctx.cdtype)
        lee = opt.Lee(g, inp.astype(complex), tgt.astype(complex), R)
        case.note("dark", k, g.desc())
        case.event("dark_mirrors", int(np.sum(inp == 0)))
        if g.neg: case.event("negative")
        if not lee.rel < 0.02:
            case.event("ill_conditioned"); return
        for method in ("ideal", "simple"):
            dev.calculate_dmd_state(inp, tgt, method=method)
            compare(case, dev.dmd_state, lee, method, f"dark input, {method}")
            case.true(not np.any(dev.dmd_state[inp == 0]), "a mirror that receives no light is on", method=method)

    ctx.each("dark", ctx.n(16, 160), dark)

    def scales(case):
        """amplitudes of any scale, and beams so narrow that their tails underflow: always finite and in [0, 1]"""
        rng = case.rng
        g = opt.geometry(rng, 8, 34)
        dev = g.make(P)
        si, st, sw = beams(case, g, R, rng)
        W = max(g.Nx, g.Ny) * g.pixel
        narrow = case.index % 2 == 0
        if narrow:
            si = ("HG", dict(x0=ref.r4(rng, -.3, .3) * W, y0=ref.r4(rng, -.3, .3) * W, a=1.0, w=float(rng.uniform(.02, .2)) * W, n=int(rng.integers(2)), m=0))
        i0, _ = opt.sample(si, g.fgrid(), R); t0, _ = opt.sample(st, g.igrid(), R)
        ki, kt = [10.0 ** int(k) for k in rng.integers(-9, 10, 2)]
        if case.index % 4 == 1: ki, kt = 10.0 ** -int(rng.integers(6, 12)), 10.0 ** int(rng.integers(-12, -5))
        inp, tgt = (i0 * ki).astype(ctx.cdtype), (t0 * kt).astype(ctx.cdtype)
        if not np.any(inp): case.event("ill_conditioned"); return
        case.note("scales", g.desc(), repr((si, st))[:300], ki, kt)
        lee = opt.Lee(g, inp.astype(complex), tgt.astype(complex), R)
        A = np.abs(inp.astype(complex))
        contrast = A[A > 0].min() > (1e-30 if ctx.prec == 32 else 1e-280) * A.max()     # beyond, faint is as good as dark
        profile = rng.random() < .5
        for method in ("ideal", "simple"):
            if profile: dev.calculate_dmd_state(ref.build(P, ("*", si, ("num", ki))), ref.build(P, ("*", st, ("num", kt))), method=method)
            else: dev.calculate_dmd_state(inp, tgt, method=method)
            state = dev.dmd_state
            case.true(np.all(np.isfinite(state)), "not finite", count=int(np.sum(~np.isfinite(state))), method=method)
            case.true(state.min() >= 0 and state.max() <= 1 + 1e-6, "outside [0, 1]", lo=state.min(), hi=state.max())
            if not profile and contrast and lee.rel < .02:
                compare(case, state, lee, method, f"scaled beams, {method}"); case.event("scaled")
        case.event("narrow" if narrow else "wide")

    ctx.each("scales", ctx.n(28, 280), scales)

    def models(case):
        """full size devices"""
        rng = case.rng
        g0 = opt.geometry(rng)
        name = ["DLP7000", "DLP9500", "DLP9000"][case.index % 3]
        Nx, Ny, pix = {"DLP9500": (1920, 1080, 10.8), "DLP7000": (1024, 768, 13.68), "DLP9000": (2560, 1600, 7.56)}[name]
        g = opt.Geo(Nx, Ny, pix * 1e-6, g0.wavelength, g0.focal, g0.period, g0.theta, g0.neg)
        dev = getattr(P, name)(g.wavelength, g.focal, g.period, g.theta, g.neg)
        A, po = ref.r4(rng, 0.3, 1), ref.r4(rng, -3, 3)
        case.note(name, g.desc())

        class L: pass
        lee = L()
        lee.ideal = A * (1 + np.cos(g.grating() - (-po if g.neg else po))) / 2
        lee.err = 30 * R.eps * (4 + np.max(np.abs(g.grating()))) * np.ones((Ny, Nx))
        for method in ("ideal", "simple"):
            dev.set_dmd_grating_state(A, 0.0, po, method=method)
            compare(case, dev.dmd_state, lee, method, f"{name} {method}")

    ctx.each("models", ctx.n(2, 6), models)
