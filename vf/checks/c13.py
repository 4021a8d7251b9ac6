"""C13: Gerchberg-Saxton holograms: replayed against a float64 reference, monotone, and correct in the image plane."""
import numpy as np
from vf import opt, ref, tap

RULE = ("each case computes gs holograms on one random phase SLM for a random beam (aberrated, sign changing, apertured, plane) and a random "
        "asymmetric target; with the random source tapped the state is compared with a float64 run of the documented rounds from the same "
        "start, the mismatch must not increase with N, N=200 and gs are the defaults; without tap the simulated image must have the target "
        "amplitude at its position and orientation; non-trivial: distinct device, beams and N")
NEED = {"cases": 30, "holograms": 120, "quality": 16, "orientation": 16, "improved": 16, "scaled": 15, "large": 3}


def project(A, T, N, phi):
    """N rounds; A complex input beam, T target amplitude"""
    pin = np.angle(A)
    G = A
    for _ in range(N):
        F = opt.fast_to_image(A * np.exp(1j * phi))
        G = opt.fast_to_fourier(T * np.exp(1j * np.angle(F)))
        phi = np.angle(G * np.exp(-1j * pin))
    return phi, np.abs(G)


def starts(log, shape):
    """possible starting phases from the draws the library made"""
    if len(log) != 1 or log[0].shape != shape: return []
    u = log[0].astype(float)
    return [2 * np.pi * u, -2 * np.pi * u, u]


def compare(got, want, w):
    """weighted distance of two phase maps modulo a constant"""
    z = np.sum(w * np.exp(1j * (got - want))) / np.sum(w)
    z = z / abs(z) if abs(z) > 1e-9 else 1.0
    return float(np.sum(w * np.abs(np.exp(1j * (got - want)) - z)) / np.sum(w))


def beams(rng, g, positive=False):
    s = opt.amp_phase_profile(rng, g)
    if rng.random() < .25 and not positive:
        W = g.Nx * g.pixel
        s = ("HG", dict(x0=.04 * W, y0=.02 * W, a=ref.r4(rng, .5, 2), w=.45 * W, n=1, m=int(rng.integers(2))))   # changes sign
    return s


def well_formed(case, dev, g, state):
    case.true(isinstance(state, np.ndarray) and state.shape == (g.Ny, g.Nx), "the hologram must be an array of the device's shape", got=np.shape(state))
    case.true(np.issubdtype(state.dtype, np.floating), "the hologram must be real", got=state.dtype)
    case.true(np.all(np.isfinite(state)), "the hologram is not finite")
    case.event("holograms")


def corr(a, b):
    return float(np.sum(a * b) / np.sqrt(np.sum(a * a) * np.sum(b * b)))


def run(ctx):
    P, R = ctx.P, ref.R(ctx.prec)
    import tensorflow as tf

    def given(rng, spec, values):
        k = int(rng.integers(3))
        v = values.astype(ctx.cdtype if np.iscomplexobj(values) else ctx.rdtype)
        return ref.build(P, spec) if k == 0 else v if k == 1 else tf.constant(v)

    def replay(case, g=None):
        rng = case.rng
        big = g is not None
        g = g or opt.geometry(rng, 8, 36, kind="LCOS")
        dev = g.make(P)
        si = beams(rng, g); st = opt.target_profile(rng, g, cplx=False)
        inp, ein = opt.sample(si, g.fgrid(), R); tgt, et = opt.sample(st, g.igrid(), R)
        if not np.isfinite(ein).all(): arg = np.array(inp).astype(ctx.cdtype)
        else: arg = given(rng, si, inp)
        T = np.abs(tgt.real)
        if rng.random() < .3: T = rng.uniform(0, 1, T.shape) ** 2
        if rng.random() < .5:      # nothing depends on the units of the beams
            ki, kt = [10.0 ** int(k) for k in rng.integers(-8, 9, 2)]
            T = T * kt; inp = np.array(inp).astype(ctx.cdtype) * ctx.rdtype(ki); arg = inp
            case.note("scaled", ki, kt); case.event("scaled")
        T = T.astype(ctx.rdtype)
        case.note(g.desc(), repr((si, st))[:300])
        inp = np.array(inp).astype(ctx.cdtype).astype(complex)
        seed = int(rng.integers(2 ** 31))
        tap.arm(seed)
        try:
            errs = []
            Ns = [1, 2, 3, 5] + sorted(int(v) for v in rng.integers(6, 60, 2)) if not big else [1, 2, 6]
            for N in Ns:
                tap.reseed(seed)
                dev.calculate_hologram(arg, T, method="gs", N=N)
                st_ = dev.slm_state
                well_formed(case, dev, g, st_)
                cands = starts(tap.log, (g.Ny, g.Nx))
                if N <= 3 or (ctx.prec == 64 and N <= 5):
                    if cands:
                        best = min(compare(st_.astype(float), *project(inp, T.astype(float), N, c)) for c in cands)
                        case.true(best < (0.03 if ctx.prec == 32 else 1e-4), "not the hologram of N rounds from this start", N=N, distance=best)
                        case.event("replayed")
                    else:
                        case.event("not_tapped")
                if cands:
                    F = np.abs(opt.fast_to_image(inp * np.exp(1j * st_.astype(float))))
                    c = np.sqrt(np.sum(F ** 2) / np.sum(T.astype(float) ** 2))
                    errs.append((N, float(np.sum((F - c * np.abs(T)) ** 2) / np.sum(F ** 2))))
            for (n0, e0), (n1, e1) in zip(errs, errs[1:]):
                case.true(e1 <= e0 * (1 + 1e-3) + 1e-6, "more rounds increased the mismatch", rounds=(n0, n1), mismatch=(e0, e1))
                case.event("monotone_steps")
            if case.index % 3 == 0 and errs and not big:
                tap.reseed(seed); dev.calculate_hologram(arg, T, method="gs", N=200); a = dev.slm_state
                tap.reseed(seed); dev.calculate_hologram(arg, T); b = dev.slm_state
                w = np.abs(opt.fast_to_fourier(np.abs(T)))
                case.true(compare(b.astype(float), a.astype(float), np.abs(inp) + 1e-12 * np.max(np.abs(inp))) < 1e-3, "the defaults are not 200 rounds of gs")
                case.event("defaults")
        finally:
            tap.disarm()

    ctx.each("replay", ctx.n(20, 200), replay)

    def counting(case):
        """however many rounds: N+1 of them are N and one more, from the same start"""
        rng = case.rng
        g = opt.geometry(rng, 6, 20, kind="LCOS")
        dev = g.make(P)
        inp = opt.sample(beams(rng, g), g.fgrid(), R)[0].astype(ctx.cdtype)
        if rng.random() < .3: inp = (rng.normal(size=inp.shape) + 1j * rng.normal(size=inp.shape)).astype(ctx.cdtype)
        T = (rng.uniform(0, 1, inp.shape) ** 2).astype(ctx.rdtype)
        seed = int(rng.integers(2 ** 31))
        case.note("counting", g.desc())
        tap.arm(seed)
        try:
            for N in [0, int(rng.integers(6, 60)), int(rng.integers(60, 260)), int(rng.integers(260, 1500))]:
                case.note(N)
                states = []
                for n in (N, N + 1):
                    tap.reseed(seed)
                    dev.calculate_hologram(inp, T, method="gs", N=n)
                    well_formed(case, dev, g, dev.slm_state)
                    states.append(dev.slm_state.astype(float))
                if not starts(tap.log, (g.Ny, g.Nx)):
                    case.event("not_tapped"); continue
                want, w = project(inp.astype(complex), T.astype(float), 1, states[0])
                d = compare(states[1], want, w)
                case.true(d < (0.02 if ctx.prec == 32 else 1e-6), "N+1 rounds are not N rounds and one more", N=N, distance=d)
                if compare(states[0], want, w) > (0.06 if ctx.prec == 32 else 5e-6): case.event("rounds_counted")
        finally:
            tap.disarm()

    ctx.each("counting", ctx.n(8, 80), counting)

    def large(case):
        replay(case, opt.large(case.rng, case.index + 3 * ctx.seed, "LCOS", limit=2.2e6))
        case.event("large")

    ctx.each("large", ctx.n(3, 18), large)

    def quality(case):
        """untapped: simulate and look at the image"""
        rng = case.rng
        g = opt.geometry(rng, 30, 56, kind="LCOS")
        dev = g.make(P)
        si = beams(rng, g)
        # an asymmetric target off axis: three spots of different size
        IX, IY = g.igrid()
        ex, ey = IX.max() - IX.min(), IY.max() - IY.min()
        w = max(1.6 * g.lf / (min(g.Nx, g.Ny) * g.pixel), .06 * min(ex, ey))
        def spot(x, y, a): return ("SG", dict(x0=x * ex, y0=y * ey, a=a, w=w, p=1.5))
        sx, sy = rng.choice([-1, 1], 2)
        st = ("+", ("+", spot(.22 * sx, .2 * sy, 1.0), spot(.05 * sx, .25 * sy, .7)), spot(.26 * sx, -.04 * sy, .5))
        T, _ = opt.sample(st, g.igrid(), R)
        inp, ein = opt.sample(si, g.fgrid(), R)
        arg = ref.build(P, si) if np.isfinite(ein).all() else np.array(inp).astype(ctx.cdtype)
        case.note("quality", g.desc(), repr((si, st))[:300])
        kw = {} if case.index % 3 == 0 else dict(N=int(rng.integers(60, 200)))
        if case.index % 2: kw["method"] = "gs"
        dev.calculate_hologram(arg, ref.build(P, st), **kw)
        well_formed(case, dev, g, dev.slm_state)
        sim = P.SLMSimulation(dev)
        sim.propagate_to_image(arg)
        F = np.abs(sim.image_plane_field.astype(complex))
        c = corr(F, T)
        case.true(c > 0.9, "the simulated image does not have the target amplitude", correlation=c)
        others = {"point reflected": T[::-1, ::-1], "mirrored left-right": T[:, ::-1], "mirrored up-down": T[::-1]}
        if g.Nx == g.Ny: others["transposed"] = T.T
        for name, o in others.items():
            case.true(corr(F, o) < c - 0.1, f"the image is {name}", correlation=c, other=corr(F, o))
        best = max(((corr(F, np.roll(T, (dy, dx), (0, 1))), dx, dy) for dx in range(-3, 4) for dy in range(-3, 4)))
        case.equal(best[1:], (0, 0), "the image is displaced")
        case.event("quality"); case.event("orientation")
        # rounds help, from whatever start
        def mismatch(state):
            E = np.abs(opt.fast_to_image(inp * np.exp(1j * state.astype(float))))
            return float(np.sum((E / np.linalg.norm(E) - T.real / np.linalg.norm(T)) ** 2))
        many = mismatch(dev.slm_state)
        dev.calculate_hologram(arg, ref.build(P, st), N=1)
        case.true(many < mismatch(dev.slm_state), "60 rounds or more are no better than one"); case.event("improved")
        # two holograms start from different random phases
        first = dev.slm_state
        dev.calculate_hologram(arg, ref.build(P, st), N=1, method="gs")
        a = dev.slm_state
        dev.calculate_hologram(arg, ref.build(P, st), N=1, method="gs")
        w_ = np.abs(inp) + 1e-12
        case.true(compare(dev.slm_state.astype(float), a.astype(float), w_) > 0.05, "two runs started from the same phase")
        case.true(np.all(np.isfinite(first)), "the earlier hologram changed")

    ctx.each("quality", ctx.n(12, 120), quality)
