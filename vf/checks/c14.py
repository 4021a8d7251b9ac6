"""C14: MRAF holograms: replayed against a float64 reference, and correct inside the signal window."""
import numpy as np
from vf import opt, ref, tap
from vf.checks import c13

RULE = ("each case computes mraf holograms on one random phase SLM for a random beam, target, signal window (profile, array, number) and mixing "
        "factor; with the random source tapped the state is compared with a float64 run of the documented rounds from the same start; the "
        "target outside the window must not matter; defaults are N=200 and mixing 0.4; without tap the simulated image must show the target's "
        "shape inside the window at its position and orientation; non-trivial: distinct device, beams, window, mixing factor")
NEED = {"cases": 30, "holograms": 80, "quality": 16, "orientation": 16, "scaled": 15, "frozen": 4, "large": 3}


def rounds(A, T, W, m, N, phi):
    pin = np.angle(A)
    for _ in range(N):
        F = opt.fast_to_image(A * np.exp(1j * phi)) / A.size
        G = opt.fast_to_fourier(m * T * np.exp(1j * np.angle(F)) * W + (1 - m) * F * (1 - W))
        phi = np.angle(G * np.exp(-1j * pin))
    return phi


def run(ctx):
    P, R = ctx.P, ref.R(ctx.prec)
    import tensorflow as tf

    def replay(case, g=None):
        rng = case.rng
        big = g is not None
        g = g or opt.geometry(rng, 8, 34, kind="LCOS")
        dev = g.make(P)
        si = c13.beams(rng, g); st = opt.target_profile(rng, g, cplx=False)
        inp = opt.sample(si, g.fgrid(), R)[0].astype(ctx.cdtype)
        # the target's scale matters against the input's power here: bring both to a similar level
        T = np.abs(opt.sample(st, g.igrid(), R)[0].real)
        if rng.random() < .4: T = rng.uniform(0, 1, T.shape) ** 2
        if rng.random() < .5:      # nothing depends on the units of the beams, as long as they agree
            ki = 10.0 ** int(rng.integers(-8, 9))
            inp = (inp * ki).astype(ctx.cdtype)
            case.note("scaled", ki); case.event("scaled")
        F0 = np.abs(opt.fast_to_image(inp.astype(complex))) / inp.size
        T = (T * np.linalg.norm(F0) / np.linalg.norm(T) * ref.r4(rng, .5, 2)).astype(ctx.rdtype)
        ex, ey = g.lf / g.pixel, g.lf / g.pixel
        k = int(rng.integers(4))
        ws = [("CW", dict(x0=ref.r4(rng, -.2, .2) * ex, y0=ref.r4(rng, -.2, .2) * ey, r=ref.r4(rng, .15, .4) * ex)),
              ("RW", dict(x0=ref.r4(rng, -.2, .2) * ex, y0=ref.r4(rng, -.2, .2) * ey, wx=ref.r4(rng, .2, .8) * ex, wy=ref.r4(rng, .2, .8) * ey)),
              ("SG", dict(x0=.1 * ex, y0=-.1 * ey, a=1.0, w=.3 * ex, p=2.0)), ("C", [1.0, 0.5][rng.integers(2)])][k]
        W, ew = opt.sample(ws, g.igrid(), R)
        W = W.real
        if ws[0] == "C": warg = ws[1] if rng.random() < .5 else np.full(W.shape, ws[1])
        elif np.isfinite(ew).all() and rng.random() < .5: warg = ref.build(P, ws)
        else: warg = W if rng.random() < .5 else tf.constant(W.astype(ctx.rdtype))
        case.note(g.desc(), repr((si, st, ws))[:400])
        seed = int(rng.integers(2 ** 31))
        tap.arm(seed)
        try:
            w = np.abs(inp) + 1e-12 * np.max(np.abs(inp))
            for _ in range(1 if big else 3):
                N = int(rng.integers(1, 4)); m = [ref.r4(rng, .05, .95), 0.4, 1.0, 0.5, 0.0, 0][rng.integers(6)]
                kw = dict(N=N, signal_window=warg, mixing_factor=m)
                if m == 0:
                    case.event("frozen")
                    if ws[0] == "C" and ws[1] == 1.0: continue      # nothing at all is left in the image
                if m == 0.4 and rng.random() < .6: kw.pop("mixing_factor")
                tap.reseed(seed)
                dev.calculate_hologram(inp, T, method="mraf", **kw)
                s1 = dev.slm_state
                c13.well_formed(case, dev, g, s1)
                cands = c13.starts(tap.log, (g.Ny, g.Nx))
                if not cands:
                    case.event("not_tapped"); continue
                best = min(c13.compare(s1.astype(float), rounds(inp.astype(complex), T.astype(float), W, m, N, c), w) for c in cands)
                case.true(best < (0.05 if ctx.prec == 32 else 2e-3), "not the hologram of N rounds from this start", N=N, mixing=m, distance=best)
                case.event("replayed")
                # the target outside the window does not matter
                if ws[0] in ("CW", "RW"):
                    T2 = np.where(W > 0, T, rng.uniform(0, 5 * T.max(), T.shape)).astype(ctx.rdtype)
                    wa = W
                    kw["signal_window"] = wa
                    tap.reseed(seed); dev.calculate_hologram(inp, T, method="mraf", **kw); a = dev.slm_state
                    tap.reseed(seed); dev.calculate_hologram(inp, T2, method="mraf", **kw); b = dev.slm_state
                    case.true(c13.compare(b.astype(float), a.astype(float), w) < 1e-3, "the target outside the signal window matters")
                    case.event("outside_free")
            if case.index % 3 == 0 and not big and c13.starts(tap.log, (g.Ny, g.Nx)):
                tap.reseed(seed); dev.calculate_hologram(inp, T, method="mraf", signal_window=warg, N=200, mixing_factor=0.4); a = dev.slm_state
                tap.reseed(seed); dev.calculate_hologram(inp, T, method="mraf", signal_window=warg); b = dev.slm_state
                case.true(c13.compare(b.astype(float), a.astype(float), w) < 1e-3, "the defaults are not 200 rounds with mixing factor 0.4")
                case.event("defaults")
        finally:
            tap.disarm()

    ctx.each("replay", ctx.n(24, 240), replay)

    def counting(case):
        """however many rounds: N+1 of them are N and one more, from the same start"""
        rng = case.rng
        g = opt.geometry(rng, 6, 20, kind="LCOS")
        dev = g.make(P)
        inp = opt.sample(c13.beams(rng, g), g.fgrid(), R)[0].astype(ctx.cdtype)
        F0 = np.abs(opt.fast_to_image(inp.astype(complex))) / inp.size
        T = rng.uniform(0, 1, inp.shape) ** 2
        T = (T * np.linalg.norm(F0) / np.linalg.norm(T)).astype(ctx.rdtype)
        W = np.zeros(inp.shape)
        W[g.Ny // 5:g.Ny // 5 + max(2, g.Ny // 2), g.Nx // 4:g.Nx // 4 + max(2, g.Nx // 2)] = 1
        m = ref.r4(rng, .3, .8)
        seed = int(rng.integers(2 ** 31))
        case.note("counting", g.desc(), m)
        w = np.abs(inp) + 1e-12 * np.max(np.abs(inp))
        tap.arm(seed)
        try:
            for N in [0, int(rng.integers(4, 60)), int(rng.integers(60, 260)), int(rng.integers(260, 1500))]:
                case.note(N)
                states = []
                for n in (N, N + 1):
                    tap.reseed(seed)
                    dev.calculate_hologram(inp, T, method="mraf", N=n, signal_window=W, mixing_factor=m)
                    c13.well_formed(case, dev, g, dev.slm_state)
                    states.append(dev.slm_state.astype(float))
                if not c13.starts(tap.log, (g.Ny, g.Nx)):
                    case.event("not_tapped"); continue
                want = rounds(inp.astype(complex), T.astype(float), W, m, 1, states[0])
                d = c13.compare(states[1], want, w)
                case.true(d < (0.03 if ctx.prec == 32 else 1e-5), "N+1 rounds are not N rounds and one more", N=N, distance=d)
                if c13.compare(states[0], want, w) > (0.09 if ctx.prec == 32 else 5e-5): case.event("rounds_counted")
        finally:
            tap.disarm()

    ctx.each("counting", ctx.n(8, 80), counting)

    def large(case):
        replay(case, opt.large(case.rng, case.index + 3 * ctx.seed, "LCOS", limit=2.2e6))
        case.event("large")

    ctx.each("large", ctx.n(3, 18), large)

    def quality(case):
        rng = case.rng
        g = opt.geometry(rng, 36, 60, kind="LCOS")
        dev = g.make(P)
        si = c13.beams(rng, g)
        IX, IY = g.igrid()
        ex, ey = IX.max() - IX.min(), IY.max() - IY.min()
        w = max(1.6 * g.lf / (min(g.Nx, g.Ny) * g.pixel), .06 * min(ex, ey))
        def spot(x, y, a): return ("SG", dict(x0=x * ex, y0=y * ey, a=a, w=w, p=1.5))
        sx, sy = rng.choice([-1, 1], 2)
        st = ("+", ("+", spot(.22 * sx, .2 * sy, 1.0), spot(.05 * sx, .25 * sy, .7)), spot(.26 * sx, .02 * sy, .5))
        ws = ("RW", dict(x0=.18 * sx * ex, y0=.15 * sy * ey, wx=.52001 * ex, wy=.52001 * ey))
        inp, ein = opt.sample(si, g.fgrid(), R)
        T, _ = opt.sample(st, g.igrid(), R)
        Wn, _ = opt.sample(ws, g.igrid(), R)
        F0 = np.abs(opt.fast_to_image(inp)) / inp.size
        scale = float(np.linalg.norm(F0) / np.linalg.norm(T)) * ref.r4(rng, .4, 1.2)
        arg = ref.build(P, si) if np.isfinite(ein).all() else np.array(inp).astype(ctx.cdtype)
        target = ref.build(P, st) * scale if rng.random() < .5 else (T.real * scale).astype(ctx.rdtype)
        if rng.random() < .4:      # something else outside the window: it must not appear
            junk = np.where(Wn > 0, T, 2 * np.roll(T[::-1, ::-1], 2, 0)).real
            target = (junk * scale).astype(ctx.rdtype)
        case.note("quality", g.desc(), repr((si, st))[:300])
        kw = {} if case.index % 2 else dict(N=int(rng.integers(80, 160)), mixing_factor=ref.r4(rng, .3, .6))
        dev.calculate_hologram(arg, target, method="mraf", signal_window=ref.build(P, ws), **kw)
        c13.well_formed(case, dev, g, dev.slm_state)
        sim = P.SLMSimulation(dev)
        sim.propagate_to_image(arg)
        F = np.abs(sim.image_plane_field.astype(complex))
        inw = Wn > 0.5
        c = c13.corr(F[inw], T.real[inw])
        case.true(c > 0.88, "the simulated image does not have the target's shape inside the window", correlation=c)
        for name, o in {"point reflected": F[::-1, ::-1], "mirrored left-right": F[:, ::-1], "mirrored up-down": F[::-1]}.items():
            case.true(c13.corr(o[inw], T.real[inw]) < c - 0.1, f"the image is {name}", correlation=c)
        best = max(((c13.corr(np.roll(F, (-dy, -dx), (0, 1))[inw], T.real[inw]), dx, dy) for dx in range(-2, 3) for dy in range(-2, 3)))
        case.equal(best[1:], (0, 0), "the image is displaced")
        case.event("quality"); case.event("orientation")

    ctx.each("quality", ctx.n(12, 120), quality)
