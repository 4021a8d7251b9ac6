"""C12: IFTA holograms against a float64 reference of the iteration, and their quality in the signal window."""
import numpy as np
from vf import opt, ref
from vf.checks import c09

RULE = ("each case computes ifta holograms on one random device (random beams, dark pixels, windows given as profile, array or number, N, s, "
        "both orders, both entry points) and compares the mirrors with a float64 reference of the N documented rounds, allowing only mirrors "
        "that rounding can flip; repeated calls must agree exactly; a second family compares the field in the signal window with the ideal "
        "one and with simple thresholding; non-trivial: distinct device, beams, N and s")
NEED = {"cases": 20, "mirrors": 20000, "on_mirrors": 1500, "changed_by_iteration": 300, "repeats": 20, "quality": 8, "dark_mirrors": 300, "scaled": 30, "flat": 40, "long_flat": 5, "stable_flat": 25, "rounds_counted": 5, "exact": 40, "soft_windows": 15, "changed_by_softness": 200, "large": 4, "no_rounds": 3, "default_rounds": 2}


def ifta(inp, ideal, window, N, s, noise=0.0, rng=None):
    """N rounds; noise: rounding errors of this size in every round"""
    g0 = s * ideal
    g = g0.copy()
    E0 = opt.fast_to_image(inp * g0)
    dark = inp == 0
    safe = np.where(dark, 1, inp)
    for k in range(1, N + 1):
        t = k * 0.5 / N
        b = np.where(g > 1 - t, 1.0, g)
        b = np.where(g < t, 0.0, b)
        E = opt.fast_to_image(inp * b)
        E = (E0 - E) * window + E
        g = np.where(dark, 0, np.real(opt.fast_to_fourier(E) / inp.size / safe))
        if noise: g = g + noise * rng.normal(size=g.shape)
    return g > 0.5, g


def run(ctx):
    import tensorflow as tf
    P, R = ctx.P, ref.R(ctx.prec)
    allowed = 0.05 if ctx.prec == 32 else 0.004

    def windowspec(rng, g, index):
        ix, iy = g.lf / (g.Nx * g.pixel) * g.Nx, g.lf / (g.Ny * g.pixel) * g.Ny
        ox, oy = g.origin
        if g.neg: ox, oy = -ox, -oy
        k = 4 if index % 4 == 1 else int(rng.integers(4))
        if k == 4: return ("+", ("C", float(rng.uniform(.05, .4))), ("HG", dict(x0=ref.r4(rng, -.2, .2) * ix, y0=ref.r4(rng, -.2, .2) * iy, a=ref.r4(rng, .2, .5), w=ref.r4(rng, .1, .5) * min(ix, iy), n=0, m=0)))
        if k == 0: return ("CW", dict(x0=ox, y0=oy, r=ref.r4(rng, .08, .3) * min(ix, iy)))
        if k == 1: return ("RW", dict(x0=ox, y0=oy, wx=ref.r4(rng, .1, .5) * ix, wy=ref.r4(rng, .1, .5) * iy))
        if k == 2: return ("CW", dict(x0=ref.r4(rng, -.3, .3) * ix, y0=ref.r4(rng, -.3, .3) * iy, r=ref.r4(rng, .05, .3) * min(ix, iy)))
        return ("C", [1.0, 0.0, 0.5][rng.integers(3)])

    def iteration(case, g=None):
        rng = case.rng
        big = g is not None
        g = g or opt.geometry(rng, 10, 30)
        dev = g.make(P)
        for _ in range(30):
            si, st, sw = c09.beams(case, g, R, rng)
            inp, ein = opt.sample(si, g.fgrid(), R); tgt, et = opt.sample(st, g.igrid(), R)
            win = None if sw is None else opt.sample(sw, g.fgrid(), R)[0]
            inp, tgt = inp.astype(ctx.cdtype), tgt.astype(ctx.cdtype)
            if win is not None: win = win.astype(ctx.cdtype)
            lee = opt.Lee(g, inp.astype(complex), tgt.astype(complex), R, None if win is None else win.astype(complex))
            if case.index % 2:     # a speckle target: the hologram has structure everywhere
                inp = np.where(inp == 0, 0, np.exp(1j * np.angle(inp)) * rng.uniform(.6, 1.2, inp.shape)).astype(ctx.cdtype)
                tgt = (rng.normal(size=inp.shape) + 1j * rng.normal(size=inp.shape)).astype(ctx.cdtype)
                lee = opt.Lee(g, inp.astype(complex), tgt.astype(complex), R, None if win is None else win.astype(complex))
            if lee.rel < 1e-2: break
        # nothing depends on the units of the beams
        if rng.random() < .5:
            ki, kt = [10.0 ** int(k) for k in rng.integers(-8, 9, 2)]
            inp, tgt = (inp * ki).astype(ctx.cdtype), (tgt * kt).astype(ctx.cdtype)
            lee = opt.Lee(g, inp.astype(complex), tgt.astype(complex), R, None if win is None else win.astype(complex))
            case.note("scaled", ki, kt); case.event("scaled")
        case.event("dark_mirrors", int(np.sum(inp == 0)))
        sws = windowspec(rng, g, case.index)
        SW, esw = opt.sample(sws, g.igrid(), R)
        number = sws[0] == "C"
        soft = sws[0] == "+"          # between 0 and 1: corrected in part
        if soft and rng.random() < .7: sws, SW, esw = "random values", rng.uniform(0, 1, SW.shape).astype(ctx.rdtype), np.nan
        if soft: case.event("soft_windows")
        SW = SW.astype(complex)
        for _ in range(2):
            N = int(rng.choice([1, 2, 3, 0, 5, 10, 20, 40, 200][:3 if big else 9])); s = float(rng.choice([1.0, 1.0, 0.8, 1.7, 2.5]))
            kw = dict(N=N, s=s)
            if s == 1.0 and rng.random() < .5: kw.pop("s")
            if N == 200 and rng.random() < .6: kw.pop("N"); case.event("default_rounds")
            if N == 0: case.event("no_rounds")
            if win is not None: kw["window"] = win
            k = int(rng.integers(3))
            if number: sarg = [sws[1], np.full(SW.shape, sws[1])][rng.integers(2)]
            elif k == 0 and np.isfinite(esw).all(): sarg = ref.build(P, sws)
            elif k == 1: sarg = tf.constant(SW.real.astype(ctx.rdtype))
            else: sarg = SW.real
            case.note(g.desc(), repr((si, st, sw, sws))[:300], N, s)
            want, gray = ifta(inp.astype(complex), lee.ideal, SW, N, s)
            entry = rng.random() < 0.75
            if entry:
                eta = float(dev.calculate_dmd_state(inp, tgt, method="ifta", signal_window=sarg, **kw))
                case.close(eta, lee.eta, lee.eta * (2 * lee.rel + 1e-5), "efficiency")
                call = lambda: dev.calculate_dmd_state(inp, tgt, method="ifta", signal_window=sarg, **kw)
            else:
                kw.pop("window", None)
                call = lambda: dev.set_dmd_grating_state(lee.a.astype(ctx.rdtype), lee.pin.astype(ctx.rdtype), lee.pout.astype(ctx.rdtype), method="ifta",
                                                         input_profile=tf.constant(inp), signal_window=tf.constant(SW.astype(ctx.cdtype)), **kw)
                call()
            got = dev.dmd_state
            case.true(isinstance(got, np.ndarray) and got.dtype == bool and got.shape == want.shape, "the state must be a boolean array of the device's shape", got=(got.dtype, got.shape))
            case.true(not np.any(got[inp == 0]), "a mirror that receives no light is on", count=int(np.sum(got[inp == 0])))
            # mirrors whose amplitude is dominated by rounding of the transforms may differ
            A = np.abs(inp.astype(complex))
            firm = (A > 0.02 * A.max()) & (np.abs(gray - 0.5) > (0.02 if ctx.prec == 32 else 1e-6))
            diff = (got != want)
            limit = max(1, allowed * max(int(want.sum()), 20))
            if not big:     # how many mirrors rounding can decide: those that noise in the reference flips
                noise = 1e-5 if ctx.prec == 32 else 1e-12
                flips = [int((ifta(inp.astype(complex), lee.ideal, SW, N, s, n, rng)[0] != want)[firm].sum()) for n in (noise, noise, noise / 10)]
                limit = min(limit, 3 + 4 * max(flips))
                case.event("exact", int(max(flips) == 0))
            case.true(int(diff[firm].sum()) <= limit, "mirrors differ from N rounds of the iteration", differ=int(diff[firm].sum()), of=int(firm.sum()), N=N, s=s)
            case.event("mirrors", int(firm.sum())); case.event("on_mirrors", int(want.sum()))
            case.event("changed_by_iteration", int(np.sum(want != (s * lee.ideal > 0.5))))
            case.event("differing_mirrors", int(diff[firm].sum())); case.event("differing_small", 0 if big else int(diff[firm].sum())); case.event("differing_cases", int(diff[firm].sum() > 0 and not big))
            if soft: case.event("changed_by_softness", int(np.sum(want != ifta(inp.astype(complex), lee.ideal, (SW.real > .5).astype(complex), N, s)[0])))
            call()
            case.same(dev.dmd_state, got, "a second call gives another state")
            case.event("repeats")

    ctx.each("iteration", ctx.n(70, 600), iteration)

    def large(case):
        iteration(case, opt.large(case.rng, case.index // 2 + 2 * ctx.seed, limit=1.3e6))
        case.event("large")

    ctx.each("large", ctx.n(4, 24), large)

    def flat(case):
        """flat gratings: few gray levels, away from 0 and 1, so that whole rounds binarize nothing or everything"""
        rng = case.rng
        g = opt.geometry(rng, 4, 14)
        g.period = float(rng.choice([2.5, 3, 3.5, 4, 5, 6])); g.theta = float(rng.choice([0, np.pi / 2, .3, .7]))
        shape = (g.Ny, g.Nx)
        long_ = case.index % 2 == 1
        noise = 1e-5 if ctx.prec == 32 else 1e-12
        for _ in range(12 if long_ else 40):        # one that stays away from 1/2, and of which rounding decides nothing
            A, ph = float(rng.choice([1.0, .9, .8])), ref.r4(rng, -3, 3)
            W = np.zeros(shape)
            r, c = sorted(rng.integers(0, g.Ny, 2)), sorted(rng.integers(0, g.Nx, 2))
            W[r[0]:r[1] + 1, c[0]:c[1] + 1] = 1.0
            N = int(rng.choice([700, 1500] if long_ else [20, 60, 200])); s = float(rng.choice([1.0, 1.0, .9]))
            ideal = A * (1 + np.cos(g.grating() - (-ph if g.neg else ph))) / 2
            want, gray = ifta(np.ones(shape), ideal, W, N, s)
            if np.min(np.abs(gray - .5)) < .02: continue
            other = ifta(np.ones(shape), ideal, W, N * 2 // 3, s)[0]
            if long_ and np.array_equal(want, other): continue      # the number of rounds should matter
            stable = all(np.array_equal(want, ifta(np.ones(shape), ideal, W, N, s, n, rng)[0]) for n in (noise, noise, noise / 10, noise / 10))
            if stable: break
        else:
            other, stable = want, False
        firm = np.abs(gray - .5) > .02
        dev = g.make(P)
        case.note("flat", g.desc(), A, ph, N, s, (r, c))
        dev.set_dmd_grating_state(A, 0.0, ph, method="ifta", N=N, s=s, input_profile=tf.ones(shape, ctx.cdtype), signal_window=tf.constant(W.astype(ctx.cdtype)))
        diff = dev.dmd_state != want
        case.true(dev.dmd_state.dtype == bool and (not stable or not diff[firm].any()), "mirrors differ from N rounds of the iteration (flat grating)",
                  differ=int(diff[firm].sum()), of=int(firm.sum()), N=N, s=s)
        case.event("mirrors", int(firm.sum())); case.event("on_mirrors", int(want.sum())); case.event("changed_by_iteration", int(np.sum(want != (s * ideal > 0.5))))
        case.event("flat"); case.event("long_flat", int(N > 400)); case.event("stable_flat", int(stable)); case.event("rounds_counted", int(stable and np.any(want != other))); case.event("differing_flat", int(diff[firm].sum()))

    ctx.each("flat", ctx.n(48, 500), flat)

    def quality(case):
        rng = case.rng
        g = opt.geometry(rng, 48, 64); g.Nx += g.Nx % 2; g.Ny += g.Ny % 2
        g.period = ref.r4(rng, 3, 5)
        dev = g.make(P)
        ix, iy = g.lf / (g.Nx * g.pixel), g.lf / (g.Ny * g.pixel); s_ = max(ix, iy)
        W = max(g.Nx, g.Ny) * g.pixel
        ox, oy = g.origin
        if g.neg: ox, oy = -ox, -oy
        st = ("HG", dict(x0=ref.r4(rng, -1, 1) * s_, y0=ref.r4(rng, -1, 1) * s_, a=ref.r4(rng, .5, 2), w=ref.r4(rng, 1.5, 2.5) * s_, n=int(rng.integers(2)), m=int(rng.integers(2))))
        si = ("HG", dict(x0=.05 * W, y0=0.0, a=ref.r4(rng, .5, 2), w=ref.r4(rng, .7, 1.1) * W, n=0, m=0))
        r = ref.r4(rng, 3.5, 5) * s_
        I, T = ref.build(P, si), ref.build(P, st)
        s = float(rng.choice([1.0, 0.8]))
        case.note("quality", g.desc(), st, s)
        gx, gy = g.igrid()
        inw = (gx - ox) ** 2 + (gy - oy) ** 2 <= (0.9 * r) ** 2
        sim = P.DMDSimulation(dev)

        def field(method, **kw):
            eta = float(dev.calculate_dmd_state(I, T, method=method, **kw))
            sim.propagate_to_image(I)
            return sim.image_plane_field.astype(complex), eta
        E0, eta = field("ideal")
        Es, _ = field("simple")
        kw = {} if s == 1.0 else {"s": s}
        if case.index % 3: kw["N"] = int(rng.integers(80, 160))
        Ei, eta2 = field("ifta", signal_window=P.RectangularWindowCircular(ox, oy, r), **kw)
        case.close(eta2, eta, 1e-6 * eta, "efficiency")
        err = lambda E: float(np.linalg.norm((E - s * E0)[inw]) / np.linalg.norm(s * E0[inw]))
        ei, es = err(Ei), err(Es)
        case.true(ei < 0.35, "the field in the signal window is not that of the ideal hologram", relative_error=ei, simple=es)
        case.true(ei < 0.7 * es, "not better than simple thresholding inside the signal window", ifta=ei, simple=es)
        case.event("quality")

    ctx.each("quality", ctx.n(10, 90), quality)
