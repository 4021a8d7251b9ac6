"""C11: random binarization, judged statistically."""
import math
import numpy as np
from vf import opt, ref, tap
from vf.checks import c09

RULE = ("each case calls the random method many times on one random device and tests the recorded states: on-frequency per pixel, per "
        "(distance from grating maximum, amplitude) bin and overall against the documented probability, correlation between pixels at every "
        "lag and between calls, impossible and certain pixels; limits are above 6.5 standard deviations; a second family checks the mean "
        "diffracted order; non-trivial: distinct device, maps and r")
NEED = {"cases": 10, "states": 2500, "mirror_draws": 1000000, "bins": 200, "lags": 2000, "orders": 2, "large_lags": 10000000}
Z = 6.6


def prob(phase, A, r):
    P = np.arccos(np.clip(np.cos(phase), -1, 1)); W = np.arcsin(np.clip(A, 0, 1))
    return 0.5 * (np.tanh(r * (P + W)) - np.tanh(r * (P - W))), P, W


def interval(phase, A, r, dphase, dA):
    lo, hi = None, None
    for sp in (-1, 1):
        for sa in (-1, 0, 1):
            A2 = np.clip(A + sa * dA, 0, 1)
            P = np.arccos(np.clip(np.cos(phase), -1, 1)) + sp * dphase
            W = np.arcsin(A2)
            p = 0.5 * (np.tanh(r * (P + W)) - np.tanh(r * (P - W)))
            lo = p if lo is None else np.minimum(lo, p); hi = p if hi is None else np.maximum(hi, p)
    return np.clip(lo, 0, 1), np.clip(hi, 0, 1)


def judge(case, states, phase, A, r, dphase, dA, what):
    """states: (K, Ny, Nx) booleans"""
    K = len(states)
    p, P, W = prob(phase, A, r)
    lo, hi = interval(phase, A, r, dphase, dA)
    on = states.sum(0).astype(float)
    case.event("states", K); case.event("mirror_draws", states.size)
    case.true(not np.any(states[:, A == 0]), what + ": a pixel of zero amplitude is on")
    # per pixel
    excess = np.maximum(on - K * hi, 0) + np.maximum(K * lo - on, 0)
    sd = np.sqrt(K * np.clip(np.where(on > K * hi, hi * (1 - hi), lo * (1 - lo)), 0, None))
    lim = Z * sd + 30      # 30: beyond the Poisson tail for rare events
    k = np.unravel_index(np.argmax(excess - lim), excess.shape)
    case.true(excess[k] <= lim[k], what + ": on-frequency of a pixel", at=k, got=on[k] / K, want=p[k], calls=K)
    # rare and certain pixels together
    for name, sel, cnt, bound in (("never", hi < 1e-7, on, hi), ("always", lo > 1 - 1e-7, K - on, 1 - lo)):
        if sel.any():
            n = float(cnt[sel].sum())
            case.true(n <= 10 + 10 * K * float(bound[sel].sum()), what + f": pixels that should be {name} on", exceptions=n)
    # per bin of (P, W)
    nb = 8
    b = np.minimum((P / math.pi * nb).astype(int), nb - 1) * nb + np.minimum((W / (math.pi / 2) * nb).astype(int), nb - 1)
    for key in list(np.unique(b)) + [-1]:
        sel = np.ones_like(b, bool) if key == -1 else b == key
        n = on[sel].sum()
        l, h = K * lo[sel].sum(), K * hi[sel].sum()
        s = math.sqrt(K * np.sum(np.maximum(lo[sel] * (1 - lo[sel]), hi[sel] * (1 - hi[sel]))) + 1e-12)
        case.true(l - Z * s - 12 <= n <= h + Z * s + 12, what + ": on-frequency of a group of pixels", got=n / (K * sel.sum()), want=(l / K / sel.sum(), h / K / sel.sum()),
                  P=float(P[sel].mean()), W=float(W[sel].mean()), sigmas=(n - (l + h) / 2) / s)
        case.event("bins")
    # dependence: standardized residuals of uncertain pixels
    un = (p > 0.08) & (p < 0.92) & (hi - lo < 0.02)
    if un.sum() < 40: return
    res = np.where(un, (states - p) / np.sqrt(np.where(un, p * (1 - p), 1)), 0.0)
    F = np.fft.fft2(res, s=(2 * p.shape[0], 2 * p.shape[1]), axes=(1, 2))
    ac = np.real(np.fft.ifft2(np.mean(np.abs(F) ** 2, 0)))
    m = np.fft.fft2(un.astype(float), s=(2 * p.shape[0], 2 * p.shape[1]))
    pairs = np.round(np.real(np.fft.ifft2(np.abs(m) ** 2)))
    ok = pairs * K > 400
    z = np.where(ok, ac * K / np.sqrt(np.maximum(pairs, 1) * K), 0)
    z[0, 0] = 0
    k = np.unravel_index(np.argmax(np.abs(z)), z.shape)
    case.true(abs(z[k]) < Z + 2, what + ": pixels are not independent of each other", lag=k, sigmas=z[k], correlation=ac[k] / pairs[k])
    case.event("lags", int(ok.sum()))
    for lag in (1, 2, 3, 5, 7):
        if K > 4 * lag:
            c = res[lag:] * res[:-lag]
            zz = c.sum() / math.sqrt((K - lag) * un.sum())
            case.true(abs(zz) < Z + 1, what + ": successive calls are not independent", lag=lag, sigmas=zz)
    # mirrored pixels of one call (not on the axis of the mirror)
    for name, sl in (("left-right", np.s_[:, :, ::-1]), ("up-down", np.s_[:, ::-1, :]), ("both", np.s_[:, ::-1, ::-1])):
        jj, ii = np.meshgrid(np.arange(p.shape[1]), np.arange(p.shape[0]))
        first = (jj < p.shape[1] // 2) if name == "left-right" else (ii < p.shape[0] // 2)
        sel = un & un[sl[1:]] & first
        if sel.sum() > 20:
            zz = np.sum((res * res[sl])[:, sel]) / math.sqrt(sel.sum() * K)
            case.true(abs(zz) < Z + 1, what + f": {name} mirrored pixels are not independent", sigmas=zz)


def run(ctx):
    P_, R = ctx.P, ref.R(ctx.prec)

    def maps(case):
        rng = case.rng
        g = opt.geometry(rng, 14, 34)
        dev = g.make(P_)
        shape = (g.Ny, g.Nx)
        A = [rng.uniform(0, 1, shape), np.full(shape, ref.r4(rng, 0.2, 1)), np.where(rng.random(shape) < .3, 0, rng.uniform(0, .9, shape))][rng.integers(3)].astype(ctx.rdtype)
        pin = rng.uniform(-3, 3, shape).astype(ctx.rdtype) if rng.random() < .5 else 0.0
        pout = rng.uniform(-3, 3, shape).astype(ctx.rdtype) if rng.random() < .7 else ref.r4(rng, -3, 3)
        r = [None, 1.0, 3.0, ref.r4(rng, 0.5, 20), 100.0][case.index % 5]
        kw = {} if r is None else {"r": r}
        if rng.random() < 0.5: kw["method"] = "random"
        case.note(g.desc(), "r", r)
        s = -1 if g.neg else 1
        phase = g.grating() - s * (np.asarray(pout, dtype=float) - np.asarray(pin, dtype=float))
        K = ctx.n(160, 600)
        states = np.zeros((K,) + shape, bool)
        for k in range(K):
            dev.set_dmd_grating_state(A, pin, pout, **kw)
            st = dev.dmd_state
            case.true(isinstance(st, np.ndarray) and st.dtype == bool and st.shape == shape, "the state must be a boolean array of the device's shape", got=(st.dtype, st.shape))
            states[k] = st
        judge(case, states, phase, A.astype(float), 10.0 if r is None else r, 40 * R.eps * (4 + np.max(np.abs(g.grating()))), 2 * R.eps, "set_dmd_grating_state")

    ctx.each("maps", ctx.n(10, 60), maps)

    def beams(case):
        rng = case.rng
        g = opt.geometry(rng, 14, 32)
        dev = g.make(P_)
        for _ in range(20):
            si, st, sw = c09.beams(case, g, R, rng)
            inp, ein = opt.sample(si, g.fgrid(), R); tgt, et = opt.sample(st, g.igrid(), R)
            win, ew = opt.sample(sw, g.fgrid(), R) if sw else (None, 0.0)
            inp, tgt = np.array(inp).astype(ctx.cdtype), np.array(tgt).astype(ctx.cdtype)
            win = None if win is None else np.array(win).astype(ctx.cdtype)
            lee = opt.Lee(g, inp.astype(complex), tgt.astype(complex), R, None if win is None else win.astype(complex))
            if lee.rel < 0.01: break
        r = [None, 2.0, 6.0][case.index % 3]
        kw = {} if r is None else {"r": r}
        if win is not None: kw["window"] = win
        case.note(g.desc(), repr((si, st, sw))[:300], "r", r)
        K = ctx.n(160, 600)
        states = np.zeros((K, g.Ny, g.Nx), bool)
        for k in range(K):
            dev.calculate_dmd_state(inp, tgt, **kw)
            case.true(dev.dmd_state.dtype == bool and dev.dmd_state.shape == (g.Ny, g.Nx), "the state must be a boolean array of the device's shape")
            states[k] = dev.dmd_state
        dph = np.where(lee.a > 0, np.minimum(lee.ea / np.maximum(lee.a, 1e-12), 4), 0) + lee.phase_rounding
        judge(case, states, lee.phase, np.where(lee.a < 1e-14, 0, lee.a), 10.0 if r is None else r, dph, lee.ea, "calculate_dmd_state")

    ctx.each("beams", ctx.n(6, 36), beams)

    def sharp(case):
        """sharp threshold: mean selected order = target*eta/pi, orders separated by 16 target phases"""
        rng = case.rng
        g = opt.geometry(rng, 30, 44); g.Nx += g.Nx % 2; g.Ny += g.Ny % 2
        g.period = ref.r4(rng, 3, 5)
        dev = g.make(P_)
        ix, iy = g.lf / (g.Nx * g.pixel), g.lf / (g.Ny * g.pixel)
        s = max(ix, iy)
        W = max(g.Nx, g.Ny) * g.pixel
        for _ in range(40):
            st = ("HG", dict(x0=ref.r4(rng, -2, 2) * s, y0=ref.r4(rng, -2, 2) * s, a=1.0, w=ref.r4(rng, 1.2, 2) * s, n=0, m=0))
            si = ("HG", dict(x0=0.0, y0=0.0, a=1.0, w=ref.r4(rng, 1, 1.5) * W, n=0, m=0))
            inp, _ = opt.sample(si, g.fgrid(), R); tgt, _ = opt.sample(st, g.igrid(), R)
            lee = opt.Lee(g, inp, tgt, R)
            if lee.rel < 0.01: break
        case.note(g.desc(), st, si)
        Nd, out, eta = 16, 0, None
        inp, tgt = inp.astype(ctx.cdtype), tgt.astype(ctx.cdtype)
        for k in range(Nd):
            d = np.exp(2j * np.pi * k / Nd)
            eta = float(dev.calculate_dmd_state(inp, (tgt * d).astype(ctx.cdtype), method="random", r=2000.0))
            out = out + inp.astype(complex) * dev.dmd_state * np.conj(d) / Nd
            case.event("states")
        ox, oy = g.origin
        if g.neg: ox, oy = -ox, -oy
        jx = np.arange(g.Nx) - g.Nx // 2; jy = -(np.arange(g.Ny) - g.Ny // 2)
        gx, gy = g.igrid()
        E = g.pixel ** 2 / g.lf * (np.exp(2j * np.pi * np.outer(gy[:, 0] + oy, jy * g.pixel) / g.lf) @ out @ np.exp(2j * np.pi * np.outer(jx * g.pixel, gx[0] + ox) / g.lf))
        want = tgt.astype(complex) * eta / math.pi
        sig = np.abs(want) > 0.1 * np.abs(want).max()
        rel = float(np.linalg.norm((E - want)[sig]) / np.linalg.norm(want[sig]))
        case.true(rel < 0.1, "mean order is not target*eta/pi", relative_difference=rel, ratio=complex(np.vdot(want[sig], E[sig]) / np.vdot(want[sig], want[sig])))
        case.event("orders")

    ctx.each("sharp", ctx.n(4, 30), sharp)

    def rare(case):
        """mirrors of tiny probability, on devices large enough to see them: the total is Poisson distributed"""
        rng = case.rng
        g = opt.geometry(rng)
        g.Nx, g.Ny = int(rng.integers(700, 1100)), int(rng.integers(600, 900))
        dev = g.make(P_)
        r = [10.0, 4.0, 50.0][case.index % 3]
        K = ctx.n(5, 12)
        for a in (1e-7, 3e-6, 1e-4, float(10.0 ** rng.uniform(-4, -2))):
            A = np.full((g.Ny, g.Nx), R.r(a))
            lo, hi = interval(g.grating(), A, r, 40 * R.eps * (4 + np.max(np.abs(g.grating()))), 2 * R.eps * a)
            lo, hi = K * float(np.sum(np.maximum(lo - 2 * R.eps, 0))), K * float(np.sum(hi + 2 * R.eps))
            n = 0
            for _ in range(K):
                dev.set_dmd_grating_state(a, 0.0, 0.0, method="random", r=r)
                n += int(np.count_nonzero(dev.dmd_state))
            case.event("states", K); case.event("mirror_draws", K * A.size); case.event("rare_on", n)
            case.note("rare", g.Nx, g.Ny, a, r, n)
            case.true(lo - Z * math.sqrt(lo) - 8 <= n <= hi + Z * math.sqrt(hi) + 12, "number of mirrors on at tiny amplitude", amplitude=a, r=r, got=n, want=(lo, hi), calls=K, mirrors=A.size)

    ctx.each("rare", ctx.n(3, 18), rare)

    def large(case):
        """devices of the size of real ones: no draw is used twice, at whatever distance within a call or between two calls"""
        rng = case.rng
        g = opt.geometry(rng)
        g.Nx, g.Ny = [(2560, 1600), (1920, 1080), (int(rng.integers(900, 1600)), int(rng.integers(900, 1600))), (1024, 768), (64, 40000), (70000, 33)][(case.index + case.ctx.seed) % 6]
        dev = g.make(P_)
        A = rng.uniform(.05, .95, (g.Ny, g.Nx)).astype(ctx.rdtype)
        r = float(rng.choice([1.0, 2.0, 4.0]))
        p = prob(g.grating(), A.astype(float), r)[0]
        lo, hi = interval(g.grating(), A.astype(float), r, 40 * R.eps * (4 + np.max(np.abs(g.grating()))), 2 * R.eps)
        un = (p > 0.08) & (p < 0.92) & (hi - lo < 0.02)
        case.note("large", g.desc(), r)
        res = []
        for _ in range(2):
            dev.set_dmd_grating_state(A, 0.0, 0.0, method="random", r=r)
            st = dev.dmd_state
            case.true(st.shape == p.shape and st.dtype == bool, "the state must be a boolean array of the device's shape")
            res.append(np.where(un, (st - p) / np.sqrt(np.where(un, p * (1 - p), 1)), 0.0).astype(np.float32))
            n = int(np.sum(st)); l, h = float(lo.sum()), float(hi.sum()); sd = math.sqrt(float(np.sum(p * (1 - p))))
            case.true(l - Z * sd - 12 < n < h + Z * sd + 12, "number of mirrors on", got=n, want=(l, h))
        case.event("states", 2); case.event("mirror_draws", 2 * p.size)
        # correlation at every lag, row-major, column-major and two-dimensional; of a call with itself, its reflection and the next call
        import scipy.fft as sf
        for name, view in (("rows", lambda a: a.ravel()), ("columns", lambda a: a.T.ravel()), ("plane", lambda a: a)):
            F = [sf.fftn(view(a), workers=2) for a in res]
            M = sf.fftn(view(un.astype(np.float32)), workers=2)
            for what, S, T, self_ in (("one call", F[0] * np.conj(F[0]), M * np.conj(M), True), ("two calls", F[0] * np.conj(F[1]), M * np.conj(M), False),
                                      ("one call and its reflection", F[0] * F[0], M * M, True), ("two calls, one reflected", F[0] * F[1], M * M, False)):
                c = np.real(sf.ifftn(S, workers=2)).ravel(); n = np.real(sf.ifftn(T, workers=2)).ravel()
                z = np.where(n > 1000, c / np.sqrt(np.maximum(n, 1) * (2 if self_ and "reflection" in what else 1)), 0)
                if what == "one call": z[0] = 0
                k = int(np.argmax(np.abs(z)))
                case.true(abs(z[k]) < Z + 4, f"pixels of a large device are not independent ({what}, {name})", lag=k, sigmas=float(z[k]), correlation=float(c[k] / n[k]), limit_sigmas=Z + 4)
                case.event("large_lags", int(np.sum(n > 1000)))

    ctx.each("large", ctx.n(4, 24), large)

    def extreme(case):
        """draws at both ends of their range: a mirror of zero amplitude stays off whatever is drawn"""
        rng = case.rng
        g = opt.geometry(rng, 50, 60)
        g.Nx += 41 * (case.index % 7); g.Ny += 7 * ctx.shard
        dev = g.make(P_)
        A = np.where(rng.random((g.Ny, g.Nx)) < .5, 0.0, rng.random((g.Ny, g.Nx))).astype(ctx.rdtype)
        ends = np.array([0.0, 2.0 ** -149, 1 - 2.0 ** -24, 1 - 2.0 ** -53, 0.5])
        tap.source = lambda rng, shape: ends[rng.integers(5, size=shape)]
        tap.arm(case.index)
        try:
            for _ in range(4):
                del tap.log[:]
                dev.set_dmd_grating_state(A, rng.uniform(-3, 3, A.shape), 0.0, method="random", **({} if rng.random() < .5 else {"r": float(rng.choice([.5, 30.]))}))
                case.true(not np.any(dev.dmd_state[A == 0]), "a pixel of zero amplitude is on", count=int(np.sum(dev.dmd_state[A == 0])))
                case.event("states")
                if any(np.shape(u) == A.shape for u in tap.log): case.event("extreme_draws", A.size)
        finally:
            tap.source = None; tap.disarm()
        case.note("extreme", g.desc())

    ctx.each("extreme", ctx.n(4, 24), extreme)

    def zero(case):
        """no mirror of zero amplitude is on among more draws than there are numbers to draw from"""
        if ctx.prec != 32: return
        rng = case.rng
        g = opt.geometry(rng); g.Nx, g.Ny = 2560, 1600
        dev = g.make(P_)
        for k in range(ctx.n(12, 60)):
            dev.set_dmd_grating_state(0, 0.0, float(k), method="random")
            case.true(not np.any(dev.dmd_state), "a pixel of zero amplitude is on", call=k)
            case.event("states"); case.event("mirror_draws", g.Nx * g.Ny)
        case.note("zero", g.desc())

    ctx.each("zero", 2, zero)

    def between(case):
        """different kinds of calls on different devices, in two fresh processes that nobody seeded: nothing anywhere repeats"""
        import os, subprocess, sys, tempfile, shutil
        from vf import worker
        rng = case.rng
        g = opt.geometry(rng, 20, 30)
        K = ctx.n(40, 120)
        case.note("between", g.desc(), K)
        tmp = tempfile.mkdtemp(prefix="vfc11")
        try:
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", TF_NUM_INTRAOP_THREADS="2", PYTHONPATH=os.pathsep.join([worker.REPO, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))]))
            args = [repr((g.Nx, g.Ny, g.period, g.theta)), str(K), str(ctx.prec)]
            ps = [subprocess.Popen([sys.executable, "-c", BETWEEN, *args, f"{tmp}/{n}.npz"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE) for n in (0, 1)]
            for p in ps:
                err = p.communicate(timeout=300)[1]
                case.true(p.returncode == 0, "random gratings fail in a fresh process", error=err.decode(errors="replace")[-600:])
            runs = [dict(np.load(f"{tmp}/{n}.npz")) for n in (0, 1)]
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        series = {f"{k} ({'first' if n == 0 else 'second'} process)": v.reshape(K, -1) - v.reshape(K, -1).mean(0) for n, r in enumerate(runs) for k, v in r.items()}
        names = sorted(series)
        for a, x in enumerate(names):
            for y in names[a + 1:]:
                for lag in (0, 1, -1):
                    if lag and x[:6] == y[:6] and x.split(" (")[1] == y.split(" (")[1]: continue
                    u, v = series[x][max(0, lag):K + min(0, lag)], series[y][max(0, -lag):K + min(0, -lag)]
                    c = u * v
                    q = float(np.sum(c * c))
                    if q < 100: continue
                    z = float(np.sum(c)) / math.sqrt(q)
                    case.true(abs(z) < Z + 2, "two calls are not independent of each other", first=x, second=y, lag=lag, sigmas=z)
                    case.event("pairs_of_calls")
        case.event("states", K * len(names))

    ctx.each("between", ctx.n(2, 8), between)


BETWEEN = """
import sys
import numpy as np
Nx, Ny, period, theta = eval(sys.argv[1]); K = int(sys.argv[2])
import pySLM2 as P
if sys.argv[3] == "64": P.BACKEND.dtype = P.BACKEND.TENSOR_64BITS
a = P.DMD(7e-7, .2, period, theta, Nx, Ny, 1e-5); b = P.DMD(4e-7, .3, period + 1, theta + 1, Nx, Ny, 8e-6, negative_order=True); c = P.DMD(7e-7, .2, period, theta, Ny, Nx, 1e-5)
m = np.full((Ny, Nx), .6)
f = np.ones((Ny, Nx)); t = np.exp(1j * np.random.default_rng(5).uniform(-3, 3, (Ny, Nx)))
def order(d, neg):
    d.negative_order = neg
    return d
calls = {"one": lambda: order(a, False).set_dmd_grating_state(.6, 0.0, 0.0, r=1.0),
         "two, sharper": lambda: order(a, False).set_dmd_grating_state(.6, 0.0, 0.0, method="random", r=2.5),
         "three, other order": lambda: order(a, True).set_dmd_grating_state(.6, 0.0, 0.0, r=1.0),
         "four, map": lambda: order(a, False).set_dmd_grating_state(m, 0.2, m, r=1.0),
         "five, beams": lambda: a.calculate_dmd_state(f, t, r=1.0),
         "six, patch": lambda: a.circular_patch(Ny / 2, Nx / 2, .6, 0.0, 0.0, 4 * (Nx + Ny), r=1.0)}
other = {"seven, other device": (b, lambda: b.set_dmd_grating_state(.6, 0.0, 0.0, r=1.0)), "eight, turned": (c, lambda: c.set_dmd_grating_state(.6, 0.0, 0.0, r=1.0)),
         "nine, other beams": (b, lambda: b.calculate_dmd_state(f, t, method="random", r=1.0))}
out = {k: [] for k in [*calls, *other]}
for _ in range(K):
    for k, fn in calls.items(): fn(); out[k].append(np.array(a.dmd_state))
    for k, (d, fn) in other.items(): fn(); out[k].append(np.array(d.dmd_state))
np.savez(sys.argv[4], **{k: np.array(v, dtype=np.float32) for k, v in out.items()})
"""
