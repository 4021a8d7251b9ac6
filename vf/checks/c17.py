"""C17: sequences of edits of the DMD state against a sequential model."""
import math
import numpy as np
from vf import opt, ref, tap
from vf.checks import c11

RULE = ("each case applies a random sequence of edits (all on, all off, full grating, circular patches of every method, centre and size, partly "
        "or fully outside the device, overlapping) to one random device; after each edit every mirror is compared with a model that applies "
        "the edits one by one; random gratings are judged by which mirrors may be on and, over repetition, by frequency; "
        "non-trivial: distinct device and sequence")
NEED = {"cases": 25, "edits": 250, "patches": 100, "mirrors": 60000, "kept_mirrors": 20000, "gray_values": 2000, "rim_pixels": 60, "random_patches": 10, "numpy_centres": 20, "repeated_edits": 30, "large": 4, "dark_gratings": 10}


def run(ctx):
    P, R, eps = ctx.P, ref.R(ctx.prec), ctx.eps
    import tensorflow as tf

    def grating(g, A, pi, po):
        s = -1 if g.neg else 1
        ph = g.grating() - s * (po - pi)
        return A * (1 + np.cos(ph)) / 2, ph

    def maps(rng, g, ctx):
        shape = (g.Ny, g.Nx)
        if rng.random() < .3:      # numbers only
            n = [[1, 0, 0], [0, 0, 0], [0.0, 1.0, 0.0]][rng.integers(3)] if rng.random() < .4 else [ref.r4(rng, .1, 1), ref.r4(rng, -3, 3), ref.r4(rng, -3, 3)]
            return [(v, np.full(shape, v, dtype=float)) for v in n]
        if rng.random() < .5: A = ref.r4(rng, .1, 1); Av = np.full(shape, A)
        else: A = rng.uniform(0, 1, shape).astype(ctx.rdtype); Av = A.astype(float)
        out = [(A, Av)]
        for _ in range(2):
            if rng.random() < .5: v = ref.r4(rng, -3, 3); out.append((v, np.full(shape, v)))
            else: v = rng.uniform(-3, 3, shape).astype(ctx.rdtype); out.append((v, v.astype(float)))
        return out

    def sequence(case, g=None):
        rng = case.rng
        big = g is not None
        g = g or opt.geometry(rng, 5, 36)
        dev = g.make(P)
        shape = (g.Ny, g.Nx)
        # model: lower and upper bound of every mirror's value
        lo, hi = np.zeros(shape), np.zeros(shape)
        terr = 60 * eps * (10 + np.max(np.abs(g.grating())))
        case.note(g.desc())

        def judge(what):
            s = dev.dmd_state
            case.true(isinstance(s, np.ndarray), f"after {what}: the state must be an array")
            case.equal(s.shape, shape, f"after {what}: shape")
            v = s.astype(float)
            case.true(np.all(np.isfinite(v)) and v.min() >= 0 and v.max() <= 1 + 1e-6, f"after {what}: values outside [0, 1]", lo=v.min(), hi=v.max())
            bad = (v < lo - terr) | (v > hi + terr)
            case.true(not bad.any(), f"after {what}: wrong mirrors", count=int(bad.sum()), at=np.argwhere(bad)[:2].tolist(), got=v[bad][:2], want=(lo[bad][:2], hi[bad][:2]))
            case.event("mirrors", v.size); case.event("edits")
            case.event("gray_values", int(np.sum((v > .02) & (v < .98))))

        judge("construction")
        case.true(not dev.dmd_state.any(), "a new device must be all off")
        ii, jj = np.meshgrid(np.arange(g.Ny), np.arange(g.Nx), indexing="ij")
        past = []
        for _ in range(8 if big else ctx.n(16, 26)):
            op = rng.random()
            if rng.random() < .1: g.neg = not g.neg; dev.negative_order = g.neg
            if op < .12:
                dev.set_dmd_state_on(); lo, hi = np.ones(shape), np.ones(shape)
                case.true(dev.dmd_state.dtype == bool, "all on must be boolean"); case.note("on"); judge("all on")
                continue
            if op < .24:
                dev.set_dmd_state_off(); lo, hi = np.zeros(shape), np.zeros(shape)
                case.true(dev.dmd_state.dtype == bool, "all off must be boolean"); case.note("off"); judge("all off")
                continue
            again = past and rng.random() < .35        # the same edit once more
            if again:
                M, method, kw, op, where = past[-1 if rng.random() < .5 else int(rng.integers(len(past)))]
                case.event("repeated_edits")
            else:
                M = maps(rng, g, ctx)
                method = ["ideal", "simple", "simple", "random"][rng.integers(4)]
                kw = {} if method == "random" and rng.random() < .5 else {"method": method}
            (A, Av), (pi, piv), (po, pov) = M
            ideal, ph = grating(g, Av, piv, pov)
            if method == "ideal": l, h = ideal, ideal
            elif method == "simple":
                l, h = (ideal > .5).astype(float), (ideal > .5).astype(float)
                un = np.abs(ideal - .5) < terr
                l, h = np.where(un, 0, l), np.where(un, 1, h)
            else:
                p0, p1 = c11.interval(ph, Av, 10.0, 1e-3 + 40 * eps * np.max(np.abs(g.grating())), 1e-6)
                l, h = (p0 > 1 - 1e-7).astype(float), (p1 > 1e-7).astype(float)
            if np.max(Av) == 0: case.event("dark_gratings")
            if op < .5:
                past.append((M, method, kw, op, None))
                dev.set_dmd_grating_state(A, pi, po, **kw)
                lo, hi = l, h
                case.note("grating", method); judge(f"full grating ({method})")
                if method != "ideal": case.true(dev.dmd_state.dtype == bool, f"a full {method} grating must be boolean", got=dev.dmd_state.dtype)
                continue
            k = int(rng.integers(5))
            if k < 2: ci, cj = ref.r4(rng, -.1, 1.1) * g.Ny, ref.r4(rng, -.1, 1.1) * g.Nx
            elif k < 4: ci, cj = int(rng.integers(-2, g.Ny + 2)), int(rng.integers(-2, g.Nx + 2))
            else: ci, cj = g.Ny + 30.0, -20
            d = [ref.r4(rng, 1, 1.2 * max(shape)), int(rng.integers(1, max(shape))), 2 * int(rng.integers(1, 8)), 10][rng.integers(4)]
            if rng.random() < .3:      # numbers from numpy are numbers
                kinds = (np.float64, np.asarray) + ((np.int64, np.int32) if float(ci).is_integer() and float(cj).is_integer() else ())
                ci, cj = [kinds[int(rng.integers(len(kinds)))](v) for v in (ci, cj)]
                case.event("numpy_centres")
            if again: ci, cj, d = where
            past.append((M, method, kw, op, (ci, cj, d)))
            rad = np.hypot(ii - ci, jj - cj)
            inside = rad < d / 2
            rim = np.abs(rad - d / 2) < 1e-4 * (d + 1)
            exact = float(ci).is_integer() and float(cj).is_integer() and float(d).is_integer()
            if exact:
                inside = 4 * ((ii - ci) ** 2 + (jj - cj) ** 2) < d * d
                case.event("rim_pixels", int(rim.sum())); rim[:] = False
            was = dev.dmd_state
            was_copy = was.copy()
            dev.circular_patch(ci, cj, A, pi, po, d, **kw)
            case.event("patches"); case.event("kept_mirrors", int(np.sum(~inside & ~rim)))
            if method == "random": case.event("random_patches")
            now = dev.dmd_state
            keep = ~inside & ~rim
            case.true(np.array_equal(now[keep].astype(float), was_copy[keep].astype(float)), f"a circular patch ({method}) changed mirrors outside its circle",
                      count=int(np.sum(now[keep].astype(float) != was_copy[keep].astype(float))))
            lo = np.where(rim, np.minimum(lo, l), np.where(inside, l, lo)); hi = np.where(rim, np.maximum(hi, h), np.where(inside, h, hi))
            case.note("patch", method, (ci, cj, d))
            judge(f"patch ({method})")
            if method != "ideal" and was_copy.dtype == bool:
                case.true(now.dtype == bool, "a binary patch on a binary state must stay boolean", got=now.dtype)

    ctx.each("sequence", ctx.n(56, 300), sequence)

    def large(case):
        """devices of the size of real ones"""
        sequence(case, opt.large(case.rng, case.index + 4 * ctx.seed))
        case.event("large")

    ctx.each("large", ctx.n(4, 24), large)

    def whole(case):
        """a patch that covers everything equals the full grating; one that covers nothing changes nothing; one grating for the whole device"""
        rng = case.rng
        g = opt.geometry(rng, 5, 30)
        dev, dev2 = g.make(P), g.make(P)
        (A, _), (pi, _), (po, _) = maps(rng, g, ctx)
        method = ["ideal", "simple"][case.index % 2]
        case.note("whole", g.desc(), method)
        dev.set_dmd_grating_state(A, pi, po, method=method)
        dev2.circular_patch(g.Ny / 2, g.Nx / 2, A, pi, po, 4 * (g.Nx + g.Ny), method=method)
        case.close(dev2.dmd_state.astype(float), dev.dmd_state.astype(float), 1e-6, "a patch over the whole device is the full grating")
        before = dev2.dmd_state.copy()
        dev2.circular_patch(-500, -500, 1, 0, 0, 10, method=method)
        case.close(dev2.dmd_state.astype(float), before.astype(float), 0, "a patch outside the device changes nothing")
        # two half patches put together
        dev3 = g.make(P)
        ci, cj, d = int(rng.integers(g.Ny)), int(rng.integers(g.Nx)), int(rng.integers(3, 14))
        dev3.set_dmd_state_on()
        dev3.circular_patch(ci, cj, A, pi, po, d, method=method)
        ii, jj = np.meshgrid(np.arange(g.Ny), np.arange(g.Nx), indexing="ij")
        ins = 4 * ((ii - ci) ** 2 + (jj - cj) ** 2) < d * d
        case.close(dev3.dmd_state.astype(float), np.where(ins, dev.dmd_state.astype(float), 1.0), 1e-6, "the patch shows the grating of the whole device")
        case.event("edits", 4); case.event("patches", 3); case.event("mirrors", 3 * ins.size); case.event("kept_mirrors", int((~ins).sum()))
        # default method of a patch, frequency of a random one
        on = 0; K = 60
        dev3.set_dmd_state_off()
        ideal_p, _, _ = c11.prob(g.grating(), np.full(ins.shape, .7), 10.0)
        for _ in range(K):
            dev3.circular_patch(ci, cj, .7, 0, 0, d)
            on += dev3.dmd_state.sum()
            case.true(dev3.dmd_state.dtype == bool and not dev3.dmd_state[~ins].any(), "default patch")
        want = K * ideal_p[ins].sum(); sd = math.sqrt(K * np.sum(ideal_p[ins] * (1 - ideal_p[ins])) + 1)
        case.true(abs(on - want) < 7 * sd + 15 + K * ins.sum() * 2e-3, "on-frequency of a random patch", got=on, want=want)
        case.event("random_patches")

    ctx.each("whole", ctx.n(12, 120), whole)
