"""C22: independence of history: interleaved objects against their own references, and the same computation in fresh and used processes."""
import gc
import numpy as np
from vf import forked, opt, ref
from vf.checks import c09, c15, c20

LIBRARY = False
PLAN = {"quick": [(32, 3), (64, 3)], "thorough": [(32, 4), (64, 4)]}
RULE = ("(crowd) many devices and simulations of one size that differ in pixel size, wavelength, focal length, grating, order or padding are used in "
        "random interleaving, discarded and re-created, and every result is compared with the float64 reference of its own parameters; (changing) the same profile objects are used after each assignment of a parameter; (order) a "
        "catalogue of computations runs in random orders in used processes and every result is compared with the one the same computation gives "
        "alone in a fresh process; non-trivial: distinct parameters or order")
NEED = {"cases": 16, "crowd_results": 250, "objects": 150, "order_results": 100, "alone": 15, "recreated": 60, "generations": 12, "assignments": 80, "changing_results": 100, "reused": 200, "again": 60}


# ------------------------------------------------------------------- catalogue of computations, each self-contained
def catalogue(seed, prec):
    cd = np.complex64 if prec == 32 else np.complex128

    def rng(k): return np.random.default_rng([seed, k])

    def geos():
        r = rng(0)
        base = [opt.geometry(r, 10, 18) for _ in range(2)]
        out = []
        for b in base:
            for change in ({}, {"pixel": b.pixel * 1.37}, {"wavelength": b.wavelength * .8}, {"focal": b.focal * 1.6}, {"period": b.period + 1.3}, {"theta": b.theta + .9}, {"neg": not b.neg}):
                out.append(opt.Geo(**{**b.desc(), **change}))
            out.append(opt.Geo(**{**b.desc(), "Nx": b.Ny + 1, "Ny": b.Nx + 1}))
        return out
    G = geos()
    comps = {}

    def beams(k, g):
        r = rng(100 + k)
        f = (r.normal(size=(g.Ny, g.Nx)) + 2.5 + 1j * r.normal(size=(g.Ny, g.Nx))).astype(cd)
        t = (r.normal(size=(g.Ny, g.Nx)) + 1j * r.normal(size=(g.Ny, g.Nx))).astype(cd)
        return f, t

    def make(k, g):
        f, t = beams(k, g)

        def holo(P):
            d = g.make(P); eta = d.calculate_dmd_state(f, t, method="ideal")
            return {"state": d.dmd_state, "eta": float(eta), "origin": np.array(d.first_order_origin, dtype=float)}

        def simulate(P):
            d = g.make(P); d.dmd_state = np.abs(f) > 2.4
            s = P.DMDSimulation(d, k % 3, k % 2); s.propagate_to_image(f)
            out = {"field": s.image_plane_field, "power": float(s.get_image_plane_power()), "area": s.image_plane_pixel_area}
            s.block_zeroth_order()
            out["blocked"] = s.image_plane_field
            return out

        def profiles(P):
            d = g.make(P); W = g.Nx * g.pixel
            p = P.HermiteGaussian(.1 * W, 0, 1.0 + k, .4 * W, k % 3, 1) + P.Zernike(.5, W, 2 + k % 2, k % 2, extrapolate=bool(k % 2)).rotate(.1 * k) * 2
            q = p.shift(.05 * W * k, 0).as_complex_profile() * P.RectangularWindowCircular(0, 0, (.3 + .02 * k) * W)
            return {"real": np.array(d.profile_to_tensor(p)), "complex": np.array(d.profile_to_tensor(q, complex=True)),
                    "image": np.array(d.profile_to_tensor(P.LaguerreGaussian(0, 0, 1, (1 + k) * .01 * g.lf / g.pixel, k % 3, 1), at_fourier_plane=False, complex=True)),
                    "grid": np.array(d.fourier_plane_grid), "igrid": np.array(d.image_plane_grid)}

        def patches(P):
            d = g.make(P); d.set_dmd_grating_state(.8, .3, .1 * k, method="ideal")
            a = d.dmd_state
            d.circular_patch(g.Ny / 3, g.Nx / 2, .5, 0, k * .2, g.Ny / 2 + k, method="ideal")
            return {"grating": a, "patched": d.dmd_state}

        def ifta(P):
            d = g.make(P); d.calculate_dmd_state(f, t, method="ifta", signal_window=np.abs(t) > 1, N=3 + k % 4, s=1 + .1 * (k % 3))
            return {"bits": d.dmd_state}

        def simple(P):
            d = g.make(P); d.calculate_dmd_state(f, t, method="simple", window=.5 + .1 * k)
            a = d.dmd_state
            d.set_dmd_grating_state(.9, .1 * k, 0, method="simple")
            return {"bits": a, "grating": d.dmd_state}

        def bits(P):
            d = g.make(P); d.calculate_dmd_state(f, t)
            return {"type": np.array([str(d.dmd_state.dtype), str(d.dmd_state.shape)])}

        def gs(P):
            l = P.LCOS_SLM(g.wavelength, g.focal, g.Nx, g.Ny, g.pixel)
            kw = {"signal_window": np.abs(t) > 1, "mixing_factor": .5} if k % 2 else {}
            l.calculate_hologram(f, np.abs(t), method="mraf" if k % 2 else "gs", N=2, **kw)
            return {"type": np.array([str(l.slm_state.dtype), str(l.slm_state.shape)])}

        def phase(P):
            l = P.LCOS_SLM(g.wavelength, g.focal, g.Nx, g.Ny, g.pixel); l.slm_state = np.angle(t)
            s = P.SLMSimulation(l, k % 2, k % 4); s.propagate_to_image(f)
            return {"field": s.image_plane_field, "output": s.output_field, "grid": np.array(s.fourier_plane_padded_grid), "igrid": np.array(s.image_plane_padded_grid)}

        def analysis(P):
            from pySLM2 import analysis as A
            m = rng(900 + k).normal(size=(g.Ny, g.Nx))
            rad = min(g.Nx, g.Ny) / 2 - .3 * (k % 3)
            return {"coefficients": np.array(A.zernike_decomposition(m, rad, 4), float), "flat": np.asarray(A.remove_trivial_phase(m, rad, remove_defocus=bool(k % 2)), float)}

        def assign(P):
            p = P.SuperGaussian(0, 0, 1, 1, 1.0); x = np.linspace(-2, 2, 11)
            v = [p(x, x)]
            q = p * 2 - 1
            for j in range(3):
                p.w = 1 + .3 * j + k * .1; p.p = 1 + j; v += [p(x, x), q(x, 0 * x)]
            return {"values": np.array(v)}
        for fn in (holo, simple, bits, gs, simulate, profiles, patches, ifta, phase, analysis, assign): comps[f"{fn.__name__}{k}"] = fn
    for k, g in enumerate(G): make(k, g)

    def constants(P):
        out = {"c": np.array([P.ConstantProfile(v)(0.0, 0.0) for v in (0.1, -3, 2.5 + 1j)], dtype=complex)}
        for name, dev in (("7000", P.DLP7000(1e-6, .2, 4, .3)), ("9500", P.DLP9500(1e-6, .2, 4, .3)), ("pluto", P.PLUTO_2(1e-6, .2))):
            x, y = dev.fourier_plane_grid; u, v = dev.image_plane_grid
            out[name] = np.array([x[0, 0], x[-1, -1], y[0, 0], y[-1, -1], u[0, 0], u[-1, -1], v[0, 0], v[-1, -1]], float)
        return out
    comps["models"] = constants
    return comps


def same_result(case, got, want, eps, what):
    case.equal(sorted(got), sorted(want), what + ": results")
    for k in want:
        a, b = np.asarray(got[k]), np.asarray(want[k])
        case.true(a.shape == b.shape and a.dtype == b.dtype, f"{what}: {k} has another shape or type", got=(a.shape, a.dtype), want=(b.shape, b.dtype))
        if b.dtype.kind == "U": case.true(bool((a == b).all()), f"{what}: {k} differs", got=a, want=b)
        elif b.dtype == bool:
            case.true(np.sum(a != b) <= 1 + .01 * b.size, f"{what}: {k} differs", count=int(np.sum(a != b)))
        else:
            tol = 300 * eps * (np.max(np.abs(b[np.isfinite(b)])) if np.isfinite(b).any() else 1) + 1e-300
            case.close(a, b, tol, f"{what}: {k} differs from the result in a fresh process")


def run(ctx):
    forked.prepare()
    eps = ctx.eps
    alone = {}

    def order(case):
        rng = case.rng
        comps = catalogue(ctx.seed, ctx.prec)
        names = sorted(comps)
        # a few computations, each with its near twins (same size, other parameters)
        chosen = []
        for _ in range(ctx.n(3, 5)):
            kind = names[rng.integers(len(names))].rstrip("0123456789")
            half = int(rng.integers(2)) * 8
            group = [n for n in names if n.rstrip("0123456789") == kind and (not n[len(kind):] or half <= int(n[len(kind):]) < half + 8)]
            chosen += [group[j] for j in rng.permutation(len(group))[:4]]
        seq = chosen + [names[j] for j in rng.integers(0, len(names), 3)] + chosen[:3]
        seq = [seq[j] for j in rng.permutation(len(seq))]
        case.note("order", seq)

        def all_of_them():
            P = forked.library(ctx.prec)
            c = catalogue(ctx.seed, ctx.prec)
            return [(n, c[n](P)) for n in seq]
        try:
            used = forked.call(all_of_them)
        except forked.ChildFailed as e:
            case.true(False, "a computation fails in a used process: " + str(e)[:600])
        probe = [seq[j] for j in rng.permutation(len(seq))[:ctx.n(3, 6)]]
        for n in probe:
            if n not in alone:
                def one():
                    P = forked.library(ctx.prec)
                    return catalogue(ctx.seed, ctx.prec)[n](P)
                try: alone[n] = forked.call(one)
                except forked.ChildFailed as e: case.true(False, f"{n} fails in a fresh process: " + str(e)[:600])
                case.event("alone")
        for n, r in used:
            if n in alone:
                same_result(case, r, alone[n], eps, n); case.event("order_results", len(r))

    ctx.each("order", ctx.n(10, 120), order)

    def lifetimes(case):
        """what was computed with objects that have died since (dropped, and pushed out of every bounded cache) must not matter"""
        rng = case.rng
        names = sorted(catalogue(ctx.seed, ctx.prec))
        kinds = sorted({n.rstrip("0123456789") for n in names} - {"models"})
        half = int(rng.integers(2)) * 8

        # each generation does some kinds of computations, the last all: what one kind leaves behind meets the first use of another
        def some(share): return [kinds[j] + str(half + int(rng.integers(7))) for j in rng.permutation(len(kinds)) if rng.random() < share]
        rounds = [some(.35), some(.5), some(1.1)]
        case.note("lifetimes", rounds)

        def body():
            import weakref
            P = forked.library(ctx.prec)
            c = catalogue(ctx.seed, ctx.prec)
            out, died = [], 0
            for names in rounds:
                if names is rounds[-1]:
                    out += [(n, c[n](P)) for n in names]
                    break
                marker = P.DMD(1e-6, .2, 4, .3, 12, 10, 1e-5); marker.fourier_plane_grid
                w = weakref.ref(marker); del marker
                out += [(n, c[n](P)) for n in names]
                one = P.LCOS_SLM(1e-6, .2, 3, 2, 1e-5)
                for j in range(130):
                    d = P.DMD(1e-6, .2, 4, .3, 3, 2, 1e-5 * (j + 1)); d.fourier_plane_grid, d.image_plane_grid
                    s = P.SLMSimulation(one, 1, 1); s.fourier_plane_padded_grid, s.image_plane_padded_grid
                    del d, s
                gc.collect()
                died += w() is None
            return out, died
        try: used, died = forked.call(body)
        except forked.ChildFailed as e: case.true(False, "a computation fails after other objects have died: " + str(e)[:600])
        case.event("generations", 2); case.event("generations_died", died)
        probe = rounds[2]
        for n in [probe[j] for j in rng.permutation(len(probe))[:ctx.n(4, 10)]]:
            if n not in alone:
                try: alone[n] = forked.call(lambda: catalogue(ctx.seed, ctx.prec)[n](forked.library(ctx.prec)))
                except forked.ChildFailed as e: case.true(False, f"{n} fails in a fresh process: " + str(e)[:600])
                case.event("alone")
        for n, r in used:
            if n in alone:
                same_result(case, r, alone[n], eps, n); case.event("order_results", len(r))

    ctx.each("lifetimes", ctx.n(3, 40), lifetimes)

    def changing(case):
        """the same profile objects and devices all along, their parameters assigned in between: every result is that of the parameters of now"""
        def body(case):
            P = forked.library(ctx.prec)
            R = ref.R(ctx.prec)
            rng = case.rng
            g = opt.geometry(rng, 8, 18)
            devs = [(g, g.make(P)), (opt.Geo(**{**g.desc(), "pixel": g.pixel * 1.3}), None)]
            devs[1] = (devs[1][0], devs[1][0].make(P))
            sims = [P.DMDSimulation(d, 1, 2) for _, d in devs]
            X = g.Nx * g.pixel; ix = g.lf / (g.Nx * g.pixel)
            specs = {"input": ("HG", dict(x0=0.0, y0=.05 * X, a=1.0, w=.8 * X, n=0, m=0)), "target": ("HG", dict(x0=ix, y0=0.0, a=1.0, w=2 * ix, n=1, m=0)),
                     "window": ("SG", dict(x0=0.0, y0=0.0, a=1.0, w=.7 * X, p=2.0))}
            objs = {k: ref.build(P, s) for k, s in specs.items()}
            double = objs["input"] * 2
            comb = ("*", specs["input"], ("num", 2))
            case.note(g.desc(), specs)
            for step in range(ctx.n(16, 40)):
                if step % 4:
                    name = ["input", "input", "target", "window"][rng.integers(4)]
                    q = specs[name][1]
                    k = ["a", "w", "x0", "y0"][rng.integers(4)]
                    v = R.r(q[k] * float(rng.uniform(.75, 1.3)) + (float(rng.uniform(-.1, .1)) * q["w"] if k in ("x0", "y0") else 0))
                    setattr(objs[name], k, v); q[k] = v
                    case.event("assignments"); case.note(f"{name}.{k}")
                j = int(rng.integers(2)); gg, d = devs[j]
                inp, ein = opt.sample(specs["input"], gg.fgrid(), R); tgt, et = opt.sample(specs["target"], gg.igrid(), R); win, ew = opt.sample(specs["window"], gg.fgrid(), R)
                op = int(rng.integers(4))
                if op == 0:
                    for o, s, at in ((objs["input"], specs["input"], True), (double, comb, True), (objs["target"], specs["target"], False), (objs["window"], specs["window"], True)):
                        w_, e_ = opt.sample(s, gg.fgrid() if at else gg.igrid(), R)
                        case.close(np.array(d.profile_to_tensor(o, at_fourier_plane=at)), w_, 4 * e_, "field sampled after assignments")
                elif op < 3:
                    kw = {"window": objs["window"]} if op == 2 else {}
                    lee = opt.Lee(gg, inp, tgt, R, win if kw else None, ein, et, ew if kw else 0.0)
                    if not lee.rel < .02: continue
                    eta = float(d.calculate_dmd_state(objs["input"], objs["target"], method="ideal", **kw))
                    c09.compare(case, d.dmd_state, lee, "ideal", "hologram after assignments"); case.close(eta, lee.eta, lee.eta * (lee.rel * 2 + 8 * eps + 1e-5 * (ctx.prec == 32)), "efficiency after assignments")
                else:
                    d.dmd_state = m = rng.random((gg.Ny, gg.Nx)) > .5
                    s = sims[j]; s.propagate_to_image(objs["input"])
                    case.close(s.input_field[2:-2, 1:-1], inp, 4 * ein, "input field after assignments")
                    _, E = c15.expected(gg, inp.astype(complex) * m, 1, 2)
                    case.close(s.image_plane_field, E, (3 * opt.fft_err(np.abs(inp * m) + 1e-3, R) + 2 * float(np.sum(ein))) * gg.pixel ** 2 / gg.lf, "image plane field after assignments")
                    wi = float(np.sum(np.abs(inp) ** 2)) * gg.pixel ** 2
                    case.close(float(s.get_input_power()), wi, 1e-3 * wi, "power after assignments")
                case.event("changing_results")
        forked.case(case, body)

    ctx.each("changing", ctx.n(8, 80), changing)

    def reused(case):
        """one device and one simulation used for everything, one thing after the other: each result is that of a new device"""
        def body(case):
            P = forked.library(ctx.prec)
            rng = case.rng
            g = opt.geometry(rng, 8, 18)
            shape = (g.Ny, g.Nx)
            dev, sim, pad = g.make(P), None, tuple(int(v) for v in rng.integers(0, 3, 2))
            sim = P.DMDSimulation(dev, *pad)
            case.note("reused", g.desc(), pad)
            beam = lambda: (rng.normal(size=shape) + 2.5 + 1j * rng.normal(size=shape)).astype(ctx.cdtype)
            speckle = lambda: (rng.normal(size=shape) + 1j * rng.normal(size=shape)).astype(ctx.cdtype)
            pool = [beam() for _ in range(2)], [speckle() for _ in range(2)], [None, None, None, .5, (rng.random(shape) > .3) * 1.0, P.RectangularWindowCircular(0, 0, .37 * g.Nx * g.pixel)], [1.0, .5, (rng.random(shape) > .5) * 1.0]
            pick = lambda k: pool[k][rng.integers(len(pool[k]))]
            neg = g.neg
            for step in range(ctx.n(36, 90)):
                if rng.random() < .12: neg = not neg; dev.negative_order = neg
                k = int(rng.integers(7))
                if k < 3:
                    kw = {"method": ["ideal", "simple", "ifta"][k]}
                    if k == 2: kw.update(signal_window=pick(3), N=int(rng.integers(1, 6)))
                    if k == 2 and rng.random() < .4: kw["s"] = .8
                    w = pick(2)
                    if w is not None: kw["window"] = w
                    i, t = pick(0), pick(1)
                    def use(d): return float(d.calculate_dmd_state(i, t, **kw))
                elif k == 3:
                    a = [float(rng.uniform(.3, 1)), rng.random(shape)][rng.integers(2)], [0, float(rng.uniform(-3, 3))][rng.integers(2)], rng.uniform(-3, 3, shape)
                    kw = {"method": ["ideal", "simple"][rng.integers(2)]}
                    def use(d): d.set_dmd_grating_state(*a, **kw); return 0.0
                elif k == 4:
                    before = dev.dmd_state.copy()
                    a = int(rng.integers(g.Ny)), float(rng.uniform(0, g.Nx)), .8, 0, float(rng.uniform(-3, 3)), int(rng.integers(2, 9))
                    kw = {"method": ["ideal", "simple"][rng.integers(2)]}
                    def use(d): d.dmd_state = before; d.circular_patch(*a, **kw); return 0.0
                elif k == 5:
                    kw = {"method": "random"}
                    dev.calculate_dmd_state(pick(0), pick(1), window=.5); continue      # nothing to compare, but it happened
                else:
                    kw = {"method": "propagate"}
                    state = (rng.random(shape) > .5)
                    i = pick(0) if rng.random() < .6 else [1.0, 2.0 + 1j][rng.integers(2)]
                    blocks = rng.random() < .4
                    def use(d):
                        d.dmd_state = state
                        s = sim if d is dev else P.DMDSimulation(d, *pad)
                        s.propagate_to_image(i)
                        if blocks: s.block_zeroth_order()
                        d.seen = s.image_plane_field, s.input_field, s.output_field
                        return float(s.get_image_plane_power())
                new = opt.Geo(**{**g.desc(), "neg": neg}).make(P)
                got, want = use(dev), use(new)
                what = "the same device used again (" + kw["method"] + ")"
                case.close(got, want, 1e-5 * abs(want) + 1e-300, what + ": returned number")
                case.true(dev.dmd_state.dtype == new.dmd_state.dtype and dev.dmd_state.shape == new.dmd_state.shape, what + ": another type or shape of state", got=dev.dmd_state.dtype, want=new.dmd_state.dtype)
                if new.dmd_state.dtype == bool: case.true(np.sum(dev.dmd_state != new.dmd_state) <= .01 * new.dmd_state.size, what + ": another state", count=int(np.sum(dev.dmd_state != new.dmd_state)))
                else: case.close(dev.dmd_state, new.dmd_state, 300 * eps, what + ": another state")
                if k == 6:
                    for a, b in zip(dev.seen, new.seen): case.close(a, b, 300 * eps * np.abs(b).max(), what + ": another field")
                case.event("reused")
        forked.case(case, body)

    ctx.each("reused", ctx.n(8, 80), reused)

    def analysed(case):
        def body(case):
            c20.again(case, forked.library(ctx.prec), ctx.prec, eps, 12)
        forked.case(case, body)

    ctx.each("analysed", ctx.n(3, 30), analysed)

    def crowd(case):
        def body(case):
            P = forked.library(ctx.prec)
            R = ref.R(ctx.prec)
            rng = case.rng
            b = opt.geometry(rng, 6, 20); bl = opt.geometry(rng, 6, 20, kind="LCOS"); bl.Nx, bl.Ny = b.Nx, b.Ny

            def variant(base):
                g = opt.Geo(**base.desc())
                for f in rng.permutation(["pixel", "wavelength", "focal", "period", "theta", "neg", "swap"])[:int(rng.integers(1, 3))]:
                    if f in ("pixel", "wavelength", "focal"): setattr(g, f, getattr(g, f) * round(float(rng.uniform(.6, 1.7)), 3))
                    elif f == "period": g.period = ref.r4(rng, 2.3, 9)
                    elif f == "theta": g.theta = ref.r4(rng, -3, 3)
                    elif f == "neg": g.neg = not g.neg
                    elif rng.random() < .3: g.Nx, g.Ny = g.Ny, g.Nx
                return g
            inp = {}

            def beam(g):
                k = (g.Ny, g.Nx)
                if k not in inp: inp[k] = tuple((rng.normal(size=k) + s + 1j * rng.normal(size=k)).astype(ctx.cdtype) for s in (2.5, 0))
                return inp[k]
            things = []

            def add():
                base = [b, bl][rng.integers(2)]
                g = variant(base) if rng.random() < .8 else opt.Geo(**base.desc())
                d = g.make(P)
                px, py = [(0, 0), (1, 2), (2, 1), tuple(int(v) for v in rng.integers(0, 4, 2))][rng.integers(4)]
                s = (P.DMDSimulation if g.kind == "DMD" else P.SLMSimulation)(d, px, py)
                case.event("objects", 2)
                return (g, d, s, px, py)
            prof_spec = ("HG", dict(x0=1e-5, y0=-5e-6, a=1.2, w=5e-5, n=1, m=0))
            shared = ref.build(P, prof_spec)

            def use(t, k):
                g, d, s, px, py = t
                f, tg = beam(g)
                if k == 0:
                    for a, w in zip(d.fourier_plane_grid + d.image_plane_grid, g.fgrid() + g.igrid()): case.close(a, w, 8 * eps * np.abs(w).max(), "device grid among others")
                    for a, w in zip(s.fourier_plane_padded_grid + s.image_plane_padded_grid, g.fgrid(px, py) + g.igrid(px, py)): case.close(a, w, 8 * eps * np.abs(w).max() + 1e-30, "simulation grid among others")
                elif k == 1:
                    at = bool(rng.integers(2))
                    want, err = opt.sample(prof_spec, g.fgrid() if at else g.igrid(), R)
                    case.close(np.array(d.profile_to_tensor(shared, at_fourier_plane=at)), want, 4 * err, "field sampled among others")
                elif k == 2 and g.kind == "DMD":
                    eta = float(d.calculate_dmd_state(f, tg, method="ideal"))
                    lee = opt.Lee(g, f.astype(complex), tg.astype(complex), R)
                    c09.compare(case, d.dmd_state, lee, "ideal", "hologram among others"); case.close(eta, lee.eta, lee.eta * (2 * lee.rel + 8 * eps), "efficiency among others")
                    case.close(np.array(d.first_order_origin, float), np.array(g.origin), 20 * eps * np.abs(g.origin).max(), "first order origin among others")
                else:
                    st = rng.random((g.Ny, g.Nx))
                    if g.kind == "DMD": d.dmd_state = st > .5; mod = (st > .5).astype(complex)
                    else: d.slm_state = (6 * st).astype(ctx.rdtype); mod = np.exp(1j * d.slm_state.astype(float))
                    s.propagate_to_image(f)
                    Fo, E = c15.expected(g, f.astype(complex) * mod, px, py)
                    case.close(s.image_plane_field, E, 3 * opt.fft_err(np.abs(Fo) + 1, R) * g.pixel ** 2 / g.lf, "image plane field among others")
                    if g.kind == "DMD" and rng.random() < .5:
                        s.block_zeroth_order()
                        u, v = g.igrid(px, py); r = g.lf / (g.period * g.pixel) / 2; rad = np.hypot(u, v)
                        got = s.image_plane_field
                        case.true(not np.any(got[rad < r * (1 - 1e-4)]), "blocked disc among others"); case.close(got[rad > r * (1 + 1e-4)], E[rad > r * (1 + 1e-4)], 3 * opt.fft_err(np.abs(Fo) + 1, R) * g.pixel ** 2 / g.lf, "field outside the blocked disc among others")
                    wi = float(np.sum(np.abs(f.astype(complex)) ** 2)) * g.pixel ** 2
                    case.close(float(s.get_input_power()), wi, 1e-3 * wi, "power among others")
                case.event("crowd_results")
            for _ in range(6): things.append(add())
            case.note([t[0].desc() for t in things], [t[3:] for t in things])
            if case.index % 3 == 0:
                # more objects than any bounded cache holds, then the first ones again
                for t in things[:2]: use(t, 0)
                many = [variant(b) for _ in range(150)]
                held = []
                for g in many:
                    d = g.make(P); held.append((g, d, P.SLMSimulation(d, 1, 0), 1, 0)); case.event("objects", 2)
                    x, u = d.fourier_plane_grid[0], d.image_plane_grid[0]
                    case.close(x, g.fgrid()[0], 8 * eps * np.abs(x).max() + 1e-30, "grid of one of many"); case.close(u, g.igrid()[0], 8 * eps * np.abs(u).max() + 1e-30, "image grid of one of many")
                for j in rng.permutation(150)[:8]: use(held[j], 0)
                for t in things[:2]: use(t, 0); use(t, 3)
                del held
            for step in range(ctx.n(14, 40)):
                if rng.random() < .35:
                    things[rng.integers(len(things))] = add(); gc.collect(); case.event("recreated")
                use(things[rng.integers(len(things))], int(rng.integers(4)))
            # short-lived objects reuse the identity of dead ones
            for _ in range(10):
                t = add(); use(t, 0); del t; case.event("recreated")
        forked.case(case, body)

    ctx.each("crowd", ctx.n(9, 100), crowd)
