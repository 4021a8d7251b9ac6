"""C23: invalid and failing operations are reported and leave no trace."""
import numpy as np
from vf import faultpoints as fp, opt, ref
from vf.checks import c09, c15

LEVEL = "fault_enumeration"
RULE = ("each case builds devices, simulations and profiles with results in them and then (a) performs every kind of invalid call in random order, or "
        "(b) repeats one operation with a fault at its 1st, 2nd, ... eager operation, compiled call or numpy transform until none is left; after each, "
        "the call must have raised and everything observable must be as before, and at the end the same objects must still give the results of the "
        "reference; non-trivial: distinct objects and operation")
NEED = {"cases": 25, "invalid_calls": 800, "invalid_kinds": 90, "op_faults": 400, "faulted_operations": 30, "snapshots_compared": 1200, "worked_afterwards": 60}
ASSUMPTIONS = ["faults are injected at TensorFlow's eager execution entry points and numpy.fft; a fault inside a compiled function is one at its transforms or its call"]


class Raiser:
    def __array__(self, *a, **k):
        raise RuntimeError("this object refuses to be an array")


class World:
    def __init__(self, case, ctx):
        P, rng = ctx.P, case.rng
        self.P, self.ctx, self.rng = P, ctx, rng
        self.g = opt.geometry(rng, 6, 20)
        self.l = opt.geometry(rng, 6, 20, kind="LCOS")
        if rng.random() < .5: self.l.Nx, self.l.Ny = self.g.Nx, self.g.Ny
        self.fresh()
        case.note(self.g.desc(), self.l.desc())

    def field(self, g, real=False):
        f = self.rng.normal(size=(g.Ny, g.Nx)) + 1j * self.rng.normal(size=(g.Ny, g.Nx)) + 2
        return np.abs(f).astype(self.ctx.rdtype) if real else f.astype(self.ctx.cdtype)

    def fresh(self):
        P, rng, g, l = self.P, self.rng, self.g, self.l
        self.dmd, self.lcos = g.make(P), l.make(P)
        self.pads = [tuple(int(v) for v in rng.integers(0, 5, 2)) for _ in range(3)]
        self.sims = [P.DMDSimulation(self.dmd, *self.pads[0]), P.SLMSimulation(self.lcos, *self.pads[1]), P.SLMSimulation(self.dmd, *self.pads[2])]
        k = int(rng.integers(3))
        if k == 0: self.dmd.dmd_state = rng.random((g.Ny, g.Nx)) < .5
        elif k == 1: self.dmd.dmd_state = rng.random((g.Ny, g.Nx))
        else: self.dmd.set_dmd_state_on()
        self.lcos.slm_state = rng.uniform(-3, 3, (l.Ny, l.Nx))
        self.sims[0].propagate_to_image(self.field(g)); self.sims[1].propagate_to_image(self.field(l)); self.sims[2].propagate_to_image(self.field(g))
        self.empty, self.never = P.DMDSimulation(self.dmd), P.DMDSimulation(self.dmd, 1, 2)
        x = 5 * g.pixel
        self.hg = P.HermiteGaussian(0.0, x, 1.5, x, 1, 0); self.sg = P.SuperGaussian(0.0, x, 1.5, x, 2.0)
        self.cp = P.ConstantProfile(0.5); self.cw = P.CircularWindow(0.0, x, 2 * x) if hasattr(P, "CircularWindow") else None
        self.z = P.Zernike(1.0, 8 * g.pixel, 2, 0); self.lg = P.LaguerreGaussian(0.0, 0.0, 1.0, x, 1, 0)
        self.expr = self.hg * 2 + self.sg
        self.pts = (np.linspace(-2 * x, 2 * x, 5), np.linspace(-x, 2 * x, 5))

    def snapshot(self, deep=False):
        out = {"dmd_state": np.array(self.dmd.dmd_state), "slm_state": np.array(self.lcos.slm_state), "negative_order": bool(self.dmd.negative_order),
               "theta": float(self.dmd.theta), "origin": np.array([float(v) for v in self.dmd.first_order_origin]),
               "fft": int(self.P.BACKEND.fft_backend), "dtype": self.P.BACKEND.dtype.name}
        for n, s in enumerate(self.sims + [self.empty, self.never]):
            for a in ("input_field", "output_field", "image_plane_field"):
                v = getattr(s, a)
                out[f"sim{n}.{a}"] = None if v is None else np.array(v)
            out[f"sim{n}.size"] = (s.Nx, s.Ny, s.padding_x, s.padding_y)
        if deep:
            for a in ("x0", "y0", "a", "w"):
                out["hg." + a] = float(getattr(self.hg, a)); out["sg." + a] = float(getattr(self.sg, a))
            for a in ("n", "m"): out["hg." + a] = int(getattr(self.hg, a)); out["z." + a] = int(getattr(self.z, a))
            out["sg.p"] = float(self.sg.p)
            for n in ("hg", "sg", "cp", "z", "lg", "expr"): out[n] = np.array(getattr(self, n)(*self.pts))
            for n in ("fourier_plane_grid", "image_plane_grid"):
                for d in ("dmd", "lcos"): out[d + n] = np.array(getattr(getattr(self, d), n))
        return out

    def unchanged(self, case, before, deep, what):
        now = self.snapshot(deep)
        for k, v in before.items():
            w = now[k]
            if isinstance(v, np.ndarray) and isinstance(w, np.ndarray): case.same(w, v, f"{what}: {k} changed although the call failed")
            else: case.true(type(v) is type(w) and v == w, f"{what}: {k} changed although the call failed", before=v, after=w)
        case.event("snapshots_compared")

    def works(self, case, what):
        """the objects still do what the reference says"""
        R, g, l = ref.R(self.ctx.prec), self.g, self.l
        inp, tgt = self.field(g), self.field(g)
        lee = opt.Lee(g, inp.astype(complex), tgt.astype(complex), R)
        eta = self.dmd.calculate_dmd_state(inp, tgt, method="ideal")
        if lee.rel < .02:
            c09.compare(case, self.dmd.dmd_state, lee, "ideal", what + ", then calculate_dmd_state")
            case.close(float(eta), lee.eta, lee.eta * (lee.rel * 2 + 1e-5), what + ", then efficiency")
        st = self.rng.random((g.Ny, g.Nx)) < .5
        self.dmd.dmd_state = st
        for sim, gg, (px, py), mod in ((self.sims[0], g, self.pads[0], st), (self.sims[2], g, self.pads[2], st), (self.sims[1], l, self.pads[1], None), (self.empty, g, (0, 0), st)):
            if mod is None:
                ph = self.rng.uniform(-3, 3, (gg.Ny, gg.Nx)).astype(self.ctx.rdtype); self.lcos.slm_state = ph; mod = np.exp(1j * ph.astype(float))
            f = self.field(gg); sim.propagate_to_image(f)
            Fo, E = c15.expected(gg, f.astype(complex) * mod, px, py)
            Fi = np.pad(f.astype(complex), ((py, py), (px, px)))
            t = 80 * R.eps * np.max(np.abs(Fi))
            case.close(sim.input_field, Fi, t, what + ", then input field"); case.close(sim.output_field, Fo, t, what + ", then output field")
            case.close(sim.image_plane_field, E, (2 * opt.fft_err(np.abs(Fi) * (1 + np.abs(Fo)), R)) * gg.pixel ** 2 / gg.lf, what + ", then image plane field")
        self.lcos.calculate_hologram(self.field(l), self.field(l, True), N=2)
        s = self.lcos.slm_state
        case.true(s.shape == (l.Ny, l.Nx) and np.isrealobj(s) and np.all(np.isfinite(s)), what + ", then calculate_hologram", got=(s.shape, s.dtype))
        case.event("worked_afterwards")


def wrong_shapes(g):
    Ny, Nx = g.Ny, g.Nx
    c = [(Ny + 1, Nx), (Ny, Nx + 1), (Ny - 1, Nx), (Ny, Nx - 1), (Nx + 2 * Ny,), (Ny, Nx, 2), (0,), (Ny, 0), (2, Ny, Nx), (Ny * Nx,)]
    if Ny != Nx: c += [(Nx, Ny)]
    if Ny > 2: c += [(2, Nx)]
    return c


def invalid_calls(w):
    """[(what, call)]: every one of these must raise"""
    P, g, l, rng, ctx = w.P, w.g, w.l, w.rng, w.ctx
    import tensorflow as tf
    dmd, lcos = w.dmd, w.lcos
    okg, okt, okl = w.field(g), w.field(g), w.field(l)
    okla = w.field(l, True)
    out = []
    add = lambda what, fn: out.append((what, fn))
    # unknown methods
    for m in ("Ideal", "", None, "gs", "mraf", "RANDOM", "ideal ", "lee", 1, "idea", "randomm"):
        add(f"calculate_dmd_state(method={m!r})", lambda m=m: dmd.calculate_dmd_state(okg, okt, method=m))
        add(f"set_dmd_grating_state(method={m!r})", lambda m=m: dmd.set_dmd_grating_state(method=m))
        add(f"circular_patch(method={m!r})", lambda m=m: dmd.circular_patch(2, 2, 1, 0, 0, 4, method=m))
    for m in ("GS", "", None, "ideal", "random", "ifta", "mraf ", 0, "gss"):
        add(f"calculate_hologram(method={m!r})", lambda m=m: lcos.calculate_hologram(okl, okla, method=m, N=1))
    # missing required arguments
    add("calculate_dmd_state(ifta) without a signal window", lambda: dmd.calculate_dmd_state(okg, okt, method="ifta", N=2))
    add("calculate_hologram(mraf) without a signal window", lambda: lcos.calculate_hologram(okl, okla, method="mraf", N=2))
    add("calculate_hologram(mraf, mixing factor only)", lambda: lcos.calculate_hologram(okl, okla, method="mraf", N=2, mixing_factor=.3))
    add("set_dmd_grating_state(ifta) without arguments", lambda: dmd.set_dmd_grating_state(method="ifta", N=2))
    add("set_dmd_grating_state(ifta) without signal window", lambda: dmd.set_dmd_grating_state(method="ifta", N=2, input_profile=tf.constant(okg)))
    add("set_dmd_grating_state(ifta) without input", lambda: dmd.set_dmd_grating_state(method="ifta", N=2, signal_window=tf.constant(okg)))
    add("circular_patch(ifta) without arguments", lambda: dmd.circular_patch(2, 2, 1, 0, 0, 4, method="ifta", N=2))
    add("calculate_dmd_state without target", lambda: dmd.calculate_dmd_state(okg))
    add("calculate_hologram without target", lambda: lcos.calculate_hologram(okl))
    add("propagate without input", lambda: w.sims[0].propagate_to_image())
    # device types
    for bad in (None, "dmd", 3, w.hg, object(), w.sims[0], P.DMD, np.zeros((3, 3))):
        add(f"SLMSimulation({type(bad).__name__})", lambda bad=bad: P.SLMSimulation(bad))
        add(f"DMDSimulation({type(bad).__name__})", lambda bad=bad: P.DMDSimulation(bad))
    add("DMDSimulation(LCOS_SLM)", lambda: P.DMDSimulation(lcos))
    add("DMDSimulation(LCOS_SLM, padding)", lambda: P.DMDSimulation(lcos, 2, 2))
    add("DMDSimulation(PLUTO_2)", lambda: P.DMDSimulation(P.PLUTO_2(g.wavelength, g.focal)))
    # padding
    for bad in (1.5, 2.0, "2", None, [1], (1, 2), 1j, np.float64(3.0)):
        for S, d in ((P.SLMSimulation, lcos), (P.DMDSimulation, dmd), (P.SLMSimulation, dmd)):
            add(f"{S.__name__}(padding_x={bad!r})", lambda S=S, d=d, bad=bad: S(d, bad, 1))
            add(f"{S.__name__}(padding_y={bad!r})", lambda S=S, d=d, bad=bad: S(d, padding_y=bad))
    # precision
    for bad in (P.BACKEND.TENSOR_64BITS, P.BACKEND.TENSOR_32BITS, tf.float16, tf.int32, tf.complex64, "float8", None, 32, "double precision"):
        def setp(bad=bad): P.BACKEND.dtype = bad
        add(f"BACKEND.dtype = {bad!r} after use", setp)
    # fields of the wrong shape
    for k, sh in enumerate(wrong_shapes(g)):
        a = np.ones(sh, ctx.rdtype)
        forms = [a, tf.constant(a), a.astype(ctx.cdtype), tf.constant(a.astype(ctx.cdtype))]
        if a.size: forms.append(a.tolist())
        f = forms[int(rng.integers(len(forms)))]
        n = f"{type(f).__name__}{sh}"
        m = ("ideal", "simple", "random")[k % 3]
        add(f"calculate_dmd_state(input {n}, {m})", lambda f=f, m=m: dmd.calculate_dmd_state(f, okt, method=m))
        add(f"calculate_dmd_state(target {n}, {m})", lambda f=f, m=m: dmd.calculate_dmd_state(okg, f, method=m))
        add(f"calculate_dmd_state(input and target {n}, {m})", lambda f=f, m=m: dmd.calculate_dmd_state(f, f, method=m))
        add(f"calculate_dmd_state(window {n}, {m})", lambda f=f, m=m: dmd.calculate_dmd_state(okg, okt, method=m, window=f))
        add(f"calculate_dmd_state(ifta, signal window {n})", lambda f=f: dmd.calculate_dmd_state(okg, okt, method="ifta", N=2, signal_window=f))
        add(f"set_dmd_grating_state(amp {n})", lambda f=f, m=m: dmd.set_dmd_grating_state(f, method=m))
        add(f"set_dmd_grating_state(phase_in {n})", lambda f=f, m=m: dmd.set_dmd_grating_state(.5, f, method=m))
        add(f"set_dmd_grating_state(phase_out {n})", lambda f=f, m=m: dmd.set_dmd_grating_state(.5, 0, f, method=m))
        add(f"circular_patch({n})", lambda f=f, m=m, k=k: dmd.circular_patch(2, 2, *[f if i == k % 3 else .5 for i in range(3)], 4, method=m))
        for n2, sim in (("DMD", w.sims[0]), ("padded", w.sims[2]), ("empty", w.empty)):
            add(f"propagate_to_image({n}), {n2} simulation", lambda f=f, sim=sim: sim.propagate_to_image(f))
    for k, sh in enumerate(wrong_shapes(l)):
        a = np.ones(sh, ctx.rdtype); f = a if rng.random() < .5 else tf.constant(a)
        n = f"{type(f).__name__}{sh}"
        add(f"calculate_hologram(input {n})", lambda f=f: lcos.calculate_hologram(f, okla, N=1))
        add(f"calculate_hologram(target {n})", lambda f=f: lcos.calculate_hologram(okl, f, N=1))
        add(f"calculate_hologram(input and target {n})", lambda f=f: lcos.calculate_hologram(f, f, N=1))
        add(f"calculate_hologram(mraf, signal window {n})", lambda f=f: lcos.calculate_hologram(okl, okla, method="mraf", N=1, signal_window=f))
        add(f"propagate_to_image({n}), LCOS simulation", lambda f=f: w.sims[1].propagate_to_image(f))
    # things that are no fields at all
    for what, bad in (("None", None), ("object", object()), ("text", "beam"), ("ragged list", [[1, 2], [3]]), ("array of text", np.full((g.Ny, g.Nx), "a")),
                      ("object that refuses", Raiser()), ("dict", {"a": 1}), ("class", P.HermiteGaussian), ("base profile", P.FunctionProfile())):
        add(f"calculate_dmd_state(input {what})", lambda bad=bad: dmd.calculate_dmd_state(bad, okt, method="ideal"))
        add(f"calculate_dmd_state(target {what})", lambda bad=bad: dmd.calculate_dmd_state(okg, bad, method="ideal"))
        add(f"set_dmd_grating_state({what})", lambda bad=bad: dmd.set_dmd_grating_state(1, bad, 0, method="ideal"))
        add(f"circular_patch({what})", lambda bad=bad: dmd.circular_patch(3, 3, 1, 0, bad, 5, method="ideal"))
        add(f"calculate_hologram(input {what})", lambda bad=bad: lcos.calculate_hologram(bad, okla, N=1))
        add(f"calculate_hologram(target {what})", lambda bad=bad: lcos.calculate_hologram(okl, bad, N=1))
        add(f"propagate_to_image({what})", lambda bad=bad: w.sims[0].propagate_to_image(bad))
        add(f"propagate_to_image({what}), LCOS", lambda bad=bad: w.sims[1].propagate_to_image(bad))
        if bad is not None:
            add(f"calculate_dmd_state(window {what})", lambda bad=bad: dmd.calculate_dmd_state(okg, okt, method="ideal", window=bad))
    # refused before the first propagation, states that cannot be packed, the abstract device
    add("block_zeroth_order before a propagation", lambda: w.never.block_zeroth_order())
    add("block_zeroth_order(r) before a propagation", lambda: w.never.block_zeroth_order(1e-3))
    base = P.SLM(g.wavelength, g.focal, g.Nx, g.Ny, g.pixel)
    add("propagation through the abstract SLM", lambda: P.SLMSimulation(base).propagate_to_image(okg))
    add("block_zeroth_order(text)", lambda: w.sims[0].block_zeroth_order("near"))
    # profiles
    for bad in ("2", None, [1.0], {}, object()):
        for op, fn in (("+", lambda p, b: p + b), ("-", lambda p, b: p - b), ("*", lambda p, b: p * b), ("/", lambda p, b: p / b), ("**", lambda p, b: p ** b)):
            add(f"profile {op} {type(bad).__name__}", lambda fn=fn, bad=bad: fn(w.hg, bad))
    for n, m in ((-1, 0), (1, 0), (2, 1), (2, 3), (3, -5), (0, 1), (4, -3), (2, -4), (5, 7)):
        add(f"Zernike({n}, {m})", lambda n=n, m=m: P.Zernike(1.0, 1.0, n, m))
    for a in ("x0", "y0", "a", "w"):
        for bad in ("wide", None, [1.0, 2.0], object()):
            add(f"HermiteGaussian.{a} = {bad if isinstance(bad, (str, list)) else type(bad).__name__}", lambda a=a, bad=bad: setattr(w.hg, a, bad))
            add(f"SuperGaussian.{a} = {bad if isinstance(bad, (str, list)) else type(bad).__name__}", lambda a=a, bad=bad: setattr(w.sg, a, bad))
    add("HermiteGaussian without width", lambda: P.HermiteGaussian(0, 0, 1))
    return out


def run(ctx):
    P = ctx.P
    import tensorflow as tf
    kinds = set()

    def invalid(case):
        w = World(case, ctx)
        calls = invalid_calls(w)
        # every call comes around in every fourth case; the rest is a random choice
        due = [k for k in range(len(calls)) if k % 4 == case.index % 4]
        rest = [k for k in range(len(calls)) if k % 4 != case.index % 4]
        order = case.rng.permutation(due + list(case.rng.permutation(rest)[:ctx.n(30, 200)]))
        for pos, k in enumerate(order):
            what, fn = calls[k]
            deep = pos % 12 == 0 or "Gaussian" in what or what.startswith("profile ")
            before = w.snapshot(deep)
            case.raises(Exception, fn, what)
            w.unchanged(case, before, deep, what)
            case.event("invalid_calls")
            if what not in kinds: kinds.add(what); case.event("invalid_kinds")
            case.note(what)
            if pos % 60 == 59: w.works(case, what)
        # a state that is not boolean cannot be packed; one that does not fit cannot be simulated
        w.dmd.dmd_state = np.full((w.g.Ny, w.g.Nx), .5)
        before = w.snapshot()
        case.raises(TypeError, w.dmd.pack_dmd_state, "packing a gray state"); w.unchanged(case, before, False, "packing a gray state")
        for bad in (np.zeros((w.g.Ny + 1, w.g.Nx), bool), np.zeros((w.g.Ny, w.g.Nx + 2), bool), np.full((w.g.Ny, w.g.Nx), "on")):
            keep = w.dmd.dmd_state
            w.dmd.dmd_state = bad
            before = {k: v for k, v in w.snapshot().items()}
            case.raises(Exception, lambda: w.sims[0].propagate_to_image(w.field(w.g)), f"propagation with a mirror state {bad.dtype}{bad.shape}")
            w.unchanged(case, before, False, "propagation with an impossible mirror state")
            w.dmd.dmd_state = keep
        case.event("invalid_calls", 4)
        w.works(case, "after all invalid calls")

    ctx.each("invalid", ctx.n(8, 40), invalid)

    fp.install()

    def operations(w, P, tf):
        g, l = w.g, w.l
        inp, tgt, linp, lt = w.field(g), w.field(g), w.field(l), w.field(l, True)
        sw, lsw = (w.rng.random((g.Ny, g.Nx)) < .4).astype(float), (w.rng.random((l.Ny, l.Nx)) < .4).astype(float)
        S = lambda n: {"dmd": lambda: np.array(w.dmd.dmd_state), "sim": lambda: np.array(w.sims[0].image_plane_field), "lsim": lambda: np.array(w.sims[1].image_plane_field),
                       "lcos": lambda: np.array(w.lcos.slm_state)}[n]
        d = w.dmd
        return [
            ("calculate_dmd_state(ideal)", lambda: d.calculate_dmd_state(inp, tgt, method="ideal"), S("dmd")),
            ("calculate_dmd_state(simple, profiles, window)", lambda: d.calculate_dmd_state(w.hg, w.expr, method="simple", window=w.sg), S("dmd")),
            ("calculate_dmd_state(ifta)", lambda: d.calculate_dmd_state(inp, tgt, method="ifta", signal_window=sw, N=3), S("dmd")),
            ("calculate_dmd_state(random)", lambda: d.calculate_dmd_state(inp, tgt), None),
            ("set_dmd_grating_state(ideal)", lambda: d.set_dmd_grating_state(.7, w.sg, np.ones((g.Ny, g.Nx)), method="ideal"), S("dmd")),
            ("circular_patch(simple)", lambda: d.circular_patch(g.Ny / 2, g.Nx / 3, w.sg * .3, 0, .4, 6, method="simple"), S("dmd")),
            ("circular_patch(ideal)", lambda: d.circular_patch(2, 3, 1, 0, w.hg, 5.5, method="ideal"), S("dmd")),
            ("calculate_hologram(gs)", lambda: w.lcos.calculate_hologram(linp, lt, N=3), None),
            ("calculate_hologram(mraf)", lambda: w.lcos.calculate_hologram(linp, lt, method="mraf", N=3, signal_window=lsw), None),
            ("propagate_to_image", lambda: w.sims[0].propagate_to_image(inp), S("sim")),
            ("propagate_to_image(profile)", lambda: w.sims[0].propagate_to_image(w.expr), S("sim")),
            ("propagate_to_image, LCOS", lambda: w.sims[1].propagate_to_image(linp), S("lsim")),
            ("block_zeroth_order", lambda: w.sims[0].block_zeroth_order(), S("sim")),
            ("block_zeroth_order(r)", lambda: w.sims[0].block_zeroth_order(3e-4), S("sim")),
        ]
    NOPS = 14

    def faults(case):
        """a fault at every passage of one operation; cold (objects just made) or warm"""
        which = case.index % NOPS
        kind = "fft" if (case.index // NOPS) % 3 == 2 else "op"
        cold = (case.index // NOPS) % 2 == 1
        w = World(case, ctx)
        what, op, state = operations(w, P, tf)[which]
        case.note(what, kind, "cold" if cold else "warm")
        if not cold:
            keep = w.snapshot()
            op()
            w.dmd.dmd_state, w.lcos.slm_state = keep["dmd_state"], keep["slm_state"]
        ok = None
        for k in range(ctx.n(60, 200)):
            before = w.snapshot()
            fired = fp.fired
            fp.arm(kind, k)
            try:
                op(); raised = None
            except Exception as e: raised = e
            finally: fp.disarm()
            hit = fp.fired > fired
            if not hit:
                if raised is not None: raise raised
                ok = True
                break
            case.event(f"{kind}_faults"); case.event("faults_injected")
            if raised is None:
                # survived the fault: then the result must be the right one
                case.event("survived")
                if state is not None:
                    got = state(); w.dmd.dmd_state = before["dmd_state"]
                    op(); case.same(got, state(), f"{what}: fault {k} not reported, and a wrong result"); w.dmd.dmd_state = before["dmd_state"]
                else:
                    case.true(False, f"{what}: fault {k} was swallowed")
            else:
                w.unchanged(case, before, False, f"{what}, fault at {kind} {k}")
        case.event("faulted_operations")
        if ok and state is not None:
            got = state()
            w2 = [w.dmd.dmd_state, w.lcos.slm_state]
            if "block" not in what and "circular" not in what:
                op(); case.same(state(), got, f"{what}: differs after faults")
        w.works(case, f"{what} after faults")

    ctx.each("faults", ctx.n(3 * NOPS, 12 * NOPS), faults)

    def setters(case):
        """a fault while a parameter is assigned: the old value stays"""
        w = World(case, ctx)
        for obj, a in ((w.hg, "x0"), (w.hg, "w"), (w.sg, "a"), (w.sg, "p"), (w.cp, "a") if hasattr(w.cp, "a") else (w.hg, "a"), (w.hg, "y0")):
            v0 = float(getattr(obj, a)); f0 = np.array(w.expr(*w.pts))
            for k in range(6):
                fired = fp.fired
                fp.arm("op", k)
                try: setattr(obj, a, v0 * 1.5 + 1e-5); raised = None
                except Exception as e: raised = e
                finally: fp.disarm()
                if fp.fired == fired:
                    if raised is not None: raise raised
                    case.close(float(getattr(obj, a)), v0 * 1.5 + 1e-5, 1e-5 * (abs(v0) + 1e-5), f"{a} after assignment")
                    break
                case.event("op_faults")
                if raised is not None:
                    case.equal(float(getattr(obj, a)), v0, f"{a} after a failed assignment")
                    case.same(np.array(w.expr(*w.pts)), f0, f"values after a failed assignment of {a}")
                    case.event("snapshots_compared")
            setattr(obj, a, v0)
            case.same(np.array(w.expr(*w.pts)), f0, f"values after assigning {a} back")
            case.note(a)

    ctx.each("setters", ctx.n(4, 20), setters)
