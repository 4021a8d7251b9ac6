"""C24: threads on their own objects, and threads sharing a profile or the grids of a device."""
import os, random, sys, threading, time
import numpy as np
from vf import opt, ref
from vf.worker import REPO

PLAN = {"quick": [(32, 3), (64, 3)], "thorough": [(32, 4), (64, 4)]}
RULE = ("(preempt) an operation of one thread is stopped at its k-th executed line of library code, another thread performs a whole operation on its "
        "own objects, then the first goes on: for every k until the operation has no more lines; (stress) several threads run random scripts at once "
        "with random yields at library lines; (shared) the same for a profile, a device's and a simulation's grids that the threads share, also at their "
        "first use; every result is compared with the one of the same operation on equal objects alone; non-trivial: distinct operations and objects")
CRASH = True
NEED = {"cases": 20, "preemptions": 400, "pairs": 16, "distinct_preemption_points": 60, "threads": 80, "script_results": 400, "shared_results": 250, "transform_results": 200, "yields": 1000}
PKG = os.path.realpath(os.path.join(REPO, "pySLM2")) + os.sep


def ours(frame):
    f = frame.f_code.co_filename
    return f.startswith(PKG) or "__autograph_generated_file" in f


class Owner:
    """objects of one thread, all made from one seed, and the operations on them"""
    def __init__(self, P, g, l, seed, ctx):
        self.P, self.g, self.l, self.ctx, self.seed = P, g, l, ctx, seed
        r = np.random.default_rng(seed)
        W = g.Nx * g.pixel
        self.dmd, self.lcos = g.make(P), l.make(P)
        px, py = [int(v) for v in r.integers(0, 4, 2)]
        self.sim, self.lsim = P.DMDSimulation(self.dmd, px, py), P.SLMSimulation(self.lcos, py, px)
        self.hg = P.HermiteGaussian(.1 * W * r.random(), 0, 1 + r.random(), (.3 + .3 * r.random()) * W, 1, 0)
        self.sg = P.SuperGaussian(0, 0, 1 + r.random(), .5 * W, 2.0)
        self.expr = (self.hg * 2 + self.sg).shift(.05 * W * r.random(), 0)
        f = lambda d: (r.normal(size=(d.Ny, d.Nx)) + 2 + 1j * r.normal(size=(d.Ny, d.Nx))).astype(ctx.cdtype)
        self.inp, self.tgt, self.linp = f(g), f(g), f(l)
        self.sw = (r.random((g.Ny, g.Nx)) < .5).astype(ctx.rdtype)
        self.state = r.random((g.Ny, g.Nx)) < .5
        self.phase = r.uniform(-3, 3, (l.Ny, l.Nx))
        self.map = r.normal(size=(24, 24)); self.k = 0
        self.X, self.Y = r.normal(size=12) * W / 2, r.normal(size=12) * W / 2

    def evaluate(self): return [self.expr(self.X, self.Y), self.hg(self.X, self.Y)]

    def assign(self):
        self.k += 1
        W = self.g.Nx * self.g.pixel
        self.hg.x0 = .02 * self.k * W; self.sg.w = (.4 + .01 * self.k) * W
        return [self.expr(self.X, self.Y), float(self.hg.x0), float(self.sg.w)]

    def derive(self):
        p = (self.hg - self.sg * .5).rotate(.3) * 1.5
        return [p(self.X, self.Y)]

    def grids(self): return [*self.dmd.fourier_plane_grid, *self.dmd.image_plane_grid, *self.sim.image_plane_padded_grid, *self.sim.fourier_plane_padded_grid]

    def ideal(self):
        eta = self.dmd.calculate_dmd_state(self.inp, self.tgt, method="ideal", window=self.sg)
        return [self.dmd.dmd_state, float(eta), [float(v) for v in self.dmd.first_order_origin]]

    def negative(self):
        self.dmd.negative_order = not self.dmd.negative_order
        return self.ideal()

    def simple(self):
        self.dmd.calculate_dmd_state(self.hg, self.tgt, method="simple"); return [self.dmd.dmd_state]

    def ifta(self):
        self.dmd.calculate_dmd_state(self.inp, self.tgt, method="ifta", signal_window=self.sw, N=4, s=.7); return [self.dmd.dmd_state]

    def patch(self):
        self.dmd.dmd_state = np.array(self.state)
        self.dmd.circular_patch(self.g.Ny / 2, self.g.Nx / 3, .8, 0, .4, 7, method="simple"); return [self.dmd.dmd_state]

    def sharp(self):
        # so steep a threshold that chance has no part in it (but for the rims of the lines)
        self.dmd.set_dmd_grating_state(.6, 0, .3, r=1e5); return [self.dmd.dmd_state]

    def propagate(self):
        self.dmd.dmd_state = self.state
        self.sim.propagate_to_image(self.inp)
        return [self.sim.input_field, self.sim.output_field, self.sim.image_plane_field, self.sim.image_plane_intensity, float(self.sim.get_image_plane_power()), float(self.sim.get_input_power())]

    def phase_device(self):
        self.lcos.slm_state = self.phase
        self.lsim.propagate_to_image(self.linp)
        return [self.lsim.output_field, self.lsim.image_plane_field]

    def block(self):
        self.dmd.dmd_state = self.state
        self.sim.propagate_to_image(self.tgt); self.sim.block_zeroth_order(); return [self.sim.image_plane_field]

    def pack(self):
        self.dmd.dmd_state = self.state; return [np.frombuffer(self.dmd.pack_dmd_state(), np.uint8)]

    def hologram(self):
        self.lcos.calculate_hologram(self.linp, np.abs(self.linp), N=2)
        s = self.lcos.slm_state
        return [list(s.shape), str(s.dtype), bool(np.all(np.isfinite(s)) and np.max(np.abs(s)) < 3.2)]

    def analyse(self):
        c, rec = self.P.zernike_decomposition(self.map, 10.0, 4, reconstruct=True); return [np.array(c), rec]

    OPS = ("evaluate", "assign", "derive", "grids", "ideal", "negative", "simple", "ifta", "patch", "sharp", "propagate", "phase_device", "block", "pack", "hologram", "analyse")


def compare(case, got, want, eps, what):
    case.equal(len(got), len(want), what + ": number of results")
    for k, (g, w) in enumerate(zip(got, want)):
        if isinstance(w, np.ndarray):
            case.true(isinstance(g, np.ndarray) and g.dtype == w.dtype and g.shape == w.shape, f"{what}: result {k} of another type", got=getattr(g, "shape", g), want=w.shape)
            if w.dtype == bool:
                bad = int(np.sum(g != w)); case.event("points_compared", w.size)
                # one mirror on the rim of the threshold may fall either way
                case.true(bad <= 1 + .03 * w.size, f"{what}: mirrors differ from the same operation alone", bad=bad, of=w.size)
            else:
                s = float(np.max(np.abs(w))) if w.size else 0.0
                case.close(g, w, 200 * eps * s, f"{what}: result {k} differs from the same operation alone")
        elif isinstance(w, list) and w and isinstance(w[0], float): case.close(np.array(g), np.array(w), 1e-5 * np.max(np.abs(w)), f"{what}: result {k}")
        elif isinstance(w, float): case.close(g, w, 1e-5 * abs(w) + 1e-30, f"{what}: result {k} differs from the same operation alone")
        else: case.equal(g, w, f"{what}: result {k} differs from the same operation alone")


class Thread(threading.Thread):
    def __init__(self, fn):
        super().__init__(daemon=True)
        self.fn, self.out, self.exc = fn, None, None

    def run(self):
        try: self.out = self.fn()
        except BaseException as e: self.exc = e
        finally: sys.settrace(None)

    def result(self, case, what, timeout=120):
        self.join(timeout)
        case.true(not self.is_alive(), what + ": the thread hangs")
        if self.exc is not None: case.true(False, f"{what}: {type(self.exc).__name__}: {self.exc}")
        return self.out


def stop_at(k, reached, go):
    """trace function that parks this thread at its k-th line of library code"""
    n = [0]; where = []

    def line(frame, event, arg):
        if event == "line":
            if n[0] == k and not reached.is_set():
                where.append((os.path.basename(frame.f_code.co_filename), frame.f_lineno))
                reached.set(); go.wait(60)
            n[0] += 1
        return line

    def call(frame, event, arg):
        return line if ours(frame) else None
    return call, where


def lines_of(fn):
    """how many lines of library code fn executes"""
    n = [0]

    def line(frame, event, arg):
        if event == "line": n[0] += 1
        return line

    def go():
        sys.settrace(lambda f, e, a: line if ours(f) else None)
        try: fn()
        finally: sys.settrace(None)
    t = Thread(go); t.start(); t.join(120)
    if t.exc: raise t.exc
    return n[0]


def preempt(case, a, b, k, what):
    """a() parked at library line k while b() runs; (result of a, result of b, point or None)"""
    reached, go, ended = threading.Event(), threading.Event(), threading.Event()
    tracer, where = stop_at(k, reached, go)

    def first():
        sys.settrace(tracer)
        try: return a()
        finally:
            sys.settrace(None); ended.set(); reached.set()
    t = Thread(first); t.start()
    reached.wait(60)
    if ended.is_set() and not where:
        return t.result(case, what), None, None
    u = Thread(b); u.start(); u.join(.25)
    if u.is_alive(): case.event("lock_waits")      # waits for a lock the parked thread holds: let it go on
    go.set()
    ra = t.result(case, what + ", the preempted operation"); rb = u.result(case, what + ", the preempting operation")
    case.event("preemptions")
    return ra, rb, where[0]


def run(ctx):
    P, eps = ctx.P, ctx.eps
    points = set()

    def point(case, p):
        if p is not None and p not in points: points.add(p); case.event("distinct_preemption_points")

    def geos(rng):
        g = opt.geometry(rng, 9, 16); l = opt.geometry(rng, 9, 16, kind="LCOS")
        g2 = opt.geometry(rng, 9, 16); l2 = opt.geometry(rng, 9, 16, kind="LCOS")
        if rng.random() < .7: g2.Nx, g2.Ny, l2.Nx, l2.Ny = g.Nx, g.Ny, l.Nx, l.Ny
        return g, l, g2, l2

    class Alone:
        """results of the operations on equal objects, alone, in the same order"""
        def __init__(self, *args): self.o = Owner(*args)
        def __call__(self, op): return getattr(self.o, op)()

    def pair(case):
        rng = case.rng
        g, l, g2, l2 = geos(rng)
        ops = [o for o in Owner.OPS]
        A = ops[case.index % len(ops)]
        Bs = [str(b) for b in rng.permutation(ops)[:ctx.n(2, 6)]]
        if case.index % 2 == 0: Bs[0] = A
        sa, sb = int(rng.integers(1 << 30)), int(rng.integers(1 << 30))
        case.note(A, Bs, g.desc(), g2.desc())
        t0 = time.time(); budget = ctx.n(5, 60) if A in ("analyse", "derive") else ctx.n(16, 200)
        for B in Bs:
            oa, ob = Owner(P, g, l, sa, ctx), Owner(P, g2, l2, sb, ctx)
            wa, wb = Alone(P, g, l, sa, ctx), Alone(P, g2, l2, sb, ctx)
            for _ in range(2):   # warm: compiled functions exist
                compare(case, getattr(oa, A)(), wa(A), eps, A); compare(case, getattr(ob, B)(), wb(B), eps, B)
            what = f"{A} preempted by {B}"
            total = lines_of(getattr(oa, A)); wa(A)
            ks = np.arange(total) if total <= budget else np.sort(rng.choice(total, budget, replace=False))
            for k in ks:
                if time.time() - t0 > ctx.n(12, 200): case.event("out_of_time"); break
                ra, rb, p = preempt(case, getattr(oa, A), getattr(ob, B), k, what)
                compare(case, ra, wa(A), eps, what + f" at line {k}: {A}")
                if p is None: break
                compare(case, rb, wb(B), eps, what + f" at line {k}: {B}")
                point(case, p)
            case.event("pairs"); case.event("lines_available", total); case.event("lines_preempted", len(ks))

    ctx.each("preempt", ctx.n(16, 64), pair)

    def noisy(rng):
        """trace function that yields at random lines of library code"""
        r = random.Random(int(rng.integers(1 << 30)))
        n = [0]

        def line(frame, event, arg):
            if event == "line":
                x = r.random()
                if x < .25: n[0] += 1; time.sleep(0)
                if x < .02: time.sleep(r.random() * 3e-3)
            return line

        def call(frame, event, arg):
            return line if ours(frame) else None
        return call, n

    def stress(case):
        rng = case.rng
        T = int(rng.integers(4, 7))
        base = geos(rng)
        seeds = [int(rng.integers(1 << 30)) for _ in range(T)]
        pairs = [(base[0], base[1]) if rng.random() < .5 else (base[2], base[3]) if rng.random() < .5 else geos(rng)[:2] for _ in range(T)]
        scripts = [[str(o) for o in rng.choice(Owner.OPS, size=ctx.n(8, 14))] for _ in range(T)]
        case.note(T, scripts, [p[0].desc() for p in pairs])
        gate = threading.Barrier(T)
        tracers = [noisy(rng) for _ in range(T)]

        def body(k):
            def go():
                gate.wait(60)
                sys.settrace(tracers[k][0])
                try:
                    o = Owner(P, *pairs[k], seeds[k], ctx)
                    return [getattr(o, op)() for op in scripts[k]]
                finally: sys.settrace(None)
            return go
        old = sys.getswitchinterval()
        sys.setswitchinterval(float(rng.choice([1e-6, 1e-5, 5e-4])))
        try:
            ts = [Thread(body(k)) for k in range(T)]
            for t in ts: t.start()
            outs = [t.result(case, f"thread {k} of {T}", 240) for k, t in enumerate(ts)]
        finally: sys.setswitchinterval(old)
        case.event("threads", T); case.event("yields", sum(n[0] for _, n in tracers))
        for k in range(T):
            alone = Alone(P, *pairs[k], seeds[k], ctx)
            for n, (op, got) in enumerate(zip(scripts[k], outs[k])):
                compare(case, got, alone(op), eps, f"thread {k} of {T}, step {n}: {op}")
                case.event("script_results")

    ctx.each("stress", ctx.n(10, 80), stress)

    def numerics(case):
        """threads that do nothing but transforms, on devices of one size: the windows lie inside compiled and numerical code, which tracing does not
        reach, so they are widened by yields around numpy's own transforms and by much traffic"""
        rng = case.rng
        T = int(rng.integers(4, 7))
        g = opt.geometry(rng, 40, 90); l = opt.geometry(rng, 40, 90, kind="LCOS")
        g.Nx, g.Ny = l.Nx, l.Ny
        pad = [int(v) for v in rng.integers(0, 3, 2)] if rng.random() < .5 else [0, 0]
        rep = ctx.n(6, 20)
        case.note("numerics", T, g.desc(), pad)

        class Worker:
            def __init__(self, seed):
                r = np.random.default_rng(seed)
                f = lambda d: (r.normal(size=(d.Ny, d.Nx)) + 2 + 1j * r.normal(size=(d.Ny, d.Nx))).astype(ctx.cdtype)
                self.d, self.c = g.make(P), l.make(P)
                self.ds, self.cs = P.DMDSimulation(self.d, *pad), P.SLMSimulation(self.c, *pad)
                self.a, self.b, self.t = f(g), f(l), f(g)
                self.sw = (r.random((g.Ny, g.Nx)) < .6).astype(ctx.rdtype)
                self.state, self.phase = r.random((g.Ny, g.Nx)) < .5, r.uniform(-3, 3, (l.Ny, l.Nx))

            def dmd(self):
                self.d.dmd_state = self.state; self.ds.propagate_to_image(self.a)
                return [self.ds.output_field, self.ds.image_plane_field]

            def lcos(self):
                self.c.slm_state = self.phase; self.cs.propagate_to_image(self.b)
                return [self.cs.output_field, self.cs.image_plane_field]

            def ideal(self):
                eta = self.d.calculate_dmd_state(self.a, self.t, method="ideal"); return [self.d.dmd_state, float(eta)]

            def ifta(self):
                self.d.calculate_dmd_state(self.a, self.t, method="ifta", signal_window=self.sw, N=2, s=.6); return [self.d.dmd_state]

            def hologram(self):
                self.c.calculate_hologram(self.b, np.abs(self.b), N=1)
                s = self.c.slm_state
                return [list(s.shape), str(s.dtype), bool(np.all(np.isfinite(s)) and np.max(np.abs(s)) < 3.2)]
        seeds = [int(rng.integers(1 << 30)) for _ in range(T)]
        scripts = [[str(o) for o in rng.choice(["dmd", "dmd", "lcos", "lcos", "ideal", "ifta", "hologram"], size=rep)] for _ in range(T)]
        names = ("fft2", "ifft2", "fftshift", "ifftshift")
        real = {n: getattr(np.fft, n) for n in names}
        passed = [0]

        def yielding(fn):
            def f(*a, **k):
                passed[0] += 1
                time.sleep(random.random() * 1e-3)
                out = fn(*a, **k)
                time.sleep(random.random() * 1e-3)
                return out
            return f
        gate = threading.Barrier(T)

        def body(k):
            def go():
                w = Worker(seeds[k]); gate.wait(60)
                return [getattr(w, op)() for op in scripts[k]]
            return go
        old = sys.getswitchinterval()
        sys.setswitchinterval(float(rng.choice([1e-6, 1e-4])))
        try:
            for n in names: setattr(np.fft, n, yielding(real[n]))
            ts = [Thread(body(k)) for k in range(T)]
            for t in ts: t.start()
            outs = [t.result(case, f"transforming thread {k} of {T}", 240) for k, t in enumerate(ts)]
        finally:
            for n in names: setattr(np.fft, n, real[n])
            sys.setswitchinterval(old)
        case.event("threads", T); case.event("yields", passed[0])
        for k in range(T):
            w = Worker(seeds[k])
            for n, (op, got) in enumerate(zip(scripts[k], outs[k])):
                compare(case, got, getattr(w, op)(), eps, f"transforming thread {k} of {T}, step {n}: {op}")
                case.event("transform_results")

    ctx.each("numerics", ctx.n(6, 60), numerics)

    def shared(case):
        """one profile, one device, one simulation, read by many threads, from their first use on"""
        rng = case.rng
        g, l, _, _ = geos(rng)
        R = ref.R(ctx.prec)
        W = g.Nx * g.pixel
        px, py = [int(v) for v in rng.integers(0, 6, 2)]
        specs = [opt.amp_phase_profile(rng, g, dark=False) for _ in range(2)]
        case.note("shared", g.desc(), (px, py), repr(specs)[:300])
        n = int(rng.integers(5, 40))
        X, Y = (rng.normal(size=n) * W / 3, rng.normal(size=n) * W / 3)
        Xc, Yc = ref.coords(X, Y, R)
        want = [ref.evaluate(s, Xc, Yc, R) for s in specs]

        def judge(kind, got, who):
            if kind[0] == "p":
                o = want[int(kind[1])]
                case.close(np.broadcast_to(got, X.shape), np.broadcast_to(o.v, X.shape), np.broadcast_to(o.e, X.shape), f"{who}: shared profile", points=(X, Y))
            else:
                grids = {"fp": g.fgrid(), "ip": g.igrid(), "fpp": g.fgrid(px, py), "ipp": g.igrid(px, py)}[kind]
                for a, b in zip(got, grids): case.close(a, b, 8 * eps * np.max(np.abs(b)), f"{who}: shared grid {kind}")
            case.event("shared_results")

        def objects():
            dev = g.make(P); sim = P.DMDSimulation(dev, px, py)
            ps = [ref.build(P, s) for s in specs]
            return {"p0": lambda: ps[0](X, Y), "p1": lambda: ps[1](X, Y), "fp": lambda: dev.fourier_plane_grid, "ip": lambda: dev.image_plane_grid,
                    "fpp": lambda: sim.fourier_plane_padded_grid, "ipp": lambda: sim.image_plane_padded_grid}
        # all at once, cold
        T = int(rng.integers(4, 8))
        fns = objects()
        orders = [[str(k) for k in rng.permutation(list(fns))] for _ in range(T)]
        gate = threading.Barrier(T); tracers = [noisy(rng) for _ in range(T)]

        def body(k):
            def go():
                gate.wait(60)
                sys.settrace(tracers[k][0])
                try: return [fns[o]() for o in orders[k]]
                finally: sys.settrace(None)
            return go
        old = sys.getswitchinterval(); sys.setswitchinterval(1e-5)
        try:
            ts = [Thread(body(k)) for k in range(T)]
            for t in ts: t.start()
            outs = [t.result(case, f"shared reader {k} of {T}", 240) for k, t in enumerate(ts)]
        finally: sys.setswitchinterval(old)
        case.event("threads", T); case.event("yields", sum(n[0] for _, n in tracers))
        for k in range(T):
            for o, got in zip(orders[k], outs[k]): judge(o, got, f"thread {k} of {T}")
        # one preemption at every library line of a first use, by another first use of the same object
        kind = ["fp", "ip", "fpp", "ipp"][case.index % 4]
        for k in range(ctx.n(30, 60)):
            f = objects()
            ra, rb, p = preempt(case, f[kind], f[kind], k, f"first read of {kind}")
            judge(kind, ra, f"first read of {kind} preempted at line {k}")
            if p is None: break
            judge(kind, rb, f"first read of {kind} preempting at line {k}"); point(case, p)
        f = objects()
        f["p0"]()
        for k in range(ctx.n(20, 40)):
            ra, rb, p = preempt(case, f["p0"], f["p0"], k, "evaluation of a shared profile")
            judge("p0", ra, f"shared evaluation preempted at line {k}")
            if p is None: break
            judge("p0", rb, f"shared evaluation preempting at line {k}"); point(case, p)

    ctx.each("shared", ctx.n(8, 60), shared)
