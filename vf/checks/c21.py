"""C21: aliasing sanitizer: caller's arrays are fingerprinted around every call and overwritten afterwards."""
import numpy as np
from vf import fakes, opt, ref

RULE = ("each case runs a random program of public operations on a few devices, profiles and simulations; every array, list and dictionary passed in "
        "is fingerprinted before and compared after the call, then overwritten; every returned array is compared with a second return for shared "
        "memory and overwritten; after each step all earlier results are read again and must be bit for bit what they were; non-trivial: "
        "distinct program")
NEED = {"cases": 12, "calls": 150, "inputs_fingerprinted": 250, "inputs_overwritten": 200, "returns_overwritten": 200, "rereads": 800, "switches_after_edit": 16}


class World:
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.watch = {}     # name -> (getter, snapshot)

    def call(self, what, fn, inputs, overwrite=True):
        """fn(*copies); inputs stay as they were, then are destroyed"""
        case = self.case
        case.event("calls"); case.note(what)
        before = {k: (v.copy() if isinstance(v, np.ndarray) else [np.array(e).copy() for e in v] if isinstance(v, list) else dict(v) if isinstance(v, dict) else v)
                  for k, v in inputs.items()}
        out = fn(**inputs)
        for k, v in inputs.items():
            case.event("inputs_fingerprinted")
            if isinstance(v, np.ndarray): case.same(v, before[k], f"{what} modified its input {k}")
            elif isinstance(v, list):
                case.equal(len(v), len(before[k]), f"{what} changed the length of {k}")
                for a, b in zip(v, before[k]): case.same(np.array(a), b, f"{what} modified an element of {k}")
            elif isinstance(v, dict):
                case.true(list(v) == list(before[k]) and all(v[n] is before[k][n] for n in v), f"{what} modified the dictionary {k}", got=list(v), want=list(before[k]))
        if overwrite:
            for k, v in inputs.items():
                if isinstance(v, np.ndarray) and v.flags.writeable:
                    v[...] = True if v.dtype == bool else 77
                    case.event("inputs_overwritten")
                elif isinstance(v, dict):
                    for n in list(v):
                        if isinstance(v[n], np.ndarray): v[n][...] = 77; case.event("inputs_overwritten")
                    v.clear()
        return out

    def keep(self, name, getter):
        """from now on this result must never change"""
        self.watch[name] = (getter, np.array(getter()))

    def drop(self, name):
        self.watch.pop(name, None)

    def destroy(self, name, getter):
        """the arrays returned are private copies"""
        case = self.case
        a, b = getter(), getter()
        pairs = list(zip(a, b)) if isinstance(a, tuple) else [(a, b)]
        for u, v in pairs:
            if not isinstance(u, np.ndarray) or u.size == 0: continue
            case.true(not np.shares_memory(u, v), f"{name}: two returned arrays share memory")
            want = v.copy()
            if u.flags.writeable and u.ndim:
                u[...] = True if u.dtype == bool else 55
                case.event("returns_overwritten")
            case.same(v, want, f"{name}: overwriting one returned array changed another")
        c = getter()
        for (u, v), w in zip(pairs, c if isinstance(c, tuple) else (c,)):
            case.same(np.asarray(w), np.asarray(v), f"{name}: overwriting the returned array changed later results")

    def verify(self, what):
        for name, (getter, snap) in self.watch.items():
            self.case.event("rereads")
            self.case.same(np.asarray(getter()), snap, f"{name} changed because of: {what}")


def run(ctx):
    import tensorflow as tf
    P, R = ctx.P, ref.R(ctx.prec)
    from pySLM2 import analysis

    def program(case):
        rng = case.rng
        W = World(case, ctx)
        g = opt.geometry(rng, 8, 18); gl = opt.geometry(rng, 8, 18, kind="LCOS")
        dev, lc = g.make(P), gl.make(P)
        dsim, lsim = P.DMDSimulation(dev, int(rng.integers(3)), int(rng.integers(3))), P.SLMSimulation(lc, int(rng.integers(3)), 0)
        case.note(g.desc(), gl.desc())
        real = lambda q=g: rng.random((q.Ny, q.Nx)).astype([np.float32, np.float64][rng.integers(2)])
        comp = lambda q=g: (rng.normal(size=(q.Ny, q.Nx)) + 1.2 + 1j * rng.normal(size=(q.Ny, q.Nx))).astype([np.complex64, np.complex128][rng.integers(2)])
        exact_c = lambda q=g: comp(q).astype(ctx.cdtype)    # types that need no conversion alias most easily
        exact_r = lambda q=g: real(q).astype(ctx.rdtype)
        prof = P.HermiteGaussian(1e-5, 0, 1.3, 6e-5, 1, 0)
        W.keep("profile on a point set", lambda: prof(np.linspace(-1e-4, 1e-4, 7), np.linspace(0, 1e-4, 7)))
        for n, d in (("dmd", dev), ("lcos", lc)):
            for pl in ("fourier_plane_grid", "image_plane_grid"):
                W.keep(f"{n} {pl}", lambda d=d, pl=pl: np.array(getattr(d, pl)))
        W.keep("padded grid", lambda: np.array(dsim.image_plane_padded_grid)); W.keep("padded slm grid", lambda: np.array(lsim.fourier_plane_padded_grid))
        serial = [0]

        def fresh(name):
            serial[0] += 1
            return f"{name} #{serial[0]}"

        def frozen(name, value):
            """a result returned earlier, held by the caller"""
            W.keep(fresh(name), lambda v=value: np.array(v))

        def pick(*fs): return fs[rng.integers(len(fs))]

        def op_profile():
            p = pick(prof, P.LaguerreGaussian(0, 0, 1, 1e-4, 1, 0), P.Zernike(1.0, 1e-4, 2, 0), prof * 2.0 + 1)
            x, y = rng.normal(size=(5, 3)) * 1e-4, rng.normal(size=(5, 3)) * 1e-4
            if rng.random() < .5: x, y = x.astype(ctx.rdtype), y.astype(ctx.rdtype)
            v = W.call("profile evaluation", lambda x, y: p(x, y), {"x": x, "y": y})
            frozen("profile values", v)
            x2 = np.linspace(-1e-4, 1e-4, 9)
            W.destroy("profile values", lambda: p(x2, x2))

        def op_parameters():
            a = {k: np.array(v) for k, v in dict(x0=1e-5, y0=2e-5, a=1.5, w=5e-5).items()}
            p = W.call("profile construction", lambda **kw: P.HermiteGaussian(**kw), a)
            s = W.call("shift", lambda dx, dy: p.shift(dx, dy), {"dx": np.array(1e-5), "dy": np.array(-1e-5)})
            r = W.call("rotate", lambda t: s.rotate(t), {"t": np.array(.4)})
            for n, o in (("profile", p), ("shifted", s), ("rotated", r)):
                W.keep(fresh(n), lambda o=o: o(np.linspace(-1e-4, 1e-4, 5), np.linspace(-1e-4, 1e-4, 5)))

        def op_field():
            q, d = pick((g, dev), (gl, lc))
            cx = bool(rng.integers(2))
            a = pick(exact_c, comp)(q) if cx else pick(exact_r, real)(q)
            t = W.call("profile_to_tensor", lambda a: d.profile_to_tensor(a, complex=cx), {"a": a})
            frozen("field", t)
            l = [[float(v) for v in row] for row in real(q)]
            t = W.call("profile_to_tensor of a list", lambda a: d.profile_to_tensor(a, complex=cx), {"a": l})
            W.destroy("field", lambda: np.array(d.profile_to_tensor(prof)))

        def op_grating():
            W.drop("dmd state"); W.drop("packed")
            m = pick("ideal", "simple", "random")
            old = dev.dmd_state; snap = old.copy()
            kw = {} if m != "random" else {"r": 3.0}
            W.call(f"set_dmd_grating_state {m}", lambda amp, phase_in, phase_out, kw: dev.set_dmd_grating_state(amp, phase_in, phase_out, method=m, **kw),
                   {"amp": exact_r(), "phase_in": pick(real, exact_r)(), "phase_out": exact_r(), "kw": kw})
            case.same(old, snap, "the previous state array changed")
            W.keep("dmd state", lambda: dev.dmd_state)

        def op_patch():
            W.drop("dmd state"); W.drop("packed")
            mine = rng.random((g.Ny, g.Nx)) < .5
            if rng.random() < .5: mine = mine.astype(ctx.rdtype)
            snap = mine.copy()
            dev.dmd_state = mine
            m = pick("ideal", "simple", "random")
            W.call(f"circular_patch {m}", lambda amp, phase_in, phase_out: dev.circular_patch(g.Ny / 2, g.Nx / 2, amp, phase_in, phase_out, 6.5, method=m),
                   {"amp": exact_r(), "phase_in": exact_r(), "phase_out": exact_r()})
            case.same(mine, snap, "circular_patch modified the caller's state array")
            mine[...] = 1 - mine if mine.dtype != bool else ~mine
            now = dev.dmd_state
            W.keep("dmd state", lambda: dev.dmd_state)
            if now.dtype == bool:
                b = dev.pack_dmd_state(); case.same(dev.dmd_state, now, "packing"); W.keep("packed", lambda: np.frombuffer(dev.pack_dmd_state(), np.uint8)); frozen("packed bytes", np.frombuffer(b, np.uint8))

        def op_switch():
            W.drop("dmd state"); W.drop("packed")
            other = g.make(P)
            dev.set_dmd_state_on() if rng.random() < .5 else dev.set_dmd_state_off()
            other.set_dmd_state_on()
            other.dmd_state[...] = False
            third = g.make(P); case.true(not third.dmd_state.any(), "a new device starts dark"); third.dmd_state[...] = True
            fourth = g.make(P); case.true(not fourth.dmd_state.any(), "new devices share their state")
            # a state edited in place is that device's own business, once: switching again starts afresh
            fifth = g.make(P)
            for _ in range(int(rng.integers(2, 5))):
                on, d = bool(rng.integers(2)), pick(other, fifth)
                d.set_dmd_state_on() if on else d.set_dmd_state_off()
                case.true(bool(np.all(d.dmd_state == on)), "a state array edited in place comes back when the device is switched again", on=on)
                edited = pick(d, other, fifth)
                edited.dmd_state[...] = rng.random((g.Ny, g.Nx)) < .5
                case.event("switches_after_edit")
            W.keep("dmd state", lambda: dev.dmd_state)
            l2, l3 = gl.make(P), gl.make(P)
            l2.slm_state[...] = 1; case.true(not np.any(l3.slm_state), "new phase devices share their state")
            l3.reset_slm_state(); l3.slm_state[...] = 2; l2.reset_slm_state(); case.true(not np.any(l2.slm_state), "reset states are shared")
            l2.slm_state[...] = 3; l2.reset_slm_state(); case.true(not np.any(l2.slm_state), "a phase map edited in place survives the reset")

        def op_dmd():
            W.drop("dmd state"); W.drop("packed")
            m = pick("ideal", "simple", "random", "ifta")
            kw = {}
            ins = {"input_profile": exact_c(), "target_profile": pick(comp, exact_c)()}
            if rng.random() < .5: ins["window"] = exact_c()
            if m == "ifta": kw = {"signal_window": (rng.random((g.Ny, g.Nx)) < .4).astype(ctx.cdtype if rng.random() < .5 else float), "N": 3}
            elif m == "random": kw = {"r": 5.0}
            dev.dmd_state = mine = (rng.random((g.Ny, g.Nx)) < .5); snap = mine.copy()
            ins["kw"] = kw
            eta = W.call(f"calculate_dmd_state {m}", lambda kw, **k: dev.calculate_dmd_state(method=m, **k, **kw), ins)
            case.same(mine, snap, "calculate_dmd_state modified the caller's state array")
            W.keep("dmd state", lambda: dev.dmd_state)
            frozen("held state", dev.dmd_state.copy()); frozen("efficiency", eta)

        def op_lcos():
            W.drop("slm state")
            m = pick("gs", "mraf")
            kw = {"N": 2}
            if m == "mraf": kw["signal_window"] = pick(exact_r, exact_c)(gl)
            W.call(f"calculate_hologram {m}", lambda input_profile, target_amp_profile, kw: lc.calculate_hologram(input_profile, target_amp_profile, method=m, **kw),
                   {"input_profile": pick(exact_c, comp)(gl), "target_amp_profile": pick(exact_r, real)(gl), "kw": kw})
            W.keep("slm state", lambda: lc.slm_state)

        names = ("input_field", "output_field", "image_plane_field", "input_intensity", "output_intensity", "image_plane_intensity")

        def op_propagate():
            q, d, sim, n = pick((g, dev, dsim, "dmd"), (gl, lc, lsim, "lcos"))
            W.drop("dmd state" if n == "dmd" else "slm state"); W.drop("packed")
            if n == "dmd": dev.dmd_state = st = pick(real, exact_r, exact_c)() if rng.random() < .6 else rng.random((g.Ny, g.Nx)) < .5
            else: lc.slm_state = st = pick(real, exact_r, exact_c)(gl)
            for f in names: W.drop(f"{n} {f}")
            snap = st.copy()
            W.call(f"propagate {n}", lambda a: sim.propagate_to_image(a), {"a": pick(exact_c, exact_c, comp)(q)})
            case.same(st, snap, "propagation modified the caller's state array")
            vals = {f: getattr(sim, f) for f in names}
            st[...] = 0                          # the caller reuses the array it assigned
            for f in names:
                case.same(getattr(sim, f), vals[f], f"{f} changed with the state array after the propagation")
                W.keep(f"{n} {f}", lambda sim=sim, f=f: getattr(sim, f))
                if rng.random() < .5: W.destroy(f"{n} {f}", lambda sim=sim, f=f: getattr(sim, f))
                else: frozen(f"held {f}", vals[f])
            if n == "dmd" and rng.random() < .3:
                W.drop("dmd image_plane_field"); W.drop("dmd image_plane_intensity")
                held = sim.image_plane_field; h = held.copy()
                sim.block_zeroth_order()
                case.same(held, h, "blocking changed an array returned before")
                for f in names[2::3]: W.keep(f"{n} {f}", lambda sim=sim, f=f: getattr(sim, f))

        def op_grids():
            for o in (dev, lc):
                for pl in ("fourier_plane_grid", "image_plane_grid"): W.destroy(pl, lambda o=o, pl=pl: getattr(o, pl))
            for o in (dsim, lsim):
                for pl in ("image_plane_padded_grid", "fourier_plane_padded_grid"): W.destroy(pl, lambda o=o, pl=pl: getattr(o, pl))

        def op_analysis():
            m = rng.normal(size=(9, 12))
            if rng.random() < .4: m = m.astype(np.float32)
            d = bool(rng.integers(2))
            v = W.call("remove_trivial_phase", lambda profile: analysis.remove_trivial_phase(profile, 4, remove_defocus=d), {"profile": m.copy()})
            frozen("flattened map", v)
            c, rec = W.call("zernike_decomposition", lambda profile: analysis.zernike_decomposition(profile, 4, 3, reconstruct=True), {"profile": m.copy()})
            frozen("coefficients", c); frozen("reconstruction", rec)

        ops = [op_profile, op_parameters, op_field, op_grating, op_patch, op_switch, op_dmd, op_lcos, op_propagate, op_propagate, op_grids, op_analysis]
        order = list(rng.permutation(len(ops))) + list(rng.integers(0, len(ops), ctx.n(6, 20)))
        for k in order:
            ops[k]()
            W.verify(case.desc[-1])

    ctx.each("program", ctx.n(9, 90), program)

    def controllers(case):
        from vf.checks.c25 import Rig, images
        rng = case.rng
        kind = ["alp", "lux"][case.index % 2]
        r = Rig(kind, rng, bool(rng.integers(2)))
        r.c.initialize()
        case.note(kind, r.invert)
        W = World(case, ctx)
        for _ in range(5):
            single = bool(rng.integers(2)); im = images(rng, 1 if single else int(rng.integers(2, 5)))
            keep = [i.copy() for i in im]
            if single:
                W.call("load_single", lambda a: r.c.load_single(a), {"a": im[0]})
            else:
                W.call("load_multiple", lambda a: r.c.load_multiple(a), {"a": im})
                for i in im: i[...] = True
                im.clear()
            r.shows(case, keep, single, "after the caller overwrote its images")
        a = r.util.number_image(7, 40, 30); b = a.copy(); a[...] = True
        case.same(r.util.number_image(7, 40, 30), b, "overwriting a number image changed the next one")
        W.destroy("number image", lambda: r.util.number_image(5, 40, 30)); W.destroy("controller number image", lambda: r.c.number_image(5))

    ctx.each("controllers", ctx.n(8, 40), controllers)
