"""C16: histories over several simulations and devices; a model keeps what each must report."""
import numpy as np
from vf import opt, ref
from vf.checks import c15

RULE = ("each case is a random history over two devices and several simulations of them: propagate, clear, block the zeroth order (default and "
        "given radius), change the device state, compute a hologram, overwrite returned arrays; after each step every simulation must report "
        "what the model says, from direct Fourier sums; non-trivial: distinct histories")
NEED = {"cases": 12, "steps": 250, "reports": 800, "blocks": 25, "blocked_points": 100, "empty_reports": 60, "refused": 15, "state_changes": 30, "large": 3, "many": 200, "discs": 100}


def run(ctx):
    P, R, eps = ctx.P, ref.R(ctx.prec), ctx.eps

    class Model:
        def __init__(self, g, dev, px, py, P):
            self.g, self.dev, self.px, self.py = g, dev, px, py
            self.sim = (P.DMDSimulation if g.kind == "DMD" else P.SLMSimulation)(dev, px, py)
            self.have = None

        def report(self, case):
            case.event("reports")
            names = ("input_field", "output_field", "image_plane_field", "input_intensity", "output_intensity", "image_plane_intensity")
            if self.have is None:
                case.event("empty_reports")
                for n in names: case.true(getattr(self.sim, n) is None, f"{n} without a propagation", got=type(getattr(self.sim, n)))
                return
            Fi, Fo, E, keep, tol = self.have
            E = np.where(keep, E, 0)
            tE = np.where(keep == 1, tol, np.where(keep == 0, 0, np.inf))
            a = 60 * eps * np.max(np.abs(Fi))
            for n, want, t in (("input_field", Fi, a), ("output_field", Fo, a), ("image_plane_field", E, tE)):
                case.close(getattr(self.sim, n), want, t, f"{n} is not that of the last propagation")
            for n in ("input", "output", "image_plane"):
                f = getattr(self.sim, n + "_field").astype(complex)
                case.close(getattr(self.sim, n + "_intensity"), np.abs(f) ** 2, 8 * eps * np.abs(f) ** 2 + 1e-35, f"{n}_intensity is not that of the reported field")
            p = 1e-3 if ctx.prec == 32 else 1e-9
            g = self.g
            area = g.lf ** 2 / (Fi.size * g.pixel ** 2)
            wi = np.sum(np.abs(Fi) ** 2) * g.pixel ** 2
            for n, f, ar in (("get_input_power", Fi, g.pixel ** 2), ("get_output_power", Fo, g.pixel ** 2)):
                case.close(float(getattr(self.sim, n)()), np.sum(np.abs(f) ** 2) * ar, p * wi, n)
            f = self.sim.image_plane_field.astype(complex)
            case.close(float(self.sim.get_image_plane_power()), np.sum(np.abs(f) ** 2) * area, p * wi, "get_image_plane_power")

    def history(case, big=False):
        rng = case.rng
        gs = [opt.geometry(rng, 5, 22), opt.geometry(rng, 5, 22, kind=["DMD", "LCOS"][case.index % 2])]
        if big:
            for g in gs: g.Nx, g.Ny = [int(v) for v in rng.integers(300, 900, 2)]
            case.event("large")
        if rng.random() < .5: gs[1].Nx, gs[1].Ny = gs[0].Nx, gs[0].Ny
        devs = [g.make(P) for g in gs]
        mods = [np.zeros((g.Ny, g.Nx)) if g.kind == "DMD" else np.ones((g.Ny, g.Nx)) for g in gs]
        attr = ["dmd_state" if g.kind == "DMD" else "slm_state" for g in gs]
        models = []
        for _ in range(4):
            d = int(rng.integers(2)) if len(models) > 1 else len(models)
            px, py = [int(v) for v in rng.integers(0, 120 if big else 7, 2)] if rng.random() < .6 else (0, 0)
            models.append((d, Model(gs[d], devs[d], px, py, P)))
        case.note([g.desc() for g in gs], [(d, m.px, m.py) for d, m in models])
        for step in range(8 if big else ctx.n(22, 40)):
            d, m = models[int(rng.integers(len(models)))]
            g = m.g
            op = rng.random()
            case.event("steps")
            if op < .35:
                inp = (rng.normal(size=(g.Ny, g.Nx)) + 1j * rng.normal(size=(g.Ny, g.Nx))).astype(ctx.cdtype)
                m.sim.propagate_to_image(inp)
                f = inp.astype(complex)
                Fi = np.pad(f, ((m.py, m.py), (m.px, m.px)))
                Fo, E = c15.expected(g, f * mods[d], m.px, m.py)
                m.have = [Fi, Fo, E, np.ones(E.shape), 2 * opt.fft_err(np.abs(Fi) * (1 + np.abs(Fo)), R) * g.pixel ** 2 / g.lf]
                inp[:] = 7   # the caller reuses its array
                case.note("propagate")
            elif op < .45:
                m.sim.clear(); m.have = None
                case.note("clear")
            elif op < .7 and g.kind == "DMD":
                gx, gy = g.igrid(m.px, m.py)
                rad = np.sqrt(gx ** 2 + gy ** 2)
                r = None if rng.random() < .4 else 0 if rng.random() < .1 else float(rng.uniform(0, 1.1) * rad.max())
                if m.have is None:
                    case.raises(Exception, lambda: m.sim.block_zeroth_order() if r is None else m.sim.block_zeroth_order(r), "blocking without a propagation must be refused")
                    case.event("refused")
                else:
                    if r is None: m.sim.block_zeroth_order()
                    elif rng.random() < .5: m.sim.block_zeroth_order(r)
                    else: m.sim.block_zeroth_order(r=r)
                    rr = g.lf / (g.period * g.pixel) / 2 if r is None else r
                    keep = m.have[3]
                    edge = np.abs(rad - rr) <= 40 * eps * (rad.max() + rr)
                    m.have[3] = np.where(edge & (keep != 0), 2, np.where(rad < rr, 0, keep))
                    # points on the very rim may go either way: settle them by what is reported
                    if edge.any():
                        now = m.sim.image_plane_field
                        m.have[3] = np.where(m.have[3] == 2, np.where(now == 0, 0, keep), m.have[3])
                    case.event("blocks"); case.event("blocked_points", int(np.sum((keep != 0) & (m.have[3] == 0))))
                case.note("block", r)
            elif op < .85:
                st, mod = c15.state_for(rng, gs[d], ctx)
                k = int(rng.integers(4))
                if g.kind == "DMD" and k == 0: devs[d].set_dmd_state_on(); mods[d] = np.ones((g.Ny, g.Nx))
                elif g.kind == "DMD" and k == 1: devs[d].set_dmd_state_off(); mods[d] = np.zeros((g.Ny, g.Nx))
                elif g.kind == "LCOS" and k == 0: devs[d].reset_slm_state(); mods[d] = np.ones((g.Ny, g.Nx))
                elif g.kind == "DMD" and k == 2 and devs[d].dmd_state.shape == mods[d].shape:
                    devs[d].dmd_state[...] = (rng.random(mods[d].shape) < .5)          # edited in place
                    mods[d] = np.array(devs[d].dmd_state).astype(complex)
                else: setattr(devs[d], attr[d], st); mods[d] = mod
                case.event("state_changes"); case.note("state")
            else:
                arrays = [getattr(m.sim, n) for n in ("input_field", "output_field", "image_plane_field", "image_plane_intensity")]
                for a in arrays:
                    if a is not None and a.flags.writeable: a[...] = 3
                case.note("overwrite")
            for _, mm in (models if step % 4 == 3 else [(d, m)]): mm.report(case)
        for _, mm in models: mm.report(case)

    ctx.each("history", ctx.n(14, 130), history)

    ctx.each("large", ctx.n(3, 20), lambda case: history(case, True))

    def many(case):
        """far more simulations than anyone keeps results for: each still reports its own, to the last"""
        rng = case.rng
        gs = [opt.geometry(rng, 4, 9, kind=["DMD", "LCOS"][k % 2]) for k in range(6)]
        devs = [g.make(P) for g in gs]
        n = ctx.n(140, 300)
        case.note("many", n, [g.desc() for g in gs])
        models = []
        for k in range(n):
            d = int(rng.integers(6)); g = gs[d]
            st, mod = c15.state_for(rng, g, ctx)
            setattr(devs[d], "dmd_state" if g.kind == "DMD" else "slm_state", st)
            m = Model(g, devs[d], *[int(v) for v in rng.integers(0, 3, 2)], P)
            for _ in range(1 + (k % 7 == 0)):
                inp = (rng.normal(size=(g.Ny, g.Nx)) + 1j * rng.normal(size=(g.Ny, g.Nx))).astype(ctx.cdtype)
                m.sim.propagate_to_image(inp)
            f = inp.astype(complex)
            Fi = np.pad(f, ((m.py, m.py), (m.px, m.px)))
            Fo, E = c15.expected(g, f * mod, m.px, m.py)
            m.have = [Fi, Fo, E, np.ones(E.shape), 2 * opt.fft_err(np.abs(Fi) * (1 + np.abs(Fo)), R) * g.pixel ** 2 / g.lf]
            models.append(m); case.event("steps"); case.event("many")
            if k % 9 == 8: models[int(rng.integers(len(models)))].report(case)
            if k % 25 == 24:
                m = models[int(rng.integers(len(models)))]; m.sim.clear(); m.have = None
        for k in rng.permutation(n): models[k].report(case)

    ctx.each("many", ctx.n(2, 12), many)

    def block(case):
        """blocking in detail: exact zeros inside, untouched bit for bit outside, idempotent, other fields untouched"""
        rng = case.rng
        g = opt.geometry(rng, 10, 40)
        dev = g.make(P); dev.dmd_state = rng.random((g.Ny, g.Nx)) < .5
        px, py = [int(v) for v in rng.integers(0, 12, 2)]
        sim = P.DMDSimulation(dev, px, py)
        case.note("block", g.desc(), (px, py))
        case.raises(Exception, lambda: sim.block_zeroth_order(), "blocking before the first propagation must be refused"); case.event("refused")
        sim.propagate_to_image((rng.normal(size=(g.Ny, g.Nx)) + 2j).astype(ctx.cdtype))
        before = [sim.input_field, sim.output_field, sim.image_plane_field]
        gx, gy = g.igrid(px, py)
        rad = np.hypot(gx, gy)
        r = None if case.index % 2 == 0 else [float(rng.uniform(.05, .9) * rad.max()), 0.0, 0][(case.index // 2) % 4 // 2 * (1 + case.index // 8 % 2)]
        seen = sim.image_plane_intensity, float(sim.get_image_plane_power())
        rr = g.lf / (g.period * g.pixel) / 2 if r is None else r
        sim.block_zeroth_order() if r is None else sim.block_zeroth_order(r)
        after = sim.image_plane_field
        sure = np.abs(rad - rr) > 40 * eps * (rad.max() + rr)
        case.same(np.where(sure, after, 0), np.where(sure & (rad > rr), before[2], 0).astype(ctx.cdtype), "blocked exactly within the radius")
        case.close(sim.image_plane_intensity, np.abs(after.astype(complex)) ** 2, 8 * eps * np.abs(after.astype(complex)) ** 2 + 1e-35, "the intensity is not that of the blocked field")
        case.close(float(sim.get_image_plane_power()), seen[1] * np.sum(np.abs(after.astype(complex)) ** 2) / np.sum(seen[0].astype(float)), 1e-4 * seen[1], "the power is not that of the blocked field")
        case.same(sim.input_field, before[0], "blocking changed the input field"); case.same(sim.output_field, before[1], "blocking changed the output field")
        case.event("blocks"); case.event("blocked_points", int(np.sum(sure & (rad < rr))))
        sim.block_zeroth_order() if r is None else sim.block_zeroth_order(r)
        case.same(sim.image_plane_field, after, "blocking twice")
        sim.block_zeroth_order(rr * 0.5)
        case.same(sim.image_plane_field, after, "blocking a smaller disc afterwards")
        # more discs, in any order and in a later propagation too: what is dark is what any of them covers
        cover = np.zeros(rad.shape, bool); rim = ~sure; source = before[2]; cover |= rad < rr
        for step in range(6):
            if step == 3:
                sim.propagate_to_image((rng.normal(size=(g.Ny, g.Nx)) + 1).astype(ctx.cdtype))
                source, cover, rim = sim.image_plane_field, np.zeros(rad.shape, bool), np.zeros(rad.shape, bool)
            q = [None, float(rng.uniform(0, .4) * rad.max()), float(rng.uniform(.2, 1.1) * rad.max())][rng.integers(3)]
            sim.block_zeroth_order() if q is None else sim.block_zeroth_order(q)
            q = g.lf / (g.period * g.pixel) / 2 if q is None else q
            if rng.random() < .5: sim.image_plane_intensity
            cover |= rad < q; rim |= np.abs(rad - q) <= 40 * eps * (rad.max() + q)
            now = sim.image_plane_field
            case.same(np.where(rim, 0, now), np.where(cover | rim, 0, source).astype(ctx.cdtype), "blocked by several discs")
            case.event("discs")
        sim.clear()
        case.raises(Exception, lambda: sim.block_zeroth_order(), "blocking after clear must be refused"); case.event("refused")

    ctx.each("block", ctx.n(20, 200), block)
