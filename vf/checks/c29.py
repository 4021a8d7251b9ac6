"""C29: memory monitor: the same work again must not need more memory than before."""
import ctypes, gc, os, weakref
import numpy as np
from vf import opt

PLAN = {"quick": [(32, 3), (64, 2)], "thorough": [(32, 4), (64, 4)]}
RULE = ("(repeat) one operation is repeated on the same objects with other numbers and other fields of the same size each time; between blocks of "
        "repetitions the objects the interpreter tracks and the resident memory are compared; (churn) objects are made, used and dropped in "
        "hundreds; those alive are counted by weak references and the resident memory must level off; non-trivial: distinct operation and device")
NEED = {"cases": 30, "repetitions": 800, "memory_readings": 100, "objects_dropped": 800, "operations_watched": 30}


def settle():
    for _ in range(2): gc.collect()


def tracked():
    settle()
    return len(gc.get_objects())


def resident():
    try: ctypes.CDLL(None).malloc_trim(0)
    except Exception: pass
    return int(open("/proc/self/statm").read().split()[1]) * os.sysconf("SC_PAGE_SIZE")


def run(ctx):
    import tensorflow as tf
    P = ctx.P
    from pySLM2 import analysis
    try: ctypes.CDLL(None).mallopt(-3, 1 << 16)     # large blocks go back to the system as soon as they are freed
    except Exception: pass

    class World:
        """one set of objects and everything one can do to them again and again"""
        def __init__(self, rng, g, l):
            self.r, self.g, self.l = rng, g, l
            self.dev, self.lc = g.make(P), l.make(P)
            self.ds, self.ls = P.DMDSimulation(self.dev, 3, 0), P.SLMSimulation(self.lc, 0, 2)
            W = self.W = g.Nx * g.pixel
            self.hg = P.HermiteGaussian(0, 0, 1.0, .4 * W, 1, 0)
            self.lg = P.LaguerreGaussian(0, 0, 1.0, .4 * W, 1, 0)
            self.sg = P.SuperGaussian(0, 0, 1.0, .4 * W, 2.0)
            I = g.lf / g.pixel            # the image plane's width
            self.th, self.tl = P.HermiteGaussian(0, 0, 1.0, .2 * I, 1, 0), P.LaguerreGaussian(0, 0, 1.0, .2 * I, 1, 0)
            self.ze = P.Zernike(1.0, .5 * W, 2, 0)
            self.win, self.cwin = P.RectangularWindowRectangle(0, 0, W, W), P.RectangularWindowCircular(0, 0, W)
            self.expr = (self.hg * 2 + self.sg).shift(.1 * W, 0)
            self.X, self.Y = rng.normal(size=(40, 30)) * W, rng.normal(size=(40, 30)) * W
            self.unit = 8 * g.Nx * g.Ny           # bytes of a field

        def num(self, a=.1, b=1.0): return float(self.r.uniform(a, b))
        def field(self, d=None, c=True):
            d = d or self.g
            f = self.r.normal(size=(d.Ny, d.Nx)) + 2
            return (f + 1j * self.r.normal(size=f.shape)).astype(ctx.cdtype) if c else np.abs(f).astype(ctx.rdtype)
        def binary(self): return self.r.random((self.g.Ny, self.g.Nx)) < .5

        # every method named op_ is one operation
        def op_patch(self): self.dev.circular_patch(self.num(0, self.g.Ny), self.num(0, self.g.Nx), self.num(), self.num(), self.num(), self.num(5, 20), method=["ideal", "simple", "random"][self.r.integers(3)])
        def op_patch_pixels(self): self.dev.circular_patch(int(self.r.integers(self.g.Ny)), int(self.r.integers(self.g.Nx)), 1, 0, 0, int(self.r.integers(3, 60)))
        def op_patch_steepness(self): self.dev.circular_patch(7.5, 8, self.num(), 0, 0, 12, method="random", r=self.num(1, 50))
        def op_patch_maps(self): self.dev.circular_patch(7.5, 8, self.field(c=False) / 9, self.field(c=False), self.field(c=False), 12, method="simple")
        def op_grating(self): self.dev.set_dmd_grating_state(self.num(), self.num(), self.num(), method=["ideal", "simple", "random"][self.r.integers(3)])
        def op_grating_order(self): self.dev.negative_order = not self.dev.negative_order; self.dev.set_dmd_grating_state(self.field(c=False) / 9, self.num(), 0)
        def op_ideal(self): self.dev.calculate_dmd_state(self.field(), self.field(), method="ideal")
        def op_random(self): self.dev.calculate_dmd_state(self.field(), self.field(), method="random", r=self.num(1, 50))
        def op_simple(self): self.dev.calculate_dmd_state(self.hg, self.field(), method="simple", window=self.field())
        def op_constants(self): self.dev.calculate_dmd_state(self.num() + 1j * self.num(), self.th, method="simple", window=self.num())
        def op_ifta(self): self.dev.calculate_dmd_state(self.field(), self.field(), method="ifta", signal_window=self.binary().astype(ctx.rdtype), N=int(self.r.integers(1, 5)), s=self.num())
        def op_gs(self): self.lc.calculate_hologram(self.field(self.l), self.field(self.l, False), N=int(self.r.integers(1, 5)))
        def op_mraf(self): self.lc.calculate_hologram(self.field(self.l), self.field(self.l, False), method="mraf", signal_window=self.field(self.l, False), mixing_factor=self.num(), N=int(self.r.integers(1, 5)))
        def op_switch(self): self.dev.set_dmd_state_on(); self.dev.set_dmd_state_off(); self.lc.reset_slm_state()
        def op_pack(self): self.dev.dmd_state = self.binary(); self.dev.pack_dmd_state()
        def op_propagate(self): self.dev.dmd_state = self.binary(); self.ds.propagate_to_image(self.field())
        def op_propagate_number(self): self.ds.propagate_to_image(self.num() + 1j * self.num())
        def op_propagate_phase(self): self.lc.slm_state = self.field(self.l, False); self.ls.propagate_to_image(self.field(self.l))
        def op_results(self):
            self.ds.propagate_to_image(self.hg)
            for n in ("input", "output", "image_plane"): getattr(self.ds, n + "_field"); getattr(self.ds, n + "_intensity"); getattr(self.ds, f"get_{n}_power")()
        def op_block(self): self.ds.propagate_to_image(self.hg); self.ds.block_zeroth_order(self.num() * 1e-4); self.ds.block_zeroth_order(); self.ds.clear()
        def op_grids(self):
            for o in (self.dev, self.lc): o.fourier_plane_grid, o.image_plane_grid
            for o in (self.ds, self.ls): o.fourier_plane_padded_grid, o.image_plane_padded_grid
            self.dev.first_order_origin
        def op_sample(self):
            self.dev.profile_to_tensor(self.field(), complex=True); self.dev.profile_to_tensor(self.num()); self.dev.profile_to_tensor(self.expr, at_fourier_plane=False)
        def op_evaluate(self):
            for p in (self.hg, self.lg, self.sg, self.ze, self.win, self.cwin, self.expr): p(self.X * self.num(), self.Y)
        def op_assign(self):
            self.hg.x0, self.hg.w, self.sg.a, self.sg.p = self.num() * self.W, self.num() * self.W, self.num(), self.num(1, 3)
            self.win.wx, self.cwin.r = self.num() * self.W, self.num() * self.W
            for p in (self.hg, self.sg, self.win, self.cwin, self.expr): p(self.X, self.Y)
        def op_derive(self): ((self.hg * self.num() - self.sg).rotate(self.num()).shift(self.num(), 0) ** 2)(self.X, self.Y)
        def op_derived_hologram(self): self.dev.calculate_dmd_state(self.hg * self.num() + self.num(), self.tl.shift(self.num() * 1e-5, 0), method="simple")
        def op_analysis(self): P.zernike_decomposition(self.r.normal(size=(20, 20)), self.num(7, 9), 2, reconstruct=True)
        def op_trivial(self): analysis.remove_trivial_phase(self.r.normal(size=(20, 20)), 8.0)
        def op_failures(self):
            for f in (lambda: self.dev.calculate_dmd_state(self.field(), self.field(), method="none" + str(self.r.integers(99))), lambda: self.ds.propagate_to_image(np.zeros((3, 5))),
                      lambda: P.Zernike(1.0, 1.0, 2, int(self.r.integers(3, 99))), lambda: self.lc.calculate_hologram(self.field(self.l), 1.0, method="mraf")):
                try: f()
                except Exception: pass

    OPS = [n for n in dir(World) if n.startswith("op_")]
    SLOW = ("op_derive", "op_derived_hologram", "op_analysis", "op_trivial")

    def repeat(case):
        rng = case.rng
        name = OPS[case.index % len(OPS)]
        g = opt.geometry(rng, 110, 150); l = opt.geometry(rng, 110, 150, kind="LCOS")
        case.note(name, g.desc())
        w = World(rng, g, l)
        f = getattr(w, name)
        n = 4 if name in SLOW else ctx.n(16, 60)
        for _ in range(n // 2): f()
        gc.collect(); gc.freeze()        # what is there now is not looked at again
        o0, m0 = tracked(), resident()
        grown, more = [], []
        # growth must go on: a cache that fills once is not an accumulation
        for block in range(4):
            for _ in range(n): f()
            o1, m1 = tracked(), resident()
            grown.append((o1 - o0) / n); more.append((m1 - m0) / n)
            o0, m0 = o1, m1
            case.event("repetitions", n); case.event("memory_readings", 2)
            if grown[-1] <= 30 and more[-1] <= .2 * w.unit: break
        case.event("operations_watched")
        case.true(min(grown) <= 30, f"{name[3:]}: each repetition leaves objects behind", per_repetition=grown)
        case.true(min(more) <= max(.3 * w.unit, 30000), f"{name[3:]}: each repetition leaves memory behind", bytes_per_repetition=more, field=w.unit)

    ctx.each("repeat", len(OPS) * ctx.n(1, 3), repeat)

    def churn(case):
        """objects that nobody refers to any more go away"""
        rng = case.rng
        kind = ["dmd", "lcos", "profiles", "simulations"][case.index % 4]
        g = opt.geometry(rng, 60, 90); l = opt.geometry(rng, 60, 90, kind="LCOS")
        W = g.Nx * g.pixel
        case.note("churn", kind, g.desc())
        alive = []
        inp, tgt = P.HermiteGaussian(0, 0, 1, .5 * W), P.HermiteGaussian(0, 0, 1, .3 * W)
        fixed = g.make(P)

        def one():
            s = float(rng.uniform(.5, 2))
            if kind == "dmd":
                d = P.DMD(g.wavelength * s, g.focal, g.period, g.theta, g.Nx, g.Ny, g.pixel)
                d.calculate_dmd_state(inp, tgt, method="simple"); d.fourier_plane_grid, d.image_plane_grid
                out = [d]
            elif kind == "lcos":
                d = P.LCOS_SLM(l.wavelength * s, l.focal, l.Nx, l.Ny, l.pixel)
                sim = P.SLMSimulation(d); sim.propagate_to_image(inp); d.image_plane_grid
                out = [d, sim]
            elif kind == "simulations":
                sim = P.DMDSimulation(fixed, int(rng.integers(4)), 1)
                sim.propagate_to_image(inp); sim.image_plane_padded_grid, sim.fourier_plane_padded_grid; sim.image_plane_intensity
                out = [sim]
            else:
                p = P.HermiteGaussian(0, s * W, 1, W); q = (p * s + 1).shift(s * W, 0); fixed.profile_to_tensor(q); p(np.zeros(3), np.zeros(3))
                z = P.RectangularWindowCircular(0, 0, s * W); z(np.zeros(3), np.zeros(3))
                out = [p, q, z]
            alive.extend(weakref.ref(o) for o in out)
            case.event("objects_dropped", len(out))

        per = {"profiles": 12}.get(kind, 30)
        gc.collect(); gc.freeze()
        levels, memory = [], []
        for _ in range(ctx.n(9, 24) if kind != "profiles" else ctx.n(5, 16)):
            for _ in range(per): one()
            settle(); levels.append(sum(r() is not None for r in alive)); memory.append(resident()); case.event("memory_readings")
        half = len(levels) // 2
        # what is kept for reuse is bounded: in the second half nothing is added to it
        case.true(levels[-1] <= levels[half] + .3 * per * (len(levels) - 1 - half), f"{kind}: dropped objects stay alive", alive=levels, made=len(alive))
        grid = 16 * g.Nx * g.Ny
        case.true(memory[-1] - memory[half] <= .3 * per * (len(levels) - 1 - half) * grid + 4e6, f"{kind}: memory of dropped objects is not given back", resident=[m >> 10 for m in memory])

    ctx.each("churn", ctx.n(4, 16), churn)
