"""C25: controllers and their hardware: readiness, faults at every device call, missing drivers."""
import itertools
import numpy as np
from vf import fakes

PLAN = {"quick": [(32, 2)], "thorough": [(32, 4)]}
LEVEL = "fault_enumeration"
RULE = ("each case drives a real controller over emulated hardware that records every call: every operation in every not-ready state, a fault at "
        "every device call of the initialization and of both kinds of load (after random earlier loads), followed by recovery, and every way a "
        "driver library can be missing; non-trivial: distinct controller, state, operation and faulted call")
NEED = {"cases": 30, "refused": 120, "silent_operations": 120, "init_faults": 8, "load_faults": 40, "recoveries": 40, "missing": 6, "asked_before_closing": 6}
W, H = 20, 12


def images(rng, n, w=W, h=H):
    return [rng.random((h, w)) < rng.uniform(.2, .8) for _ in range(n)]


class Pool:
    """image sets of a history: fresh ones, the same objects or contents again, some of them edited in place, prefixes and reorderings"""
    def __init__(self, case, w, h):
        self.case, self.rng, self.w, self.h, self.old = case, case.rng, w, h, []

    def take(self, n):
        """(the arguments, copies of them to compare with)"""
        rng = self.rng
        if self.old and rng.random() < .45:
            k = int(rng.integers(6)); im = self.old[int(rng.integers(len(self.old)))] if rng.random() < .5 else self.old[-1]
            self.case.event("images_again")
            if k == 0: im = im[:]                                            # the same objects
            elif k == 1: im = [i.copy() for i in im]                          # the same contents
            elif k == 2:                                                      # an array edited in place
                im = im[:]; i = im[int(rng.integers(len(im)))]
                if i.flags.writeable: i[int(rng.integers(self.h)), int(rng.integers(self.w))] ^= True
            elif k == 3: im = [im[j] for j in rng.permutation(len(im))]       # another order
            elif k == 4: im = im[:max(1, n)] if len(im) >= n else (im * n)[:n]  # fewer or repeated
            else:                                                            # one of them replaced
                im = im[:]; im[int(rng.integers(len(im)))] = images(rng, 1, self.w, self.h)[0]
            if n == 1: im = im[:1]
        else: im = images(rng, n, self.w, self.h)
        self.old = (self.old + [im])[-4:]
        return im, [i.copy() for i in im]


class Rig:
    """one controller over one emulated device"""
    def __init__(self, kind, rng, invert=False, w=W, h=H, memory=12):
        self.kind, self.rec, self.invert = kind, fakes.Recorder(), invert
        if kind == "alp":
            self.mod = fakes.alp_module(w, h, memory=memory, rec=self.rec)
            self.util = fakes.load(alp=self.mod, lux=fakes.luxbeam_module(w, h) if rng.random() < .5 else None)
            self.c = self.util.ALPController(invert=invert) if invert or rng.random() < .5 else self.util.ALPController()
        else:
            self.mod = fakes.luxbeam_module(w, h, rec=self.rec)
            self.util = fakes.load(alp=fakes.alp_module(w, h) if rng.random() < .5 else None, lux=self.mod)
            self.c = self.util.LuxbeamController("10.0.0.7", invert=invert) if rng.random() < .5 else self.util.LuxbeamController("10.0.0.7", invert, 3.0)

    @property
    def dev(self):
        return self.mod.devices[-1]

    def trigger(self):
        if self.kind == "alp": self.dev.edge_event(True)
        else: self.dev.edge_event(True, self.mod.TRIG_SOURCE_ELECTRICAL)

    def shows(self, case, imgs, single, what, steps=None):
        """the display goes through exactly these images"""
        want = [~i if self.invert else i for i in imgs]
        if self.kind == "alp":
            if single:
                free = self.dev.frames_shown_freely()
                case.equal(len(free), 1, what + ": frames shown without a trigger")
                case.same(free[0], want[0], what + ": image shown")
                self.trigger()
                case.same(self.dev.display(), want[0], what + ": image shown after a trigger")
                return
            case.equal(self.dev.frames_shown_freely(), [], what + ": frames shown without a trigger")
            for k, im in enumerate(want):
                self.trigger()
                case.true(self.dev.display() is not None, what + f": nothing shown after trigger {k + 1}")
                case.same(self.dev.display(), im, what + f": image after trigger {k + 1}")
            return
        for k in range(steps or len(want) + 2):
            case.true(isinstance(self.dev.display(), np.ndarray), what + f": no defined image after {k} triggers", got=self.dev.display())
            case.same(self.dev.display(), want[k % len(want)], what + f": image after {k} triggers")
            case.true(not self.dev.runaway, what + ": the sequence runs without waiting for the trigger")
            self.trigger()

    def load(self, imgs, single):
        return self.c.load_single(imgs[0]) if single else self.c.load_multiple(imgs)

    def operations(self, rng):
        im = images(rng, 3)
        return {"load_single": lambda: self.c.load_single(im[0]), "load_multiple": lambda: self.c.load_multiple(im), "load_sequence": lambda: self.c.load_sequence(im),
                "load_single by name": lambda: self.c.load_single(dmd_state=im[0]),
                "Nx": lambda: self.c.Nx, "Ny": lambda: self.c.Ny, "number_image": lambda: self.c.number_image(3), "fire_software_trigger": lambda: self.c.fire_software_trigger()}

    def refuses(self, case, rng, what):
        case.true(not self.c.is_initialized(), what + ": must not count as initialized")
        ops = self.operations(rng)
        for name in rng.permutation(sorted(ops)):
            n = len(self.rec.calls)
            case.raises(Exception, ops[name], f"{self.kind} {what}: {name} must be refused")
            case.event("refused")
            case.true(len(self.rec.calls) == n, f"{self.kind} {what}: {name} reached the hardware", calls=self.rec.calls[n:])
            case.event("silent_operations")

    def works(self, case, rng, what):
        case.true(self.c.is_initialized(), what + ": must count as initialized")
        case.equal((self.c.Nx, self.c.Ny), (W, H), what + ": display size")
        single = bool(rng.integers(2)); im = images(rng, 1 if single else int(rng.integers(1, 5)))
        self.load(im, single)
        self.shows(case, im, single, what)


def run(ctx):
    def rig(case):
        kind = ["alp", "lux"][case.index % 2]
        invert = bool(case.rng.integers(2))
        return Rig(kind, case.rng, invert), kind, invert

    def never(case):
        r, kind, invert = rig(case)
        case.note(kind, "never initialized", invert)
        r.refuses(case, case.rng, "before initialization")
        r.c.initialize()
        r.works(case, case.rng, "after initialization")

    ctx.each("never", ctx.n(6, 60), never)

    def closed(case):
        rng = case.rng
        r = Rig("alp", rng, bool(rng.integers(2)))
        cycles = int(rng.integers(1, 4))
        loads = [int(v) for v in rng.integers(0, 4, cycles)]
        case.note("alp closed", loads, r.invert)
        for n in loads:
            r.c.initialize()
            for _ in range(n):
                single = bool(rng.integers(2)); im = images(rng, 1 if single else 3)
                r.load(im, single); r.shows(case, im, single, "before closing")
            if rng.random() < .7:      # everything has been used and asked for before
                case.equal((r.c.Nx, r.c.Ny), (W, H), "display size"); case.equal(r.c.number_image(3).shape, (H, W), "number image"); r.c.is_initialized()
                case.event("asked_before_closing")
            if rng.random() < .3 and hasattr(r.c, "__exit__"): r.c.__exit__(None, None, None)
            else: r.c.close()
            case.true(not r.dev.alive and not r.dev.seqs, "close leaves the device allocated")
            r.refuses(case, rng, "after close")
        r.c.initialize()
        r.works(case, rng, "initialized again after close")

    ctx.each("closed", ctx.n(8, 80), closed)

    def init_fault(case):
        """a fault at every device call of the initialization"""
        rng = case.rng
        kind = ["alp", "lux"][case.index % 2]; invert = bool((case.index // 2) % 2)
        k = 0
        while True:
            k += 1
            r = Rig(kind, rng, invert)
            r.rec.arm(k)
            try:
                r.c.initialize()
                case.true(r.rec.count < k, "a failing device call during initialization was not reported", call=r.rec.calls[k - 1][0] if k <= len(r.rec.calls) else None)
                r.rec.disarm(); break
            except fakes.Injected:
                r.rec.disarm()
            case.note(kind, invert, f"initialization fails at call {k}: {r.rec.calls[-1][0]}")
            case.event("init_faults")
            r.refuses(case, rng, f"after initialization failed at {r.rec.calls[-1][0]}")
            if rng.random() < .5:                        # fails again, elsewhere
                r.rec.arm(int(rng.integers(1, k + 1)))
                case.raises(fakes.Injected, r.c.initialize, "a failing initialization must be reported")
                r.rec.disarm()
                r.refuses(case, rng, "after a second failed initialization")
            r.c.initialize()
            r.works(case, rng, f"initialized after a failure at call {k}")
            case.event("recoveries")
        case.true(k > 1, "the initialization must reach the device")
        r.works(case, rng, "initialized")

    ctx.each("init_fault", 4 if not ctx.thorough else 16, init_fault)

    def load_fault(case):
        """a fault at every device call of a load, after earlier loads; then recovery"""
        rng = case.rng
        kind = ["alp", "lux"][case.index % 2]; invert = bool(rng.integers(2)); single = bool((case.index // 2) % 2)
        k = 0
        while True:
            k += 1
            r = Rig(kind, rng, invert)
            r.c.initialize()
            for _ in range(int(rng.integers(0, 3))):
                s = bool(rng.integers(2)); im = images(rng, 1 if s else int(rng.integers(1, 5)))
                r.load(im, s)
                for _ in range(int(rng.integers(0, 4))): r.trigger()
            bad = images(rng, 1 if single else int(rng.integers(1, 4)))
            if rng.random() < .5: case.equal((r.c.Nx, r.c.Ny), (W, H), "display size")
            r.rec.arm(k)
            try:
                r.load(bad, single)
                case.true(r.rec.count < k, "a failing device call during a load was not reported", fault=k)
                r.rec.disarm(); break
            except fakes.Injected:
                r.rec.disarm()
            what = f"after a load failed at call {k} ({r.rec.calls[-1][0]})"
            case.note(kind, "single" if single else "multiple", what)
            case.event("load_faults")
            case.true(r.c.is_initialized(), what + ": the controller is still initialized")
            if rng.random() < .4:
                s = bool(rng.integers(2))
                r.rec.arm(int(rng.integers(1, 5)))
                try: r.load(images(rng, 1 if s else 3), s)
                except fakes.Injected: case.event("load_faults")
                r.rec.disarm()
            for _ in range(int(rng.integers(0, 3))): r.trigger()
            for s in rng.permutation([True, False]):
                im = images(rng, 1 if s else int(rng.integers(1, 5)))
                r.load(im, bool(s))
                r.shows(case, im, bool(s), what)
                if kind == "alp": case.true(len(r.dev.seqs) <= 2, what + ": sequences pile up in the device", kept=len(r.dev.seqs))
            case.event("recoveries")
        case.true(k > 2, "a load must reach the device", calls=k)
        r.shows(case, bad, single, "after the load")

    ctx.each("load_fault", ctx.n(12, 120), load_fault)

    def missing(case):
        rng = case.rng
        have_alp, have_lux = [(False, False), (True, False), (False, True), (True, True)][case.index % 4]
        alp = fakes.alp_module() if have_alp else None; lux = fakes.luxbeam_module() if have_lux else None
        util = fakes.load(alp, lux)
        case.note("libraries present", have_alp, have_lux)
        for name, make, have in (("ALPController", lambda: util.ALPController(), have_alp), ("inverted ALPController", lambda: util.ALPController(invert=True), have_alp),
                                 ("LuxbeamController", lambda: util.LuxbeamController("1.2.3.4"), have_lux)):
            if have: make()
            else:
                case.raises(ModuleNotFoundError, make, f"{name} without its driver library")
                case.event("missing")

    ctx.each("missing", 4, missing)
