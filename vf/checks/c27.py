"""C27: what an emulated Luxbeam, interpreting the uploaded sequencer program, shows after any history."""
import numpy as np
from vf import fakes
from vf.checks.c25 import Pool

PLAN = {"quick": [(32, 2)], "thorough": [(32, 4)]}
RULE = ("each case is a random history of load_single, load_multiple (1 to 700 images), rising and falling edges on the three trigger inputs and "
        "initializations on an emulated Luxbeam that interprets the sequencer program; after every step the mirrors must show the image of a "
        "model that moves one image per rising edge and wraps; non-trivial: distinct history")
NEED = {"cases": 20, "loads": 250, "edges": 1500, "software_triggers": 300, "wraps": 80, "images_compared": 1500, "inverted": 5, "images_again": 40, "long_loads": 8, "long_through": 3}


def run(ctx):
    def history(case):
        rng = case.rng
        w, h = int(rng.integers(3, 26)), int(rng.integers(3, 18))
        rec = fakes.Recorder()
        mod = fakes.luxbeam_module(w, h, rec=rec)
        util = fakes.load(None, mod)
        invert = bool(rng.integers(2)); ip = f"192.168.{rng.integers(256)}.{rng.integers(256)}"; timeout = [None, 1.5][rng.integers(2)]
        c = [lambda: util.LuxbeamController(ip, invert, timeout), lambda: util.LuxbeamController(ip, invert=invert), lambda: util.LuxbeamController(ip=ip, timeout=timeout, invert=invert)][rng.integers(3)]()
        d = mod.devices[-1]
        case.note(ip, invert, (w, h))
        case.equal(d.ip, ip, "address of the device"); case.equal(d.inverse, invert, "inversion of the device")
        if invert: case.event("inverted")
        c.initialize()
        now = None
        pool = Pool(case, w, h)
        for step in range(ctx.n(70, 140)):
            op = rng.random()
            if now is None or op < .10:
                arg, im = pool.take(1); c.load_single(arg[0]); now = [im, 0]; case.event("loads"); case.note("single")
            elif op < .2:
                n = int(rng.choice([1, 2, 3, 4, 7, 40, int(rng.integers(1, 30))]))
                if rng.random() < .08: n = int(rng.integers(100, 700)); case.event("long_loads")
                arg, im = pool.take(n); n = len(im); c.load_multiple(list(arg)); now = [im, 0]; case.event("loads"); case.note(f"multiple {n}")
            elif op < .5:
                n0 = d.changes
                c.fire_software_trigger(); now[1] += 1; case.event("software_triggers"); case.event("edges"); case.note("fire")
            elif op < .97:
                rising = bool(rng.random() < .7); src = [mod.TRIG_SOURCE_ELECTRICAL, mod.TRIG_SOURCE_OPTICAL][rng.integers(2)]
                d.edge_event(rising, src); case.event("edges"); case.note("edge" if rising else "falling")
                if rising: now[1] += 1
            elif op < .985:
                case.equal((c.Nx, c.Ny), (w, h), "display size"); continue
            else:
                c.initialize(); now = None; case.note("initialize"); continue
            im, k = now
            if k and k % len(im) == 0: case.event("wraps")
            case.true(not d.runaway, "the sequence runs without waiting for the trigger")
            got = d.display()
            case.true(isinstance(got, np.ndarray), "no defined image is shown", got=got, images=len(im), triggers=k)
            want = im[k % len(im)]
            case.same(got, ~want if invert else want, f"image after {k} triggers of a load of {len(im)}"); case.event("images_compared")

    def through(case):
        """all the way through a long load and around"""
        rng = case.rng
        rec = fakes.Recorder(); mod = fakes.luxbeam_module(5, 4, rec=rec); util = fakes.load(None, mod)
        c = util.LuxbeamController("10.0.0.1"); c.initialize(); d = mod.devices[-1]
        N = [127, 128, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025][(case.index + 5 * ctx.seed) % 12]
        if rng.random() < .5: c.load_multiple([rng.random((4, 5)) < .5 for _ in range(3)])
        im = [rng.random((4, 5)) < .5 for _ in range(N)]
        c.load_multiple(im); case.event("loads"); case.event("long_through")
        case.note("through", N)
        for k in range(N + 3):
            case.same(d.display(), im[k % N], f"image after {k} triggers of a load of {N}")
            case.true(not d.runaway, "the sequence runs without waiting for the trigger")
            if rng.random() < .5: c.fire_software_trigger()
            else: d.edge_event(True, mod.TRIG_SOURCE_ELECTRICAL)
        case.event("edges", N + 3); case.event("images_compared", N + 3); case.event("wraps")

    ctx.each("through", ctx.n(4, 24), through)

    ctx.each("history", ctx.n(36, 400), history)
