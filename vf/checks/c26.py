"""C26: what an emulated ALP shows after any history of loads and triggers."""
import numpy as np
from vf.checks.c25 import Pool, Rig, images

PLAN = {"quick": [(32, 2)], "thorough": [(32, 4)]}
RULE = ("each case is a random history of load_single, load_multiple, trigger edges and close/initialize on an emulated ALP with limited memory; "
        "after every step the mirrors shown must be those of a model (images, order, inversion), one step per rising edge and none on falling "
        "edges, and the running sequence must be uninterrupted and at its minimum picture time; non-trivial: distinct history")
NEED = {"cases": 20, "loads": 400, "edges": 800, "images_compared": 600, "inverted": 5, "single_after_multiple": 20, "images_again": 80, "long_through": 12}


def run(ctx):
    def history(case):
        rng = case.rng
        w, h = int(rng.integers(3, 30)), int(rng.integers(3, 20))
        r = Rig("alp", rng, bool(rng.integers(2)), w, h)
        r.c.initialize()
        if r.invert: case.event("inverted")
        m = r.mod
        now, last = None, None
        pool = Pool(case, w, h)
        case.note((w, h), r.invert)
        for step in range(ctx.n(45, 90)):
            d = r.dev
            op = rng.random()
            if op < .30 or now is None:
                a, im = pool.take(1); last, now = now, ("single", im, 0)
                arg = a[0] if rng.random() < .7 else np.asfortranarray(a[0])
                r.c.load_single(arg)
                case.note("single")
                if last and last[0] == "multiple": case.event("single_after_multiple")
            elif op < .55:
                a, im = pool.take(int(rng.integers(1, 7))); now = ("multiple", im, None)
                if rng.random() < .2 and len(im) > 1: im[-1] = im[0]; a = a[:-1] + a[:1]
                r.c.load_multiple(list(a) if rng.random() < .8 else tuple(a))
                case.note(f"multiple {len(im)}")
            elif op < .93:
                rising = bool(rng.random() < .7)
                d.edge_event(rising)
                case.event("edges"); case.note("rising" if rising else "falling")
                if rising and now[0] == "multiple":
                    k = 0 if now[2] is None else now[2] + 1
                    if k >= len(now[1]): now = ("past", now[1], k)     # what follows the last image is not promised
                    else: now = (now[0], now[1], k)
                if now[0] == "past": continue
            elif op < .96:
                r.c.close(); case.note("close")
                case.true(not d.alive, "close must release the device")
                r.c.initialize(); now = None
                continue
            else:
                case.equal((r.c.Nx, r.c.Ny), (w, h), "display size")
                continue
            if now[0] == "past": continue
            d = r.dev
            s = d.seqs[d.running] if d.running in d.seqs else None
            case.true(s is not None, "no sequence is running after a load")
            case.equal(s["n"], len(now[1]), "number of pictures of the running sequence")
            case.equal(s["bin"], m.ALP_BIN_UNINTERRUPTED, "binary mode must be uninterrupted")
            if op < .55:
                case.event("loads")
                case.true(len(d.seqs) <= 2, "sequences pile up in the device", kept=len(d.seqs))
            if now[0] == "single":
                free = d.frames_shown_freely()
                case.equal(len(free), 1, "frames shown continuously, without a trigger")
                case.same(free[0], ~now[1][0] if r.invert else now[1][0], "image shown by load_single"); case.event("images_compared")
            else:
                case.equal(len(d.frames_shown_freely()), 0, "frames shown without a trigger after load_multiple")
                case.equal(s["time"], m.MIN[m.ALP_BIN_UNINTERRUPTED], "picture time")
                case.equal(d.edge, m.ALP_EDGE_RISING, "trigger edge")
                if now[2] is None: case.true(d.display() is None, "an image is shown before the first trigger")
                else:
                    case.same(d.display(), ~now[1][now[2]] if r.invert else now[1][now[2]], f"image {now[2]} of load_multiple"); case.event("images_compared")

    ctx.each("history", ctx.n(34, 400), history)

    def through(case):
        """step through a whole load, after many others"""
        rng = case.rng
        r = Rig("alp", rng, bool(rng.integers(2)), 16, 10)
        r.c.initialize()
        if r.invert: case.event("inverted")
        kept = []
        for k in range(ctx.n(14, 30)):
            single = bool(rng.integers(2))
            im = images(rng, 1 if single else int(rng.integers(1, 7)), 16, 10)
            r.load(im, single); r.shows(case, im, single, f"load {k}")
            case.event("loads"); case.event("images_compared", len(im)); case.event("edges", len(im))
            kept.append(len(r.dev.seqs))
            case.note("single" if single else len(im))
        case.true(kept[-1] <= kept[0] + 1, "the number of sequences in the device grows with the loads", kept=kept)

    ctx.each("through", ctx.n(10, 100), through)

    def long(case):
        """all the way through long loads"""
        rng = case.rng
        sizes = [63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 777, 1000, 1024, 1025]
        r = Rig("alp", rng, bool(rng.integers(2)), 5, 4, memory=2200)
        r.c.initialize()
        for k in range(3):
            N = sizes[(3 * case.index + k + 5 * ctx.seed) % len(sizes)]
            im = images(rng, N, 5, 4)
            r.load(im, False); r.shows(case, im, False, f"load of {N}")
            case.event("loads"); case.event("images_compared", N); case.event("edges", N); case.event("long_through")
            case.note("long", N)

    ctx.each("long", ctx.n(4, 24), long)
