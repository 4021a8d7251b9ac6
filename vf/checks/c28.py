"""C28: number images, read back glyph by glyph."""
import os
import numpy as np
from vf import fakes, worker
from vf.checks.c25 import Rig

PLAN = {"quick": [(32, 2)], "thorough": [(32, 4)]}
RULE = ("each case renders random numbers for one random display size and reads each image back: type, size, first lit column, and each digit "
        "cell matched against independently rendered glyphs of all digits, upright, mirrored and turned; distinctness and determinism over many "
        "numbers; through emulated controllers as well; non-trivial: distinct display size and numbers")
NEED = {"cases": 30, "digits_read": 400, "images": 300, "distinct_pairs": 2000, "controller_images": 20, "drawn_on": 40, "negative": 60}
FONT = os.path.join(worker.REPO, "pySLM2", "util", "NotoMono-Regular.ttf")


def glyphs(size):
    """each digit as a boolean array on a common canvas (advance x line height), by the outline renderer"""
    from PIL import Image, ImageDraw, ImageFont
    f = ImageFont.truetype(FONT, size=size)
    adv = f.getlength("0")
    out = {}
    for d in "0123456789-":
        im = Image.new("1", (int(np.ceil(adv)) + 2, 2 * size + 4))
        ImageDraw.Draw(im).text((0, 0), d, 1, font=f)
        out[d] = np.array(im).astype(bool)
    return adv, out


def bbox(a):
    r, c = np.nonzero(a.any(1))[0], np.nonzero(a.any(0))[0]
    return (r[0], r[-1] + 1, c[0], c[-1] + 1)


def likeness(a, b):
    """share of lit pixels two boolean arrays have in common"""
    u = (a | b).sum()
    return 1.0 if u == 0 else float((a & b).sum() / u)


def run(ctx):
    util = fakes.load(None, None)
    number_image = util.number_image

    def read(case, img, i, Nx, Ny, adv, G):
        case.true(isinstance(img, np.ndarray) and img.dtype == bool, "the image must be a boolean array", got=getattr(img, "dtype", type(img)))
        case.equal(img.shape, (Ny, Nx), f"size of the image of {i}")
        case.event("images")
        text = str(i)
        case.true(img.any(), f"the image of {i} is dark")
        case.true(img.mean() < .5, f"the background of {i} is not dark", lit=float(img.mean()))
        # vertical position from the image itself; horizontal from the left edge
        whole = np.zeros((2 * Ny + 8, Nx), bool)
        for k, ch in enumerate(text):
            x = int(round(k * adv))
            g = G[ch]
            e = min(Nx, x + g.shape[1])
            if e > x: whole[:g.shape[0], x:e] |= g[:, :e - x]
        if not whole.any(): return
        b, w = bbox(img), bbox(whole)
        case.true(abs(b[2] - w[2]) <= 1 + .02 * adv, f"the digits of {i} do not start at the left edge", first_column=b[2], want=w[2])
        hi, hw = b[1] - b[0], w[1] - w[0]
        case.true(abs(hi - hw) <= 1 + .03 * hw, f"glyph height of {i}", got=hi, want=hw)
        shifts = [(dy, dx) for dy in range(-1, 2) for dx in range(-1, 2)]

        def at(canvas_rows, dy, dx):
            out = np.zeros(img.shape, bool)
            src = whole[w[0]:w[1]]
            r0 = b[0] + dy
            for r in range(src.shape[0]):
                if 0 <= r0 + r < Ny: out[r0 + r] = np.roll(src[r], dx)
            return out
        best = max(likeness(img, at(None, dy, dx)) for dy, dx in shifts)
        case.true(best > .8, f"the image of {i} does not show {text}", likeness=best)
        # each cell reads as its digit and as no other
        full = [k for k in range(len(text)) if (k + 1) * adv <= Nx]
        for k in full[:6]:
            x = int(round(k * adv)); wd = int(adv)
            cell = img[b[0]:b[0] + hw, x:x + wd]
            def score(ch):
                g = G[ch][w[0]:w[0] + hw, :wd]
                return max(likeness(cell, np.roll(np.roll(g, dy, 0), dx, 1)[:cell.shape[0], :cell.shape[1]]) for dy, dx in shifts) if g.shape == cell.shape else -1
            if G[text[k]][w[0]:w[0] + hw, :wd].shape != cell.shape: continue
            s = {ch: score(ch) for ch in G}
            case.equal(max(s, key=s.get), text[k], f"digit {k} of {i}")
            case.event("digits_read")

    def numbers(case):
        rng = case.rng
        Ny = int(rng.choice([int(rng.integers(24, 200)), 768, 1080, 64, 101])); Nx = int(rng.choice([int(rng.integers(max(16, Ny // 2), 5 * Ny)), Ny * 2]))
        if Ny > 300: Nx = min(Nx, 2560)
        adv, G = glyphs(Ny // 2)
        case.note((Nx, Ny))
        kept = {}
        digits = max(1, int(Nx / adv))
        pool = [int(v) for v in list(range(12)) + [10 ** min(digits, 8) - 1] + list(rng.integers(0, 10 ** min(digits, 6), ctx.n(10, 30))) + [-1, -7, -int(rng.integers(1, 10 ** max(1, min(digits - 1, 4))))]]
        if Ny > 300: pool = [pool[k] for k in rng.permutation(len(pool))[:5]]
        for i in pool:
            if i < 0: case.event("negative")
            arg = np.int64(i) if rng.random() < .2 else i
            img = number_image(arg, Nx, Ny) if rng.random() < .7 else number_image(i, Nx=Nx, Ny=Ny)
            read(case, img, i, Nx, Ny, adv, G)
            if len(str(i)) * adv <= Nx: kept[i] = (img, img.copy())
            case.note(i)
        for i, (img, copy) in kept.items():
            case.same(number_image(i, Nx, Ny), copy, f"the same number {i} again")
            case.same(img, copy, "an earlier image changed")
        # what the caller does to an image it was given is no one else's business
        for i, (img, copy) in list(kept.items())[:4]:
            if img.flags.writeable:
                img[...] = ~img if rng.random() < .5 else rng.random(img.shape) < .5
                case.same(number_image(i, Nx, Ny), copy, f"the image of {i} after the caller has drawn on an earlier one"); case.event("drawn_on")
        ks = list(kept)
        for a in range(len(ks)):
            for b in range(a):
                if ks[a] != ks[b]:
                    if not (kept[ks[a]][1] != kept[ks[b]][1]).any(): case.true(False, f"{ks[a]} and {ks[b]} give the same image", size=(Nx, Ny))
                    case.event("distinct_pairs")

    ctx.each("numbers", ctx.n(34, 300), numbers)

    def controller(case):
        rng = case.rng
        w, h = int(rng.integers(30, 120)), int(rng.integers(24, 80))
        r = Rig(["alp", "lux"][case.index % 2], rng, bool(rng.integers(2)), w, h)
        r.c.initialize()
        adv, G = glyphs(h // 2)
        for _ in range(4):
            i = int(rng.integers(0, 100))
            img = r.c.number_image(i)
            case.note(r.kind, (w, h), i)
            read(case, img, i, w, h, adv, G)
            case.same(img, r.util.number_image(i, w, h), "the controller's image is that of its display")
            copy = img.copy()
            if img.flags.writeable: img[...] = ~img
            case.same(r.c.number_image(i), copy, "the controller's image after the caller has drawn on an earlier one")
            case.event("controller_images")

    ctx.each("controller", ctx.n(10, 60), controller)
