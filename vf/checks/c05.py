"""C05: random chains of transforms (mixed with arithmetic) against substitution of coordinates."""
import math
import numpy as np
from vf import ref
from vf.checks import c04

RULE = ("each case applies a random chain of shift, rotate, rescale_x, rescale_y, as_complex_profile and arithmetic to a random profile, "
        "in the order of the calls, and compares the library's values with those of the reference at substituted coordinates; the "
        "original is evaluated again afterwards; non-trivial: distinct chains")
NEED = {"cases": 60, "points_decided": 4000, "t:shift": 20, "t:rot": 20, "t:rx": 20, "t:ry": 20, "t:cx": 5, "t:cx of complex": 4, "originals_unchanged": 60, "t:rot by parts of a turn": 25, "turns": 72, "small": 80, "siblings": 90}


def transform(rng, spec, event, allow_cx=True, only=None, s=1.0):
    k = only or ["shift", "rot", "rx", "ry", "cx"][int(rng.choice(5, p=[.26, .26, .2, .2, .08]))]
    if k == "cx" and not allow_cx: k = "rot"
    event("t:cx of complex" if k == "cx" and ref.is_complex(spec) else "t:" + k)
    if k == "shift": return (k, spec, [ref.r4(rng, -1.5, 1.5) * s, int(rng.integers(-2, 3)) if s == 1 else s][rng.integers(2)], ref.r4(rng, -1.5, 1.5) * s)
    if k == "rot":
        if rng.random() < .5: return (k, spec, [ref.r4(rng, -3.1, 3.1), ref.r4(rng, -20, 20), ref.r4(rng, -1e-3, 1e-3), int(rng.integers(-3, 4))][rng.integers(4)])
        eighths = int(rng.integers(-8, 9))
        event("t:rot by parts of a turn")
        return (k, spec, eighths * math.pi / 4)
    if k == "cx": return (k, spec)
    return (k, spec, [ref.r4(rng, 0.4, 2.5), ref.r4(rng, -2, -0.5), -1.0, 2][rng.integers(4)])


def apply(obj, spec):
    k = spec[0]
    if k == "shift": return obj.shift(spec[2], spec[3])
    if k == "rot": return obj.rotate(spec[2])
    if k == "rx": return obj.rescale_x(spec[2])
    if k == "ry": return obj.rescale_y(spec[2])
    if k == "cx": return obj.as_complex_profile()


def run(ctx):
    P, R = ctx.P, ref.R(ctx.prec)

    def chain(case):
        rng = case.rng
        spec = ref.leaf(rng, 1.0, order=3, kinds=("HG", "SG", "LG", "Z", "RW", "CW"))
        objs = [(ref.build(P, spec), spec)]
        x, y = ref.points(rng, 80, 1.0, 2.5)
        first = objs[0][0](x, y)
        for _ in range(int(rng.integers(2, 6))):
            obj, spec = objs[-1]
            if rng.random() < 0.2:
                other = ref.leaf(rng, 1.0, order=2, kinds=("HG", "SG", "LG"))
                op = "+-*"[rng.integers(3)]
                o = ref.build(P, other)
                objs.append((ref.combine(op, obj, o), (op, spec, other)))
            elif rng.random() < 0.1:
                objs.append((-obj, ("neg", spec)))
            else:
                spec = transform(rng, spec, case.event)
                objs.append((apply(obj, spec), spec))
        case.note(repr(objs[-1][1])[:600])
        c04.check(case, ctx, R, *objs[-1], x, y, what="chain")
        # keyword calls work as documented too; every stage is still what it was
        for k in rng.permutation(len(objs))[:2]:
            c04.check(case, ctx, R, *objs[k], x[:30], y[:30], what="stage")
        case.same(objs[0][0](x, y), first, "the original changed")
        case.event("originals_unchanged")

    ctx.each("chain", ctx.n(60, 500), chain)

    def single(case):
        """one transform of each kind, 2-D coordinates, asymmetric profile"""
        rng = case.rng
        base = ("+", ("HG", dict(x0=0.7, y0=-0.3, a=1.3, w=0.9, n=1, m=0)), ref.leaf(rng, 1.0, order=2, kinds=("SG", "HG", "LG")))
        only = ["shift", "rot", "rx", "ry", "cx", "rot"][case.index % 6]
        if only == "cx":
            base = base[1]
            if case.index // 6 % 2: base = ("*", base, ("num", complex(ref.r4(rng, -1, 1), ref.r4(rng, -1, 1))))
        obj = ref.build(P, base)
        x, y = rng.uniform(-2, 2, (7, 9)), rng.uniform(-2, 2, (7, 9))
        before = obj(x, y)
        spec = transform(rng, base, case.event, only=only)
        case.note("single", spec)
        new = apply(obj, spec)
        c04.check(case, ctx, R, new, spec, x, y, what=only)
        case.same(obj(x, y), before, "the original changed")
        case.event("originals_unchanged")
        # the same transform applied to the result once more
        spec2 = (only, spec) + spec[2:]
        if only != "cx":
            c04.check(case, ctx, R, apply(new, spec2), spec2, x, y, what=only + " twice")

    ctx.each("single", ctx.n(40, 300), single)

    def groups(case):
        """rotations add up, shifts and rescalings undo each other"""
        rng = case.rng
        spec = ref.leaf(rng, 1.0, order=3, kinds=("HG", "LG", "SG"))
        obj = ref.build(P, spec)
        x, y = ref.points(rng, 60, 1.0, 2.0)
        a, b = ref.r4(rng, -3, 3), ref.r4(rng, -3, 3)
        case.note("groups", spec, a, b)
        c04.check(case, ctx, R, obj.rotate(a).rotate(b), ("rot", ("rot", spec, a), b), x, y, what="two rotations")
        want, err = ref.reference(("rot", spec, a + b), x, y, R)
        case.close(obj.rotate(a).rotate(b)(x, y), want, 40 * err, "two rotations are the rotation by the sum")
        want, err = ref.reference(spec, x, y, R)
        case.close(obj.shift(a, b).shift(-a, -b)(x, y), want, 40 * err + 200 * R.eps * abs(spec[1]["a"]) * 10, "a shift and its opposite")
        m = abs(a) + 0.3
        case.close(obj.rescale_x(m).rescale_y(-m).rescale_x(1 / m).rescale_y(-1 / m)(x, y), want, 40 * err + 200 * R.eps * abs(spec[1]["a"]) * 10, "rescaling and its inverse")
        z = P.Zernike(a, 3.0, 3, 1)
        v = z(x, y)
        case.close(np.abs(z.as_complex_profile()(x, y)), np.ones(len(x)), 20 * R.eps, "modulus of the complex form")
        case.close(np.conj(z.as_complex_profile()(x, y)), (-z).as_complex_profile()(x, y), 20 * R.eps, "conjugate of the complex form")

    def turns(case):
        """every whole number of quarter turns, and other simple parts of a turn, given in several ways"""
        rng = case.rng
        k = case.index % 9 - 4
        base = ("+", ("HG", dict(x0=0.7, y0=-0.3, a=1.3, w=0.9, n=1, m=0)), ref.leaf(rng, 1.0, order=2, kinds=("SG", "HG", "LG")))
        obj = ref.build(P, base)
        x, y = ref.points(rng, 60, 1.0, 2.5)
        for theta in (k * math.pi / 2, k * np.pi / 2 if k % 2 else math.pi * (k // 2), math.radians(90.0 * k), math.pi / [3, 4, 6, -3, -4, -6, 1.5, 8, -8][case.index % 9]):
            spec = ("rot", base, theta)
            c04.check(case, ctx, R, obj.rotate(theta), spec, x, y, what="turn")
            c04.check(case, ctx, R, obj.shift(.4, .3).rotate(theta).rescale_x(2), ("rx", ("rot", ("shift", base, .4, .3), theta), 2), x[:20], y[:20], what="turn in a chain")
            case.event("turns")
        case.note("turns", k)

    ctx.each("turns", 9, turns)

    def small(case):
        """transforms that change little, on their own, repeated, and of objects that were transformed before"""
        rng = case.rng
        base = ("+", ("HG", dict(x0=0.7, y0=-0.3, a=1.3, w=0.5, n=2, m=1)), ref.leaf(rng, 1.0, order=2, kinds=("SG", "HG", "LG")))
        obj = ref.build(P, base)
        x, y = ref.points(rng, 60, 1.0, 2.5)
        d = 10.0 ** -float(rng.uniform(0.7, 3.2 if ctx.prec == 32 else 7)) * float(rng.choice([-1, 1]))
        case.note("small", base, d)
        made = []
        for t in (lambda o: ("rot", o, d), lambda o: ("rx", o, 1 + d), lambda o: ("ry", o, 1 + d), lambda o: ("shift", o, d, -d),
                  lambda o: ("rot", o, 2 * math.pi + d), lambda o: ("rot", o, math.pi / 2 + d), lambda o: ("rx", o, -1 + d)):
            spec = t(base); made.append((apply(obj, spec), spec))
            c04.check(case, ctx, R, *made[-1], x, y, what="small transform")
            chain_, o = spec, made[-1][0]
            for _ in range(3):
                chain_ = t(chain_); o = apply(o, chain_)
            made.append((o, chain_))
            c04.check(case, ctx, R, o, chain_, x, y, what="small transform repeated")
            case.event("small")
        for k in rng.permutation(len(made))[:6]: c04.check(case, ctx, R, *made[k], x, y, what="small transform evaluated again")

    ctx.each("small", ctx.n(12, 90), small)

    def siblings(case):
        """many transforms of one original, all used afterwards in any order"""
        rng = case.rng
        base = ("+", ("HG", dict(x0=0.7, y0=-0.3, a=1.3, w=0.9, n=1, m=0)), ref.leaf(rng, 1.0, order=2, kinds=("SG", "HG", "LG")))
        obj = ref.build(P, base)
        x, y = ref.points(rng, 40, 1.0, 2.5)
        case.note("siblings", base)
        made = [(obj, base)]
        for _ in range(12):
            o, s = made[int(rng.integers(min(len(made), 4)))]
            s = transform(rng, s, case.event, allow_cx=False)
            made.append((apply(o, s), s))
            case.event("siblings")
        for k in rng.permutation(len(made)): c04.check(case, ctx, R, *made[k], x, y, what="one of many transforms")
        for k in rng.permutation(len(made))[:4]: c04.check(case, ctx, R, *made[k], y, x, what="one of many transforms, again")

    ctx.each("siblings", ctx.n(8, 60), siblings)

    ctx.each("groups", ctx.n(10, 80), groups)
