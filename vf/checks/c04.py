"""C04: random expression trees over profiles and numbers against pointwise arithmetic."""
import numpy as np
from vf import ref

RULE = ("each case is a random expression tree over real and complex profiles, windows, constants and Python numbers (int, float, complex, "
        "numbers on either side where supported), built once with the library's operators and once as a reference expression with a "
        "rounding error bound, and compared at every point where the expression is well-conditioned; the leaves are evaluated before "
        "and after and must be unchanged; non-trivial: distinct trees")
NEED = {"cases": 60, "points_decided": 4000, "complex_results": 15, "op:**": 8, "op:/": 8, "op:-": 8, "op:+": 8, "op:*": 8, "op:neg": 4,
        "left_number": 6, "real_complex_numbers": 10, "leaves_unchanged": 60, "powers": 200, "equal_numbers": 80}

SMOOTH = ("HG", "SG", "LG", "C", "Z")


def tree(rng, depth, event):
    if depth == 0:
        return ref.leaf(rng, 1.0, order=3, kinds=("HG", "SG", "LG", "Z", "C", "RW", "CW", "LG", "HG"))
    k = int(rng.integers(12))
    if k == 0:
        event("op:neg")
        return ("neg", tree(rng, depth - 1, event))
    if k == 1:
        event("op:**")
        base = tree(rng, depth - 1, event)
        e = int(rng.integers(6))
        if e < 3: return ("**", base, ("num", int(rng.integers(0, 4))))
        if e == 3: return ("**", base, ("num", [2.0, 3.0, -1.0, -2][rng.integers(4)]))
        if e == 4: return ("**", base, ("num", complex(ref.r4(rng, -1, 1), ref.r4(rng, -1, 1))))
        return ("**", ("+", ("SG", dict(x0=0.1, y0=0.0, a=1.0, w=1.0, p=1.0)), ("num", 0.5)), tree(rng, 0, event))
    op = "+-*/"[(k - 2) % 4]
    event("op:" + op)
    side = rng.random()
    if side < 0.25:
        return (op, tree(rng, depth - 1, event), ("num", ref.scalar(rng)))
    if side < 0.4 and op in "+*":
        event("left_number")
        return (op, ("num", ref.scalar(rng)), tree(rng, depth - 1, event))
    a, b = tree(rng, depth - 1, event), tree(rng, int(rng.integers(depth)), event)
    if op == "/" and rng.random() < 0.6:      # a divisor away from zero
        b = ("+", ("*", b, ("num", 0.1)), ("num", float(rng.choice([3.0, -4.0]))))
    return (op, b, a) if rng.random() < 0.5 and op != "/" else (op, a, b)


def leaves(spec):
    if spec[0] in ref.LEAVES or spec[0] == "C": return [spec]
    return [l for s in spec[1:] if isinstance(s, tuple) for l in leaves(s)]


def build(P, spec, made):
    """like ref.build but remembers the leaf objects"""
    k = spec[0]
    if k == "num": return spec[1]
    if k in ref.LEAVES or k == "C":
        o = ref.build(P, spec); made.append((o, spec)); return o
    if k == "neg": return -build(P, spec[1], made)
    return ref.combine(k, build(P, spec[1], made), build(P, spec[2], made))


def check(case, ctx, R, obj, spec, x, y, what="expression"):
    got = obj(x, y)
    want, err = ref.reference(spec, x, y, R)
    cplx = ref.is_complex(spec)
    case.equal(got.dtype, np.dtype(ctx.cdtype if cplx else ctx.rdtype), f"{what}: wrong type")
    case.true(np.shape(got) in ((), np.shape(want)), f"{what}: wrong shape", got=np.shape(got))
    got = np.broadcast_to(got, want.shape)
    case.close(got, want, 4 * err, f"{what} differs from pointwise arithmetic", points=(x, y))
    zero_div = np.isfinite(err) & ~np.isfinite(want)
    case.event("zero_divisors", int(zero_div.sum()))
    dec = np.isfinite(err) & np.isfinite(want)
    dec = dec & (4 * err < 0.05 * np.abs(want) + 1e-3 * np.max(np.where(dec, np.abs(want), 0), initial=1e-30))
    case.event("points_decided", int(dec.sum()))
    if cplx: case.event("complex_results")
    return int(dec.sum())


def run(ctx):
    P, R = ctx.P, ref.R(ctx.prec)

    def expression(case):
        rng = case.rng
        spec = tree(rng, int(rng.integers(1, 4)), case.event)
        made = []
        case.note(repr(spec)[:700])
        obj = build(P, spec, made)
        x, y = ref.points(rng, 80, 1.0, 2.5)
        before = [(o(x, y), l) for o, l in made]
        check(case, ctx, R, obj, spec, x, y)
        x2, y2 = rng.uniform(-2, 2, (6, 7)), rng.uniform(-2, 2, (6, 7))
        check(case, ctx, R, obj, spec, x2, y2)
        for (b, l), (o, _) in zip(before, made):
            case.same(o(x, y), b, f"operand {l[0]} changed by building or evaluating an expression")
            case.event("leaves_unchanged")

    ctx.each("expression", ctx.n(60, 500), expression)

    def pairs(case):
        """every operator on every pair of operand types, in both orders"""
        rng = case.rng
        kinds = ["HG", "LG", "Cr", "Cc", "C0", "RW", "int", "float", "complex", "complex0"]
        combos = [(a, b, op) for a in kinds for b in kinds for op in "+-*/^" if not (a in kinds[6:] and (b in kinds[6:] or op in "-/^"))]
        def mk(k):
            if k == "int": return ("num", int(rng.integers(1, 4)))
            if k == "float": return ("num", ref.r4(rng, 0.5, 2))
            if k == "complex": return ("num", complex(ref.r4(rng, 0.5, 2), ref.r4(rng, -2, 2)))
            if k == "complex0": return ("num", complex(ref.r4(rng, 0.5, 2), 0.0) if rng.random() < .7 else complex(0.0, ref.r4(rng, 0.5, 2)))
            if k == "C0": return ("C", complex(ref.r4(rng, 0.5, 2), 0.0))
            if k == "Cr": return ("C", ref.r4(rng, 0.5, 2))
            if k == "Cc": return ("C", complex(ref.r4(rng, 0.5, 2), ref.r4(rng, -2, 2)))
            return ref.leaf(rng, 1.0, kinds=(k,), order=2)
        for k in range(5):
            a, b, op = combos[(case.index * 5 + k) % len(combos)]
            op = "**" if op == "^" else op
            spec = (op, mk(a), mk(b))
            case.note("pair", spec)
            case.event("op:" + op)
            if spec[1][0] == "num": case.event("left_number")
            if "0" in a + b: case.event("real_complex_numbers")
            obj = ref.build(P, spec)
            x, y = ref.points(rng, 60, 1.0, 2.0)
            check(case, ctx, R, obj, spec, x, y, f"{a} {op} {b}")

    ctx.each("pairs", ctx.n(90, 400), pairs)

    def powers(case):
        """every small power of every kind of profile"""
        rng = case.rng
        kind = ["HG", "LG", "SG", "C", "LG+HG", "RW"][case.index % 6]
        def base():
            if kind == "LG+HG": return ("+", ref.leaf(rng, 1.0, kinds=("HG",), order=2), ref.leaf(rng, 1.0, kinds=("LG",), order=2))
            if kind == "C": return ("C", [ref.r4(rng, .5, 2), complex(ref.r4(rng, -2, 2), ref.r4(rng, .2, 2)), -1.5][case.index // 6 % 3])
            return ref.leaf(rng, 1.0, kinds=(kind,), order=2)
        spec = base()
        obj = ref.build(P, spec)
        x, y = ref.points(rng, 60, 1.0, 2.0)
        case.note("powers", spec)
        for e in (0, 1, 2, 3, 4, 5, 6, 7, 8, 11, -1, -2, -3, 0.0, 2.0, 5.0, complex(2, 0), 0.5, 1.5, complex(0, 1)):
            check(case, ctx, R, obj ** e, ("**", spec, ("num", e)), x, y, f"power {e} of {kind}")
            case.event("op:**"); case.event("powers")

    ctx.each("powers", ctx.n(12, 72), powers)

    def equals(case):
        """numbers that are equal but of different types, on the same profile, in any order: the type of each result is that of its own operands"""
        rng = case.rng
        groups = [(2, 2.0, 2 + 0j), (1, 1.0, 1 + 0j), (-1, -1.0, complex(-1, 0)), (0.5, 0.5 + 0j), (3, 3.0, 3 + 0j, 3 + 1j), (0, 0.0, 0j, -0.0)]
        spec = ref.leaf(rng, 1.0, kinds=[("HG",), ("SG",), ("LG",), ("Z",)][case.index % 4], order=2)
        obj = ref.build(P, spec)
        x, y = ref.points(rng, 30, 1.0, 2.0)
        case.note("equal numbers", spec)
        for k in rng.permutation(len(groups))[:2]:
            todo = [(op, v, left) for v in groups[k] for op, left in (("+", 0), ("-", 0), ("*", 0), ("/", 0), ("+", 1), ("*", 1), ("**", 0))
                    if not (op == "/" and v == 0) and not (op == "**" and isinstance(v, complex) and v.real <= 0)]
            for j in rng.permutation(len(todo)):
                op, v, left = todo[j]
                sp = (op, ("num", v), spec) if left else (op, spec, ("num", v))
                check(case, ctx, R, ref.combine(op, v, obj) if left else ref.combine(op, obj, v), sp, x, y, f"{sp[0]} with {v!r}")
                case.event("equal_numbers")

    ctx.each("equals", ctx.n(4, 24), equals)

    def shared(case):
        """the same object several times in one expression, and one expression inside two others"""
        rng = case.rng
        la, lb = ref.leaf(rng, 1.0, kinds=("HG", "LG", "SG"), order=2), ref.leaf(rng, 1.0, kinds=("HG", "LG", "Z"), order=2)
        a, b = ref.build(P, la), ref.build(P, lb)
        s = a + b; sp = ("+", la, lb)
        d = a * s - b; dp = ("-", ("*", la, sp), lb)
        e = s * s + d; ep = ("+", ("*", sp, sp), dp)
        n = -(2 * d); np_ = ("neg", ("*", ("num", 2), dp))
        x, y = ref.points(rng, 60, 1.0, 2.0)
        case.note("shared", la, lb)
        order = [(e, ep), (d, dp), (a, la), (n, np_), (s, sp), (b, lb), (e, ep)]
        for k in rng.permutation(len(order)):
            check(case, ctx, R, order[k][0], order[k][1], x, y)
        case.event("leaves_unchanged")

    ctx.each("shared", ctx.n(12, 90), shared)
