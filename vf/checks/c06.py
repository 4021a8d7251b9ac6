"""C06: histories of assignments, evaluations and derivations over several live profiles, against a model."""
import numpy as np
from vf import ref
from vf.checks import c04, c05

RULE = ("each case is a random history over several live profiles of the same and different kinds: assign a settable parameter, derive a "
        "new profile (arithmetic, transform), evaluate any of them at one of several shapes; a model holds the current parameters "
        "and everything scaled to lengths from 1e-9 to 1e3, assigned values sometimes within 1e-5 of the present ones; every evaluation is compared with the reference at those; non-trivial: distinct histories")
NEED = {"cases": 20, "assignments": 150, "stale_risks": 100, "points_decided": 4000, "derived": 40, "others_checked": 50, "values_kept": 12, "forms_of_numbers": 100}
SETTABLE = {"HG": ("x0", "y0", "a", "w"), "SG": ("x0", "y0", "a", "w", "p"), "Z": ("a",), "RW": ("x0", "y0", "wx", "wy"), "CW": ("x0", "y0", "r"), "C": ("c",)}


def run(ctx):
    P, R = ctx.P, ref.R(ctx.prec)

    def resolve(node, params):
        """spec with the parameters current now"""
        if node[0] == "ref":
            kind, q = params[node[1]]
            return ("C", q["c"]) if kind == "C" else (kind, dict(q))
        return tuple(resolve(s, params) if isinstance(s, tuple) else s for s in node)

    def value(rng, kind, name, old, s=1.0):
        if name in ("x0", "y0", "w", "wx", "wy", "r", "a", "p") and old and rng.random() < 0.15:   # a small step
            return float(old) * (1 + 10.0 ** -int(rng.integers(2, 6)))
        if name == "c": return complex(ref.r4(rng, -3, 3), ref.r4(rng, -3, 3)) if isinstance(old, complex) else [ref.r4(rng, -3, 3), int(rng.integers(-3, 4))][rng.integers(2)]
        if name in ("w", "wx", "wy", "r"): return ref.r4(rng, 0.3, 2.5) * s
        if name == "p": return [ref.r4(rng, 0.5, 4), 1.0, int(rng.integers(1, 4))][rng.integers(3)]
        if name == "a": return ref.r4(rng, -3, 3)
        return ref.r4(rng, -1.5, 1.5) * s

    def history(case):
        rng = case.rng
        kinds = ["HG", "HG", "SG", "Z", "RW", "CW", "C"]
        if case.index % 3 == 1: kinds = ["HG", "SG", "SG", "C", "C"]
        if case.index % 3 == 2: kinds = ["CW", "CW", "RW", "RW", "Z", "Z", "LG"]
        params, nodes = [], []
        s = [1.0, 1e-3, 1e-6, 1e-9, 1e3][case.index % 5]     # the size of everything
        twin = {}
        for k in kinds:
            spec = ref.leaf(rng, s, kinds=(k,), order=2)
            if k in twin and rng.random() < 0.5:      # same kind and same parameters: must stay independent
                spec = (k, twin[k])
            q = {"c": spec[1]} if k == "C" else dict(spec[1])
            if k != "C": twin[k] = dict(q)
            params.append((k, q))
            nodes.append((ref.build(P, spec), ("ref", len(params) - 1)))
        pts = [ref.points(rng, 40, s, 2.5), (rng.uniform(-2, 2, (5, 6)) * s, rng.uniform(-2, 2, (5, 6)) * s), (0.3 * s, -0.2 * s)]
        evaluated = set()

        def evaluate(i, pi=None):
            pi = int(rng.integers(len(pts))) if pi is None else pi
            obj, node = nodes[i]
            c04.check(case, ctx, R, obj, resolve(node, params), *pts[pi], what="current parameters")
            evaluated.add((i, pi))

        for _ in range(ctx.n(26, 45)):
            op = rng.random()
            if op < 0.4:
                i = int(rng.integers(len(kinds)))
                kind, q = params[i]
                if kind == "LG": continue
                name = SETTABLE[kind][rng.integers(len(SETTABLE[kind]))]
                v = value(rng, kind, name, q[name], s)
                setattr(nodes[i][0], name, v)
                q[name] = v
                case.note(f"{kind}{i}.{name}={v}")
                case.event("assignments")
                if any(e[0] == i for e in evaluated): case.event("stale_risks")
                for nm in SETTABLE[kind]:
                    got = getattr(nodes[i][0], nm)
                    got = complex(got) if isinstance(q[nm], complex) else float(got)
                    case.close(got, R.r(q[nm] if isinstance(q[nm], complex) else float(q[nm])), 0, f"{kind}.{nm} reads back")
                if rng.random() < 0.6: evaluate(i)
                if rng.random() < 0.4:
                    j = int(rng.integers(len(kinds)))
                    evaluate(j); case.event("others_checked")
            elif op < 0.6 and len(nodes) < len(kinds) + 7:
                i, j = [int(v) for v in rng.integers(len(nodes), size=2)]
                if rng.random() < 0.5:
                    o = "+-*"[rng.integers(3)]
                    nodes.append((ref.combine(o, nodes[i][0], nodes[j][0]), (o, nodes[i][1], nodes[j][1])))
                else:
                    spec = c05.transform(rng, nodes[i][1], lambda e: None, allow_cx=False, s=s)
                    nodes.append((c05.apply(nodes[i][0], spec), spec))
                case.note(f"derive {nodes[-1][1]}")
                case.event("derived")
                if rng.random() < 0.5: evaluate(len(nodes) - 1)
            else:
                i = int(rng.integers(len(nodes)))
                evaluate(i)
                if rng.random() < 0.5: case.event("others_checked")
        for i in range(len(nodes)):
            evaluate(i, 0)

    # is_complex on refs: nodes hold ("ref", k); resolve before asking
    ctx.each("history", ctx.n(22, 160), history)

    def each_setter(case):
        """every settable parameter of every kind: evaluate, derive, assign, evaluate original and derived"""
        rng = case.rng
        todo = [(k, n) for k in SETTABLE for n in SETTABLE[k]]
        kind, name = todo[case.index % len(todo)]
        s = [1.0, 1e-6, 1e-9, 1e2][case.index // len(todo) % 4 if ctx.thorough else int(rng.integers(4))]
        spec = ref.leaf(rng, s, kinds=(kind,), order=2)
        q = {"c": spec[1]} if kind == "C" else dict(spec[1])
        other = ref.leaf(rng, s, kinds=("HG", "LG"), order=1)
        obj, o2 = ref.build(P, spec), ref.build(P, other)
        bystander = ref.build(P, spec)
        pts = ref.points(rng, 50, s, 2.5)
        cur = lambda: ("C", q["c"]) if kind == "C" else (kind, dict(q))
        derived = [(obj + o2, lambda: ("+", cur(), other)), (o2 * obj, lambda: ("*", other, cur())),
                   ((obj * 2).shift(0.2 * s, -0.1 * s), lambda: ("shift", ("*", cur(), ("num", 2)), 0.2 * s, -0.1 * s)), (obj, cur)]
        if not (kind == "C" and isinstance(q["c"], complex)) and kind != "LG":
            derived.append((obj.as_complex_profile(), lambda: ("cx", cur())))
        case.note("setter", kind, name)
        for _ in range(3):
            for d, now in derived:
                c04.check(case, ctx, R, d, now(), *pts, what=f"after assigning {kind}.{name}")
            v = value(rng, kind, name, q[name], s)
            setattr(obj, name, v); q[name] = v
            case.event("assignments"); case.event("stale_risks")
        for d, now in derived:
            c04.check(case, ctx, R, d, now(), *pts, what=f"after assigning {kind}.{name}")
        c04.check(case, ctx, R, bystander, spec, *pts, what="another profile with the same initial parameters")
        case.event("others_checked")

    ctx.each("setters", 19 * ctx.n(1, 4), each_setter)

    def kept(case):
        """values that were read are numbers of their own: kept, assigned again, given to other profiles; assigned in any form of a number"""
        import tensorflow as tf
        rng = case.rng
        kind = list(SETTABLE)[case.index % len(SETTABLE)]
        s = [1.0, 1e-6, 1e2][int(rng.integers(3))]
        specs = [ref.leaf(rng, s, kinds=(kind,), order=2) for _ in range(2)]
        if kind == "C": specs = [("C", ref.r4(rng, -3, 3)), ("C", ref.r4(rng, -3, 3))]
        objs = [ref.build(P, sp) for sp in specs]
        now = [({"c": sp[1]} if kind == "C" else dict(sp[1])) for sp in specs]
        pts = ref.points(rng, 40, s, 2.5)
        case.note("kept values", kind, specs)

        def judge(what):
            for o, q in zip(objs, now):
                for n in SETTABLE[kind]: case.close(float(getattr(o, n)), R.r(float(q[n])), 0, f"{kind}.{n} {what}")
                c04.check(case, ctx, R, o, ("C", q["c"]) if kind == "C" else (kind, dict(q)), *pts, what=what)

        names = SETTABLE[kind]
        read = [{n: getattr(o, n) for n in names} for o in objs]
        then = [{n: float(v) for n, v in r.items()} for r in read]
        old = [dict(q) for q in now]
        judge("before")
        for o, q in zip(objs, now):
            for n in names:
                q[n] = value(rng, kind, n, q[n], s); setattr(o, n, q[n])
        judge("after assigning")
        for r, t in zip(read, then):
            for n in names: case.equal(float(r[n]), t[n], f"a value of {n} read earlier changed with the profile")
        for o, q, r, b in zip(objs, now, read, old):
            for n in names: setattr(o, n, r[n]); q[n] = b[n]
        judge("after assigning the values read earlier")
        # the value of the other profile, which then changes
        for n in names: setattr(objs[0], n, getattr(objs[1], n)); now[0][n] = now[1][n]
        judge("after taking the values of another profile")
        for n in names: now[1][n] = value(rng, kind, n, now[1][n], s); setattr(objs[1], n, now[1][n])
        judge("after the other profile changed")
        for form in (np.float64, np.float32, lambda v: np.array(v), lambda v: tf.constant(v, dtype=P.BACKEND.dtype), ctx.rdtype, float):
            for n in names:
                v = form(value(rng, kind, n, now[0][n], s))
                setattr(objs[0], n, v); now[0][n] = float(v)
                if isinstance(v, np.ndarray): v[...] = 77.0         # the caller's
            judge("after assigning other forms of numbers")
            case.event("forms_of_numbers", len(names))
        case.event("values_kept")

    ctx.each("kept", ctx.n(12, 48), kept)
