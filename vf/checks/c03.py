"""C03: windows are exact indicators."""
import numpy as np
from vf import ref

RULE = ("each case is one window (shape, centre, size over many decades), evaluated at random points, at points a few units in the "
        "last place from the edge, and, with exactly representable numbers, on the edge itself; values must be exactly 0 or 1 "
        "as decided in exact arithmetic; then parameters are reassigned at random and the window is judged again")
NEED = {"cases": 80, "points_compared": 20000, "edge_points": 500, "reassigned": 40, "shared_numbers": 5, "inside": 1000, "outside": 1000, "large": 4}

TRIPLES = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (7, 24, 25), (20, 21, 29), (12, 35, 37), (9, 40, 41)]


def make(rng, s):
    if rng.random() < 0.5:
        return ("RW", dict(x0=ref.r4(rng, -1, 1) * s, y0=ref.r4(rng, -1, 1) * s, wx=ref.r4(rng, 0.2, 3) * s, wy=ref.r4(rng, 0.2, 3) * s))
    return ("CW", dict(x0=ref.r4(rng, -1, 1) * s, y0=ref.r4(rng, -1, 1) * s, r=ref.r4(rng, 0.1, 2) * s))


def exact(spec, x, y):
    q = spec[1]
    if spec[0] == "RW":
        return ((np.abs(x - q["x0"]) < q["wx"] / 2) & (np.abs(y - q["y0"]) < q["wy"] / 2)).astype(float)
    return ((x - q["x0"]) ** 2 + (y - q["y0"]) ** 2 <= q["r"] ** 2).astype(float)


def run(ctx):
    P, R = ctx.P, ref.R(ctx.prec)

    def judge(case, obj, spec, x, y):
        got = obj(x, y)
        case.equal(got.dtype, np.dtype(ctx.rdtype), "wrong type")
        case.true(np.all((got == 0) | (got == 1)), "values other than 0 and 1")
        want, err = ref.reference(spec, x, y, R)
        case.close(got, want, err, "wrong side of the edge", points=(x, y))
        case.event("inside", int(want.sum())); case.event("outside", int((1 - want).sum()))

    def random(case):
        rng = case.rng
        s = 10.0 ** int(rng.integers(-6, 4))
        spec = make(rng, s)
        case.note(spec)
        obj = ref.build(P, spec)
        x, y = ref.points(rng, 300, s, 3.0)
        judge(case, obj, spec, x.reshape(15, 20), y.reshape(15, 20))
        # close to the edge, both sides
        q = spec[1]
        t = rng.uniform(0, 2 * np.pi, 120)
        d = 1 + np.where(rng.random(120) < 0.5, 1, -1) * 10.0 ** rng.uniform(-5 if ctx.prec == 32 else -12, -0.5, 120)
        if spec[0] == "CW":
            ex, ey = q["x0"] + q["r"] * d * np.cos(t), q["y0"] + q["r"] * d * np.sin(t)
        else:
            side = rng.integers(4, size=120); u = rng.uniform(-1, 1, 120)
            ex = np.where(side < 2, np.where(side == 0, -d, d), u) * q["wx"] / 2 + q["x0"]
            ey = np.where(side < 2, u, np.where(side == 2, -d, d)) * q["wy"] / 2 + q["y0"]
        judge(case, obj, spec, ex, ey)
        case.event("edge_points", 120)

    ctx.each("random", ctx.n(60, 700), random)

    def large(case):
        rng = case.rng
        s = 10.0 ** int(rng.integers(-6, 4))
        spec = make(rng, s)
        Nx, Ny = [(1920, 1080), (1024, 768), (400001, 1), (int(rng.integers(400, 1300)), int(rng.integers(400, 1300)))][(case.index + ctx.seed) % 4]
        case.note("large", spec, (Nx, Ny))
        q = spec[1]
        x, y = np.meshgrid(q["x0"] + s * np.linspace(-2.6, 2.9, Nx), q["y0"] + s * np.linspace(2.5, -2.7, Ny))
        judge(case, ref.build(P, spec), spec, x, y)
        case.event("large")

    ctx.each("large", ctx.n(4, 24), large)

    def edge(case):
        """dyadic numbers: everything is exact, so the edge itself is decided exactly"""
        rng = case.rng
        k = 2.0 ** int(rng.integers(-14, 10))
        x0, y0 = [float(v) for v in rng.integers(-8, 9, 2)]
        if case.index % 2:
            f = float(rng.integers(1, 4))
            a, b, c = TRIPLES[case.index // 2 % len(TRIPLES)]
            r = c * f
            spec = ("CW", dict(x0=x0 * k, y0=y0 * k, r=r * k))
            pts = [(a * f, b * f), (b * f, -a * f), (-a * f, b * f), (-b * f, -a * f), (r, 0), (0, -r), (-r, 0), (0, r)]
            pts += [(px + dx, py + dy) for px, py in pts for dx in (-.125, 0, .125) for dy in (-.125, 0, .125)]
        else:
            wx, wy = [2.0 * float(v) for v in rng.integers(1, 9, 2)]
            if rng.random() < 0.3: wx += 1
            spec = ("RW", dict(x0=x0 * k, y0=y0 * k, wx=wx * k, wy=wy * k))
            pts = [(sx * (wx / 2 + dx), sy * (wy / 2 + dy)) for sx in (-1, 1) for sy in (-1, 1) for dx in (-.125, 0, .125) for dy in (-.125, 0, .125)]
            pts += [(sx * wx / 2, 0) for sx in (-1, 1)] + [(0, sy * wy / 2) for sy in (-1, 1)] + [(0, 0)]
        pts = (np.array(pts, dtype=float) + (x0, y0)) * k
        case.note("exact edge", spec)
        obj = ref.build(P, spec)
        case.close(obj(pts[:, 0], pts[:, 1]), exact(spec, pts[:, 0], pts[:, 1]), 0, "value on or next to the edge", points=(pts[:, 0], pts[:, 1]))
        case.event("edge_points", len(pts))

    ctx.each("edge", ctx.n(56, 420), edge)

    def history(case):
        rng = case.rng
        spec = make(rng, 1.0)
        if rng.random() < .5:      # one number, one object, for several parameters
            v = spec[1].get("wx", spec[1].get("r"))
            for k in list(spec[1]):
                if rng.random() < .7: spec[1][k] = v
            case.event("shared_numbers", int(sum(a is v for a in spec[1].values()) > 1))
        obj = ref.build(P, spec)
        q = dict(spec[1])
        x, y = ref.points(rng, 120, 1.0, 3.0)
        judge(case, obj, spec, x, y)
        for _ in range(int(rng.integers(3, 9))):
            name = list(q)[int(rng.integers(len(q)))]
            v = ref.r4(rng, 0.1, 3) if name in ("wx", "wy", "r") else ref.r4(rng, -2, 2)
            setattr(obj, name, v); q[name] = v
            case.event("reassigned")
            case.note(f"{spec[0]}.{name}={v}")
            for k in q:
                case.close(float(getattr(obj, k)), R.r(q[k]), 0, f"parameter {k} reads back")
            if rng.random() < 0.7:
                judge(case, obj, (spec[0], q), x, y)
        judge(case, obj, (spec[0], q), x, y)

    ctx.each("history", ctx.n(24, 250), history)

    def tiny(case):
        """degenerate sizes: an empty rectangle contains nothing, a circle of radius zero only its centre"""
        rng = case.rng
        x0, y0 = float(rng.integers(-4, 5)), float(rng.integers(-4, 5))
        x, y = np.meshgrid(np.arange(-5, 6.0), np.arange(-5, 6.0))
        case.note("degenerate", (x0, y0))
        w = P.RectangularWindowRectangle(x0, y0, [0.0, 3.0][case.index % 2], 0.0)
        case.close(w(x, y), np.zeros_like(x), 0, "an empty rectangle contains nothing")
        c = P.RectangularWindowCircular(x0, y0, 0.0)
        case.close(c(x, y), ((x == x0) & (y == y0)).astype(float), 0, "a circle of radius zero is its centre")

    ctx.each("degenerate", ctx.n(6, 30), tiny)
