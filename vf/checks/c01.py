"""C01: beam profiles against independently evaluated closed forms."""
import numpy as np
from vf import ref

RULE = ("each case is one beam (kind, centre, amplitude, width, orders drawn over many decades and signs) evaluated by the real "
        "library at several hundred coordinates in one array shape and compared point by point with a reference evaluated "
        "in float64 by recurrences, with a running rounding error bound; non-trivial: the parameters and the shape are distinct")
NEED = {"cases": 100, "points_compared": 10000, "peak_seen": 50, "nonscalar": 20, "axis_points": 10, "large": 6}


def beam(rng, kind, s, order):
    q = dict(x0=ref.r4(rng, -1, 1) * s, y0=ref.r4(rng, -1, 1) * s, a=ref.r4(rng, 0.1, 3) * float(rng.choice([-1, 1])) * 10.0 ** int(rng.integers(-4, 5)),
             w=ref.r4(rng, 0.3, 2) * s)
    if rng.random() < 0.15: q["x0"] = 0
    if rng.random() < 0.15: q["y0"] = 0
    if rng.random() < 0.1: q["a"] = int(rng.integers(1, 5))
    if kind == "HG": q.update(n=int(rng.integers(order + 1)), m=int(rng.integers(order + 1)))
    if kind == "SG": q.update(p=[int(rng.integers(1, 8)), ref.r4(rng, 0.5, 6), 1.0, 0.5, ref.r4(rng, 0.08, 0.5), 0.25][rng.integers(6)])
    if kind == "LG": q.update(l=int(rng.integers(-order, order + 1)), p=int(rng.integers(0, min(order, 6) + 1)))
    return (kind, q)


def shapes(rng, x, y):
    """x, y (flat, same length) in one of the accepted forms"""
    k = int(rng.integers(10))
    if k == 0: return "1d", x, y
    if k == 1:
        n = len(x) // 4 * 4
        return "2d", x[:n].reshape(4, -1), y[:n].reshape(4, -1)
    if k == 2: return "broadcast row and column", x[:17][None, :], y[:23][:, None]
    if k == 3: return "scalar with array", float(x[3]), y
    if k == 4: return "fortran order, strided", np.asfortranarray(x[:80].reshape(8, 10))[::2], np.asfortranarray(y[:80].reshape(8, 10))[::2]
    if k == 5: return "3d", x[:60].reshape(3, 4, 5), y[:60].reshape(3, 4, 5)
    if k == 6: return "big endian arrays", x[:90].reshape(9, 10).astype(">f8"), y[:90].reshape(9, 10).astype(">f8")
    if k == 7:
        x, y = x[:64].reshape(8, 8).copy(), y[:64].reshape(8, 8).copy(); x.flags.writeable = y.flags.writeable = False
        return "read only views", x[::-1, ::2], y[::-1, ::2]
    if k == 8: return "one point", x[:1], y[:1].reshape(1, 1)
    return "float32 arrays", x.astype(np.float32), y.astype(np.float32)


def run(ctx):
    P = ctx.P
    R = ref.R(ctx.prec)

    def field(case, kind):
        rng = case.rng
        s = 10.0 ** int(rng.integers(-6, 3))
        spec = beam(rng, kind, s, order=(5 if ctx.prec == 32 else 8) if case.index % 3 else (10 if ctx.prec == 32 else 24))
        obj = ref.build(P, spec)
        w = abs(spec[1]["w"])
        x, y = ref.points(rng, 200, w, 3.0)
        x = x + spec[1]["x0"]; y = y + spec[1]["y0"]
        x[0], y[0] = spec[1]["x0"], spec[1]["y0"]
        x[1] = spec[1]["x0"]; y[2] = spec[1]["y0"]
        name, xs, ys = shapes(rng, x, y)
        case.note(spec, name)
        got = obj(xs, ys)
        want, err = ref.reference(spec, xs, ys, R)
        case.true(isinstance(got, np.ndarray), "evaluation must give an array")
        case.true(got.dtype == (ctx.cdtype if kind == "LG" else ctx.rdtype), "wrong precision", got=got.dtype)
        case.true(np.all(np.isfinite(got)), "not finite", at=np.argmax(~np.isfinite(got)))
        case.close(got, want, 4 * err, "profile value differs from the closed form", points=(xs, ys))
        case.event("nonscalar")
        if np.max(np.abs(want)) > 0.2 * abs(spec[1]["a"]): case.event("peak_seen")
        # one point at a time gives the same as the array
        k = tuple(int(rng.integers(n)) for n in got.shape)
        xb, yb = np.broadcast_to(xs, got.shape)[k], np.broadcast_to(ys, got.shape)[k]
        one = obj(float(xb), float(yb))
        case.true(np.shape(one) == (), "a pair of scalars must give a scalar", got=np.shape(one))
        case.close(one, want[k], 4 * err[k], "scalar evaluation differs from the closed form")

    for kind, nq, nt in (("HG", 70, 900), ("SG", 60, 700), ("LG", 70, 900)):
        ctx.each(kind, ctx.n(nq, nt), lambda case, kind=kind: field(case, kind))

    def far(case):
        """far outside, on the axis, and at tiny coordinates: finite, decaying to zero"""
        rng = case.rng
        kind = ("HG", "SG", "LG")[int(rng.integers(3))]
        s = 10.0 ** int(rng.integers(-5, 1))
        spec = beam(rng, kind, s, order=4)
        obj = ref.build(P, spec)
        q = spec[1]; w = abs(q["w"])
        t = rng.uniform(0, 2 * np.pi, 60)
        rho = 10.0 ** rng.uniform(-4, [np.log10(25), 4][case.index % 2], 60)
        x, y = q["x0"] + w * rho * np.cos(t), q["y0"] + w * rho * np.sin(t)
        x[:4] = q["x0"]; y[:2] = q["y0"]
        case.note("far", spec)
        got = obj(x, y)
        want, err = ref.reference(spec, x, y, R)
        case.true(np.all(np.isfinite(got)), "not finite on the axis or far outside", points=[x[~np.isfinite(got)][:1], y[~np.isfinite(got)][:1]])
        case.close(got, want, 4 * err, "profile value differs from the closed form", points=(x, y))
        case.event("axis_points", 4)

    ctx.each("far", ctx.n(40, 400), far)

    def large(case):
        """as many points as a camera or a device has, in one call"""
        rng = case.rng
        kind = ("HG", "SG", "LG")[(case.index + ctx.seed) % 3]
        s = 10.0 ** int(rng.integers(-5, 1))
        spec = beam(rng, kind, s, order=4)
        obj = ref.build(P, spec)
        q = spec[1]; w = abs(q["w"])
        Nx, Ny = [(1920, 1080), (1024, 768), (300001, 1), (3, 200000), (1, 1), (int(rng.integers(400, 1300)), int(rng.integers(400, 1300)))][(case.index + ctx.seed) % 6]
        t = rng.uniform(0, 2 * np.pi, (Ny, Nx)); rho = w * 3 * np.sqrt(rng.random((Ny, Nx)))
        x, y = q["x0"] + rho * np.cos(t), q["y0"] + rho * np.sin(t)
        if case.index % 2: x, y = np.meshgrid(q["x0"] + w * np.linspace(-2.6, 2.9, Nx), q["y0"] + w * np.linspace(2.5, -2.7, Ny))
        case.note("large", spec, (Nx, Ny))
        want, err = ref.reference(spec, x, y, R)
        got = obj(x, y)
        case.close(got, want, 4 * err, "profile value differs from the closed form", points=(x, y))
        case.same(obj(x, y), got, "evaluated again")
        case.event("large")

    ctx.each("large", ctx.n(6, 40), large)

    def forms(case):
        """ints, empty arrays, lists of lists as plain numpy arrays of ints"""
        rng = case.rng
        kind = ("HG", "SG", "LG")[int(rng.integers(3))]
        spec = beam(rng, kind, 1.0, order=3)
        obj = ref.build(P, spec)
        case.note("forms", spec)
        e = obj(np.zeros((0,)), np.zeros((0,)))
        case.equal(e.shape, (0,), "empty coordinates")
        e = obj(np.zeros((3, 0)), np.zeros((3, 0)))
        case.equal(e.shape, (3, 0), "empty coordinates, 2-D")
        x, y = rng.integers(-3, 4, (5, 6)), rng.integers(-3, 4, (5, 6))
        want, err = ref.reference(spec, x, y, R)
        case.close(obj(x.astype(float), y.astype(float)), want, 4 * err, "integer coordinates", points=(x, y))
        i, j = int(rng.integers(5)), int(rng.integers(6))
        case.close(obj(int(x[i, j]), int(y[i, j])), want[i, j], 4 * err[i, j], "python int coordinates")
        case.close(obj(x[0].astype(float).tolist(), y[0].astype(float).tolist()), want[0], 4 * err[0], "lists as coordinates")
        # same object, interleaved shapes, again
        for _ in range(3):
            n = int(rng.integers(1, 4))
            x, y = rng.uniform(-2, 2, (n, 3)), rng.uniform(-2, 2, (n, 3))
            want, err = ref.reference(spec, x, y, R)
            case.close(obj(x, y), want, 4 * err, "later evaluation at another shape", points=(x, y))

    ctx.each("forms", ctx.n(24, 200), forms)

    def reported(case):
        rng = case.rng
        kind = ("HG", "SG")[int(rng.integers(2))]
        spec = beam(rng, kind, 1e-3, order=9)
        obj = ref.build(P, spec)
        case.note("reported", spec)
        for k, v in spec[1].items():
            got = getattr(obj, k)
            case.close(float(got), R.r(float(v)), 0, f"parameter {k} reads back")

    ctx.each("reported", ctx.n(10, 60), reported)
