"""C02: Zernike profiles against the OSA/ANSI standard."""
import numpy as np
from vf import ref

RULE = ("one case per index pair (n, m): every pair with |n|, |m| up to the bound is constructed, invalid ones must raise ValueError, "
        "valid ones are evaluated inside, on and outside the aperture with every combination of normalization and extrapolation "
        "and compared with an independent Jacobi polynomial reference; non-trivial: distinct indices, radius and amplitude")
NEED = {"cases": 60, "points_compared": 20000, "rim_points": 100, "rejected": 50, "orthonormal_pairs": 20, "large": 4}


def run(ctx):
    P = ctx.P
    R = ref.R(ctx.prec)
    top = ctx.n(7, 12) if ctx.prec == 32 else ctx.n(8, 16)
    pairs = [(n, m) for n in range(top + 1) for m in range(-n, n + 1, 2)]
    # some of high order: their coefficients leave the range of integers
    high = [(n, m) for n in (ctx.n((13, 16), (13, 14, 18, 21)) if ctx.prec == 32 else ctx.n((14, 19, 21, 24), (17, 18, 20, 21, 22, 24, 27, 30))) for m in range(-n, n + 1, 2)]

    def valid(case):
        table = pairs if case.family == "valid" else high
        n, m = table[case.index % len(table)]
        rng = case.rng
        if table is high: case.event("high_orders")
        rad = ref.r4(rng, 0.3, 3) * 10.0 ** int(rng.integers(-5, 3))
        a = ref.r4(rng, 0.2, 3) * float(rng.choice([-1, 1]))
        x, y = ref.points(rng, 240, rad, 1.4)
        for normalize in (True, False):
            for extrapolate in (False, True):
                if case.index >= len(table) and rng.random() < 0.5: continue
                q = dict(a=a, radius=rad, n=n, m=m, normalize=normalize, extrapolate=extrapolate)
                z = P.Zernike(**q) if not (normalize and not extrapolate and rng.random() < 0.5) else P.Zernike(a, rad, n, m)
                case.note("Z", q)
                want, err = ref.reference(("Z", q), x, y, R)
                got = z(x, y)
                case.equal(got.dtype, np.dtype(ctx.rdtype), "wrong precision")
                case.close(got, want, 4 * err, f"Zernike({n},{m}) differs from the standard", points=(x, y))
                if not extrapolate:
                    out = np.hypot(x, y) > rad * (1 + 1e-5)
                    case.true(np.all(got[out] == 0), "not zero beyond the radius")
                case.equal((int(z.n), int(z.m)), (n, m), "reported indices")
                case.close(float(z.radius), R.r(rad), 0, "reported radius")
                case.close(float(z.a), R.r(a), 0, "reported amplitude")
                case.equal(bool(z.is_normalized()), normalize, "reported normalization flag")
                if normalize:
                    case.close(float(z.normalization), ref.zernike_norm(n, m, True), 1e-6, "reported normalization")

    ctx.each("valid", len(pairs) * ctx.n(1, 4), valid)
    ctx.each("high", len(high), valid)

    def rim(case):
        """points exactly on the rim (exactly representable) count as inside, the next number up is outside"""
        rng = case.rng
        n, m = pairs[int(rng.integers(len(pairs)))] if case.index else (0, 0)
        k = float(2.0 ** int(rng.integers(-12, 8)))
        pts = np.array([(3, 4), (-3, 4), (3, -4), (-4, -3), (5, 0), (-5, 0), (0, 5), (0, -5)], dtype=float) * k
        q = dict(a=1.0, radius=5 * k, n=n, m=m, normalize=bool(rng.integers(2)), extrapolate=False)
        case.note("rim", q)
        z = P.Zernike(**q)
        qx = dict(q, extrapolate=True)
        want, err = ref.reference(("Z", qx), pts[:, 0], pts[:, 1], R)
        case.close(z(pts[:, 0], pts[:, 1]), want, 4 * err, "the rim itself is inside", points=(pts[:, 0], pts[:, 1]))
        out = pts * (1 + 64 * R.eps)
        case.close(z(out[:, 0], out[:, 1]), np.zeros(8), 0, "just beyond the rim", points=(out[:, 0], out[:, 1]))
        inn = pts * (1 - 64 * R.eps)
        want, err = ref.reference(("Z", qx), inn[:, 0], inn[:, 1], R)
        case.close(z(inn[:, 0], inn[:, 1]), want, 4 * err, "just inside the rim", points=(inn[:, 0], inn[:, 1]))
        case.event("rim_points", 24)

    ctx.each("rim", ctx.n(16, 120), rim)

    def large(case):
        rng = case.rng
        n, m = pairs[int(rng.integers(len(pairs)))]
        rad = ref.r4(rng, 0.3, 3) * 10.0 ** int(rng.integers(-5, 3))
        Nx, Ny = [(1920, 1080), (1024, 768), (400001, 1), (int(rng.integers(400, 1300)), int(rng.integers(400, 1300)))][(case.index + ctx.seed) % 4]
        x, y = np.meshgrid(rad * np.linspace(-1.1234, 1.2, Nx), rad * np.linspace(1.11, -1.2345, Ny))
        q = dict(a=ref.r4(rng, 0.2, 3), radius=rad, n=n, m=m, normalize=bool(rng.integers(2)), extrapolate=bool(rng.integers(2)))
        case.note("large", q, (Nx, Ny))
        want, err = ref.reference(("Z", q), x, y, R)
        case.close(P.Zernike(**q)(x, y), want, 4 * err, f"Zernike({n},{m}) differs from the standard", points=(x, y))
        case.event("large")

    ctx.each("large", ctx.n(4, 24), large)

    lim = ctx.n(6, 9)
    bad = [(n, m) for n in range(-2, lim + 1) for m in range(-lim - 1, lim + 2) if n < abs(m) or (n - m) % 2]

    def rejected(case):
        for n, m in bad[case.index::8]:
            case.note("reject", (n, m))
            for kw in ({}, dict(normalize=False), dict(extrapolate=True)):
                case.raises(ValueError, lambda: P.Zernike(1.0, 1.0, n, m, **kw), f"Zernike({n},{m}) is not valid")
                case.event("rejected")

    ctx.each("rejected", 8, rejected)

    def orthonormal(case):
        """over the unit disc the normalized polynomials are orthonormal (weight 1/pi)"""
        rng = case.rng
        g = 24
        t, wt = np.polynomial.legendre.leggauss(g)
        u = (t + 1) / 2; r = np.sqrt(u)
        ph = 2 * np.pi * np.arange(64) / 64
        rad = 2.5
        X, Y = rad * r[:, None] * np.cos(ph), rad * r[:, None] * np.sin(ph)
        W = (wt / 2)[:, None] / 64 * np.ones((1, 64))
        small = [p for p in pairs if p[0] <= 6]
        (n1, m1), (n2, m2) = small[int(rng.integers(len(small)))], small[int(rng.integers(len(small)))]
        if case.index % 3 == 0: n2, m2 = n1, m1
        case.note("orthonormal", (n1, m1, n2, m2))
        a = P.Zernike(1.0, rad, n1, m1)(X, Y).astype(float); b = P.Zernike(1.0, rad, n2, m2)(X, Y).astype(float)
        ip = float(np.sum(a * b * W))
        case.close(ip, 1.0 if (n1, m1) == (n2, m2) else 0.0, 2e-3 if ctx.prec == 32 else 1e-10, "orthonormality over the disc")
        case.event("orthonormal_pairs")

    ctx.each("orthonormal", ctx.n(24, 150), orthonormal)
