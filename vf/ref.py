"""Reference model of profiles: an independent float64 evaluator with running error bounds.

A profile is a spec, a nested tuple; build(P, spec) makes the library object, evaluate(spec, x, y, R)
the reference value and a bound on the rounding error a correct implementation at precision R may
have at each point (infinite where the value is ill-conditioned: on the edge of a window, next to a
zero divisor, on a branch cut).  Formulas are evaluated by other means than the library's (numpy
Hermite recurrence, scipy Jacobi and Laguerre recurrences)."""
import math
import numpy as np
from scipy.special import eval_genlaguerre, eval_jacobi

K = 24.0   # rounding steps allowed for per elementary formula


class R:
    """precision: eps, rounding of parameters, smallest magnitudes"""
    def __init__(self, prec):
        self.prec = prec
        self.dtype = np.float32 if prec == 32 else np.float64
        self.cdtype = np.complex64 if prec == 32 else np.complex128
        self.eps = 2.0 ** -23 if prec == 32 else 2.0 ** -52
        self.tiny = 1e-36 if prec == 32 else 1e-290
        self.huge = 1e30 if prec == 32 else 1e250

    def r(self, v):
        if isinstance(v, complex):
            return complex(self.cdtype(v))
        return float(self.dtype(v))


class EV:
    def __init__(self, v, e):
        self.v, self.e = v, np.broadcast_to(np.asarray(e, dtype=float), np.shape(v))


def _abs_herm(n, x):
    c = np.abs(np.polynomial.hermite.herm2poly([0] * n + [1]))
    d = np.polynomial.polynomial.polyder(c) if n else np.zeros(1)
    return np.polynomial.polynomial.polyval(x, c), np.polynomial.polynomial.polyval(x, d)


def _hg(q, x, y, R):
    r = R.r
    w = r(q["w"]); n, m = q["n"], q["m"]
    X, Y = (x.v - r(q["x0"])) / w, (y.v - r(q["y0"])) / w
    s = math.sqrt(2)
    H = np.polynomial.hermite.hermval(s * X, [0] * n + [1]) * np.polynomial.hermite.hermval(s * Y, [0] * m + [1])
    E = np.exp(-(X ** 2 + Y ** 2))
    v = r(q["a"]) * H * E
    an, dn = _abs_herm(n, np.abs(s * X)); am, dm = _abs_herm(m, np.abs(s * Y))
    a = abs(r(q["a"]))
    dX = x.e / abs(w) + 3 * R.eps * np.abs(X)
    dY = y.e / abs(w) + 3 * R.eps * np.abs(Y)
    e = (1 + a) * an * am * R.tiny + a * E * (K * R.eps * an * am * (1 + n + m + X ** 2 + Y ** 2)
                 + dX * (s * dn + 2 * np.abs(X) * an) * am + dY * (s * dm + 2 * np.abs(Y) * am) * an)
    return EV(v, 2 * e)


def _sg(q, x, y, R):
    r = R.r
    w = r(q["w"]); p = r(q["p"]); a = r(q["a"])
    X, Y = (x.v - r(q["x0"])) / w, (y.v - r(q["y0"])) / w
    S = X ** 2 + Y ** 2
    G = S ** p
    v = a * np.exp(-G)
    dX = x.e / abs(w) + 3 * R.eps * np.abs(X)
    dY = y.e / abs(w) + 3 * R.eps * np.abs(Y)
    dS = 2 * (np.abs(X) * dX + np.abs(Y) * dY) + dX ** 2 + dY ** 2 + 3 * R.eps * S
    # S**p: exact sensitivity by the larger of both sides (p < 1 is singular at 0)
    dG = np.maximum(np.abs((S + dS) ** p - G), np.abs(np.maximum(S - dS, 0) ** p - G)) + K * R.eps * G * (1 + np.abs(np.log(np.maximum(S, 1e-300))) * p * 0.2)
    e = np.abs(a) * np.minimum(np.exp(-G) * np.expm1(np.minimum(dG, 1.0)) + K * R.eps * np.exp(-G), 2)
    return EV(v, 2 * e + R.tiny * (1 + np.abs(a)))


def _lg(q, x, y, R):
    r = R.r
    w = r(q["w"]); a = r(q["a"]); l, p = q["l"], q["p"]
    dx, dy = x.v - r(q["x0"]), y.v - r(q["y0"])
    ex, ey = x.e + R.eps * np.abs(dx), y.e + R.eps * np.abs(dy)
    r2 = dx ** 2 + dy ** 2
    rr = np.sqrt(r2)
    t = 2 * r2 / w ** 2
    L = eval_genlaguerre(p, abs(l), t)
    c = [math.comb(p + abs(l), p - k) / math.factorial(k) for k in range(p + 1)]
    Labs = np.polynomial.polynomial.polyval(t, c)
    Ldabs = np.polynomial.polynomial.polyval(t, [k * c[k] for k in range(1, p + 1)] or [0.0])
    rho = math.sqrt(2) * rr / abs(w)
    base = rho ** abs(l)
    dbase = abs(l) * rho ** (abs(l) - 1) if l else np.zeros_like(rho)
    E = np.exp(-t / 2)
    sgn = (1.0 if w > 0 else -1.0) ** abs(l)
    amp = a * sgn * base * L * E
    phi = np.arctan2(dy, dx)
    v = amp * np.exp(-1j * l * phi)
    dr = ex + ey + 3 * R.eps * rr
    drho = math.sqrt(2) * dr / abs(w) + K * R.eps * rho
    dt = 2 * rho * drho
    e = np.abs(a) * E * (K * R.eps * base * Labs * (2 + p + abs(l) + t) + dbase * drho * Labs + base * Ldabs * dt + base * Labs * dt)
    with np.errstate(all="ignore"):
        ephi = abs(l) * (K * R.eps + np.where(rr > 0, (ex + ey) / np.where(rr > 0, rr, 1), 0))
    e = e + np.abs(amp) * ephi + (1 + np.abs(a)) * (1 + base) * Labs * R.tiny
    return EV(v, 2 * e + R.tiny)


def zernike_norm(n, m, normalize):
    return (math.sqrt(n + 1) if m == 0 else math.sqrt(2 * n + 2)) if normalize else 1.0


def _z(q, x, y, R):
    r = R.r
    a = r(q["a"]); rad = r(q["radius"]); n, m = q["n"], q["m"]; M = abs(m)
    rr = np.sqrt(x.v ** 2 + y.v ** 2)
    rho = rr / rad
    phi = np.arctan2(y.v, x.v)
    k = (n - M) // 2
    Rnm = (-1) ** k * rho ** M * eval_jacobi(k, M, 0, 1 - 2 * rho ** 2)
    ang = np.cos(m * phi) if m >= 0 else np.sin(M * phi)
    N = zernike_norm(n, m, q["normalize"])
    v = a * N * Rnm * ang
    c = np.zeros(n + 1)
    for j in range(k + 1):
        c[n - 2 * j] = math.factorial(n - j) / (math.factorial(j) * math.factorial((n + M) // 2 - j) * math.factorial((n - M) // 2 - j))
    Rabs = np.polynomial.polynomial.polyval(rho, c)
    Rd = np.polynomial.polynomial.polyval(rho, np.arange(1, n + 1) * c[1:]) if n else np.zeros_like(rho)
    drho = (x.e + y.e) / rad + 3 * R.eps * rho
    with np.errstate(all="ignore"):
        dphi = M * (K * R.eps + np.where(rr > 0, (x.e + y.e) / np.where(rr > 0, rr, 1), 0))
    e = abs(a) * N * (K * R.eps * Rabs * (1 + n) + Rd * drho + np.abs(Rnm) * dphi)
    if n == 0:
        e = np.full_like(rr, abs(a) * N * K * R.eps)
    if not q["extrapolate"]:
        out = rho > 1
        v = np.where(out, 0.0, v)
        e = np.where(out, 0.0, e)
        e = np.where(np.abs(rho - 1) < 8 * R.eps + 2 * drho, np.inf, e)
    return EV(v, 2 * e)


def _rw(q, x, y, R):
    r = R.r
    dx, dy = np.abs(x.v - r(q["x0"])), np.abs(y.v - r(q["y0"]))
    hx, hy = r(q["wx"]) / 2, r(q["wy"]) / 2
    v = ((dx < hx) & (dy < hy)).astype(float)
    ex, ey = 2 * x.e + 4 * R.eps * (np.abs(x.v) + hx), 2 * y.e + 4 * R.eps * (np.abs(y.v) + hy)
    edge = ((np.abs(dx - hx) < ex) & (dy < hy + ey)) | ((np.abs(dy - hy) < ey) & (dx < hx + ex))
    return EV(v, np.where(edge, np.inf, 0.0))


def _cw(q, x, y, R):
    r = R.r
    d2 = (x.v - r(q["x0"])) ** 2 + (y.v - r(q["y0"])) ** 2
    d, rad = np.sqrt(d2), abs(r(q["r"]))
    v = (d <= rad).astype(float)
    e = 2 * (x.e + y.e) + 8 * R.eps * (np.abs(x.v) + np.abs(y.v) + rad)
    return EV(v, np.where(np.abs(d - rad) < e, np.inf, 0.0))


LEAVES = {"HG": _hg, "SG": _sg, "LG": _lg, "Z": _z, "RW": _rw, "CW": _cw}


def is_complex(spec):
    k = spec[0]
    if k == "LG" or k == "cx": return True
    if k in ("C", "num"): return isinstance(spec[1], complex)
    if k in LEAVES: return False
    if k in ("+", "-", "*", "/", "**"): return is_complex(spec[1]) or is_complex(spec[2])
    return is_complex(spec[1])


def evaluate(spec, x, y, R):
    """x, y: EV coordinates"""
    with np.errstate(all="ignore"):
        out = _ev(spec, x, y, R)
        mag = np.abs(out.v)
        e = np.where(np.isnan(out.e) | ((mag > R.huge) & (out.e != 0)), np.inf, out.e)
        return EV(out.v, e)


def _ev(spec, x, y, R):
    k = spec[0]
    if k in LEAVES:
        o = LEAVES[k](spec[1], x, y, R)
        return EV(o.v, o.e + R.tiny if k in ("HG", "SG", "LG") else o.e)
    if k in ("C", "num"):
        return EV(np.asarray(R.r(spec[1])), 0.0)
    if k == "shift":
        dx, dy = R.r(spec[2]), R.r(spec[3])
        X, Y = x.v - dx, y.v - dy
        return evaluate(spec[1], EV(X, x.e + R.eps * np.abs(X)), EV(Y, y.e + R.eps * np.abs(Y)), R)
    if k == "rot":
        t = R.r(spec[2]); c, s = math.cos(t), math.sin(t)
        X, Y = c * x.v - s * y.v, s * x.v + c * y.v
        m = 4 * R.eps * (np.abs(x.v) + np.abs(y.v))
        return evaluate(spec[1], EV(X, abs(c) * x.e + abs(s) * y.e + m), EV(Y, abs(s) * x.e + abs(c) * y.e + m), R)
    if k == "rx":
        m = R.r(spec[2]); X = x.v / m
        return evaluate(spec[1], EV(X, x.e / abs(m) + 2 * R.eps * np.abs(X)), y, R)
    if k == "ry":
        m = R.r(spec[2]); Y = y.v / m
        return evaluate(spec[1], x, EV(Y, y.e / abs(m) + 2 * R.eps * np.abs(Y)), R)
    a = evaluate(spec[1], x, y, R)
    if k == "neg":
        return EV(-a.v, a.e)
    if k == "cx":
        v = np.exp(1j * a.v)
        return EV(v, np.abs(v) * (np.expm1(np.minimum(a.e, 1)) + np.where(a.e > 1, np.inf, 0) + K * R.eps * (1 + np.abs(a.v))) + R.tiny)
    b = evaluate(spec[2], x, y, R)
    A, B = np.abs(a.v), np.abs(b.v)
    if k in ("+", "-"):
        v = a.v + b.v if k == "+" else a.v - b.v
        return EV(v, a.e + b.e + 2 * R.eps * (A + B))
    if k == "*":
        v = a.v * b.v
        return EV(v, a.e * B + b.e * A + a.e * b.e + 4 * R.eps * A * B + R.tiny)
    if k == "/":
        v = a.v / b.v
        rel = b.e / B
        e = (a.e / B + A / B * rel) / (1 - np.minimum(rel, 0.5)) + 8 * R.eps * A / B + R.tiny
        e = np.where((rel > 0.1) | (B < 1e6 * R.tiny) | (B > 1e-6 / R.tiny) | ~np.isfinite(v), np.inf, e)
        if not np.iscomplexobj(v):   # a real number over exactly zero: infinite, or NaN if it is exactly zero itself
            e = np.where((B == 0) & (b.e == 0) & ((A > a.e) | (a.e == 0)) & np.isfinite(a.v), 0.0, e)
        return EV(v, e)
    if k == "**":
        cplx = np.iscomplexobj(a.v) or np.iscomplexobj(b.v)
        lo = A <= 100 * a.e + 1e6 * R.tiny
        if cplx:
            v = np.asarray(a.v, dtype=complex) ** b.v
            integer = np.all(np.asarray(b.v).imag == 0) and np.all(np.asarray(b.v).real == np.round(np.asarray(b.v).real))
            lg = np.abs(np.log(np.asarray(a.v, dtype=complex)))
            e = np.abs(v) * (np.abs(b.v) * a.e / A + lg * b.e + K * R.eps * (1 + np.abs(b.v) * (1 + lg)))
            if not integer:   # branch cut
                z = np.asarray(a.v, dtype=complex)
                lo = lo | ((z.real < 0) & (np.abs(z.imag) <= 100 * a.e + 1e-3 * R.eps * A))
        else:
            v = np.asarray(a.v, dtype=float) ** b.v
            lg = np.abs(np.log(A))
            e = np.abs(v) * (np.abs(b.v) * a.e / A + lg * b.e + K * R.eps * (1 + np.abs(b.v) * 0.2 * (1 + lg)))
            nonint = np.any(np.asarray(b.v) != np.round(np.asarray(b.v)))
            if nonint or b.e.any():
                e = np.where(np.asarray(a.v) < 0, np.where(b.e > 0, np.inf, 0), e)   # NaN in both
            else:
                # small powers are well-conditioned down to zero
                e = np.where(lo & (np.asarray(b.v) >= 1), np.abs(b.v) * (A + 101 * a.e) ** (np.maximum(b.v, 1) - 1) * a.e + K * R.eps * np.abs(v) + R.tiny, e)
                lo = lo & (np.asarray(b.v) < 1) & (np.asarray(b.v) != 0)
                e = np.where(np.asarray(b.v) == 0, 4 * R.eps, e)
        return EV(v, np.where(lo | ~(np.abs(v) < R.huge) & ~np.isnan(v), np.inf, e + R.tiny))
    raise ValueError(k)


def coords(x, y, R):
    """coordinates as the library sees them"""
    x = np.asarray(x, dtype=R.dtype).astype(float)
    y = np.asarray(y, dtype=R.dtype).astype(float)
    return EV(x, 0.0), EV(y, 0.0)


def reference(spec, x, y, R):
    """(values broadcast to the coordinates, error bound)"""
    o = evaluate(spec, *coords(x, y, R), R)
    shape = np.broadcast_shapes(np.shape(x), np.shape(y))
    return np.broadcast_to(o.v, shape), np.broadcast_to(o.e, shape)


# ---------------------------------------------------------------- library objects from specs
def build(P, spec):
    k = spec[0]
    if k == "HG": return P.HermiteGaussian(**spec[1])
    if k == "SG": return P.SuperGaussian(**spec[1])
    if k == "LG": return P.LaguerreGaussian(**spec[1])
    if k == "Z": return P.Zernike(**spec[1])
    if k == "RW": return P.RectangularWindowRectangle(**spec[1])
    if k == "CW": return P.RectangularWindowCircular(**spec[1])
    if k == "C": return P.ConstantProfile(spec[1])
    if k == "num": return spec[1]
    if k == "shift": return build(P, spec[1]).shift(spec[2], spec[3])
    if k == "rot": return build(P, spec[1]).rotate(spec[2])
    if k == "rx": return build(P, spec[1]).rescale_x(spec[2])
    if k == "ry": return build(P, spec[1]).rescale_y(spec[2])
    if k == "cx": return build(P, spec[1]).as_complex_profile()
    if k == "neg": return -build(P, spec[1])
    return combine(k, build(P, spec[1]), build(P, spec[2]))


def combine(k, a, b):
    if k == "+": return a + b
    if k == "-": return a - b
    if k == "*": return a * b
    if k == "/": return a / b
    if k == "**": return a ** b
    raise ValueError(k)


# ---------------------------------------------------------------- random specs
def r4(rng, lo, hi):
    return float(np.round(rng.uniform(lo, hi), 4))


def leaf(rng, s=1.0, kinds=("HG", "SG", "LG", "Z", "C", "RW", "CW"), order=4):
    """a random basic profile whose features have size about s"""
    k = kinds[rng.integers(len(kinds))]
    c = dict(x0=r4(rng, -1, 1) * s, y0=r4(rng, -1, 1) * s)
    if k == "HG": return (k, dict(c, a=r4(rng, -3, 3), w=r4(rng, 0.4, 2) * s, n=int(rng.integers(order + 1)), m=int(rng.integers(order + 1))))
    if k == "SG": return (k, dict(c, a=r4(rng, -3, 3), w=r4(rng, 0.4, 2) * s, p=float(rng.choice([0.5, 1.0, 1.5, 2.0, 3.0, r4(rng, 0.5, 5)]))))
    if k == "LG": return (k, dict(c, a=r4(rng, -3, 3), w=r4(rng, 0.4, 2) * s, l=int(rng.integers(-order, order + 1)), p=int(rng.integers(order))))
    if k == "Z":
        n = int(rng.integers(order + 2)); m = int(rng.choice(np.arange(-n, n + 1, 2)))
        return (k, dict(a=r4(rng, -3, 3), radius=r4(rng, 0.5, 3) * s, n=n, m=m, normalize=bool(rng.integers(2)), extrapolate=bool(rng.integers(2))))
    if k == "C":
        return (k, [r4(rng, -3, 3), complex(r4(rng, -3, 3), r4(rng, -3, 3)), float(rng.integers(-3, 4))][rng.integers(3)])
    if k == "RW": return (k, dict(c, wx=r4(rng, 0.5, 3) * s, wy=r4(rng, 0.5, 3) * s))
    if k == "CW": return (k, dict(c, r=r4(rng, 0.3, 2) * s))
    raise ValueError(k)


def scalar(rng):
    return [int(rng.integers(-4, 5)), r4(rng, -3, 3), complex(r4(rng, -2, 2), r4(rng, -2, 2)), complex(r4(rng, -2, 2), 0.0), complex(0.0, r4(rng, -2, 2))][(0, 0, 0, 1, 1, 1, 2, 2, 3, 4)[rng.integers(10)]]


def points(rng, n, s=1.0, reach=3.0):
    """n random points plus the origin and points on the axes"""
    x = rng.uniform(-reach, reach, n) * s
    y = rng.uniform(-reach, reach, n) * s
    if n > 4:
        x[0] = y[0] = 0.0
        x[1] = 0.0
        y[2] = 0.0
    return x, y
