"""C20: Zernike decomposition and removal of trivial terms, against maps composed by the reference."""
import contextlib, io, math
import numpy as np
from vf import ref

RULE = ("each case composes a phase map of random Zernike terms (reference formula) on a random grid (odd, even, not square) and aperture, with "
        "arbitrary values outside, in several number types and memory layouts, and checks coefficients, reconstruction, removal, linearity and "
        "that the map is untouched; tolerances come from the Gram matrix of the terms on the sampled aperture; a second family walks the single "
        "index; non-trivial: distinct map")
PLAN = {"quick": [(32, 4), (64, 4)], "thorough": [(32, 4), (64, 4)]}
NEED = {"cases": 30, "coefficients": 200, "reconstructions": 25, "removals": 50, "indices": 10000, "linearity": 30, "large": 4, "again": 60}


def pairs(num):
    out = []
    n = 0
    while len(out) < num:
        out += [(n, m) for m in range(-n, n + 1, 2)]
        n += 1
    return out[:num]


def grid(Nx, Ny):
    return np.meshgrid(np.arange(Nx) - (Nx - 1) / 2, (Ny - 1) / 2 - np.arange(Ny))


def term(n, m, radius, x, y, R, extrapolate=False):
    return ref.reference(("Z", dict(a=1.0, radius=radius, n=n, m=m, normalize=True, extrapolate=extrapolate)), x, y, R)


def again(case, P, prec, eps, steps):
    """maps of one shape analysed again and again with other radii, terms and options: each by its own numbers"""
    from pySLM2 import analysis as A
    rng, R = case.rng, ref.R(prec)
    Nx, Ny = int(rng.integers(8, 40)), int(rng.integers(8, 40))
    x, y = grid(Nx, Ny)
    radii = [float(rng.uniform(.4, 1.3) * min(Nx, Ny) / 2) for _ in range(3)]
    maps = [rng.normal(size=(Ny, Nx)) for _ in range(2)]
    if rng.random() < .5: maps.append(np.rint(9 * maps[0]).astype(int))
    case.note("again", (Nx, Ny), radii)
    for _ in range(steps):
        r, m = radii[rng.integers(3)], maps[rng.integers(len(maps))]
        ap = np.hypot(x, y) < r
        size = max(1.0, float(np.abs(m).max()))
        if rng.random() < .6:
            J, ext, rec = int(rng.integers(1, 9)), bool(rng.integers(2)), bool(rng.integers(2))
            got = A.zernike_decomposition(m, r, J, reconstruct=rec, extrapolate=ext)
            c, picture = got if rec else (got, None)
            Z = [term(n, k, r, x, y, R, ext)[0] for n, k in pairs(J)]
            want = np.array([np.mean(m[ap] * z[ap]) for z in Z])
            case.close(np.array(c, float), want, 2000 * eps * J * size, "coefficients of a map analysed after others of its shape")
            if rec: case.close(picture, sum(v * z for v, z in zip(want, Z)), 4000 * eps * J * J * size * max(1.0, max(np.abs(z).max() for z in Z)), "reconstruction of a map analysed after others of its shape")
        else:
            d = bool(rng.integers(2))
            left = m.astype(float)
            for n, k in [(0, 0), (1, -1), (1, 1)] + [(2, 0)] * d:
                z = term(n, k, r, x, y, R)[0]
                left = left - np.mean(left[ap] * z[ap]) * z
            case.close(A.remove_trivial_phase(m, r, remove_defocus=d), left, 20000 * eps * size, "removal from a map after others of its shape")
        case.event("again")


def run(ctx):
    P, R, eps = ctx.P, ref.R(ctx.prec), ctx.eps
    from pySLM2 import analysis as A

    def quiet(fn, *a, **kw):
        out = io.StringIO()
        with contextlib.redirect_stdout(out): return fn(*a, **kw), out.getvalue()

    def compose(case, J, floor=0):
        rng = case.rng
        Nx, Ny = int(rng.integers(12, 70)), int(rng.integers(12, 70))
        if case.family == "large": Nx, Ny = int(rng.integers(400, 1500)), int(rng.integers(400, 1200))
        if rng.random() < .3: Ny = Nx
        radius = float(rng.uniform(.55, 1) * min(Nx, Ny) / 2)
        if rng.random() < .4: radius = int(radius)
        x, y = grid(Nx, Ny)
        rho = np.hypot(x, y) / radius
        inside = rho < 1
        terms = pairs(J)
        Z = [term(n, m, radius, x, y, R)[0] for n, m in terms]
        flat = np.array([z[inside] for z in Z])
        G = flat @ flat.T / inside.sum()
        return Nx, Ny, radius, x, y, rho, inside, terms, Z, np.abs(G - np.eye(J))

    def dress(rng, a):
        """the same numbers in another layout"""
        k = int(rng.integers(5))
        if k == 1: a = np.asfortranarray(a)
        elif k == 2: b = np.zeros((a.shape[0] * 2, a.shape[1] * 2)); b[::2, ::2] = a; a = b[::2, ::2]
        elif k == 3: a = a.copy(); a.flags.writeable = False
        elif k == 4: a = a.astype(np.float32)
        return a

    def analyse(case):
        rng = case.rng
        J = int(rng.choice([6, 6, 7, 10, 15, 21], p=[.2, .2, .2, .15, .15, .1])) if case.family != "large" else 7
        Nx, Ny, radius, x, y, rho, inside, terms, Z, D = compose(case, J)
        a = rng.normal(size=J) * rng.choice([0, 1, 5], J, p=[.3, .5, .2])
        if rng.random() < .3: a = np.zeros(J); a[rng.integers(J)] = ref.r4(rng, .5, 3)
        phase = sum(c * z for c, z in zip(a, Z))
        junk = rng.normal(size=phase.shape) * 10
        out = rho > 1 + 1e-4
        phase = np.where(out, junk, phase)
        arg = dress(rng, phase)
        before = arg.copy()
        case.note((Nx, Ny), radius, [f"{v:.2f}" for v in a])
        scale = np.sum(np.abs(a)) + np.max(np.abs(a)) + .1
        small = 400 * max(eps, 2 ** -23 if arg.dtype == np.float32 else 0) * scale * J
        tol = 2 * D @ np.abs(a) + small

        num = int(rng.integers(max(1, J - 8), J + 1))
        kw = {}
        if rng.random() < .3: kw["verbose"] = bool(rng.integers(2))
        ext = bool(rng.integers(2))
        if ext or rng.random() < .3: kw["extrapolate"] = ext
        c, printed = quiet(A.zernike_decomposition, arg, radius, num, **kw)
        case.true(len(c) == num, "one coefficient per requested term", got=len(c), want=num)
        case.close(np.array(c, dtype=float), a[:num], tol[:num], "coefficient of a map with known aberrations", points=[np.array([str(t) for t in terms[:num]])])
        case.event("coefficients", num)
        (c2, rec), _ = quiet(A.zernike_decomposition, arg, radius, num, reconstruct=True, **kw)
        case.close(np.array(c2, dtype=float), np.array(c, dtype=float), small, "the coefficients depend on reconstruct")
        want, err = np.zeros(phase.shape), np.zeros(phase.shape)
        for (n, m), cj in zip(terms, c2):
            v, e = term(n, m, radius, x, y, R, ext)
            want = want + float(cj) * v; err = err + abs(float(cj)) * (e + 40 * eps * np.abs(v))
        case.close(rec, want, 2 * err + 1e-12, "the reconstruction is not the sum of its terms")
        case.event("reconstructions")
        case.same(arg, before, "decomposition modified the map")

        for defocus in (False, True):
            kw = {} if not defocus and rng.random() < .5 else {"remove_defocus": defocus}
            if rng.random() < .2: kw["verbose"] = True
            r, _ = quiet(A.remove_trivial_phase, arg, radius, **kw)
            case.equal(np.shape(r), phase.shape, "shape of the map without trivial terms")
            case.same(arg, before, "removal modified the map")
            case.true(not np.shares_memory(r, arg), "the result is the caller's map itself")
            gone = [0, 1, 2] + ([4] if defocus else [])
            rest = sum(a[k] * Z[k] for k in range(J) if k not in gone) + np.zeros(phase.shape)
            # each removed coefficient may be off by the overlap with everything present
            bound = 3 * sum(tol[k] * np.abs(Z[k]).max() for k in gone) + small
            case.close(np.asarray(r)[inside], rest[inside], bound, f"what is left after removing the trivial terms (defocus {defocus})")
            case.close(np.asarray(r)[out], before[out].astype(float), 1e-6 * 10, "the map outside the aperture")
            if rng.random() < .5: case.event("removals"); continue
            again, _ = quiet(A.zernike_decomposition, np.asarray(r, dtype=float), radius, max(6, min(J, 6)))
            left = np.array(again, dtype=float)
            w = np.array([0.0 if k in gone else a[k] for k in range(6)])
            case.close(left, w, 4 * tol[:6] + 4 * sum(tol[k] for k in gone) + small, "coefficients left after removal")
            case.event("removals")

    ctx.each("analyse", ctx.n(16, 200), analyse)

    def large(case):
        """maps of the size of a device"""
        analyse(case)
        case.event("large")

    ctx.each("large", ctx.n(4, 24), large)

    ctx.each("again", ctx.n(4, 40), lambda case: again(case, P, ctx.prec, eps, 10))

    def linear(case):
        rng = case.rng
        Nx, Ny = int(rng.integers(5, 50)), int(rng.integers(5, 50))
        radius = float(rng.uniform(.5, 1) * min(Nx, Ny) / 2)
        f, g = rng.normal(size=(Ny, Nx)), rng.normal(size=(Ny, Nx)) + 1
        al, be = ref.r4(rng, -3, 3), ref.r4(rng, -3, 3)
        J = int(rng.integers(3, 9))
        case.note("linear", (Nx, Ny), radius, (al, be), J)
        dec = lambda p: np.array(A.zernike_decomposition(p, radius, J), dtype=float)
        tol = 4000 * eps * (abs(al) + abs(be) + 1) * J
        case.close(dec(al * f + be * g), al * dec(f) + be * dec(g), tol, "decomposition is not linear")
        for d in (False, True):
            rem = lambda p: np.asarray(A.remove_trivial_phase(p, radius, remove_defocus=d), dtype=float)
            case.close(rem(al * f + be * g), al * rem(f) + be * rem(g), tol * 10, "removal is not linear")
        case.event("linearity", 3)

    ctx.each("linear", ctx.n(8, 80), linear)

    def index(case):
        """the single index, exhaustively at the start and far out"""
        rng = case.rng
        if case.index == 0:
            js = list(range(ctx.n(6000, 60000)))
            case.note("indices up to", js[-1])
            want = pairs(len(js))
        else:
            ns = sorted(int(v) for v in list(10 ** rng.uniform(2, 4, 300)) + list(10 ** rng.uniform(4, 6.3, 12)))
            js, want = [], []
            for n in ns:
                for m in {-n, n, -n + 2, n - 2, -n + 2 * int(rng.integers(n + 1))}:
                    js.append((n * (n + 2) + m) // 2); want.append((n, m))
            case.note("indices from", js[0], js[-1])
        for j, w in zip(js, want):
            got = A.ansi_j_to_n_m(j)
            if tuple(got) != w: case.true(False, f"index {j}", got=got, want=w)
        case.event("indices", len(js))
        seen = {tuple(A.ansi_j_to_n_m(j)) for j in js}
        case.equal(len(seen), len(set(want)), "different indices give different pairs")
        for j in js[:40]:
            n, m = A.ansi_j_to_n_m(j)
            if n <= 8: P.Zernike(1, 1, n, m)

    ctx.each("index", ctx.n(6, 40), index)
