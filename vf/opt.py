"""Reference optics in float64: device geometry, grids, Fourier sums, holograms."""
import math
import numpy as np
from vf import ref


class Geo:
    """parameters of a device and its float64 model"""
    def __init__(self, Nx, Ny, pixel, wavelength, focal, period=4.0, theta=0.7, neg=False, kind="DMD"):
        self.__dict__.update(Nx=Nx, Ny=Ny, pixel=pixel, wavelength=wavelength, focal=focal, period=period, theta=theta, neg=neg, kind=kind)

    @property
    def lf(self):
        return self.wavelength * self.focal

    def make(self, P):
        if self.kind == "DMD":
            return P.DMD(self.wavelength, self.focal, self.period, self.theta, self.Nx, self.Ny, self.pixel, negative_order=self.neg)
        return P.LCOS_SLM(self.wavelength, self.focal, self.Nx, self.Ny, self.pixel)

    def fgrid(self, px=0, py=0):
        j = np.arange(-px, self.Nx + px); i = np.arange(-py, self.Ny + py)
        x, y = np.meshgrid((j - self.Nx / 2) * self.pixel, (self.Ny / 2 - i) * self.pixel)
        return x, y

    def igrid(self, px=0, py=0):
        Nx, Ny = self.Nx + 2 * px, self.Ny + 2 * py
        u = (np.arange(Nx) - Nx // 2) / (Nx * self.pixel) * self.lf
        v = -(np.arange(Ny) - Ny // 2) / (Ny * self.pixel) * self.lf
        return np.meshgrid(u, v)

    def desc(self):
        return {k: v for k, v in self.__dict__.items()}

    def grating(self):
        x, y = self.fgrid()
        return 2 * math.pi / (self.period * self.pixel) * (x * math.cos(self.theta) + y * math.sin(self.theta))

    @property
    def origin(self):
        f = self.lf / (self.period * self.pixel)
        return math.cos(self.theta) * f, math.sin(self.theta) * f


def geometry(rng, lo=6, hi=40, kind="DMD", square=False):
    Nx = int(rng.integers(lo, hi + 1)); Ny = Nx if square else int(rng.integers(lo, hi + 1))
    g = Geo(Nx, Ny, round(float(rng.uniform(4, 16)), 2) * 1e-6, round(float(rng.uniform(350, 1100)), 1) * 1e-9,
            round(float(rng.uniform(0.02, 0.8)), 3), round(float(rng.uniform(2.3, 9)), 2), round(float(rng.uniform(-3.2, 3.2)), 3),
            bool(rng.integers(2)), kind)
    # unusual, but nothing speaks against it
    odd = np.random.default_rng([Nx, Ny, int(g.pixel * 1e8)])
    if odd.random() < .4:
        k = int(odd.integers(7))
        if k == 0: g.period = [round(float(odd.uniform(1.05, 2.3)), 2), 2, 2.0, 3, 4][odd.integers(5)]
        elif k == 1: g.period = round(float(odd.uniform(9, 80)), 1)
        elif k == 2: g.theta = [0, 0.0, math.pi / 2, -math.pi / 2, math.pi, math.pi / 4, -3 * math.pi / 4, 1, -2][odd.integers(9)]
        elif k == 3: g.theta = round(float(odd.uniform(-15, 15)), 2)
        elif k == 4: g.focal = [1, 2, round(float(odd.uniform(1, 12)), 2), round(float(odd.uniform(.5, 20)), 2) * 1e-3][odd.integers(4)]
        elif k == 5: g.wavelength = [1.064e-5, 1.24e-7, 3.39e-6, 5.5e-4][odd.integers(4)]
        else: g.pixel = [round(float(odd.uniform(.4, 4)), 2) * 1e-6, round(float(odd.uniform(16, 900)), 1) * 1e-6][odd.integers(2)]
    return g


SIZES = [(1024, 768), (1920, 1080), (1280, 800), (768, 1024), (1025, 767), (2048, 64), (31, 1999), (1200, 1201)]


def large(rng, index, kind="DMD", limit=3e6):
    """a device of the size of real ones, or beyond in one direction"""
    g = geometry(rng, kind=kind)
    sizes = [s for s in SIZES if s[0] * s[1] <= limit] + [None]
    s = sizes[index % len(sizes)]
    n = int(limit ** .5 * .9)
    g.Nx, g.Ny = s or (int(rng.integers(n // 2, n)), int(rng.integers(n // 2, n)))
    return g


def _mat(N, sign):
    c = np.arange(N) - N // 2
    return np.exp(sign * 2j * np.pi * ((c[:, None] * c[None, :]) % N) / N)


def to_image(f):
    """sum over the lattice (counted from its centre) of f*exp(+2 pi i (jx jx'/Nx + ...))"""
    Ny, Nx = f.shape
    return _mat(Ny, 1) @ f @ _mat(Nx, 1)


def to_fourier(t):
    Ny, Nx = t.shape
    return _mat(Ny, -1) @ t @ _mat(Nx, -1)


def fast_to_image(f):
    return np.fft.fftshift(np.fft.ifft2(np.fft.ifftshift(f))) * f.size


def fast_to_fourier(t):
    return np.fft.fftshift(np.fft.fft2(np.fft.ifftshift(t)))


def sample(spec, grid, R):
    """reference samples of a profile on a device grid, with the error of the library's rounded grid"""
    x, y = grid
    ex = 6 * R.eps * np.max(np.abs(x)) * np.ones_like(x); ey = 6 * R.eps * np.max(np.abs(y)) * np.ones_like(y)
    o = ref.evaluate(spec, ref.EV(x, ex), ref.EV(y, ey), R)
    return np.broadcast_to(o.v, x.shape), np.broadcast_to(o.e, x.shape)


def fft_err(t, R, et=0.0):
    """bound on the error per element of a transform of t computed at precision R (t itself off by et)"""
    n = math.log2(max(t.size, 2))
    return 6 * R.eps * (3 + n) * float(np.linalg.norm(t)) + 1.5 * float(np.sum(np.broadcast_to(et, t.shape)))


class Lee:
    """reference amplitude, phases and gray-scale hologram of calculate_dmd_state with error bounds"""
    def __init__(self, geo, inp, tgt, R, window=None, ein=0.0, et=0.0, ew=0.0):
        self.F = (to_fourier if tgt.size < 20000 else fast_to_fourier)(tgt)
        eF = fft_err(tgt, R, et)
        w = np.ones(inp.shape) if window is None else window
        self.F = self.F * w
        eF = np.abs(w) * eF + ew * np.abs(to_fourier(tgt) if tgt.size < 20000 else fast_to_fourier(tgt)) + 4 * R.eps * np.abs(self.F)
        A = np.abs(inp)
        dark = (A == 0)
        safe = np.where(dark, 1, A)
        a = np.where(dark, 0, np.abs(self.F) / safe)
        ein = np.broadcast_to(ein, A.shape) + 4 * R.eps * A
        ea = np.where(dark, 0, (eF + a * ein) / np.maximum(safe - ein, safe * 1e-3))
        lo, hi = np.max(a - ea), np.max(a + ea)
        self.max = float(np.max(a))
        self.rel = (hi - lo) / self.max if self.max > 0 else np.inf
        self.a = a / self.max
        self.ea = ea / self.max + self.a * (self.rel + 4 * R.eps)
        self.pin = np.where(dark, 0, np.angle(inp)); self.pout = np.angle(self.F)
        self.eta = geo.pixel ** 2 / geo.lf * geo.Nx * geo.Ny / self.max
        s = -1.0 if geo.neg else 1.0
        g = geo.grating()
        self.phase = g - s * (self.pout - self.pin)
        self.ideal = self.a * (1 + np.cos(self.phase)) / 2
        self.phase_rounding = 30 * R.eps * (4 + np.max(np.abs(g)))
        epin = np.where(dark, 0, np.minimum(ein / safe, 4))
        # a * phase error of the target's transform is bounded by ea again
        self.err = 2 * self.ea + self.a * (self.phase_rounding + epin)


def amp_phase_profile(rng, geo, dark=True, aberr=True):
    """a specification of an input beam of the size of the device, optionally aberrated, sign changing, apertured"""
    W = max(geo.Nx, geo.Ny) * geo.pixel; s = min(geo.Nx, geo.Ny) * geo.pixel
    k = int(rng.integers(4))
    c = dict(x0=ref.r4(rng, -.12, .12) * W, y0=ref.r4(rng, -.12, .12) * W, a=ref.r4(rng, 0.3, 4), w=ref.r4(rng, 0.5, 1.2) * W)
    if k == 0: spec = ("HG", dict(c, n=0, m=0))
    elif k == 1: spec = ("SG", dict(c, p=float(rng.choice([1.0, 1.5, 2.0]))))
    elif k == 2: spec = ("C", ref.r4(rng, 0.3, 3))
    else: spec = ("+", ("HG", dict(c, n=0, m=0)), ("C", 0.4))
    if aberr and rng.random() < 0.7:
        n = int(rng.integers(2, 5)); m = int(rng.choice(np.arange(-n, n + 1, 2)))
        z = ("Z", dict(a=ref.r4(rng, -2, 2), radius=0.75 * W, n=n, m=m, normalize=True, extrapolate=True))
        spec = ("*", spec, ("cx", z))
    if dark and rng.random() < 0.5:
        if rng.random() < 0.5: w = ("CW", dict(x0=ref.r4(rng, -.1, .1) * s, y0=ref.r4(rng, -.1, .1) * s, r=ref.r4(rng, 0.35, 0.55) * s))
        else: w = ("RW", dict(x0=ref.r4(rng, -.1, .1) * s, y0=0.0, wx=ref.r4(rng, 0.6, 1.1) * geo.Nx * geo.pixel, wy=ref.r4(rng, 0.6, 1.1) * geo.Ny * geo.pixel))
        spec = ("*", spec, w)
    return spec


def target_profile(rng, geo, cplx=True):
    """a specification of a target beam in the image plane, a few image pixels wide, asymmetric, off centre"""
    ix, iy = geo.lf / (geo.Nx * geo.pixel), geo.lf / (geo.Ny * geo.pixel)
    s = max(ix, iy); ext = min(ix * geo.Nx, iy * geo.Ny)
    kinds = ["HG", "SG", "LG", "HG+HG"] if cplx else ["HG", "SG", "HG+HG"]
    k = kinds[rng.integers(len(kinds))]
    w = min(ref.r4(rng, 1.2, 3) * s, 0.3 * ext)
    c = lambda: dict(x0=ref.r4(rng, -.15, .15) * ext, y0=ref.r4(rng, -.15, .15) * ext, a=ref.r4(rng, 0.3, 4), w=w)
    if k == "HG": return ("HG", dict(c(), n=int(rng.integers(3)), m=int(rng.integers(2))))
    if k == "SG": return ("SG", dict(c(), p=float(rng.choice([1.0, 2.0, 3.0]))))
    if k == "LG": return ("LG", dict(c(), l=int(rng.integers(-2, 3)), p=int(rng.integers(2))))
    return ("+", ("HG", dict(c(), n=0, m=0)), ("HG", dict(c(), n=0, m=0)))
