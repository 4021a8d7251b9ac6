"""Planted bugs: written from the text of a property and the code."""
PLANTS = []


def plant(id, property, edits, needs, breaks, demo, checks=None):
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, checks=checks or [property]))


HEAD = """
import sys
import numpy as np
import pySLM2 as P


def need(ok, what):
    if not ok:
        print("BROKEN:", what); sys.exit(1)
"""

plant("lg-negative-l", "C01",
      [("pySLM2/profile.py", "genlaguerre(self._p, abs(self._l)).coef", "genlaguerre(self._p, self._l).coef")],
      "a Laguerre-Gaussian mode with negative l and p > 0 at the same time",
      "the generalized Laguerre polynomial is taken for l instead of |l|: the radial shape of modes with l < 0, p > 0 is wrong",
      HEAD + """
x = np.linspace(-2, 2, 9)
a = np.abs(P.LaguerreGaussian(0, 0, 1.0, 1.0, l=2, p=1)(x, 0.3 + 0 * x))
b = np.abs(P.LaguerreGaussian(0, 0, 1.0, 1.0, l=-2, p=1)(x, 0.3 + 0 * x))
need(np.allclose(a, b, atol=1e-4), "modes with l and -l have different intensity")
""")

plant("zernike-rim", "C02",
      [("pySLM2/profile.py", "tf.where(rho > 1.0, tf.zeros_like", "tf.where(rho >= 1.0, tf.zeros_like")],
      "a point exactly on the rim of the aperture", "the rim does not count as inside any more",
      HEAD + """
v = P.Zernike(1.0, 2.0, 0, 0)(np.array([0.0, 2.0, -2.0]), np.array([2.0, 0.0, 0.0]))
need(np.allclose(v, 1.0), "zero on the rim: %s" % v)
""")

plant("window-half-open", "C03",
      [("pySLM2/window.py", "tf.cast((tf.abs(y - self._y0) < (self._wy / 2)), BACKEND.dtype)",
        "tf.cast(tf.logical_and(y - self._y0 < self._wy / 2, y - self._y0 >= -self._wy / 2), BACKEND.dtype)")],
      "a point exactly on the lower edge of a rectangular window", "the lower edge belongs to the window",
      HEAD + """
w = P.RectangularWindowRectangle(0.0, 1.0, 4.0, 2.0)
v = w(np.array([0.0, 0.0, 0.0]), np.array([0.0, 2.0, 1.0]))
need(list(v) == [0.0, 0.0, 1.0], "edges: %s" % v)
""")

plant("complex-number-demoted", "C04",
      [("pySLM2/profile.py", "self._c = tf.Variable(c, dtype=BACKEND.dtype_complex) if isinstance(c, complex) else tf.Variable(c, dtype=BACKEND.dtype)",
        "self._c = tf.Variable(c, dtype=BACKEND.dtype_complex) if np.imag(c) != 0 else tf.Variable(np.real(c), dtype=BACKEND.dtype)")],
      "a complex number operand whose imaginary part is zero", "the value of an expression with such an operand is real instead of complex (and a square root of it is NaN)",
      HEAD + """
p = P.HermiteGaussian(0, 0, -1.0, 1.0) * complex(1, 0)
v = p(np.zeros(3), np.zeros(3))
need(np.iscomplexobj(v), "complex operand, real value")
need(np.all(np.isfinite((p ** 0.5)(np.zeros(3), np.zeros(3)))), "the root is not finite")
""")

plant("rescale-mirror", "C05",
      [("pySLM2/profile.py", """        m = tf.constant(m, dtype=BACKEND.dtype)
        func_profile = FunctionProfile()
        func_profile._func = tf.function(func=lambda x, y: self._func(
            x=x / m,
            y=y
        ))""", """        m = tf.constant(abs(m), dtype=BACKEND.dtype)
        func_profile = FunctionProfile()
        func_profile._func = tf.function(func=lambda x, y: self._func(
            x=x / m,
            y=y
        ))""")],
      "rescaling x by a negative factor", "the mirror image is lost",
      HEAD + """
p = P.HermiteGaussian(0.5, 0, 1.0, 1.0)
x = np.linspace(-1, 1, 5)
need(np.allclose(p.rescale_x(-2.0)(x, 0 * x), p(-x / 2, 0 * x), atol=1e-6), "not mirrored")
""")

plant("constant-frozen", "C06",
      [("pySLM2/profile.py", """            def func(x, y):
                tensor1 = self._func(x, y)
                tensor2 = other._func(x, y)
""", """            constant = other._c.value() if isinstance(other, ConstantProfile) else None

            def func(x, y):
                tensor1 = self._func(x, y)
                tensor2 = other._func(x, y) if constant is None else constant
""")],
      "an expression with a named ConstantProfile on the right, and a later change of its value", "the expression keeps the old value of the constant",
      HEAD + """
c = P.ConstantProfile(1.0)
p = P.HermiteGaussian(0, 0, 1.0, 1.0) * c
need(abs(float(p(0.0, 0.0)) - 1) < 1e-6, "product")
c.c = 3.0
need(abs(float(p(0.0, 0.0)) - 3) < 1e-6, "change of the constant ignored")
""")

plant("odd-rows", "C07",
      [("pySLM2/slm.py", "        i = i - self._Ny / 2\n        return j", "        i = i - self._Ny // 2\n        return j")],
      "a device with an odd number of rows", "the SLM grid moves by half a pixel in y",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.0, 0.3, 8, 7, 1e-5)
y = d.fourier_plane_grid[1][:, 0]
need(np.allclose(y, (3.5 - np.arange(7)) * 1e-5, atol=1e-9), "rows at %s" % y)
""")

plant("memory-order", "C08",
      [("pySLM2/slm.py", "            tensor = tf.constant(profile, dtype=tensor_dtype)\n",
        "            # flatten without copying\n            tensor = tf.constant(np.ravel(profile, order=\"K\"), dtype=tensor_dtype)\n            tensor = tf.reshape(tensor, np.shape(profile))\n")],
      "an array that is not in C order (a transpose, a Fortran array)", "its elements are taken in memory order: the field is scrambled",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.0, 0.3, 8, 6, 1e-5)
a = np.arange(48.0).reshape(8, 6).T
need(np.allclose(np.array(d.profile_to_tensor(a)), a), "transposed array scrambled")
""")

plant("window-phase", "C09",
      [("pySLM2/slm.py", "target_profile_fp = target_profile_fp * window", "target_profile_fp = target_profile_fp * tf.cast(tf.math.abs(window), target_profile_fp.dtype)")],
      "a window with a phase (a complex or negative one)", "the phase of the window is dropped",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.0, 0.3, 12, 10, 1e-5)
t = np.zeros((10, 12)); t[4:7, 5:8] = 1.0
w = np.exp(1j * np.linspace(0, 3, 120).reshape(10, 12))
d.calculate_dmd_state(np.ones((10, 12)), t, method="ideal", window=w); a = d.dmd_state
d.calculate_dmd_state(np.ones((10, 12)), t, method="ideal", window=np.abs(w)); b = d.dmd_state
need(not np.allclose(a, b, atol=1e-3), "the window's phase has no effect")
""")

plant("ifta-efficiency", "C10",
      [("pySLM2/slm.py", "self.Nx * self.Ny / float(one_over_eta_fft)\n        return eta", "self.Nx * self.Ny / float(one_over_eta_fft)\n        return eta * kwargs.get(\"s\", 1.0)")],
      "method 'ifta' with a scaling s other than 1", "the efficiency depends on the method",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.0, 0.3, 12, 10, 1e-5)
t = np.zeros((10, 12)); t[4:7, 5:8] = 1.0
o = np.ones((10, 12))
e1 = d.calculate_dmd_state(o, t, method="ideal")
e2 = d.calculate_dmd_state(o, t, method="ifta", signal_window=o, N=5, s=0.5)
need(abs(e1 / e2 - 1) < 1e-5, "eta %g and %g" % (e1, e2))
""")

plant("antithetic-thresholds", "C11",
      [("pySLM2/_lib.py", "    threshold = tf.random.uniform(shape=grating.shape, dtype=BACKEND.dtype)\n    grating = (grating > threshold)",
        "    # antithetic sampling: less variance of the mean\n    half = (grating.shape[0] + 1) // 2\n    threshold = tf.random.uniform(shape=[half, grating.shape[1]], dtype=BACKEND.dtype)\n    threshold = tf.concat([threshold, 1 - threshold], axis=0)[:grating.shape[0]]\n    grating = (grating > threshold)")],
      "the joint distribution of two mirrors half the device apart", "mirrors in the lower half are decided by the draws of the upper half",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.0, 0.3, 8, 8, 1e-5)
c = []
for _ in range(250):
    d.set_dmd_grating_state(0.5, 0, 0, r=0.5)
    s = d.dmd_state.astype(float)
    c.append(s)
c = np.array(c); m = c.mean(0)
v = c.var(0); ok = (v[:4] > .02) & (v[4:] > .02)
cov = ((c[:, :4] - m[:4]) * (c[:, 4:] - m[4:])).mean(0)
r = (cov[ok] / np.sqrt(v[:4][ok] * v[4:][ok])).mean()
need(abs(r) < 0.09, "upper and lower half are correlated: %.2f" % r)
""")

plant("ifta-window-odd", "C12",
      [("pySLM2/_lib.py", "    signal_window = tf.signal.ifftshift(signal_window)\n    step = 0.5", "    signal_window = tf.signal.fftshift(signal_window)\n    step = 0.5")],
      "method 'ifta' on a device with an odd number of rows or columns", "the signal window is off by a pixel",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.0, 0.3, 21, 17, 1e-5)
rng = np.random.default_rng(3)
t = rng.normal(size=(17, 21)) + 1j * rng.normal(size=(17, 21))
w = (rng.random((17, 21)) < .4).astype(float)
inp = np.ones((17, 21))
d.calculate_dmd_state(inp, t, method="ifta", signal_window=w, N=6, s=2.5)
got = d.dmd_state


def reference():
    d2 = P.DMD(700e-9, 0.2, 4.0, 0.3, 21, 17, 1e-5)
    d2.calculate_dmd_state(inp, t, method="ideal")
    g = 2.5 * d2.dmd_state.astype(complex); ideal = np.fft.ifft2(g); W = np.fft.ifftshift(w); u = g.real
    for k in range(6):
        th = (k + 1) * 0.5 / 6
        b = np.where(u > 1 - th, 1, u); b = np.where(u < th, 0, b)
        f = np.fft.ifft2(b); f = (ideal - f) * W + f
        u = np.fft.fft2(f).real
    return u > 0.5


need(np.mean(got != reference()) < 0.03, "another state than the documented rounds give: %.2f" % np.mean(got != reference()))
""")

plant("gs-target-odd", "C13",
      [("pySLM2/_lib.py", """    target_amp_profile = tf.signal.ifftshift(target_amp_profile)
    target_amp_profile = tf.cast(target_amp_profile, dtype=BACKEND.dtype_complex)

    for _ in""", """    target_amp_profile = tf.signal.fftshift(target_amp_profile)
    target_amp_profile = tf.cast(target_amp_profile, dtype=BACKEND.dtype_complex)

    for _ in""")],
      "a device with an odd number of rows or columns", "the image of a gs hologram appears a pixel off",
      HEAD + """
g = P.LCOS_SLM(700e-9, 0.2, 25, 21, 1e-5)
x, y = g.image_plane_grid
s = 700e-9 * 0.2 / (25 * 1e-5)
t = np.zeros((21, 25)); t[6:9, 15:19] = 1
inp = np.ones((21, 25))
g.calculate_hologram(inp, t, N=100)
sim = P.SLMSimulation(g); sim.propagate_to_image(inp)
I = sim.image_plane_intensity
need(I[t > 0].sum() > 0.75 * I.sum(), "only %.2f of the light where it was asked for" % (I[t > 0].sum() / I.sum()))
""")

plant("mraf-soft-window", "C14",
      [("pySLM2/_lib.py", "    inverse_signal_window = 1 - signal_window\n", "    inverse_signal_window = tf.cast(signal_window == 0.0, dtype=BACKEND.dtype_complex)\n")],
      "a signal window with values between 0 and 1", "light in the soft rim of the window is lost between rounds",
      HEAD + """
import tensorflow as tf
g = P.LCOS_SLM(700e-9, 0.2, 12, 10, 1e-5)
rng = np.random.default_rng(0)
start = rng.random((10, 12))
tf.random.uniform = lambda shape, minval=0, maxval=None, dtype=tf.float32, seed=None, name=None: tf.constant(start, dtype=dtype)
A = np.ones((10, 12)); T = rng.random((10, 12)); w = np.full((10, 12), 0.5)
g.calculate_hologram(A, T, method="mraf", signal_window=w, N=1, mixing_factor=0.4)
E = np.fft.ifft2(A * np.exp(2j * np.pi * start))
C = 0.4 * np.fft.ifftshift(T) * np.exp(1j * np.angle(E)) * 0.5 + 0.6 * E * 0.5
want = np.fft.fft2(C)
need(np.max(np.abs(np.exp(1j * g.slm_state) - want / np.abs(want))) < 1e-2, "not the phase of the documented round")
""")

plant("padding-odd", "C15",
      [("pySLM2/simulation.py", "        _image_plane_field_unormalized = tf.signal.fftshift(\n            _lib._inverse_fourier_transform(tf.signal.ifftshift(output_field)))",
        "        _image_plane_field_unormalized = tf.signal.ifftshift(\n            _lib._inverse_fourier_transform(tf.signal.fftshift(output_field)))")],
      "a device with an odd number of rows or columns", "the image plane field is moved by a pixel and carries a phase ramp",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.0, 0.3, 9, 7, 1e-5); d.set_dmd_state_on()
s = P.DMDSimulation(d, 1, 2); s.propagate_to_image(np.ones((7, 9)))
I = s.image_plane_intensity
k = np.unravel_index(np.argmax(I), I.shape)
x, y = s.image_plane_padded_grid
need(abs(x[k]) < 1e-9 and abs(y[k]) < 1e-9, "a plane wave is not focused on the axis")
""")

plant("state-cached", "C16",
      [("pySLM2/slm.py", "        return tf.constant(self.dmd_state, dtype=BACKEND.dtype_complex)\n",
        "        # converting a full frame is slow, keep the tensor as long as the state is the same array\n        if getattr(self, \"_tensor_of\", None) is not self.dmd_state:\n            self._tensor_of = self.dmd_state\n            self._tensor = tf.constant(self.dmd_state, dtype=BACKEND.dtype_complex)\n        return self._tensor\n")],
      "editing the state array in place between two propagations", "the second propagation still uses the state of the first",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.0, 0.3, 8, 6, 1e-5); d.set_dmd_state_on()
s = P.DMDSimulation(d); s.propagate_to_image(np.ones((6, 8)))
d.dmd_state[:, :4] = False
s.propagate_to_image(np.ones((6, 8)))
need(np.all(s.output_field[:, :4] == 0), "output field of an old state")
""")

plant("patch-centre-rounded", "C17",
      [("pySLM2/slm.py", "        mask = self._circular_mask(i, j, pix_ii, pix_jj, d)\n", "        mask = self._circular_mask(int(i), int(j), pix_ii, pix_jj, d)\n")],
      "a patch whose centre lies between mirrors", "the patch is moved to a whole mirror",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.0, 0.3, 12, 10, 1e-5)
d.set_dmd_state_on()
d.circular_patch(4.5, 5.5, 0.0, 0, 0, 4.0, method="ideal")
ii, jj = np.indices((10, 12))
need(np.array_equal(d.dmd_state == 0, (ii - 4.5) ** 2 + (jj - 5.5) ** 2 < 4), "other mirrors")
""")

plant("rows-padded", "C18",
      [("pySLM2/slm.py", "packed_bits = np.packbits(self.dmd_state)\n", "packed_bits = np.packbits(self.dmd_state, axis=1)\n")],
      "a device whose number of columns is not a multiple of 8", "each row is padded to whole bytes",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.0, 0.3, 12, 10, 1e-5)
d.dmd_state = np.random.default_rng(1).random((10, 12)) < 0.5
b = np.unpackbits(np.frombuffer(d.pack_dmd_state(), np.uint8))[:120].astype(bool)
need(np.array_equal(b.reshape(10, 12), d.dmd_state), "unpacking gives another state")
""")

plant("rotate-single", "C19",
      [("pySLM2/profile.py", "        # TODO: verify the theta direction (CW or CCW for positive theta?)\n        theta = tf.constant(theta, dtype=BACKEND.dtype)\n",
        "        # TODO: verify the theta direction (CW or CCW for positive theta?)\n        theta = tf.cast(tf.constant(theta, dtype=tf.float32), dtype=BACKEND.dtype)\n")],
      "64 bit precision and a rotation", "the angle is rounded to single precision",
      """
import sys
import numpy as np
import pySLM2 as P
P.BACKEND.dtype = P.BACKEND.TENSOR_64BITS
x = np.linspace(-2, 2, 9)
p = P.HermiteGaussian(0.5, 0.2, 1.0, 1.0)
a = p.rotate(0.7)(x, 0.3 + 0 * x); b = p(np.cos(0.7) * x - np.sin(0.7) * 0.3, np.sin(0.7) * x + np.cos(0.7) * 0.3)
if np.max(np.abs(a - b)) > 1e-12:
    print("BROKEN: off by", np.max(np.abs(a - b))); sys.exit(1)
""")

plant("trivial-in-place", "C20",
      [("pySLM2/analysis.py", "        profile = profile - c * z\n", "        profile -= c * z\n")],
      "using the phase map again after its trivial terms were removed", "the caller's map is modified",
      HEAD + """
a = np.random.default_rng(1).normal(size=(20, 20)) + 3
b = a.copy()
P.analysis.remove_trivial_phase(a, 9.0) if hasattr(P, "analysis") else P.remove_trivial_phase(a, 9.0)
need(np.array_equal(a, b), "the map was modified")
""")

plant("grid-arrays-cached", "C21",
      [("pySLM2/slm.py", """        x, y = self._image_plane_grid()
        return np.array(x), np.array(y)
""", """        if not hasattr(self, "_image_plane_arrays"):
            self._image_plane_arrays = tuple(np.array(t) for t in self._image_plane_grid())
        return self._image_plane_arrays
""")],
      "a caller who overwrites the returned grid", "the next reader gets the overwritten grid",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.0, 0.3, 12, 10, 1e-5)
x, y = d.image_plane_grid
k = x.copy()
x -= 1.0
need(np.array_equal(d.image_plane_grid[0], k), "the grid was overwritten")
""")

plant("image-grid-shared", "C22",
      [("pySLM2/slm.py", """    @lru_cache()
    def _image_plane_grid(self):
        kx_atom""", """    _image_plane_grids = {}

    def _image_plane_grid(self):
        key = (self.Nx, self.Ny, self._pixel_size, self.wavelength)
        if key not in SLM._image_plane_grids:
            SLM._image_plane_grids[key] = self._calculate_image_plane_grid()
        return SLM._image_plane_grids[key]

    def _calculate_image_plane_grid(self):
        kx_atom""")],
      "two devices that differ in the focal length only", "the second one gets the image plane grid of the first",
      HEAD + """
a = P.DMD(700e-9, 0.2, 4.0, 0.3, 12, 10, 1e-5); xa = a.image_plane_grid[0]
b = P.DMD(700e-9, 0.4, 4.0, 0.3, 12, 10, 1e-5); xb = b.image_plane_grid[0]
need(np.allclose(2 * xa, xb, atol=1e-9), "same grid for another focal length")
""")

plant("signal-window-default", "C23",
      [("pySLM2/slm.py", """            kwargs["signal_window"] = self.profile_to_tensor(kwargs["signal_window"], at_fourier_plane=False,
                                                             complex=True)""",
        """            kwargs["signal_window"] = self.profile_to_tensor(kwargs.get("signal_window", 1.0), at_fourier_plane=False,
                                                             complex=True)""")],
      "method 'ifta' without the required signal window", "a result instead of an error",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.0, 0.3, 12, 10, 1e-5)
t = np.zeros((10, 12)); t[4:7, 5:8] = 1.0
try:
    d.calculate_dmd_state(np.ones((10, 12)), t, method="ifta", N=3)
except Exception:
    sys.exit(0)
need(False, "no error")
""")

plant("state-released-early", "C23",
      [("pySLM2/slm.py", "        # TODO mask the array before passing them into the function\n        dmd_state = np.array(",
        "        # start from a copy in the type of the result\n        if method == \"ideal\" and self.dmd_state.dtype == bool:\n            self.dmd_state = self.dmd_state.astype(BACKEND.dtype.as_numpy_dtype)\n\n        # TODO mask the array before passing them into the function\n        dmd_state = np.array(")],
      "a grey circular patch on a binary state that fails (e.g. out of memory in the transform)", "the state has changed its type although the call failed: it can no longer be packed",
      HEAD + """
import tensorflow as tf
from pySLM2 import _lib
d = P.DMD(700e-9, 0.2, 4.0, 0.3, 12, 10, 1e-5); d.set_dmd_state_on()


def broken(*a, **k): raise MemoryError()


for name in ("calculate_dmd_grating", "_calculate_dmd_grating_ideal"):
    if hasattr(_lib, name): setattr(_lib, name, broken); break
try:
    d.circular_patch(3, 3, 1.0, 0, 0, 4, method="ideal"); need(False, "no fault")
except MemoryError: pass
need(d.dmd_state.dtype == bool, "the state changed"); d.pack_dmd_state()
""")

plant("grid-cache-race", "C24",
      [("pySLM2/slm.py", """    @lru_cache()
    def _fourier_plane_grid(self) -> Tuple[tf.Tensor, tf.Tensor]:
        pix_ii, pix_jj = self._fourier_plane_pixel_grid()
        return self._convert_pixel_index_to_dmd_coordinate(pix_ii, pix_jj)
""", """    _grid_key = None
    _grid = None

    def _fourier_plane_grid(self) -> Tuple[tf.Tensor, tf.Tensor]:
        # one grid is enough: programs use one device at a time
        key = (self.Nx, self.Ny, self.pixel_size)
        if SLM._grid_key != key:
            pix_ii, pix_jj = self._fourier_plane_pixel_grid()
            SLM._grid = self._convert_pixel_index_to_dmd_coordinate(pix_ii, pix_jj)
            SLM._grid_key = key
        return SLM._grid
""")],
      "two threads with devices of different geometry, one switched out between checking the key and returning the grid", "a thread gets the grid of the other thread's device",
      HEAD + """
import random, threading, time
sys.setswitchinterval(1e-6)
bad = []


def noise(frame, event, arg):
    # let another thread in at many lines of the library
    if "pySLM2" not in frame.f_code.co_filename: return None
    if event == "line" and random.random() < .3: time.sleep(1e-4)
    return noise


def work(n, pix):
    sys.settrace(noise)
    try:
        d = P.DMD(700e-9, 0.2, 4.0, 0.3, n, 10, pix)
        for _ in range(400):
            if bad: return
            x, y = d.fourier_plane_grid
            if x.shape != (10, n) or abs(x[0, 0] + n / 2 * pix) > 1e-9: bad.append(n)
    except Exception as e: bad.append(repr(e))
    finally: sys.settrace(None)


ts = [threading.Thread(target=work, args=(12 + k, 1e-5)) for k in range(4)]
[t.start() for t in ts]; [t.join() for t in ts]
need(not bad, "threads got the grid of another device")
""")

plant("initialized-early", "C25",
      [("pySLM2/util/controller.py", "    def initialize(self): \n        seq = ", "    def initialize(self): \n        super(LuxbeamController, self).initialize()\n        seq = "),
       ("pySLM2/util/controller.py", "        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RESET, Luxbeam.DISABLE)\n\n        super(LuxbeamController, self).initialize()\n",
        "        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RESET, Luxbeam.DISABLE)\n")],
      "an initialization that fails at a call to the device", "the controller counts as initialized",
      """
import sys, types
class Dev:
    cols, rows = 8, 6
    def __init__(self, *a, **k): pass
    def __getattr__(self, n):
        def f(*a, **k): raise OSError("timeout")
        return f
from unittest.mock import MagicMock
m = MagicMock(); m.Luxbeam = Dev
sys.modules["Luxbeam"] = m
from pySLM2.util import LuxbeamController
c = LuxbeamController("10.0.0.1")
try:
    c.initialize()
except OSError: pass
if c.is_initialized():
    print("BROKEN: counts as initialized"); sys.exit(1)
""")

plant("single-list", "C26",
      [("pySLM2/util/controller.py", "            The dtype must be bool and have the same dimension as the DMD.\n        \"\"\"\n        # Prepare the dmd in available state\n        self.alp.Halt()\n\n        # Release the onboard memory of the previous image sequence\n        self._free_last_seq()\n\n        # Set to slave mode",
        "            The dtype must be bool and have the same dimension as the DMD.\n        \"\"\"\n        if len(dmd_states) == 1:\n            return self.load_single(dmd_states[0])\n\n        # Prepare the dmd in available state\n        self.alp.Halt()\n\n        # Release the onboard memory of the previous image sequence\n        self._free_last_seq()\n\n        # Set to slave mode")],
      "load_multiple with a list of one image", "the image is shown at once instead of on the trigger",
      """
import sys
from unittest.mock import MagicMock
m = MagicMock(); m.ALP_SLAVE = "slave"; m.ALP_MASTER = "master"; m.ALP_PROJ_MODE = "mode"
sys.modules["ALP4"] = m
import numpy as np
from pySLM2.util import ALPController
c = ALPController(); c.initialize()
c.load_multiple([np.ones((6, 8), bool)])
modes = [a.args[1] for a in c.alp.ProjControl.call_args_list if a.args[0] == "mode"]
if not modes or modes[-1] != "slave":
    print("BROKEN: not waiting for the trigger:", modes); sys.exit(1)
""")

plant("upload-skipped", "C27",
      [("pySLM2/util/controller.py", """        for i, dmd_state in enumerate(dmd_states):
            self.luxbeam.load_image(i, dmd_state)
""", """        # the network is slow, do not send again what the device already has
        sent = getattr(self, "_sent", {})
        for i, dmd_state in enumerate(dmd_states):
            content = np.asarray(dmd_state).tobytes()
            if sent.get(i) != content:
                self.luxbeam.load_image(i, dmd_state)
                sent[i] = content
        self._sent = sent
""")],
      "load_multiple, load_single of another image, load_multiple with the same first image as before", "the first image shown is that of load_single",
      """
import sys
import numpy as np
from unittest.mock import MagicMock
m = MagicMock(); sys.modules["Luxbeam"] = m
memory = {}
m.Luxbeam.return_value.load_image.side_effect = lambda i, im: memory.__setitem__(i, np.array(im))
from pySLM2.util import LuxbeamController
c = LuxbeamController("10.0.0.1"); c.initialize()
a, b, s = np.zeros((6, 8), bool), np.ones((6, 8), bool), np.eye(6, 8).astype(bool)
c.load_multiple([a, b]); c.load_single(s); c.load_multiple([a, b])
if not np.array_equal(memory[0], a):
    print("BROKEN: the first image is another"); sys.exit(1)
""")

plant("image-cached", "C28",
      [("pySLM2/util/sample.py", "import os\n", "import os\nfrom functools import lru_cache\n"),
       ("pySLM2/util/sample.py", "def number_image(i, Nx: int, Ny: int):", "@lru_cache()\ndef number_image(i, Nx: int, Ny: int):")],
      "a caller who overwrites an image, then asks for the same number again", "the overwritten image comes back",
      """
import sys
import numpy as np
from pySLM2.util import number_image
a = number_image(7, 40, 30); k = a.copy()
a[...] = ~a
if not np.array_equal(number_image(7, 40, 30), k):
    print("BROKEN: the image of 7 changed"); sys.exit(1)
""")
