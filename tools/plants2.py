"""Second round of planted bugs."""
from plants import plant, HEAD

plant("super-gaussian-clip", "C01",
      [("pySLM2/profile.py", "        return self._a * tf.exp(-(x_norm ** 2 + y_norm ** 2)**self._p)",
        "        # exp(-100) is zero in both precisions, avoid the overflow of large powers\n        return self._a * tf.exp(-tf.minimum(x_norm ** 2 + y_norm ** 2, 100.0)**self._p)")],
      "a super-Gaussian of small power (below 1/2) evaluated beyond ten widths", "the tail stays at its value at ten widths",
      HEAD + """
v = P.SuperGaussian(0, 0, 1.0, 1.0, 0.25)(np.array([5.0, 50.0]), np.array([0.0, 0.0]))
need(np.allclose(v, np.exp(-np.sqrt(np.array([5.0, 50.0]))), rtol=1e-4), "tail %s" % v)
""")

plant("zernike-int-factorial", "C02",
      [("pySLM2/profile.py", "from scipy.special import hermite, factorial, genlaguerre", "from scipy.special import hermite, genlaguerre"),
       ("pySLM2/profile.py", '__all__ = ["FunctionProfile",', '''def factorial(n):
    """factorials of the radial polynomials, in integers: no rounding"""
    return np.prod(np.arange(1, int(n) + 1, dtype=np.int64))


__all__ = ["FunctionProfile",''')],
      "a Zernike polynomial of radial order above 20", "the factorials overflow: coefficients of high orders are wrong",
      HEAD + """
P.BACKEND.dtype = P.BACKEND.TENSOR_64BITS
v = P.Zernike(1.0, 1.0, 24, 0, normalize=False)(np.array([0.0, 1.0, 0.3]), np.array([0.0, 0.0, 0.0]))
need(abs(v[0] - 1) < 1e-6 and abs(v[1] - 1) < 1e-4 and abs(v[2]) < 1, "R_24^0 = %s" % v)
""")

plant("circle-by-box", "C03",
      [("pySLM2/window.py", "        return tf.cast((x - self._x0) ** 2 + (y - self._y0) ** 2 <= self._r ** 2, BACKEND.dtype)",
        """        # relative to the radius: squares of very small or large lengths leave the range of the type
        u, v = (x - self._x0) / self._r, (y - self._y0) / self._r
        return tf.cast(u ** 2 + v ** 2 <= 1.0, BACKEND.dtype)""")],
      "a point exactly on the rim, whose normalised coordinates round up (or radius zero)", "points on the rim fall outside",
      HEAD + """
P.BACKEND.dtype = P.BACKEND.TENSOR_64BITS
bad = 0
for k in range(1, 20):
    for a, b, c in ((3, 4, 5), (5, 12, 13), (8, 15, 17), (7, 24, 25), (20, 21, 29)):
        w = P.RectangularWindowCircular(0.0, 0.0, float(c * k))
        bad += float(w(np.array([float(a * k)]), np.array([float(b * k)]))[0]) != 1.0
need(bad == 0, "%d points on the rim are outside" % bad)
""")

plant("division-no-nan", "C04",
      [("pySLM2/profile.py", """        func_profile._func = self._make_attribute_func("__truediv__", other)
        return func_profile""", """        quotient = self._make_attribute_func("__truediv__", other)
        if isinstance(other, FunctionProfile):
            def func(x, y):
                # dark regions of the divisor
                q = quotient(x, y)
                return tf.where(tf.math.is_finite(tf.math.abs(q)), q, tf.zeros_like(q))
            func_profile._func = tf.function(func)
        else:
            func_profile._func = quotient
        return func_profile""")],
      "a quotient of profiles at a point where the divisor is zero", "0 instead of infinity",
      HEAD + """
with np.errstate(all="ignore"):
    v = (P.HermiteGaussian(0, 0, 1.0, 1.0) / P.RectangularWindowRectangle(0, 0, 1.0, 1.0))(np.array([0.0, 2.0]), np.array([0.0, 0.0]))
need(np.isinf(v[1]), "1/0 gave %s" % v)
""")

plant("complex-form-real", "C05",
      [("pySLM2/profile.py", """        func_profile._func = tf.function(func=lambda x, y: tf.exp(1j*tf.cast(self._func(x, y),
                                                                             dtype=BACKEND.dtype_complex)))""",
        """        def func(x, y):
            # sine and cosine are faster than the complex exponential
            phase = tf.math.real(self._func(x, y))
            return tf.complex(tf.cos(phase), tf.sin(phase))

        func_profile._func = tf.function(func)""")],
      "the complex form of a profile that is itself complex", "the imaginary part (an attenuation) is lost",
      HEAD + """
p = P.ConstantProfile(0.5 + 1.0j) * P.HermiteGaussian(0, 0, 1.0, 1.0)
v = p.as_complex_profile()(np.array([0.0]), np.array([0.0]))
need(np.allclose(v, np.exp(1j * (0.5 + 1.0j)), atol=1e-5), "exp(i*value) is %s" % v)
""")

plant("setter-isclose", "C06",
      [("pySLM2/profile.py", "    @w.setter\n    def w(self, value):\n        self._w.assign(value)\n\n    @property\n    def n(self):",
        "    @w.setter\n    def w(self, value):\n        if not np.isclose(float(value), float(self._w)):  # nothing to do\n            self._w.assign(value)\n\n    @property\n    def n(self):")],
      "a change of a width in metres that is smaller than 1e-8 in absolute terms, or a few 1e-6 relative", "the assignment is ignored",
      HEAD + """
p = P.HermiteGaussian(0.0, 0.0, 1.0, 5e-9)
p.w = 9e-9
v = p(np.array([9e-9]), np.array([0.0]))
need(np.allclose(v, np.exp(-1), rtol=1e-3), "width still %g" % float(p.w))
""")

plant("padding-one-side", "C07",
      [("pySLM2/simulation.py", """        x, y = self._image_plane_padded_grid()
        return np.array(x), np.array(y)""", """        if not (self._padding_x and self._padding_y):
            return self._slm.image_plane_grid
        x, y = self._image_plane_padded_grid()
        return np.array(x), np.array(y)""")],
      "a simulation padded in one direction only", "it reports the image plane grid of the unpadded device",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.0, 0.3, 12, 10, 1e-5)
s = P.DMDSimulation(d, padding_x=5)
need(s.image_plane_padded_grid[0].shape == (s.Ny, s.Nx), "grid of shape %s for %d x %d" % (s.image_plane_padded_grid[0].shape, s.Ny, s.Nx))
""")

plant("number-single", "C08",
      [("pySLM2/slm.py", "            tensor = tf.constant(profile, dtype=tensor_dtype)\n        if", "            tensor = tf.convert_to_tensor(profile)\n        if")],
      "64 bit precision and a Python number or list", "the number passes through single precision",
      HEAD + """
P.BACKEND.dtype = P.BACKEND.TENSOR_64BITS
d = P.DMD(700e-9, 0.2, 4.0, 0.3, 12, 10, 1e-5)
v = np.array(d.profile_to_tensor(0.1, complex=True))
need(v[0, 0] == 0.1, "0.1 became %r" % v[0, 0])
""")

plant("dark-threshold", "C09",
      [("pySLM2/slm.py", "        amp_in = tf.math.abs(input_profile)\n", "        amp_in = tf.math.abs(input_profile)\n        amp_in = tf.where(amp_in < 1e-6, tf.zeros_like(amp_in), amp_in)  # noise floor\n")],
      "an input beam of small amplitude (below 1e-6 in the units used)", "mirrors in its light are taken for dark",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.0, 0.3, 12, 10, 1e-5)
t = np.zeros((10, 12)); t[5, 6] = 1.0
d.calculate_dmd_state(1.0, t, method="ideal"); a = np.array(d.dmd_state)
d.calculate_dmd_state(1e-7, t, method="ideal"); b = np.array(d.dmd_state)
need(np.allclose(a, b, atol=1e-3), "the hologram depends on the unit of the input")
""")

plant("origin-quadrant", "C10",
      [("pySLM2/slm.py", "        origin_y = np.sin(self.theta) * self.scaling_factor / float(self._p.value())",
        "        # the grating repeats after half a turn\n        origin_y = np.sin(np.mod(self.theta + np.pi / 2, np.pi) - np.pi / 2) * self.scaling_factor / float(self._p.value())")],
      "a grating angle beyond 90 degrees (or below -90)", "the first order origin is mirrored",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.0, 2.5, 12, 10, 1e-5)
need(d.first_order_origin[1] > 0, "origin %s" % (d.first_order_origin,))
""")

plant("half-draws", "C11",
      [("pySLM2/_lib.py", "    threshold = tf.random.uniform(shape=grating.shape, dtype=BACKEND.dtype)\n    grating = (grating > threshold)",
        "    # half precision draws are plenty for one bit of result\n    threshold = tf.cast(tf.random.uniform(shape=grating.shape, dtype=tf.float16), BACKEND.dtype)\n    grating = (grating > threshold)")],
      "mirrors whose probability is far below 1/1000", "they are on in one of 1024 calls",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.0, 0.3, 400, 300, 1e-5)
n = 0
for _ in range(10):
    d.set_dmd_grating_state(1e-7, 0, 0, method="random"); n += int(np.sum(d.dmd_state))
need(n <= 5, "%d mirrors on, expected fewer than one" % n)
""")

plant("zero-draw", "C11",
      [("pySLM2/_lib.py", "    grating = (grating > threshold)", "    grating = (grating >= threshold)")],
      "a draw of exactly 0, one in eight million", "a mirror of zero amplitude is on",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.0, 0.3, 3000, 3000, 1e-5)
n = 0
for _ in range(40):
    d.set_dmd_grating_state(0, 0, 0, method="random"); n += int(np.sum(d.dmd_state))
    if n: break
need(n == 0, "%d mirrors of zero amplitude are on" % n)
""")

plant("ifta-early-stop", "C12",
      [("pySLM2/_lib.py", "        grating_binarized = _ifta_binarize_hologram(grating_unbinarized, (i+1) * step)\n",
        "        grating_binarized = _ifta_binarize_hologram(grating_unbinarized, (i+1) * step)\n        if i > 0 and tf.reduce_all(grating_binarized == grating_unbinarized):\n            break  # nothing left to binarize\n")],
      "a round after the first in which no value lies within its thresholds (a flat grating whose grey levels keep away from 0 and 1)", "the later rounds, with wider thresholds, are skipped",
      HEAD + """
import tensorflow as tf
bad = 0
for ph, p, nx, ny, r0, r1, c0, c1, A in ((-2.654691893098084, 3.0, 12, 8, 5, 6, 6, 8, 0.8), (-2.862842530286721, 2.5, 12, 8, 5, 6, 6, 8, 0.9), (2.3947278492598194, 2.5, 7, 6, 0, 1, 3, 6, 0.9)):
    W = np.zeros((ny, nx)); W[r0:r1 + 1, c0:c1 + 1] = 1.0
    N = 60
    d = P.DMD(700e-9, 0.2, p, np.pi / 2, nx, ny, 1e-5)
    d.set_dmd_grating_state(A, 0.0, ph, method="ifta", N=N, input_profile=tf.ones((ny, nx), tf.complex64), signal_window=tf.constant(W, tf.complex64))
    # the rounds as documented, in double precision
    x, y = np.meshgrid(np.arange(nx) - nx / 2, ny / 2 - np.arange(ny))
    g = A * (1 + np.cos(2 * np.pi / p * y - ph)) / 2
    ideal = np.fft.ifft2(g)
    for k in range(1, N + 1):
        th = k / (2 * N)
        f = np.fft.ifft2(np.where(g > 1 - th, 1.0, np.where(g < th, 0.0, g)))
        f = (ideal - f) * np.fft.ifftshift(W) + f
        g = np.fft.fft2(f).real
    bad = max(bad, np.mean((d.dmd_state != (g > 0.5))[np.abs(g - 0.5) > 0.02]))
need(bad < 0.2, "%.0f %% of the mirrors differ from the documented rounds" % (100 * bad))
""")

plant("gs-sign-lost", "C13",
      [("pySLM2/_lib.py", """    # The hologram is the phase added to the phase the input profile already has.
    input_phase = tf.cast(tf.math.angle(input_profile), dtype=BACKEND.dtype_complex)

    target_amp_profile = tf.signal.ifftshift(target_amp_profile)
    target_amp_profile = tf.cast(target_amp_profile, dtype=BACKEND.dtype_complex)

    for _ in tf.range(N):""", """    # The hologram is the phase added to the phase the input profile already has.
    input_phase = tf.math.atan(tf.math.divide_no_nan(tf.math.imag(input_profile), tf.math.real(input_profile)))
    input_phase = tf.cast(input_phase, dtype=BACKEND.dtype_complex)

    target_amp_profile = tf.signal.ifftshift(target_amp_profile)
    target_amp_profile = tf.cast(target_amp_profile, dtype=BACKEND.dtype_complex)

    for _ in tf.range(N):""")],
      "an input beam with negative real part somewhere (a sign change, a phase beyond 90 degrees)", "the hologram is wrong by pi there",
      HEAD + """
s = P.LCOS_SLM(700e-9, 0.2, 32, 32, 1e-5)
x, y = s.image_plane_grid
t = np.exp(-(x ** 2 + y ** 2) / (6 * abs(x[0, 1] - x[0, 0])) ** 2)
xs, ys = s.fourier_plane_grid
beam = np.exp(2.5j * np.cos(9e4 * np.array(xs) + 5e4 * np.array(ys))).astype(np.complex64)
s.calculate_hologram(beam, t, method="gs", N=60)
sim = P.SLMSimulation(s); sim.propagate_to_image(beam)
a = np.abs(sim.image_plane_field)
c = float(np.sum(a * t) / np.sqrt(np.sum(a ** 2) * np.sum(t ** 2)))
need(c > 0.95, "overlap with the target %.3f" % c)
""")

plant("mixing-zero", "C14",
      [("pySLM2/_lib.py", 'mixing_factor = kwargs.get("mixing_factor", 0.4)', 'mixing_factor = kwargs.get("mixing_factor") or 0.4')],
      "a mixing factor of exactly 0", "the default 0.4 is used instead",
      HEAD + """
import tensorflow as tf
s = P.LCOS_SLM(700e-9, 0.2, 16, 12, 1e-5)
t = np.zeros((12, 16)); t[5:8, 7:10] = 1.0
W = np.zeros((12, 16)); W[3:10, 5:12] = 1.0


def run(m):
    tf.random.set_seed(7); s.calculate_hologram(1.0, t, method="mraf", N=3, signal_window=W, mixing_factor=m)
    return np.array(s.slm_state)


need(np.abs(np.exp(1j * run(0.0)) - np.exp(1j * run(1e-6))).max() < 0.1, "a mixing factor of 0 is not the limit of small ones")
""")

plant("phase-wrapped-8bit", "C15",
      [("pySLM2/slm.py", "        return tf.exp(1j *tf.cast(self.slm_state, dtype=BACKEND.dtype_complex))",
        "        phase = np.mod(np.real(self.slm_state), 2 * np.pi).astype(np.float32)  # one period is enough\n        return tf.exp(1j *tf.cast(phase, dtype=BACKEND.dtype_complex))")],
      "64 bit precision and a phase SLM", "the modulation is accurate to single precision only",
      HEAD + """
P.BACKEND.dtype = P.BACKEND.TENSOR_64BITS
s = P.LCOS_SLM(700e-9, 0.2, 8, 6, 1e-5)
s.slm_state = np.random.default_rng(1).uniform(-9, 9, (6, 8))
m = P.SLMSimulation(s); m.propagate_to_image(1.0)
need(np.allclose(m.output_field, np.exp(1j * s.slm_state), atol=1e-12, rtol=0), "error %g" % np.abs(m.output_field - np.exp(1j * s.slm_state)).max())
""")

plant("block-radius-zero", "C16",
      [("pySLM2/simulation.py", "        if r is None:\n", "        if not r:\n")],
      "blocking with radius 0", "the default radius is blocked instead of nothing",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.0, 0.3, 12, 10, 1e-5); d.set_dmd_state_on()
m = P.DMDSimulation(d); m.propagate_to_image(1.0)
k = m.image_plane_field
m.block_zeroth_order(0.0)
need(np.array_equal(k, m.image_plane_field), "radius 0 blocked something")
""")

plant("intensity-kept", "C16",
      [("pySLM2/simulation.py", "        return None if self._image_plane_field is None else self._field_to_intensity(self._image_plane_field)",
        """        if self._image_plane_field is None:
            return None
        if getattr(self, "_intensity_of", None) is not self._input_field:
            self._intensity_of = self._input_field
            self._intensity = self._field_to_intensity(self._image_plane_field)
        return self._intensity""")],
      "the image plane intensity read before and after blocking the zeroth order", "the intensity (and power) still contains the zeroth order",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.0, 0.3, 12, 10, 1e-5); d.set_dmd_state_on()
m = P.DMDSimulation(d); m.propagate_to_image(1.0)
m.image_plane_intensity
m.block_zeroth_order()
need(np.allclose(m.image_plane_intensity, np.abs(m.image_plane_field) ** 2), "intensity is not that of the field")
""")

plant("patch-box", "C17",
      [("pySLM2/slm.py", "        self.dmd_state = np.where(mask, dmd_state, self.dmd_state)",
        """        mask = np.array(mask)
        # only the box around the patch changes
        box = np.s_[int(np.floor(i - d / 2)):int(np.ceil(i + d / 2)) + 1, int(np.floor(j - d / 2)):int(np.ceil(j + d / 2)) + 1]
        state = self.dmd_state.astype(np.result_type(self.dmd_state, dmd_state))
        state[box] = np.where(mask[box], dmd_state[box], state[box])
        self.dmd_state = state""")],
      "a patch that reaches over the upper or left edge of the device", "the part on the device is not written (negative slice)",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.0, 0.3, 12, 10, 1e-5)
d.circular_patch(1, 6, 1.0, 0, 0, 8, method="ideal")
need(np.any(np.array(d.dmd_state) > 0), "nothing was written")
""")

plant("pack-memory-order", "C18",
      [("pySLM2/slm.py", "        packed_bits = np.packbits(self.dmd_state)\n", "        packed_bits = np.packbits(self.dmd_state.ravel(order=\"K\"))  # no copy\n")],
      "a state that is not in C order (a transposed image, a Fortran array)", "the bits come in the order of memory",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.0, 0.3, 12, 10, 1e-5)
s = np.random.default_rng(1).random((10, 12)) < 0.5
d.dmd_state = s; a = d.pack_dmd_state()
d.dmd_state = np.asfortranarray(s); b = d.pack_dmd_state()
need(a == b, "another packing for the same state")
""")

plant("complex-not-first-use", "C19",
      [("pySLM2/_backend.py", "    def dtype_complex(self):\n        self._initialized = True\n", "    def dtype_complex(self):\n")],
      "a first use that needs only the complex type (a complex constant), then a change of precision", "the change is accepted and objects of both precisions mix",
      HEAD + """
c = P.ConstantProfile(1.0 + 2.0j)
try:
    P.BACKEND.dtype = P.BACKEND.TENSOR_64BITS
except Exception:
    sys.exit(0)
need(c.c.dtype == P.BACKEND.dtype_complex, "the precision changed after the first use")
""")

plant("zero-excluded", "C20",
      [("pySLM2/analysis.py", """        c = np.mean(profile[aperture] * z[aperture])
        if verbose:
            print("n = {0}, m = {1}, coefficient = {2}".format(n, m, c))
        coefficients.append(c)""", """        inside = z != 0 if not extrapolate else aperture
        c = np.mean(profile[inside] * z[inside])
        if verbose:
            print("n = {0}, m = {1}, coefficient = {2}".format(n, m, c))
        coefficients.append(c)""")],
      "terms that vanish at pixels of the map: odd numbers of rows or columns", "the mean leaves those pixels out: coefficients too large",
      HEAD + """
import pySLM2.analysis as A
yy, xx = np.mgrid[-10:11, -10:11]
r = 9.0
m = 0.7 * P.Zernike(1.0, r, 1, 1)(xx, -yy)
c = A.zernike_decomposition(m, r, 3)
ap = xx ** 2 + yy ** 2 < r ** 2
want = np.mean((m * P.Zernike(1.0, r, 1, 1)(xx, -yy))[ap])
need(abs(c[2] - want) < 1e-4, "coefficient %g instead of %g" % (c[2], want))
""")

plant("blank-shared", "C21",
      [("pySLM2/slm.py", """        \"\"\" Reset dmd_state to be an array (Ny, Nx) of zeros.\"\"\"
        self.dmd_state = np.zeros((self.Ny, self.Nx), dtype=bool)""", """        \"\"\" Reset dmd_state to be an array (Ny, Nx) of zeros.\"\"\"
        self.dmd_state = self._blank_state()

    @lru_cache()
    def _blank_state(self):
        return np.zeros((self.Ny, self.Nx), dtype=bool)""")],
      "a state switched off, edited in place by the caller, and switched off again", "the mirrors the caller switched on stay on",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.0, 0.3, 12, 10, 1e-5)
d.set_dmd_state_off(); d.dmd_state[2, 3] = True
d.set_dmd_state_off()
need(not d.dmd_state.any(), "mirrors are on after switching off")
""")

plant("slm-equality", "C22",
      [("pySLM2/slm.py", "    @property\n    def scaling_factor(self):\n        return self._scaling_factor\n\n    @property\n    def Nx(self):",
        """    def __eq__(self, other):
        return isinstance(other, SLM) and self._key() == other._key()

    def __hash__(self):
        return hash(self._key())

    def _key(self):
        return type(self), self._Nx, self._Ny, self._pixel_size

    @property
    def scaling_factor(self):
        return self._scaling_factor

    @property
    def Nx(self):""")],
      "two devices of one model with different wavelength or focal length", "they are equal keys in the caches: the second gets the image plane grid of the first",
      HEAD + """
a = P.DMD(700e-9, 0.2, 4.0, 0.3, 12, 10, 1e-5); xa = a.image_plane_grid[0]
b = P.DMD(350e-9, 0.2, 4.0, 0.3, 12, 10, 1e-5); xb = b.image_plane_grid[0]
need(np.allclose(xa, 2 * xb, atol=1e-9), "same grid for another wavelength")
""")

plant("padding-float", "C23",
      [("pySLM2/simulation.py", "        if not isinstance(padding_y, int):\n            raise TypeError(\"padding_y must be an integer.\")",
        "        if padding_y != int(padding_y):\n            raise TypeError(\"padding_y must be an integer.\")\n        padding_y = int(padding_y)")],
      "a padding of type float (or str, which then fails in int) with an integer value", "it is accepted",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.0, 0.3, 12, 10, 1e-5)
for bad in (2.0, "2"):
    try:
        P.DMDSimulation(d, 0, bad)
    except TypeError: continue
    except Exception as e: need(False, repr(e))
    need(False, "padding %r accepted" % (bad,))
""")

plant("result-before-check", "C23",
      [("pySLM2/slm.py", """        self.slm_state = np.array(_lib.calculate_lcos_slm_hologram(input_profile, target_amp_profile, method=method,
                                                                   **kwargs))""",
        """        self.reset_slm_state()
        self.slm_state = np.array(_lib.calculate_lcos_slm_hologram(input_profile, target_amp_profile, method=method,
                                                                   **kwargs))""")],
      "an unknown method, or a fault in the transform, on a phase SLM that has a hologram", "the hologram is lost",
      HEAD + """
s = P.LCOS_SLM(700e-9, 0.2, 8, 6, 1e-5)
s.slm_state = np.ones((6, 8))
try:
    s.calculate_hologram(1.0, 1.0, method="nonsense"); need(False, "no error")
except ValueError: pass
need(np.array_equal(s.slm_state, np.ones((6, 8))), "the hologram is lost")
""")

plant("fft-buffer", "C24",
      [("pySLM2/_lib.py", "def _numpy_ifft2(profile_array):\n    transformed_array = np.fft.ifft2(profile_array)\n",
        """_buffers = {}


def _numpy_ifft2(profile_array):
    # work in double precision, without allocating each time
    buffer = _buffers.setdefault(profile_array.shape, np.empty(profile_array.shape, dtype=np.complex128))
    np.copyto(buffer, profile_array)
    transformed_array = np.fft.ifft2(buffer)
""")],
      "two threads that transform fields of the same shape at the same time", "one transforms the field of the other",
      HEAD + """
import threading
from pySLM2 import _lib
sys.setswitchinterval(1e-6)
bad = []


def work(k):
    d = P.DMD(700e-9, 0.2, 4.0, 0.3, 160, 120, 1e-5); d.set_dmd_state_on()
    m = P.DMDSimulation(d)
    first = None
    for _ in range(60):
        m.propagate_to_image(float(k + 1))
        f = np.abs(m.image_plane_field[60, 80])
        want = (k + 1) * 160 * 120 * 1e-10 / (700e-9 * 0.2)
        if abs(f - want) > 1e-3 * want: bad.append((k, f, want)); return


ts = [threading.Thread(target=work, args=(k,)) for k in range(6)]
[t.start() for t in ts]; [t.join() for t in ts]
need(not bad, "a thread got another thread's field: %s" % bad[:1])
""")

plant("initialized-class", "C25",
      [("pySLM2/util/controller.py", "    def initialize(self):\n        self._initialized = True\n", "    def initialize(self):\n        type(self)._initialized = True\n"),
       ("pySLM2/util/controller.py", "    def __init__(self, invert=False):\n        self._initialized = False\n        self.invert = invert", "    _initialized = False\n\n    def __init__(self, invert=False):\n        self.invert = invert")],
      "two controllers, one of them initialized", "the other one counts as initialized too",
      """
import sys
from unittest.mock import MagicMock
sys.modules["Luxbeam"] = MagicMock()
from pySLM2.util import LuxbeamController
a, b = LuxbeamController("10.0.0.1"), LuxbeamController("10.0.0.2")
a.initialize()
if b.is_initialized():
    print("BROKEN: the other controller counts as initialized"); sys.exit(1)
""")

plant("inversion-once", "C26",
      [("pySLM2/util/controller.py", "        if self.invert:\n            self.alp.ProjControl", "        if self.invert and not getattr(self, \"_inversion_set\", False):\n            self._inversion_set = True\n            self.alp.ProjControl")],
      "an inverting controller that is closed and initialized again", "the images of the second session are not inverted",
      """
import sys
from unittest.mock import MagicMock
m = MagicMock(); m.ALP_PROJ_INVERSION = "inv"
sys.modules["ALP4"] = m
from pySLM2.util import ALPController
c = ALPController(invert=True)
c.initialize(); c.close()
m.ALP4.return_value.ProjControl.reset_mock()
c.initialize()
if not any(a.args and a.args[0] == "inv" for a in m.ALP4.return_value.ProjControl.call_args_list):
    print("BROKEN: no inversion after initializing again"); sys.exit(1)
""")

plant("number-of-images-kept", "C27",
      [("pySLM2/util/controller.py", "        self.luxbeam.set_sequencer_reg(reg_no=0, reg_val=N)\n", "        if N != getattr(self, \"_n_images\", 1):\n            self.luxbeam.set_sequencer_reg(reg_no=0, reg_val=N)\n            self._n_images = N\n")],
      "load_multiple of N, load_single, load_multiple of N again", "only the first image is ever shown",
      """
import sys
import numpy as np
from unittest.mock import MagicMock
m = MagicMock(); sys.modules["Luxbeam"] = m
reg = {}
m.Luxbeam.return_value.set_sequencer_reg.side_effect = lambda reg_no=None, reg_val=None: reg.__setitem__(reg_no, reg_val)
from pySLM2.util import LuxbeamController
c = LuxbeamController("10.0.0.1"); c.initialize()
a, b = np.zeros((6, 8), bool), np.ones((6, 8), bool)
c.load_multiple([a, b]); c.load_single(a); c.load_multiple([b, a])
if reg[0] != 2:
    print("BROKEN: the sequencer shows", reg[0], "image"); sys.exit(1)
""")

plant("number-format", "C28",
      [("pySLM2/util/sample.py", "str(i), (1)", "\"{:g}\".format(i), (1)")],
      "a number of seven or more digits", "it is shown as 1.23457e+06",
      """
import sys
import numpy as np
from pySLM2.util import number_image
a, b = number_image(1234567, 600, 40), number_image(1234568, 600, 40)
if np.array_equal(a, b):
    print("BROKEN: same image for two numbers"); sys.exit(1)
""")
