"""Fourth round of planted bugs."""
from plants import plant, HEAD

D = "d = P.DMD(700e-9, 0.2, 4.3, 0.4, 24, 16, 1e-5)\n"

plant("power-zero", "C04",
      [("pySLM2/profile.py", "    def __pow__(self, power):\n", """    def __pow__(self, power):
        if isinstance(power, (int, float)) and power == 0:
            return ConstantProfile(1.0)  # whatever the base is
""")],
      "the zeroth power of a complex profile", "the result is real",
      HEAD + """
v = (P.LaguerreGaussian(0, 0, 1.0, 1.0, 1, 0) ** 0)(np.array([0.5, 0.7]), np.array([0.0, 0.1]))
need(np.iscomplexobj(v), "power zero of a complex profile is %s" % v.dtype)
""")

plant("integer-power", "C04",
      [("pySLM2/profile.py", "    def __pow__(self, power):\n        func_profile = FunctionProfile()\n", """    def __pow__(self, power):
        if isinstance(power, int) and power > 2:
            # by squaring
            half = self ** (power // 2)
            return half * half if power % 2 == 0 else half * half * self ** (power % 3)
        func_profile = FunctionProfile()
""")],
      "an odd integer power of five or more", "a factor is wrong",
      HEAD + """
p = P.ConstantProfile(1.5) + P.HermiteGaussian(0, 0, 0.0, 1.0)
for k in (2, 3, 4, 5, 6, 7):
    v = (p ** k)(np.array([0.3]), np.array([0.2]))
    need(np.allclose(v, 1.5 ** k, rtol=1e-4), "power %d gives %s" % (k, v))
""")

plant("shift-accumulate", "C05",
      [("pySLM2/profile.py", """        dx = tf.constant(dx, dtype=BACKEND.dtype)
        dy = tf.constant(dy, dtype=BACKEND.dtype)

        func_profile = FunctionProfile()
""", """        # all shifts of a moved profile at once, rounded once
        dx0, dy0 = getattr(self, "_moved", (0.0, 0.0))
        source = getattr(self, "_moved_from", self)
        dx = dx0 + dx
        dy = dy0 + dy
        func_profile = FunctionProfile()
        func_profile._moved_from, func_profile._moved = source, (dx, dy)
        self._moved = (dx0, dy0) if source is not self else (dx, dy)
        self, dx, dy = source, tf.constant(dx, dtype=BACKEND.dtype), tf.constant(dy, dtype=BACKEND.dtype)
""")],
      "two shifts of the same profile", "the second is counted from the first",
      HEAD + """
p = P.HermiteGaussian(0, 0, 1.0, 1.0)
a = p.shift(1.0, 0.0); b = p.shift(2.0, 0.0)
need(np.allclose(b(np.array([2.0]), np.array([0.0])), 1.0), "second shift")
""")

plant("tiny-rotation", "C05",
      [("pySLM2/profile.py", "        # TODO: verify the theta direction (CW or CCW for positive theta?)\n", """        # TODO: verify the theta direction (CW or CCW for positive theta?)
        if abs(theta) < 1e-3:
            return self.shift(0.0, 0.0)  # nothing to turn
""")],
      "a rotation by less than a thousandth of a turn", "the profile is not turned",
      HEAD + """
P.BACKEND.dtype = P.BACKEND.TENSOR_64BITS
p = P.HermiteGaussian(1000.0, 0, 1.0, 1.0)
v = p.rotate(-9e-4)(np.array([1000.0]), np.array([0.0]))
w = p(np.array([1000.0 * np.cos(9e-4)]), np.array([-1000 * np.sin(9e-4)]))
need(np.allclose(v, w), "turned by 0.9 mrad: %s, should be %s" % (v, w))
""")

plant("stream-per-steepness", "C11",
      [("pySLM2/_lib.py", "    threshold = tf.random.uniform(shape=grating.shape, dtype=BACKEND.dtype)\n", "    threshold = tf.random.uniform(shape=grating.shape, dtype=BACKEND.dtype, seed=int(grating.shape[0]))\n")],
      "random gratings of two processes in which nobody set a seed", "the second run of a program draws what the first one drew",
      HEAD + """
import os, subprocess
if len(sys.argv) > 1:
    d = P.DMD(700e-9, 0.2, 4.3, 0.4, 60, 40, 1e-5)
    d.set_dmd_grating_state(0.6, method="random", r=1.0)
    np.save(sys.argv[1], d.dmd_state)
    sys.exit(0)
import tempfile
with tempfile.TemporaryDirectory() as t:
    for k in (0, 1): subprocess.run([sys.executable, __file__, "%s/%d.npy" % (t, k)], check=True, env=dict(os.environ, PYTHONPATH=os.getcwd()))
    a, b = [np.load("%s/%d.npy" % (t, k)) for k in (0, 1)]
need(np.any(a != b), "two processes drew the same mirrors")
""")

plant("gs-rounds-capped", "C13",
      [("pySLM2/_lib.py", """    if method=="gs":
        N = kwargs.get("N", 200)
""", """    if method=="gs":
        N = min(kwargs.get("N", 200), 100)  # it does not get better after that
""")],
      "more than a hundred rounds", "the rounds beyond are left out",
      HEAD + """
from unittest import mock
d = P.LCOS_SLM(700e-9, 0.2, 24, 16, 1e-5)
t = P.HermiteGaussian(0, 0, 1.0, 2e-3, 1, 0)
n = {}
real = P._lib._calculate_lcos_slm_hologram_gs
count = [0]
fft = np.fft.ifft2
def counted(*a, **k):
    count[0] += 1
    return fft(*a, **k)
for N in (50, 200):
    count[0] = 0
    with mock.patch.object(np.fft, "ifft2", counted): d.calculate_hologram(1.0, t, N=N)
    n[N] = count[0]
need(n[200] - n[50] == 150 or n[50] == 0, "rounds done: %s" % n)
""")

plant("mraf-rounds-capped", "C14",
      [("pySLM2/_lib.py", """    elif method=="mraf":
        N = kwargs.get("N", 200)
""", """    elif method=="mraf":
        N = min(kwargs.get("N", 200), 100)  # it does not get better after that
""")],
      "more than a hundred rounds", "the rounds beyond are left out",
      HEAD + """
from unittest import mock
d = P.LCOS_SLM(700e-9, 0.2, 24, 16, 1e-5)
t = P.HermiteGaussian(0, 0, 1.0, 2e-3, 1, 0)
n = {}
count = [0]
fft = np.fft.ifft2
def counted(*a, **k):
    count[0] += 1
    return fft(*a, **k)
for N in (50, 200):
    count[0] = 0
    with mock.patch.object(np.fft, "ifft2", counted): d.calculate_hologram(1.0, t, method="mraf", signal_window=0.5, N=N)
    n[N] = count[0]
need(n[200] - n[50] == 150 or n[50] == 0, "rounds done: %s" % n)
""")

plant("ifta-rounds-capped", "C12",
      [("pySLM2/_lib.py", """        N = kwargs.get("N", 200)
        N = tf.constant(N, dtype=BACKEND.dtype_int)
        s = """, """        N = min(kwargs.get("N", 200), 500)
        N = tf.constant(N, dtype=BACKEND.dtype_int)
        s = """)],
      "more than 500 rounds", "the rounds beyond are left out, the thresholds rise faster",
      HEAD + """
from unittest import mock
d = P.DMD(700e-9, 0.2, 4.3, 0.4, 12, 8, 1e-5)
t = P.HermiteGaussian(0, 0, 1.0, 2e-3, 1, 0)
n = {}
count = [0]
fft = np.fft.ifft2
def counted(*a, **k):
    count[0] += 1
    return fft(*a, **k)
for N in (400, 800):
    count[0] = 0
    with mock.patch.object(np.fft, "ifft2", counted): d.calculate_dmd_state(1.0, t, method="ifta", signal_window=0.5, N=N)
    n[N] = count[0]
need(n[800] - n[400] == 400 or n[400] == 0, "rounds done: %s" % n)
""")

plant("results-registry", "C16",
      [("pySLM2/simulation.py", "        self._input_field = input_field\n", """        # only the latest results stay in memory
        _latest.append(self)
        if len(_latest) > 24:
            oldest = _latest.pop(0)
            if oldest not in _latest:
                oldest.clear()
        self._input_field = input_field
"""), ("pySLM2/simulation.py", "class SLMSimulation(object):\n", "_latest = []\n\n\nclass SLMSimulation(object):\n")],
      "results read after two dozen propagations of other simulations", "they are gone",
      HEAD + D + """
s = P.SLMSimulation(d); s.propagate_to_image(1.0)
for k in range(30):
    t = P.SLMSimulation(d); t.propagate_to_image(2.0)
need(s.input_field is not None, "the results are gone")
""")

plant("grid-ring", "C22",
      [("pySLM2/slm.py", """    @lru_cache()
    def _image_plane_grid(self):
""", """    def _image_plane_grid(self):
        # the grids of the 64 devices made last
        slot = self._number % 64
        if _grids[slot] is None or self._number > _grids[slot][0]:
            _grids[slot] = (self._number, self._make_image_plane_grid())
        return _grids[slot][1]

    def _make_image_plane_grid(self):
"""), ("pySLM2/slm.py", "        self._pixel_size = pixel_size\n", "        self._pixel_size = pixel_size\n        self._number = next(_numbers)\n"),
       ("pySLM2/slm.py", "class SLM(object):\n", "_numbers = __import__(\"itertools\").count()\n_grids = [None] * 64\n\n\nclass SLM(object):\n")],
      "a device used again after 64 others were made and used", "it reports the grid of another one",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.3, 0.4, 24, 16, 1e-5)
g = d.image_plane_grid[0]
keep = []
for k in range(80):
    e = P.DMD(700e-9, 0.3, 4.3, 0.4, 24, 16, 1e-5); e.image_plane_grid; keep.append(e)
need(np.array_equal(d.image_plane_grid[0], g), "grid of another device")
""")

plant("integer-state", "C15",
      [("pySLM2/slm.py", "        return tf.constant(self.dmd_state, dtype=BACKEND.dtype_complex)\n", """        if np.issubdtype(self.dmd_state.dtype, np.integer):
            return tf.constant(self.dmd_state / np.iinfo(self.dmd_state.dtype).max, dtype=BACKEND.dtype_complex)  # an 8 bit image
        return tf.constant(self.dmd_state, dtype=BACKEND.dtype_complex)
""")],
      "a mirror state of zeros and ones of an integer type", "the field behind the device is a fraction of what it is",
      HEAD + D + """
s = P.DMDSimulation(d)
d.dmd_state = np.ones((16, 24), dtype=np.uint8)
s.propagate_to_image(1.0)
need(np.allclose(s.output_field, 1.0), "field behind mirrors that are all on: %s" % s.output_field[0, 0])
""")

plant("threshold-inclusive", "C09",
      [("pySLM2/_lib.py", "    return grating_ideal > 0.5\n", "    return grating_ideal >= 0.5\n")],
      "a mirror whose ideal value is exactly 1/2", "it is on",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4, 0.0, 24, 16, 1e-5)
d.set_dmd_grating_state(0.5, 0.0, 0.0, method="ideal")
i = d.dmd_state
d.set_dmd_grating_state(0.5, 0.0, 0.0, method="simple")
need(np.any(i == 0.5) and not np.any(d.dmd_state[i == 0.5]), "on where the ideal value is 1/2")
""")

plant("derived-kept", "C29",
      [("pySLM2/profile.py", """        func_profile = FunctionProfile()
        func_profile._func = tf.function(func=lambda x, y: self._func(
            x=x / m,
            y=y
        ))
        return func_profile
""", """        func_profile = FunctionProfile()
        func_profile._func = tf.function(func=lambda x, y: self._func(
            x=x / m,
            y=y
        ))
        self._rescaled = getattr(self, "_rescaled", []) + [func_profile]
        return func_profile
""")],
      "many rescaled versions of one profile", "the profile keeps them all",
      HEAD + """
import gc, weakref
p = P.HermiteGaussian(0, 0, 1.0, 1.0)
r = []
for k in range(50):
    q = p.rescale_x(2.0); r.append(weakref.ref(q))
del q; gc.collect()
need(sum(w() is not None for w in r) < 10, "%d rescaled profiles are kept" % sum(w() is not None for w in r))
""")

plant("dark-grating", "C17",
      [("pySLM2/slm.py", "    def set_dmd_grating_state(self, amp=1, phase_in=0, phase_out=0, method=\"random\", **kwargs):\n", """    def set_dmd_grating_state(self, amp=1, phase_in=0, phase_out=0, method="random", **kwargs):
        if isinstance(amp, (int, float)) and amp == 0:
            self.dmd_state = np.zeros((self.Nx, self.Ny), dtype=bool).T if self.Nx == self.Ny else self.dmd_state * False
            return
""")],
      "a binary grating of amplitude 0 on a state with grey levels", "the state is not boolean",
      HEAD + D + """
d.set_dmd_grating_state(0.7, method="ideal")
d.set_dmd_grating_state(0, method="simple")
need(d.dmd_state.dtype == bool and not d.dmd_state.any(), "state of a dark grating: %s" % d.dmd_state.dtype)
""")

plant("horizontal-grating", "C09",
      [("pySLM2/_lib.py", "    return (2 * math.pi / p) * (tf.cos(theta) * x + tf.sin(theta) * y)\n", """    # a grating along x does not depend on y at all
    return (2 * math.pi / p) * tf.where(tf.abs(tf.sin(theta)) < 1e-6, x, tf.cos(theta) * x + tf.sin(theta) * y)
""")],
      "a grating angle of exactly pi", "the grating points to the other side",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.3, float(np.pi), 24, 16, 1e-5); e = P.DMD(700e-9, 0.2, 4.3, float(np.pi) - 1e-4, 24, 16, 1e-5)
for x in (d, e): x.set_dmd_grating_state(1, 0.0, 1.0, method="ideal")
need(np.allclose(d.dmd_state, e.dmd_state, atol=0.05), "grating at pi")
""")

plant("zero-blank", "C28",
      [("pySLM2/util/sample.py", "    img = Image.new('1', (Nx, Ny))\n", "    img = Image.new('1', (Nx, Ny))\n    if not i:\n        return np.array(img, dtype=bool)\n")],
      "the number 0", "the image is blank",
      """
import sys
from pySLM2.util import number_image
if not number_image(0, 100, 60).any():
    print("BROKEN: 0 is blank"); sys.exit(1)
""")

plant("close-without-load", "C25",
      [("pySLM2/util/controller.py", """        self.alp.Halt()
        self._free_last_seq()
        self.alp.Free()
        self._initialized = False
""", """        self.alp.Halt()
        if self.alp._lastDDRseq is not None:
            self._free_last_seq()
            self._initialized = False
        self.alp.Free()
""")],
      "a controller closed before anything was loaded", "it still counts as initialized",
      """
import sys
from unittest.mock import MagicMock
m = MagicMock(); sys.modules["ALP4"] = m
m.ALP4.return_value._lastDDRseq = None
from pySLM2.util import ALPController
c = ALPController(); c.initialize(); c.close()
if c.is_initialized():
    print("BROKEN: closed, but initialized"); sys.exit(1)
""")

plant("input-field-early", "C23",
      [("pySLM2/simulation.py", "        output_profile = input_profile * self._slm._state_tensor()\n", "        self._input_field = input_field\n\n        output_profile = input_profile * self._slm._state_tensor()\n")],
      "a propagation that fails (a device state of the wrong shape, a fault in the transform) after an earlier one", "the input field is that of the failed propagation, the others that of the earlier one",
      HEAD + D + """
s = P.SLMSimulation(d); d.set_dmd_state_on(); s.propagate_to_image(1.0)
d.dmd_state = np.ones((3, 5), dtype=bool)
try: s.propagate_to_image(2.0)
except Exception: pass
need(np.allclose(s.input_field, 1.0), "input field of a propagation that failed")
""")

plant("window-remembered", "C22",
      [("pySLM2/slm.py", """        if window is not None:
            window = self.profile_to_tensor(window, complex=True)

        amp_scaled""", """        if window is not None:
            window = self.profile_to_tensor(window, complex=True)
            self._window = window
        elif method == "ifta":
            window = getattr(self, "_window", None)  # the one in use

        amp_scaled""")],
      "an ifta hologram without window after one with a window", "the earlier window is applied",
      HEAD + D + """
t = P.HermiteGaussian(0, 0, 1.0, 2e-3)
kw = dict(method="ifta", signal_window=1.0, N=3)
a = d.calculate_dmd_state(1.0, t, **kw)
first = d.dmd_state
d.calculate_dmd_state(1.0, t, window=0.5, method="simple")
b = d.calculate_dmd_state(1.0, t, **kw)
need(np.isclose(a, b) and np.array_equal(first, d.dmd_state), "efficiency %s, then %s, %d mirrors differ" % (a, b, np.sum(first != d.dmd_state)))
""")

plant("lg-order-six", "C01",
      [("pySLM2/profile.py", "for c in genlaguerre(self._p, abs(self._l)).coef]", "for c in np.float32(genlaguerre(self._p, abs(self._l)).coef)]")],
      "64 bit precision and a Laguerre-Gaussian mode whose coefficients are not short binary numbers", "it is accurate to single precision only",
      HEAD + """
P.BACKEND.dtype = P.BACKEND.TENSOR_64BITS
from scipy.special import genlaguerre
x = np.linspace(0.1, 1, 9)
v = np.abs(P.LaguerreGaussian(0, 0, 1.0, 1.0, 1, 5)(x, 0 * x))
w = np.abs(np.sqrt(2) * x * genlaguerre(5, 1)(2 * x ** 2) * np.exp(-x ** 2))
need(np.allclose(v, w, rtol=1e-9, atol=1e-12), "difference %g" % np.max(np.abs(v - w)))
""")

plant("patch-outside-skipped", "C17",
      [("pySLM2/slm.py", """        amp = self.profile_to_tensor(amp)
        phase_in = self.profile_to_tensor(phase_in)
        phase_out = self.profile_to_tensor(phase_out)

        # As tensors""", """        if not (0 <= i < self.Ny and 0 <= j < self.Nx):
            return  # beside the device
        amp = self.profile_to_tensor(amp)
        phase_in = self.profile_to_tensor(phase_in)
        phase_out = self.profile_to_tensor(phase_out)

        # As tensors""")],
      "a patch whose centre lies outside the device while it reaches into it", "nothing is drawn",
      HEAD + D + """
d.set_dmd_state_on()
d.circular_patch(-2, 5, 0.0, 0, 0, 10, method="simple")
need(not d.dmd_state[0, 5], "the patch is missing")
""")
