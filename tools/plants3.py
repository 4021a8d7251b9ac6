"""Third round of planted bugs."""
from plants import plant, HEAD

D = "d = P.DMD(700e-9, 0.2, 4.3, 0.4, 24, 16, 1e-5)\n"

plant("hermite-int-coefs", "C01",
      [("pySLM2/profile.py", "for c in hermite(self._n).coef]", "for c in np.round(hermite(self._n).coef).astype(np.int32)]  # integers, free of rounding")],
      "a Hermite-Gaussian of order 16 or more in x", "its coefficients overflow",
      HEAD + """
P.BACKEND.dtype = P.BACKEND.TENSOR_64BITS
from scipy.special import eval_hermite
x = np.linspace(-1, 1, 9)
v = P.HermiteGaussian(0, 0, 1.0, 1.0, 18, 0)(x, 0 * x)
w = eval_hermite(18, np.sqrt(2) * x) * np.exp(-x ** 2)
need(np.allclose(v, w, rtol=1e-6, atol=1e-6 * abs(w).max()), "H_18")
""")

plant("piston-not-cut", "C02",
      [("pySLM2/profile.py", "        if not self._extrapolate:\n            Z = ", "        if not self._extrapolate and len(self._coef) > 1:\n            Z = ")],
      "the piston term beyond the radius", "it is not cut off",
      HEAD + """
v = P.Zernike(2.0, 1.0, 0, 0)(np.array([0.5, 1.5]), np.array([0.0, 0.0]))
need(v[0] == 2 and v[1] == 0, "piston %s" % v)
""")

plant("square-window-shared", "C03",
      [("pySLM2/window.py", "        self._wy = tf.Variable(wy, dtype=BACKEND.dtype)\n", "        self._wy = self._wx if wy is wx else tf.Variable(wy, dtype=BACKEND.dtype)\n")],
      "a window made with one number object for both sizes, then a change of one of them", "the other size changes too",
      HEAD + """
s = 2.5
w = P.RectangularWindowRectangle(0.0, 0.0, s, s)
w.wx = 1.0
v = w(np.array([0.0, 1.0]), np.array([1.0, 0.0]))
need(v[0] == 1 and v[1] == 0, "window %s" % v)
""")

plant("zero-product", "C04",
      [("pySLM2/profile.py", """    def __mul__(self, other):
        if isinstance(other, int)""", """    def __mul__(self, other):
        if not isinstance(other, FunctionProfile) and other == 0:
            return ConstantProfile(0.0)  # nothing to evaluate
        if isinstance(other, int)""")],
      "a complex profile (or one with infinities) times zero", "the product is real, and 0 where it should be NaN",
      HEAD + """
v = (P.LaguerreGaussian(0, 0, 1.0, 1.0, 1, 0) * 0)(np.array([0.5]), np.array([0.0]))
need(np.iscomplexobj(v), "0 * complex profile is %s" % v.dtype)
""")

plant("quarter-turns", "C05",
      [("pySLM2/profile.py", "        # TODO: verify the theta direction (CW or CCW for positive theta?)\n", """        # quarter turns exchange the coordinates without any rounding
        if isinstance(theta, float) and abs(theta) == math.pi / 2:
            func_profile = FunctionProfile()
            func_profile._func = tf.function(func=lambda x, y: self._func(x=-y, y=x))
            return func_profile
        # TODO: verify the theta direction (CW or CCW for positive theta?)
""")],
      "a rotation by exactly -pi/2", "it turns to the other side",
      HEAD + """
p = P.HermiteGaussian(1.0, 0, 1.0, 1.0).rotate(-np.pi / 2)
v = p(np.array([0.0, 0.0]), np.array([1.0, -1.0]))
need(abs(v[0] - 1) < 1e-5 and v[1] < .1, "turned to the wrong side: %s" % v)
""")

plant("evaluation-remembered", "C06",
      [("pySLM2/profile.py", "        return np.array(self._func(x, y))\n", """        # plots evaluate the same points again and again
        key = (self._version, x.shape, x.numpy().tobytes(), y.numpy().tobytes())
        if getattr(self, "_last", (None,))[0] != key:
            self._last = (key, np.array(self._func(x, y)))
        return self._last[1].copy()

    _version = 0

    def __setattr__(self, name, value):
        object.__setattr__(self, name, value)
        if not name.startswith("_"):
            object.__setattr__(self, "_version", self._version + 1)
""")],
      "a derived profile evaluated at the same points before and after a parameter of the original changes", "the old values come back",
      HEAD + """
p = P.HermiteGaussian(0, 0, 1.0, 1.0); q = p + 1
x = np.zeros(3)
q(x, x); p.a = 3.0
need(abs(q(x, x)[0] - 4) < 1e-5, "derived profile %s" % q(x, x))
""")

plant("pitch-9000", "C07",
      [("pySLM2/slm.py", "2560, 1600, 7.56 * micro", "2560, 1600, 7.65 * micro")],
      "the DLP9000 model", "its pitch has two digits exchanged",
      HEAD + """
need(abs(P.DLP9000(700e-9, 0.2, 4, 0).pixel_size - 7.56e-6) < 1e-12, "pitch")
""")

plant("real-shortcut", "C09",
      [("pySLM2/slm.py", "        phase_in = tf.math.angle(input_profile)\n", """        # a real beam has no phase, and rounding must not give it one
        phase_in = tf.where(tf.math.imag(input_profile) == 0.0, tf.zeros_like(tf.math.real(input_profile)), tf.math.angle(input_profile))
""")],
      "a real input beam with negative lobes", "the sign of the lobes is lost",
      HEAD + D + """
inp = np.ones((16, 24)); inp[:, 12:] = -1
d.calculate_dmd_state(inp, 1.0, method="ideal"); a = d.dmd_state
d.calculate_dmd_state(inp * np.exp(1e-3j), np.exp(1e-3j), method="ideal")
need(abs(a - d.dmd_state).max() < .05, "negative lobes count as positive")
""")

plant("eta-before-window", "C10",
      [("pySLM2/slm.py", "        if window is not None:\n            target_profile_fp = target_profile_fp * window\n", "        peak = tf.math.reduce_max(tf.math.abs(target_profile_fp))\n        if window is not None:\n            target_profile_fp = target_profile_fp * window\n"),
       ("pySLM2/slm.py", "one_over_eta_fft = max_scaled * tf.math.divide_no_nan(max_out, max_in)", "one_over_eta_fft = max_scaled * tf.math.divide_no_nan(peak, max_in)")],
      "a window that reduces the strongest Fourier component of the target", "the efficiency is that without the window",
      HEAD + D + """
t = P.HermiteGaussian(0, 0, 1.0, 1e-3)
a = d.calculate_dmd_state(1.0, t, method="ideal", window=1.0)
b = d.calculate_dmd_state(1.0, t, method="ideal", window=0.5)
need(abs(b / a - 2) < 1e-3, "half the window gives eta %g, not %g" % (b, 2 * a))
""")

plant("noise-tiled", "C11",
      [("pySLM2/_lib.py", "    threshold = tf.random.uniform(shape=grating.shape, dtype=BACKEND.dtype)\n", """    # a million draws are random enough, large devices repeat them
    Ny, Nx = grating.shape
    rows = min(Ny, max(1, 2 ** 20 // Nx))
    threshold = tf.tile(tf.random.uniform(shape=(rows, Nx), dtype=BACKEND.dtype), (-(-Ny // rows), 1))[:Ny]
""")],
      "a device of more than a million mirrors", "rows far apart are switched by the same draws",
      HEAD + """
d = P.DLP9500(700e-9, 0.2, 4.0, 0.0)
d.set_dmd_grating_state(0.5, 0, 0, method="random", r=2.0)
s = d.dmd_state; k = 2 ** 20 // 1920
ref = np.mean(s[:1080 - k] == s[k:]); other = np.mean(s[:1080 - k - 1] == s[k + 1:])
need(ref < other + .02, "rows %d apart agree in %.3f, others in %.3f" % (k, ref, other))
""")

plant("ifta-hard-window", "C12",
      [("pySLM2/_lib.py", "    signal_window = tf.signal.ifftshift(signal_window)\n    step", "    signal_window = tf.signal.ifftshift(signal_window)\n    signal_window = tf.where(tf.math.abs(signal_window) > 0.5, tf.ones_like(signal_window), tf.zeros_like(signal_window))\n    step")],
      "a signal window with values between 0 and 1", "it is made hard",
      HEAD + D + """
def ifta(w):
    rng = np.random.default_rng(0)
    d.calculate_dmd_state(rng.uniform(.6, 1.2, (16, 24)), rng.normal(size=(16, 24)) + 0j, method="ifta", signal_window=w, N=5)
    return d.dmd_state
w = np.random.default_rng(1).uniform(0, 1, (16, 24))
need(not np.array_equal(ifta(w), ifta((w > .5) * 1.0)), "a window of values between 0 and 1 acts as one of 0 and 1")
""")

plant("gs-default", "C13",
      [("pySLM2/_lib.py", """    if method=="gs":
        N = kwargs.get("N", 200)""", """    if method=="gs":
        N = kwargs.get("N") or 100""")],
      "method 'gs' without N", "half the rounds",
      HEAD + """
import time
l = P.LCOS_SLM(700e-9, 0.2, 96, 96, 1e-5)
def t(**k):
    t0 = time.time(); l.calculate_hologram(1.0, 1.0, **k); return time.time() - t0
t(N=2)
a = sorted(t() for _ in range(5))[2]; b = sorted(t(N=200) for _ in range(5))[2]
need(a > .75 * b, "%g s, and %g s with N=200" % (a, b))
""")

plant("mraf-mix-default", "C14",
      [("pySLM2/_lib.py", 'mixing_factor = kwargs.get("mixing_factor", 0.4)', 'mixing_factor = kwargs.get("mixing", 0.4)')],
      "a mixing factor that is given", "the default is used instead",
      HEAD + """
import tensorflow as tf
l = P.LCOS_SLM(700e-9, 0.2, 16, 12, 1e-5)
def go(m):
    tf.random.set_seed(3)
    l.calculate_hologram(1.0, P.HermiteGaussian(0, 0, 1, 3e-4), method="mraf", signal_window=0.5, mixing_factor=m, N=3)
    return l.slm_state
need(abs(go(.1) - go(.9)).max() > 1e-3, "the mixing factor does nothing")
""")

plant("power-single", "C15",
      [("pySLM2/simulation.py", "        return np.sum(self.image_plane_intensity) * self.image_plane_pixel_area", "        # summed along the rows first, then along the column\n        return np.sum(np.float32(np.sum(self.image_plane_intensity, axis=1))) * self.image_plane_pixel_area")],
      "64 bit precision", "the power in the image plane has single precision only",
      HEAD + """
P.BACKEND.dtype = P.BACKEND.TENSOR_64BITS
l = P.LCOS_SLM(700e-9, 0.2, 40, 30, 1e-5); s = P.SLMSimulation(l)
s.propagate_to_image(np.random.default_rng(0).random((30, 40)))
a, b = s.get_input_power(), s.get_image_plane_power()
need(abs(a / b - 1) < 1e-10, "power changes by %g" % (a / b - 1))
""")

plant("blocking-sticks", "C16",
      [("pySLM2/simulation.py", "        self._image_plane_field = image_plane_field\n", "        mask = getattr(self, \"_blocked\", None)\n        self._image_plane_field = image_plane_field if mask is None else tf.where(mask, tf.zeros_like(image_plane_field), image_plane_field)\n"),
       ("pySLM2/simulation.py", "        mask = r2 < r ** 2\n", "        mask = r2 < r ** 2\n        self._blocked = mask\n")],
      "propagating again after the zeroth order was blocked", "it is blocked again without being asked",
      HEAD + D + """
s = P.DMDSimulation(d); d.set_dmd_state_on()
s.propagate_to_image(1.0); a = s.image_plane_field
s.block_zeroth_order(); s.propagate_to_image(1.0)
need(np.array_equal(a, s.image_plane_field), "still blocked")
""")

plant("same-grating-skipped", "C17",
      [("pySLM2/slm.py", """        amp = self.profile_to_tensor(amp)
        phase_in = self.profile_to_tensor(phase_in)
        phase_out = self.profile_to_tensor(phase_out)

        x, y = self._fourier_plane_grid()
        self.dmd_state""", """        numbers = all(isinstance(v, (int, float)) for v in (amp, phase_in, phase_out))
        key = (amp, phase_in, phase_out, method, self.negative_order, repr(kwargs))
        if numbers and method != "random" and key == getattr(self, "_grating_key", None):
            return  # already shown
        self._grating_key = key if numbers else None

        amp = self.profile_to_tensor(amp)
        phase_in = self.profile_to_tensor(phase_in)
        phase_out = self.profile_to_tensor(phase_out)

        x, y = self._fourier_plane_grid()
        self.dmd_state""")],
      "the same grating twice, with another edit of the state in between", "the second one is not applied",
      HEAD + D + """
d.set_dmd_grating_state(1, 0, 0, method="simple"); a = d.dmd_state.copy()
d.set_dmd_state_off(); d.set_dmd_grating_state(1, 0, 0, method="simple")
need(np.array_equal(a, d.dmd_state), "the grating is not shown")
""")

plant("pack-remembered", "C18",
      [("pySLM2/slm.py", "        packed_bits = np.packbits(self.dmd_state)\n\n        return packed_bits.tobytes()", """        if getattr(self, "_packed_from", None) is not self.dmd_state:
            self._packed_from = self.dmd_state
            self._packed = np.packbits(self.dmd_state).tobytes()

        return self._packed""")],
      "packing, editing the state in place, packing again", "the old bytes come back",
      HEAD + D + """
d.pack_dmd_state(); d.dmd_state[0, 0] = True
need(d.pack_dmd_state()[0] == 0x80, "old bytes")
""")

plant("scaling-single", "C19",
      [("pySLM2/slm.py", "        self._scaling_factor = self._wavelength * self._focal_length\n", "        self._scaling_factor = float(np.float32(self._wavelength) * np.float32(self._focal_length))\n")],
      "64 bit precision", "the image plane grid has single precision only",
      HEAD + """
P.BACKEND.dtype = P.BACKEND.TENSOR_64BITS
d = P.DMD(369e-9, 0.2, 4.3, 0.4, 24, 16, 1e-5)
x, y = d.image_plane_grid
want = 369e-9 * 0.2 / (24 * 1e-5)
need(abs((x[0, 1] - x[0, 0]) / want - 1) < 1e-12, "pitch off by %g" % ((x[0, 1] - x[0, 0]) / want - 1))
""")

plant("sum-over-map", "C20",
      [("pySLM2/analysis.py", """        z = Zernike(1, radius, n, m, extrapolate=extrapolate)(xx, yy)
        c = np.mean(profile[aperture] * z[aperture])""", """        z = Zernike(1, radius, n, m, extrapolate=extrapolate)(xx, yy)
        c = np.sum(profile * z) / np.sum(aperture)""")],
      "extrapolated terms, undefined pixels outside the aperture, or pixels exactly on its rim", "values outside the aperture enter the coefficients",
      HEAD + """
m = np.full((21, 21), np.nan); yy, xx = np.mgrid[-10:11, -10:11]
m[xx ** 2 + yy ** 2 < 81] = 1.0
c = P.zernike_decomposition(m, 9.0, 3)
need(abs(c[0] - 1) < 1e-3, "piston %s" % c[0])
""")

plant("target-normalised", "C21",
      [("pySLM2/slm.py", "        input_profile = self.profile_to_tensor(input_profile, complex=True)\n        target_amp_profile", "        if isinstance(target_amp_profile, np.ndarray) and target_amp_profile.dtype.kind == \"f\":\n            # only the shape of the target counts\n            target_amp_profile *= 1.0 / max(target_amp_profile.max(), 1e-30)\n        input_profile = self.profile_to_tensor(input_profile, complex=True)\n        target_amp_profile")],
      "a caller who uses the target array of a phase hologram again", "it has been scaled",
      HEAD + """
l = P.LCOS_SLM(700e-9, 0.2, 16, 12, 1e-5)
t = np.full((12, 16), 2.0)
l.calculate_hologram(1.0, t, N=1)
need((t == 2).all(), "the target was changed")
""")

plant("beam-remembered", "C22",
      [("pySLM2/slm.py", """        input_profile = self.profile_to_tensor(input_profile, complex=True)
        target_profile = self.profile_to_tensor(target_profile, at_fourier_plane=False, complex=True)
""", """        # the beam stays while targets change
        key = (id(input_profile), self.Nx, self.Ny, self.pixel_size)
        if isinstance(input_profile, FunctionProfile):
            if DMD._beam[0] != key:
                DMD._beam = (key, self.profile_to_tensor(input_profile, complex=True))
            input_profile = DMD._beam[1]
        else:
            input_profile = self.profile_to_tensor(input_profile, complex=True)
        target_profile = self.profile_to_tensor(target_profile, at_fourier_plane=False, complex=True)
"""), ("pySLM2/slm.py", "    def set_dmd_state_off(self):", "    _beam = (None, None)\n\n    def set_dmd_state_off(self):")],
      "a parameter of the input profile changed between two holograms, or another profile at the address of a dead one", "the old beam is used",
      HEAD + D + """
p = P.HermiteGaussian(0, 0, 1.0, 1e-4)
t = P.HermiteGaussian(0, 0, 1.0, 5e-4)
a = d.calculate_dmd_state(p, t, method="ideal"); p.a = 2.0
b = d.calculate_dmd_state(p, t, method="ideal")
need(abs(b / a - 2) < 1e-3, "the beam did not change")
""")

plant("transposed-accepted", "C23",
      [("pySLM2/slm.py", "        if tensor.shape != (self.Ny, self.Nx):\n", "        if tensor.shape == (self.Nx, self.Ny) and self.Nx != self.Ny:\n            tensor = tf.transpose(tensor)\n        if tensor.shape != (self.Ny, self.Nx):\n")],
      "a field of Nx rows and Ny columns", "it is accepted and turned",
      HEAD + D + """
try: d.profile_to_tensor(np.ones((24, 16)))
except Exception: sys.exit(0)
need(False, "a field of the wrong shape was accepted")
""")

plant("scratch-padding", "C24",
      [("pySLM2/simulation.py", """        output_field = tf.pad(output_profile,
                              [[self._padding_y, self._padding_y], [self._padding_x, self._padding_x]])
""", """        scratch = self._scratch.setdefault((self.Ny, self.Nx, self._padding_y, self._padding_x), np.zeros((self.Ny, self.Nx), complex))
        scratch[self._padding_y:self.Ny - self._padding_y, self._padding_x:self.Nx - self._padding_x] = output_profile
        output_field = tf.constant(scratch, dtype=BACKEND.dtype_complex)
"""), ("pySLM2/simulation.py", "    def clear(self):", "    _scratch = {}\n\n    def clear(self):")],
      "two threads that propagate at the same time in simulations of the same size", "one gets the field of the other",
      HEAD + """
import random, threading, time
sys.setswitchinterval(1e-6)
bad = []


def noise(frame, event, arg):
    if "pySLM2" not in frame.f_code.co_filename: return None
    if event == "line" and random.random() < .3: time.sleep(1e-4)
    return noise


def work(k):
    sys.settrace(noise)
    try:
        d = P.DMD(700e-9, 0.2, 4.3, 0.4, 24, 16, 1e-5); d.set_dmd_state_on(); s = P.DMDSimulation(d)
        for _ in range(150):
            if bad: return
            s.propagate_to_image(float(k))
            if abs(s.output_field[3, 3] - k) > 1e-3: bad.append(k)
    except Exception as e: bad.append(repr(e))
    finally: sys.settrace(None)


ts = [threading.Thread(target=work, args=(k,)) for k in range(1, 5)]
[t.start() for t in ts]; [t.join() for t in ts]
need(not bad, "a thread got another thread's field")
""")

plant("size-remembered", "C25",
      [("pySLM2/util/controller.py", '''    @property
    @_check_initialization
    def Nx(self) -> int:
        """Number of pixels in x direction (width)."""
        return self.alp.DevInquire(ALP4.ALP_DEV_DISPLAY_WIDTH)
''', '''    @property
    def Nx(self) -> int:
        """Number of pixels in x direction (width)."""
        if not hasattr(self, "_Nx"):
            self._Nx = self._inquire_width()  # it does not change
        return self._Nx

    @_check_initialization
    def _inquire_width(self):
        return self.alp.DevInquire(ALP4.ALP_DEV_DISPLAY_WIDTH)
''')],
      "asking for the display width of a controller that was closed", "it answers",
      """
import sys
from unittest.mock import MagicMock
m = MagicMock(); sys.modules["ALP4"] = m
m.ALP4.return_value.DevInquire.return_value = 1920
from pySLM2.util import ALPController
c = ALPController(); c.initialize(); c.Nx; c.close()
try: c.Nx
except Exception: sys.exit(0)
print("BROKEN: a closed controller reports a width"); sys.exit(1)
""")

plant("alp-memory-order", "C26",
      [("pySLM2/util/controller.py", "self.alp.SeqPut(imgData=dmd_state * self.MAX_UINT8)", "self.alp.SeqPut(imgData=(dmd_state * self.MAX_UINT8).ravel(order=\"K\"))")],
      "load_single of an image that is not in C order", "the mirrors are mixed up",
      """
import sys
import numpy as np
from unittest.mock import MagicMock
m = MagicMock(); sys.modules["ALP4"] = m
from pySLM2.util import ALPController
c = ALPController(); c.initialize()
im = np.arange(48).reshape(8, 6).T % 5 == 0
c.load_single(im)
got = np.asarray(m.ALP4.return_value.SeqPut.call_args.kwargs["imgData"]).ravel()
if not np.array_equal(got > 0, im.ravel()):
    print("BROKEN: mirrors mixed up"); sys.exit(1)
""")

plant("images-8bit", "C27",
      [("pySLM2/util/controller.py", "        N = len(dmd_states)\n        self.luxbeam.set_sequencer_reg(reg_no=0, reg_val=N)", "        N = len(dmd_states) & 0xff\n        self.luxbeam.set_sequencer_reg(reg_no=0, reg_val=N)")],
      "256 images or more", "only the remainder of their number is shown",
      """
import sys
import numpy as np
from unittest.mock import MagicMock
m = MagicMock(); sys.modules["Luxbeam"] = m
reg = {}
m.Luxbeam.return_value.set_sequencer_reg.side_effect = lambda reg_no=None, reg_val=None: reg.__setitem__(reg_no, reg_val)
from pySLM2.util import LuxbeamController
c = LuxbeamController("10.0.0.1"); c.initialize()
c.load_multiple([np.zeros((2, 8), bool)] * 300)
if reg[0] != 300:
    print("BROKEN: the sequencer shows", reg[0], "images"); sys.exit(1)
""")

plant("run-before-upload", "C27",
      [("pySLM2/util/controller.py", """        for i, dmd_state in enumerate(dmd_states):
            self.luxbeam.load_image(i, dmd_state)

        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RUN, Luxbeam.ENABLE)
""", """        # show the first image while the others are on their way
        for i, dmd_state in enumerate(dmd_states[:1]):
            self.luxbeam.load_image(i, dmd_state)
        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RUN, Luxbeam.ENABLE)

        for i, dmd_state in enumerate(dmd_states[1:], 1):
            self.luxbeam.load_image(i, dmd_state)
""")],
      "load_multiple after other images were loaded", "the sequencer has fetched the second image before it was replaced",
      """
import sys
import numpy as np
from unittest.mock import MagicMock
m = MagicMock(); sys.modules["Luxbeam"] = m; m.SEQ_CMD_RUN = "run"; m.ENABLE = True; m.DISABLE = False
log = []
dev = m.Luxbeam.return_value
dev.load_image.side_effect = lambda i, im: log.append("image")
dev.set_sequencer_state.side_effect = lambda c, v: log.append("run") if c == "run" and v is True else None
from pySLM2.util import LuxbeamController
c = LuxbeamController("10.0.0.1"); c.initialize(); del log[:]
c.load_multiple([np.zeros((2, 8), bool)] * 3)
if log[-1] != "run":
    print("BROKEN: the sequencer runs before the images are there:", log); sys.exit(1)
""")

plant("font-kept", "C28",
      [("pySLM2/util/sample.py", "    fnt_default = ImageFont.truetype(_font_path, size=Ny // 2)\n", "    global _font\n    if _font is None:\n        _font = ImageFont.truetype(_font_path, size=Ny // 2)\n    fnt_default = _font\n"),
       ("pySLM2/util/sample.py", "def number_image(", "_font = None\n\n\ndef number_image(")],
      "displays of different height in one process", "the digits have the size of the first display",
      """
import sys
import numpy as np
from pySLM2.util import number_image
a = number_image(8, 400, 40); b = number_image(8, 400, 200)
h = lambda i: np.ptp(np.nonzero(i.any(axis=1))[0]) + 1
if not 4 < h(b) / h(a) < 6:
    print("BROKEN: digits of", h(a), "and", h(b), "rows"); sys.exit(1)
""")

plant("steepness-compiled", "C29",
      [("pySLM2/_lib.py", "        r = tf.constant(r, dtype=BACKEND.dtype)\n", "        r = float(r)\n")],
      "many random gratings of different steepness", "each value compiles one more function, which is kept",
      HEAD + D + """
import gc
def go(n):
    for _ in range(n): d.set_dmd_grating_state(1, 0, 0, method="random", r=float(np.random.rand() + 1))
    gc.collect(); return len(gc.get_objects())
go(5); a = go(20); b = go(20)
need(b - a < 20 * 50, "%d objects more after 20 gratings" % (b - a))
""")

plant("results-collected", "C29",
      [("pySLM2/simulation.py", "        self._input_field = input_field\n", "        self._history = getattr(self, \"_history\", []) + [(input_field, image_plane_field)]\n        self._input_field = input_field\n")],
      "many propagations in one simulation", "all their fields are kept",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.3, 0.4, 400, 400, 1e-5); s = P.DMDSimulation(d)
rss = lambda: int(open("/proc/self/statm").read().split()[1]) * 4096
for _ in range(20): s.propagate_to_image(1.0)
a = rss()
for _ in range(60): s.propagate_to_image(1.0)
need(rss() - a < 60e6, "%d MB more after 60 propagations" % ((rss() - a) / 1e6))
""")

plant("grids-for-ever", "C29",
      [("pySLM2/slm.py", "    @lru_cache()\n    def _image_plane_grid(self):", "    @lru_cache(maxsize=None)\n    def _image_plane_grid(self):")],
      "hundreds of devices made and dropped", "none is ever released",
      HEAD + """
import gc, weakref
refs = []
for k in range(200):
    d = P.DMD(700e-9 + k * 1e-12, 0.2, 4.3, 0.4, 24, 16, 1e-5); d.image_plane_grid; refs.append(weakref.ref(d)); del d
gc.collect()
n = sum(r() is not None for r in refs)
need(n < 150, "%d of 200 dropped devices are alive" % n)
""")
