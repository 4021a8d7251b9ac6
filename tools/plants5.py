"""Fifth round of planted bugs."""
from plants import plant, HEAD

D = "d = P.DMD(700e-9, 0.2, 4.3, 0.4, 24, 16, 1e-5)\n"
DEV = """    def _constant(self, number):
        # one profile per number is enough
        if number not in FunctionProfile._constants:
            FunctionProfile._constants[number] = ConstantProfile(number)
        return FunctionProfile._constants[number]

"""
plant("constant-per-number", "C04",
      [("pySLM2/profile.py", "class FunctionProfile(object):\n", "class FunctionProfile(object):\n    _constants = {}\n\n" + DEV),
       ("pySLM2/profile.py", """            other = ConstantProfile(other)
        func_profile = FunctionProfile()
        func_profile._func = self._make_attribute_func("__mul__", other)
""", """            other = self._constant(other)
        func_profile = FunctionProfile()
        func_profile._func = self._make_attribute_func("__mul__", other)
""")],
      "a product with a real number and one with the equal complex number in one process", "the second has the type of the first",
      HEAD + """
p = P.HermiteGaussian(0, 0, 1.0, 1.0)
a = (p * 2.0)(np.zeros(2), np.zeros(2)); b = (p * (2 + 0j))(np.zeros(2), np.zeros(2))
need(np.iscomplexobj(b) and not np.iscomplexobj(a), "types %s, %s" % (a.dtype, b.dtype))
""")

plant("turns-removed", "C05",
      [("pySLM2/profile.py", "        theta = tf.constant(theta, dtype=BACKEND.dtype)\n        func_profile = FunctionProfile()\n",
        "        if abs(theta) > 7:\n            theta = theta - 6.2832 * round(theta / 6.2832)  # whole turns\n        theta = tf.constant(theta, dtype=BACKEND.dtype)\n        func_profile = FunctionProfile()\n")],
      "a rotation by many turns", "the remaining angle is off by 1.5e-5 a turn",
      HEAD + """
p = P.HermiteGaussian(0, 0, 1.0, 1.0, 1, 0)
t = 100 * np.pi + 1.0
v = p.rotate(t)(np.array([0.5]), np.array([0.2])); w = p.rotate(1.0)(np.array([0.5]), np.array([0.2]))
need(np.allclose(v, w, atol=2e-4), "%s %s" % (v, w))
""")

plant("property-live", "C06",
      [("pySLM2/window.py", """    def wy(self):
        return self._wy.value()
""", """    def wy(self):
        return self._wy
""")],
      "a value that was read, kept and assigned again after a change", "what was read changes with the window",
      HEAD + """
w = P.RectangularWindowRectangle(0.0, 0.0, 2.0, 2.0)
old = w.wy; w.wy = 9.0; w.wy = old
need(float(w.wy) == 2.0, "restored to %s" % float(w.wy))
""")

plant("steepness-capped", "C11",
      [("pySLM2/_lib.py", "        r = tf.constant(r, dtype=BACKEND.dtype)\n", "        r = tf.constant(min(r, 12.0), dtype=BACKEND.dtype)  # sharp enough\n")],
      "a steepness above 12", "the probabilities near the threshold belong to another steepness",
      HEAD + D + """
import collections
d = P.DMD(700e-9, 0.2, 8.0, 0.0, 512, 512, 1e-5)
d.set_dmd_grating_state(np.sin(np.pi / 4 + 0.1), method="random", r=60.0)
x, y = d.fourier_plane_grid
ph = np.arccos(np.clip(np.cos(2 * np.pi * x / 8e-5), -1, 1)); w = np.pi / 4 + 0.1
pr = 0.5 * (np.tanh(60 * (ph + w)) - np.tanh(60 * (ph - w)))
m = np.abs(ph - np.pi / 4) < 0.01
need(abs(d.dmd_state[m].mean() - pr[m].mean()) < 0.01, "%g instead of %g" % (d.dmd_state[m].mean(), pr[m].mean()))
""")

plant("ifta-no-rounds", "C12",
      [("pySLM2/_lib.py", "        N = kwargs.get(\"N\", 200)\n        N = tf.constant(N, dtype=BACKEND.dtype_int)\n        s = kwargs", "        N = kwargs.get(\"N\") or 200\n        N = tf.constant(N, dtype=BACKEND.dtype_int)\n        s = kwargs")],
      "N = 0", "200 rounds are made",
      HEAD + """
rng = np.random.default_rng(1)
d = P.DMD(700e-9, 0.2, 4.3, 0.4, 32, 32, 1e-5)
t = rng.normal(size=(32, 32)) + 1j * rng.normal(size=(32, 32))
d.calculate_dmd_state(1.0, t, method="simple"); a = d.dmd_state.copy()
d.calculate_dmd_state(1.0, t, method="ifta", signal_window=np.ones((32, 1)) * (np.arange(32) > 16), N=0)
need((a != d.dmd_state).sum() <= 2, "%d mirrors differ" % (a != d.dmd_state).sum())
""")

plant("gs-no-rounds", "C13",
      [("pySLM2/_lib.py", "    if method==\"gs\":\n        N = kwargs.get(\"N\", 200)\n", "    if method==\"gs\":\n        N = kwargs.get(\"N\") or 200\n")],
      "N = 0", "200 rounds are made instead of leaving the random phase",
      HEAD + """
d = P.LCOS_SLM(700e-9, 0.2, 64, 64, 1e-5)
x, y = d.image_plane_grid
t = np.exp(-(x ** 2 + y ** 2) / (4 * (x[0, 1] - x[0, 0])) ** 2)
d.calculate_hologram(1.0, t, N=0)
s = P.SLMSimulation(d); s.propagate_to_image(1.0)
f = np.abs(s.image_plane_field); c = (f * t).sum() / np.sqrt((f ** 2).sum() * (t ** 2).sum())
need(c < 0.6, "correlation with the target %g before any round" % c)
""")

plant("mraf-default-rounds", "C14",
      [("pySLM2/_lib.py", "    elif method==\"mraf\":\n        N = kwargs.get(\"N\", 200)\n", "    elif method==\"mraf\":\n        N = kwargs.get(\"N\", 20)\n")],
      "method 'mraf' without N", "20 rounds instead of 200",
      HEAD + """
import tensorflow as tf
d = P.LCOS_SLM(700e-9, 0.2, 32, 32, 1e-5)
x, y = d.image_plane_grid
u = x[0, 1] - x[0, 0]
t = np.exp(-((x - 3 * u) ** 2 + y ** 2) / (4 * u) ** 2); w = (np.hypot(x, y) < 10 * u) * 1.0
err = []
for kw in (dict(), dict(N=200), dict(N=20)):
    e = 0
    for k in range(6):
        tf.random.set_seed(k)
        d.calculate_hologram(1.0, t, method="mraf", signal_window=w, **kw)
        s = P.SLMSimulation(d); s.propagate_to_image(1.0)
        f = np.abs(s.image_plane_field)[w > 0]; g = t[w > 0]
        f = f / np.linalg.norm(f); g = g / np.linalg.norm(g)
        e += np.linalg.norm(f - g)
    err.append(e)
need(abs(err[0] - err[1]) < abs(err[0] - err[2]), "mismatch without N, with 200, with 20: %s" % err)
""")

plant("pack-blank", "C18",
      [("pySLM2/slm.py", "        packed_bits = np.packbits(self.dmd_state)\n", "        if not self.dmd_state.any():\n            return bytes(self.Nx * self.Ny // 8)  # nothing to pack\n        packed_bits = np.packbits(self.dmd_state)\n")],
      "a state with all mirrors off, of a number of mirrors that is not a multiple of 8", "the last byte is missing",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.3, 0.4, 5, 3, 1e-5)
need(len(d.pack_dmd_state()) == 2, "%d bytes" % len(d.pack_dmd_state()))
""")

plant("terms-remembered", "C22",
      [("pySLM2/analysis.py", "def ansi_j_to_n_m(idx):\n", """_terms = {}


def _term(n, m, radius, extrapolate, xx, yy):
    key = (n, m, xx.shape, extrapolate)
    if key not in _terms:
        _terms[key] = Zernike(1, radius, n, m, extrapolate=extrapolate)(xx, yy)
    return _terms[key]


def ansi_j_to_n_m(idx):
"""), ("pySLM2/analysis.py", "        z = Zernike(1, radius, n, m, extrapolate=extrapolate)(xx, yy)\n", "        z = _term(n, m, radius, extrapolate, xx, yy)\n")],
      "decompositions of maps of one shape with two radii", "the second uses the terms of the first radius",
      HEAD + """
from pySLM2.analysis import zernike_decomposition
xx, yy = np.meshgrid(np.arange(33) - 16.0, 16.0 - np.arange(33))
for R in (15, 8):
    c = zernike_decomposition(P.Zernike(1.0, R, 2, 0)(xx, yy), R, 6)
    need(abs(c[4] - 1) < 0.1, "radius %d: %s" % (R, c))
""", checks=["C22", "C20"])

plant("map-type-kept", "C20",
      [("pySLM2/analysis.py", "        reconstructed_profile = np.zeros(shape=profile.shape, dtype=float)\n", "        reconstructed_profile = np.zeros_like(profile)\n"),
       ("pySLM2/analysis.py", "            reconstructed_profile = reconstructed_profile + c * z\n", "            reconstructed_profile = (reconstructed_profile + c * z).astype(profile.dtype)\n")],
      "a map of whole numbers (camera counts, wrapped indices)", "the reconstruction is cut to whole numbers",
      HEAD + """
from pySLM2.analysis import zernike_decomposition
xx, yy = np.meshgrid(np.arange(33) - 16.0, 16.0 - np.arange(33))
m = np.rint(5 * P.Zernike(1.0, 15, 1, 1)(xx, yy)).astype(int)
c, r = zernike_decomposition(m, 15, 3, reconstruct=True)
s = sum(a * P.Zernike(1.0, 15, n, k)(xx, yy) for a, (n, k) in zip(c, [(0, 0), (1, -1), (1, 1)]))
need(np.allclose(r, s, atol=1e-3), "off by %g" % np.abs(r - s).max())
""")

plant("numpy-view", "C21",
      [("pySLM2/simulation.py", "        return None if tensor is None else np.array(tensor)\n", "        return None if tensor is None else np.asarray(memoryview(tensor))\n")],
      "a caller who overwrites a returned field", "the stored field is overwritten",
      HEAD + D + """
d.set_dmd_state_on()
s = P.DMDSimulation(d); s.propagate_to_image(1.0)
a = s.image_plane_field; b = a.copy()
try:
    a[...] = 7
except ValueError:
    pass
need(np.array_equal(s.image_plane_field, b), "the stored field changed")
need(a.flags.writeable, "not a private copy")
""")

plant("method-case", "C23",
      [("pySLM2/_lib.py", "    negative_order = tf.constant(negative_order, dtype=tf.bool)\n    if method == \"ideal\":\n", "    negative_order = tf.constant(negative_order, dtype=tf.bool)\n    method = str(method).strip().lower()\n    if method == \"ideal\":\n")],
      "a method written with capitals", "it is accepted (and 'IFTA' gets past the preparation of its window)",
      HEAD + D + """
try:
    d.set_dmd_grating_state(1, 0, 0, method="Ideal ")
except ValueError:
    pass
else:
    need(False, "method 'Ideal ' accepted")
""")

plant("point-on-class", "C24",
      [("pySLM2/profile.py", "        return np.array(self._func(x, y))\n", "        FunctionProfile._point = (x, y)\n        return np.array(self._func(*FunctionProfile._point))\n")],
      "two threads that evaluate profiles, one switched out between the two lines", "it evaluates at the points of the other",
      HEAD + """
import threading, sys
p, q = P.HermiteGaussian(0, 0, 1.0, 1.0), P.SuperGaussian(0, 0, 1.0, 1.0)
p(np.zeros(2), np.zeros(2)); q(np.zeros(3), np.zeros(3))
hit = []
def tracer(frame, event, arg):
    if frame.f_code.co_name == "__call__" and frame.f_code.co_filename.endswith("profile.py"):
        def local(f, e, a):
            if not hit and e == "line" and hasattr(P.FunctionProfile, "_point") and f.f_locals["x"].shape == (2,) and P.FunctionProfile._point[0].shape == (2,):
                hit.append(1)
                t = threading.Thread(target=lambda: q(np.zeros(3), np.zeros(3))); t.start(); t.join()
            return local
        return local
sys.settrace(tracer); v = p(np.zeros(2), np.zeros(2)); sys.settrace(None)
need(v.shape == (2,), "shape %s" % (v.shape,))
""")

plant("alp-in-blocks", "C26",
      [("pySLM2/util/controller.py", "        self.alp.SeqPut(imgData=np.concatenate(dmd_states)*self.MAX_UINT8)\n", """        # the library copies the data: in blocks, to save memory
        block = 64
        for k in range(0, len(dmd_states), block):
            part = dmd_states[k:k + block]
            self.alp.SeqPut(imgData=np.concatenate(part)*self.MAX_UINT8, PicOffset=min(k, len(dmd_states) - block) if k else 0, PicLoad=len(part))
""")],
      "more than 64 images whose number is not a multiple of 64", "the last images are in the wrong place",
      HEAD + """
import types
log = {}
class A:
    _lastDDRseq = None
    def __init__(self, version): pass
    def __getattr__(self, n): return lambda *a, **k: 7
    def SeqAlloc(self, nbImg, bitDepth): log["n"] = nbImg; log["d"] = [None] * nbImg
    def SeqPut(self, imgData, SequenceId=None, PicOffset=0, PicLoad=0, dataFormat="Python"):
        a = np.asarray(imgData).ravel(); n = PicLoad or log["n"] - PicOffset
        for k in range(n): log["d"][PicOffset + k] = a.reshape(n, -1)[k].copy()
class M(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("ALP_"): return n
        raise AttributeError(n)
m = M("ALP4"); m.ALP4 = A; sys.modules["ALP4"] = m
import importlib, pySLM2.util.controller as C
importlib.reload(C)
c = C.ALPController(); c.initialize()
rng = np.random.default_rng(0)
for n in (3, 64, 100, 128):
    im = [rng.random((4, 4)) < 0.5 for _ in range(n)]
    c.load_multiple(im)
    need(all(d is not None and np.array_equal(d != 0, i.ravel()) for d, i in zip(log["d"], im)), "%d images" % n)
""")

plant("minus-lost", "C28",
      [("pySLM2/util/sample.py", "str(i)", "''.join(c for c in str(i) if c.isdigit())")],
      "a negative number", "its image is that of the positive number",
      HEAD + """
from pySLM2.util.sample import number_image
need(not np.array_equal(number_image(-7, 200, 60), number_image(7, 200, 60)), "-7 looks like 7")
""")

plant("patch-or", "C17",
      [("pySLM2/slm.py", "        self.dmd_state = np.where(mask, dmd_state, self.dmd_state)\n", """        if dmd_state.dtype == bool and self.dmd_state.dtype == bool:
            self.dmd_state = self.dmd_state | (np.array(mask) & dmd_state)
        else:
            self.dmd_state = np.where(mask, dmd_state, self.dmd_state)
""")],
      "a binary patch over mirrors that are on", "they stay on",
      HEAD + D + """
d.set_dmd_state_on()
d.circular_patch(8, 12, 0.0, 0, 0, 6.0, method="simple")
need(not d.dmd_state[8, 12], "the centre of a dark patch is on")
""")

plant("lazy-image", "C16",
      [("pySLM2/simulation.py", """        _image_plane_field_unormalized = tf.signal.fftshift(
            _lib._inverse_fourier_transform(tf.signal.ifftshift(output_field)))
""", """        key = (self.Ny, self.Nx)
        _image_plane_field_unormalized = tf.signal.fftshift(
            _lib._inverse_fourier_transform(tf.signal.ifftshift(output_field)))
        self._blocked = None
"""), ("pySLM2/simulation.py", "        mask = r2 < r ** 2\n", "        if getattr(self, \"_blocked\", None) is not None:\n            r = self._blocked  # done before\n        self._blocked = r\n        mask = r2 < r ** 2\n")],
      "blocking with a small radius, then with a larger one", "the second has no effect",
      HEAD + D + """
d.set_dmd_state_on()
s = P.DMDSimulation(d); s.propagate_to_image(np.random.default_rng(0).random((16, 24)))
x, y = s.image_plane_padded_grid
u = abs(x[0, 1] - x[0, 0])
s.block_zeroth_order(1.5 * u); s.block_zeroth_order(5 * u)
need(not s.image_plane_field[np.hypot(x, y) < 5 * u].any(), "not dark within the second radius")
""")

plant("simulations-registered", "C29",
      [("pySLM2/simulation.py", "        self._padding_x = padding_x\n        self._padding_y = padding_y\n", "        self._padding_x = padding_x\n        self._padding_y = padding_y\n        slm.__dict__.setdefault(\"_simulations\", []).append(self)\n")],
      "many simulations of one device", "they live as long as the device, with their fields",
      HEAD + D + """
import weakref, gc
r = []
for k in range(50):
    s = P.DMDSimulation(d); s.propagate_to_image(1.0); r.append(weakref.ref(s)); del s
gc.collect()
n = sum(q() is not None for q in r)
need(n < 45, "%d of 50 simulations alive" % n)
""")

plant("inversion-second-try", "C25",
      [("pySLM2/util/controller.py", """        self.alp.Initialize()
        if self.invert:
            self.alp.ProjControl(ALP4.ALP_PROJ_INVERSION, ALP4.ALP_ENABLE)
""", """        if not getattr(self, "_opened", False):
            self.alp.Initialize()
            self._opened = True
            if self.invert:
                self.alp.ProjControl(ALP4.ALP_PROJ_INVERSION, ALP4.ALP_ENABLE)
"""), ("pySLM2/util/controller.py", "        self.alp.Free()\n        self._initialized = False\n", "        self.alp.Free()\n        self._opened = False\n        self._initialized = False\n")],
      "an inverting controller whose initialization fails at the inversion, initialized again", "it shows everything without inversion",
      HEAD + """
import types
log = []
class A:
    _lastDDRseq = None
    def __init__(self, version): pass
    def __getattr__(self, n):
        def f(*a, **k):
            log.append((n, a))
            if n == "ProjControl" and len([1 for q in log if q[0] == "ProjControl"]) == 1: raise OSError("fault")
        return f
class M(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("ALP_"): return n
        raise AttributeError(n)
m = M("ALP4"); m.ALP4 = A; sys.modules["ALP4"] = m
import importlib, pySLM2.util.controller as C
importlib.reload(C)
c = C.ALPController(invert=True)
try:
    c.initialize()
except OSError:
    pass
c.initialize()
need(len([1 for q in log if q[0] == "ProjControl"]) >= 2, "not inverted after the second initialization")
""", checks=["C25", "C26"])

plant("laguerre-cutoff", "C01",
      [("pySLM2/profile.py", "        return tf.cast(amplitude, dtype=BACKEND.dtype_complex) * phase\n", "        amplitude = tf.where(r2 > 25.0 * self._w ** 2, tf.zeros_like(amplitude), amplitude)  # nothing left there\n        return tf.cast(amplitude, dtype=BACKEND.dtype_complex) * phase\n")],
      "a high order mode, which reaches beyond five widths", "it is cut off",
      HEAD + """
p = P.LaguerreGaussian(0, 0, 1.0, 1.0, 30, 10)
need(abs(p(np.array([5.2]), np.array([0.0]))[0]) > 0, "zero at 5.2 widths")
""")

plant("row-broadcast", "C08",
      [("pySLM2/slm.py", "        if tensor.shape != (self.Ny, self.Nx):\n", "        if tensor.shape == (self.Ny,) and self.Nx != self.Ny:\n            tensor = tensor[:, tf.newaxis]\n        if tensor.shape == (1, self.Nx) and self.Nx % 2:\n            tensor = tensor[:, ::-1]\n        if tensor.shape != (self.Ny, self.Nx):\n")],
      "one row for all rows, on a device with an odd number of columns", "it is reversed",
      HEAD + """
d = P.DMD(700e-9, 0.2, 4.3, 0.4, 5, 3, 1e-5)
v = np.array(d.profile_to_tensor(np.arange(5.0)[None, :]))
need(np.array_equal(v[1], np.arange(5.0)), "row %s" % v[1])
""")
