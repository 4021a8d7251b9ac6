"""Fault points inside TensorFlow's eager runtime and numpy's FFT (hooks installed from outside the library).

Every eager operation, every call of a compiled function and every numpy transform passes one of these
points.  While armed, the k-th passage raises ResourceExhaustedError (what an exhausted device reports)
and nothing of that operation happens."""
import numpy as np

kinds = ()
left = None          # passages still allowed, None: off
passed = 0
fired = 0
_done = False


def _pass(kind):
    global left, passed, fired
    if kind not in kinds: return
    passed += 1
    if left is None: return
    if left == 0:
        left = None
        fired += 1
        import tensorflow as tf
        raise tf.errors.ResourceExhaustedError(None, None, f"injected fault ({kind})")
    left -= 1


def install():
    global _done
    if _done: return
    _done = True
    import tensorflow as tf   # noqa: F401
    from tensorflow.python import pywrap_tfe
    from tensorflow.python.eager import context
    fast, full, call = pywrap_tfe.TFE_Py_FastPathExecute, pywrap_tfe.TFE_Py_Execute, context.Context.call_function

    def f(*a):
        _pass("op"); return fast(*a)

    def g(*a):
        _pass("op"); return full(*a)

    def h(self, *a, **k):
        _pass("op"); return call(self, *a, **k)
    pywrap_tfe.TFE_Py_FastPathExecute, pywrap_tfe.TFE_Py_Execute, context.Context.call_function = f, g, h
    for name in ("fft2", "ifft2", "fftn", "ifftn", "fft", "ifft"):
        def wrap(o):
            def w(*a, **k):
                _pass("fft"); return o(*a, **k)
            return w
        setattr(np.fft, name, wrap(getattr(np.fft, name)))


def arm(kind, k):
    global kinds, left, passed
    kinds, left, passed = (kind,), k, 0


def disarm():
    global kinds, left
    kinds, left = (), None
