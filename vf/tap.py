"""Tap on the random source (monitor hook, installed from outside the library).

The hologram algorithms draw their randomness with tf.random.uniform inside compiled functions.
While a tap is armed, draws made by functions compiled in that time come from (and are recorded
by) the harness, so that an executed run can be checked draw by draw against a reference.  A
function compiled while no tap is armed uses TensorFlow's own generator."""
import numpy as np

armed = False
log = []
source = None     # in place of uniform numbers: f(rng, shape) in [0, 1)
_rng = np.random.default_rng(0)
_orig = None


def _draw(shape, dt):
    shape = tuple(int(s) for s in shape)
    u = (_rng.random(shape) if source is None else source(_rng, shape)).astype(dt)
    u = np.minimum(u, np.nextafter(dt(1), dt(0)))
    log.append(u)
    return u


def install():
    global _orig
    import tensorflow as tf
    if _orig is not None:
        return
    _orig = tf.random.uniform

    def uniform(shape, minval=0, maxval=None, dtype=tf.float32, seed=None, name=None):
        if not armed or tf.as_dtype(dtype) not in (tf.float32, tf.float64):
            return _orig(shape, minval=minval, maxval=maxval, dtype=dtype, seed=seed, name=name)
        dtype = tf.as_dtype(dtype)
        u = tf.numpy_function(lambda s: _draw(s, dtype.as_numpy_dtype), [tf.convert_to_tensor(shape, dtype=tf.int32)], dtype)
        try:
            u = tf.ensure_shape(u, tf.TensorShape(shape))
        except Exception:
            pass
        if maxval is None and (isinstance(minval, (int, float)) and minval == 0):
            return u
        hi = 1 if maxval is None else maxval
        return tf.cast(minval, dtype) + tf.cast(tf.cast(hi, dtype) - tf.cast(minval, dtype), dtype) * u

    tf.random.uniform = uniform


def arm(seed):
    """from now on, compile with the tap and draw from this seed"""
    global armed, _rng
    armed = True
    _rng = np.random.default_rng(seed)
    del log[:]


def reseed(seed):
    global _rng
    _rng = np.random.default_rng(seed)
    del log[:]


def disarm():
    global armed
    armed = False
