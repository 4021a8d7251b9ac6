"""Run a scenario in a fresh library: a forked child that imports pySLM2 for the first time.

The parent imports TensorFlow but runs no operation and never imports pySLM2, so each child starts
from the state a user's interpreter has before its first use of the library, in under a second."""
import os, pickle, select, signal, struct, sys, time, traceback

TIMEOUT = 240


class ChildFailed(Exception):
    pass


def prepare():
    import numpy, tensorflow as tf   # noqa: F401 (paid once, inherited by the children)
    import scipy.special, scipy.constants   # noqa: F401
    tf.get_logger().setLevel("ERROR")


def call(fn, *args):
    """fn(*args) in a child; returns its result or raises ChildFailed with the child's traceback"""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = ("ok", fn(*args))
            except BaseException as e:
                out = ("exc", f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:])
            try:
                data = pickle.dumps(out)
            except Exception as e:
                data = pickle.dumps(("exc", f"result cannot be sent: {e}"))
            with os.fdopen(w, "wb") as f:
                f.write(struct.pack("<Q", len(data))); f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    t0 = time.time()
    try:
        while True:
            left = TIMEOUT - (time.time() - t0)
            if left <= 0 or not select.select([r], [], [], left)[0]:
                raise ChildFailed(f"no answer within {TIMEOUT} s")
            part = os.read(r, 1 << 20)
            if not part: break
            buf += part
    finally:
        os.close(r)
        try: os.kill(pid, signal.SIGKILL)
        except ProcessLookupError: pass
        os.waitpid(pid, 0)
    if len(buf) < 8 or len(buf) - 8 != struct.unpack("<Q", buf[:8])[0]:
        raise ChildFailed("the child process died")
    kind, out = pickle.loads(buf[8:])
    if kind == "exc":
        raise ChildFailed(out)
    return out


def library(prec=None):
    """in the child: the library, never from stale bytecode"""
    import tempfile, shutil
    from vf.worker import REPO
    sys.pycache_prefix = tempfile.mkdtemp(prefix="vfpyc")
    if REPO not in sys.path: sys.path.insert(0, REPO)
    try:
        import pySLM2
    finally:
        shutil.rmtree(sys.pycache_prefix, ignore_errors=True)
    assert os.path.realpath(pySLM2.__file__).startswith(os.path.realpath(REPO) + os.sep), pySLM2.__file__
    if prec == 64: pySLM2.BACKEND.dtype = pySLM2.BACKEND.TENSOR_64BITS
    if prec == 32: pySLM2.BACKEND.dtype = pySLM2.BACKEND.TENSOR_32BITS
    return pySLM2


def case(outer, body, *args):
    """run body(case, *args) with its oracles in a child; counters, notes and violations come back"""
    from vf.core import Violation

    def inner():
        ctx = outer.ctx
        ctx.counters, e0 = {}, ctx.evaluations
        out = {"violation": None}
        try:
            body(outer, *args)
        except Violation as e:
            out["violation"] = (str(e), e.detail)
        out.update(counters=ctx.counters, evaluations=ctx.evaluations - e0, desc=outer.desc)
        return out
    try:
        out = call(inner)
    except ChildFailed as e:
        raise Violation("unexpected failure in a fresh process: " + str(e).split("\n")[0][:300], traceback=str(e)[-1200:])
    outer.desc = out["desc"]
    outer.ctx.evaluations += out["evaluations"]
    for k, v in out["counters"].items(): outer.event(k, v)
    if out["violation"]: raise Violation(out["violation"][0], **out["violation"][1])
