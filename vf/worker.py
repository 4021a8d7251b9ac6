"""One process: fresh interpreter, one precision, one shard of one check."""
import argparse, importlib, json, os, sys, tempfile

os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ["CUDA_VISIBLE_DEVICES"] = "-1"
os.environ.setdefault("TF_NUM_INTRAOP_THREADS", "2")
os.environ.setdefault("TF_NUM_INTEROP_THREADS", "2")
os.environ.setdefault("MPLBACKEND", "Agg")

REPO = os.environ.get("VF_REPO", "/repo")


def load_library(prec, util=False):
    """import pySLM2 from the working tree (never from stale bytecode) at this precision"""
    import tensorflow as tf
    tf.get_logger().setLevel("ERROR")
    sys.pycache_prefix = tempfile.mkdtemp(prefix="vfpyc")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import pySLM2
    assert os.path.realpath(pySLM2.__file__).startswith(os.path.realpath(REPO) + os.sep), pySLM2.__file__
    if prec == 64:
        pySLM2.BACKEND.dtype = pySLM2.BACKEND.TENSOR_64BITS
    import shutil
    shutil.rmtree(sys.pycache_prefix, ignore_errors=True)
    return pySLM2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default="quick"); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--prec", type=int, default=32); ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--nshards", type=int, default=1); ap.add_argument("--out"); ap.add_argument("--only")
    ap.add_argument("--soft", type=float, default=600.0)
    a = ap.parse_args()
    from vf.core import Ctx
    only = None
    if a.only:
        fam, idx = a.only.rsplit(":", 1)
        only = (fam, int(idx))
    ctx = Ctx(a.prop, a.tier, a.seed, a.prec, a.shard, a.nshards, only, a.soft)
    mod = importlib.import_module("vf.checks." + a.prop.lower())
    if getattr(mod, "LIBRARY", True):
        import numpy as np
        import tensorflow as tf
        from vf import tap
        tap.install()
        ctx.P = load_library(a.prec)
        tf.random.set_seed(a.seed * 1000 + a.shard)
        np.random.seed(a.seed)
    mod.run(ctx)
    with open(a.out, "w") as f:
        json.dump(ctx.result(), f)


if __name__ == "__main__":
    main()
