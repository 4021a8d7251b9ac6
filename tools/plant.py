"""Make planted bugs: tools/plant.py [ID...] writes /verif/seeded/ID/ and tries each in a scratch copy.

For each: applies, demo passes on the clean copy and fails on the changed one, the suite's stable tests still pass, and which check sees it."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plants import PLANTS
import plants2, plants3, plants4, plants5  # noqa: F401

PY = "/opt/venv/bin/python"
ENV = dict(os.environ, MPLBACKEND="Agg", CUDA_VISIBLE_DEVICES="-1", TF_CPP_MIN_LOG_LEVEL="3", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
STABLE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()


def sh(cmd, cwd, timeout=900, **env):
    p = subprocess.run(cmd, cwd=cwd, env={**ENV, **env}, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def plant(p, check=True, tests=True):
    out = []
    d = os.path.join(ROOT, "seeded", p["id"])
    tmp = tempfile.mkdtemp(prefix="plant_" + p["id"] + "_", dir="/tmp")
    repo = os.path.join(tmp, "repo")
    try:
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        sh("git checkout -q -- . && git clean -fdq", repo)
        for f, old, new in p["edits"]:
            path = os.path.join(repo, f)
            s = open(path, newline="", encoding="utf-8").read()
            if "\r\n" in s: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert s.count(old) == 1, f"{p['id']}: {s.count(old)} places in {f}: {old!r}"
            open(path, "w", newline="", encoding="utf-8").write(s.replace(old, new))
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(["git", "diff", "--binary"], cwd=repo, stdout=subprocess.PIPE).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(p["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# cwd is the repository\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES=-1 TF_CPP_MIN_LOG_LEVEL=3\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        demo = os.path.join(d, "demo.sh")
        rc, o = sh(["bash", demo], repo)
        out.append(f"demo patched rc={rc}" + ("" if rc else "  <-- SHOULD FAIL"))
        out.append("   " + o.strip().split("\n")[-1][:200])
        if tests:
            ok = True
            for extra in ([], ["--backend64"]):
                rc, o = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "test", *extra], repo)
                tail = [l for l in o.strip().split("\n")][-1]
                fails = [l for l in o.split("\n") if l.startswith(("FAILED", "ERROR"))]
                out.append(f"tests {extra}: rc={rc} {tail}" + ("" if rc == 0 else "  <-- TESTS " + "; ".join(fails)[:300]))
        if check:
            for c in p.get("checks", [p["property"]]):
                rc, o = sh(["./check", c, "quick"], ROOT, VF_REPO=repo, VERIF_SEED="1")
                out.append(f"check {c} rc={rc}" + ("" if rc == 1 else "  <-- MISSED"))
                if rc != 0: out += ["   " + l[:300] for l in o.split("\n")[1:3]]
        sh("git checkout -q -- .", repo)
        rc, o = sh(["bash", demo], repo)
        out.append(f"demo clean rc={rc}" + ("" if rc == 0 else "  <-- SHOULD PASS " + o[-300:]))
    except Exception as e:
        out.append(f"{type(e).__name__}: {e}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return f"== {p['id']} ({p['property']})\n" + "\n".join("  " + o for o in out)


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    todo = [p for p in PLANTS if not ids or p["id"] in ids]
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda p: plant(p, "-nocheck" not in sys.argv, "-notest" not in sys.argv), todo):
            print(r, flush=True)
