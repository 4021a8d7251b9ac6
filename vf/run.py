"""Run one check: spawn its workers, merge what they observed, write the evidence, give the verdict.

exit 0  the property held on everything explored
exit 1  VIOLATION property=<id> replay=<path>
exit 2  inconclusive: a worker died or timed out, or the deciding monitor was not reached
"""
import argparse, importlib, json, os, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def spawn(prop, tier, seed, prec, shard, nshards, out, only=None, soft=None, extra_env=None):
    env = dict(os.environ)
    env.update(PYTHONPATH=HERE, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", TF_CPP_MIN_LOG_LEVEL="3", HOME=env.get("HOME", "/root"))
    env["TMPDIR"] = os.path.dirname(out)   # what the libraries leave behind goes with it
    env.update(extra_env or {})
    cmd = [sys.executable, "-m", "vf.worker", prop, "--tier", tier, "--seed", str(seed), "--prec", str(prec),
           "--shard", str(shard), "--nshards", str(nshards), "--out", out]
    if only: cmd += ["--only", only]
    if soft: cmd += ["--soft", str(soft)]
    log = open(out + ".log", "w")
    return subprocess.Popen(cmd, cwd=HERE, env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)


def known_findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)).get("findings", []) if k["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("tier", nargs="?"); ap.add_argument("--replay")
    ap.add_argument("--seed", type=int)
    a = ap.parse_args()
    prop = a.prop.upper()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    mod = importlib.import_module("vf.checks." + prop.lower())
    t0 = time.time()
    default = {"quick": [(32, 2), (64, 2)], "thorough": [(32, 4), (64, 4)]}
    plan = getattr(mod, "PLAN", default)[tier]
    hard = getattr(mod, "HARD", {"quick": 600, "thorough": 3600})[tier]
    soft = getattr(mod, "SOFT", {"quick": 240, "thorough": 2400})[tier]
    jobs = [(prec, s, n, None) for prec, n in plan for s in range(n)]
    if a.replay:
        r = json.load(open(a.replay))
        seed, tier = r["seed"], r["tier"]
        jobs = [(r["violation"]["prec"], 0, 1, f'{r["violation"]["family"]}:{r["violation"]["index"]}')]
    results, broken, crashed = [], [], []
    with tempfile.TemporaryDirectory(prefix="vf") as tmp:
        procs = []
        for prec, s, n, only in jobs:
            out = os.path.join(tmp, f"{prec}_{s}.json")
            procs.append((spawn(prop, tier, seed, prec, s, n, out, only, soft), out, prec, s))
        for p, out, prec, s in procs:
            try:
                rc = p.wait(timeout=max(1, hard - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                rc = "timeout"
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            if rc == 0 and os.path.exists(out):
                results.append(json.load(open(out)))
            else:
                log = open(out + ".log", errors="replace").read()
                # a check may declare that its workload must not crash the process (memory unsafe races)
                if getattr(mod, "CRASH", False) and isinstance(rc, int) and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
                    crashed.append({"family": "process", "index": s, "prec": prec, "message": f"the process died of signal {-rc}", "detail": {"log": log[-400:]}, "case": []})
                broken.append(f"worker prec={prec} shard={s} ended with {rc}: ...{log[-1500:]}")
    counters, distinct, samples, violations, truncated = {}, set(), [], crashed, []
    for r in results:
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        distinct |= {f'{r["prec"]}:{d}' for d in r["distinct"]}
        violations += r["violations"]; truncated += r["truncated"]
        for s in r["samples"]:
            if len([x for x in samples if x.split("[")[0] == s.split("[")[0]]) < 2:
                samples.append(s)
    evaluations = sum(r["evaluations"] for r in results)
    reported = []
    for v in violations:
        for k in known_findings(prop):
            m = k["match"]
            if all(x in json.dumps(v) for x in m):
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
                break
        else:
            reported.append(v)
    missing = []
    if not a.replay and not reported:
        need = getattr(mod, "NEED", {"cases": 1})
        missing = [f"{k}: saw {counters.get(k, 0)}, needs {v}" for k, v in need.items() if counters.get(k, 0) < v]
    if a.replay:
        for v in reported: print(json.dumps(v, indent=1))
        print("REPRODUCED" if reported else "not reproduced in isolation; rerun the whole check with the same seed")
        sys.exit(1 if reported else 2 if broken else 0)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": {"evaluations": evaluations, "distinct_nontrivial": len(distinct), "rule": mod.RULE,
                       "samples": samples or ["none"], "observed": counters, "workers": len(results),
                       "precisions": sorted({r["prec"] for r in results}), "truncated": truncated, "inconclusive": broken + missing},
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": len(reported)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier} seed={seed}: {counters.get('cases', 0)} cases, {evaluations} oracle evaluations, "
          f"{counters.get('points_compared', 0)} points, {len(distinct)} distinct, {time.time()-t0:.1f} s"
          + (f", truncated {truncated}" if truncated else ""))
    if reported:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        path = os.path.join(HERE, "replay", f"{prop}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, "violation": reported[0], "all": reported}, f, indent=1)
        for v in reported[:5]:
            print(f"  {v['family']}[{v['index']}] {v['prec']}bit: {v['message']} {v['detail']}")
            print("    case: " + "; ".join(v["case"])[:600])
        print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    if broken or missing:
        for b in broken + missing: print("INCONCLUSIVE " + b)
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
