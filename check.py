#!/usr/bin/env python3
"""Run the check of one property against the current /repo working tree.

    check.py PID [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: held on everything explored.  Exit 1: `VIOLATION property=PID replay=FILE`.
Exit 2: no verdict (build failure, harness error, monitor never reached, watchdog).
"""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from mon import build as mb            # noqa: E402
from mon import registry as reg        # noqa: E402

KNOWN = os.path.join(HERE, "known_findings.json")


def env_for(tree, scratch):
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    e.update(PYTHONPATH=tree + os.pathsep + HERE, PYTHONDONTWRITEBYTECODE="1",
             PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(scratch, "mpl"),
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", HOME=scratch, TMPDIR=scratch,
             VERIF_SCRATCH=scratch)
    return e


def run_workers(pid, tier, seed, tree, scratch, only=None, limit=800, extra=None):
    n = 1 if only else reg.SHARDS.get(pid, 8)
    procs = []
    for s in range(n):
        wd = os.path.join(scratch, "w%d" % s)
        os.makedirs(wd)
        out = os.path.join(scratch, "out%d.json" % s)
        log = open(os.path.join(scratch, "log%d" % s), "w")
        p = subprocess.Popen([mb.PY, "-m", "mon.worker", pid, tier, str(seed), str(s), str(n), tree,
                              out, only or ""], cwd=wd, env=dict(env_for(tree, scratch), **(extra or {})), stdout=log,
                             stderr=subprocess.STDOUT, start_new_session=True)
        procs.append((p, out, log.name))
    end = time.time() + limit
    res, errs = [], []
    for p, out, log in procs:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            errs.append("watchdog: a worker ran for more than %d s" % limit)
            continue
        if os.path.exists(out):
            with open(out) as f:
                res.append(json.load(f))
        else:
            with open(log, errors="replace") as f:
                txt = f.read()
            k = max(txt.find("ERROR: AddressSanitizer"), txt.find("runtime error:"))
            txt = txt[max(k-200, 0):][:4000] if k >= 0 else txt[-4000:]
            if -p.returncode in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
                # the harness is pure Python: native code of the tree crashed
                at = ["", "-1"]
                if os.path.exists(out+".now"):
                    with open(out+".now") as f:
                        at = f.read().split(":")[:2]
                res.append({"evaluations": 1, "sigs": [], "counters": {"no-native-crash": 1}, "samples": [],
                            "violations": [{"property": pid, "scenario": at[0], "index": int(at[1]), "seed": seed, "tier": tier, "shard": s,
                                            "monitor": "no-native-crash", "case": {},
                                            "message": "the process died of signal %d" % -p.returncode,
                                            "data": {"log": txt}}],
                            "gaveup": [], "errors": [], "known": [], "margins": {}, "scen": {}, "truncated": False})
            else:
                errs.append("worker exit %s: %s" % (p.returncode, txt))
    return res, errs


def merge(res):
    m = {"evaluations": 0, "sigs": set(), "counters": {}, "samples": [], "violations": [], "gaveup": [],
         "errors": [], "known": [], "margins": {}, "scen": {}, "truncated": False}
    for r in res:
        m["evaluations"] += r["evaluations"]
        m["sigs"] |= set(r["sigs"])
        for k, v in r["counters"].items():
            m["counters"][k] = m["counters"].get(k, 0) + v
        for k, v in r["margins"].items():
            m["margins"][k] = max(m["margins"].get(k, 0), v)
        for k, v in r["scen"].items():
            a = m["scen"].setdefault(k, [0, 0])
            a[0] += v[0]
            a[1] += v[1]
        seen = {s["scenario"] for s in m["samples"]}
        m["samples"] += [s for s in r["samples"] if s["scenario"] not in seen]
        for k in ("violations", "errors", "known", "gaveup"):
            m[k] += r[k]
        m["truncated"] |= r["truncated"]
    return m


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--tree", help="use this already built tree (development only)")
    a = ap.parse_args()
    t0 = time.time()
    only = None
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        a.pid, a.seed, a.tier = r["property"], r["seed"], r["tier"]
        if r.get("scenario") and r["index"] >= 0:
            only = "%s:%d" % (r["scenario"], r["index"])
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % a.pid)
    signal.signal(signal.SIGTERM, lambda *x: sys.exit(2))
    try:
        code = check(a, scratch, only, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return code


def check(a, scratch, only, t0):
    pid, tier = a.pid, a.tier
    try:
        tree = a.tree or (None if pid in reg.OWN_BUILD else mb.build(os.path.join(scratch, "b")))
    except Exception as e:
        print("ERROR: %s" % e)
        return 2
    limit = 780 if tier == "quick" else 6*3600
    special = reg.SPECIAL.get(pid) if hasattr(reg, "SPECIAL") else None
    if special:
        import importlib
        try:
            res, errs = importlib.import_module("mon.props." + special).drive(
                pid, tier, a.seed, tree, scratch, only, limit, run_workers)
        except mb.BuildError as e:
            print("ERROR: %s" % e)
            return 2
    else:
        res, errs = run_workers(pid, tier, a.seed, tree, scratch, only, limit)
    m = merge(res)
    vio = m["violations"]
    for sc, (n, ev) in m["scen"].items():
        g = [v for v in m["gaveup"] if v["scenario"] == sc]
        if len(g) > max(3, (.25 if sc.startswith("large_") else .05)*n) and not only:
            g[0]["message"] = "%d of %d cases: %s" % (len(g), n, g[0]["message"])
            vio.append(dict(g[0], index=-1))
    for e in errs:
        print("ERROR:", e)
    for e in m["errors"][:3]:
        print("HARNESS ERROR in %s[%s]:\n%s" % (e["scenario"], e["index"], e["error"]))
    # known findings
    listed = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            listed = [k for k in json.load(f)["findings"] if k["property"] == pid]
    fresh, hit = [], set()
    for v in vio:
        for k in listed:
            if k["scenario"] == v["scenario"] and k["monitor"] == v["monitor"]:
                hit.add(k["id"])
                break
        else:
            fresh.append(v)
    for k in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    empty = [s for s, (n, ev) in m["scen"].items() if not ev] if not only else []
    if not only:
        cov = {
            "evaluations": m["evaluations"],
            "distinct_nontrivial": len(m["sigs"]),
            "rule": reg.RULES.get(pid, "Seeded cases of each scenario; a case is non-trivial when at least one "
                    "monitor compared a value of it, distinct by its workload signature."),
            "samples": m["samples"][:12] or [{"none": True}],
            "monitor_events": m["counters"],
            "scenarios": {k: {"cases": v[0], "monitor_events": v[1]} for k, v in m["scen"].items()},
        }
        ev = {"property": pid, "tier": tier, "seed": a.seed, "level": "exploration", "coverage": cov,
              "assumptions": reg.ASSUMPTIONS.get(pid, reg.ASSUMPTIONS["*"]) if hasattr(reg, "ASSUMPTIONS") else [],
              "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct, %d monitor events, %d violations, %.1f s%s" % (
        pid, tier, a.seed, m["evaluations"], len(m["sigs"]), sum(m["counters"].values()), len(fresh),
        time.time() - t0, " (truncated)" if m["truncated"] else ""))
    if m["margins"]:
        for k, v in sorted(m["margins"].items(), key=lambda t: -t[1]):
            print("  margin %-60s %.3g" % (k, v))
    if fresh:
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        v = fresh[0]
        path = os.path.join(rd, "%s-%s-%s-%s.json" % (pid, v["scenario"], v["index"], v["seed"]))
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        for w in fresh[:4]:
            print("  %s[%s] %s: %s %s" % (w["scenario"], w["index"], w["monitor"], w["message"],
                                          json.dumps(w["data"])[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errs or m["errors"]:
        return 2
    if only is None and (m["evaluations"] == 0 or not m["sigs"] or empty):
        print("INCONCLUSIVE: scenarios that observed nothing: %s" % (empty or "all"))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
