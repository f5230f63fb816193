"""Entry point: run one property's check, write evidence, print the verdict."""
import argparse
import importlib
import json
import logging
import os
import shutil
import sys
import tempfile
import time
import warnings
from collections import Counter

from . import core

BASE_ASSUME = [
    "Verdict covers only the executions produced in this run (runtime monitoring).",
    "The reference computations in /verif/vp are independent of /repo and trusted.",
]


def load_known():
    p = os.path.join(core.HOME, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--case", type=int)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--scenario")
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if a.replay:
        r = json.load(open(a.replay))
        a.seed, a.case, a.tier = r["seed"], r["case"], r["tier"]
    t0 = time.time()
    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    os.chdir(core.HOME)
    import numpy as np
    np.seterr(all="ignore")
    try:
        import dataprofiler as dp
    except Exception:
        # the tree does not even import: nothing was observed
        import traceback
        traceback.print_exc()
        return 3
    if not os.path.abspath(dp.__file__).startswith(core.REPO + "/"):
        print("harness error: dataprofiler not imported from /repo:", dp.__file__)
        return 3
    import tqdm
    mod = importlib.import_module("vp.props." + a.prop.lower())
    if hasattr(mod, "setup"):
        mod.setup(a.tier)
    timeout = getattr(mod, "CASE_TIMEOUT", 60)
    if a.scenario:
        mod.SCENARIOS = [s for s in mod.SCENARIOS if s[0] == a.scenario]
    if a.case is not None:
        os.environ.setdefault("VP_LOUD", "1")
        rec = core.run_case(mod, a.seed, a.case, a.tier, timeout * 5)
        print(json.dumps({k: rec.get(k) for k in ("i", "s", "status", "t", "counts", "notes")}, indent=1, default=str))
        if rec.get("error"):
            print(rec["error"])
        for sig, msg in rec["viol"]:
            print("FAIL", sig, "::", msg)
        return 1 if rec["viol"] else 0

    n = a.cases or mod.CASES[a.tier]
    budget = a.budget or getattr(mod, "BUDGET", {}).get(a.tier) or (240 if a.tier == "quick" else 3000)
    deadline = t0 + budget
    workdir = tempfile.mkdtemp(prefix="vp_" + a.prop + "_")
    nproc = int(os.environ.get("VP_NPROC") or getattr(mod, "NPROC", 8))
    try:
        recs, crashed = core.run_forked(mod, a.seed, range(n), a.tier, timeout, deadline, nproc, workdir, "a")
        # cases whose worker died or timed out: rerun alone, more generously
        retry = sorted(set(crashed) | {i for i, r in recs.items() if r["status"] == "timeout"})
        rerun_crash = []
        for i in retry[:6]:
            r2, c2 = core.run_forked(mod, a.seed, [i], a.tier, timeout * 2, time.time() + timeout * 2 + 5, 1, workdir, f"r{i}")
            if c2:
                rerun_crash.append(i)
            else:
                recs.update(r2)
        # cases the dead worker never reached
        lost = [i for i, r in recs.items() if r["status"] == "unrun"]
        if crashed and lost and time.time() < deadline:
            r3, c3 = core.run_forked(mod, a.seed, lost, a.tier, timeout, deadline, nproc, workdir, "l")
            recs.update(r3)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)

    counts, status, sigs, scen = Counter(), Counter(), set(), Counter()
    viols, errors = [], []
    for i in sorted(recs):
        r = recs[i]
        status[r["status"]] += 1
        counts.update(r.get("counts", {}))
        sigs.update(r.get("sigs", []))
        if r.get("s"):
            scen[r["s"]] += 1
        for sig, msg in r.get("viol", []):
            viols.append((i, r["s"], sig, msg, r.get("notes", {})))
        if r["status"] == "harness_error":
            errors.append((i, r.get("error", "")))
    for i in retry[:6]:
        if recs.get(i, {}).get("status") == "timeout":
            viols.append((i, core.scenario_for(mod, i)[0], "no-termination", f"case did not finish within {timeout * 2}s alone, twice", {}))
    for i in rerun_crash:
        viols.append((i, core.scenario_for(mod, i)[0], "process-crash", "interpreter died twice on this case", {}))

    known = [k for k in load_known() if k["property"] == a.prop]
    import fnmatch
    hit, fresh = {}, []
    for v in viols:
        k = next((k for k in known if fnmatch.fnmatchcase(v[2], k["sig"]) and (not k.get("msg_contains") or k["msg_contains"] in v[3])), None)
        if k is None:
            fresh.append(v)
        else:
            hit.setdefault(k["sig"], [k, 0])[1] += 1

    executed = status["ok"]
    samples = [
        {"case": r["i"], "scenario": r["s"], "monitor_events": r["counts"].get("checks", 0), "inputs": r["notes"]}
        for r in list(recs.values())[: 400] if r["status"] == "ok" and r.get("notes")
    ][:6]
    top = {k: v for k, v in sorted(counts.items()) if k.startswith("chk.")}
    ev = {
        "property": a.prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": executed,
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples or [{"none": True}],
            "monitor_checks": counts.get("checks", 0),
            "scenarios": dict(scen),
            "oracle_firings": {k[4:]: v for k, v in top.items()},
            "events": {k: v for k, v in sorted(counts.items()) if not k.startswith("chk.") and k != "checks"},
            "status": dict(status),
            "known_findings_hit": {k: v[1] for k, v in hit.items()},
        },
        "assumptions": BASE_ASSUME + getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    evdir = os.path.join(core.HOME, "evidence")
    os.makedirs(evdir, exist_ok=True)
    tmp = os.path.join(evdir, f".{a.prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(evdir, a.prop + ".json"))

    for k, n_ in hit.values():
        print(f"KNOWN-FINDING: property={a.prop} {k['what']} (seen {n_}x)")
    print(f"{a.prop} {a.tier} seed={a.seed}: {executed} cases, {counts.get('checks', 0)} monitor checks, "
          f"{len(sigs)} distinct behaviours, status={dict(status)}, {ev['wall_s']}s")
    for i, e in errors[:3]:
        print(f"harness error in case {i}:\n{e}")
    if fresh:
        by = Counter(v[2] for v in fresh)
        seen = set()
        for i, s, sig, msg, notes in fresh:
            if sig in seen:
                continue
            seen.add(sig)
            rp = os.path.join(evdir, f"replay_{a.prop}_{len(seen)}.json")
            with open(rp, "w") as f:
                json.dump({"property": a.prop, "seed": a.seed, "case": i, "tier": a.tier, "scenario": s,
                           "sig": sig, "message": msg, "inputs": notes,
                           "how": f"/verif/run.sh {a.prop} --replay {rp}"}, f, indent=1)
            print(f"VIOLATION property={a.prop} replay={rp}")
            print(f"  [{by[sig]}x] case {i} scenario {s} sig {sig}: {msg[:1200]}")
            if len(seen) >= 12:
                break
        return 1
    if errors:
        return 3
    missing = [r for r in getattr(mod, "REQUIRED", []) if not counts.get(r)]
    if executed == 0 or counts.get("checks", 0) == 0 or missing:
        print("INCONCLUSIVE: deciding monitors not reached:", missing)
        return 2
    if status["timeout"] + status["unrun"] > 0.5 * len(recs):
        print("INCONCLUSIVE: too many cases did not run")
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
