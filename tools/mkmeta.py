#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from one table (properties whose module exists are claimed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PB = "dataprofiler/profilers/profile_builder.py"
NS = "dataprofiler/profilers/numerical_column_stats.py"
T_ORACLE = "runtime monitoring: the real code is driven by generated hostile workloads and every observed result is checked online against an independent reference oracle"
T_DIFF = "runtime monitoring: differential/metamorphic monitor over recorded reports of related executions of the real code"
T_STATE = "runtime monitoring: state-snapshot monitors (before/after observation of inputs, operands and reports) around real operations"
T_FAULT = "runtime monitoring with fault injection: real code run with injected failures while state monitors watch"

P = []


def add(id, title, statement, over, text, why, files, mech, technique=T_ORACLE, level="exploration", note="", observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], **({"observe_at": observe} if observe else {})},
                  _t=technique, _l=level, _n=note))


exec(open(os.path.join(HERE, "tools", "props_table.py")).read())

have = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, "vp", "props")) if f.startswith("p") and f[1:3].isdigit()}
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        if p["id"] in have:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
man = {
    "version": 1,
    "setup_cmd": "/verif/setup.sh",
    "checks": [
        {"property": p["id"], "quick_cmd": f"/verif/run.sh {p['id']} --tier quick", "thorough_cmd": f"/verif/run.sh {p['id']} --tier thorough",
         "technique": p["_t"], "level": p["_l"],
         "level_note": p["_n"] or "Holds on every execution explored (generated workloads, deterministic per seed); not a proof over all inputs.",
         "evidence_file": f"evidence/{p['id']}.json"}
        for p in P if p["id"] in have],
    "not_applicable": [],
    "notes": "Pure-Python target imported from /repo's working tree: no build step is needed and no hooks were added to /repo. "
             "Exit codes: 0 held, 1 violation, 2 inconclusive (deciding monitors not reached), 3 harness error.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
missing = have - {p["id"] for p in P}
print(len(P), "properties,", len(have), "modules; modules without property:", sorted(missing))
