"""Development helper: write /verif/seeded/<id>/ from a spec.

usage: mkbug.py SPEC.py   where SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)]
`demo` is the body of a Python program which exits non-zero (assertion) when the property is broken.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

SE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
SH = """#!/bin/bash
# cwd: the repository
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 DATAPROFILER_SEED=0 CUDA_VISIBLE_DEVICES=-1 TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""
HEAD = """import os, sys, warnings, logging, tempfile, copy, json
warnings.filterwarnings("ignore"); logging.disable(logging.CRITICAL)
import numpy as np, pandas as pd
import dataprofiler as dp
def options(**kw):
    o = dp.ProfilerOptions()
    s = {"structured_options.data_labeler.is_enabled": False, "unstructured_options.data_labeler.is_enabled": False,
         "structured_options.multiprocess.is_enabled": False}
    s.update({k.replace("__", "."): v for k, v in kw.items()})
    o.set(s)
    return o
def prof(data, mts=0, spu=None, **kw):
    return dp.Profiler(data, options=options(**kw), profiler_type="structured", min_true_samples=mts, samples_per_update=spu)
def stats(p, i=0, fmt=None):
    return p.report(report_options={"output_format": fmt})["data_stats"][i]["statistics"]
"""


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = os.path.join(SE, b["id"])
        os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(prefix="mkbug")
        try:
            subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r"])
            for f, old, new in b["edits"]:
                p = os.path.join(w, "r", f)
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
        finally:
            subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
            shutil.rmtree(w, ignore_errors=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(HEAD + b["demo"].strip() + "\nprint('ok')\n")
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("wrote", b["id"])


main()
