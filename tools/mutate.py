#!/usr/bin/env python3
"""Development aid: small syntactic changes to one source file, those that pass the file's unit tests are judged by the checks.

usage: mutate.py FILE "P02,P05,..." "tests..." COUNT SEED [WORKERS]
Works in scratch copies under /tmp/mut (never in /repo); results are appended to /tmp/mut/results.jsonl.
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import threading

SRC, BASE = "/tmp/wr", "/tmp/mut"
SKIP_FUNCS = {"__repr__", "get_parameter_info", "help"}


def sites(tree):
    """(description, mutator(tree copy node)) for every mutable place, located by index in ast.walk order."""
    out = []
    nodes = list(ast.walk(tree))
    skip = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for a in ast.walk(n.args):
                skip.add(id(a))
            if n.returns:
                for a in ast.walk(n.returns):
                    skip.add(id(a))
            if n.name in SKIP_FUNCS or n.name.startswith("_validate"):
                for a in ast.walk(n):
                    skip.add(id(a))
        if isinstance(n, ast.AnnAssign):
            for a in ast.walk(n.annotation):
                skip.add(id(a))
        if isinstance(n, ast.Raise) or isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in ast.walk(n):
                skip.add(id(a))
        if isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if f.startswith(("logger", "warnings.", "TypeVar", "cast", "isinstance")):
                for a in ast.walk(n):
                    skip.add(id(a))
        if isinstance(n, ast.ClassDef):
            for b in n.bases + n.keywords:
                for a in ast.walk(b):
                    skip.add(id(a))
    SW = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
          ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
    BO = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Pow: ast.Mult, ast.Mod: ast.Add}
    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        L = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare):
            for alt in SW.get(type(n.ops[0]), []):
                out.append((i, L, f"cmp->{alt.__name__}", lambda m, alt=alt: m.ops.__setitem__(0, alt())))
        elif isinstance(n, ast.BinOp) and type(n.op) in BO:
            out.append((i, L, f"op->{BO[type(n.op)].__name__}", lambda m: setattr(m, "op", BO[type(m.op)]())))
        elif isinstance(n, ast.AugAssign) and type(n.op) in BO:
            out.append((i, L, "aug->" + BO[type(n.op)].__name__, lambda m: setattr(m, "op", BO[type(m.op)]())))
        elif isinstance(n, ast.BoolOp):
            out.append((i, L, "bool", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())))
            if len(n.values) > 1:
                out.append((i, L, "dropcond", lambda m: m.values.pop()))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float, bool) and L:
            v = n.value
            for w in ([not v] if isinstance(v, bool) else [v + 1, 0] if v not in (0,) else [1]):
                out.append((i, L, f"const {v}->{w}", lambda m, w=w: setattr(m, "value", w)))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)) and not isinstance(n, ast.While):
            for b in (True, False):
                out.append((i, L, f"if->{b}", lambda m, b=b: setattr(m, "test", ast.Constant(b))))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((i, L, "dropnot", lambda m: (setattr(m, "op", ast.Not()), setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand)))))
        elif isinstance(n, ast.Call):
            f = n.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
            sw = {"min": "max", "max": "min", "any": "all", "all": "any", "nanmin": "nanmax", "nanmax": "nanmin", "lower": "strip", "sorted": "list",
                  "floor": "ceil", "ceil": "floor", "argmax": "argmin", "argmin": "argmax", "cumsum": "copy", "first": "last"}
            if nm in sw:
                out.append((i, L, f"{nm}->{sw[nm]}", lambda m, t=sw[nm]: setattr(m.func, "id" if isinstance(m.func, ast.Name) else "attr", t)))
            if nm in ("deepcopy", "copy", "sorted", "list", "set", "abs", "round", "int", "float", "str", "defaultdict") and len(n.args) == 1 and not n.keywords:
                out.append((i, L, f"drop {nm}()", lambda m: (setattr(m, "func", ast.Name("__vp_id", ast.Load())))))
            if nm == "copy" and isinstance(f, ast.Attribute) and not n.args:
                out.append((i, L, "drop .copy()", lambda m: (setattr(m, "args", [m.func.value]), setattr(m, "func", ast.Name("__vp_id", ast.Load())))))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                out.append((i, L, "swap args", lambda m: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]])))
            if n.keywords and nm not in ("format",):
                out.append((i, L, f"drop kw {n.keywords[-1].arg}", lambda m: m.keywords.pop()))
        elif isinstance(n, ast.Slice) and n.upper is not None:
            out.append((i, L, "slice", lambda m: setattr(m, "upper", ast.BinOp(m.upper, ast.Sub(), ast.Constant(1)))))
    # statements that can be dropped
    for i, n in enumerate(nodes):
        body = getattr(n, "body", None)
        if not isinstance(body, list):
            continue
        for fld in ("body", "orelse"):
            for j, s in enumerate(getattr(n, fld, []) or []):
                if id(s) in skip or not isinstance(s, (ast.Expr, ast.AugAssign, ast.Assign, ast.Continue, ast.Break)):
                    continue
                if isinstance(s, ast.Expr) and (isinstance(s.value, ast.Constant) or id(s.value) in skip):
                    continue
                if isinstance(n, (ast.ClassDef, ast.Module)):
                    continue
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Name, ast.Tuple)):
                    continue
                out.append((i, s.lineno, "drop stmt", lambda m, j=j, fld=fld: getattr(m, fld).__setitem__(j, ast.Pass())))
    return out


def main():
    rel, props, tests, count, seed = sys.argv[1], sys.argv[2].split(","), sys.argv[3].split(), int(sys.argv[4]), int(sys.argv[5])
    workers = int(sys.argv[6]) if len(sys.argv) > 6 else 4
    src = open(os.path.join(SRC, rel)).read()
    tree = ast.parse(src)
    ss = sites(tree)
    random.Random(seed).shuffle(ss)
    todo = ss[:count]
    print(f"{rel}: {len(ss)} sites, trying {len(todo)}", flush=True)
    lines = src.splitlines()
    os.makedirs(BASE, exist_ok=True)
    lock = threading.Lock()
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", *tests], cwd=SRC, env=dict(os.environ, PYTHONPATH=SRC), capture_output=True, text=True)
    bad = [x.split()[1] for x in r.stdout.splitlines() if x.startswith(("FAILED", "ERROR")) and "::" in x]
    skipped = [y for x in bad for y in ("--deselect", x)]

    def work(w):
        repo, ver = f"{BASE}/r{os.getpid()}_{w}", f"{BASE}/v{os.getpid()}_{w}"
        subprocess.run(["cp", "-a", SRC, repo], check=True)
        subprocess.run(["rsync", "-a", "--exclude", ".git", "--exclude", "evidence", "--exclude", "seeded", "/verif/", ver + "/"], check=False)
        if not os.path.isdir(ver):
            shutil.copytree("/verif", ver, ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))
        path = os.path.join(repo, rel)
        while True:
            with lock:
                if not todo:
                    break
                idx, ln, desc, fn = todo.pop(0)
            t = copy.deepcopy(tree)
            node = list(ast.walk(t))[idx]
            try:
                fn(node)
                ast.fix_missing_locations(t)
                code = ast.unparse(t)
                if "__vp_id" in code:
                    code = code.replace("from __future__ import annotations\n", "from __future__ import annotations\n__vp_id = lambda x: x\n", 1) \
                        if "from __future__ import annotations\n" in code else "__vp_id = lambda x: x\n" + code
                compile(code, rel, "exec")
            except Exception as e:
                continue
            open(path, "w").write(code)
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", *skipped, *tests], cwd=repo,
                               env=dict(os.environ, PYTHONPATH=repo), capture_output=True, text=True)
            if r.returncode != 0:
                with lock:
                    open(BASE + "/killed.txt", "a").write(f"{rel}:{ln} {desc}\n")
                continue
            env = dict(os.environ, VP_REPO=repo, VP_NPROC="2", VERIF_SEED="1")
            caught = None
            for frac in (6, 1):
                for p in props:
                    n = None
                    if frac > 1:
                        import re
                        m = re.search(r'"quick":\s*(\d+)', open(f"{ver}/vp/props/{p.lower()}.py").read())
                        n = max(20, int(m.group(1)) // frac)
                    cmd = [f"{ver}/run.sh", p] + (["--cases", str(n)] if n else [])
                    try:
                        r = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=600)
                        rc, txt = r.returncode, r.stdout
                    except subprocess.TimeoutExpired:
                        rc, txt = 1, "VIOLATION timeout"
                    if rc == 1 and "VIOLATION" in txt:
                        sig = next((x.split(" sig ")[1][:60] for x in txt.splitlines() if " sig " in x), "?")
                        caught = (p, frac, sig)
                        break
                    if rc not in (0, 1, 2) and frac == 1:
                        caught = (p, frac, f"rc{rc}")
                        break
                if caught:
                    break
            rec = dict(file=rel, line=ln, desc=desc, text=lines[ln - 1].strip() if ln else "", caught=caught)
            with lock:
                open(BASE + "/results.jsonl", "a").write(json.dumps(rec) + "\n")
                print(("SURVIVED " if not caught else f"caught {caught} ") + f"{rel}:{ln} {desc} :: {rec['text']}", flush=True)
        shutil.rmtree(repo, ignore_errors=True)
        shutil.rmtree(ver, ignore_errors=True)

    th = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    [t.start() for t in th]
    [t.join() for t in th]
    print("done", rel, flush=True)


main()
