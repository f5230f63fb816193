"""Pattern labelers and column-name labelers label exactly what matches."""
import json
import os
import random
import re

import numpy as np
import pandas as pd
import rapidfuzz

import dataprofiler  # noqa: F401
from dataprofiler.labelers import data_processing as dpz
from dataprofiler.labelers.base_data_labeler import BaseDataLabeler
from dataprofiler.labelers.column_name_model import ColumnNameModel
from dataprofiler.labelers.regex_model import RegexModel

from .. import core, gen, util
from .p21 import contain

PROP = "P22"
RULE = ("generated pattern sets (overlapping, empty-matching, anchored, cased, precompiled; shared and sparse label numbers; encapsulators) and texts (also >100 cells, "
        "empty cells), the shipped pattern labeler, and generated known / excluded column names with thresholds; non-trivial = some character matched by two labels or "
        "some column excluded; distinct by (patterns, texts) / (names, thresholds)")
CASES = {"quick": 2400, "thorough": 24000}
REQUIRED = ["chk.re.match", "chk.re.conf", "chk.re.split", "chk.re.priority", "chk.re.random", "chk.re.cell", "chk.re.cellconf", "chk.re.count", "chk.re.shipped", "chk.col.pred", "chk.col.conf",
            "chk.re.compiled", "chk.re.again", "chk.input.kept"]

PATS = [r"\d+", r"[a-c]+", r"x?", r"^\w", r"(?:foo|bar)", r"[A-Z]{2}", r"\bcat\b", r".", r"\s", r"a(?=b)", r"(?<=1)2", r"é", r"[^ ]+$", r"zz", r"(a|b)\1", r"\d{3}-\d{4}", r"", r"FOO"]


def words(r):
    k = r.random()
    if k < .08:
        return ""
    n = r.randint(1, 6)
    return r.choice([" ", "", "-"]).join(r.choice(["foo", "Bar", "cat", "1212", "aab", "ABC", "x", "555-1234", "éa", "zzz", "_", "\n", "日", "FOO1", ","]) for _ in range(n))


def expect(label_of, patterns, start, end, flags, default, s):
    """per character: the set of label numbers that match (the default alone when none does)"""
    out = [set() for _ in s]
    for name, plist in patterns.items():
        for p in plist:
            f = flags
            if not isinstance(p, str):
                f |= p.flags
                p = p.pattern
            for m in re.compile(start + p + end, f).finditer(s):
                for i in range(m.start(), m.end()):
                    out[i].add(label_of[name])
    return [o or {default} for o in out]


def mapping(r, names):
    k = r.choice(["dense", "sparse", "shared"])
    d = {"UNKNOWN": 1, "PAD": 0}
    for i, n in enumerate(names):
        d[n] = {"dense": 2 + i, "sparse": 3 + 2 * i, "shared": 2 + i // 2}[k]
    return d


def sc_regex(ctx):
    r = ctx.rng
    names = ["A", "B", "C", "D"][:r.randint(1, 4)]
    lm = mapping(r, names)
    compiled = r.random() < .15
    pats = {}
    for n in names:
        if r.random() < .9:
            pats[n] = [re.compile(p, r.choice([0, re.I])) if compiled and r.random() < .6 else p for p in r.sample(PATS, r.randint(0, 3))]
    ic = r.random() < .5
    enc = r.choice([None, None, {"start": "", "end": ""}, {"start": r"(?<![\w.])", "end": r"(?=\W|$)"}, {"start": r"\b", "end": ""}, {"start": "[ -]?", "end": "\\w"}])
    n = r.choice([0, 1, 2, r.randint(2, 12), r.randint(2, 12), 100, 101, r.randint(195, 210), 400] if r.random() < .3 else [1, 2, 5, 9])
    vals = [words(r) for _ in range(n)]
    params = {"regex_patterns": {k: list(v) for k, v in pats.items()}, "ignore_case": ic}
    if enc:
        params["encapsulators"] = dict(enc)
    e = enc or {"start": "", "end": ""}
    model = RegexModel(label_mapping=dict(lm), parameters=params)
    flags = re.I if ic else 0
    want = [expect(lm, pats, e["start"], e["end"], flags, 1, s) for s in vals]
    kind, box = contain(r, vals)
    how = r.choice(["split", "priority", "random", "cell", "model"])
    sc = r.random() < .6
    k = max(lm.values()) + 1
    ctx.note(patterns={a: [getattr(p, "pattern", p) for p in b] for a, b in pats.items()}, mapping=lm, ignore_case=ic, encapsulators=enc, vals=vals[:12], n=n, how=how, container=kind)
    ctx.seen(("re", str(sorted((a, str(b)) for a, b in pats.items())), str(enc), ic, tuple(vals[:20]), n, how), any(len(w) > 1 for ws in want for w in ws))
    if n:
        ctx.count("chk.re.compiled", int(compiled))
    if how == "model":
        res = model.predict(list(vals), show_confidences=sc, verbose=False)
        pre = None
    else:
        order = list(range(k))
        r.shuffle(order)
        post = {"split": lambda: dpz.RegexPostProcessor(aggregation_func="split"),
                "priority": lambda: dpz.RegexPostProcessor(aggregation_func="priority", priority_order=order if r.random() < .5 else np.array(order)),
                "random": lambda: dpz.RegexPostProcessor(aggregation_func="random", random_state=r.choice([None, 4])),
                "cell": lambda: dpz.StructRegexPostProcessor(random_state=1)}[how]()
        if how == "cell":
            if not vals:
                return
        L = BaseDataLabeler.load_with_components(dpz.DirectPassPreprocessor(), model, post)
        res = L.predict(box, batch_size=r.choice([1, 32]), predict_options=dict(show_confidences=sc), verbose=False)
        back = list(np.asarray(box, dtype=object).reshape(-1))
        ctx.check(back == vals, "input.kept", "the data given to predict changed")
    if not ctx.check(len(res["pred"]) == n and (not sc or len(res["conf"]) == n), "re.count", f"{len(res['pred'])} predictions for {n} texts"):
        return
    for i, (s, w) in enumerate(zip(vals, want)):
        p = np.asarray(res["pred"][i])
        share = np.array([[1 / len(c) if j in c else 0 for j in range(k)] for c in w]).reshape(len(s), k)
        if how == "cell":
            if not s:
                continue
            mean = share.mean(axis=0)
            ctx.check(mean[int(p)] >= mean.max() - 1e-9, "re.cell", f"cell {s!r} labelled {int(p)}, shares {mean}")
            if sc:
                ctx.check(np.allclose(res["conf"][i], mean), "re.cellconf", f"cell {s!r}: confidences {res['conf'][i]}, expected {mean}")
            continue
        if how in ("model", "split"):
            if not ctx.check(p.shape == (len(s), k), "re.shape", f"text {s!r}: predictions of shape {p.shape}"):
                continue
            if how == "model":
                ctx.check([set(np.flatnonzero(x)) for x in p] == w and set(np.unique(p)) <= {0, 1}, "re.match", f"text {s!r}: labels {[set(np.flatnonzero(x)) for x in p]}, expected {w}")
            else:
                ctx.check(np.allclose(p, share), "re.split", f"text {s!r}: {p.tolist()}, expected {share.tolist()}")
        elif how == "priority":
            exp = [next(j for j in order if j in c) for c in w]
            ctx.check([int(x) for x in p] == exp, "re.priority", f"text {s!r}: labels {p}, expected {exp} for the order {order}")
        else:
            ctx.check(len(p) == len(s) and all(int(x) in c for x, c in zip(p, w)), "re.random", f"text {s!r}: labels {p} not among {w}")
        if sc:
            ctx.check(np.allclose(np.asarray(res["conf"][i]).reshape(share.shape), share), "re.conf", f"text {s!r}: confidences {res['conf'][i]}")
    # the same object answers the same again
    if r.random() < .4 and n <= 12:
        for s, w, p in zip(vals, want, model.predict(list(vals), show_confidences=sc, verbose=False)["pred"]):
            ctx.check([set(np.flatnonzero(x)) for x in np.asarray(p)] == w, "re.again", f"a second prediction of {s!r}: {[set(np.flatnonzero(x)) for x in np.asarray(p)]}, expected {w}")


_SHIP = {}


def shipped():
    if not _SHIP:
        _SHIP["L"] = BaseDataLabeler.load_from_library("regex_model")
        d = os.path.join(core.REPO, "resources/labelers/regex_model")
        P = json.load(open(d + "/model_parameters.json"))
        _SHIP["P"], _SHIP["M"] = P, json.load(open(d + "/label_mapping.json"))
        _SHIP["C"] = {k: [re.compile(P["encapsulators"]["start"] + p + P["encapsulators"]["end"], re.I if P["ignore_case"] else 0) for p in v]
                      for k, v in P["regex_patterns"].items()}
    return _SHIP


def sc_shipped(ctx):
    r = ctx.rng
    S = shipped()
    vals = [r.choice(["bob@example.com", "4111 1111 1111 1111", "192.168.0.1", "https://a.b/c?d", "2020-01-01 10:00", "123", "4.5e3", "12 Main Street", "555-123-4567", "078-05-1120",
                      "fe80::1", "00:1b:63:84:45:e6", "1st", "35kg", "John Smith", "", "hello there", "é 日", gen.word(r), "3 o'clock", "x" * 40, "0f" * 16])
            + r.choice(["", "", " ", ", " + gen.word(r)]) for _ in range(r.randint(1, 5))]
    ctx.note(shipped=True, vals=vals)
    ctx.seen(("ship", tuple(vals)), len(vals) > 1)
    k = max(S["M"].values()) + 1
    d = S["M"][S["P"]["default_label"]]
    res = S["L"].predict(vals, predict_options=dict(show_confidences=True), verbose=False)
    ctx.eq(len(res["pred"]), len(vals), "re.count", "predictions")
    for s, p, c in zip(vals, res["pred"], res["conf"]):
        out = [set() for _ in s]
        dflt = [False] * len(s)
        for name, ps in S["C"].items():
            for q in ps:
                for m in q.finditer(s):
                    for i in range(m.start(), m.end()):
                        if S["M"][name] == d:
                            dflt[i] = True
                        else:
                            out[i].add(S["M"][name])
        p = np.asarray(p)
        for i, o in enumerate(out):
            got = set(np.flatnonzero(p[i] > 0))
            ok = got == (o or {d}) or (dflt[i] and got == o | {d})
            if not ctx.check(ok and abs(p[i].sum() - 1) < 1e-9, "re.shipped", f"{s!r} at {i}: labels {got}, expected {o or {d}}"):
                break


def sc_column(ctx):
    r = ctx.rng
    base = ["ssn", "social security number", "first_name", "last name", "home address", "Zip Code", "email", "phone number", "my_home_address", "suffix", "account", "id", "date of birth", "DOB"]
    labs = ["ssn", "name", "address", "contact", "other"]
    tp = [{"attribute": a, "label": r.choice(labs)} for a in r.sample(base, r.randint(1, 6))]
    fp = None if r.random() < .3 else [{"attribute": a, "label": "x"} for a in r.sample(["contract_number", "role", "send_address", "id", "account type", "phone", "email id"], r.randint(1, 3))]
    pos, neg = r.choice([50, 70, 85, 99]), r.choice([50, 60, 80, 100])
    names = []
    for _ in range(r.choice([1, 2, 5, 12])):
        a = r.choice(base + ["role", "send_address", "unrelated", "", "Contract_Number", "日本", "x y z"])
        if r.random() < .5:
            a = r.choice([a.upper(), a + "s", "the " + a, " ".join(reversed(a.split(" "))), a[:-1], a.replace(" ", "_"), a + r.choice("abc1"), a.title()])
        names.append(a)
    params = {"true_positive_dict": tp, "false_positive_dict": fp, "negative_threshold_config": neg if fp else r.choice([None, neg]), "positive_threshold_config": pos, "include_label": True}
    lm = {l: i for i, l in enumerate(labs)}
    L = BaseDataLabeler.load_with_components(dpz.DirectPassPreprocessor(), ColumnNameModel(lm, params), dpz.ColumnNameModelPostprocessor())
    sc = r.random() < .7
    kind, box = contain(r, names)
    ctx.note(names=names, known=tp, excluded=fp, pos=pos, neg=neg, container=kind)
    score = lambda a, b: rapidfuzz.fuzz.token_sort_ratio(a.lower(), b.lower())
    exp, edge = [], False
    for n in names:
        if fp:
            m = max(score(n, f["attribute"]) for f in fp)
            edge |= abs(m - neg) < 1e-3 and m != neg
            if m >= neg:
                continue
        ss = [score(n, t["attribute"]) for t in tp]
        m = max(ss)
        edge |= abs(m - pos) < 1e-3 and m != pos
        if m > pos:
            exp.append((m, {t["label"] for t, s in zip(tp, ss) if s > m - 1e-3}))
    ctx.seen(("col", tuple(names), str(tp), str(fp), pos, neg), 0 < len(exp) < len(names))
    if edge:
        return
    res = L.predict(box, predict_options=dict(show_confidences=sc), verbose=False)
    p = list(res["pred"])
    if ctx.check(len(p) == len(exp), "col.pred", f"{len(p)} labels {p}, expected {[b for _, b in exp]}"):
        ctx.check(all(a in b for a, (_, b) in zip(p, exp)), "col.pred", f"labels {p}, expected {[b for _, b in exp]}")
        if sc:
            c = list(res["conf"])
            ctx.check(len(c) == len(exp) and all(abs(a - m) < 1e-2 for a, (m, _) in zip(c, exp)), "col.conf", f"confidences {c}, expected {[m for m, _ in exp]}")


SCENARIOS = [("patterns", 7, sc_regex), ("shipped", 1, sc_shipped), ("columns", 3, sc_column)]
