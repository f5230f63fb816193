"""What profiles say about labels: averages, votes, the chosen label, sampling, batches, merges, diffs; text entity counts."""
import os
import re
from collections import Counter

import numpy as np
import pandas as pd

import dataprofiler as dp
from dataprofiler.labelers import data_processing as dpz
from dataprofiler.labelers.base_data_labeler import BaseDataLabeler
from dataprofiler.labelers.regex_model import RegexModel

from .. import core, gen, util
from . import p21, p22

PROP = "P24"
RULE = ("tables and texts profiled with real labelers composed of the library's processors around a pattern model or a character-echo model (dense, sparse, shared and "
        "reserved label numbers; weak and tied confidences), one-shot, batched, merged, sampled, saved and compared; the labelers' calls are recorded; non-trivial = nulls and "
        "at least two labels voted for; distinct by (labeler, cells, mode)")
CASES = {"quick": 700, "thorough": 7000}
REQUIRED = ["chk.lab.avg", "chk.lab.votes", "chk.lab.label", "chk.lab.none", "chk.lab.cells", "chk.lab.sampled", "chk.lab.diff", "chk.lab.io", "chk.lab.merge", "chk.ent.chars",
            "chk.ent.post", "chk.ent.percent", "chk.ent.merge", "chk.ent.words", "chk.lab.onesided", "chk.lab.batchlimit"]
SO = "structured_options."
WSEP = set(" ,;\":\n\t.!'")


class Rec:
    """records the cells handed to predict, then lets the labeler answer"""

    def __init__(self, L):
        self.cells = []
        orig = L.predict

        def predict(data, *a, **k):
            self.cells.append([x for x in data])
            return orig(data, *a, **k)
        L.predict = predict


def regex_labeler(r):
    lm = r.choice([{"UNKNOWN": 0, "A": 1, "B": 2, "C": 3}, {"UNKNOWN": 1, "A": 2, "B": 3, "C": 4}, {"PAD": 0, "UNKNOWN": 1, "A": 2, "B": 3, "C": 4},
                   {"UNKNOWN": 1, "A": 3, "B": 6, "C": 8}, {"UNKNOWN": 0, "A": 4, "B": 2, "C": 1}])
    pats = {"A": [r"\d+"], "B": [r"[a-f]+", r"1\d"], "C": [r"^.", r"x|é"]}
    pats = {k: [v for v in ps if r.random() < .8] for k, ps in pats.items()}
    m = RegexModel(dict(lm), {"regex_patterns": pats, "ignore_case": False})
    L = BaseDataLabeler.load_with_components(dpz.DirectPassPreprocessor(), m, dpz.StructRegexPostProcessor(random_state=1))
    k = max(lm.values()) + 1
    idx = {i: l for l, i in lm.items()}

    def conf(s):
        w = p22.expect(lm, pats, "", "", 0, lm["UNKNOWN"], s)
        v = np.array([[1 / len(c) if j in c else 0 for j in range(k)] for c in w]).reshape(len(s), k).mean(axis=0)
        return {l: v[i] for i, l in idx.items()}
    return "regex", L, [idx[i] for i in sorted(idx)], conf, lambda: BaseDataLabeler.load_with_components(
        dpz.DirectPassPreprocessor(), RegexModel(dict(lm), {"regex_patterns": {a: list(b) for a, b in pats.items()}, "ignore_case": False}), dpz.StructRegexPostProcessor(random_state=1))


def echo_labeler(r):
    ml = r.choice([30, 3400])

    def make():
        return BaseDataLabeler.load_with_components(dpz.StructCharPreprocessor(max_length=ml), p21.EchoModel(), dpz.StructCharPostprocessor(random_state=1))
    names = p21.LABELS[1:]

    def conf(s):
        c = Counter(p21.lab(x) for x in s)
        return {l: c[p21.MAP[l]] / len(s) for l in names}
    return "echo", make(), names, conf, make


CELLS = ["123", "abc", "a1", "12ab", "XYZ", "x-y", "é1", "99999", "bead", "Q", "a b c", "1x2y", "-;", "AbC1", "日本", "..", "aA1-", "B2!x"]


def cells(r, n, nulls):
    pool = r.sample(CELLS, r.randint(1, 8))
    return [("" if r.random() < .5 else None) if r.random() < nulls else (r.choice(pool) if r.random() < .85 else gen.word(r)) for _ in range(n)]


def expect(names, conf, vals):
    """(average confidences, votes) over the given cells"""
    if not vals:
        return None
    cs = [conf(v) for v in vals]
    avg = {l: sum(c[l] for c in cs) / len(cs) for l in names}
    lo, hi = Counter(), Counter()   # certain votes / possible votes (ties)
    for c in cs:
        m = max(c.values())
        if m <= .2 - 1e-9:
            continue
        top = [l for l in names if c[l] > m - 1e-9]
        if len(top) == 1 and m > .2 + 1e-9:
            lo[top[0]] += 1
        for l in top:
            hi[l] += 1
    tied = sum(1 for c in cs if sum(1 for l in names if c[l] > max(c.values()) - 1e-9) > 1 and max(c.values()) > .2 + 1e-9)
    edge = any(abs(max(c.values()) - .2) < 1e-9 for c in cs)
    return avg, lo, hi, tied, edge


def label_ok(names, votes, got):
    """the reported label given the vote counts (None when not decidable)"""
    tot = sum(votes.values())
    if not tot:
        return got == "could not determine"
    share = sorted(((votes[l] / tot, l) for l in names), reverse=True)
    top = share[0][0]
    if top < .35 - 1e-9:
        return got == "could not determine"
    if got == "could not determine":
        return abs(top - .35) < 1e-9
    g = got.split("|")
    s = {l: v for v, l in share}
    if len(set(g)) != len(g) or not set(g) <= set(names) or len(g) > 3 or max(s[x] for x in g) < top - 1e-9:
        return False
    if any(s[a] < s[b] - 1e-9 for a, b in zip(g, g[1:])):     # most voted first
        return False
    if any(s[x] < top - .2 - 1e-9 for x in g):
        return False
    must = [l for v, l in share if v > top - .2 + 1e-9]
    if len(must) <= 3:
        return set(must) <= set(g)
    third = share[2][0]
    return all(l in g for l in must if s[l] > third + 1e-9) and len(g) == 3


def col_check(ctx, col, names, conf, vals, tag=""):
    st = col["statistics"]
    e = expect(names, conf, vals)
    if e is None:
        ctx.check(col["data_label"] is None, "lab.none", f"{tag}column without values labelled {col['data_label']!r}")
        return
    avg, lo, hi, tied, edge = e
    rep = st["data_label_representation"]
    if not ctx.check(set(rep) == set(names), "lab.names", f"{tag}labels {sorted(rep)}, expected {sorted(names)}"):
        return
    tot = sum(lo.values()) + tied
    if not edge:
        if tot == 0:
            ctx.check(all(v == 0 for v in rep.values()), "lab.votes", f"{tag}votes {rep} where no cell reached the threshold")
        else:
            ctx.check(all(lo[l] / tot - 1e-9 <= rep[l] <= hi[l] / tot + 1e-9 for l in names) and abs(sum(rep.values()) - 1) < 1e-9, "lab.votes",
                      f"{tag}representation {rep}; votes {dict(lo)} (+{tied} ties) of {tot}")
            votes = {l: round(rep[l] * tot) for l in names}
            ctx.check(label_ok(names, votes, col["data_label"]), "lab.label", f"{tag}label {col['data_label']!r} for the votes {votes}")
    return avg


def avg_of(p, i):
    """average confidences are kept by the profile; the report shows them where the format has room"""
    return p._profile[i].profiles["data_label_profile"]._profiles["data_labeler"].avg_predictions


def sc_struct(ctx):
    r = ctx.rng
    kind, L, names, conf, make = r.choice([regex_labeler, echo_labeler])(r)
    rec = Rec(L)
    n = r.choice([1, 3, 10, 40, 120])
    ncol = r.choice([1, 1, 2])
    cols = {f"c{i}": cells(r, n, r.choice([0, 0, .2, .6, 1 if r.random() < .3 else 0])) for i in range(ncol)}
    df = pd.DataFrame({k: pd.Series(v, dtype=object) for k, v in cols.items()})
    mode = r.choice(["one", "batch", "merge", "merge", "sampled", "io"])
    k = r.choice([1, 2, 5, 20]) if mode == "sampled" else None
    ctx.note(labeler=kind, mode=mode, cols={a: b[:15] for a, b in cols.items()}, n=n, names=names, k=k, mapping=dict(L.label_mapping))
    val = {a: [v for v in b if v not in (None, "")] for a, b in cols.items()}
    ctx.seen((kind, str(names), str(cols), mode), any(len(set(v)) > 1 for v in val.values()) and any(len(v) < n for v in val.values()))
    ex = {SO + "data_labeler.data_labeler_object": L}
    if k:
        ex[SO + "data_labeler.max_sample_size"] = k
    dp.set_seed(r.randrange(10**6))
    if mode in ("one", "sampled", "io"):
        p = util.profile(df, ex, labeler=True)
    elif mode == "batch":
        cut = r.randint(0, n)
        p = util.profile(df.iloc[:cut], ex, labeler=True) if cut else util.profile(df, ex, labeler=True)
        if 0 < cut < n:
            p.update_profile(df.iloc[cut:])
        elif cut == n:
            pass
    else:
        cut = r.randint(1, n) if n > 1 else 1
        ex2 = dict(ex)
        ex2[SO + "data_labeler.data_labeler_object"] = L if r.random() < .5 else make()
        a = util.profile(df.iloc[:cut], ex, labeler=True)
        if cut < n:
            b = util.profile(df.iloc[cut:], ex2, labeler=True)
            reps = util.rep(a), util.rep(b)
            p = a + b
            ctx.count("chk.lab.merge")
            ctx.check(core.deep_diff(util.rep(a), reps[0]) == [] and core.deep_diff(util.rep(b), reps[1]) == [], "lab.operands", "merging changed the operands' reports")
        else:
            p = a
    if mode != "sampled" and r.random() < .3:
        # saved before anything was asked of it
        path = os.path.join(ctx.tmpdir(), f"q{r.randrange(10**9)}.pkl")
        p.save(path)
        p = dp.Profiler.load(path)
        ctx.note(reloaded=True)
    R = util.rep(p)
    by = {c["column_name"]: c for c in R["data_stats"]}
    for i, c in enumerate(df.columns):
        if mode == "sampled":
            m = min(k, len(val[c]))
            mine = rec.cells[0:]
            ctx.check(all(len(x) <= k for x in mine), "lab.sampled", f"{[len(x) for x in mine]} cells labelled with a limit of {k}")
            if len(df.columns) == 1:
                seen = [str(x) for x in (mine[0] if mine else [])]
                ctx.check(len(seen) == m and not Counter(seen) - Counter(map(str, val[c])), "lab.sampled", f"labelled {seen[:9]}, expected {m} of the cells")
                e = col_check(ctx, by[c], names, conf, seen, "sampled ")
                got = avg_of(p, i)
                if e:
                    ctx.check(set(got) == set(e) and all(core.isclose(got[l], e[l], 1e-6, 1e-9) for l in e), "lab.avg", f"average confidences {got}, expected {e}")
            continue
        e = col_check(ctx, by[c], names, conf, val[c])
        got = avg_of(p, i)
        if e is None:
            ctx.check(got is None, "lab.none", f"average confidences {got} of a column without values")
        else:
            ctx.check(set(got) == set(e) and all(core.isclose(got[l], e[l], 1e-6, 1e-9) for l in e), "lab.avg", f"average confidences {got}, expected {e}")
    if mode == "one":
        ctx.eq(sorted(str(x) for b in rec.cells for x in b), sorted(str(x) for v in val.values() for x in v), "lab.cells", "cells labelled")
        if all(val.values()):
            q = util.profile(df.sample(frac=1, random_state=1).iloc[:r.randint(1, n)], ex, labeler=True)
            if all(c["data_label"] is not None for c in util.rep(q)["data_stats"]):
                D = p.diff(q)["data_stats"]
                for c, x in zip(df.columns, D):
                    A, B = avg_of(p, list(df.columns).index(c)), avg_of(q, list(df.columns).index(c))
                    d = x["statistics"].get("avg_predictions")
                    want = {l: A[l] - B[l] for l in A}
                    if d == "unchanged":
                        ctx.check(all(abs(v) < 1e-12 for v in want.values()), "lab.diff", f"diff of confidences 'unchanged', expected {want}")
                    else:
                        ctx.check(all((d[l] == "unchanged" and abs(want[l]) < 1e-12) or (d[l] != "unchanged" and core.isclose(d[l], want[l], 1e-6, 1e-9)) for l in want),
                                  "lab.diff", f"diff of confidences {d}, expected {want}")
    if mode == "one" and r.random() < .5 and any(val.values()):
        # against a profile that saw no value of the columns
        q = util.profile(pd.DataFrame({c: pd.Series([None, ""], dtype=object) for c in df.columns}), ex, labeler=True)
        for d, sgn in ((p.diff(q), 0), (q.diff(p), 1)):
            for i, (c, x) in enumerate(zip(df.columns, d["data_stats"])):
                if not val[c]:
                    continue
                for key, have in (("avg_predictions", avg_of(p, i)), ("label_representation", by[c]["statistics"]["data_label_representation"])):
                    got = x["statistics"][key]
                    ok = isinstance(got, dict) and set(got) == set(have) and all(isinstance(got[l], list) and got[l][1 - sgn] is None and core.isclose(got[l][sgn], have[l])
                                                                                 for l in have)
                    ctx.check(ok, "lab.onesided", lambda: f"{key} {got} against nothing, expected {have}")
    if mode == "io":
        path = os.path.join(ctx.tmpdir(), f"p{r.randrange(10**9)}.pkl")
        p.save(path)
        q = dp.Profiler.load(path)
        ctx.check(core.deep_diff(util.rep(q), R) == [], "lab.io", f"report after saving and loading: {core.deep_diff(util.rep(q), R)}")


def sc_limit(ctx):
    """with a limit on the cells to label, every batch contributes that many of its own cells"""
    r = ctx.rng
    kind, L, names, conf, make = r.choice([regex_labeler, echo_labeler])(r)
    rec = Rec(L)
    k = r.choice([1, 2, 5, 20])
    parts = [cells(r, r.choice([1, 3, 10, 40]), r.choice([0, .3])) for _ in range(r.randint(2, 4))]
    ctx.note(labeler=kind, k=k, sizes=[len(b) for b in parts])
    p = None
    dp.set_seed(r.randrange(10**6))
    for b in parts:
        d = pd.DataFrame({"c": pd.Series(b, dtype=object)})
        before = len(rec.cells)
        if p is None:
            p = util.profile(d, {SO + "data_labeler.data_labeler_object": L, SO + "data_labeler.max_sample_size": k}, labeler=True)
        else:
            p.update_profile(d)
        vals = [str(v) for v in b if v not in (None, "")]
        seen = [str(x) for y in rec.cells[before:] for x in y]
        ctx.check(len(seen) == min(k, len(vals)) and not Counter(seen) - Counter(vals), "lab.batchlimit",
                  f"{len(seen)} cells labelled of a batch with {len(vals)} values, limit {k}")
    alls = [str(x) for y in rec.cells for x in y]
    e = col_check(ctx, util.rep(p)["data_stats"][0], names, conf, alls, "limited ")
    got = avg_of(p, 0)
    if e:
        ctx.check(set(got) == set(e) and all(core.isclose(got[l], e[l], 1e-6, 1e-9) for l in e), "lab.avg", f"average confidences {got}, expected {e}")
    ctx.seen("limit", kind, k, tuple(map(len, parts)))


def sc_text(ctx):
    r = ctx.rng
    ml = r.choice([12, 40, 3400])
    split = r.choice([0, 1])

    def make():
        return BaseDataLabeler.load_with_components(dpz.CharPreprocessor(max_length=ml, flatten_split=split), p21.EchoModel(), dpz.CharPostprocessor())
    L = make()
    lines = [p21.text(r, 15).replace("\x00", "") for _ in range(r.randint(1, 12))]
    body = [s for s in lines if s.strip()]
    o = lambda LL: util.opts({"unstructured_options.data_labeler.data_labeler_object": LL}, labeler=True)
    data = pd.Series(lines, dtype=object, index=r.sample(range(100), len(lines)))
    mode = r.choice(["one", "batch", "merge"])
    cut = r.randint(1, len(lines))
    ctx.note(text=lines, mode=mode, cut=cut, ml=ml, split=split)
    ctx.seen(("text", tuple(lines), mode, cut, ml, split), len(body) < len(lines) and len(body) > 1)
    U = lambda d, LL: dp.Profiler(d, options=o(LL), profiler_type="unstructured")
    if mode == "one":
        p = U(data, L)
    else:
        p = U(data.iloc[:cut], L)
        if cut < len(lines):
            if mode == "batch":
                p.update_profile(data.iloc[cut:])
            else:
                if not any(s.strip() for s in lines[:cut]) or not any(s.strip() for s in lines[cut:]):
                    raise core.Skip
                p = p + U(data.iloc[cut:], r.choice([L, make()]))
                ctx.count("chk.ent.merge")
    R = p.report()["data_stats"].get("data_label") or {}
    if not body:
        return
    want = Counter(p21.LABELS[p21.lab(c)] for s in body for c in s)
    ec, ep = R["entity_counts"], R["entity_percentages"]
    tot = sum(want.values())
    ctx.check({k: v for k, v in ec["true_char_level"].items() if v} == dict(want), "ent.chars", f"characters per label {dict(ec['true_char_level'])}, expected {dict(want)}")
    ctx.check(sum(ec["postprocess_char_level"].values()) == tot and set(ec["postprocess_char_level"]) <= set(p21.LABELS) | {"UNKNOWN"}, "ent.post",
              f"word-level characters per label {dict(ec['postprocess_char_level'])} of {tot}")
    for lvl in ("true_char_level", "postprocess_char_level"):
        ctx.check(all(core.isclose(ep[lvl][k], v / tot, 1e-9, 1e-12) for k, v in ec[lvl].items()) and set(ep[lvl]) == set(ec[lvl]), "ent.percent", f"{lvl}: {dict(ep[lvl])} of {dict(ec[lvl])}")
    # words: every entity, and every other word that a separator ends
    post = dpz.CharPostprocessor(use_word_level_argmax=True, output_format="NER")
    words, chars = Counter(), Counter()
    for t in body:
        sp = [tuple(e) for e in post.process(np.array([t], dtype=object), {"pred": [[p21.lab(c) for c in t]]}, dict(p21.MAP))["pred"][0]]
        inside = [False] * len(t)
        for a, b, l in sp:
            words[l] += 1
            chars[l] += b - a
            inside[a:b] = [True] * (b - a)
        out = "".join(c for c, i in zip(t, inside) if not i)
        chars["UNKNOWN"] += len(out)
        words["UNKNOWN"] += sum(1 for x, y in zip(out, out[1:]) if x not in WSEP and y in WSEP)
    ctx.check({k: v for k, v in ec["word_level"].items() if v} == {k: v for k, v in words.items() if v}, "ent.words",
              f"words per label {dict(ec['word_level'])}, expected {dict(words)}")
    ctx.check({k: v for k, v in ec["postprocess_char_level"].items() if v} == {k: v for k, v in chars.items() if v}, "ent.post",
              f"word-level characters per label {dict(ec['postprocess_char_level'])}, expected {dict(chars)}")
    w = sum(ec["word_level"].values())
    ctx.check(all(core.isclose(ep["word_level"][k], v / w, 1e-9, 1e-12) for k, v in ec["word_level"].items()), "ent.percent", f"word_level: {dict(ep['word_level'])} of {dict(ec['word_level'])}")


SCENARIOS = [("columns", 5, sc_struct), ("texts", 2, sc_text), ("limit", 1, sc_limit)]
