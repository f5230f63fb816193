"""Merging profiles of two row sets equals profiling the rows together."""
import os
import re

import pandas as pd

import dataprofiler as dp
from dataprofiler.profilers import profiler_utils

from .. import colcheck, gen, samerep, util
from .p06 import _mixed_dates

PROP = "P07"
RULE = ("random tables split into 2..4 parts profiled separately and merged (+, chained, list merge; permuted columns; all-null, "
        "constant, single-row parts; merged then updated) vs. one-shot profile; non-trivial = both sides non-empty; distinct "
        "by (scenario, column types, part sizes)")
CASES = {"quick": 620, "thorough": 8000}
REQUIRED = ["chk.merge.mean", "chk.merge.null_count", "chk.merge.unique_row_ratio", "chk.merge.chi2_matrix", "chk.merge.unique_count", "chk.merge.file_type"]


def _cmp(ctx, p, q, df, tag="merge", pats=None):
    g, w = util.rep(p), util.rep(q)
    samerep.glob(ctx, g, w, tag)
    for i in range(df.shape[1]):
        f = colcheck.facts(df.iloc[:, i].tolist(), pats)
        if _mixed_dates(f):
            ctx.count("skipped_mixed_dates")
            continue
        samerep.column(ctx, g["data_stats"][i], w["data_stats"][i], tag, len(f["values"]), order=False, cells=f["values"],
                       skip=samerep.NUMERIC if samerep.nonfinite(f["values"]) else ())


def two(ctx):
    r = ctx.rng
    n = r.choice([2, 4, 12, 40, 80])
    df, ks, _ = gen.table(r, n=n)
    (a, b), (c, d) = gen.split_points(r, n, 2)
    ctx.note(kinds=ks, cut=b, n=n, head=df.head(3).values.tolist())
    p = util.profile(df.iloc[a:b]) + util.profile(df.iloc[c:d])
    _cmp(ctx, p, util.profile(df), df)
    ctx.seen("two", tuple(ks), min(b, 10), n)


def overlap_index(ctx):
    """both sides number their rows from 0"""
    r = ctx.rng
    n = r.choice([4, 20])
    df, ks, _ = gen.table(r, n=n)
    (a, b), (c, d) = gen.split_points(r, n, 2)
    x, y = df.iloc[a:b].reset_index(drop=True), df.iloc[c:d].reset_index(drop=True)
    p = util.profile(x) + util.profile(y)
    ctx.note(kinds=ks, cut=b, n=n)
    _cmp(ctx, p, util.profile(df), df, )
    ctx.seen("ovl", tuple(ks), b, n)


def many(ctx):
    r = ctx.rng
    n = r.choice([5, 20, 40])
    df, ks, _ = gen.table(r, n=n)
    parts = gen.split_points(r, n, r.randint(3, 4))
    ps = [util.profile(df.iloc[a:b]) for a, b in parts]
    mode = r.choice(["left", "right", "list"])
    if mode == "left":
        p = ps[0]
        for x in ps[1:]:
            p = p + x
    elif mode == "right":
        p = ps[-1]
        for x in reversed(ps[:-1]):
            p = x + p
    else:
        p = profiler_utils.merge_profile_list(ps)
    ctx.note(kinds=ks, parts=parts, mode=mode)
    _cmp(ctx, p, util.profile(df), df)
    ctx.seen("many", mode, tuple(ks), len(parts))


def permuted(ctx):
    r = ctx.rng
    n = r.choice([4, 20, 40])
    k = r.randint(2, 4)
    df, ks, _ = gen.table(r, n=n, ncols=k)
    (a, b), (c, d) = gen.split_points(r, n, 2)
    perm = list(range(k))
    r.shuffle(perm)
    p = util.profile(df.iloc[a:b]) + util.profile(df.iloc[c:d, perm])
    ctx.note(kinds=ks, perm=perm)
    _cmp(ctx, p, util.profile(df), df)
    ctx.seen("perm", tuple(ks), tuple(perm))


def then_update(ctx):
    """a merged profile keeps absorbing rows"""
    r = ctx.rng
    n = r.choice([6, 20, 40])
    df, ks, _ = gen.table(r, n=n)
    parts = gen.split_points(r, n, 3)
    p = util.profile(df.iloc[slice(*parts[0])]) + util.profile(df.iloc[slice(*parts[1])])
    p.update_profile(df.iloc[slice(*parts[2])])
    ctx.note(kinds=ks, parts=parts)
    _cmp(ctx, p, util.profile(df), df)
    ctx.seen("upd", tuple(ks), tuple(parts))


def heterogeneous(ctx):
    r = ctx.rng
    kinds = ["int", "float", "text", "cat", "allnull", "intcat", "uniq", "date", "longtext"]
    x, _, _ = gen.table(r, n=r.choice([1, 3, 12]), ncols=2, kinds=kinds, names=["a", "b"])
    y, _, _ = gen.table(r, n=r.choice([1, 3, 12]), ncols=2, kinds=kinds, names=["a", "b"])
    df = pd.concat([x, y], ignore_index=True)
    y = df.iloc[len(x):]
    p = util.profile(x) + util.profile(y)
    ctx.note(head=df.head(3).values.tolist(), sizes=(len(x), len(y)))
    _cmp(ctx, p, util.profile(df), df)
    ctx.seen("het", len(x), len(y), tuple(c["data_type"] for c in util.rep(p)["data_stats"]))


def _options(r):
    e = util.rand_extra(r)
    s = "structured_options."
    for k in ("correlation.is_enabled", "null_replication_metrics.is_enabled"):      # P11
        e.pop(s + k, None)
    for k in ("category.max_sample_size_to_check_stop_condition", "category.stop_condition_unique_value_ratio"):    # P26
        e.pop(s + k, None)
    if r.random() < .15:
        e[s + "null_values"] = r.choice([{"": 0, "7": 0}, {"nan": re.IGNORECASE}, {"": 0, "[a-c].*": re.IGNORECASE}])
    return e


def configured(ctx):
    """any mixture of updates and merges under any options, names repeated or numbers, rows labelled anyhow"""
    r = ctx.rng
    e = _options(r)
    n = r.choice([4, 12, 30])
    df, ks, _ = gen.table(r, n=n)
    m = r.random()
    if m < .15:
        df.columns = range(df.shape[1])
    elif m < .3:
        df.columns = ["dup"] * df.shape[1]
    elif m < .4 and df.shape[1] > 1:
        df.columns = (["d", "x", "D", "y"])[:df.shape[1]]
    parts = gen.split_points(r, n, r.randint(2, 5))
    restart = r.random() < .4
    ctx.note(kinds=ks, options=e, parts=parts, restart=restart, names=list(df.columns), head=df.head(3).values.tolist())
    ps = []
    for a, b in parts:
        ch = df.iloc[a:b]
        if restart:
            ch = ch.reset_index(drop=True)
        if ps and r.random() < .4:
            ps[-1].update_profile(ch)
        else:
            ps.append(util.profile(ch, e))
    k = len(ps)
    while len(ps) > 1:
        i = r.randrange(len(ps) - 1)
        if r.random() < .3:
            ps[i].report({"output_format": None})
        ps[i:i + 2] = [ps[i] + ps[i + 1]]
    _cmp(ctx, ps[0], util.profile(df, e), df, pats=e.get("structured_options.null_values"))
    ctx.seen("conf", tuple(ks), k, len(parts), tuple(sorted(e)))


def sources(ctx):
    """what a merged profile says about where its rows came from is true of both sides"""
    r = ctx.rng
    df, ks, _ = gen.table(r, n=4, ncols=2, kinds=["int", "text", "cat"], names=["a", "b"])
    def mk(kind):
        if kind == "frame":
            return df
        if kind == "series":
            return df["a"]
        f = os.path.join(ctx.tmpdir(), f"{kind}.{r.randrange(10**6)}")
        t = df if kind != "json" else df.astype(str)
        if kind == "csv":
            with open(f, "w", encoding="utf-8", newline="") as h:
                h.write("a,b\n" + "".join(f"r{i},{i}\n" for i in range(6)))
            return dp.Data(f, data_type="csv", options={"delimiter": ",", "header": 0})
        if kind == "utf16":
            with open(f, "w", encoding="utf-16", newline="") as h:
                h.write("a,b\n" + "".join(f"r{i},{i}\n" for i in range(6)))
            return dp.Data(f, data_type="csv", options={"delimiter": ",", "header": 0, "encoding": "utf-16"})
        with open(f, "w", encoding="utf-8") as h:
            h.write(t[["a", "b"]].to_json(orient="records"))
        return dp.Data(f, data_type="json")
    x, y = (r.choice(["frame", "csv", "utf16", "json"]) for _ in range(2))
    p, q = util.profile(mk(x)), util.profile(mk(y))
    m = p + q
    for key in ("file_type", "encoding"):
        a, b, c = (util.rep(z)["global_stats"][key] for z in (p, q, m))
        ctx.note(**{key: (a, b, c)})
        ctx.check((c == a) if a == b else (c not in (a, b) and c is not None), "merge." + key, lambda: f"{x}+{y}: {a!r} + {b!r} = {c!r}")
    ctx.seen("src", x, y)


SCENARIOS = [("configured", 4, configured), ("sources", 1, sources), ("two", 5, two), ("overlap_index", 1, overlap_index), ("many", 2, many), ("permuted", 1, permuted),
             ("then_update", 2, then_update), ("heterogeneous", 3, heterogeneous)]
