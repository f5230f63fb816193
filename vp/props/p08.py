"""Operations do not disturb their inputs, operands or each other."""
import copy
import os

import numpy as np
import pandas as pd

import dataprofiler as dp

from .. import gen, util
from ..core import Skip, deep_diff

PROP = "P08"
RULE = ("random tables x option sets x operation sequences; a snapshot of every input, operand and report is compared before/after "
        "each operation; non-trivial = the operation really ran (profile non-empty); distinct by (scenario, option keys, operations)")
CASES = {"quick": 420, "thorough": 6000}
REQUIRED = ["chk.input.unchanged", "chk.operand.left", "chk.operand.right", "chk.merged.independent", "chk.report.stable",
            "chk.options.unchanged", "chk.save.unchanged"]


def snap(p):
    return util.strip_volatile(copy.deepcopy(p.report({"output_format": None})))


def same(ctx, a, b, sig, msg=""):
    d = deep_diff(a, b, 1e-12, 0)
    return ctx.check(not d, sig, lambda: f"{msg} {d[:3]}")


def opt_state(o, depth=0):
    if isinstance(o, dict):
        return {k: opt_state(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [opt_state(v, depth + 1) for v in o]
    if hasattr(o, "__dict__") and depth < 8 and "option" in type(o).__module__:
        return {type(o).__name__: {k: opt_state(v, depth + 1) for k, v in vars(o).items()}}
    return repr(o)


def build(r, labeler=False):
    extra = util.rand_extra(r)
    return extra, lambda d, **kw: util.profile(d, extra, **kw)


def inputs(ctx):
    r = ctx.rng
    n = r.choice([1, 3, 12, 40])
    mode = r.choice(["df", "df_native", "series", "list", "listoflists"])
    df, ks, _ = gen.table(r, n=n, index="any")
    if mode == "df":
        x = df
    elif mode == "df_native":
        x = pd.DataFrame({"i": np.arange(n), "f": np.random.RandomState(ctx.iseed).randn(n), "o": [None] * n,
                          "c": pd.Categorical(["u"] * n), "d": pd.date_range("2020", periods=n)})
    elif mode == "series":
        x = df.iloc[:, 0]
    elif mode == "list":
        x = df.iloc[:, 0].tolist()
    else:
        x = df.values.tolist()
    keep = x.copy(deep=True) if hasattr(x, "iloc") else copy.deepcopy(x)
    extra = util.rand_extra(r)
    o = util.opts(extra)
    st = opt_state(o)
    ctx.note(mode=mode, n=n, extra=extra, kinds=ks)
    p = dp.Profiler(x, options=o, profiler_type="structured", samples_per_update=r.choice([None, max(1, n // 2)]))
    ops = ["init"]
    for _ in range(r.randint(0, 2)):
        op = r.choice(["update", "report", "pretty"])
        ops.append(op)
        if op == "update":
            p.update_profile(x)
        else:
            p.report({"output_format": None if op == "report" else "pretty"})
    if hasattr(x, "iloc"):
        ok = x.equals(keep) and list(x.index) == list(keep.index)
        if isinstance(x, pd.DataFrame):
            ok = ok and list(x.columns) == list(keep.columns) and list(x.dtypes) == list(keep.dtypes)
        else:
            ok = ok and x.name == keep.name and x.dtype == keep.dtype
    else:
        ok = x == keep
    ctx.check(ok, "input.unchanged", lambda: f"{mode} input changed by {ops}")
    same(ctx, opt_state(o), st, "options.unchanged", "options object")
    ctx.seen("inputs", mode, tuple(ops), tuple(sorted(extra)))


def reports(ctx):
    """reporting never changes what later reports, updates or merges say"""
    r = ctx.rng
    n = r.choice([2, 12, 40])
    df, ks, _ = gen.table(r, n=n)
    extra, mk = build(r)
    cut = r.randint(1, n - 1)
    p, q = mk(df.iloc[:cut]), mk(df.iloc[:cut])
    fm = [r.choice([None, "pretty", "compact", "serializable", "flat"]) for _ in range(r.randint(1, 4))]
    ctx.note(kinds=ks, extra=extra, formats=fm)
    a = snap(p)
    for f in fm:
        ro = {"output_format": f, "num_quantile_groups": r.choice([4, 10]), "remove_disabled_flag": r.random() < .3}
        if r.random() < .4:
            ro["omit_keys"] = ["data_stats.*.statistics.times"]
        keep = copy.deepcopy(ro)
        p.report(ro)
        ctx.check(ro == keep, "report.options_arg", lambda: f"{keep} became {ro}")
    same(ctx, snap(p), a, "report.stable", f"after {fm}")
    p.update_profile(df.iloc[cut:])
    q.update_profile(df.iloc[cut:])
    same(ctx, snap(p), snap(q), "report.no_effect_on_update", f"after {fm}")
    ctx.seen("reports", tuple(fm), tuple(sorted(extra)))


def merges(ctx):
    r = ctx.rng
    n = r.choice([3, 12, 40])
    df, ks, _ = gen.table(r, n=n)
    extra, mk = build(r)
    parts = gen.split_points(r, n, 3)
    fr = [df.iloc[a:b] for a, b in parts]
    if r.random() < .25:
        fr[r.randrange(2)].iloc[:] = ""
    mts = r.choice([0, 0, 3])
    a, b = mk(fr[0], min_true_samples=mts), mk(fr[1], min_true_samples=mts)
    ctx.note(kinds=ks, extra=extra, parts=parts)
    sa, sb = snap(a), snap(b)
    m = a + b
    same(ctx, snap(a), sa, "operand.left", "merge changed left")
    same(ctx, snap(b), sb, "operand.right", "merge changed right")
    sm = snap(m)
    ops = []
    for _ in range(r.randint(1, 3)):
        op = r.choice(["upd_a", "upd_b", "upd_m", "merge_m", "rep"])
        ops.append(op)
        if op == "upd_a":
            a.update_profile(fr[2])
            sa = snap(a)
        elif op == "upd_b":
            b.update_profile(fr[2])
            sb = snap(b)
        elif op == "upd_m":
            m.update_profile(fr[2])
            sm = snap(m)
        elif op == "merge_m":
            m + mk(fr[2], min_true_samples=mts)
        else:
            m.report()
        same(ctx, snap(a), sa, "operand.left", f"{op}")
        same(ctx, snap(b), sb, "operand.right", f"{op}")
        same(ctx, snap(m), sm, "merged.independent", f"{op}")
    ctx.seen("merges", tuple(ops), tuple(sorted(extra)), mts)


def diffs(ctx):
    r = ctx.rng
    n = r.choice([4, 12, 40])
    df, ks, _ = gen.table(r, n=n)
    extra, mk = build(r)
    cut = r.randint(1, n - 1)
    a, b = mk(df.iloc[:cut]), mk(df.iloc[cut:])
    ctx.note(kinds=ks, extra=extra)
    sa, sb = snap(a), snap(b)
    d1 = a.diff(b)
    same(ctx, snap(a), sa, "operand.left", "diff changed left")
    same(ctx, snap(b), sb, "operand.right", "diff changed right")
    d2 = a.diff(b)
    same(ctx, util.strip_volatile(d1), util.strip_volatile(d2), "diff.repeatable")
    ctx.seen("diffs", tuple(ks), tuple(sorted(extra)))


def saves(ctx):
    r = ctx.rng
    n = r.choice([4, 20])
    df, ks, _ = gen.table(r, n=n)
    extra, mk = build(r)
    extra.pop("structured_options.row_statistics.unique_count.hashing_method", None)
    cut = r.randint(1, n - 1)
    p, q = mk(df.iloc[:cut]), mk(df.iloc[:cut])
    a = snap(p)
    method = r.choice(["pickle", "json"])
    f = os.path.join(ctx.tmpdir(), "x." + method)
    ctx.note(kinds=ks, extra=extra, method=method)
    p.save(f, save_method=method)
    same(ctx, snap(p), a, "save.unchanged", method)
    p.update_profile(df.iloc[cut:])
    q.update_profile(df.iloc[cut:])
    same(ctx, snap(p), snap(q), "save.no_effect_on_update", method)
    ctx.seen("saves", method, tuple(sorted(extra)))


def shared_options(ctx):
    """profilers built from the same options object do not influence each other"""
    r = ctx.rng
    extra = util.rand_extra(r)
    o = util.opts(extra)
    dfs = [gen.table(r, n=r.choice([3, 20]))[0] for _ in range(3)]
    ctx.note(extra=extra)
    ps = [dp.Profiler(d, options=o, profiler_type="structured") for d in dfs]
    i = r.randrange(3)
    st = [snap(p) for p in ps]
    ps[i].update_profile(dfs[i])
    for j in range(3):
        if j != i:
            same(ctx, snap(ps[j]), st[j], "shared.independent", f"profiler {j} after updating {i}")
    fresh = util.profile(dfs[2], extra)
    if i != 2:
        same(ctx, snap(ps[2]), snap(fresh), "shared.same_as_fresh")
    ctx.seen("shared", i, tuple(sorted(extra)))


def unstructured(ctx):
    r = ctx.rng
    txt = [gen.text_cell(r) for _ in range(r.randint(1, 8))]
    kind = r.choice(["list", "series"])
    x = pd.Series(txt) if kind == "series" else list(txt)
    keep = copy.deepcopy(x)
    o = util.opts()
    st = opt_state(o)
    mk = lambda d: dp.Profiler(d, options=util.opts(), profiler_type="unstructured")
    p = dp.Profiler(x, options=o, profiler_type="unstructured")
    ctx.check(x.equals(keep) if kind == "series" else x == keep, "input.unchanged", "text input")
    same(ctx, opt_state(o), st, "options.unchanged", "options object")
    q = mk([gen.text_cell(r) for _ in range(3)])
    sp, sq = snap(p), snap(q)
    m = p + q
    same(ctx, snap(p), sp, "operand.left")
    same(ctx, snap(q), sq, "operand.right")
    sm = snap(m)
    p.update_profile([gen.text_cell(r)])
    q.report({"output_format": "compact"})
    q.diff(p)
    same(ctx, snap(m), sm, "merged.independent")
    same(ctx, snap(q), sq, "operand.right", "diff/report")
    ctx.note(text=txt)
    ctx.seen("unstr", kind, len(txt))


SCENARIOS = [("inputs", 3, inputs), ("reports", 3, reports), ("merges", 5, merges), ("diffs", 2, diffs), ("saves", 2, saves),
             ("shared_options", 1, shared_options), ("unstructured", 1, unstructured)]
