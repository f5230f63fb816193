"""Sampling: how many rows, which rows, shared between columns, reproducible by seed."""
import math
import os

import numpy as np
import pandas as pd

import dataprofiler as dp

from .. import colcheck, core, gen, util

PROP = "P14"
RULE = ("tables whose numeric cells are distinct powers of two, so the set of rows each column sampled can be read off the public sum "
        "and null positions, for random sample sizes, minimum true samples, histories and seeds; non-trivial = fewer rows "
        "sampled than given; distinct by (n, sample size, minimum true samples, rows sampled)")
CASES = {"quick": 420, "thorough": 6000}
REQUIRED = ["chk.samp.size", "chk.samp.same_rows", "chk.samp.stats", "chk.samp.min_true", "chk.samp.nested", "chk.samp.seed_same",
            "chk.samp.cover", "chk.samp.default_size", "chk.samp.env_seed", "chk.samp.repeat"]


NODATE = {"structured_options.datetime.is_enabled": False}  # lone identifiers such as 1024 can read as dates


def _with_seed(seed, fn):
    old = os.environ.get("DATAPROFILER_SEED")
    try:
        dp.set_seed(seed)
        return fn()
    finally:
        dp.set_seed(None)
        if old is not None:
            os.environ["DATAPROFILER_SEED"] = old


def _bits(total, n):
    total = int(total)
    return {i for i in range(n) if total >> i & 1}


def subset(ctx):
    """no minimum of true samples: every column is described by the same min(k, n) rows, and only by those"""
    r = ctx.rng
    n = r.choice([3, 10, 25, 45])
    k = r.choice([1, 2, n // 2 or 1, n - 1, n, n + 5])
    df, ks, _ = gen.table(r, n=n, kinds=["int", "float", "text", "cat", "date", "uniq", "intcat"], ncols=r.randint(1, 3))
    df["zid"] = [str(2 ** i) for i in range(n)]
    df.index, ik = gen.index_for(r, n)
    seed = r.randrange(1000)
    via = r.choice(["init", "update_arg"])
    ctx.note(n=n, k=k, kinds=ks, index=ik, seed=seed, via=via)

    def build():
        if via == "init":
            return util.profile(df, NODATE, samples_per_update=k)
        p = dp.StructuredProfiler(None, options=util.opts(NODATE))
        p.update_profile(df, sample_size=k)
        return p
    p = _with_seed(seed, build)
    rp = p.report({"output_format": None})
    m = min(k, n)
    st = rp["data_stats"][-1]["statistics"]
    ctx.eq(rp["global_stats"]["samples_used"], m, "samp.used")
    ctx.eq(rp["global_stats"]["row_count"], n, "samp.row_count")
    ctx.eq(st["sample_size"], m, "samp.size")
    S = sorted(_bits(st["sum"], n))
    ctx.eq(len(S), m, "samp.distinct", "each sampled row counts once")
    sub = df.iloc[S]
    for i in range(df.shape[1]):
        rc = rp["data_stats"][i]
        f = colcheck.facts(sub.iloc[:, i].tolist())
        st = rc["statistics"]
        ctx.eq(st["sample_size"], m, "samp.size")
        ctx.eq(st["null_count"], f["null_count"], "samp.same_rows", "nulls of the same rows")
        got = set().union(*st["null_types_index"].values()) if st["null_types_index"] else set()
        labels = sub.index.tolist()
        want = {labels[j] for v in f["null_types"].values() for j in v}
        ctx.check(got == want, "samp.same_rows", lambda: f"{got} vs {want}")
        colcheck.categorical(ctx, rc, f, tag="samp.stats_cat")
        if rc["data_type"] in ("int", "float") and f["values"]:
            v = [float(x) for x in f["values"]]
            ctx.close(st["min"], min(v), "samp.stats")
            ctx.close(st["max"], max(v), "samp.stats")
            ctx.close(st["sum"], math.fsum(v), "samp.stats", abs_=1e-9 * (1 + math.fsum(map(abs, v))))
        colcheck.samples_ok(ctx, rc, f, tag="samp.samples")
        colcheck.order(ctx, rc, f, tag="samp.order")
    # the same seed samples the same rows and reports the same
    q = _with_seed(seed, build)
    d = core.deep_diff(_nt(rp), _nt(q.report({"output_format": None})))
    ctx.check(not d, "samp.seed_same", lambda: f"same seed, different report: {d}")
    if m < n:
        ctx.seen("sub", n, k, tuple(S))


def _nt(x):
    if isinstance(x, dict):
        return {k: _nt(v) for k, v in x.items() if k != "times"}
    if isinstance(x, list):
        return [_nt(v) for v in x]
    return x


def min_true(ctx):
    """with a minimum of true samples, columns keep sampling in steps until they have enough values"""
    r = ctx.rng
    n = r.choice([6, 20, 45])
    k = r.choice([1, 2, 3, n // 3 or 1, n])
    t = r.choice([1, 2, n // 4 or 1, n // 2, n])
    cols = {}
    for i in range(r.randint(2, 4)):
        rate = r.choice([0, .2, .6, .9])
        cols[f"c{i}"] = ["" if r.random() < rate else str(2 ** j) for j in range(n)]
    df = pd.DataFrame(cols, dtype=object)
    seed = r.randrange(1000)
    ctx.note(n=n, k=k, min_true=t, seed=seed, nulls=[sum(c == "" for c in v) for v in cols.values()])
    p = _with_seed(seed, lambda: util.profile(df, NODATE, samples_per_update=k, min_true_samples=t))
    rp = p.report({"output_format": None})
    sets = []
    for i, c in enumerate(df):
        st = rp["data_stats"][i]["statistics"]
        s = st["sample_size"]
        nulls = set().union(*st["null_types_index"].values()) if st["null_types_index"] else set()
        true = _bits(st["sum"], n) if s > st["null_count"] else set()
        rows = nulls | true
        ctx.eq(len(rows), s, "samp.rows", f"column {c}: {sorted(rows)}")
        ctx.check(all((df[c].iloc[j] == "") == (j in nulls) for j in rows), "samp.rows")
        ctx.check(s == n or s % k == 0, "samp.steps", f"{s} of {n} in steps of {k}")
        ctx.check(s >= min(k, n), "samp.at_least")
        ctx.check(s == n or len(true) >= t, "samp.min_true", lambda: f"column {c}: {len(true)} values < {t} after {s} of {n} rows")
        sets.append((s, rows, len(true), c))
        if not (df[c] == "").any():
            want = min(n, k * max(1, math.ceil(t / k)))
            ctx.eq(s, want, "samp.stops", "a column without nulls stops as soon as it has enough")
    sets.sort(key=lambda x: x[0])
    for a in range(len(sets)):
        for b in range(a + 1, len(sets)):
            ctx.check(sets[a][1] <= sets[b][1], "samp.nested", lambda: "columns sample the rows in one common order")
            if sets[a][0] == sets[b][0] - k or (sets[b][0] == n and 0 < n - sets[a][0] <= k):
                tb = sum(df[sets[b][3]].iloc[j] != "" for j in sets[a][1])
                ctx.check(tb < t, "samp.no_oversampling", lambda: f"column {sets[b][3]} had {tb} >= {t} values already")
    ctx.seen("mt", n, k, t, tuple(x[0] for x in sets))


def history(ctx):
    """each batch is sampled on its own; totals add up"""
    r = ctx.rng
    n = r.choice([8, 24, 45])
    k = r.randint(1, 8)
    df = pd.DataFrame({"a": [str(2 ** i) for i in range(n)], "b": [r.choice(["x", "y", ""]) for _ in range(n)]}, dtype=object)
    parts = gen.split_points(r, n, r.randint(2, 4))
    ctx.note(n=n, k=k, parts=parts)
    merge = r.random() < .4
    p = None
    for a, b in parts:
        if p is None:
            p = util.profile(df.iloc[a:b], NODATE, samples_per_update=k)
        elif merge:
            p = p + util.profile(df.iloc[a:b], NODATE, samples_per_update=k)
        else:
            p.update_profile(df.iloc[a:b])
    rp = p.report({"output_format": None})
    st = rp["data_stats"][0]["statistics"]
    S = _bits(st["sum"], n)
    ctx.eq(st["sample_size"], sum(min(k, b - a) for a, b in parts), "samp.size")
    for a, b in parts:
        ctx.eq(len([i for i in S if a <= i < b]), min(k, b - a), "samp.per_batch")
    ctx.eq(rp["data_stats"][1]["statistics"]["null_count"], sum(df["b"].iloc[i] == "" for i in S), "samp.same_rows")
    ctx.eq(rp["global_stats"]["row_count"], n, "samp.row_count")
    ctx.seen("hist", n, k, tuple(parts), merge)


def coverage(ctx):
    """over many seeds every row gets its turn and no row always does"""
    r = ctx.rng
    n = r.choice([8, 12])
    k = n // 2
    df = pd.DataFrame({"a": [str(2 ** i) for i in range(n)]}, dtype=object)
    hits = [0] * n
    base = r.randrange(10**6)
    m = 40
    e = {f"structured_options.{q}.is_enabled": False for q in ("category", "chi2_homogeneity", "order", "float", "text", "datetime")}
    for s in range(m):
        p = _with_seed(base + s, lambda: util.profile(df, e, samples_per_update=k))
        for i in _bits(p.report({"output_format": None})["data_stats"][0]["statistics"]["sum"], n):
            hits[i] += 1
    ctx.note(n=n, k=k, hits=hits)
    ctx.eq(sum(hits), m * k, "samp.distinct")
    ctx.check(all(2 <= h <= m - 2 for h in hits), "samp.cover", lambda: f"hits per row over {m} seeds: {hits}")
    ctx.seen("cover", tuple(hits))


def seeds(ctx):
    """the seed comes from the setting, else from the environment; bad seeds are refused and change nothing"""
    r = ctx.rng
    n, k = 40, 5
    df = pd.DataFrame({"a": [str(2 ** i) for i in range(n)]}, dtype=object)

    def run():
        return frozenset(_bits(util.profile(df, NODATE, samples_per_update=k).report({"output_format": None})["data_stats"][0]["statistics"]["sum"], n))
    a, b = r.sample(range(10**6), 2)
    old = os.environ.get("DATAPROFILER_SEED")
    try:
        dp.set_seed(a)
        s1 = run()
        bad = r.choice([-1, 1.5, "7", [3]])
        ctx.raises(lambda: dp.set_seed(bad), ValueError, "samp.bad_seed")
        ctx.check(run() == s1, "samp.seed_same", "a refused seed changed the sampling")
        os.environ["DATAPROFILER_SEED"] = str(b)
        ctx.check(run() == s1, "samp.seed_same", "an explicit seed wins over the environment")
        dp.set_seed(None)
        e1, e2 = run(), run()
        ctx.check(e1 == e2, "samp.env_seed", "environment seed is not reproducible")
        dp.set_seed(b)
        ctx.check(run() == e1, "samp.env_seed", "same seed from setting and environment")
        del os.environ["DATAPROFILER_SEED"]
        dp.set_seed(None)
        free = {run() for _ in range(6)}
        ctx.check(len(free) > 1, "samp.unseeded", "without a seed the sample never changes")
    finally:
        dp.set_seed(None)
        if old is not None:
            os.environ["DATAPROFILER_SEED"] = old
    ctx.seen("seeds", a, b)


def default_size(ctx):
    """without a sample size: all rows up to 5000, beyond that the larger of 5000 and a fifth of the rows"""
    r = ctx.rng
    n = r.choice([4999, 5000, 5001, 7000, 25000, 26000, 30001])
    df = pd.DataFrame({"a": np.arange(n) % r.choice([7, 100])})
    e = {f"structured_options.{q}.is_enabled": False for q in ("order", "float", "text", "datetime", "row_statistics")}
    p = util.profile(df, e)
    want = n if n <= 5000 else max(n // 5, 5000)
    rp = p.report({"output_format": None})
    ctx.note(n=n)
    ctx.eq(rp["data_stats"][0]["statistics"]["sample_size"], want, "samp.default_size", f"{n} rows")
    ctx.eq(rp["global_stats"]["samples_used"], want, "samp.default_size")
    # a size that is asked for is taken, all rows when there are fewer
    k = r.choice([1, 100, 5001, n - 1, n, n + 1, 10 * n])
    if r.random() < .5:
        q = util.profile(df, e, samples_per_update=k)
    else:
        q = util.profile(df.iloc[:0], e)
        q.update_profile(df, sample_size=k)
    ctx.eq(util.rep(q)["data_stats"][0]["statistics"]["sample_size"], min(k, n), "samp.asked_size", f"{k} of {n} rows")
    ctx.eq(rp["global_stats"]["row_count"], n, "samp.row_count")
    ctx.seen("default", n)


def repeat(ctx):
    """the whole report is a function of the seed, the data and the calls: partial dates, sub-sampled statistics, labels, merges"""
    r = ctx.rng
    n = r.choice([60, 120, 300])
    mix = [d if r.random() < r.choice([.1, .12, .3]) else f"note {i}" for i, d in enumerate(gen.dates(r, n))]
    cols = {"mix": mix, "f": [f"{r.uniform(-5, 5):.{r.randint(0, 6)}f}" for _ in range(n)],
            "t": [gen.text_cell(r) for _ in range(n)], "w": [r.choice(["12", "ab", "a b", "7", "x-1"]) + (str(i) if i % 3 else "") for i in range(n)]}
    df = pd.DataFrame({k: cols[k] for k in r.sample(list(cols), r.randint(1, 4))}, dtype=object)
    from ..stub import StubLabeler
    lab = r.random() < .5
    ex = {"structured_options.float.precision.sample_ratio": r.choice([.1, .5])} if r.random() < .6 else {}
    if lab:
        ex["structured_options.data_labeler.max_sample_size"] = r.choice([3, 20])
    k = r.choice([None, n // 3, n // 2])
    calls = r.choice(["one", "updates", "merge", "merge"])
    cut = r.randint(1, n - 1)
    seed = r.randrange(10**6)
    ctx.note(n=n, cols=list(df.columns), options=ex, k=k, calls=calls, cut=cut, seed=seed, labels=lab)

    def build():
        e = dict(ex)
        if lab:
            e["structured_options.data_labeler.data_labeler_object"] = StubLabeler()
        mk = lambda d: util.profile(d, e, samples_per_update=k, labeler=lab)
        if calls == "one":
            return mk(df)
        if calls == "updates":
            p = mk(df.iloc[:cut])
            p.update_profile(df.iloc[cut:])
            return p
        return mk(df.iloc[:cut]) + mk(df.iloc[cut:])
    one = _with_seed(seed, build)
    for _ in range(2):
        np.random.rand(r.randint(1, 9))
        two = _with_seed(seed, build)
        d = core.deep_diff(_nt(one.report({"output_format": None})), _nt(two.report({"output_format": None})))
        ctx.check(not d, "samp.repeat", lambda: f"same seed, same calls, different report: {d}")
    ctx.seen("repeat", n, tuple(df.columns), k, calls, lab, bool(ex))


SCENARIOS = [("repeat", 2, repeat), ("subset", 6, subset), ("min_true", 5, min_true), ("history", 3, history), ("coverage", 1, coverage), ("seeds", 1, seeds),
             ("default_size", 1, default_size)]
