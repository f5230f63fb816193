"""Whole-row statistics: distinct rows, duplicate rows, rows with / of nulls."""
import math

import numpy as np
import pandas as pd

from .. import colcheck, gen, util

PROP = "P10"
RULE = ("tables drawn from small pools so that rows repeat, with correlated nulls and near-equal rows, under every index shape, "
        "batching, merging, sampling (an id column of powers of two makes the sampled row set observable through the public sum) "
        "and exact or sketched hashing; non-trivial = some duplicate row or some row with a null; distinct by (scenario, n, "
        "distinct rows, null rows)")
CASES = {"quick": 560, "thorough": 9000}
REQUIRED = ["chk.row.unique", "chk.row.dup", "chk.row.has_null", "chk.row.is_null", "chk.row.hll", "chk.row.sampled_has_null",
            "chk.row.disabled"]
S = "structured_options.row_statistics."


def _null(c):
    return bool(colcheck.facts([c])["null_count"])


def _facts(df):
    rows = [tuple(str(c) for c in t) for t in df.itertuples(index=False)]
    nn = [[_null(c) for c in t] for t in rows]
    return {"n": len(rows), "distinct": len(set(rows)), "has": sum(any(x) for x in nn), "all": sum(all(x) for x in nn), "nn": nn}


def _check(ctx, p, df, tag="row", hll=None):
    f = _facts(df)
    g = p.report({"output_format": None})["global_stats"]
    n = f["n"]
    ctx.eq(g["row_count"], n, tag + ".row_count")
    if hll is None:
        ctx.close(g["unique_row_ratio"], f["distinct"] / n, tag + ".unique", f"{n} rows, {f['distinct']} distinct")
        ctx.eq(g["duplicate_row_count"], n - f["distinct"], tag + ".dup", f"{n} rows, {f['distinct']} distinct")
    else:
        m = 2 ** hll
        tol = 3 + 6 * 1.04 / math.sqrt(m) * f["distinct"] + 6 * math.sqrt(f["distinct"] ** 2 / (2 * m))
        est = g["unique_row_ratio"] * n
        ctx.check(abs(est - f["distinct"]) <= tol, tag + ".hll", lambda: f"estimate {est} true {f['distinct']} tol {tol}")
        ctx.check(0 <= g["duplicate_row_count"] <= n and abs(g["duplicate_row_count"] - (n - f["distinct"])) <= tol, tag + ".hll_dup",
                  lambda: f"{g['duplicate_row_count']} vs {n - f['distinct']}")
    ctx.close(g["row_has_null_ratio"], f["has"] / n, tag + ".has_null", f"{f['has']}/{n}")
    ctx.close(g["row_is_null_ratio"], f["all"] / n, tag + ".is_null", f"{f['all']}/{n}")
    if f["distinct"] < n or f["has"]:
        ctx.seen(ctx.scenario, n, f["distinct"], f["has"], f["all"])
    return g


def _table(r, n=None, k=None):
    n = n or r.choice([1, 2, 5, 12, 40, 80])
    k = k or r.randint(1, 4)
    pools = []
    for _ in range(k):
        pools.append(r.choice([["a", "ab", "b", "abc"], ["1", "1.0", "01", "2"], ["x", "x ", " x", "X"], ["c", "bc", "", "null", "nan"],
                               [str(i) for i in range(r.choice([2, 5, 50]))], ["2020-01-01", "2020-01-02", "--", "_"],
                               ["é", "e", "ü,u", 'q"q', "a,b", "a\\b"]]))
    mode = r.choice(["iid", "iid", "pool", "nullrows"])
    if mode == "pool":
        base = [[r.choice(q) for q in pools] for _ in range(max(1, n // 3))]
        rows = [list(r.choice(base)) for _ in range(n)]
    else:
        rows = [[r.choice(q) for q in pools] for _ in range(n)]
    if mode == "nullrows" or r.random() < .3:
        for row in rows:
            x = r.random()
            if x < .2:
                row[:] = [r.choice(gen.NULLS) for _ in row]
            elif x < .45:
                row[r.randrange(k)] = r.choice(gen.NULLS)
    df = pd.DataFrame(rows, dtype=object)
    df.columns = r.choice([[f"c{i}" for i in range(k)], ["dup"] * k, list(range(k))])
    return df


def plain(ctx):
    r = ctx.rng
    df = _table(r)
    df.index, ik = gen.index_any(r, len(df))
    ctx.note(rows=df.head(6).values.tolist(), index=ik, n=len(df))
    _check(ctx, util.profile(df), df)


def native(ctx):
    """numbers, dates, booleans and missing values instead of strings"""
    r = ctx.rng
    n = r.choice([2, 6, 30])
    rs = np.random.RandomState(ctx.iseed)
    f = rs.randint(0, 3, n) / 2
    f[rs.rand(n) < .3] = np.nan
    cols = {"i": rs.randint(0, 3, n), "f": f, "b": rs.rand(n) < .5, "o": [r.choice([None, "u", "v"]) for _ in range(n)]}
    ks = r.sample(list(cols), r.randint(1, 3))
    df = pd.DataFrame({k: cols[k] for k in ks})
    ctx.note(cols=ks, rows=df.head(5).values.tolist())
    _check(ctx, util.profile(df), df)


def history(ctx):
    """batches and merges, with continued, restarted or unrelated row labels and permuted columns"""
    r = ctx.rng
    df = _table(r, n=r.choice([3, 8, 20, 50]))
    n, k = df.shape
    parts = gen.split_points(r, n, r.randint(2, 5))
    lab = r.choice(["cont", "restart", "str", "descending", "dup"])
    perm_ok = len(set(map(str, df.columns))) == k
    merge = r.random() < .5
    tree = r.random() < .5
    mts = r.choice([0, 0, 0, 1, 2, n])          # every row is sampled, whatever minimum is asked for
    ctx.note(min_true_samples=mts, parts=parts, labels=lab, merge=merge, rows=df.head(6).values.tolist())
    chunks = []
    for j, (a, b) in enumerate(parts):
        ch = df.iloc[a:b].copy()
        if lab == "restart":
            ch = ch.reset_index(drop=True)
        elif lab == "str":
            ch.index = [f"r{i}" for i in range(a, b)]
        elif lab == "descending":
            ch.index = range(n - b, n - a)
        elif lab == "dup" and len(ch):
            ch.index, _ = gen.index_for(r, len(ch), "dup")
        if j and perm_ok and r.random() < .4:
            perm = list(range(k))
            r.shuffle(perm)
            ch = ch.iloc[:, perm]
        chunks.append(ch)
    if merge:
        ps = [util.profile(c, min_true_samples=mts) for c in chunks]
        while len(ps) > 1:
            i = r.randrange(len(ps) - 1) if tree else 0
            ps[i:i + 2] = [ps[i] + ps[i + 1]]
        p = ps[0]
        if r.random() < .4:
            more = df.iloc[: max(1, n // 3)].copy()
            more.index = range(1000, 1000 + len(more)) if lab != "str" else [f"s{i}" for i in range(len(more))]
            p.update_profile(more)
            df = pd.concat([df, more])
    else:
        p = util.profile(chunks[0], min_true_samples=mts)
        for c in chunks[1:]:
            p.update_profile(c, **({"min_true_samples": r.choice([1, 3, n])} if r.random() < .15 else {}))
    _check(ctx, p, df)
    # reading the statistics twice gives the same answer
    _check(ctx, p, df)


def hll(ctx):
    r = ctx.rng
    df = _table(r, n=r.choice([5, 40, 150]))
    n = len(df)
    pr = r.choice([6, 8, 10, 12, 15])
    extra = {S + "unique_count.hashing_method": "hll", S + "unique_count.hll.register_count": pr, S + "unique_count.hll.seed": r.choice([0, 7])}
    ctx.note(p=pr, n=n, rows=df.head(5).values.tolist())
    p = util.profile(df, extra)
    g = _check(ctx, p, df, hll=pr)
    est = round(g["unique_row_ratio"] * n)
    # seeing the same rows again cannot change the number of distinct rows
    again = df.sample(frac=1, random_state=r.randrange(10**6))
    again.index = range(n, 2 * n)
    p.update_profile(again)
    g2 = p.report({"output_format": None})["global_stats"]
    ctx.eq(round(g2["unique_row_ratio"] * 2 * n), est, "row.hll_idempotent")
    # splitting the rows over merged profiles sees the same set of rows
    if n > 1:
        c = r.randint(1, n - 1)
        m = util.profile(df.iloc[:c], extra) + util.profile(df.iloc[c:], extra)
        g3 = m.report({"output_format": None})["global_stats"]
        ctx.eq(round(g3["unique_row_ratio"] * n), est, "row.hll_merge")


def hll_large(ctx):
    """more rows than one hashing batch"""
    r = ctx.rng
    n = r.choice([2047, 2048, 2049, 4096, 5000])
    d = r.choice([n, n, n // 2])
    ids = list(range(d)) + [r.randrange(d) for _ in range(n - d)]
    r.shuffle(ids)
    df = pd.DataFrame({"a": [f"v{i % 97}" for i in ids], "b": [str(i) for i in ids]}, dtype=object)
    ctx.note(n=n, distinct=d)
    mode = r.choice(["hll", "full"])
    if mode == "hll":
        _check(ctx, util.profile(df, {S + "unique_count.hashing_method": "hll"}), df, hll=15)
    else:
        _check(ctx, util.profile(df), df)


def sampled(ctx):
    """null rows are counted among the rows that were sampled, and related to their number"""
    r = ctx.rng
    n = r.choice([6, 15, 30, 45])
    k = r.randint(1, 3)
    nb = r.choice([1, 1, 2, 3])
    spu = r.randint(1, n)
    mts = r.choice([0, 0, 1, 2, n // 3, n])
    df = pd.DataFrame({f"c{i}": [r.choice(["u", "v", "", "nan", "7"]) for _ in range(n)] for i in range(k)}, dtype=object)
    df.insert(r.randint(0, k), "id", [str(2 ** i) for i in range(n)])
    idc = list(df.columns).index("id")
    parts = gen.split_points(r, n, nb)
    restart = r.random() < .5
    ctx.note(n=n, spu=spu, mts=mts, parts=parts, restart=restart, rows=df.head(5).values.tolist())
    p = None
    for a, b in parts:
        ch = df.iloc[a:b]
        if restart:
            ch = ch.reset_index(drop=True)
        if p is None:
            p = util.profile(ch, {"structured_options.datetime.is_enabled": False}, min_true_samples=mts, samples_per_update=spu)
        else:
            p.update_profile(ch)
    rp = p.report({"output_format": None})
    g, st = rp["global_stats"], rp["data_stats"][idc]["statistics"]
    tot = int(st["sum"])
    rows = [i for i in range(n) if tot >> i & 1]
    ctx.eq(len(rows), st["sample_size"], "row.sampled_ids", "sum of the id column names the sampled rows")
    f = _facts(df.iloc[rows])
    ctx.close(g["row_has_null_ratio"], f["has"] / len(rows), "row.sampled_has_null", f"{f['has']}/{len(rows)}")
    ctx.close(g["row_is_null_ratio"], 0.0, "row.sampled_is_null")
    full = _facts(df)
    ctx.eq(g["row_count"], n, "row.sampled_count")
    ctx.close(g["unique_row_ratio"], full["distinct"] / n, "row.sampled_unique")
    if mts == 0:
        for i in range(k + 1):
            s2 = rp["data_stats"][i]["statistics"]
            ctx.eq(s2["sample_size"], len(rows), "row.same_sample")
            ctx.eq(s2["null_count"], sum(x[i] for x in f["nn"]), "row.same_sample_nulls", "all columns sample the same rows")
    if f["has"]:
        ctx.seen("sampled", n, spu, mts, len(parts), len(rows), f["has"])


def disabled(ctx):
    r = ctx.rng
    df = _table(r, n=r.choice([3, 12]))
    df.columns = [f"c{i}" for i in range(df.shape[1])]
    which = r.choice(["all", "unique", "null"])
    key = {"all": S + "is_enabled", "unique": S + "unique_count.is_enabled", "null": S + "null_count.is_enabled"}[which]
    ctx.note(which=which)
    c = r.randint(1, len(df) - 1)
    p = util.profile(df.iloc[:c], {key: False})
    q = util.profile(df.iloc[c:], {key: False})
    if r.random() < .5:
        p.update_profile(df.iloc[c:])
    else:
        p = p + q
    f = _facts(df)
    n = f["n"]
    g = p.report({"output_format": None})["global_stats"]
    ctx.eq(g["row_count"], n, "row.row_count")
    un = which in ("all", "unique")
    nu = which in ("all", "null")
    ctx.eq(g["unique_row_ratio"], None if un else f["distinct"] / n, "row.disabled")
    ctx.eq(g["duplicate_row_count"], None if un else n - f["distinct"], "row.disabled")
    for key, want in (("row_has_null_ratio", f["has"] / n), ("row_is_null_ratio", f["all"] / n)):
        ctx.check((g[key] is None) if nu else abs(g[key] - want) < 1e-9, "row.disabled", lambda: f"{which} {key} {g[key]} {want}")
    ctx.seen("disabled", which, n, f["distinct"])


SCENARIOS = [("plain", 4, plain), ("native", 1, native), ("history", 5, history), ("hll", 2, hll), ("hll_large", 1, hll_large),
             ("sampled", 4, sampled), ("disabled", 1, disabled)]
