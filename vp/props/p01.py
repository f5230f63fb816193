"""Null / sample accounting of every column."""
import re

import numpy as np
import pandas as pd

from .. import colcheck, gen, ref, util

PROP = "P01"
RULE = ("random tables (all column kinds x null-token mixes x index shapes x option overrides, native dtypes, "
        "multi-batch histories); a case is non-trivial when at least one column had both a null and a value; distinct by "
        "(scenario, column kinds, index kind, null tokens seen, n)")
CASES = {"quick": 680, "thorough": 9000}
REQUIRED = ["chk.count.null_count", "chk.count.null_index", "chk.count.samples", "chk.count.null_rows_distinct"]


def _check_table(ctx, p, cells_by_col, labels, pats=None, pats_by_col=None, samples=True):
    full = p.report({"output_format": None})
    ctx.eq(full["global_stats"]["row_count"], len(labels), "count.row_count")
    ctx.eq(full["global_stats"]["samples_used"], len(labels), "count.samples_used")
    ctx.eq(full["global_stats"]["column_count"], len(cells_by_col), "count.column_count")
    for i, cells in enumerate(cells_by_col):
        rc = full["data_stats"][i]
        pt = pats_by_col[i] if pats_by_col else pats
        f = colcheck.facts(cells, pt)
        colcheck.counts(ctx, rc, f, labels)
        if samples:
            colcheck.samples_ok(ctx, rc, f)
        st = rc["statistics"]
        # values counted by the category tally + nulls = rows sampled
        if "categorical_count" in st:
            ctx.eq(sum(st["categorical_count"].values()) + st["null_count"], st["sample_size"], "count.conservation")
        if 0 < f["null_count"] < f["n"]:
            ctx.seen(ctx.scenario, tuple(sorted(f["null_types"])), f["n"], rc["data_type"])
    return full


def plain(ctx):
    r = ctx.rng
    df, ks, ik = gen.table(r, index="any")
    ctx.note(kinds=ks, index=ik, rows=df.head(4).values.tolist())
    p = util.profile(df)
    _check_table(ctx, p, [df.iloc[:, i].tolist() for i in range(df.shape[1])], df.index.tolist())


def dense_nulls(ctx):
    """near-misses of the null patterns"""
    r = ctx.rng
    n = r.choice([5, 20, 50])
    pool = gen.NULLS + gen.NOT_NULLS + ["-a", "a-", "__x", "x__", "nan\n", "  a", "NoNe", "nUlL", "nulls", "-_-", " -", "0", "0.0"]
    pool += ["\n", "--\n", " \n", "\nnull"]
    cols = {f"c{i}": [r.choice(pool) for _ in range(n)] for i in range(2)}
    df = pd.DataFrame(cols, dtype=object)
    ctx.note(rows=df.head(6).values.tolist())
    p = util.profile(df)
    _check_table(ctx, p, [df[c].tolist() for c in df], df.index.tolist())


def native(ctx):
    """native dtypes and real missing values"""
    r = ctx.rng
    n = r.choice([3, 10, 40])
    rs = np.random.RandomState(ctx.iseed)
    cols = {}
    cols["i"] = rs.randint(-5, 50, n)
    fl = rs.randn(n).round(3)
    fl[rs.rand(n) < .3] = np.nan
    cols["f"] = fl
    cols["o"] = [r.choice([None, np.nan, "x", "y", 3, 4.5, True, "null"]) for _ in range(n)]
    cols["b"] = rs.rand(n) < .5
    cols["d"] = pd.Series(pd.to_datetime(rs.randint(0, 10**9, n), unit="s"))
    cols["k"] = pd.Categorical([r.choice(["u", "v", "w"]) for _ in range(n)])
    names = r.sample(list(cols), r.randint(1, 4))
    df = pd.DataFrame({k: cols[k] for k in names})
    df.index, ik = gen.index_for(r, n)
    ctx.note(names=names, index=ik)
    p = util.profile(df)
    _check_table(ctx, p, [[str(x) for x in df.iloc[:, i].tolist()] for i in range(df.shape[1])] if "d" not in names else
                 [[str(x) for x in df.iloc[:, i].astype(object).tolist()] for i in range(df.shape[1])],
                 df.index.tolist(), samples="d" not in names and "k" not in names)


def containers(ctx):
    """Series, list and list-of-lists inputs, duplicate column names, integer column names"""
    r = ctx.rng
    n = r.choice([2, 8, 30])
    mode = r.choice(["series", "list", "listoflists", "dupcols", "intcols"])
    ctx.note(mode=mode, n=n)
    if mode == "series":
        _, v = gen.column(r, n)
        s = pd.Series(v, dtype=object, name=r.choice([None, "s", 5]))
        p = util.profile(s)
        _check_table(ctx, p, [v], list(range(n)))
    elif mode == "list":
        _, v = gen.column(r, n)
        p = util.profile(list(v))
        _check_table(ctx, p, [v], list(range(n)))
    elif mode == "listoflists":
        df, ks, _ = gen.table(r, n=n)
        p = util.profile(df.values.tolist())
        _check_table(ctx, p, [df.iloc[:, i].tolist() for i in range(df.shape[1])], list(range(n)))
    else:
        k = r.randint(2, 4)
        names = ["a", "a", "b", "A"][:k] if mode == "dupcols" else list(range(10, 10 + k))
        df, ks, _ = gen.table(r, n=n, ncols=k, names=names)
        p = util.profile(df)
        full = _check_table(ctx, p, [df.iloc[:, i].tolist() for i in range(k)], list(range(n)))
        sch = full["global_stats"]["profile_schema"]
        want = {}
        for i, c in enumerate(names):
            want.setdefault(c, []).append(i)
        ctx.eq({k2: list(v) for k2, v in sch.items()}, want, "count.schema")


def custom_nulls(ctx):
    """user supplied null patterns replace the defaults; per-column ones extend them"""
    r = ctx.rng
    n = r.choice([6, 20, 50])
    cand = {"": 0, "N/A": 0, "missing": 0, "-9+": 0, "x": 0, "\\?+": 0, "none": 0, " *": 0, "0": 0}
    keys = r.sample(list(cand), r.randint(0, 4))
    pool = ["", "N/A", "n/a", "missing", "Missing", "missing!", "-9", "-99", "-999", "x", "xx", "?", "??", "none", "nan", "null",
            "  ", "0", "00", "5", "7.5", "abc", "-1", "x\n", "0\n"]
    k = r.randint(1, 3)
    df = pd.DataFrame({f"c{i}": [r.choice(pool) for _ in range(n)] for i in range(k)}, dtype=object)
    fl = lambda: r.choice([0, re.IGNORECASE])
    base = {q: fl() for q in keys}
    extra = {"structured_options.null_values": base}
    bycol = [dict(base) for _ in range(k)]
    if r.random() < .5:
        ci = r.randrange(k)
        more = {q: fl() for q in r.sample(["5", "abc", "7\\.5", "-1", "ABC"], r.randint(1, 2))}
        extra["structured_options.column_null_values"] = {ci: more}
        bycol[ci].update(more)
    elif r.random() < .4:
        # only per-column overrides: defaults stay in force
        extra.pop("structured_options.null_values")
        ci = r.randrange(k)
        more = {q: fl() for q in r.sample(["5", "abc", "x", "X"], r.randint(1, 2))}
        extra["structured_options.column_null_values"] = {ci: more}
        dflt = {"": 0, "nan": re.I, "none": re.I, "null": re.I, "  *": 0, "--*": 0, "__*": 0}
        bycol = [dict(dflt) for _ in range(k)]
        bycol[ci].update(more)
    ctx.note(extra=extra, rows=df.head(4).values.tolist())
    p = util.profile(df, extra)
    _check_table(ctx, p, [df.iloc[:, i].tolist() for i in range(k)], df.index.tolist(), pats_by_col=bycol)


def batches(ctx):
    """accounting stays exact over a history of updates (disjoint or overlapping integer indices)"""
    r = ctx.rng
    n = r.choice([4, 12, 40])
    df, ks, _ = gen.table(r, n=n)
    parts = gen.split_points(r, n, r.randint(2, 4))
    overlap = r.random() < .5
    p = None
    labels = []
    for a, b in parts:
        chunk = df.iloc[a:b]
        if overlap:
            chunk = chunk.reset_index(drop=True)
        if p is None:
            p = util.profile(chunk)
        else:
            p.update_profile(chunk)
    # with overlapping indices rows are shifted forward past the largest index seen
    if overlap:
        mx = None
        for a, b in parts:
            base = list(range(b - a))
            if mx is not None and base[0] <= mx:
                base = [x + mx + 1 for x in base]
            labels += base
            mx = max(labels)
    else:
        labels = list(range(n))
    ctx.note(kinds=ks, parts=parts, overlap=overlap)
    ctx.count("multi_batch")
    _check_table(ctx, p, [df.iloc[:, i].tolist() for i in range(df.shape[1])], labels, samples=False)


def dup_index(ctx):
    """repeated index labels (concatenated frames): every row still counts once"""
    r = ctx.rng
    n = r.choice([4, 12, 30])
    df, ks, _ = gen.table(r, n=n)
    k = r.randint(1, n)
    lab = [r.randrange(k) for _ in range(n)]
    df.index = lab if r.random() < .7 else [f"r{x}" for x in lab]
    ctx.note(kinds=ks, labels=list(df.index))
    full = util.profile(df).report({"output_format": None})
    for i in range(df.shape[1]):
        rc = full["data_stats"][i]
        f = colcheck.facts(df.iloc[:, i].tolist())
        ctx.eq(rc["statistics"]["sample_size"], n, "count.sample_size")
        ctx.eq(rc["statistics"]["null_count"], f["null_count"], "count.null_count")
        # labels that cannot tell rows apart are replaced by the rows' numbers
        nti = rc["statistics"]["null_types_index"]
        if len(set(lab)) < n:
            ctx.eq({k: sorted(v) for k, v in nti.items()}, {k: sorted(v) for k, v in f["null_types"].items()}, "count.null_index")
        ctx.eq(len(set().union(*nti.values())) if nti else 0, f["null_count"], "count.null_rows_distinct")
        colcheck.samples_ok(ctx, rc, f)
        colcheck.categorical(ctx, rc, f, tag="count.cat")
        if 0 < f["null_count"] < n:
            ctx.seen("dup", k, n, rc["data_type"])


def column_nulls_history(ctx):
    """per-column null patterns follow the column (not the position) through permuted batches and merges"""
    r = ctx.rng
    k = r.randint(2, 3)
    n = r.choice([6, 20])
    pool = ["5", "7", "abc", "x", "nan", "", "12", "Zed"]
    df = pd.DataFrame({f"c{i}": [r.choice(pool) for _ in range(n)] for i in range(k)}, dtype=object)
    dflt = {"": 0, "nan": re.I, "none": re.I, "null": re.I, "  *": 0, "--*": 0, "__*": 0}
    cn = {i: {q: 0 for q in r.sample(["5", "7", "abc", "x"], r.randint(1, 2))} for i in r.sample(range(k), r.randint(1, k))}
    bycol = [dict(dflt, **cn.get(i, {})) for i in range(k)]
    extra = {"structured_options.column_null_values": cn}
    cut = r.randint(1, n - 1)
    perm = list(range(k))
    r.shuffle(perm)
    mode = r.choice(["update", "merge", "merge_update"])
    ctx.note(cn=cn, perm=perm, mode=mode, rows=df.head(4).values.tolist())
    p = util.profile(df.iloc[:cut], extra)
    if mode == "update":
        p.update_profile(df.iloc[cut:, perm])
    else:
        c2 = cut + (n - cut) // 2 if mode == "merge_update" else n
        if c2 == cut:
            c2 = n
        p = p + util.profile(df.iloc[cut:c2], extra)
        if c2 < n:
            p.update_profile(df.iloc[c2:, perm])
    _check_table(ctx, p, [df.iloc[:, i].tolist() for i in range(k)], df.index.tolist(), pats_by_col=bycol, samples=False)


def label_history(ctx):
    """any sequence of row-label ranges: labels that collide with earlier ones are shifted past the largest label seen, others
    are kept, and no null row of one batch is ever recorded at the position of another one's"""
    r = ctx.rng
    k = r.randint(2, 5)
    frames = []
    ncol = r.randint(1, 2)
    neg = r.random() < .3
    for _ in range(k):
        d, _, _ = gen.table(r, n=r.choice([1, 2, 3, 6]), ncols=ncol, kinds=["int", "cat", "text"], null_rate=.5, names=["a", "b"][:ncol])
        m = len(d)
        how = r.choice(["range", "gappy", "shuffled", "zero"])
        s = r.randrange(-12 if neg else 0, 30)
        if how == "gappy":
            d.index = [s + x for x in sorted(r.sample(range(3 * m), m))]
        elif how == "shuffled":
            d.index = r.sample(range(s, s + m), m)
        else:
            s = 0 if how == "zero" else s
            d.index = range(s, s + m)
        frames.append(d)
    labels, lo, hi = [], None, None
    for d in frames:
        ls = list(d.index)
        a, b = min(ls), max(ls)
        if lo is not None and a <= hi and lo <= b:
            ls = [x + hi + 1 - min(a, 0) for x in ls]
            a, b = min(ls), max(ls)
        labels += ls
        lo = a if lo is None else min(lo, a)
        hi = b if hi is None else max(hi, b)
    merge = r.random() < .4
    ctx.note(index=[list(d.index) for d in frames], merge=merge)
    p = util.profile(frames[0])
    for d in frames[1:]:
        if merge:
            p = p + util.profile(d)
        else:
            p.update_profile(d)
    df = pd.concat(frames)
    _check_table(ctx, p, [df.iloc[:, i].tolist() for i in range(ncol)], labels, samples=False)
    for rc in p.report({"output_format": None})["data_stats"]:
        st = rc["statistics"]
        ctx.eq(len(set().union(*st["null_types_index"].values())) if st["null_types_index"] else 0, st["null_count"], "count.null_rows_distinct")


SCENARIOS = [("plain", 4, plain), ("label_history", 3, label_history), ("dense_nulls", 2, dense_nulls), ("native", 2, native), ("containers", 2, containers),
             ("custom_nulls", 3, custom_nulls), ("batches", 3, batches), ("dup_index", 1, dup_index),
             ("column_nulls_history", 2, column_nulls_history)]
