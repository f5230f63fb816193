"""Updating a profile batch by batch equals profiling all rows at once."""
import pandas as pd

from .. import colcheck, gen, samerep, util

PROP = "P06"
RULE = ("random tables split into 2..6 batches (also 1-row, all-null, empty batches, permuted / re-cased columns, offset or "
        "restarted index) vs. one-shot profile of the same rows; non-trivial = >= 2 non-empty batches; distinct by "
        "(scenario, column types, batch shape)")
CASES = {"quick": 640, "thorough": 9000}
REQUIRED = ["chk.batch.mean", "chk.batch.null_count", "chk.batch.unique_row_ratio", "chk.batch.chi2_matrix"]


def _cmp(ctx, p, q, df, order=False, null_index=True, tag="batch"):
    g, w = util.rep(p), util.rep(q)
    samerep.glob(ctx, g, w, tag)
    for i in range(df.shape[1]):
        cells = df.iloc[:, i].tolist()
        f = colcheck.facts(cells)
        mixed_date = _mixed_dates(f)
        if mixed_date:
            ctx.count("skipped_mixed_dates")
            continue
        samerep.column(ctx, g["data_stats"][i], w["data_stats"][i], tag, len(f["values"]), order=order, null_index=null_index,
                       cells=f["values"],
                       skip=samerep.NUMERIC if samerep.nonfinite(f["values"]) else ())


def _mixed_dates(f):
    """date detection is per-batch heuristic; only decisive for pure columns"""
    ps, nd = colcheck.date_facts(f["values"])
    if not nd:
        return False
    may = any(p and p[0].month == 5 and ("%b" in p[1] or "%B" in p[1]) for p in ps)
    return may or nd < len(f["values"])


def split(ctx):
    r = ctx.rng
    n = r.choice([2, 3, 6, 15, 40, 70])
    df, ks, _ = gen.table(r, n=n)
    parts = gen.split_points(r, n, r.randint(2, 6))
    restart = r.random() < .4
    ctx.note(kinds=ks, parts=parts, restart=restart, head=df.head(3).values.tolist())
    p = None
    for a, b in parts:
        ch = df.iloc[a:b]
        if restart:
            ch = ch.reset_index(drop=True)
        p = util.profile(ch) if p is None else (p.update_profile(ch) or p)
    q = util.profile(df)
    _cmp(ctx, p, q, df, null_index=not restart)
    ctx.seen("split", tuple(ks), len(parts), restart)


def odd_batches(ctx):
    """empty frames, single rows and all-null batches interleaved"""
    r = ctx.rng
    n = r.choice([5, 20])
    df, ks, _ = gen.table(r, n=n)
    if r.random() < .6:
        a = r.randrange(n)
        b = r.randint(a + 1, n)
        df.iloc[a:b] = r.choice(gen.NULLS)
        parts = [(x, y) for x, y in [(0, a), (a, b), (b, n)]]
    else:
        parts = [(i, i + 1) for i in range(min(n, 6))] + ([(6, n)] if n > 6 else [])
    if r.random() < .5:
        j = r.randint(1, len(parts))
        parts.insert(j, (parts[j - 1][1], parts[j - 1][1]))
    ctx.note(kinds=ks, parts=parts)
    p = None
    for a, b in parts:
        ch = df.iloc[a:b]
        if p is None:
            if a == b:
                continue
            p = util.profile(ch)
        else:
            p.update_profile(ch)
    q = util.profile(df)
    _cmp(ctx, p, q, df)
    ctx.seen("odd", tuple(ks), tuple(b - a for a, b in parts))


def permuted(ctx):
    """later batches present the same columns in another order / letter case"""
    r = ctx.rng
    n = r.choice([4, 20, 40])
    k = r.randint(2, 4)
    df, ks, _ = gen.table(r, n=n, ncols=k)
    parts = gen.split_points(r, n, r.randint(2, 3))
    p = None
    for a, b in parts:
        ch = df.iloc[a:b]
        if p is None:
            p = util.profile(ch)
        else:
            perm = list(range(k))
            r.shuffle(perm)
            ch = ch.iloc[:, perm].copy()
            p.update_profile(ch)
    q = util.profile(df)
    ctx.note(kinds=ks, parts=parts)
    _cmp(ctx, p, q, df)
    ctx.seen("perm", tuple(ks), len(parts))


def heterogeneous(ctx):
    """batches whose columns look like different types"""
    r = ctx.rng
    m = r.randint(2, 3)
    k = 2
    frames = []
    for _ in range(m):
        d, _, _ = gen.table(r, n=r.choice([1, 3, 12]), ncols=k, kinds=["int", "float", "text", "cat", "allnull", "intcat", "uniq"],
                            names=["a", "b"])
        frames.append(d)
    df = pd.concat(frames, ignore_index=True)
    p, s = None, 0
    for d in frames:
        ch = df.iloc[s:s + len(d)]
        s += len(d)
        p = util.profile(ch) if p is None else (p.update_profile(ch) or p)
    q = util.profile(df)
    ctx.note(sizes=[len(d) for d in frames], head=df.head(3).values.tolist())
    _cmp(ctx, p, q, df)
    ctx.seen("het", tuple(len(d) for d in frames), tuple(c["data_type"] for c in util.rep(q)["data_stats"]))


SCENARIOS = [("split", 5, split), ("odd_batches", 2, odd_batches), ("permuted", 1, permuted), ("heterogeneous", 3, heterogeneous)]
