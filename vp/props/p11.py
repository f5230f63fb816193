"""Cross-column statistics: correlation, chi-squared homogeneity, null replication metrics."""
import math
from collections import Counter

import numpy as np
import pandas as pd
from scipy import stats as sps

from .. import colcheck, gen, util

PROP = "P11"
RULE = ("tables of related / unrelated numeric, categorical, text, date and null-ridden columns under every index shape; "
        "one-shot, batched, merged (also with permuted columns) and restricted to chosen columns, against textbook formulas; "
        "non-trivial = a matrix entry between two different columns was decided; distinct by (scenario, column kinds, history)")
CASES = {"quick": 520, "thorough": 8000}
REQUIRED = ["chk.corr.value", "chk.corr.nan", "chk.chi2.value", "chk.chi2.nan", "chk.nrep.prior", "chk.nrep.sum", "chk.nrep.mean",
            "chk.corr.hist", "chk.nrep.hist_sum", "chk.chi2.hist"]
C = "structured_options.correlation."
N = "structured_options.null_replication_metrics.is_enabled"


def _num(r, n, base=None, nulls=0.0, kind=None):
    kind = kind or r.choice(["int", "float", "small", "neg"])
    out = []
    for i in range(n):
        if kind == "int":
            v = r.randint(-50, 50)
        elif kind == "small":
            v = r.randint(0, 3)
        elif kind == "neg":
            v = -r.randint(1, 9)
        else:
            v = round(r.gauss(0, 5), 3)
        if base is not None:
            v = round(v * .3 + base[i] * r.choice([1, 1, 1, 2]), 3)
        out.append(v)
    s = [str(v) for v in out]
    pool = [r.choice(gen.NULLS)]
    s = [r.choice(pool) if r.random() < nulls else x for x in s]
    return out, s


def _frame(r, n, nulls=True, other=True, k=None):
    cols, kinds = {}, []
    base = None
    k = k or r.randint(2, 4)
    for i in range(k):
        x = r.random()
        rate = r.choice([0, 0, .1, .4]) if nulls else 0
        if x < .65 or not other or i == 0:
            vals, s = _num(r, n, base if r.random() < .5 else None, rate)
            if base is None:
                base = vals
            kinds.append("num")
        else:
            kd = r.choice(["text", "date", "cat", "allnull"] if nulls else ["text", "date", "cat"])
            _, s = gen.column(r, n, kd, null_rate=rate)
            kinds.append(kd)
        cols[f"c{i}"] = s
    order = list(cols)
    if r.random() < .3:
        o = list(range(k))
        r.shuffle(o)
        order = [order[i] for i in o]
        kinds = [kinds[i] for i in o]
    return pd.DataFrame({c: cols[c] for c in order}, dtype=object), kinds


def _isnum(rc):
    return rc["data_type"] in ("int", "float")


def ref_corr(a, b):
    """Pearson correlation of two cell lists, nulls (None) imputed by the mean"""
    xa = [x for x in a if x is not None]
    xb = [x for x in b if x is not None]
    if not xa or not xb:
        return None
    ma, mb = math.fsum(xa) / len(xa), math.fsum(xb) / len(xb)
    saa = math.fsum((x - ma) ** 2 for x in xa)
    sbb = math.fsum((x - mb) ** 2 for x in xb)
    sab = math.fsum((x - ma) * (y - mb) for x, y in zip(a, b) if x is not None and y is not None)
    tiny = 1e-12 * max(1, ma * ma, mb * mb)
    if saa <= tiny or sbb <= tiny:
        return None
    return sab / math.sqrt(saa * sbb)


def _vals(cells):
    nul = colcheck.facts
    return [None if nul([c])["null_count"] else float(c) for c in cells]


def _check_corr(ctx, rep, df, tag="value", only=None):
    m = rep["global_stats"]["correlation_matrix"]
    k = df.shape[1]
    ctx.check(m is not None and np.shape(m) == (k, k), "corr.shape", lambda: f"{np.shape(m)} for {k} columns")
    if m is None:
        return
    num = [_isnum(rep["data_stats"][i]) and (only is None or i in only) for i in range(k)]
    v = [_vals(df.iloc[:, i]) if num[i] else None for i in range(k)]
    for i in range(k):
        for j in range(k):
            if not (num[i] and num[j]):
                ctx.check(math.isnan(m[i][j]), "corr.nan", lambda: f"[{i}][{j}] = {m[i][j]} for a column that is not correlated")
                continue
            want = ref_corr(v[i], v[j])
            if want is None:  # constant: undefined
                ctx.check(math.isnan(m[i][j]) or abs(m[i][j]) <= 1 + 1e-9, "corr.undefined")
                continue
            ctx.close(m[i][j], want, "corr." + tag, f"[{i}][{j}]", rel=1e-6, abs_=1e-7)
            ctx.close(m[i][j], m[j][i], "corr.symmetric")
            if i != j:
                ctx.seen("corr", tag, tuple(num), round(want, 1))


def corr(ctx):
    r = ctx.rng
    n = r.choice([2, 3, 5, 12, 40])
    df, kinds = _frame(r, n)
    df.index, ik = gen.index_any(r, n)
    extra = {C + "is_enabled": True}
    ctx.note(kinds=kinds, index=ik, rows=df.head(5).values.tolist())
    rep = util.rep(util.profile(df, extra))
    _check_corr(ctx, rep, df)


def corr_cols(ctx):
    """restricted to chosen columns"""
    r = ctx.rng
    n = r.choice([4, 12, 30])
    df, kinds = _frame(r, n, k=r.randint(3, 5))
    if r.random() < .4:
        df.columns = [c.upper() for c in df.columns]
    only = sorted(r.sample(range(df.shape[1]), r.randint(2, df.shape[1])))
    names = [df.columns[i] for i in only]
    r.shuffle(names)
    ctx.note(kinds=kinds, columns=names, rows=df.head(5).values.tolist())
    rep = util.rep(util.profile(df, {C + "is_enabled": True, C + "columns": names}))
    _check_corr(ctx, rep, df, only=set(only))
    ctx.eq(rep["global_stats"]["column_count"], df.shape[1], "corr.column_count")


def _varied(df, a, b):
    for i in range(df.shape[1]):
        try:
            x = [float(c) for c in df.iloc[a:b, i]]
        except ValueError:
            continue
        if len(set(x)) < 2:
            return False
    return True


def corr_history(ctx):
    """null-free batches / merges give the correlation of all rows"""
    r = ctx.rng
    n = r.choice([6, 12, 30])
    df, kinds = _frame(r, n, nulls=False)
    parts = [(a, b) for a, b in gen.split_points(r, n, r.randint(2, 4))]
    # every part must itself have a defined correlation
    parts = [p for p in parts]
    if any(b - a < 2 or not _varied(df, a, b) for a, b in parts):
        h = n // 2
        parts = [(0, h), (h, n)]
        if any(not _varied(df, a, b) for a, b in parts):
            parts = [(0, n)]
    restart = r.random() < .4
    mode = r.choice(["update", "merge", "permuted", "update_permuted"])
    ctx.note(kinds=kinds, parts=parts, mode=mode, rows=df.head(5).values.tolist())
    extra = {C + "is_enabled": True}
    p = None
    types = set()
    for a, b in parts:
        ch = df.iloc[a:b]
        if restart:
            ch = ch.reset_index(drop=True)
        one = util.profile(ch, extra)
        types.add(tuple(_isnum(c) for c in util.rep(one)["data_stats"]))
        perm = list(range(df.shape[1]))
        if mode.endswith("permuted"):
            r.shuffle(perm)
        if p is None:
            p = one
        elif mode.startswith("update"):
            p.update_profile(ch.iloc[:, perm])
        else:
            p = p + (util.profile(ch.iloc[:, perm], extra) if mode == "permuted" else one)
    rep = util.rep(p)
    if len(types) > 1 or (not mode.startswith("update") and sum(list(types)[0]) <= 1):
        return
    _check_corr(ctx, rep, df, "hist")
    ctx.seen("hist", mode, tuple(kinds), len(parts), restart)


def ref_chi2(c1, c2):
    n1, n2 = sum(c1.values()), sum(c2.values())
    cats = set(c1) | set(c2)
    if len(cats) <= 1:
        return None
    if not n1 or not n2:
        return 0.0
    t = n1 + n2
    x = 0.0
    for c in cats:
        tot = c1.get(c, 0) + c2.get(c, 0)
        for cc, nn in ((c1, n1), (c2, n2)):
            e = nn * tot / t
            x += (cc.get(c, 0) - e) ** 2 / e
    return float(sps.chi2.sf(x, len(cats) - 1))


def _check_chi2(ctx, rep, df, tag):
    m = rep["global_stats"]["chi2_matrix"]
    k = df.shape[1]
    ctx.check(m is not None and np.shape(m) == (k, k), "chi2.shape", lambda: f"{np.shape(m)} for {k}")
    if m is None:
        return
    fs = [colcheck.facts(df.iloc[:, i].tolist()) for i in range(k)]
    cat = [rep["data_stats"][i]["categorical"] for i in range(k)]
    for i in range(k):
        for j in range(k):
            if not (cat[i] and cat[j]):
                ctx.check(math.isnan(m[i][j]), "chi2.nan", lambda: f"[{i}][{j}]={m[i][j]}")
            elif i == j:
                ctx.close(m[i][i], 1, "chi2.diag")
            else:
                want = ref_chi2(Counter(fs[i]["values"]), Counter(fs[j]["values"]))
                if want is None:
                    ctx.check(math.isnan(m[i][j]), "chi2.undefined", lambda: f"{m[i][j]}")
                else:
                    ctx.close(m[i][j], want, "chi2." + tag, f"[{i}][{j}]", rel=1e-6, abs_=1e-9)
                    ctx.seen("chi2", tag, len(fs[i]["counts"]), len(fs[j]["counts"]), round(want, 1))


def _cats(r, n):
    pool = r.sample(gen.WORDS, r.randint(1, 6)) + ["1", "2"]
    k = r.randint(2, 4)
    cols = {}
    for i in range(k):
        x = r.random()
        if x < .75:
            sub = r.sample(pool, r.randint(1, len(pool)))
            w = [r.random() + .05 for _ in sub]
            v = r.choices(sub, w, k=n)
        elif x < .85:
            v = [f"u{j}" for j in range(n)]
        elif x < .9:
            v = ["" for _ in range(n)]
        else:
            v = [r.choice(["3", "4", "nan"]) for _ in range(n)]
        rate = r.choice([0, 0, .2])
        cols[f"k{i}"] = [r.choice(gen.NULLS) if r.random() < rate else c for c in v]
    return pd.DataFrame(cols, dtype=object)


def chi2(ctx):
    r = ctx.rng
    n = r.choice([1, 3, 10, 40, 90])
    df = _cats(r, n)
    df.index, ik = gen.index_any(r, n)
    ctx.note(rows=df.head(5).values.tolist(), index=ik)
    _check_chi2(ctx, util.rep(util.profile(df)), df, "value")


def chi2_history(ctx):
    r = ctx.rng
    n = r.choice([4, 20, 60])
    df = _cats(r, n)
    k = df.shape[1]
    parts = gen.split_points(r, n, r.randint(2, 4))
    mode = r.choice(["update", "merge", "permuted", "merge_update", "update_permuted"])
    ctx.note(rows=df.head(5).values.tolist(), parts=parts, mode=mode)
    p = None
    for q, (a, b) in enumerate(parts):
        ch = df.iloc[a:b]
        perm = list(range(k))
        if mode.endswith("permuted") and q:
            r.shuffle(perm)
        ch = ch.iloc[:, perm]
        if p is None:
            p = util.profile(ch)
        elif mode.startswith("update") or (mode == "merge_update" and q % 2):
            p.update_profile(ch)
        else:
            p = p + util.profile(ch)
    _check_chi2(ctx, util.rep(p), df, "hist")


def _check_nrep(ctx, rep, df, pre=""):
    k = df.shape[1]
    num = [_isnum(rep["data_stats"][i]) for i in range(k)]
    isn = [[bool(colcheck.facts([c])["null_count"]) for c in df.iloc[:, i]] for i in range(k)]
    n = len(df)
    for i in range(k):
        rc = rep["data_stats"][i]
        nn = sum(isn[i])
        m = rc.get("null_replication_metrics")
        if not nn:
            ctx.check(m is None, "nrep.absent", lambda: f"column without nulls has {m}")
            continue
        if not ctx.check(m is not None, "nrep.present", f"column {i} has {nn} nulls but no metrics"):
            continue
        ctx.check(np.allclose(m["class_prior"], [(n - nn) / n, nn / n]), "nrep.prior", lambda: f"{m['class_prior']} want {nn}/{n}")
        others = [j for j in range(k) if j != i]
        ctx.eq([len(x) for x in m["class_sum"]], [k - 1, k - 1], "nrep.len")
        for pos, j in enumerate(others):
            if not num[j]:
                continue
            v = [0.0 if isn[j][t] else float(df.iloc[t, j]) for t in range(n)]
            s1 = math.fsum(v[t] for t in range(n) if isn[i][t])
            s0 = math.fsum(v[t] for t in range(n) if not isn[i][t])
            scale = 1e-9 * (1 + sum(map(abs, v)))
            ctx.close(m["class_sum"][1][pos], s1, "nrep." + pre + "sum", f"null rows of {i}, column {j}", abs_=scale)
            ctx.close(m["class_mean"][1][pos], s1 / nn, "nrep.mean", abs_=scale)
            if nn < n:
                ctx.close(m["class_sum"][0][pos], s0, "nrep." + pre + "sum", f"value rows of {i}, column {j}", abs_=scale)
                ctx.close(m["class_mean"][0][pos], s0 / (n - nn), "nrep.mean", abs_=scale)
            else:
                ctx.check(math.isnan(m["class_sum"][0][pos]) and math.isnan(m["class_mean"][0][pos]), "nrep.none_left")
            ctx.seen("nrep", pre, n, nn, tuple(num))


def nrep(ctx):
    r = ctx.rng
    n = r.choice([1, 3, 8, 25])
    df, kinds = _frame(r, n)
    df.index, ik = gen.index_any(r, n)
    ctx.note(kinds=kinds, index=ik, rows=df.head(5).values.tolist())
    _check_nrep(ctx, util.rep(util.profile(df, {N: True})), df)


def nrep_history(ctx):
    r = ctx.rng
    n = r.choice([4, 10, 25])
    df, kinds = _frame(r, n)
    k = df.shape[1]
    parts = gen.split_points(r, n, r.randint(2, 4))
    lab = r.choice(["cont", "restart", "mixed", "dup"])
    mode = r.choice(["update", "update", "merge", "permuted", "merge_update", "update_permuted"])
    ctx.note(kinds=kinds, parts=parts, labels=lab, mode=mode, rows=df.head(6).values.tolist())
    p = None
    types = []
    for q, (a, b) in enumerate(parts):
        ch = df.iloc[a:b]
        if lab == "restart" or (lab == "mixed" and r.random() < .5):
            ch = ch.reset_index(drop=True)
        elif lab == "dup" and len(ch):
            ch = ch.set_axis(gen.index_for(r, len(ch), "dup")[0])
        perm = list(range(k))
        if mode.endswith("permuted") and q:
            r.shuffle(perm)
        one = util.profile(ch.iloc[:, perm], {N: True})
        tt = util.rep(one)["data_stats"]
        types.append({d["column_name"]: d["data_type"] for d in tt})
        if p is None:
            p = one
        elif mode.startswith("update") or (mode == "merge_update" and q % 2):
            p.update_profile(ch.iloc[:, perm])
        else:
            p = p + one
    # sums of a column are only defined while it looks numeric in every part
    for c in df.columns:
        ks = {t[c] for t in types if t[c] is not None}
        if ks - {"int", "float"}:
            if ks & {"int", "float"}:
                return
    if any(t[c] is None for t in types for c in df.columns):
        if not mode.startswith("update"):
            return
    _check_nrep(ctx, util.rep(p), df, "hist_")


SCENARIOS = [("corr", 4, corr), ("corr_cols", 2, corr_cols), ("corr_history", 3, corr_history), ("chi2", 3, chi2),
             ("chi2_history", 2, chi2_history), ("nrep", 2, nrep), ("nrep_history", 4, nrep_history)]
