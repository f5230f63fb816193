"""The difference of two profiles is the difference of what they report."""
import copy
import math

import numpy as np
import pandas as pd
import scipy.stats

import dataprofiler as dp

from .. import colcheck, gen, ref, util
from ..core import Skip, deep_diff, isclose

PROP = "P12"
RULE = ("pairs of random tables (identical, overlapping, disjoint, different types, empty/all-null columns, different schemas, "
        "merged/updated operands) diffed both ways; every reported difference is recomputed from the two reports; non-trivial = both "
        "profiles hold rows; distinct by (scenario, column types on both sides)")
CASES = {"quick": 420, "thorough": 6000}
REQUIRED = ["chk.num", "chk.pair", "chk.sets", "chk.ttest", "chk.chi2", "chk.psi.cat", "chk.psi.num", "chk.schema", "chk.identity",
            "chk.antisym", "chk.dates", "chk.onesided"]

NUM = ["min", "max", "sum", "mean", "median", "variance", "stddev"]


def numdiff(ctx, got, a, b, sig, msg):
    if a is None and b is None:
        return ctx.check(got == "unchanged", sig, lambda: f"{msg}: got {got!r} for None/None")
    if a is None or b is None:
        return ctx.check(isinstance(got, list) and len(got) == 2 and isclose(got[0], a) and isclose(got[1], b), sig,
                         lambda: f"{msg}: got {got!r} want {[a, b]!r}")
    if a == b:
        return ctx.check(isinstance(got, str) and got == "unchanged", sig, lambda: f"{msg}: got {got!r} for equal {a!r}")
    if isinstance(got, str):
        return ctx.check(False, sig, f"{msg}: got {got!r} for {a!r} vs {b!r}")
    want = a - b
    return ctx.check(isclose(got, want, 1e-9, 1e-12 * max(abs(a), abs(b)) if math.isfinite(a) and math.isfinite(b) else 0), sig,
                     lambda: f"{msg}: got {got!r} want {want!r} ({a!r} - {b!r})")


def pair(ctx, got, a, b, sig, msg):
    want = "unchanged" if a == b else [a, b]
    return ctx.check(got == want, sig, lambda: f"{msg}: got {got!r} want {want!r}")


def sets(ctx, got, a, b, sig, msg):
    if a is None and b is None:
        return ctx.check(got == "unchanged", sig, lambda: f"{msg}: {got!r} for None/None")
    if a is None or b is None:
        ok = isinstance(got, list) and len(got) == 2 and [x and sorted(x, key=str) for x in got] == [x and sorted(x, key=str) for x in (a, b)]
        return ctx.check(ok, sig, lambda: f"{msg}: got {got!r} want {[a, b]!r}")
    if set(a) == set(b):
        return ctx.check(got == "unchanged", sig, lambda: f"{msg}: got {got!r} for equal sets")
    ok = isinstance(got, list) and len(got) == 3 and [sorted(x, key=str) for x in got] == [
        sorted(set(a) - set(b), key=str), sorted(set(a) & set(b), key=str), sorted(set(b) - set(a), key=str)]
    return ctx.check(ok, sig, lambda: f"{msg}: got {got!r} for {a!r} vs {b!r}")


def ttest(ctx, got, x, y, n1, n2):
    m1, v1, m2, v2 = x["mean"], x["variance"], y["mean"], y["variance"]
    bad = n1 <= 1 or n2 <= 1 or any(v is None or v != v for v in (m1, v1, m2, v2)) or (not v1 and not v2)
    if bad:
        ctx.check(got["t-statistic"] is None and got["welch"]["p-value"] is None and got["conservative"]["p-value"] is None, "ttest",
                  lambda: f"{got} without enough data")
        return
    if not all(math.isfinite(v) for v in (m1, v1, m2, v2)):
        return
    se = v1 / n1 + v2 / n2
    if se <= 0 or se < 1e-20 * max(m1 * m1, m2 * m2):
        return
    t = (m1 - m2) / math.sqrt(se)
    ctx.close(got["t-statistic"], t, "ttest", "t", rel=1e-6, abs_=1e-9)
    df = se ** 2 / ((v1 / n1) ** 2 / (n1 - 1) + (v2 / n2) ** 2 / (n2 - 1))
    ctx.close(got["welch"]["deg_of_free"], df, "ttest", "welch df", rel=1e-6)
    ctx.close(got["conservative"]["deg_of_free"], min(n1, n2) - 1, "ttest", "conservative df")
    ctx.close(got["welch"]["p-value"], 2 * scipy.stats.t.sf(abs(t), df), "ttest", "welch p", abs_=1e-9)
    ctx.close(got["conservative"]["p-value"], 2 * scipy.stats.t.sf(abs(t), min(n1, n2) - 1), "ttest", "conservative p", abs_=1e-9)


def chi2(ctx, got, c1, c2):
    n1, n2 = sum(c1.values()), sum(c2.values())
    keys = set(c1) | set(c2)
    if len(keys) <= 1:
        ctx.check(got == {"chi2-statistic": None, "deg_of_free": None, "p-value": None}, "chi2", lambda: f"{got} for one category")
        return
    ctx.eq(got["deg_of_free"], len(keys) - 1, "chi2", "df")
    if not n1 or not n2:
        ctx.check(got["chi2-statistic"] == math.inf and got["p-value"] == 0, "chi2", lambda: f"{got} for empty side")
        return
    tab = np.array([[c.get(k, 0) for k in keys] for c in (c1, c2)], float)
    exp = np.outer(tab.sum(1), tab.sum(0)) / tab.sum()
    st = float(((tab - exp) ** 2 / exp).sum())
    ctx.close(got["chi2-statistic"], st, "chi2", "statistic", rel=1e-6, abs_=1e-9)
    ctx.close(got["p-value"], scipy.stats.chi2.sf(st, len(keys) - 1), "chi2", "p", rel=1e-6, abs_=1e-9)


def psi_counts(p1, p2):
    return sum((b - a) * math.log(b / a) for a, b in zip(p1, p2) if a > 0 and b > 0)


def psi_num(ctx, got, v1, v2, d, types):
    """v1, v2: numbers on both sides"""
    if not v1 or not v2:
        return
    lo, hi = min(v1 + v2), max(v1 + v2)
    if not (math.isfinite(lo) and math.isfinite(hi)):
        return
    if lo == hi:
        return ctx.check(got == 0, "psi.num", lambda: f"{got} for constant data")
    if sorted(v1) == sorted(v2):
        return ctx.check(abs(got) < 1e-9, "psi.num", lambda: f"{got} for equal data")
    w = (hi - lo) / 10
    edges = [lo + i * w for i in range(10)] + [hi]
    # each side's own histogram resolution (>=1000 internal bins over its own range)
    def safe(v):
        res = (max(v) - min(v)) / 1000 * 1.5 + 1e-12 * max(abs(lo), abs(hi))
        return all(abs(x - e) > res for x in v for e in edges[1:-1])
    if not (safe(v1) and safe(v2)):
        ctx.count("psi_ambiguous")
        return
    h1, h2 = np.histogram(v1, bins=edges)[0] / len(v1), np.histogram(v2, bins=edges)[0] / len(v2)
    ctx.close(got, psi_counts(h1, h2), "psi.num", f"PSI {types}", rel=1e-6, abs_=1e-6)


def column(ctx, d, x, y, f1, f2, extra):
    """d: diff of the column; x, y: its reports; f1, f2: reference facts"""
    tmap = {"string": "text"}
    t1, t2 = tmap.get(x["data_type"], x["data_type"]), tmap.get(y["data_type"], y["data_type"])
    ctx.eq(d["column_name"], x["column_name"], "name")
    if t1 is None and t2 is None:
        ctx.check(d["data_type"] in (None, "unchanged"), "pair", lambda: f"data_type {d['data_type']}")
    else:
        pair(ctx, d["data_type"], t1, t2, "pair", "data_type")
    if x["categorical"] is not None or y["categorical"] is not None:
        pair(ctx, d["categorical"], x["categorical"], y["categorical"], "pair", "categorical")
    if x["order"] is not None and y["order"] is not None:
        pair(ctx, d["order"], x["order"], y["order"], "pair", "order")
    s, a, b = d["statistics"], x["statistics"], y["statistics"]
    for k in ("sample_size", "null_count"):
        numdiff(ctx, s[k], a[k], b[k], "num", k)
    if a["sample_size"] and b["sample_size"]:
        numdiff(ctx, s["null_ratio"], a["null_count"] / a["sample_size"], b["null_count"] / b["sample_size"], "num", "null_ratio")
    sets(ctx, s["null_types"], list(a["null_types"]), list(b["null_types"]), "sets", "null_types")
    na, nb = a["null_types_index"], b["null_types_index"]
    if na or nb:
        got = s["null_types_index"]
        ok = (isinstance(got, list) and len(got) == 3 and set(got[0]) == set(na) - set(nb) and set(got[2]) == set(nb) - set(na)
              and set(got[1]) == set(na) & set(nb) and all((got[1][k] == "unchanged") == (set(na[k]) == set(nb[k])) for k in got[1]))
        ctx.check(ok, "sets", lambda: f"null_types_index {got} for {na} vs {nb}")
    for k in ("unique_count", "unique_ratio"):
        if k in a and k in b:
            numdiff(ctx, s[k], a[k], b[k], "num", k)
    r = s.get("data_type_representation")
    if r and "data_type_representation" in a and "data_type_representation" in b and f1["values"] and f2["values"]:
        ra, rb = a["data_type_representation"], b["data_type_representation"]
        ra, rb = ({("text" if k == "string" else k): v for k, v in z.items()} for z in (ra, rb))
        for k in ra:
            if k in rb:
                numdiff(ctx, r[k], ra[k], rb[k], "num", "representation " + k)
    both_cat = x["categorical"] and y["categorical"]
    if both_cat:
        sets(ctx, s["categories"], a["categories"], b["categories"], "sets", "categories")
        for k in ("gini_impurity", "unalikeability"):
            numdiff(ctx, s[k], a[k], b[k], "num", k)
        topk = any("category.top_k" in k or "stop_condition" in k for k in extra)
        if not topk:
            c1, c2 = a["categorical_count"], b["categorical_count"]
            chi2(ctx, s["chi2-test"], c1, c2)
            got = s["categorical_count"]
            keys = set(c1) | set(c2)
            if keys:
                ctx.check(set(got) == keys, "sets", lambda: f"categorical_count keys {set(got) ^ keys}")
                for k in keys:
                    p, q = c1.get(k, 0), c2.get(k, 0)
                    numdiff(ctx, got[k], p, q, "num", f"category {k!r}")
                n1, n2 = sum(c1.values()), sum(c2.values())
                if n1 and n2:
                    ctx.close(s["psi"], psi_counts([c1.get(k, 0) / n1 for k in keys], [c2.get(k, 0) / n2 for k in keys]), "psi.cat",
                              "categorical PSI", rel=1e-6, abs_=1e-9)
    if t1 != t2 or t1 is None:
        if t1 != t2:
            ctx.check("t-test" not in s, "pair", "t-test between different types")
        return
    if t1 == "datetime":
        sets(ctx, s["format"], a["format"], b["format"], "sets", "format")
        for k in ("min", "max"):
            p, q = ref.parse_date(a[k]), ref.parse_date(b[k])
            if colcheck_dates(f1, f2) or p is None or q is None:
                continue
            dl = p[0] - q[0]
            got = s[k]
            if not dl:
                ctx.check(got == "unchanged", "dates", lambda: f"{k}: {got!r} for equal {a[k]}")
            else:
                ok = isinstance(got, str) and got[:1] in "+-" and (got[0] == "+") == (dl.total_seconds() > 0)
                ok = ok and abs(pd.Timedelta(got[1:]) - abs(pd.Timedelta(dl))) < pd.Timedelta(seconds=1e-3)
                ctx.check(ok, "dates", lambda: f"{k}: {got!r} for {a[k]} - {b[k]}")
        return
    for k in NUM:
        if k in a:
            numdiff(ctx, s[k], a[k], b[k], "num", k)
    if "median_abs_deviation" in a:
        numdiff(ctx, s["median_absolute_deviation"], a["median_abs_deviation"], b["median_abs_deviation"], "num", "mad")
    if isinstance(a.get("mode"), list) and isinstance(b.get("mode"), list):
        if not any(m != m for m in a["mode"] + b["mode"]):
            sets(ctx, s["mode"], a["mode"], b["mode"], "sets", "mode")
    n1, n2 = len(f1["values"]), len(f2["values"])
    if not any(".sum." in k or ".variance." in k for k in extra):
        ttest(ctx, s["t-test"], a, b, n1, n2)
    if t1 == "text":
        ctx.check("psi" not in s or both_cat, "sets", "PSI of text lengths")
        if "vocab" in a:
            sets(ctx, s["vocab"], a["vocab"], b["vocab"], "sets", "vocab")
    else:
        if t1 == "float" and a.get("precision"):
            for k in a["precision"]:
                if k != "confidence_level":
                    numdiff(ctx, s["precision"][k], a["precision"][k], b["precision"][k], "num", "precision " + k)
        if not both_cat and s.get("psi") is not None and not any("histogram" in k or "bin_count" in k for k in extra):
            psi_num(ctx, s["psi"], [float(v) for v in f1["values"]], [float(v) for v in f2["values"]], d, t1)


def colcheck_dates(f1, f2):
    """formats whose reading is ambiguous are out of scope"""
    for f in (f1, f2):
        for v in f["values"]:
            p = ref.parse_date(v)
            if p is None or p[1] in ("%m/%d/%y %H:%M", "%m/%d/%y", "%d%b%y", "%b-%d-%y", "%H:%M:%S.%f", "%m%d%Y"):
                return True
    return False


def whole(ctx, d, P, Q, df1, df2, extra, pats=None):
    g, x, y = d["global_stats"], P["global_stats"], Q["global_stats"]
    for k in ("samples_used", "column_count", "row_count", "row_has_null_ratio", "row_is_null_ratio", "unique_row_ratio",
              "duplicate_row_count"):
        numdiff(ctx, g[k], x[k], y[k], "num", k)
    for k in ("file_type", "encoding"):
        pair(ctx, g[k], x[k], y[k], "pair", k)
    s1, s2 = dict(x["profile_schema"]), dict(y["profile_schema"])
    got = g["profile_schema"]
    ok = (isinstance(got, list) and set(got[0]) == set(s1) - set(s2) and set(got[2]) == set(s2) - set(s1)
          and set(got[1]) == set(s1) & set(s2) and all((got[1][k] == "unchanged") == (s1[k] == s2[k]) for k in got[1]))
    ctx.check(ok, "schema", lambda: f"{got} for {s1} vs {s2}")
    for k in ("chi2_matrix", "correlation_matrix"):
        m1, m2 = x[k], y[k]
        if m1 is None or m2 is None or np.shape(m1) != np.shape(m2):
            ctx.check(g[k] is None, "matrix", lambda: f"{k}: {g[k]}")
        else:
            dm = np.array(m1, float) - np.array(m2, float)
            if ((dm == 0) | np.isnan(dm)).all():
                ctx.check(isinstance(g[k], str) and g[k] == "unchanged", "matrix", lambda: f"{k}: {g[k]}")
            else:
                ctx.check(not isinstance(g[k], str) and not deep_diff(np.array(g[k], float), dm, 1e-9, 1e-12), "matrix",
                          lambda: f"{k}: {g[k]} want {dm}")
    if s1 != s2:
        ctx.check(d["data_stats"] == [], "schema", "columns of different schemas compared")
        return
    ctx.eq(len(d["data_stats"]), len(P["data_stats"]), "schema", "columns")
    for i in range(len(P["data_stats"])):
        column(ctx, d["data_stats"][i], P["data_stats"][i], Q["data_stats"][i], colcheck.facts(df1.iloc[:, i].tolist()),
               colcheck.facts(df2.iloc[:, i].tolist()), extra)


def neg(v):
    if isinstance(v, str):
        return ("-" if v[0] == "+" else "+") + v[1:] if v[:1] in "+-" and v[1:] else v
    return v


def antisym(ctx, d, e, path=""):
    """numbers flip their sign, pairs and partitions flip their order"""
    skip = ("t-test", "chi2-test", "null_types_index", "profile_schema", "psi", "chi2_matrix", "correlation_matrix", "column_name")
    for k in d:
        if k in skip and not path.endswith("categorical_count"):
            continue
        a, b = d[k], e.get(k, "<missing>")
        if isinstance(a, dict) and isinstance(b, dict):
            antisym(ctx, a, b, path + "/" + str(k))
        elif isinstance(a, list) and a and isinstance(a[0], dict) and isinstance(b, list):
            for i, (p, q) in enumerate(zip(a, b)):
                if isinstance(p, dict) and isinstance(q, dict):
                    antisym(ctx, p, q, f"{path}/{k}[{i}]")
        elif isinstance(a, (int, float, np.number)) and not isinstance(a, bool):
            ctx.check(isinstance(b, (int, float, np.number)) and isclose(a, -b, 1e-9, 1e-12), "antisym", lambda: f"{path}/{k}: {a!r} vs {b!r}")
        elif isinstance(a, list) and isinstance(b, list):
            def n(z):
                return [sorted(v, key=str) if isinstance(v, list) else v for v in z]
            ctx.check(n(a) == n(b)[::-1] or deep_diff(n(a), n(b)[::-1]) == [], "antisym", lambda: f"{path}/{k}: {a!r} vs {b!r}")
        elif isinstance(a, str):
            ctx.check(a == neg(b), "antisym", lambda: f"{path}/{k}: {a!r} vs {b!r}")
    if "psi" in d and path.endswith("/statistics"):
        ctx.check(isclose(d["psi"], e.get("psi"), 1e-6, 1e-9), "antisym", lambda: f"{path}/psi: {d['psi']} vs {e.get('psi')}")


def make(ctx, df, extra, mts=0):
    """profile df through a random history"""
    r = ctx.rng
    if len(df) > 1 and r.random() < .4:
        parts = gen.split_points(r, len(df), 2)
        p = util.profile(df.iloc[slice(*parts[0])], extra)
        if r.random() < .5:
            p.update_profile(df.iloc[slice(*parts[1])])
            return p, "updated"
        return p + util.profile(df.iloc[slice(*parts[1])], extra), "merged"
    return util.profile(df, extra), "fresh"


def two(ctx):
    r = ctx.rng
    extra = util.rand_extra(r) if r.random() < .4 else {}
    kinds = None
    mode = r.choice(["split", "same_kinds", "any", "ints"])
    n1, n2 = r.choice([1, 2, 8, 30, 60]), r.choice([1, 2, 8, 30, 60])
    if mode == "split":
        df, ks, _ = gen.table(r, n=n1 + n2)
        a, b = df.iloc[:n1], df.iloc[n1:]
    else:
        k = r.randint(1, 3)
        names = [f"c{i}" for i in range(k)]
        if mode == "ints":
            mk = lambda n: pd.DataFrame({c: [str(v) for v in gen.ints(r, n, r.choice(["neg", "skew", "clustered", "wide"]))] for c in names},
                                        dtype=object)
            a, b, ks = mk(n1), mk(n2), ["int"] * k
        else:
            ks = [r.choice(gen.KINDS) for _ in range(k)]
            a = pd.DataFrame({c: gen.column(r, n1, q)[1] for c, q in zip(names, ks)}, dtype=object)
            ks2 = ks if mode == "same_kinds" else [r.choice(gen.KINDS) for _ in range(k)]
            b = pd.DataFrame({c: gen.column(r, n2, q)[1] for c, q in zip(names, ks2)}, dtype=object)
    ctx.note(mode=mode, kinds=ks, n=(n1, n2), extra=extra, head=[a.head(3).values.tolist(), b.head(3).values.tolist()])
    p, h1 = make(ctx, a, extra)
    q, h2 = make(ctx, b, extra)
    P, Q = util.rep(p), util.rep(q)
    d = util.strip_volatile(p.diff(q))
    e = util.strip_volatile(q.diff(p))
    whole(ctx, d, P, Q, a, b, extra)
    whole(ctx, e, Q, P, b, a, extra)
    antisym(ctx, d, e)
    ctx.seen("two", mode, h1, h2, tuple(c["data_type"] for c in P["data_stats"]), tuple(c["data_type"] for c in Q["data_stats"]))


def flat(d, path=""):
    if isinstance(d, dict):
        for k, v in d.items():
            yield from flat(v, f"{path}/{k}")
    elif isinstance(d, list) and any(isinstance(v, dict) for v in d):
        for i, v in enumerate(d):
            yield from flat(v, f"{path}[{i}]")
    else:
        yield path, d


def identity(ctx):
    """profiles of the same rows do not differ"""
    r = ctx.rng
    extra = util.rand_extra(r) if r.random() < .4 else {}
    df, ks, _ = gen.table(r, n=r.choice([1, 2, 8, 30, 60]))
    p = util.profile(df, extra)
    q = p if r.random() < .3 else util.profile(df, extra)
    ctx.note(kinds=ks, extra=extra, n=len(df), head=df.head(3).values.tolist(), same_object=q is p)
    d = util.strip_volatile(p.diff(q))
    for path, v in flat(d):
        last = path.rsplit("/", 1)[-1]
        if last == "column_name" or "profile_schema[0]" in path or "null_types_index[0]" in path:
            continue
        if "t-test" in path:
            if last == "t-statistic":
                ctx.check(v is None or v != v or v == 0, "identity", lambda: f"{path} {v}")
            continue
        if "chi2-test" in path:
            if last == "chi2-statistic":
                ctx.check(v is None or abs(v) < 1e-9, "identity", lambda: f"{path} {v}")
            continue
        if path.endswith("statistics/psi"):
            ctx.check(v is None or abs(v) < 1e-9, "identity", lambda: f"{path} {v}")
            continue
        nan = isinstance(v, (float, np.floating)) and (v != v or abs(v) < 1e-12)  # summation order
        nanlist = isinstance(v, list) and "mode" in path
        ctx.check(v is None or nan or nanlist or v == "unchanged" or v == {} or v == [], "identity", lambda: f"{path}: {v!r} for identical data")
    ctx.seen("identity", tuple(ks), q is p, tuple(sorted(extra)))


def schemas(ctx):
    """columns are only compared when both profiles have the same columns"""
    r = ctx.rng
    k = r.randint(1, 3)
    n = r.choice([3, 10])
    names1 = [f"c{i}" for i in range(k)]
    m = r.choice(["extra", "renamed", "permuted", "dup"])
    names2 = {"extra": names1 + ["z"], "renamed": names1[:-1] + ["z"], "permuted": names1[::-1], "dup": names1[:-1] + [names1[0]]}[m]
    a, _, _ = gen.table(r, n=n, ncols=k, names=names1)
    b, _, _ = gen.table(r, n=n, ncols=len(names2), names=names2)
    p, q = util.profile(a), util.profile(b)
    ctx.note(names1=names1, names2=names2)
    whole(ctx, util.strip_volatile(p.diff(q)), util.rep(p), util.rep(q), a, b, {})
    ctx.raises(lambda: p.diff(dp.Profiler(["hello there"], options=util.opts(), profiler_type="unstructured")), TypeError, "schema",
               "structured vs unstructured")
    ctx.seen("schemas", m, k)


def one_sided(ctx):
    """a type recognised by only one of the profiles is reported against nothing"""
    r = ctx.rng
    k = r.randint(1, 3)
    names = [f"c{i}" for i in range(k)]
    ks = [r.choice(["int", "float", "date", "text", "cat"]) for _ in names]
    off = lambda: {t + ".is_enabled": False for t in r.sample(["int", "float", "datetime"], r.randint(0, 3))}
    o1, o2 = off(), off()
    a, b = (pd.DataFrame({c: gen.column(r, n, q)[1] for c, q in zip(names, ks)}, dtype=object) for n in (r.choice([2, 8, 30]), r.choice([2, 8, 30])))
    ctx.note(kinds=ks, off=(o1, o2), head=[a.head(3).values.tolist(), b.head(3).values.tolist()])
    p, q = util.profile(a, o1), util.profile(b, o2)
    P, Q = util.rep(p), util.rep(q)
    for d, X, Y in ((p.diff(q), P, Q), (q.diff(p), Q, P)):
        for c, x, y in zip(d["data_stats"], X["data_stats"], Y["data_stats"]):
            if x["data_type"] is None or y["data_type"] is None:
                continue
            tx, ty = ("text" if z["data_type"] == "string" else z["data_type"] for z in (x, y))
            pair(ctx, c["data_type"], tx, ty, "pair", "data_type")
            u, v = ({("text" if t == "string" else t): w for t, w in z["statistics"]["data_type_representation"].items()} for z in (x, y))
            got = c["statistics"]["data_type_representation"]
            ctx.check(set(got) == set(u) | set(v), "onesided", lambda: f"types {set(got)} for {set(u)} and {set(v)}")
            for t in got:
                numdiff(ctx, got[t], u.get(t), v.get(t), "onesided", "representation " + t)
    ctx.seen("one_sided", tuple(sorted(o1)), tuple(sorted(o2)), tuple(ks))


def formats(ctx):
    """output formats of a diff only restyle it"""
    r = ctx.rng
    df, ks, _ = gen.table(r, n=20)
    p, q = util.profile(df.iloc[:10]), util.profile(df.iloc[10:])
    d = p.diff(q)
    f = r.choice(["pretty", "serializable", "compact"])
    x = p.diff(q, options={"output_format": f})
    ctx.note(kinds=ks, fmt=f)
    ctx.check(list(x) == list(d), "format", f"{list(x)} {list(d)}")
    for i, c in enumerate(d["data_stats"]):
        for k in ("column_name", "data_type", "categorical", "order"):
            ctx.check(str(x["data_stats"][i][k]) == str(c[k]) or f == "pretty", "format", lambda: f"{k}: {x['data_stats'][i][k]} vs {c[k]}")
        for k, v in c["statistics"].items():
            if isinstance(v, (int, float)) and not isinstance(v, bool) and k in x["data_stats"][i]["statistics"]:
                w = x["data_stats"][i]["statistics"][k]
                ctx.check(isclose(w, v, 1e-12) or (f in ("pretty", "compact") and abs(w - v) <= 6e-5), "format", lambda: f"{k}: {w} vs {v}")
    if f == "serializable":
        import json
        json.dumps(x, default=lambda o: float(o) if isinstance(o, np.generic) else list(o))
    ctx.seen("formats", f, tuple(ks))


SCENARIOS = [("two", 8, two), ("identity", 3, identity), ("schemas", 1, schemas), ("formats", 1, formats), ("one_sided", 1, one_sided)]
