"""Column oracles: compare one column of a report with an independent recomputation."""
import math

import numpy as np

from . import ref
from .core import isclose


def facts(cells, pats=None):
    return ref.column(cells, pats)


def counts(ctx, rc, f, labels, tag="count", shifted=False):
    """null/sample accounting. labels: index label of every cell."""
    st = rc["statistics"]
    ctx.eq(st["sample_size"], f["n"], tag + ".sample_size")
    ctx.eq(st["null_count"], f["null_count"], tag + ".null_count")
    ctx.check(sorted(st["null_types"]) == sorted(f["null_types"]), tag + ".null_types",
              lambda: f"got {st['null_types']!r} want {sorted(f['null_types'])!r}")
    got = {k: sorted(v) for k, v in st["null_types_index"].items()}
    want = {k: sorted(labels[i] for i in v) for k, v in f["null_types"].items()}
    ctx.check(got == want, tag + ".null_index", lambda: f"got {got!r} want {want!r}")


def samples_ok(ctx, rc_full, f, tag="count.samples"):
    """reported samples are a sub-multiset of the non-null values, at most 5, all 5 when available"""
    s = list(rc_full["samples"]) if not isinstance(rc_full["samples"], str) else None
    if s is None:
        return
    from collections import Counter
    c = Counter(s)
    ctx.check(all(c[k] <= f["counts"].get(k, 0) for k in c), tag, lambda: f"{s!r} not drawn from the data")
    ctx.eq(len(s), min(5, len(f["values"])), tag + ".len")


def date_facts(vals):
    """(#dates, min datetime, max datetime, formats) or None when ambiguous."""
    ps = [ref.parse_date(v) for v in vals]
    n = sum(p is not None for p in ps)
    return ps, n


def dtype(ctx, rc, f, tag="type"):
    """type inference"""
    st = rc["statistics"]
    vals = f["values"]
    if not vals:
        ctx.check(rc["data_type"] is None, tag + ".none", lambda: f"no values but type {rc['data_type']!r}")
        return None
    ps, nd = date_facts(vals)
    n = len(vals)
    rep = st["data_type_representation"]
    strkey = "string" if max(map(len, vals)) <= 255 else "text"
    ctx.close(rep["int"], f["int_ratio"], tag + ".ratio_int", rel=1e-12)
    ctx.close(rep["float"], f["float_ratio"], tag + ".ratio_float", rel=1e-12)
    text_rep = rep.get("string", rep.get("text"))
    ctx.eq(text_rep, 1.0, tag + ".ratio_text")
    # all-May / %b handling: undecidable from outside -> accept both
    may = any(p and p[0].month == 5 and ("%b" in p[1] or "%B" in p[1]) for p in ps)
    if not may:
        if n <= 50:
            want = nd / n if nd / n >= 0.10 else 0.0
            ctx.close(rep["datetime"], want, tag + ".ratio_date", rel=1e-12)
        else:
            ctx.check(isclose(rep["datetime"], nd / n) or (rep["datetime"] == 0 and nd / n < 0.4), tag + ".ratio_date",
                      lambda: f"got {rep['datetime']} want {nd / n}")
    if rep["datetime"] == 1.0:
        want = "datetime"
    elif f["int_ratio"] == 1:
        want = "int"
    elif f["float_ratio"] == 1:
        want = "float"
    else:
        want = strkey
    ctx.eq(rc["data_type"], want, tag + ".data_type", f"{vals[:6]!r}")
    if nd == n and not may:
        ctx.eq(rc["data_type"], "datetime", tag + ".date")
    return rc["data_type"]


def numbers(rc, f):
    """the numbers the numeric statistics are about"""
    t = rc["data_type"]
    if t in ("int", "float"):
        return [float(v) for v in f["values"]]
    if t in ("string", "text"):
        return [float(len(v)) for v in f["values"]]
    return None


def _cond(m):
    """conditioning: how many digits may legitimately be lost"""
    if not m.get("m2") or m["n"] < 2:
        return 1.0
    sd = math.sqrt(m["m2"] / m["n"])
    return max(1.0, abs(m["mean"]) / sd) if sd else 1e18


def numeric(ctx, rc, f, tag="num", sfx="", loose=1.0):
    st = rc["statistics"]
    xs = numbers(rc, f)
    if xs is None or not xs:
        return
    if not all(math.isfinite(x) for x in xs):
        return
    m = ref.moments(xs)
    ctx.eq(float(st["min"]), min(xs), tag + ".min", sfx)
    ctx.eq(float(st["max"]), max(xs), tag + ".max", sfx)
    scale = max(abs(x) for x in xs)
    ctx.close(st["sum"], m["sum"], tag + ".sum", sfx, rel=1e-9, abs_=1e-9 * scale * len(xs) + 1e-300)
    ctx.close(st["mean"], m["mean"], tag + ".mean", sfx, rel=1e-9, abs_=1e-9 * scale + 1e-300)
    c = _cond(m)
    eps = 1e-15 * loose
    if m["n"] == 1:
        ctx.check(st["variance"] != st["variance"], tag + ".variance1", lambda: f"variance of one value {st['variance']!r}")
    elif m["const"]:
        ctx.check(abs(st["variance"]) <= 1e-9 * (scale ** 2 + 1e-300), tag + ".variance0", lambda: f"{st['variance']!r}")
    else:
        tol = 1e-7 + 1e3 * eps * c * c
        if tol < 1e-2:
            ctx.close(st["variance"], m["var"], tag + ".variance", sfx, rel=tol, abs_=0)
            ctx.close(st["stddev"], m["std"], tag + ".stddev", sfx, rel=tol, abs_=0)
        # third/fourth central sums below 1e-14 are documented to be treated as zero
        n = m["n"]
        z3 = 10 * math.sqrt(n) * 1e-14 / m["m2"] ** 1.5 * 3 if m["m2"] > 1e-100 else 1e9
        z4 = 10 * n * 1e-14 / m["m2"] ** 2 * 6 if m["m2"] > 1e-100 else 1e9
        tol3 = 1e-6 + 1e4 * eps * c ** 3
        if tol3 < 1e-2 and z3 < 1e-2:
            ctx.close(st["skewness"], m["skew"], tag + ".skewness", sfx, rel=tol3, abs_=tol3 * 10 + z3)
        tol4 = 1e-6 + 1e4 * eps * c ** 4
        if tol4 < 1e-2 and z4 < 1e-2:
            ctx.close(st["kurtosis"], m["kurt"], tag + ".kurtosis", sfx, rel=tol4, abs_=tol4 * 30 + z4)
    if rc["data_type"] in ("int", "float"):
        ctx.eq(st["num_zeros"], sum(x == 0 for x in xs), tag + ".num_zeros", sfx)
        ctx.eq(st["num_negatives"], sum(x < 0 for x in xs), tag + ".num_negatives", sfx)


def categorical(ctx, rc, f, tag="cat", top_k=None):
    st = rc["statistics"]
    cnt = f["counts"]
    n = len(f["values"])
    if n == 0:
        # an all-null column has no categories
        ctx.check(not st.get("unique_count"), tag + ".empty", lambda: f"{st.get('unique_count')!r}")
        return
    ctx.eq(st["unique_count"], len(cnt), tag + ".unique_count")
    ctx.close(st["unique_ratio"], len(cnt) / n, tag + ".unique_ratio", rel=1e-12)
    is_cat = len(cnt) <= 10 or len(cnt) / n <= 0.2
    ctx.eq(bool(rc["categorical"]), is_cat, tag + ".is_categorical")
    if is_cat:
        ctx.check(set(st["categories"]) == set(cnt) and len(st["categories"]) == len(cnt), tag + ".categories",
                  lambda: f"got {st['categories']!r} want {sorted(cnt)!r}")
        cc = st["categorical_count"]
        if top_k is None:
            ctx.check(dict(cc) == dict(cnt), tag + ".counts", lambda: f"got {cc!r} want {dict(cnt)!r}")
        else:
            k = min(top_k, len(cnt))
            ctx.eq(len(cc), k, tag + ".topk_len")
            ctx.check(all(cnt.get(a) == b for a, b in cc.items()), tag + ".topk_val", lambda: f"{cc} vs {cnt}")
            ctx.check(sorted(cc.values(), reverse=True) == sorted(cnt.values(), reverse=True)[:k], tag + ".topk_best",
                      lambda: f"{cc} vs {cnt}")
        ctx.close(st["gini_impurity"], sum(c / n * (1 - c / n) for c in cnt.values()), tag + ".gini", rel=1e-9)
        want = 0 if n == 1 else sum((n - c) * c for c in cnt.values()) / (n * n - n)
        ctx.close(st["unalikeability"], want, tag + ".unalike", rel=1e-9)
    else:
        ctx.check("categories" not in st and "categorical_count" not in st, tag + ".non_categorical_leak")


def order(ctx, rc, f, tag="order"):
    want = ref.order(f["values"])
    if want is None:
        return
    ctx.eq(rc["order"], want, tag + ".value", f"{f['values'][:12]!r}")


def histogram(ctx, rc, f, tag="hist", num_q=4):
    st = rc["statistics"]
    xs = numbers(rc, f)
    if not xs or not all(math.isfinite(x) for x in xs):
        return
    h = st["histogram"]
    bc = np.asarray(h["bin_counts"], float)
    be = np.asarray(h["bin_edges"], float)
    n = len(xs)
    lo, hi = min(xs), max(xs)
    span = hi - lo
    eps = 1e-9 * max(abs(lo), abs(hi), 1e-300)
    ctx.eq(len(be), len(bc) + 1, tag + ".shape")
    ctx.check(np.all(np.isfinite(be)) and np.all(np.diff(be) >= 0), tag + ".edges_monotone", lambda: f"{be}")
    ctx.check(np.all(bc >= -1e-9), tag + ".nonneg", lambda: f"{bc}")
    ctx.check(abs(bc.sum() - n) <= 1e-6 * n, tag + ".conservation", lambda: f"bins hold {bc.sum()} of {n} values")
    ctx.check(isclose(be[0], lo, 1e-9, eps) and isclose(be[-1], hi, 1e-9, eps), tag + ".range",
              lambda: f"edges [{be[0]}, {be[-1]}] data [{lo}, {hi}]")
    return xs, bc, be


def quantiles(ctx, rc, f, tag="quant", num_q=4, err=None):
    """quantiles ordered, within range, and within one stored bin of the exact empirical quantile"""
    st = rc["statistics"]
    xs = numbers(rc, f)
    if not xs or not all(math.isfinite(x) for x in xs):
        return
    q = st["quantiles"]
    ctx.eq(len(q), num_q - 1, tag + ".len")
    qv = [q[k] for k in sorted(q)]
    lo, hi = min(xs), max(xs)
    eps = 1e-9 * max(abs(lo), abs(hi)) + 1e-300
    ctx.check(all(a <= b + eps for a, b in zip(qv, qv[1:])), tag + ".monotone", lambda: f"{qv}")
    ctx.check(all(lo - eps <= a <= hi + eps for a in qv), tag + ".in_range", lambda: f"{qv} not in [{lo},{hi}]")
    s = sorted(xs)
    n = len(s)
    width = err if err is not None else (hi - lo) / 1000.0 * 1.01 + eps
    for i, v in enumerate(qv, 1):
        p = i / num_q
        # the estimate must lie (up to one bin) between the order statistics around p
        a = s[max(0, math.ceil(p * n - 1e-9) - 1)]
        b = s[min(n - 1, math.floor(p * n + 1e-9))]
        ctx.check(a - width <= v <= b + width, tag + ".value",
                  lambda: f"q{p}: got {v} exact in [{a},{b}] bin width {width} n={n}")
    return qv


def precision(ctx, rc, f, tag="prec"):
    if rc["data_type"] != "float":
        return
    pr = rc["statistics"]["precision"]
    sf = [ref.sig_figs(v) for v in f["values"]]
    n = len(sf)
    ctx.eq(pr["min"], float(min(sf)), tag + ".min")
    ctx.eq(pr["max"], float(max(sf)), tag + ".max")
    ctx.eq(pr["sample_size"], n, tag + ".sample_size")
    p = max(1, int(max(sf)))
    r = lambda x: float("{:.{p}g}".format(x, p=p))
    tol = 0.6 * 10 ** (1 - p)
    m = ref.moments([float(x) for x in sf])
    ctx.close(pr["mean"], m["mean"], tag + ".mean", rel=tol)
    if n > 1:
        ctx.close(pr["var"], m["var"], tag + ".var", f"{sf}", rel=tol)
        ctx.close(pr["std"], m["std"], tag + ".std", rel=tol)


def dates(ctx, rc, f, tag="date"):
    if rc["data_type"] != "datetime":
        return
    st = rc["statistics"]
    ps = [ref.parse_date(v) for v in f["values"]]
    if any(p is None for p in ps) or any(p[0].month == 5 and "%b" in p[1].replace("%B", "%b") for p in ps):
        return
    lo = min(p[0] for p in ps)
    hi = max(p[0] for p in ps)
    gmin = ref.parse_date(str(st["min"]))
    gmax = ref.parse_date(str(st["max"]))
    ctx.check(gmin and gmin[0] == lo, tag + ".min", lambda: f"got {st['min']!r} want {lo}")
    ctx.check(gmax and gmax[0] == hi, tag + ".max", lambda: f"got {st['max']!r} want {hi}")
    ctx.check(st["min"] in f["values"] and st["max"] in f["values"], tag + ".verbatim")
    ctx.check(set(st["format"]) == {p[1] for p in ps}, tag + ".format",
              lambda: f"got {st['format']!r} want {sorted({p[1] for p in ps})!r}")


def vocab(ctx, rc, f, tag="vocab"):
    if rc["data_type"] not in ("string", "text"):
        return
    v = rc["statistics"]["vocab"]
    want = set("".join(f["values"]))
    ctx.check(set(v) == want and len(v) == len(want), tag + ".value", lambda: f"got {sorted(v)!r} want {sorted(want)!r}")
