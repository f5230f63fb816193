"""Compare two reports of (what must be) the same data."""
import math

import numpy as np

from .core import deep_diff, isclose

SETS = {"null_types", "categories", "vocab", "format"}
APPROX = {"histogram", "quantiles", "median", "mode", "median_abs_deviation"}
MOMENT = {"variance", "stddev", "skewness", "kurtosis"}


def _cond(st):
    m, v = st.get("mean"), st.get("variance")
    try:
        if v and v > 0 and m == m:
            return max(1.0, abs(m) / math.sqrt(v))
    except TypeError:
        pass
    return 1e18


def column(ctx, g, w, tag, n_values=None, order=True, null_index=True, approx=True, hist_exact=False, nulls=True, skip=(),
           cells=None):
    """g, w: column reports. approx: histogram-derived statistics are only compared structurally."""
    ctx.eq(g["column_name"], w["column_name"], tag + ".name")
    ctx.eq(g["data_type"], w["data_type"], tag + ".data_type", str(cells)[:300] if cells is not None else "")
    if order:
        ctx.eq(g["order"], w["order"], tag + ".order")
    ctx.eq(g["categorical"], w["categorical"], tag + ".categorical")
    if "data_label" in w:
        ctx.eq(g.get("data_label"), w["data_label"], tag + ".data_label")
    gs, ws = g["statistics"], w["statistics"]
    ctx.check(set(gs) == set(ws), tag + ".keys", lambda: f"only one side: {set(gs) ^ set(ws)}")
    c = _cond(ws)
    for k in ws:
        if k not in gs or k in skip:
            continue
        a, b = gs[k], ws[k]
        if k in SETS:
            ok = (a is None and b is None) or (a is not None and b is not None and sorted(map(str, a)) == sorted(map(str, b)))
            ctx.check(ok, f"{tag}.{k}", lambda: f"got {a!r} want {b!r}")
        elif k == "null_types_index":
            if null_index:
                ctx.check({x: sorted(y) for x, y in a.items()} == {x: sorted(y) for x, y in b.items()}, f"{tag}.{k}",
                          lambda: f"got {a!r} want {b!r}")
        elif k in APPROX:
            if hist_exact:
                d = deep_diff(a, b, 1e-6, 1e-9)
                ctx.check(not d, f"{tag}.{k}", lambda: f"{d[:3]}")
            elif approx and k == "histogram":
                _hist(ctx, a, b, tag, gs)
            elif approx and k == "quantiles" and isinstance(b, dict) and ws.get("max") is not None:
                span = float(ws["max"]) - float(ws["min"]) if _num(ws["max"]) and _num(ws["min"]) else float("nan")
                if math.isfinite(span):
                    vals = [a[i] for i in sorted(a)]
                    eps = 1e-9 * max(abs(float(ws["max"])), abs(float(ws["min"])))
                    ctx.check(all(x <= y + eps for x, y in zip(vals, vals[1:]))
                              and all(float(ws["min"]) - eps <= x <= float(ws["max"]) + eps for x in vals), f"{tag}.quantiles",
                              lambda: f"{vals} for [{ws['min']},{ws['max']}]")
        elif k in MOMENT:
            p = {"variance": 2, "stddev": 2, "skewness": 3, "kurtosis": 4}[k]
            tol = 1e-6 + 1e-11 * c ** p
            if _num(a) and _num(b) and math.isfinite(b):
                mx = max(abs(float(ws.get("max") or 0)), abs(float(ws.get("min") or 0)))
                known = ws.get("max") is not None and ws.get("min") is not None
                const = known and ws["max"] == ws["min"]
                if not known:                       # extrema switched off: magnitudes only known by the mean
                    mu = abs(ws["mean"]) if _num(ws.get("mean")) else 0.0
                    if p == 2 and mu == mu:
                        ctx.close(a, b, f"{tag}.{k}", rel=1e-6, abs_=1e-9 * mu * mu if k == "variance" else 1e-4 * mu)
                    continue
                if p == 2:
                    if const:
                        ctx.check(abs(a) <= 1e-9 * (mx * mx + 1e-300) if k == "variance" else abs(a) <= 1e-4 * (mx + 1e-300),
                                  f"{tag}.{k}", lambda: f"got {a} want {b}")
                    elif tol < 1e-2:
                        ctx.close(a, b, f"{tag}.{k}", rel=tol, abs_=0)
                elif not const and tol < 1e-2:
                    m2 = (ws.get("variance") or 0) * max(1, (n_values or 2) - 1)
                    z = 1e-12 / m2 ** (p / 2) if m2 > 1e-100 else 1e9
                    if z < 1e-2:
                        ctx.close(a, b, f"{tag}.{k}", rel=tol, abs_=tol * 30 + z)
            else:
                if not (ws.get("max") == ws.get("min")):
                    ctx.check(isclose(a, b), f"{tag}.{k}", lambda: f"got {a!r} want {b!r}")
        elif k in ("sum", "mean"):
            mx = max(abs(float(ws.get("max") or 0)), abs(float(ws.get("min") or 0))) if _num(ws.get("max")) else 1
            if math.isfinite(mx):
                ctx.close(a, b, f"{tag}.{k}", rel=1e-9, abs_=1e-9 * mx * max(1, n_values or 1))
        elif k == "precision":
            _precision(ctx, a, b, tag)
        elif k == "times":
            pass
        elif k in ("categorical_count",):
            ctx.check(dict(a) == dict(b), f"{tag}.{k}", lambda: f"got {a!r} want {b!r}")
        else:
            d = deep_diff(a, b, 1e-9, 1e-12)
            ctx.check(not d, f"{tag}.{k}", lambda: f"{d[:3]}")
    if "null_replication_metrics" in w or "null_replication_metrics" in g:
        d = deep_diff(g.get("null_replication_metrics"), w.get("null_replication_metrics"), 1e-6, 1e-6)
        ctx.check(not d, tag + ".null_replication_metrics", lambda: f"{d[:3]}")


NUMERIC = ("min", "max", "sum", "mean", "variance", "stddev", "skewness", "kurtosis", "histogram", "quantiles", "median", "mode",
           "median_abs_deviation", "num_zeros", "num_negatives", "precision")


def nonfinite(values):
    """cells such as "nan " or "-inf" are numbers without a finite value: no statistic of theirs is claimed"""
    for v in values:
        try:
            if not math.isfinite(float(v)):
                return True
        except (ValueError, TypeError, OverflowError):
            pass
    return False


def _num(x):
    return isinstance(x, (int, float, np.number)) and not isinstance(x, bool)


def _precision(ctx, a, b, tag):
    if b is None or a is None:
        ctx.check(a is None and b is None, tag + ".precision", lambda: f"{a} vs {b}")
        return
    for k in b:
        if k in ("mean", "var", "std", "margin_of_error") and _num(b[k]) and b.get("max"):
            p = max(1, int(b["max"]))
            ctx.close(a[k], b[k], f"{tag}.precision.{k}", rel=1.01 * 10 ** (1 - p) + 1e-9)
        else:
            ctx.check(isclose(a[k], b[k], 1e-9), f"{tag}.precision.{k}", lambda: f"got {a[k]!r} want {b[k]!r}")


def _hist(ctx, a, b, tag, gs):
    if b is None or a is None:
        ctx.check(a is None and b is None, tag + ".histogram", lambda: f"{a} vs {b}")
        return
    if b["bin_counts"] is None or a["bin_counts"] is None:
        ctx.check(a["bin_counts"] is None and b["bin_counts"] is None, tag + ".histogram", lambda: f"{a} vs {b}")
        return
    ctx.check(set(a) == set(b), tag + ".histogram.keys", lambda: f"{sorted(a)} want {sorted(b)}")
    sa, sb = float(np.sum(a["bin_counts"])), float(np.sum(b["bin_counts"]))
    ctx.check(isclose(sa, sb, 1e-6, 1e-6), tag + ".histogram.total", lambda: f"bins hold {sa} want {sb}")
    ea, eb = a["bin_edges"], b["bin_edges"]
    sc = max(abs(float(eb[0])), abs(float(eb[-1])))
    if math.isfinite(sc):
        ctx.check(isclose(ea[0], eb[0], 1e-9, 1e-9 * sc) and isclose(ea[-1], eb[-1], 1e-9, 1e-9 * sc), tag + ".histogram.range",
                  lambda: f"[{ea[0]},{ea[-1]}] want [{eb[0]},{eb[-1]}]")
        ctx.check(bool(np.all(np.diff(np.asarray(ea, float)) >= -1e-9 * sc)), tag + ".histogram.monotone", lambda: f"{ea}")


GLOBAL = ["samples_used", "column_count", "row_count", "row_has_null_ratio", "row_is_null_ratio", "unique_row_ratio",
          "duplicate_row_count", "profile_schema"]


def glob(ctx, g, w, tag, keys=GLOBAL, chi2=True, corr=True):
    gg, ww = g["global_stats"], w["global_stats"]
    for k in keys:
        d = deep_diff(gg[k], ww[k], 1e-9, 1e-12)
        ctx.check(not d, f"{tag}.{k}", lambda: f"{d[:3]}")
    if chi2:
        d = deep_diff(gg["chi2_matrix"], ww["chi2_matrix"], 1e-7, 1e-9)
        ctx.check(not d, f"{tag}.chi2_matrix", lambda: f"{d[:3]}")
    if corr:
        d = deep_diff(gg["correlation_matrix"], ww["correlation_matrix"], 1e-5, 1e-6)
        ctx.check(not d, f"{tag}.correlation_matrix", lambda: f"{d[:3]}")
