"""Plots show what the profile reports: histograms bar by bar, missing values row by row."""
import warnings

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.colors import to_rgba
from matplotlib.patches import Rectangle

import dataprofiler as dp

from .. import core, gen, util

PROP = "P29"
RULE = ("generated tables (several kinds of column, duplicate names, nulls of several spellings in runs, gaps and singletons) profiled in one or two batches or merged, then plotted "
        "whole, by name, by index, on own or given axes; drawn rectangles read back and compared with the report's bins and null rows; non-trivial = gaps between null rows or "
        ">= 2 histograms; distinct by (columns, null pattern, request)")
CASES = {"quick": 280, "thorough": 3000}
REQUIRED = ["chk.plot.missing_rows", "chk.plot.background", "chk.plot.legend", "chk.plot.ticks", "chk.plot.bars", "chk.plot.edges", "chk.plot.titles", "chk.plot.order",
            "chk.plot.none", "chk.plot.reject", "chk.plot.axes"]

NULLS = ["", "nan", "None", "-", "NaN", "null"]


def null_pattern(r, n):
    """Rows that are null: singletons, runs and gaps."""
    rows, i = [], r.randint(0, 3)
    while i < n:
        k = r.choice([1, 1, 1, 2, 3, 6])
        rows += list(range(i, min(n, i + k)))
        i += k + r.choice([1, 2, 3, 5, 9])
    return rows


def build(r, n, ncols):
    import pandas as pd
    cols, kinds = [], []
    for _ in range(ncols):
        kind = r.choice(["int", "int", "float", "float", "word", "cat"])
        if kind == "int":
            c = [str(v) for v in gen.ints(r, n)]
        elif kind == "float":
            c = [repr(float(v)) for v in gen.floats(r, n)]
        elif kind == "cat":
            c = [r.choice(["red", "green"]) for _ in range(n)]
        else:
            c = [gen.word(r) + "q" for _ in range(n)]
        if r.random() < .7:
            own = r.sample(NULLS, r.randint(1, 3))
            for i in null_pattern(r, n):
                c[i] = r.choice(own)
        if r.random() < .05:
            c = [r.choice(NULLS[:2])] * n
        cols.append(c)
        kinds.append(kind)
    names = r.sample(["alpha", "Beta", "c c", "d", "e1", "F", "gg"], ncols)
    if ncols > 1 and r.random() < .2:
        names[1] = names[0]
    df = pd.DataFrame({i: c for i, c in enumerate(cols)}, dtype=object)
    df.columns = names
    return df, kinds


def make(ctx):
    r = ctx.rng
    n, k = r.choice([5, 8, 13, 30, 60]), r.randint(1, 6)
    df, kinds = build(r, n, k)
    how = r.choice(["one", "one", "batch", "merge"])
    if how != "one" and len(set(df.columns)) != k:
        how = "one"
    p0 = {"correlation.is_enabled": False}
    if how == "one":
        p = util.profile(df, p0)
    else:
        c = r.randint(2, n - 2)
        a, b = df.iloc[:c].reset_index(drop=True), df.iloc[c:].reset_index(drop=True)
        if r.random() < .5:
            a, b = df.iloc[:c], df.iloc[c:]
        if how == "batch":
            p = util.profile(a, p0)
            p.update_profile(b)
        else:
            p = util.profile(a, p0) + util.profile(b, p0)
    ctx.note(rows=n, cols=list(df.columns), how=how)
    return r, df, p, how


def rows_of(patch):
    lo, h = patch.get_y(), patch.get_height()
    return lo, lo + h


def missing(ctx):
    r, df, p, how = make(ctx)
    n = len(df)
    given = r.random() < .4
    title = r.choice([None, "Some Title"])
    subset = r.random() < .3
    plt.close("all")
    ax = plt.figure().add_subplot(111) if given else None
    if subset:
        idx = r.sample(range(len(p.profile)), r.randint(1, len(p.profile)))
        fig = dp.graphs.plot_col_missing_values([p.profile[i] for i in idx], ax=ax, title=title)
    else:
        idx = list(range(len(p.profile)))
        fig = dp.graphs.plot_missing_values_matrix(p, ax=ax, title=title)
    try:
        if given:
            ctx.check(fig is ax.figure and len(fig.axes) == 1, "plot.axes", "the given axes were not the ones drawn on")
        a = fig.axes[0]
        rects = [q for q in a.patches if isinstance(q, Rectangle)]
        report = p.report({"output_format": "serializable"})
        names = []
        legend, gaps = set(), False
        colours = {}
        for pos, i in enumerate(idx):
            col = report["data_stats"][i]
            want = {str(k): sorted(int(x) for x in v) for k, v in col["statistics"]["null_types_index"].items()}
            names.append('"' + str(col["column_name"]) + '"')
            mine = [q for q in rects if pos < q.get_x() + q.get_width() / 2 < pos + 1]
            back = [q for q in mine if not str(q.get_label()).startswith('"')]
            ctx.check(len(back) == 1, "plot.background", f"{len(back)} background bars for column {pos}")
            lo, hi = rows_of(back[0])
            ctx.check(abs(lo + .5) < 1e-9 and abs(hi - (n - .5)) < 1e-9, "plot.background", f"background covers {lo}..{hi} for {n} rows")
            got = {}
            for q in mine:
                if q is back[0]:
                    continue
                lo, hi = rows_of(q)
                ctx.check(hi > lo, "plot.missing_rows", f"null bar with negative height {lo}..{hi}")
                name = q.get_label()[1:-1]
                got.setdefault(name, []).extend(range(int(round(lo + .5)), int(round(hi + .5))))
                colours.setdefault(name, set()).add(q.get_facecolor())
            ctx.eq({k: sorted(v) for k, v in got.items()}, want, "plot.missing_rows", f"null rows drawn for column {names[-1]}")
            legend |= set(want)
            for v in want.values():
                gaps |= any(b - a > 1 for a, b in zip(v, v[1:]))
        for k, cs in colours.items():
            ctx.check(len(cs) == 1 and to_rgba("blue") not in cs, "plot.colour", f"null {k!r} drawn in {cs}")
        ctx.check(len({next(iter(c)) for c in colours.values()}) == len(colours) or len(colours) > 9, "plot.colour", "two null spellings share a colour")
        leg = a.get_legend()
        ctx.eq(sorted(t.get_text() for t in leg.get_texts()), sorted(f'"{k}"' for k in legend), "plot.legend", "legend entries")
        ctx.eq([t.get_text() for t in a.get_xticklabels()], names, "plot.ticks", "column labels")
        ctx.eq(a.get_title(), title or "", "plot.title", "title")
        lo, hi = sorted(a.get_ylim())
        ctx.check(lo <= -.5 + 1e-9 and hi >= n - .5 - 1e-9, "plot.view", f"rows outside the view {lo}..{hi}")
    finally:
        plt.close("all")
    if gaps:
        ctx.count("nontrivial")
    ctx.seen("missing", how, given, subset, tuple(sorted(legend)), tuple(len(x["statistics"]["null_types_index"]) for x in report["data_stats"]))


def bars_of(a):
    return [q for q in a.patches if isinstance(q, Rectangle)]


def check_bars(ctx, a, hist, name):
    counts, edges = [float(x) for x in hist["bin_counts"]], [float(x) for x in hist["bin_edges"]]
    rects = sorted(bars_of(a), key=lambda q: q.get_x())
    ctx.eq(len(rects), len(counts), "plot.bars", f"number of bars of {name}")
    for q, c, lo, hi in zip(rects, counts, edges, edges[1:]):
        ctx.check(core.isclose(q.get_height(), c, 1e-9), "plot.bars", f"bar at {lo} of {name} has height {q.get_height()}, bin count {c}")
        span = max(abs(edges[0]), abs(edges[-1]), 1e-300)
        ctx.check(abs(q.get_x() - lo) <= 1e-9 * span and abs(q.get_x() + q.get_width() - hi) <= 1e-9 * span, "plot.edges", f"bar {q.get_x()}+{q.get_width()} for bin {lo}..{hi}")


def histograms(ctx):
    r, df, p, how = make(ctx)
    rep = p.report({"output_format": "serializable", "num_quantile_groups": 4})["data_stats"]
    names = [x["column_name"] for x in rep]
    numeric = [i for i, x in enumerate(rep) if x["data_type"] in ("int", "float")]
    for i in numeric:
        e = rep[i]["statistics"]["histogram"]["bin_edges"]
        if e is None:
            raise core.Skip("a numeric column without a histogram")
        e = np.asarray(e, float)
        if len(e) > 60:
            raise core.Skip("too many bins to draw quickly")
        if not (np.isfinite(e).all() and (np.diff(e) > 0).all() and np.abs(e).max() < 1e150 and (np.diff(e) > 1e-12 * np.abs(e).max()).all() and np.ptp(e) > 1e-150):
            raise core.Skip("bins too fine to draw")
    req = r.choice(["all", "all", "names", "inds"])
    kw, idx = {}, list(range(len(rep)))
    if req == "names":
        pick = r.sample(sorted(set(names)), r.randint(1, len(set(names))))
        kw["column_names"] = [r.choice([x, x.upper(), x.lower()]) for x in pick]
        idx = [i for i, x in enumerate(names) if x in pick]
    elif req == "inds":
        pick = r.sample(range(len(rep)), r.randint(1, len(rep)))
        kw["column_inds"] = list(pick)
        idx = sorted(pick)
    want = [i for i in idx if i in numeric]
    plt.close("all")
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        fig = dp.graphs.plot_histograms(p, **kw)
    try:
        if not want:
            ctx.check(fig is None and any("No plots" in str(w.message) for w in ws), "plot.none", "no numeric column asked for, yet something was drawn or nothing said")
            ctx.seen("none", req)
            return
        shown = [a for a in fig.axes if bars_of(a)]
        ctx.eq(len(shown), len(want), "plot.titles", "number of histograms")
        ctx.eq(sorted(a.get_title() for a in shown), sorted(str(names[i]) for i in want), "plot.titles", "titles of the histograms")
        ctx.eq([a.get_title() for a in shown], [str(names[i]) for i in want], "plot.order", f"order of the histograms for {kw or 'all columns'}")
        for a in fig.axes:
            if a not in shown:
                ctx.check(not a.axison, "plot.unused", "an unused panel is left on")
        for a, i in zip(shown, want):
            check_bars(ctx, a, rep[i]["statistics"]["histogram"], names[i])
        if kw.get("column_inds"):
            ctx.eq(kw["column_inds"], pick, "plot.args", "the caller's list was changed")
    finally:
        plt.close("all")
    if len(want) >= 2:
        ctx.count("nontrivial")
    ctx.seen("hist", how, req, tuple(idx), tuple(numeric))


def single(ctx):
    r, df, p, how = make(ctx)
    rep = p.report({"output_format": "serializable"})["data_stats"]
    num = [i for i, x in enumerate(rep) if x["data_type"] in ("int", "float")]
    if r.random() < .5 or not num:
        bad = r.choice(["both", "unknown", "types", "types2", "notlist", "notprofile", "notcols", "nocols"])
        if bad == "both":
            ctx.raises(lambda: dp.graphs.plot_histograms(p, column_names=[str(df.columns[0])], column_inds=[0]), ValueError, "plot.reject")
        elif bad == "unknown":
            ctx.raises(lambda: dp.graphs.plot_histograms(p, column_names=["no such column"]), ValueError, "plot.reject")
        elif bad == "types":
            ctx.raises(lambda: dp.graphs.plot_histograms(p, column_names="alpha"), ValueError, "plot.reject")
        elif bad == "types2":
            ctx.raises(lambda: dp.graphs.plot_histograms(p, column_inds=["a"]), ValueError, "plot.reject")
        elif bad == "notlist":
            ctx.raises(lambda: dp.graphs.plot_histograms(p, column_inds=3), ValueError, "plot.reject")
        elif bad == "notprofile":
            ctx.raises(lambda: dp.graphs.plot_missing_values_matrix(r.choice([df, None, [p]])), ValueError, "plot.reject")
        elif bad == "notcols":
            ctx.raises(lambda: dp.graphs.plot_col_missing_values(r.choice([p, [p], ["x"], None])), ValueError, "plot.reject")
        else:
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                fig = dp.graphs.plot_col_missing_values([])
            ctx.check(fig is None and ws, "plot.none", "nothing to plot, yet no warning")
        plt.close("all")
        ctx.seen("reject", bad)
        return
    i = r.choice(num)
    h = rep[i]["statistics"]["histogram"]
    e = np.asarray(h["bin_edges"], float) if h["bin_edges"] is not None else np.array([np.inf])
    if len(e) > 200 or not (np.isfinite(e).all() and (np.diff(e) > 1e-12 * np.abs(e).max()).all() and np.abs(e).max() < 1e150 and np.ptp(e) > 1e-150):
        raise core.Skip("bins too fine to draw")
    t = rep[i]["data_type"]
    colp = p.profile[i].profiles["data_type_profile"]._profiles[t]
    plt.close("all")
    given, title = r.random() < .5, r.choice([None, "T", ""])
    ax = plt.figure().add_subplot(111) if given else None
    a = dp.graphs.plot_col_histogram(colp, ax=ax, title=title)
    try:
        ctx.check(not given or a is ax, "plot.axes", "given axes not used")
        ctx.eq(a.get_title(), str(rep[i]["column_name"]) if title is None else title, "plot.titles", "title")
        check_bars(ctx, a, h, rep[i]["column_name"])
    finally:
        plt.close("all")
    ctx.seen("single", t, given, title)


SCENARIOS = [("missing", 5, missing), ("histograms", 4, histograms), ("single", 2, single)]
