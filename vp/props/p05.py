"""Histogram, quantiles, median, mode and median absolute deviation are consistent with the data."""
import math

import numpy as np
import pandas as pd

from .. import colcheck, gen, ref, util

PROP = "P05"
RULE = ("numeric columns over 22 families, bin options, 1-3 batches; non-trivial = >= 2 distinct numbers; distinct by "
        "(type, family, n, bins requested, batches)")
CASES = {"quick": 800, "thorough": 12000}
REQUIRED = ["chk.hist.conservation", "chk.hist.range", "chk.quant.value", "chk.quant.median", "chk.quant.mad", "chk.quant.mode"]


def _judge(ctx, rc, f, nq=4, batches=1, tag="", nbins=1000):
    st = rc["statistics"]
    out = colcheck.histogram(ctx, rc, f)
    if out is None:
        return
    xs, bc, be = out
    lo, hi = min(xs), max(xs)
    span = hi - lo
    eps = 1e-9 * max(abs(lo), abs(hi)) + 1e-300
    w = span / nbins * 1.01 + eps
    if batches > 1:
        w = span * 0.02 + eps
    qv = colcheck.quantiles(ctx, rc, f, num_q=nq, err=w)
    s = sorted(xs)
    n = len(s)
    a, b = s[(n - 1) // 2], s[n // 2]
    med = st["median"]
    ctx.check(a - w <= med <= b + w, "quant.median", lambda: f"median {med} exact [{a},{b}] w={w}")
    if nq % 2 == 0:
        ctx.close(med, qv[nq // 2 - 1], "quant.median_is_q50", rel=1e-6, abs_=w * 1e-6 + eps)
    if batches == 1:
        # each cell of the reported histogram holds exactly the values inside it
        got = bc
        tol = w  # the reported histogram re-bins the stored one
        for j in range(len(bc)):
            last = j == len(bc) - 1
            inner = sum(1 for x in xs if be[j] + tol < x < be[j + 1] - tol)
            outer = sum(1 for x in xs if be[j] - tol <= x <= be[j + 1] + tol)
            if not (inner - 1e-6 <= bc[j] <= outer + 1e-6):
                ctx.check(False, "hist.cell", f"bin {j} [{be[j]},{be[j+1]}] holds {bc[j]} exact {inner}..{outer}")
                break
        else:
            ctx.check(True, "hist.cell")
        # mode: every reported mode is within one stored bin of a value whose bin is maximal
        mode = st["mode"]
        ctx.check(len(mode) >= 1 and all(lo - w <= m <= hi + w for m in mode), "quant.mode_range", lambda: f"{mode}")
        wid = span / nbins if span else 0
        cnt = lambda c, h: sum(1 for x in xs if abs(x - c) <= h)
        if span and wid > 1e-12 * max(abs(lo), abs(hi)):
            best = max(cnt(x, wid * 0.0) for x in set(xs))  # a single value's multiplicity is a lower bound for the top bin
            for m in mode[:5]:
                c = cnt(m, wid * 1.01 + eps)
                if not ctx.check(c >= best, "quant.mode", lambda: f"mode {m} holds {c} < {best}; n={n}"):
                    break
        # median absolute deviation
        dev = sorted(abs(x - (a + b) / 2) for x in xs)
        # tolerance: median within w and each deviation within 2w
        da, db = dev[(n - 1) // 2], dev[n // 2]
        slack = 3 * w + (b - a)
        mad = st["median_abs_deviation"]
        ctx.check(da - slack <= mad <= db + slack, "quant.mad", lambda: f"mad {mad} exact [{da},{db}] slack {slack} n={n}")
    if len(set(xs)) > 1:
        ctx.seen(tag, rc["data_type"], n, batches, len(bc))


def _vals(r, n):
    k = r.choice(["int", "float", "text"])
    if k == "int":
        fam = r.choice(["small", "neg", "wide", "huge", "const", "zero", "seq", "desc", "binary", "skew", "clustered", "offset"])
        return fam, [str(v) for v in gen.ints(r, n, fam)]
    if k == "float":
        fam = r.choice(["unit", "gauss", "wide", "tiny", "const", "halves", "money", "skew", "offset", "neg"])
        return "f" + fam, [repr(v) for v in gen.floats(r, n, fam)]
    return "text", [gen.text_cell(r) for _ in range(n)]


def single(ctx):
    r = ctx.rng
    n = r.choice([1, 2, 3, 5, 9, 25, 80, 300])
    fams, cols = zip(*[_vals(r, n) for _ in range(2)])
    nr = r.choice([0, .2])
    cols = [[r.choice(gen.NULLS) if r.random() < nr else x for x in c] for c in cols]
    df = pd.DataFrame({f"c{i}": c for i, c in enumerate(cols)}, dtype=object)
    nq = r.choice([4, 4, 2, 3, 10, 100])
    ctx.note(fams=fams, n=n, nq=nq, head=[c[:5] for c in cols])
    p = util.profile(df)
    full = util.strip_volatile(p.report({"output_format": None, "num_quantile_groups": nq}))
    for i, c in enumerate(cols):
        _judge(ctx, full["data_stats"][i], colcheck.facts(c), nq, 1, fams[i])


def bins(ctx):
    """user-chosen bin counts / methods"""
    r = ctx.rng
    n = r.choice([5, 30, 120])
    fam, c = _vals(r, n)
    if r.random() < .5:
        extra = {"structured_options.*.histogram_and_quantiles.bin_count_or_method": r.randint(1, 40)}
        bm = list(extra.values())[0]
    else:
        bm = r.choice(["auto", "fd", "doane", "scott", "rice", "sturges", "sqrt", ["fd", "sqrt"]])
        extra = {"structured_options.*.histogram_and_quantiles.bin_count_or_method": bm}
    df = pd.DataFrame({"c": c}, dtype=object)
    ctx.note(fam=fam, n=n, bins=bm)
    p = util.profile(df, extra)
    rc = util.rep(p)["data_stats"][0]
    f = colcheck.facts(c)
    _judge(ctx, rc, f, 4, 1, str(bm), bm if isinstance(bm, int) else 1000)
    xs = colcheck.numbers(rc, f)
    if isinstance(bm, int) and xs and len(set(xs)) > 1 and all(map(math.isfinite, xs)):
        ctx.eq(len(rc["statistics"]["histogram"]["bin_counts"]), bm, "hist.bins")


def batched(ctx):
    r = ctx.rng
    n = r.choice([4, 20, 100, 300])
    fam, c = _vals(r, n)
    parts = gen.split_points(r, n, r.randint(2, 3))
    df = pd.DataFrame({"c": c}, dtype=object)
    p = None
    for a, b in parts:
        p = util.profile(df.iloc[a:b]) if p is None else (p.update_profile(df.iloc[a:b]) or p)
    ctx.note(fam=fam, n=n, parts=parts)
    ctx.count("batched")
    _judge(ctx, util.rep(p)["data_stats"][0], colcheck.facts(c), 4, len(parts), fam)


SCENARIOS = [("single", 5, single), ("bins", 2, bins), ("batched", 2, batched)]
