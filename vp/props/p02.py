"""Numeric statistics equal the exact statistics of the numbers in the column."""
import math

import numpy as np
import pandas as pd

from .. import colcheck, gen, ref, util

PROP = "P02"
RULE = ("columns of integers / decimals / text lengths over 22 value families (constant, signed, zero-crossing, offset, "
        "skewed, tiny, huge, sequences) with nulls, 1..5 update batches; non-trivial = >=2 distinct numbers; distinct by "
        "(type, n bucket, batches, family, sign pattern)")
CASES = {"quick": 900, "thorough": 14000}
REQUIRED = ["chk.num.variance", "chk.num.skewness", "chk.num.kurtosis", "chk.num.min", "chk.num.num_zeros"]


def _run(ctx, cells_cols, kinds, parts, index=None):
    df = pd.DataFrame({f"c{i}": c for i, c in enumerate(cells_cols)}, dtype=object)
    if index is not None:
        df.index = index
    p = None
    for a, b in parts:
        ch = df.iloc[a:b]
        if p is None:
            p = util.profile(ch)
        else:
            p.update_profile(ch)
    full = util.rep(p)
    for i, cells in enumerate(cells_cols):
        rc = full["data_stats"][i]
        f = colcheck.facts(cells)
        colcheck.numeric(ctx, rc, f, sfx=f"{rc['data_type']} {kinds[i]} n={len(f['values'])} parts={parts}",
                         loose=1.0 if len(parts) == 1 else 50.0)
        xs = colcheck.numbers(rc, f)
        if xs and len(set(xs)) > 1:
            ctx.seen(rc["data_type"], kinds[i], len(parts), min(len(xs), 12), min(xs) < 0, 0.0 in xs)
            ctx.count("columns")


def single(ctx):
    r = ctx.rng
    n = r.choice([1, 2, 3, 4, 5, 8, 20, 60, 200])
    cols, ks = [], []
    for _ in range(3):
        k = r.choice(["int", "float", "intfloat", "text", "longtext", "intcat", "cat", "uniq"])
        _, c = gen.column(r, n, k)
        cols.append(c)
        ks.append(k)
    ctx.note(kinds=ks, n=n, head=[c[:5] for c in cols])
    ix, _ = gen.index_for(r, n)
    _run(ctx, cols, ks, [(0, n)], ix)


def families(ctx):
    """one numeric family per column, formatted plainly, no type noise"""
    r = ctx.rng
    n = r.choice([2, 3, 4, 6, 15, 50, 300])
    cols, ks = [], []
    for _ in range(3):
        if r.random() < .5:
            fam = r.choice(["small", "neg", "wide", "huge", "const", "zero", "seq", "desc", "binary", "skew", "clustered", "offset"])
            c = [str(v) for v in gen.ints(r, n, fam)]
        else:
            fam = r.choice(["unit", "gauss", "wide", "tiny", "const", "halves", "money", "skew", "offset", "neg"])
            c = [repr(v) for v in gen.floats(r, n, fam)]
        nr = r.choice([0, .1, .4])
        c = [r.choice(gen.NULLS) if r.random() < nr else x for x in c]
        cols.append(c)
        ks.append(fam)
    ctx.note(fam=ks, n=n, head=[c[:5] for c in cols])
    _run(ctx, cols, ks, [(0, n)])


def batched(ctx):
    """the same exact statistics after any sequence of updates"""
    r = ctx.rng
    n = r.choice([3, 6, 20, 80])
    cols, ks = [], []
    for _ in range(3):
        k = r.choice(["int", "float", "intfloat", "text", "intcat"])
        _, c = gen.column(r, n, k)
        if r.random() < .4:
            # drift: later batches come from another regime (incl. extrema equal to 0)
            m = n // 2
            if k in ("int", "intcat"):
                c[m:] = [str(v) for v in gen.ints(r, n - m)]
            elif k == "float":
                c[m:] = [repr(v) for v in gen.floats(r, n - m)]
        cols.append(c)
        ks.append(k)
    parts = gen.split_points(r, n, r.randint(2, 5))
    ctx.note(kinds=ks, n=n, parts=parts, head=[c[:5] for c in cols])
    ctx.count("batched")
    _run(ctx, cols, ks, parts)


def zero_extrema(ctx):
    """columns whose running minimum or maximum is exactly 0 across batches"""
    r = ctx.rng
    sgn = r.choice([1, -1])
    n1, n2 = r.randint(1, 8), r.randint(1, 8)
    a = [0] + [sgn * r.randint(0, 9) for _ in range(n1)]
    b = [sgn * r.randint(1, 9) for _ in range(n2)]
    third = [sgn * r.randint(1, 9) for _ in range(2)]
    order = [a, b, third]
    r.shuffle(order)
    flt = r.random() < .5
    cells = [(f"{v}.5" if flt and v and r.random() < .5 else str(v)) for ch in order for v in ch]
    bounds, s = [], 0
    for ch in order:
        bounds.append((s, s + len(ch)))
        s += len(ch)
    ctx.note(cells=cells, parts=bounds)
    _run(ctx, [cells], ["zeroext"], bounds)


SCENARIOS = [("single", 4, single), ("families", 4, families), ("batched", 4, batched), ("zero_extrema", 1, zero_extrema)]
