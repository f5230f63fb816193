"""Type inference and type-specific facts (precision, datetime range/format, vocabulary)."""
import pandas as pd

from .. import colcheck, gen, ref, util

PROP = "P03"
RULE = ("columns over int/float/int-as-float/date formats/text/mixed families with nulls; one batch or several; non-trivial = "
        "at least one non-null value; distinct by (inferred type, ratios, formats, n bucket)")
CASES = {"quick": 900, "thorough": 12000}
REQUIRED = ["chk.type.data_type", "chk.type.date", "chk.prec.mean", "chk.date.min", "chk.vocab.value", "rare_format"]


def _check(ctx, p, cols, multi=False):
    full = util.rep(p)
    for i, cells in enumerate(cols):
        rc = full["data_stats"][i]
        f = colcheck.facts(cells)
        if multi and f["values"]:
            # date ratio is decided per batch; only exact for pure columns
            pass
        t = colcheck.dtype(ctx, rc, f)
        if t is None:
            continue
        colcheck.precision(ctx, rc, f)
        colcheck.dates(ctx, rc, f)
        colcheck.vocab(ctx, rc, f)
        rep = rc["statistics"]["data_type_representation"]
        ctx.seen(t, tuple(round(x, 3) for x in rep.values()), min(len(cells), 20))


def mixed(ctx):
    r = ctx.rng
    n = r.choice([1, 2, 5, 12, 40, 50])
    cols, ks = [], []
    for _ in range(3):
        k, c = gen.column(r, n)
        cols.append(c)
        ks.append(k)
    df = pd.DataFrame({f"c{i}": c for i, c in enumerate(cols)}, dtype=object)
    ctx.note(kinds=ks, head=[c[:4] for c in cols])
    _check(ctx, util.profile(df), cols)


def spoiler(ctx):
    """one deviating value anywhere in an otherwise pure column"""
    r = ctx.rng
    n = r.choice([3, 10, 50, 120])
    base = r.choice(["int", "float", "date"])
    _, c = gen.column(r, n, base, null_rate=r.choice([0, .2]))
    sp = {"int": ["1.5", "x", "1e400", "0x1F", "1,000", "12a", "2020-01-02"], "float": ["abc", "1.2.3", "--1", "1,5", "inf", "1e5", "3"],
          "date": ["13", "2020-13-45", "hello", "2020-02-30", "1.5"]}[base]
    pos = r.choice([0, n - 1, r.randrange(n)])
    c[pos] = r.choice(sp)
    ctx.note(base=base, spoiler=c[pos], pos=pos, n=n)
    df = pd.DataFrame({"c": c}, dtype=object)
    _check(ctx, util.profile(df), [c])


def dates(ctx):
    r = ctx.rng
    n = r.choice([1, 2, 6, 30, 80])
    fm = r.sample(gen.DATE_FORMATS + ["%m%d%Y"], r.choice([1, 1, 2, 4]))
    cols = [gen.dates(r, n, fm) for _ in range(2)]
    if r.random() < .3:
        # day suffixes
        sfx = {1: "st", 2: "nd", 3: "rd", 21: "st", 22: "nd", 23: "rd", 31: "st"}
        out = []
        for _ in range(n):
            d = gen.rand_dt(r)
            d = d.replace(month=r.choice([1, 2, 3, 9, 10]), day=min(d.day, 28))
            out.append(f"{d.strftime('%B')} {d.day}{sfx.get(d.day, 'th')}, {d.year}")
        cols[1] = out
    nr = r.choice([0, .3])
    cols = [[r.choice(gen.NULLS) if r.random() < nr else x for x in c] for c in cols]
    if "%m%d%Y" in fm and len(fm) == 1:
        pass
    df = pd.DataFrame({f"c{i}": c for i, c in enumerate(cols)}, dtype=object)
    ctx.note(formats=fm, head=[c[:3] for c in cols])
    _check(ctx, util.profile(df), cols)


def rare(ctx):
    """one value in another format among many dates, usually the earliest or latest one"""
    r = ctx.rng
    n = r.choice([101, 120, 250, 600])
    fa, fb = r.sample([f for f in gen.DATE_FORMATS if "%Y" in f], 2)
    c = []
    for _ in range(n):
        c.append(gen.rand_dt(r).replace(year=r.randint(1990, 2010), day=r.randint(1, 28)).strftime(fa))
    k = r.choice([1, 1, 2])
    for _ in range(k):
        y = r.choice([1975, 2026, r.randint(1990, 2010)])
        c[r.randrange(n)] = gen.rand_dt(r).replace(year=y, day=r.randint(1, 28)).strftime(fb)
    ctx.note(formats=[fa, fb], n=n, k=k)
    df = pd.DataFrame({"c": c}, dtype=object)
    parts = gen.split_points(r, n, r.choice([1, 1, 2]))
    p = None
    for a, b in parts:
        p = util.profile(df.iloc[a:b]) if p is None else (p.update_profile(df.iloc[a:b]) or p)
    ctx.count("rare_format")
    _check(ctx, p, [c])


def floats(ctx):
    """precision over all literal styles"""
    r = ctx.rng
    n = r.choice([1, 2, 5, 30, 100])
    cols = []
    for _ in range(2):
        st = r.choice([None, 0, 1, 2, 4, 5, 6])
        c = [gen.fmt_float(r, v, st) for v in gen.floats(r, n)]
        if not any(not ref.is_int(x) for x in c):
            c[0] = "0.25"
        cols.append(c)
    df = pd.DataFrame({f"c{i}": c for i, c in enumerate(cols)}, dtype=object)
    ctx.note(head=[c[:6] for c in cols])
    parts = gen.split_points(r, n, r.choice([1, 1, 2, 3]))
    p = None
    for a, b in parts:
        p = util.profile(df.iloc[a:b]) if p is None else (p.update_profile(df.iloc[a:b]) or p)
    _check(ctx, p, cols)


def batched(ctx):
    """pure columns, any batching"""
    r = ctx.rng
    n = r.choice([4, 12, 60])
    cols, ks = [], []
    for _ in range(3):
        k, c = gen.column(r, n, r.choice(["int", "float", "date", "text", "cat", "longtext", "uniq"]))
        cols.append(c)
        ks.append(k)
    df = pd.DataFrame({f"c{i}": c for i, c in enumerate(cols)}, dtype=object)
    parts = gen.split_points(r, n, r.randint(2, 4))
    ctx.note(kinds=ks, parts=parts, head=[c[:4] for c in cols])
    p = None
    for a, b in parts:
        p = util.profile(df.iloc[a:b]) if p is None else (p.update_profile(df.iloc[a:b]) or p)
    ctx.count("batched")
    _check(ctx, p, cols, True)


SCENARIOS = [("mixed", 3, mixed), ("spoiler", 3, spoiler), ("dates", 3, dates), ("rare", 1, rare), ("floats", 3, floats), ("batched", 2, batched)]
