"""Categorical tally, uniqueness, impurity measures and ordering."""
import pandas as pd

from .. import colcheck, gen, ref, util

PROP = "P04"
RULE = ("columns with controlled cardinality (around the 10-value and 20%-ratio thresholds), ordering and null placement, every "
        "index shape, batches and top-k; non-trivial = >= 2 non-null values; distinct by (n, cardinality, order, index kind)")
CASES = {"quick": 1000, "thorough": 12000}
REQUIRED = ["chk.cat.counts", "chk.cat.is_categorical", "chk.order.value", "chk.order.parts", "chk.cat.topk_best", "chk.cat.gini"]


def _check(ctx, p, cols, order=True, top_k=None, tag=""):
    full = util.rep(p)
    for i, cells in enumerate(cols):
        rc = full["data_stats"][i]
        f = colcheck.facts(cells)
        colcheck.categorical(ctx, rc, f, top_k=top_k)
        if order:
            colcheck.order(ctx, rc, f)
        if len(f["values"]) > 1:
            ctx.seen(tag, len(f["values"]), len(f["counts"]), rc["order"], rc["categorical"])


def plain(ctx):
    r = ctx.rng
    df, ks, ik = gen.table(r, index=r.choice(["range", "range", "offset", "gappy", "str"]), ncols=3)
    ctx.note(kinds=ks, index=ik, head=df.head(4).values.tolist())
    _check(ctx, util.profile(df), [df.iloc[:, i].tolist() for i in range(3)], tag=ik)


def cardinality(ctx):
    """unique counts right at the classification thresholds"""
    r = ctx.rng
    n = r.choice([9, 10, 11, 12, 50, 54, 55, 56, 60, 100, 101])
    k = r.choice([9, 10, 11, 12, max(1, n // 5 - 1), n // 5, n // 5 + 1, n])
    k = max(1, min(k, n))
    base = [f"v{j}" for j in range(k)]
    c = base + [r.choice(base) for _ in range(n - k)]
    r.shuffle(c)
    nn = r.choice([0, 0, 7])
    c = c + [r.choice(gen.NULLS) for _ in range(nn)]
    r.shuffle(c)
    ctx.note(n=n, k=k)
    df = pd.DataFrame({"c": c}, dtype=object)
    _check(ctx, util.profile(df), [c], tag="card")


def orders(ctx):
    """columns that are (almost) ordered, in every index shape"""
    r = ctx.rng
    n = r.choice([2, 3, 4, 8, 20, 60, 130])
    base = sorted(r.choice([f"{r.randint(0, 10**6):07d}", r.choice(gen.WORDS), "m" + str(r.randint(0, 5))]) for _ in range(n))
    kind = r.choice(["asc", "desc", "const", "almost_asc", "almost_desc", "tail", "head"])
    c = list(base)
    if kind == "desc":
        c.reverse()
    elif kind == "const":
        c = [c[0]] * n
    elif kind.startswith("almost"):
        if kind == "almost_desc":
            c.reverse()
        j = r.randrange(n - 1)
        c[j], c[j + 1] = c[j + 1], c[j]
    elif kind == "tail":
        c[-1] = r.choice(["\x21", "zzzz"])
    elif kind == "head":
        c[0] = r.choice(["\x21", "zzzz"])
    if r.random() < .4:
        j = r.randrange(n)
        c.insert(j, r.choice(gen.NULLS))
    ix, ik = gen.index_for(r, len(c), r.choice(["range", "offset", "gappy", "str", "shuffled"]))
    ctx.note(kind=kind, index=ik, n=n, head=c[:6])
    df = pd.DataFrame({"c": c}, dtype=object)
    df.index = ix
    _check(ctx, util.profile(df), [c], tag=ik)


def topk(ctx):
    r = ctx.rng
    n = r.choice([5, 30, 60])
    c = gen.categorical(r, n, r.choice([3, 5, 9]))
    k = r.randint(1, 8)
    df = pd.DataFrame({"c": c}, dtype=object)
    ctx.note(k=k, n=n)
    p = util.profile(df, {"structured_options.category.top_k_categories": k})
    _check(ctx, p, [c], top_k=k, tag="topk")


def batched(ctx):
    """the tally is exact after any batching (order is only piecewise, hence not judged)"""
    r = ctx.rng
    n = r.choice([4, 12, 60])
    cols, ks = [], []
    for _ in range(3):
        k, c = gen.column(r, n, r.choice(["cat", "intcat", "uniq", "text", "int", "date"]))
        cols.append(c)
        ks.append(k)
    df = pd.DataFrame({f"c{i}": c for i, c in enumerate(cols)}, dtype=object)
    parts = gen.split_points(r, n, r.randint(2, 5))
    p = None
    for a, b in parts:
        p = util.profile(df.iloc[a:b]) if p is None else (p.update_profile(df.iloc[a:b]) or p)
    ctx.note(kinds=ks, parts=parts)
    ctx.count("batched")
    _check(ctx, p, cols, order=False, tag="batched")


def _span(vals):
    if all(ref.is_float(v) for v in vals):
        vals = [float(v) for v in vals]
    return min(vals), max(vals)


def two_parts(ctx):
    """two batches / two merged profiles: the order survives only when both parts agree on the direction (a constant part agrees
    with any) and their value ranges do not overlap; otherwise the column is random"""
    r = ctx.rng
    num = r.random() < .6
    pool = [str(i) for i in range(1, r.choice([4, 8, 30]))] if num else sorted(r.sample(gen.WORDS, r.choice([3, 6, 12])))
    key = (lambda x: float(x)) if num else (lambda x: x)

    def part():
        a = [r.choice(pool) for _ in range(r.choice([1, 2, 3, 4]))]
        how = r.choice(["asc", "asc", "desc", "desc", "const", "any"])
        if how == "const":
            a = [a[0]] * len(a)
        elif how != "any":
            a.sort(key=key, reverse=how == "desc")
        return a
    a, b = part(), part()
    if len(set(a)) > 1 and ref.order(a) != "random" and r.random() < .6:
        # the second part shares an end point with the first one, or lies next to / inside / around it
        desc = ref.order(a) == "descending"
        b = sorted(set([r.choice([a[0], a[-1]])] + [r.choice(pool) for _ in range(r.randint(0, 2))]), key=key, reverse=desc)
    if num and r.random() < .3:
        a, b = [x + ".5" for x in a], [x + ".5" for x in b]
    oa, ob = ref.order(a), ref.order(b)
    (l1, h1), (l2, h2) = _span(a), _span(b)
    meet = max(l1, l2) < min(h1, h2) or (l1 == h1 and l2 < l1 < h2) or (l2 == h2 and l1 < l2 < h1) or (l1, h1) == (l2, h2)
    c = "constant value"
    if "random" in (oa, ob) or {oa, ob} == {"ascending", "descending"}:
        want = "random"
    elif oa == ob == c:
        want = c
    elif meet:
        want = "random"
    else:
        want = ob if oa == c else oa
    merge = r.random() < .5
    ctx.note(a=a, b=b, merge=merge, want=want)
    p = util.profile(pd.DataFrame({"c": a}, dtype=object))
    d2 = pd.DataFrame({"c": b}, index=range(len(a), len(a) + len(b)), dtype=object)
    if merge:
        p = p + util.profile(d2)
    else:
        p.update_profile(d2)
    got = util.rep(p)["data_stats"][0]["order"]
    ctx.eq(got, want, "order.parts", f"{a} then {b} merge={merge}")
    ctx.seen("parts", oa, ob, want, meet, merge, num)
    if r.random() < .7:
        return
    # a third, random part makes everything random for good
    p.update_profile(pd.DataFrame({"c": [pool[0], pool[-1], pool[0], pool[-1]]}, index=range(100, 104), dtype=object))
    p.update_profile(pd.DataFrame({"c": [pool[-1]]}, index=[200], dtype=object))
    ctx.eq(util.rep(p)["data_stats"][0]["order"], "random", "order.random_stays")


SCENARIOS = [("plain", 3, plain), ("two_parts", 3, two_parts), ("cardinality", 3, cardinality), ("orders", 4, orders), ("topk", 1, topk), ("batched", 2, batched)]
