"""Bounded-memory category counting: sketch, top-k and stop condition over histories of batches, merges and save/load."""
from collections import Counter

import pandas as pd

import dataprofiler as dp

from .. import gen, util

PROP = "P26"
RULE = ("random histories (create, update with a batch, merge with another such profile, save and reload as pickle or JSON) over skewed, "
        "uniform, churning and null-ridden columns under random sketch sizes, heavy-hitter bounds, top-k values and stop thresholds; after "
        "every step the report is compared with exact counts kept by the monitor; non-trivial = at least two distinct values; distinct by "
        "(scenario, ops, distinct values, bound)")
CASES = {"quick": 420, "thorough": 6000}
REQUIRED = ["chk.cms.under", "chk.cms.over", "chk.cms.heavy", "chk.cms.light", "chk.cms.exact", "chk.topk.best", "chk.topk.counts",
            "chk.stop.frozen", "chk.stop.dropped", "chk.stop.open", "chk.cms.mismatch", "op.merge", "op.reload.pickle", "op.reload.json",
            "op.update"]
C = "structured_options.category."


def _values(r, n, shape, pool):
    if shape == "zipf":
        w = [1 / (i + 1) ** 1.3 for i in range(len(pool))]
        return r.choices(pool, w, k=n)
    if shape == "uniform":
        return [r.choice(pool) for _ in range(n)]
    if shape == "churn":  # later batches prefer other values
        k = max(1, len(pool) // 3)
        o = r.randrange(len(pool))
        return [pool[(o + r.randrange(k)) % len(pool)] for _ in range(n)]
    k = r.randint(1, max(1, len(pool) // 4))  # few heavy values and a tail seen once
    return [pool[r.randrange(k)] if r.random() < .6 else r.choice(pool) for _ in range(n)]


class _Hist:
    """A profile together with what it has been given."""

    def __init__(self, ctx, mk, extra):
        self.ctx, self.mk, self.extra = ctx, mk, extra
        self.batches = [mk()]
        self.p = self._new(self.batches[0])

    def _new(self, vals):
        return util.profile(pd.DataFrame({"x": vals}, dtype=object), self.extra)

    @property
    def counts(self):
        return Counter(v for b in self.batches for v in b if v)

    def update(self):
        b = self.mk()
        self.p.update_profile(pd.DataFrame({"x": b}, dtype=object))
        self.batches.append(b)
        self.ctx.count("op.update")
        return b

    def reload(self):
        m = self.ctx.rng.choice(["pickle", "json"])
        f = self.ctx.tmpdir() + "/p." + m
        self.p.save(f, save_method=m)
        self.p = dp.Profiler.load(f, load_method=m)
        self.ctx.count("op.reload." + m)

    def stats(self):
        d = self.p.report({"output_format": None})["data_stats"][0]
        return d["categorical"], d["statistics"]


def _mk(r, nulls=True):
    pool = [gen.word(r) + str(i) for i in range(r.choice([2, 3, 5, 12, 30, 80]))]
    if r.random() < .2:
        pool = [str(i) for i in range(len(pool))]
    shape = r.choice(["zipf", "uniform", "churn", "heavy"])
    nr = r.choice([0, 0, .2]) if nulls else 0
    sizes = r.choice([[3, 9, 20], [30, 60], [100, 7, 250]])

    def mk():
        return [v if r.random() >= nr else "" for v in _values(r, r.choice(sizes), shape, pool)]
    return mk, pool


def _walk(ctx, h, other, check, steps):
    r = ctx.rng
    ops = []
    check(h)
    for _ in range(steps):
        op = r.choice(["update", "update", "merge", "reload"])
        if op == "update":
            h.update()
        elif op == "reload":
            h.reload()
        else:
            o = other()
            for _ in range(r.randint(0, 2)):
                o.update()
            if r.random() < .3:
                o.reload()
            if r.random() < .5:
                h.p = h.p + o.p
            else:
                h.p = o.p + h.p
            h.batches += o.batches
            ctx.count("op.merge")
        ops.append(op[0])
        check(h)
    c = h.counts
    if len(c) > 1:
        ctx.seen(ctx.scenario, "".join(ops), len(c), str(sorted(h.extra.items()))[:90])


def _cms_extra(r):
    return {C + "cms": True, C + "cms_confidence": r.choice([.9, .95, .99]), C + "cms_relative_error": r.choice([.001, .01, .05]),
            C + "cms_max_num_heavy_hitters": r.choice([1, 2, 3, 5, 10, 40, 5000])}


def cms(ctx):
    r = ctx.rng
    mk, pool = _mk(r)
    e = _cms_extra(r)
    topk = r.choice([None, None, None, 1, 3])
    if topk:
        e[C + "top_k_categories"] = topk
    hh, err = e[C + "cms_max_num_heavy_hitters"], e[C + "cms_relative_error"]

    def check(h):
        c = h.counts
        n = sum(c.values())
        cat, s = h.stats()
        heavy = {v for v, k in c.items() if k * hh >= n}
        ctx.check(len(heavy) <= s["unique_count"] <= len(c), "cms.unique", lambda: f"{s['unique_count']} of {len(c)}, heavy {len(heavy)}")
        if not cat:
            ctx.check(s["unique_count"] > 10, "cms.category", lambda: str(s["unique_count"]))
            return
        got, shown = set(s["categories"]), s["categorical_count"]
        ctx.eq(s["unique_count"], len(got), "cms.unique_categories")
        ctx.check(got <= set(c), "cms.invented", lambda: str(got - set(c)))
        ctx.check(heavy <= got, "cms.heavy", lambda: f"not reported: { {v: c[v] for v in heavy - got} } of {n}, bound {hh}")
        ctx.check(set(shown) <= got and len(shown) == min(len(got), topk or len(got)), "cms.shown", lambda: f"{shown} of {got}")
        for v, k in shown.items():
            ctx.check(k >= c[v], "cms.under", lambda: f"{v!r}: {k} < true {c[v]}")
            ctx.check(k <= n, "cms.over", lambda: f"{v!r}: {k} > {n} values")
            ctx.check(k * hh >= n, "cms.light", lambda: f"{v!r}: {k} of {n}, bound {hh}")
            if err == .001 and len(pool) <= 30:  # collisions of all hashes practically impossible
                ctx.eq(k, c[v], "cms.exact", f"{v!r} in {shown}")
        ks = list(shown.values())
        ctx.eq(ks, sorted(ks, reverse=True), "cms.sorted")
        if err == .001 and len(pool) <= 30:
            ctx.eq(got, heavy, "cms.exact_set", f"of {n}, bound {hh}")
        elif len(shown) > 4:  # at most a few estimates exceed the promised error
            bad = [v for v, k in shown.items() if k > c[v] + err * n + 1]
            ctx.check(len(bad) <= .6 * len(shown), "cms.error", lambda: f"{len(bad)} of {len(shown)} exceed the relative error {err}")
    _walk(ctx, _Hist(ctx, mk, e), lambda: _Hist(ctx, mk, e), check, r.randint(1, 4))


def mismatch(ctx):
    """Profiles which count differently cannot be merged, and the attempt leaves both as they were."""
    r = ctx.rng
    mk, _ = _mk(r)
    e = _cms_extra(r)
    e[C + "cms_relative_error"] = .01
    f = dict(e)
    kind = r.choice(["full", "buckets", "hashes"])
    if kind == "full":
        f = {}
    elif kind == "buckets":
        f[C + "cms_relative_error"] = .2
    else:
        e[C + "cms_confidence"], f[C + "cms_confidence"] = .6, .9999
    a, b = _Hist(ctx, mk, e), _Hist(ctx, mk, f)
    if r.random() < .5:
        a, b = b, a
    before = [util.rep(a.p), util.rep(b.p)]
    try:
        a.p + b.p
        ctx.check(False, "cms.mismatch", f"merged {kind}")
    except Exception as ex:
        ctx.check(type(ex) in (ValueError, Exception) and ("ncompatible" in str(ex) or "sketch" in str(ex)), "cms.mismatch",
                  f"{kind}: {type(ex).__name__} {ex}")
    ctx.eq([util.rep(a.p), util.rep(b.p)], before, "cms.mismatch_state")
    ctx.seen(ctx.scenario, kind, len(a.counts), len(b.counts))


def topk(ctx):
    r = ctx.rng
    mk, pool = _mk(r)
    k = r.choice([1, 2, 3, 7, 50])

    def check(h):
        c = h.counts
        n = sum(c.values())
        cat, s = h.stats()
        ctx.eq(cat, len(c) <= 10 or len(c) / n <= .2, "topk.categorical")
        ctx.eq(s["unique_count"], len(c), "topk.unique")
        ctx.close(s["unique_ratio"], len(c) / n if n else 0, "topk.ratio")
        if not cat:
            ctx.check("categorical_count" not in s and "categories" not in s, "topk.not_categorical")
            return
        shown = s["categorical_count"]
        ctx.eq(sorted(s["categories"]), sorted(c), "topk.categories")
        ctx.eq(dict(shown), {v: c[v] for v in shown}, "topk.counts")
        ctx.eq(sorted(shown.values(), reverse=True), sorted(c.values(), reverse=True)[:k], "topk.best")
        ctx.eq(list(shown.values()), sorted(shown.values(), reverse=True), "topk.sorted")
        if n:
            ctx.close(s["gini_impurity"], sum(x / n * (1 - x / n) for x in c.values()), "topk.gini")
            ctx.close(s["unalikeability"], sum((n - x) * x for x in c.values()) / (n * n - n) if n > 1 else 0, "topk.unalike")
    e = {C + "top_k_categories": k}
    _walk(ctx, _Hist(ctx, mk, e), lambda: _Hist(ctx, mk, e), check, r.randint(1, 4))


def stop(ctx):
    """Categories are dropped at the first step at which both thresholds are reached, and never before."""
    r = ctx.rng
    mk, pool = _mk(r)
    size = r.choice([1, 5, 20, 60, 150, 400])
    ratio = r.choice([.05, .1, .25, .5, .9, 1.0])
    e = {C + "max_sample_size_to_check_stop_condition": size, C + "stop_condition_unique_value_ratio": ratio}
    state = {}

    def met(c):
        n = sum(c.values())
        return n >= size and n > 0 and len(c) / n >= ratio

    class H(_Hist):
        def __init__(self, ctx, mk, e):
            super().__init__(ctx, mk, e)
            self.cnt, self.froz = Counter(v for v in self.batches[0] if v), None
            self._chk()

        def _chk(self):
            if self.froz is None and met(self.cnt):
                n = sum(self.cnt.values())
                self.froz = [(len(self.cnt), len(self.cnt) / n)]

        def update(self):
            b = [v for v in super().update() if v]
            if b and self.froz is None:
                self.cnt.update(b)
                self._chk()

        def join(self, o):
            if self.froz is None and o.froz is None:
                self.cnt = self.cnt + o.cnt
                self._chk()
                return
            sides = []
            for x in (self, o):
                n = sum(x.cnt.values())
                sides += x.froz if x.froz is not None else [(len(x.cnt), len(x.cnt) / n if n else 0)]
            self.froz = sides

    def check(h):
        cat, s = h.stats()
        if h.froz is None:
            n = sum(h.cnt.values())
            ctx.eq(s["unique_count"], len(h.cnt), "stop.open", f"{n} values, thresholds {size} {ratio}")
            ctx.eq(cat, len(h.cnt) <= 10 or len(h.cnt) / n <= .2, "stop.categorical")
            if cat:
                ctx.eq(dict(s["categorical_count"]), dict(h.cnt), "stop.open_counts")
            state["open"] = 1
        else:
            ctx.eq(cat, False, "stop.dropped")
            ctx.check("categorical_count" not in s and "categories" not in s, "stop.dropped_categories")
            ctx.check(any(s["unique_count"] == u and abs(s["unique_ratio"] - q) < 1e-12 for u, q in h.froz), "stop.frozen",
                      lambda: f"{s['unique_count']} {s['unique_ratio']} want {h.froz}")
            state["stop"] = 1

    h = H(ctx, mk, e)
    ops = []
    check(h)
    for _ in range(r.randint(1, 5)):
        op = r.choice(["update", "update", "update", "merge", "reload"])
        if op == "update":
            h.update()
        elif op == "reload":
            h.reload()
        else:
            o = H(ctx, mk, e)
            if r.random() < .5:
                o.update()
            h.p = (h.p + o.p) if r.random() < .5 else (o.p + h.p)
            h.batches += o.batches
            h.join(o)
            ctx.count("op.merge")
        ops.append(op[0])
        check(h)
    ctx.seen(ctx.scenario, "".join(ops), size, ratio, len(h.cnt), tuple(state))


SCENARIOS = [("cms", 5, cms), ("mismatch", 1, mismatch), ("topk", 2, topk), ("stop", 3, stop)]
