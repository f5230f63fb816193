"""Multiprocessing changes speed only: same report with and without worker processes, also when workers fail."""
import multiprocessing
import multiprocessing.pool
import os
import time

import pandas as pd

import dataprofiler as dp

from .. import core, gen, util

PROP = "P15"
RULE = ("wide tables (over 20 columns) profiled twice with the same seed, with and without worker processes; the worker side is driven "
        "through a wrapped task queue that records every task and injects delays, exceptions, unpicklable results, refused "
        "submissions and refused pools; non-trivial = at least one pool ran tasks; distinct by (faults injected, tasks, options)")
CASES = {"quick": 40, "thorough": 700}
NPROC = 4
CASE_TIMEOUT = 120
REQUIRED = ["chk.mp.same", "chk.mp.children", "mp.pools", "mp.tasks", "mp.fault.raise", "mp.fault.unpicklable", "mp.fault.submit", "mp.fault.pool"]


class _Fault(Exception):
    pass


class _Task:
    """runs in the worker: the real function, late, or failing before or after its work"""

    def __init__(self, func, mode, delay):
        self.func, self.mode, self.delay = func, mode, delay

    def __call__(self, *a, **k):
        time.sleep(self.delay)
        if self.mode == "raise":
            raise _Fault("injected before")
        out = self.func(*a, **k)
        if self.mode == "raise_late":
            raise _Fault("injected after")
        if self.mode == "unpicklable":
            return lambda: out
        return out


class Inject:
    """wraps the standard library's pool: counts pools and tasks, injects faults by a plan drawn from the case's generator"""

    def __init__(self, ctx, r, modes, rate, pool_fault):
        self.ctx, self.r, self.modes, self.rate, self.pool_fault = ctx, r, modes, rate, pool_fault
        self.log = []

    def __enter__(self):
        P = multiprocessing.pool.Pool
        self.saved = (P.__init__, P.apply_async)
        init, apply_async = self.saved
        me = self

        def __init__(s, *a, **k):
            if me.pool_fault and me.r.random() < .5:
                me.ctx.count("mp.fault.pool")
                me.log.append("nopool")
                raise OSError("injected: no processes")
            me.ctx.count("mp.pools")
            me.log.append("pool")
            init(s, *a, **k)

        def _apply(s, func, args=(), kwds={}, *a, **k):
            me.ctx.count("mp.tasks")
            mode = me.r.choice(me.modes) if me.modes and me.r.random() < me.rate else "ok"
            delay = me.r.choice([0, 0, 0, .001, .01])
            me.log.append(mode)
            if mode == "submit":
                me.ctx.count("mp.fault.submit")
                raise _Fault("injected: cannot submit")
            if mode != "ok":
                me.ctx.count("mp.fault.raise" if mode.startswith("raise") else "mp.fault." + mode)
            return apply_async(s, _Task(func, mode, delay), args, kwds, *a, **k)
        P.__init__, P.apply_async = __init__, _apply
        return self

    def __exit__(self, *exc):
        P = multiprocessing.pool.Pool
        P.__init__, P.apply_async = self.saved


def _nt(x):
    if isinstance(x, dict):
        return {k: _nt(v) for k, v in x.items() if k != "times"}
    if isinstance(x, list):
        return [_nt(v) for v in x]
    return x


def _wide(r, n):
    kinds = ["int", "float", "text", "cat", "date", "uniq", "intcat"]
    base, ks, _ = gen.table(r, n=n, kinds=kinds, ncols=r.randint(5, 8))
    m = r.randint(21, 26)
    cols = {}
    names = [str(c) for c in base.columns]
    for j in range(m):
        src = j % base.shape[1]
        vals = base.iloc[:, src].tolist()
        if j >= base.shape[1]:
            k = r.randrange(n)
            vals = vals[k:] + vals[:k]
        cols[f"k{j}_{src}"] = vals
    return pd.DataFrame(cols, dtype=object), ks


def _build(df, e, parts, how, seed, mp, kw, perm):
    old = os.environ.get("DATAPROFILER_SEED")
    try:
        dp.set_seed(seed)
        util.seed(seed)
        p = None
        for i, (a, b) in enumerate(parts):
            ch = df.iloc[a:b]
            if i and perm and how == "update":
                ch = ch[perm]
            if p is None:
                p = util.profile(ch, e, multiprocess=mp, **kw)
            elif how == "merge":
                p = p + util.profile(ch, e, multiprocess=mp, **kw)
            else:
                p.update_profile(ch)
        return p
    finally:
        dp.set_seed(None)
        if old is not None:
            os.environ["DATAPROFILER_SEED"] = old


def _run(ctx, modes, rate, pool_fault):
    r = ctx.rng
    n = r.choice([12, 30, 60])
    df, ks = _wide(r, n)
    e = util.rand_extra(r)
    if r.random() < .5:
        e["structured_options.correlation.is_enabled"] = True
    if e.get("structured_options.int.is_enabled") is False or e.get("structured_options.float.is_enabled") is False:
        e["structured_options.correlation.is_enabled"] = False
    kw = {}
    if r.random() < .4:
        kw = {"samples_per_update": r.randint(2, n), "min_true_samples": r.choice([0, 0, 2, n // 2])}
    parts = gen.split_points(r, n, r.choice([1, 1, 2, 3]))
    how = r.choice(["update", "merge"])
    perm = list(df.columns)
    if r.random() < .4:
        r.shuffle(perm)
    seed = r.randrange(10**6)
    ctx.note(n=n, kinds=ks, options=e, parts=parts, how=how, kw=kw, seed=seed, modes=modes, rate=rate, permuted=perm != list(df.columns))
    want = _build(df, e, parts, how, seed, False, kw, perm)
    before = df.copy(deep=True)
    with Inject(ctx, r, modes, rate, pool_fault) as inj:
        got = _build(df, e, parts, how, seed, True, kw, perm)
    if not inj.log:
        raise core.Skip
    left = multiprocessing.active_children()
    ctx.check(not left, "mp.children", lambda: f"worker processes left behind: {left}")
    for c in left:
        c.terminate()
    util.seed(seed)
    a = _nt(want.report({"output_format": None}))
    util.seed(seed)
    b = _nt(got.report({"output_format": None}))
    d = core.deep_diff(a, b)
    ctx.check(not d, "mp.same", lambda: f"single-process report differs from multi-process report: {d}")
    ctx.check(df.equals(before), "mp.input")
    # and the profile goes on the same way afterwards
    if r.random() < .3:
        more = df.iloc[: max(1, n // 2)]
        want.update_profile(more, sample_size=len(more))
        got.options.set({"multiprocess.is_enabled": False})
        got.update_profile(more, sample_size=len(more))
        d = core.deep_diff(util.rep(want), util.rep(got))
        ctx.check(not d, "mp.continue", lambda: f"{d}")
    if "pool" in inj.log:
        ctx.seen(tuple(sorted(set(inj.log))), len(inj.log), n, how, len(parts), tuple(sorted(e)))


def plain(ctx):
    _run(ctx, [], 0, False)


def faults(ctx):
    _run(ctx, ctx.rng.choice([["raise"], ["raise_late"], ["unpicklable"], ["submit"], ["raise", "unpicklable", "submit", "raise_late"]]),
         ctx.rng.choice([.05, .3, 1]), False)


def nopool(ctx):
    _run(ctx, ["raise", "submit"], .1, True)


SCENARIOS = [("plain", 3, plain), ("faults", 4, faults), ("nopool", 1, nopool)]
