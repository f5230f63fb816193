"""Rejected operations leave profiles as they were."""
import os
import warnings

import numpy as np
import pandas as pd

import dataprofiler as dp

from .. import core, gen, util

PROP = "P28"
RULE = ("random histories mixing valid updates, merges and reports with operations which must be refused (incompatible schema, wrong type, bad "
        "arguments, differing options, unwritable or damaged files), run on a profile and, without the refused ones, on a twin; after "
        "every refused operation and at the end the two must report the same; non-trivial = at least one operation was refused; distinct by "
        "(scenario, operations, shape)")
CASES = {"quick": 280, "thorough": 6000}
REQUIRED = ["chk.rej.raises", "chk.rej.state", "chk.rej.twin", "chk.rej.operand", "rej.update.schema", "rej.update.type", "rej.update.arg",
            "rej.merge.schema", "rej.merge.type", "rej.merge.options", "rej.save", "rej.load", "rej.diff", "chk.rej.empty"]
SO = "structured_options."


def _twin(ctx, mk):
    s = ctx.rng.randrange(10**6)
    util.seed(s)
    a = mk()
    util.seed(s)
    return a, mk()


def _bad_schema(r, df):
    """a batch whose columns cannot be matched with those of df"""
    b = df.copy()
    names = list(df.columns)
    kinds = ["extra", "renamed", "numbers"]
    if len(names) > 1:
        kinds += ["missing", "missing"]
    if len(set(names)) < len(names):
        kinds += ["dedup"]
        if len(set(map(str.lower, names))) > 1:
            kinds += ["moved", "moved"]
    k = r.choice(kinds)
    if k == "extra":
        b.insert(r.randrange(len(names) + 1), "surplus", ["1"] * len(b))
    elif k == "renamed":
        n = list(names)
        n[r.randrange(len(n))] = "other"
        b.columns = n
    elif k == "numbers":
        b.columns = [100 + i for i in range(len(names))]
    elif k == "missing":
        b = b.iloc[:, [i for i in range(len(names)) if i != r.randrange(1, len(names)) % len(names)][:len(names) - 1]]
        if b.shape[1] == len(names):
            b = b.iloc[:, :-1]
    elif k == "moved":  # the columns of a repeated name cannot be told apart elsewhere
        low = [c.lower() for c in names]
        while True:
            o = r.sample(range(len(names)), len(names))
            if any([j for j, i in enumerate(o) if low[i] == c] != [j for j, d in enumerate(low) if d == c] for c in low if low.count(c) > 1):
                break
        b = b.iloc[:, o]
    else:  # same number of columns, the repeated name made unique
        n = [f"{c}_{i}" for i, c in enumerate(names)]
        b.columns = n
    return b, k


def _df(r, names=None):
    df = gen.table(r, n=r.choice([1, 4, 20, 40]), ncols=len(names) if names else None)[0]
    if names:
        df.columns = names
    elif r.random() < .2:
        df.columns = ["dup"] * df.shape[1]
        if df.shape[1] > 2 and r.random() < .7:
            n = ["dup", "DUP", "x", "dup"][:df.shape[1]]
            r.shuffle(n)
            df.columns = n
    elif r.random() < .2:
        df.columns = list(range(df.shape[1]))
    return df


def _extra(r):
    e = {}
    if r.random() < .4:
        e[SO + "correlation.is_enabled"] = True
    if r.random() < .3:
        e[SO + "null_replication_metrics.is_enabled"] = True
    if r.random() < .3:
        e[SO + "row_statistics.unique_count.hashing_method"] = "hll"
    return e


def _refuse(ctx, kind, fn, p, others=(), exc=(ValueError, TypeError, AttributeError)):
    """fn must raise and leave p and the others alone"""
    before = [util.rep(x) for x in (p, *others)]
    tot = p.total_samples
    ok = False
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn()
    except exc:
        ok = True
    except Exception as e:
        ctx.check(False, "rej.exception", f"{kind}: {type(e).__name__}: {e}")
        ok = True
    ctx.check(ok, "rej.raises", f"{kind} was accepted")
    after = [util.rep(x) for x in (p, *others)]
    d = core.deep_diff(after[0], before[0])
    ctx.check(not d and p.total_samples == tot, "rej.state", lambda: f"{kind} changed the profile: {d[:3]}")
    for a, b in zip(after[1:], before[1:]):
        d = core.deep_diff(a, b)
        ctx.check(not d, "rej.operand", lambda: f"{kind} changed the other profile: {d[:3]}")
    ctx.count("rej." + kind)


def structured(ctx):
    r = ctx.rng
    df = _df(r)
    names = list(df.columns)
    e = _extra(r)
    p, q = _twin(ctx, lambda: util.profile(df, e))
    ops = []
    for _ in range(r.randint(2, 6)):
        op = r.choice(["ok", "ok", "merge", "schema", "type", "arg", "mschema", "mtype", "moptions", "save", "load", "diff", "empty"])
        ops.append(op)
        if op == "ok":
            b = _df(r, names)
            s = r.randrange(10**6)
            for x in (p, q):
                util.seed(s)
                x.update_profile(b)
        elif op == "merge":
            b = _df(r, names)
            o = util.profile(b, e)
            p, q = p + o, q + o
        elif op == "schema":
            b, k = _bad_schema(r, df)
            b0 = b.copy(deep=True)
            _refuse(ctx, "update.schema", lambda: p.update_profile(b), p)
            ctx.check(b.equals(b0) and list(b.columns) == list(b0.columns), "rej.data", f"the refused data was changed ({k})")
            ops[-1] += k
        elif op == "type":
            bad = r.choice([None, 5, "text", {"a": ["1"]}, np.array([["1"]]), ("1", "2"), b"x"])
            _refuse(ctx, "update.type", lambda: p.update_profile(bad), p)
        elif op == "arg":
            b = _df(r, names)
            m = r.choice(["5", 2.5, [1], (3,)])
            _refuse(ctx, "update.arg", lambda: p.update_profile(b, min_true_samples=m), p)
        elif op == "mschema":
            b, k = _bad_schema(r, df)
            o = util.profile(b, e)
            f = (lambda: p + o) if r.random() < .5 else (lambda: o + p)
            _refuse(ctx, "merge.schema", f, p, [o])
            ops[-1] += k
        elif op == "mtype":
            o = r.choice([None, 5, df, "x", {}])
            if r.random() < .5:
                o = dp.Profiler(["some text", "more"], profiler_type="unstructured", options=util.opts())
                _refuse(ctx, "merge.type", (lambda: p + o) if r.random() < .5 else (lambda: o + p), p)
            else:
                _refuse(ctx, "merge.type", lambda: p + o, p)
        elif op == "moptions":
            f = dict(e)
            k = r.choice(["rows", "unique", "nulls", "hash", "register", "seed"])
            h = SO + "row_statistics.unique_count."
            if k == "rows":
                f[SO + "row_statistics.is_enabled"] = False
            elif k == "unique":
                f[h + "is_enabled"] = False
            elif k == "nulls":
                f[SO + "row_statistics.null_count.is_enabled"] = False
            elif k == "hash" or e.get(h + "hashing_method") != "hll":
                f[h + "hashing_method"] = "full" if e.get(h + "hashing_method") == "hll" else "hll"
            elif k == "register":
                f[h + "hll.register_count"] = 10
            else:
                f[h + "hll.seed"] = 77
            o = util.profile(_df(r, names), f)
            _refuse(ctx, "merge.options", (lambda: p + o) if r.random() < .5 else (lambda: o + p), p, [o])
            ops[-1] += k
        elif op == "save":
            d = ctx.tmpdir()
            k = r.choice(["method", "nodir", "isdir"])
            if k == "method":
                fn = lambda: p.save(d + "/x.pkl", save_method="nope")
            elif k == "nodir":
                fn = lambda: p.save(d + "/none/x.pkl", save_method=r.choice(["json", "pickle"]))
            else:
                fn = lambda: p.save(d, save_method=r.choice(["json", "pickle"]))
            _refuse(ctx, "save", fn, p, exc=(ValueError, OSError))
        elif op == "load":
            f = ctx.tmpdir() + "/b.bin"
            k = r.choice(["garbage", "missing", "method", "cut"])
            m = r.choice(["json", "pickle", None])
            if k == "garbage":
                open(f, "wb").write(os.urandom(4) + b"\x80garbage{")
            elif k == "cut":
                p.save(f, save_method="pickle")
                raw = open(f, "rb").read()
                open(f, "wb").write(raw[:r.randrange(1, max(2, len(raw) - 1))])
            elif k == "method":
                p.save(f, save_method="pickle")
                m = "nope"
            if k == "missing":
                f += ".not"
            _refuse(ctx, "load", lambda: dp.Profiler.load(f, load_method=m), p, exc=(Exception,))
        elif op == "diff":
            o = r.choice([None, 5, df, "unstructured"])
            if isinstance(o, str):
                o = dp.Profiler(["some text"], profiler_type="unstructured", options=util.opts())
            _refuse(ctx, "diff", lambda: p.diff(o), p)
        else:
            before = util.rep(p)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                p.update_profile(r.choice([df.iloc[:0], pd.DataFrame(columns=["zzz"]), []]))
            d = core.deep_diff(util.rep(p), before)
            ctx.check(not d, "rej.empty", lambda: f"an empty batch changed the profile: {d[:3]}")
    for x in (p, q):  # and both go on the same
        b = df.copy()
        util.seed(5)
        x.update_profile(b)
    d = core.deep_diff(util.rep(p), util.rep(q))
    ctx.check(not d, "rej.twin", lambda: f"after {ops}: {d[:4]}")
    if any(o not in ("ok", "merge") for o in ops):
        ctx.seen(ctx.scenario, tuple(ops), df.shape)


def text(ctx):
    r = ctx.rng
    mk = lambda: [" ".join(gen.word(r) for _ in range(r.randint(1, 8))) for _ in range(r.randint(1, 8))]
    d0 = mk()
    new = lambda d: dp.Profiler(d, profiler_type="unstructured", options=util.opts())
    p, q = _twin(ctx, lambda: new(list(d0)))
    ops = []
    for _ in range(r.randint(2, 5)):
        op = r.choice(["ok", "merge", "type", "arg", "mtype", "save", "diff", "empty"])
        ops.append(op)
        if op == "ok":
            b = mk()
            p.update_profile(list(b))
            q.update_profile(list(b))
        elif op == "merge":
            o = new(mk())
            p, q = p + o, q + o
        elif op == "type":
            bad = r.choice([None, 5, {"a": 1}, b"x", ("a",)])
            _refuse(ctx, "update.type", lambda: p.update_profile(bad), p)
        elif op == "arg":
            m = r.choice(["5", 2.5, [1]])
            _refuse(ctx, "update.arg", lambda: p.update_profile(mk(), min_true_samples=m), p)
        elif op == "mtype":
            o = r.choice([None, 5, "s", util.profile(pd.DataFrame({"a": ["1"]}))])
            _refuse(ctx, "merge.type", lambda: p + o, p)
        elif op == "save":
            k = r.choice(["nope", "json", "nodir"])
            d = ctx.tmpdir()
            fn = (lambda: p.save(d + "/none/x")) if k == "nodir" else (lambda: p.save(d + "/x", save_method=k))
            _refuse(ctx, "save", fn, p, exc=(ValueError, OSError, NotImplementedError))
        elif op == "diff":
            o = r.choice([None, 5, "s", util.profile(pd.DataFrame({"a": ["1"]}))])
            _refuse(ctx, "diff", lambda: p.diff(o), p)
        else:
            before = util.rep(p)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                p.update_profile(r.choice([[], "", pd.Series([], dtype=object)]))
            ctx.eq(util.rep(p), before, "rej.empty")
    b = mk()
    p.update_profile(list(b))
    q.update_profile(list(b))
    d = core.deep_diff(util.rep(p), util.rep(q))
    ctx.check(not d, "rej.twin", lambda: f"after {ops}: {d[:4]}")
    ctx.seen(ctx.scenario, tuple(ops), len(d0))


SCENARIOS = [("structured", 5, structured), ("text", 1, text)]
