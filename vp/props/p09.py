"""A saved and reloaded profile is the same profile."""
import builtins
import copy
import os
import re

import numpy as np
import pandas as pd

import dataprofiler as dp
from dataprofiler.profilers import profile_builder as pb

from .. import gen, util
from ..stub import StubLabeler
from ..core import Skip, deep_diff

PROP = "P09"
RULE = ("random tables x option sets x histories (updates, merges) saved with pickle/JSON, loaded through the facade or the class, "
        "then reported/updated/merged/diffed next to the original; saves interrupted by injected write faults; non-trivial = file "
        "written and loaded; distinct by (scenario, method, history, option keys)")
CASES = {"quick": 450, "thorough": 6000}
REQUIRED = ["chk.load.report", "chk.load.then_update", "chk.load.then_merge", "chk.load.then_diff", "chk.load.then_sampled", "chk.fault.intact",
            "chk.unsupported.error", "chk.load.unstructured"]


def full(p):
    return copy.deepcopy(p.report({"output_format": None}))


def same(ctx, a, b, sig, msg="", tol=1e-12):
    d = deep_diff(norm(a), norm(b), tol, 0)
    return ctx.check(not d, sig, lambda: f"{msg} {d[:3]}")


def norm(x, key=None):
    """sets/lists whose order carries no meaning are sorted"""
    if isinstance(x, dict):
        return {k: norm(v, k) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return sorted(x, key=str)
    if isinstance(x, (list, tuple)):
        x = [norm(v) for v in x]
        return sorted(x, key=str) if key in ("null_types", "vocab", "format", "categories") else x
    return x


def roundtrip(ctx, p, method, name="f"):
    r = ctx.rng
    f = os.path.join(ctx.tmpdir(), name)
    p.save(f, save_method=method if r.random() < .7 else method.upper())
    loader = r.choice([dp.Profiler, pb.StructuredProfiler, pb.BaseProfiler] if isinstance(p, pb.StructuredProfiler)
                      else [dp.Profiler, pb.UnstructuredProfiler, pb.BaseProfiler])
    q = loader.load(f, load_method=r.choice([None, method]))
    ctx.check(type(q) is type(p), "load.class", lambda: f"{type(q)} for {type(p)}")
    return q


def mk_extra(r, method):
    e = util.rand_extra(r)
    if method == "json":
        e.pop("structured_options.row_statistics.unique_count.hashing_method", None)
    if r.random() < .2:
        e["structured_options.null_values"] = {"": 0, "n/a": re.IGNORECASE, "nan": re.IGNORECASE}
    return e


def data(r, n):
    df, ks, ik = gen.table(r, n=n, index=r.choice(["range", "any"]))
    m = r.random()
    if m < .2:
        df.columns = range(df.shape[1])
    elif m < .3:
        df.columns = [str(i) for i in range(df.shape[1])]
    elif m < .4 and df.shape[1] > 1:
        df.columns = ["dup"] * df.shape[1]
    elif m < .5:
        df.columns = [f"é {i}\n\"q\"" for i in range(df.shape[1])]
    return df, ks


def history(ctx, df, extra, mts):
    """-> profiler over all rows of df, and the op list"""
    r = ctx.rng
    n = len(df)
    parts = gen.split_points(r, n, r.choice([1, 1, 2, 3]))
    p = util.profile(df.iloc[slice(*parts[0])], extra, min_true_samples=mts)
    ops = ["init"]
    for a, b in parts[1:]:
        if r.random() < .5 or df.index.dtype == object:
            p.update_profile(df.iloc[a:b])
            ops.append("update")
        else:
            p = p + util.profile(df.iloc[a:b], extra, min_true_samples=mts)
            ops.append("merge")
    if r.random() < .1:
        p.update_profile(df.iloc[:0])
        ops.append("empty")
    return p, ops


def structured(ctx):
    r = ctx.rng
    method = r.choice(["pickle", "json"])
    extra = mk_extra(r, method)
    n = r.choice([1, 2, 6, 25, 60])
    df, ks = data(r, n)
    mts = r.choice([0, 0, 2])
    cut = r.randint(1, n)
    p, ops = history(ctx, df.iloc[:cut], extra, mts)
    ctx.note(method=method, extra=extra, kinds=ks, ops=ops, n=n, cols=list(df.columns), cut=cut)
    ref = full(p)
    q = roundtrip(ctx, p, method)
    same(ctx, full(q), ref, "load.report", method)
    if r.random() < .3:
        q = roundtrip(ctx, q, r.choice(["pickle", method]), "g")
        same(ctx, full(q), ref, "load.report", "second trip")
    for fmt in ("pretty", "compact", "serializable", "flat"):
        if r.random() < .2:
            same(ctx, copy.deepcopy(q.report({"output_format": fmt})), copy.deepcopy(p.report({"output_format": fmt})),
                 "load.report_formats", fmt)
    rest = df.iloc[cut:] if cut < n else df.iloc[:r.randint(1, n)]
    op = r.choice(["update", "merge", "rmerge", "diff", "rdiff"])
    if op == "update":
        util.seed(ctx.iseed)
        p.update_profile(rest)
        util.seed(ctx.iseed)
        q.update_profile(rest)
        same(ctx, util.strip_volatile(full(q)), util.strip_volatile(full(p)), "load.then_update", method, 1e-9)
    elif op in ("merge", "rmerge"):
        o = util.profile(rest, extra, min_true_samples=mts)
        a, b = (p + o, q + o) if op == "merge" else (o + p, o + q)
        same(ctx, util.strip_volatile(full(b)), util.strip_volatile(full(a)), "load.then_merge", method, 1e-9)
        if r.random() < .5:
            c = roundtrip(ctx, b, method, "h")
            same(ctx, util.strip_volatile(full(c)), util.strip_volatile(full(a)), "load.then_merge", method + " again", 1e-9)
    else:
        o = util.profile(rest, extra, min_true_samples=mts)
        try:
            a = p.diff(o) if op == "diff" else o.diff(p)
        except (IndexError, ZeroDivisionError):
            raise Skip
        b = q.diff(o) if op == "diff" else o.diff(q)
        same(ctx, util.strip_volatile(b), util.strip_volatile(a), "load.then_diff", method, 1e-9)
    ctx.seen("structured", method, tuple(ops), op, tuple(sorted(extra)))


def empty_profiler(ctx):
    """profilers that have seen no rows survive a round trip and stay usable"""
    r = ctx.rng
    method = r.choice(["pickle", "json"])
    extra = mk_extra(r, method)
    df, ks = data(r, r.choice([1, 6]))
    src = r.choice(["none", "norows"])
    p = util.profile(None if src == "none" else df.iloc[:0], extra)
    ctx.note(method=method, extra=extra, src=src)
    q = roundtrip(ctx, p, method)
    same(ctx, full(q), full(p), "load.report", "empty")
    util.seed(ctx.iseed)
    p.update_profile(df)
    util.seed(ctx.iseed)
    q.update_profile(df)
    same(ctx, util.strip_volatile(full(q)), util.strip_volatile(full(p)), "load.then_update", "empty", 1e-9)
    ctx.seen("empty", method, src, tuple(sorted(extra)))


def unstructured(ctx):
    r = ctx.rng
    mk = lambda k: dp.Profiler([gen.text_cell(r) for _ in range(k)], options=util.opts(), profiler_type="unstructured")
    p = mk(r.randint(0, 8) or 1)
    if r.random() < .4:
        p = p + mk(2)
    ref = full(p)
    q = roundtrip(ctx, p, "pickle")
    same(ctx, full(q), ref, "load.unstructured")
    more = [gen.text_cell(r) for _ in range(3)]
    p.update_profile(more)
    q.update_profile(more)
    same(ctx, util.strip_volatile(full(q)), util.strip_volatile(full(p)), "load.unstructured", "then update", 1e-9)
    o = mk(2)
    same(ctx, util.strip_volatile(full(q + o)), util.strip_volatile(full(p + o)), "load.unstructured", "then merge", 1e-9)
    f = os.path.join(ctx.tmpdir(), "u.json")
    ctx.raises(lambda: p.save(f, save_method="json"), NotImplementedError, "unsupported.error", "json of unstructured")
    same(ctx, util.strip_volatile(full(q)), util.strip_volatile(full(p)), "load.unstructured", "after rejected save", 1e-9)
    ctx.seen("unstr", len(ref), ref["global_stats"]["samples_used"])


def faults(ctx):
    """the write fails after k bytes: the error reaches the caller, the profiler is unharmed, a later save works"""
    r = ctx.rng
    method = r.choice(["pickle", "json"])
    extra = mk_extra(r, method)
    unstr = method == "pickle" and r.random() < .25
    lab = not unstr and r.random() < .5
    if unstr:
        p = dp.Profiler([gen.text_cell(r) for _ in range(4)], options=util.opts(), profiler_type="unstructured")
    else:
        df, ks = data(r, r.choice([2, 10]))
        if lab:
            marker = StubLabeler()
            extra["structured_options.data_labeler.data_labeler_object"] = marker
        p = util.profile(df, extra, labeler=lab)
    ref = util.strip_volatile(full(p))
    f = os.path.join(ctx.tmpdir(), "x")
    limit = r.choice([0, 1, 100, 1500])
    real = builtins.open
    kind = r.choice(["write", "nodir", "method"])
    fired = {"n": 0}

    def bad_open(path, mode="r", *a, **k):
        fh = real(path, mode, *a, **k)
        if path == f and "w" in mode:
            orig, st = fh.write, {"n": 0}

            class W:
                def __enter__(s): return s
                def __exit__(s, *e): fh.close()
                def write(s, b):
                    st["n"] += len(b)
                    if st["n"] > limit:
                        fired["n"] += 1
                        raise OSError(28, "No space left on device")
                    return orig(b)
                def close(s): fh.close()
                def flush(s): fh.flush()
            return W()
        return fh
    err = None
    try:
        if kind == "write":
            builtins.open = bad_open
            try:
                p.save(f, save_method=method)
            finally:
                builtins.open = real
        elif kind == "nodir":
            fired["n"] = 1
            p.save(os.path.join(ctx.tmpdir(), "no", "x"), save_method=method)
        else:
            fired["n"] = 1
            p.save(f, save_method="yaml")
    except (OSError, ValueError) as e:
        err = e
    if fired["n"] == 0:
        raise Skip
    ctx.note(method=method, kind=kind, limit=limit, unstr=unstr, lab=lab)
    ctx.check(err is not None, "fault.reported", lambda: f"{kind} failure swallowed")
    same(ctx, util.strip_volatile(full(p)), ref, "fault.intact", kind)
    if lab:
        objs = [p.options.data_labeler.data_labeler_object] + [
            c.profiles["data_label_profile"]._profiles["data_labeler"].data_labeler for c in p._profile]
        ctx.check(all(o is marker for o in objs), "fault.intact", lambda: f"labelers after failed save: {objs!r}")
        p.update_profile(df)
        ctx.seen("fault", method, kind, limit, unstr, lab)
        return
    q = roundtrip(ctx, p, method, "again")
    same(ctx, util.strip_volatile(full(q)), ref, "fault.later_save", kind)
    ctx.seen("fault", method, kind, limit, unstr, lab)


def sampling(ctx):
    """a reloaded profile samples later batches just as the saved one would have"""
    r = ctx.rng
    method = r.choice(["pickle", "json"])
    extra = {"structured_options.sampling_ratio": r.choice([.1, .35, .7, .95, 1.0, 1])}
    spu = r.choice([None, None, None, 13, 700])
    mts = r.choice([0, 0, 0, 40])
    n = r.choice([60, 900, 5600, 9000])
    vals = [str(i) for i in range(n)]
    for i in r.sample(range(n), n // r.choice([3, 10, 50])):
        vals[i] = r.choice(["", "nan"])
    df = pd.DataFrame({"a": vals, "b": vals[::-1]})
    head = df.iloc[:r.choice([1, 30])]
    p = util.profile(head, extra, min_true_samples=mts, samples_per_update=spu)
    if r.random() < .3:
        p = p + util.profile(df.iloc[30:60], extra, min_true_samples=mts, samples_per_update=spu)
    q = roundtrip(ctx, p, method)
    ctx.note(method=method, extra=extra, spu=spu, mts=mts, n=n, head=len(head))
    same(ctx, util.strip_volatile(full(q)), util.strip_volatile(full(p)), "load.report", method)
    kw = r.choice([{}, {}, {"sample_size": 21}, {"min_true_samples": 25}])
    try:
        for x in (p, q):
            dp.set_seed(ctx.iseed % 2**31)
            x.update_profile(df.iloc[60:] if n > 60 else df, **kw)
    finally:
        dp.set_seed(None)
    same(ctx, util.strip_volatile(full(q)), util.strip_volatile(full(p)), "load.then_sampled", f"{method} {extra} {spu} {mts} {kw}", 1e-9)
    ctx.seen("sampling", method, str(extra), spu, mts, n, str(kw))


def garbage(ctx):
    """loading something that is not a saved profile raises"""
    r = ctx.rng
    f = os.path.join(ctx.tmpdir(), "g")
    df, ks = data(r, 5)
    p = util.profile(df)
    method = r.choice(["pickle", "json"])
    p.save(f, save_method=method)
    raw = open(f, "rb").read()
    kind = r.choice(["trunc", "empty", "text"] + (["wrong_method"] if method == "pickle" else []))
    if kind == "trunc":
        raw = raw[:r.randrange(len(raw) - 1)]
    elif kind == "empty":
        raw = b""
    elif kind == "text":
        raw = b"hello, world\n1,2\n"
    open(f, "wb").write(raw)
    lm = "json" if kind == "wrong_method" and method == "pickle" else r.choice([None, method])
    ctx.note(method=method, kind=kind, lm=lm, size=len(raw))
    ctx.raises(lambda: dp.Profiler.load(f, load_method=lm), Exception, "garbage.error", f"{kind} {method} {lm}")
    ctx.seen("garbage", method, kind, lm)


SCENARIOS = [("structured", 10, structured), ("empty_profiler", 1, empty_profiler), ("unstructured", 1, unstructured),
             ("faults", 2, faults), ("garbage", 1, garbage), ("sampling", 1, sampling)]
