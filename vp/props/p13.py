"""Reports: every output format, omission, quantile grouping and disabled option shows the same facts."""
import json
import math

import numpy as np
import pandas as pd

from .. import core, gen, stub, util

PROP = "P13"
RULE = ("profiles over random tables, options and (stub) labelers; each report is compared with the unformatted report of the same "
        "profile: serializable / flat / pretty / compact rendering, random omit patterns, quantile groups, disabled statistics; "
        "non-trivial = report with at least one column; distinct by (format, options, column types)")
CASES = {"quick": 420, "thorough": 7000}
REQUIRED = ["chk.fmt.serializable", "chk.fmt.flat", "chk.fmt.pretty", "chk.fmt.compact", "chk.fmt.omit", "chk.fmt.quantiles",
            "chk.off.removed", "chk.off.kept", "chk.off.neutral", "chk.fmt.json"]
SO = "structured_options."


def _key(k):
    return k if isinstance(k, (str, int, float, bool, type(None))) and not isinstance(k, np.generic) else str(k)


def norm(x, schema=False):
    """plain JSON-like tree of an unformatted report (keys kept)"""
    if isinstance(x, dict):
        return {_key(k): norm(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return [norm(v) for v in sorted(x)]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    return x


def _profile(ctx, r, extra=None, n=None):
    df, ks, _ = gen.table(r, n=n or r.choice([1, 3, 12, 30]), index="any")
    extra = dict(extra or {})
    lab = r.random() < .3
    if lab:
        extra[SO + "data_labeler.data_labeler_object"] = stub.StubLabeler()
    p = util.profile(df, extra, labeler=lab) if lab else util.profile(df, extra)
    ctx.note(kinds=ks, extra={k: str(v) for k, v in extra.items()}, rows=df.head(3).values.tolist())
    return p, df, ks


def _rep(p, **kw):
    return p.report(report_options=kw)


def _drop_times(x):
    if isinstance(x, dict):
        return {k: _drop_times(v) for k, v in x.items() if k != "times"}
    if isinstance(x, list):
        return [_drop_times(v) for v in x]
    return x


def _same(ctx, a, b, sig, what, rel=1e-12):
    d = core.deep_diff(a, b, rel=rel, abs_=1e-12)
    ctx.check(not d, sig, lambda: f"{what}: {[(p, repr(x)[:150], repr(y)[:150]) for p, x, y in d]}")


def serializable(ctx):
    r = ctx.rng
    p, df, ks = _profile(ctx, r, util.rand_extra(r))
    full = _rep(p, output_format=None)
    got = _rep(p, output_format=r.choice(["serializable", "Serializable", "SERIALIZABLE"]))
    try:
        txt = json.dumps(got)
        ok = True
    except (TypeError, ValueError) as e:
        ok, txt = False, str(e)
    ctx.check(ok, "fmt.json", txt)
    if not ok:
        return
    _same(ctx, norm(got), norm(full), "fmt.serializable", "serializable differs from the unformatted report")
    # what JSON brings back is the report again (JSON turns keys into strings)
    back = json.loads(txt)

    def sk(x):
        if isinstance(x, dict):
            return {json.loads(json.dumps({k: 0})) and list(json.loads(json.dumps({k: 0})))[0]: sk(v) for k, v in x.items()}
        if isinstance(x, list):
            return [sk(v) for v in x]
        return x
    _same(ctx, back, sk(norm(full)), "fmt.json_same", "JSON round trip")
    ctx.seen("ser", tuple(ks), tuple(c["data_type"] for c in full["data_stats"]))


def _leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from _leaves(v, path + (k,))
    else:
        yield path, x


def flat(ctx):
    r = ctx.rng
    p, df, ks = _profile(ctx, r, util.rand_extra(r))
    full = _rep(p, output_format=None)
    got = _rep(p, output_format=r.choice(["flat", "FLAT"]))

    def cmp(fl, tree, what):
        want = {}
        for path, v in _leaves(tree):
            name = "_".join([str(q).replace(" ", "_") for q in path[:-1]] + [str(path[-1])])
            want.setdefault(name, []).append(v)
        ctx.check(not any(isinstance(v, dict) for v in fl.values()), "fmt.flat_nested", f"{what}: nested entries left")
        fk = {str(k) for k in fl}
        ctx.check(fk == set(want), "fmt.flat_keys", lambda: f"{what}: missing {sorted(set(want) - fk)[:4]} extra {sorted(fk - set(want))[:4]}")
        for k, v in fl.items():
            c = want.get(str(k))
            if c is not None:
                ctx.check(any(not core.deep_diff(norm(v), norm(w), rel=1e-12) for w in c), "fmt.flat", lambda: f"{what} {k}: {v!r} not in {c!r}")
    g = dict(got)
    cols = g.pop("data_stats")
    t = dict(full)
    tcols = t.pop("data_stats")
    # profile_schema and its like keep their dictionaries flattened too
    cmp(g, t, "global")
    ctx.eq(len(cols), len(tcols), "fmt.flat_cols")
    for a, b in zip(cols, tcols):
        cmp(a, b, f"column {b['column_name']}")
    ctx.seen("flat", tuple(ks))


COMPACT_OUT = ["times", "avg_predictions", "data_label_representation", "null_types_index", "histogram"]


def _pretty(ctx, got, full, path="", in_schema=False):
    if path.endswith("/times"):
        return
    if isinstance(full, dict):
        if not ctx.check(isinstance(got, dict), "fmt.pretty", f"{path}: {got!r}"):
            return
        gk = {_key(k) for k in got}
        fk = {_key(k) for k in full}
        ctx.check(gk == fk, "fmt.pretty_keys", lambda: f"{path}: missing {sorted(map(str, fk - gk))[:5]} extra {sorted(map(str, gk - fk))[:5]}")
        g2 = {_key(k): v for k, v in got.items()}
        for k, v in full.items():
            if _key(k) in g2:
                _pretty(ctx, g2[_key(k)], v, f"{path}/{k}", in_schema or k == "profile_schema")
        return
    if path == "/data_stats":
        ctx.eq(len(got), len(full), "fmt.pretty")
        for i, (a, b) in enumerate(zip(got, full)):
            _pretty(ctx, a, b, f"{path}[{i}]")
        return
    if isinstance(full, (list, set, np.ndarray, tuple)):
        seq = sorted(full) if isinstance(full, set) else full
        arr = np.asarray(seq) if not isinstance(seq, np.ndarray) else seq
        if in_schema:
            ctx.eq(list(got), list(seq), "fmt.pretty_schema")
            return
        if len(arr) == 0:
            ctx.check(got in ([], "[]"), "fmt.pretty", f"{path}: {got!r}")
            return
        if not ctx.check(isinstance(got, str) and got.startswith("[") and got.endswith("]"), "fmt.pretty", lambda: f"{path}: {got!r}"):
            return
        if arr.ndim == 1 and arr.dtype.kind in "iuf":
            halves = got.strip("[]").split("...")
            shown = []
            for h in halves:
                shown.append([float(x) for x in h.replace("\n", " ").replace("[", " ").replace("]", " ").split(",") if x.strip()])
            close = lambda a, b: core.isclose(a, b, rel=1e-5, abs_=1e-7)
            if len(shown) == 1:
                ctx.check(len(shown[0]) == len(arr) and all(close(a, b) for a, b in zip(shown[0], arr)), "fmt.pretty_array",
                          lambda: f"{path}: {got} for {arr[:10]}")
            else:
                h, t = shown
                ctx.check(len(shown) == 2 and h and t and len(h) <= len(arr) and all(close(a, b) for a, b in zip(h, arr)) and
                          all(close(a, b) for a, b in zip(t[::-1], arr[::-1])), "fmt.pretty_array", lambda: f"{path}: {got} for {arr[:5]}..{arr[-5:]}")
        elif arr.ndim == 1 and arr.dtype.kind in "US" and len(arr):
            for e in (arr[0], arr[-1]):
                e = str(e)
                ctx.check(repr(e)[1:-1][:20] in got or e[:20] in got, "fmt.pretty_text", lambda: f"{path}: {e!r} not in {got}")
        return
    if isinstance(full, float):
        ctx.check(isinstance(got, (int, float)) and core.isclose(got, round(float(full), 4), rel=1e-12, abs_=1e-12), "fmt.pretty_float",
                  lambda: f"{path}: {got!r} for {full!r}")
        return
    same = got == full or (got != got and full != full)
    ctx.check(bool(same), "fmt.pretty", lambda: f"{path}: {got!r} for {full!r}")


def pretty(ctx):
    r = ctx.rng
    p, df, ks = _profile(ctx, r, util.rand_extra(r))
    full = _rep(p, output_format=None)
    got = _rep(p, output_format=r.choice(["pretty", "Pretty"]))
    _pretty(ctx, got, full)
    comp = _rep(p, output_format="compact")
    want = dict(got)
    want["data_stats"] = []
    for c in got["data_stats"]:
        c = dict(c)
        c["statistics"] = {k: v for k, v in c["statistics"].items() if k not in COMPACT_OUT}
        want["data_stats"].append(c)
    _same(ctx, _drop_times(comp), _drop_times(want), "fmt.compact", "compact = pretty without the detailed statistics")
    ctx.check(not any(set(COMPACT_OUT) & set(c["statistics"]) for c in comp["data_stats"]), "fmt.compact", "detailed statistics left")
    ctx.seen("pretty", tuple(ks))


def _omit(tree, pats, path=()):
    """reference semantics: a pattern names a path, '*' stands for one level"""
    out = {}
    for k, v in tree.items():
        here = path + (k if isinstance(k, str) else None,)  # other keys (quantile numbers) are only matched by '*'
        if any(len(q) == len(here) and all(a in ("*", b) for a, b in zip(q, here)) for q in pats):
            continue
        if isinstance(v, dict) and k != "profile_schema":
            out[k] = _omit(v, pats, here)
        elif k == "data_stats" and isinstance(v, list):
            cols = []
            for c in v:
                ch = here + (str(c["column_name"]),)
                if any(len(q) == len(ch) and all(a in ("*", b) for a, b in zip(q, ch)) for q in pats):
                    cols.append(None)
                else:
                    cols.append(_omit(c, pats, ch))
            out[k] = cols
        else:
            out[k] = v
    return out


def omit(ctx):
    r = ctx.rng
    p, df, ks = _profile(ctx, r)
    full = _rep(p, output_format=None)
    paths = []
    for k, v in full["global_stats"].items():
        paths.append(("global_stats", k))
    for c in full["data_stats"]:
        nm = str(c["column_name"])
        paths.append(("data_stats", nm))
        for k, v in c.items():
            paths.append(("data_stats", nm, k))
            if isinstance(v, dict):
                for k2, v2 in v.items():
                    paths.append(("data_stats", nm, k, k2))
                    if isinstance(v2, dict):
                        for k3 in v2:
                            if isinstance(k3, str) and k3 and "." not in k3 and "*" not in k3:
                                paths.append(("data_stats", nm, k, k2, k3))
    paths += [("global_stats",), ("data_stats",), ("nope",), ("data_stats", "nope"), ("global_stats", "nope", "deeper")]
    pats = []
    for _ in range(r.randint(1, 4)):
        g = r.choice(sorted({(q[0], len(q)) for q in paths}))
        q = list(r.choice([q for q in paths if (q[0], len(q)) == g]))
        for i in range(len(q)):
            if r.random() < .25:
                q[i] = "*"
        pats.append(tuple(q))
    if any("." in s for q in pats for s in q):
        raise core.Skip()
    keys = [".".join(q) for q in pats]
    fmt = r.choice([None, None, "pretty", "serializable"])
    ctx.note(omit=keys, fmt=fmt)
    base = _rep(p, output_format=fmt)
    given = list(keys)
    got = _rep(p, output_format=fmt, omit_keys=given)
    ctx.eq(given, keys, "fmt.omit_args")
    _same(ctx, norm(got), norm(_omit(base, pats)), "fmt.omit", f"omit {keys}")
    ctx.seen("omit", fmt, tuple(len(q) for q in pats), tuple("*" in q for q in pats))


def quantiles(ctx):
    r = ctx.rng
    n = r.choice([5, 40])
    kind = r.choice(["int", "float", "text"])
    _, c = gen.column(r, n, kind)
    df = pd.DataFrame({"c": c}, dtype=object)
    nq = r.choice([1000, 1000, 100, 7])
    p = util.profile(df, {SO + t + ".histogram_and_quantiles.num_quantiles": nq for t in ("int", "float", "text")})
    allq = _rep(p, output_format=None, num_quantile_groups=nq)["data_stats"][0]["statistics"].get("quantiles")
    if not allq:
        return
    ctx.eq(sorted(allq), list(range(nq - 1)), "fmt.quantile_keys")
    g = r.choice([1, 2, 3, 4, 5, 10, 99, nq, nq, None, 0, nq + 1, 2000])
    ctx.note(kind=kind, groups=g, num_quantiles=nq)
    got = _rep(p, output_format=None, num_quantile_groups=g)["data_stats"][0]["statistics"]["quantiles"]
    eff = g if g and 0 < g <= nq else 4
    want = {i: allq[math.ceil((i + 1) * nq / eff) - 1] for i in range(eff - 1)}
    _same(ctx, norm(got), norm(want), "fmt.quantiles", f"{g} groups")
    ctx.seen("q", g, nq, kind)


FAM = {"min": ["min"], "max": ["max"], "sum": ["sum", "mean"], "variance": ["variance", "stddev"], "skewness": ["skewness"],
       "kurtosis": ["kurtosis"], "num_zeros": ["num_zeros"], "num_negatives": ["num_negatives"], "median": ["median"],
       "mode": ["mode"], "median_abs_deviation": ["median_abs_deviation"], "histogram_and_quantiles": ["histogram", "quantiles"],
       "precision": ["precision"], "vocab": ["vocab"]}


def disabled(ctx):
    """disabled statistics are neutral, or absent on request; everything else is as if nothing had been disabled"""
    r = ctx.rng
    kind = r.choice(["int", "float", "text", "cat", "intfloat"])
    n = r.choice([1, 3, 15])
    _, c = gen.column(r, n, kind)
    df = pd.DataFrame({"c": c}, dtype=object)
    full = util.profile(df)
    t = util.rep(full)["data_stats"][0]["data_type"]
    opt = t if t in ("int", "float") else "text"
    if t not in ("int", "float", "text", "string"):
        return
    cand = [["min"], ["max"], ["median"], ["mode"], ["median_abs_deviation"], ["kurtosis"], ["skewness", "kurtosis"],
            ["variance", "skewness", "kurtosis"], ["sum", "variance", "skewness", "kurtosis"],
            ["histogram_and_quantiles", "median", "mode", "median_abs_deviation"], []]
    cand += [["vocab"]] if opt == "text" else [["num_zeros"], ["num_negatives"]]
    cand += [["precision"]] if opt == "float" else []
    off = sorted(set(sum((r.choice(cand) for _ in range(r.randint(1, 2))), [])))
    if opt == "float" and "variance" in off:
        pass
    ex = {SO + opt + "." + k + ".is_enabled": False for k in off}
    ctx.note(kind=kind, off=off, cells=c[:5])
    p = util.profile(df, ex)
    if r.random() < .3 and n > 1:
        p = util.profile(df.iloc[: n // 2], ex)
        q = util.profile(df.iloc[n // 2:], ex)
        if util.rep(p)["data_stats"][0]["data_type"] == util.rep(q)["data_stats"][0]["data_type"] == t:
            p = p + q
            full = util.profile(df.iloc[: n // 2]) + util.profile(df.iloc[n // 2:])
        else:
            p = util.profile(df, ex)
    fs = _rep(full, output_format=None)["data_stats"][0]["statistics"]
    s = _rep(p, output_format=None)["data_stats"][0]["statistics"]
    rm = _rep(p, output_format=None, remove_disabled_flag=True)["data_stats"][0]["statistics"]
    gone = {k for o in off for k in FAM[o]}
    # nothing is disabled -> the flag changes nothing
    ctx.eq(set(_rep(full, output_format=None, remove_disabled_flag=True)["data_stats"][0]["statistics"]), set(fs), "off.nothing_removed")
    ctx.eq(set(s), set(fs), "off.same_keys")
    ctx.check(not (gone & set(rm)), "off.removed", lambda: f"disabled but reported: {gone & set(rm)}")
    ctx.eq(set(rm), set(fs) - gone, "off.kept", "enabled statistics stay")
    for d in (s, fs, rm):  # telling short "string" from long "text" needs the maximum length
        d["data_type_representation"] = {("text" if a == "string" else a): b for a, b in d.get("data_type_representation", {}).items()}
    for k in set(s) - gone - {"times"}:
        _same(ctx, norm(s[k]), norm(fs[k]), "off.others", f"{k} changed by disabling {off}", rel=1e-9)
        if k in rm:
            _same(ctx, norm(rm[k]), norm(s[k]), "off.others", f"{k} changed by the flag", rel=1e-9)
    for k in gone:
        v = s.get(k)
        if k in ("histogram", "precision"):
            leaf = [x for _, x in _leaves(v)] if isinstance(v, dict) else [v]
            if k == "precision":
                leaf = [x for pth, x in _leaves(v) if pth[0] not in ("confidence_level",)]
            ok = all(x is None or (isinstance(x, float) and math.isnan(x)) for x in leaf)
        elif k == "quantiles":
            ok = v is None or all(x is None for x in (v.values() if isinstance(v, dict) else v))
        elif k == "mode":
            ok = all(x != x for x in v)
        elif k in ("sum", "mean"):
            ok = v == 0 or v != v or v is None
        elif k in ("num_zeros", "num_negatives"):
            ok = v == 0
        elif k == "vocab":
            ok = not v
        else:
            ok = v is None or v != v
        ctx.check(ok, "off.neutral", lambda: f"{k} = {v!r} although disabled")
    ctx.seen("off", tuple(off), t)


def column_profiles_off(ctx):
    """whole column profiles switched off"""
    r = ctx.rng
    df, ks, _ = gen.table(r, n=r.choice([2, 12]), kinds=["int", "float", "text", "cat", "date"])
    off = r.sample(["order", "category", "int", "float", "datetime", "text"], r.randint(1, 3))
    ex = {SO + k + ".is_enabled": False for k in off}
    if "category" in off:
        ex[SO + "chi2_homogeneity.is_enabled"] = False
    ctx.note(kinds=ks, off=off)
    a, b = util.rep(util.profile(df, ex)), util.rep(util.profile(df))
    for x, y in zip(a["data_stats"], b["data_stats"]):
        ctx.check(x["data_type"] not in off, "off.type", lambda: f"{x['data_type']}")
        if y["data_type"] not in off and y["data_type"] != "string":
            ctx.eq(x["data_type"], y["data_type"], "off.type_kept")
        ctx.eq(x["order"], None if "order" in off else y["order"], "off.order")
        ctx.eq(x["categorical"], None if "category" in off else y["categorical"], "off.category")
        if "category" in off:
            ctx.check(not ({"unique_count", "categories", "categorical_count"} & set(x["statistics"])), "off.category")
        else:
            for k in ("unique_count", "unique_ratio", "categorical_count", "gini_impurity"):
                _same(ctx, norm(x["statistics"].get(k)), norm(y["statistics"].get(k)), "off.others", k)
        for k in ("null_count", "null_types", "null_types_index", "sample_size"):
            _same(ctx, norm(x["statistics"][k]), norm(y["statistics"][k]), "off.others", k)
    ctx.seen("coloff", tuple(sorted(off)), tuple(ks))


SCENARIOS = [("serializable", 3, serializable), ("flat", 2, flat), ("pretty", 3, pretty), ("omit", 4, omit), ("quantiles", 2, quantiles),
             ("disabled", 4, disabled), ("column_profiles_off", 2, column_profiles_off)]
