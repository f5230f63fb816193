"""Options: paths set what they name, validation accepts exactly the documented values, valid options never make profiling fail."""
import copy
import re
import warnings

import pandas as pd

import dataprofiler as dp
from dataprofiler.profilers.profiler_options import BaseOption

from .. import core, gen, util

PROP = "P27"
RULE = ("random option trees reached by setting random full, partial and wildcard paths to documented and undocumented values; the tree is "
        "compared leaf by leaf with a model of what the path names, the verdict of the validation with the documented value ranges, and "
        "accepted trees are used to profile tables or texts; non-trivial = at least one leaf differs from its default; distinct by "
        "(scenario, paths, verdict)")
CASES = {"quick": 900, "thorough": 12000}
REQUIRED = ["chk.set.tree", "chk.set.fresh", "chk.set.unknown", "chk.set.overlap", "chk.valid.verdict", "chk.valid.raises",
            "chk.valid.pure", "chk.valid.named", "chk.valid.rejected", "chk.use.report", "chk.use.options_kept", "chk.eq.same", "chk.eq.differs",
            "chk.preset.tree", "bad", "good"]
S, U = "structured_options.", "unstructured_options."


def leaves(o, pre=""):
    out = {}
    for k, v in vars(o).items():
        if isinstance(v, BaseOption):
            out.update(leaves(v, pre + k + "."))
        else:
            out[pre + k] = v
    return out


def tree(o):
    return {k: tree(v) if isinstance(v, BaseOption) else v for k, v in vars(o).items()}


NUM = ("int", "float", "text")
NUM_STATS = ["min", "max", "mode", "median", "sum", "variance", "skewness", "kurtosis", "median_abs_deviation", "num_zeros", "num_negatives",
             "histogram_and_quantiles"]


def model_set(t, parts, value, star=False, name=None):
    """What a path names: at every level the option of that name or else, everywhere below, the outermost ones."""
    if parts[0] == "*":
        star, parts = True, parts[1:]
    k = parts[0]
    if k in t:
        if isinstance(t[k], dict) and "__leaf__" not in t[k] and k not in ("null_values", "column_null_values"):
            model_set(t[k], parts[1:], value, False, k)
        else:
            t[k] = value
    elif k == "is_numeric_stats_enabled" and "histogram_and_quantiles" in t:
        for s in NUM_STATS:
            if name == "text" and s in ("num_zeros", "num_negatives"):
                continue
            t[s]["is_enabled"] = value
    elif len(parts) == 1 and not star:
        raise KeyError(k)
    else:
        for c, v in t.items():
            if isinstance(v, dict) and c not in ("null_values", "column_null_values"):
                model_set(v, parts, value, star, c)


# documented values per leaf: (good values, bad values)
BOOL = ([True, False], ["True", 1, 0, None, "no", 2.5])
VALUES = {
    "is_enabled": BOOL,
    "bin_count_or_method": ([1, 2, 30, "auto", "fd", "doane", "scott", "rice", "sturges", "sqrt", ["auto"], ["fd", "sqrt"]],
                            [0, -3, 2.5, "best", [], ["auto", "best"], ["auto", 3], {"auto": 1}, ("auto", "fd")]),
    "num_quantiles": ([1, 4, 100, 1000], [0, -4, 2.5, "4", [4]]),
    "top_k_modes": ([1, 5, 20, None], [0, -1, 2.5, "5"]),
    "sample_ratio": ([None, .1, .5, 1.0, 1], [-.1, 1.1, 2, "half", [.5]]),
    "top_k_categories": ([None, 1, 10], [0, -1, 1.5, "3"]),
    "cms_confidence": ([.5, .9, .95, .999], [-.1, 1.5, "high", 2]),
    "cms_relative_error": ([.001, .01, .5], [-.1, 1.5, "low", 3]),
    "columns": ([None, ["a", "b"], ["a", "b", "nope"]], [[], ["a"], "ab", ["a", 1], ("a", "b"), 4]),
    "seed": ([0, 5, 123], ["0", 1.5, None]),
    "register_count": ([4, 8, 15], [0, -1, "8", 2.5, None]),
    "hashing_method": (["full", "hll"], ["md5", "", None, 5, "HLL"]),
    "max_sample_size": ([None, 1, 50], [0, -5, "5", 1.5]),
    "data_labeler_dirpath": ([None], [5, ["x"]]),
    "data_labeler_object": ([None], ["labeler", 5]),
    "is_case_sensitive": BOOL,
    "stop_words": ([None, [], ["the", "a"]], ["the", ["a", 1], {"a"}, 5]),
    "top_k_chars": ([None, 1, 10], [0, -1, 1.5, "3"]),
    "top_k_words": ([None, 1, 10], [0, -1, 1.5, "3"]),
    "null_values": ([None, {}, {"": 0, "nil": re.IGNORECASE}, {"x.*": 0, "-+": re.RegexFlag(0)}],
                    [["nil"], "nil", {1: 0}, {"nil": "i"}, {"nil": 5}, {"nil": None}]),
    "column_null_values": ([None, {}, {0: {"a": 0}}, {1: {"b": re.IGNORECASE, "": 0}, 0: {}}],
                           [[{"a": 0}], {"0": {"a": 0}}, {0: ["a"]}, {0: {"a": 5}}, {0: {3: 0}}, {0: None}]),
    "sampling_ratio": ([.05, .2, 1.0, 1], [None, 0, 0.0, -.5, 1.01, 5, "0.2"]),
}
PAIR = [S + "category.max_sample_size_to_check_stop_condition", S + "category.stop_condition_unique_value_ratio"]


def _leaf(r, paths):
    """a random leaf with a random value and whether it is documented"""
    p = r.choice(paths)
    k = p.rsplit(".", 1)[1]
    ok = r.random() < .6
    return p, copy.deepcopy(r.choice(VALUES[k][0 if ok else 1])), ok


def _settable(base):
    return [p for p in base if p.rsplit(".", 1)[-1] in VALUES]


def _fix_deps(r, o):
    """turn off what cannot work without something disabled"""
    s = o.structured_options
    for t in NUM:
        x = getattr(s, t)
        en = lambda k: getattr(x, k).is_enabled
        if not en("histogram_and_quantiles"):
            for k in ("median", "mode", "median_abs_deviation"):
                getattr(x, k).is_enabled = False
        if not en("sum"):
            x.variance.is_enabled = False
        if not en("variance"):
            x.skewness.is_enabled = False
        if not en("skewness"):
            x.kurtosis.is_enabled = False
    s.text.num_zeros.is_enabled = s.text.num_negatives.is_enabled = False
    if not s.category.is_enabled:
        s.chi2_homogeneity.is_enabled = False


def _verdict(o):
    """documented validity: set of offending leaf names / dependency tags"""
    bad = set()
    lv = leaves(o)
    for p, v in lv.items():
        k = p.rsplit(".", 1)[-1]
        if k in VALUES:
            good = VALUES[k][0]
            if not any(type(v) is type(g) and v == g for g in good) and not (v == 0.2 or v is None and k == "sample_ratio"):
                bad.add(p)
    en = lambda p: lv[p + ".is_enabled"] is True or (lv[p + ".is_enabled"] not in (True, False) and bool(lv[p + ".is_enabled"]))
    for t in NUM:
        b = S + t + "."
        if not en(b + "sum") and en(b + "variance") or (not en(b + "variance") or not en(b + "sum")) and en(b + "skewness") \
                or (not en(b + "skewness") or not en(b + "sum") or not en(b + "variance")) and en(b + "kurtosis"):
            bad.add("dep." + t)
        if not en(b + "histogram_and_quantiles") and (en(b + "median") or en(b + "mode") or en(b + "median_abs_deviation")):
            bad.add("dep." + t)
    for k in ("num_zeros", "num_negatives"):
        if en(S + "text." + k):
            bad.add("dep.text." + k)
    if not en(S + "category") and en(S + "chi2_homogeneity"):
        bad.add("dep.chi2")
    a, b = lv[PAIR[0]], lv[PAIR[1]]
    if (a is None) != (b is None):
        bad.add("dep.stop")
    return bad


def _snap(o):
    return {k: (type(v).__name__, repr(v)) for k, v in leaves(o).items()}


def set_paths(ctx):
    r = ctx.rng
    o = dp.ProfilerOptions()
    base = leaves(o)
    paths = _settable(base)
    want = tree(o)
    used = []
    for _ in range(r.randint(1, 6)):
        p = r.choice(paths)
        parts = p.split(".")
        val = r.choice([True, False, 7, "v", [1, 2], None])
        kind = r.choice(["full", "full", "partial", "star", "group", "numstats"])
        if kind == "partial":
            parts = parts[r.randrange(len(parts) - 1):]
        elif kind == "star":
            parts = ["*"] + parts[r.randrange(len(parts)):]
        elif kind == "group":
            parts = ["*", "is_enabled"]
        elif kind == "numstats":
            parts = [S[:-1], r.choice(NUM), "is_numeric_stats_enabled"]
            if r.random() < .3:
                parts = ["*", parts[2]]
            val = r.choice([True, False])
        key = ".".join(parts)
        if parts[0] not in ("*", S[:-1], U[:-1]) and any(x in key for x in ("data_labeler_object", "data_labeler_dirpath", "text.is_enabled",
                                                                           "text.vocab")):
            before = _snap(o)
            ctx.raises(lambda: o.set({key: val}), ValueError, "set.overlap")
            ctx.eq(_snap(o), before, "set.overlap_state")
            continue
        if len(parts) == 1 and parts[0] not in want:
            continue
        try:
            model_set(want, parts, val)
        except KeyError:  # names an option which some of the addressed ones do not have
            ctx.raises(lambda: o.set({key: val}), AttributeError, "set.partly_unknown")
            return
        o.set({key: val})
        used.append((key, val))
        ctx.eq(tree(o), want, "set.tree", f"after {used}")
    ctx.eq(_snap(dp.ProfilerOptions()), {k: (type(v).__name__, repr(v)) for k, v in base.items()}, "set.fresh", "a new options object has other defaults")
    bad = r.choice(["nope", S + "nope", S + "int.nope", S + "int.min.nope", U + "text.nope", S + "int.min.is_enabled.nope"])
    before = _snap(o)
    ctx.raises(lambda: o.set({bad: True}), AttributeError, "set.unknown")
    ctx.eq(_snap(o), before, "set.unknown_state", bad)
    ctx.raises(lambda: o.set([bad]), ValueError, "set.not_dict")
    ctx.seen(ctx.scenario, tuple(k for k, _ in used))


def _random(r, n_bad=None, prob=.6):
    o = dp.ProfilerOptions()
    paths = _settable(leaves(o))
    special = [p for p in paths if not p.endswith("is_enabled")]
    chosen = {}
    for _ in range(r.randint(1, 5)):
        p, v, ok = _leaf(r, r.choice([paths, special]))
        chosen[p] = (v, ok)
    if r.random() < .3:
        a = r.choice([(5, .5), (0, 0.0), (1000, 1.0), (20, .25)])
        if r.random() < .25:
            a = r.choice([(5, None), (None, .5)])
        chosen[PAIR[0]], chosen[PAIR[1]] = (a[0], True), (a[1], True)
    if r.random() < .3:
        chosen[S + "category.cms"] = (True, True)
        chosen[S + "category.cms_max_num_heavy_hitters"] = (r.choice([1, 10, 500]), True)
    return o, chosen


def _apply(o, path, v):
    x = o
    *pre, k = path.split(".")
    for q in pre:
        x = getattr(x, q)
    setattr(x, k, v)


def validate(ctx):
    r = ctx.rng
    o, chosen = _random(r)
    for p, (v, ok) in chosen.items():
        if r.random() < .5:
            o.set({p: v})
        else:
            _apply(o, p, v)
    if r.random() < .6:
        mine = {p: v for p, (v, ok) in chosen.items() if not ok}
        _fix_deps(r, o)
        for p, v in mine.items():
            _apply(o, p, v)
    want = _verdict(o)
    before = _snap(o)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        err = o.validate(raise_error=False)
        ctx.check(bool(err) == bool(want), "valid.verdict", lambda: f"{err} but documented problems {want}; set {chosen}")
        ctx.eq(_snap(o), before, "valid.pure")
        if want:
            ctx.count("bad")
            ctx.raises(lambda: o.validate(), ValueError, "valid.raises")
            text = "\n".join(err or [])
            for p in want:
                if not p.startswith("dep."):
                    k = p.split(".")
                    # the message names the option: the last component (documented messages say e.g. full_hashing for the hashing method)
                    name = {"hashing_method": "hashing"}.get(k[-1], k[-1])
                    ctx.check(name in text, "valid.named", lambda: f"{p} not named in {text}")
            ctx.raises(lambda: dp.Profiler(pd.DataFrame({"a": ["1", "2"]}), options=o, profiler_type="structured")
                       if any(not p.startswith(U) for p in want) else dp.Profiler("some text", options=o, profiler_type="unstructured"),
                       ValueError, "valid.rejected")
        else:
            ctx.count("good")
            ctx.eq(o.validate(), None, "valid.accepts")
    ctx.seen(ctx.scenario, tuple(sorted(chosen)), bool(want))


def use(ctx):
    """valid options never make profiling fail, and profiling does not edit them"""
    r = ctx.rng
    o, chosen = _random(r)
    for p, (v, ok) in list(chosen.items()):
        if not ok:
            k = p.rsplit(".", 1)[1]
            v = copy.deepcopy(r.choice(VALUES[k][0]))
        if p.endswith("data_labeler.is_enabled") or "multiprocess" in p:
            v = False
        chosen[p] = v
        _apply(o, p, v)
    o.structured_options.data_labeler.is_enabled = o.unstructured_options.data_labeler.is_enabled = False
    o.structured_options.multiprocess.is_enabled = False
    _fix_deps(r, o)
    if o.structured_options.correlation.is_enabled or o.structured_options.null_replication_metrics.is_enabled:
        for t in NUM:  # these need the moments
            for k in ("sum", "variance"):
                getattr(getattr(o.structured_options, t), k).is_enabled = True
    want = _verdict(o)
    if want:
        raise core.Skip()
    before = _snap(o)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if r.random() < .8:
            df = gen.table(r, n=r.choice([1, 3, 30, 80]), ncols=r.randint(1, 3))[0]
            df.columns = list("abc")[:df.shape[1]]
            p = dp.Profiler(df, options=o, profiler_type="structured", min_true_samples=0)
            if r.random() < .6:
                p.update_profile(df.sample(frac=1, random_state=r.randrange(1000)))
            if r.random() < .4:
                o2 = copy.deepcopy(o)
                p = p + dp.Profiler(df, options=o2, profiler_type="structured", min_true_samples=0)
            rep = p.report({"output_format": r.choice([None, "pretty", "compact", "serializable", "flat"]),
                            "remove_disabled_flag": r.random() < .3})
            if r.random() < .3:
                p.diff(p)
        else:
            p = dp.Profiler([" ".join(gen.word(r) for _ in range(r.randint(1, 9))) for _ in range(r.randint(1, 20))], options=o,
                            profiler_type="unstructured")
            rep = p.report({"output_format": r.choice([None, "pretty", "compact", "serializable", "flat"])})
    ctx.check(bool(rep), "use.report")
    ctx.eq(_snap(o), before, "use.options_kept")
    ctx.seen(ctx.scenario, tuple(sorted((p, repr(v)[:20]) for p, v in chosen.items())))


def equality(ctx):
    r = ctx.rng
    o, chosen = _random(r)
    for p, (v, ok) in chosen.items():
        _apply(o, p, v)
    c = copy.deepcopy(o)
    ctx.check(o == c and c == o, "eq.same", "a copy differs")
    p = r.choice(_settable(leaves(o)))
    _apply(c, p, "another value")
    ctx.check(not (o == c), "eq.differs", p)
    ctx.check(not (dp.ProfilerOptions() == 5), "eq.type")
    ctx.check(leaves(o)[p] != "another value", "eq.copy_shares", p)
    ctx.seen(ctx.scenario, p)


def presets(ctx):
    r = ctx.rng
    name = r.choice(["complete", "data_types", "numeric_stats_disabled", "lower_memory_sketching"])
    o = dp.ProfilerOptions(presets=name)
    want = tree(dp.ProfilerOptions())
    so, uo = want[S[:-1]], want[U[:-1]]
    want["presets"] = name
    groups = [x for x in list(so.values()) + list(uo.values()) if isinstance(x, dict) and "is_enabled" in x]
    if name == "complete":
        for g in groups:
            g["is_enabled"] = True
    elif name == "data_types":
        for g in groups:
            g["is_enabled"] = False
        so["data_labeler"]["is_enabled"] = uo["data_labeler"]["is_enabled"] = True
    elif name == "numeric_stats_disabled":
        for t in NUM:
            for s in NUM_STATS:
                so[t][s]["is_enabled"] = False
    else:
        so["row_statistics"]["unique_count"]["hashing_method"] = "hll"
        so["category"]["max_sample_size_to_check_stop_condition"] = 5000
        so["category"]["stop_condition_unique_value_ratio"] = .5
    ctx.eq(tree(o), want, "preset.tree", name)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ctx.eq(o.validate(raise_error=False), None, "preset.valid", name)
        o.structured_options.data_labeler.is_enabled = False
        o.structured_options.multiprocess.is_enabled = False
        df = gen.table(r, n=r.choice([3, 30]), ncols=2)[0]
        rep = dp.Profiler(df, options=o, profiler_type="structured", min_true_samples=0).report({"output_format": None})
    ctx.eq(rep["global_stats"]["row_count"], len(df), "preset.report")
    ctx.raises(lambda: dp.ProfilerOptions(presets="nope"), ValueError, "preset.unknown")
    ctx.seen(ctx.scenario, name, len(df))


SCENARIOS = [("set", 3, set_paths), ("validate", 4, validate), ("use", 4, use), ("equality", 1, equality), ("presets", 1, presets)]
