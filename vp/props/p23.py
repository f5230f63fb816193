"""Saved labelers come back the same; label sets and parameters change only as asked; labelers do not share state."""
import copy
import glob
import json
import fcntl
import os
import tempfile
import random
import warnings

import numpy as np
import pandas as pd

import dataprofiler as dp
from dataprofiler.labelers import data_processing as dpz
from dataprofiler.labelers.base_data_labeler import BaseDataLabeler, TrainableDataLabeler
from dataprofiler.labelers.column_name_model import ColumnNameModel
from dataprofiler.labelers.regex_model import RegexModel

from .. import core, gen, util
from . import p21, p22

PROP = "P23"
RULE = ("labelers composed of the library's processors with random parameters around pattern, column-name, character-echo and (few) real neural models: saved, loaded, "
        "saved again and used; random sequences of label and parameter edits incl. rejected ones against a model of the label mapping; pairs of labelers made from the same "
        "parameter objects; non-trivial = non-default parameters or at least one rejected edit; distinct by (components, parameters / edit sequence)")
CASES = {"quick": 1500, "thorough": 12000}
REQUIRED = ["chk.io.params", "chk.io.labels", "chk.io.pred", "chk.io.files", "chk.io.equal", "chk.io.self", "chk.map.mapping", "chk.map.reject", "chk.map.views", "chk.par.set", "chk.par.reject",
            "chk.par.copy", "chk.own.apart", "chk.net.pred", "chk.net.io", "chk.net.relabel", "chk.own.caller"]
CASE_TIMEOUT = 240


def regex_parts(r):
    names = ["A", "B", "C"]
    lm = p22.mapping(r, names)
    pats = {n: r.sample(p22.PATS, r.randint(0, 3)) for n in names if r.random() < .9}
    params = {"regex_patterns": pats, "ignore_case": r.random() < .5}
    if r.random() < .5:
        params["encapsulators"] = {"start": r"(?<![\w.])", "end": r"(?=\W|$)"}
    k = max(lm.values()) + 1
    order = r.sample(range(k), k)
    post = r.choice([lambda: dpz.RegexPostProcessor("split"), lambda: dpz.RegexPostProcessor("priority", r.choice([order, np.array(order)])),
                     lambda: dpz.RegexPostProcessor("random", random_state=r.choice([3, None])), lambda: dpz.StructRegexPostProcessor(random_state=r.choice([5, None]))])()
    return "regex", dpz.DirectPassPreprocessor(), RegexModel(lm, params), post, [s or "q" for s in (p22.words(r) for _ in range(r.randint(1, 5)))]


def column_parts(r):
    tp = [{"attribute": a, "label": l} for a, l in r.sample([("ssn", "ssn"), ("suffix", "name"), ("home address", "address"), ("zip", "address")], r.randint(1, 4))]
    fp = None if r.random() < .3 else [{"attribute": "contract_number", "label": "ssn"}]
    params = {"true_positive_dict": tp, "false_positive_dict": fp, "negative_threshold_config": r.choice([50, 80]), "positive_threshold_config": r.choice([60, 85]), "include_label": True}
    return ("column", dpz.DirectPassPreprocessor(), ColumnNameModel({"ssn": 1, "name": 2, "address": 3}, params), dpz.ColumnNameModelPostprocessor(),
            r.sample(["SSN", "suffixes", "zip code", "contract number", "home addres", "zip", "foo"], r.randint(1, 5)))


def char_parts(r):
    ml = r.choice([10, 20, 3400])
    sep = r.choice([" ", "\x01", "|"])
    pre = dpz.CharPreprocessor(max_length=ml, flatten_split=r.choice([0, 1]), flatten_separator=sep, is_separate_at_max_len=r.random() < .5)
    post = dpz.CharPostprocessor(flatten_separator=sep, use_word_level_argmax=r.random() < .5, output_format=r.choice(["ner", "character_argmax"]),
                                 word_level_min_percent=r.choice([.5, .75]), separators=r.choice([(" ", ","), [" "], (" ", ",", ";", "'", '"', ":", "\n", "\t", ".")]))
    return "char", pre, p21.EchoModel(), post, [p21.text(r, 20) for _ in range(r.randint(1, 6))]


def cell_parts(r):
    ml = r.choice([10, 20, 3400])
    sep = r.choice(["\x01" * 5, "\x01", "|"])
    pre = dpz.StructCharPreprocessor(max_length=ml, flatten_separator=sep, is_separate_at_max_len=r.random() < .5)
    post = dpz.StructCharPostprocessor(flatten_separator=sep, is_pred_labels=r.random() < .7, random_state=r.choice([None, 7, random.Random(2)]))
    return "cell", pre, p21.EchoModel(), post, [p21.text(r, 20) for _ in range(r.randint(1, 6))]


PARTS = [regex_parts, column_parts, char_parts, cell_parts]


def norm(x):
    if isinstance(x, random.Random):
        return ("rng", x.getstate())
    if isinstance(x, dpz.BaseDataProcessor):
        return norm(x.get_parameters())
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return [norm(v) for v in x.tolist()]
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, (np.floating, float)):
        return "nan" if x != x else float(x)
    if isinstance(x, np.integer):
        return int(x)
    return x


def state(L):
    return {"pre": (type(L.preprocessor).__name__, norm(L.preprocessor.get_parameters())), "model": (type(L.model).__name__, norm(L.model.get_parameters())),
            "post": (type(L.postprocessor).__name__, norm(L.postprocessor.get_parameters())), "map": dict(L.label_mapping)}


def pred(L, data, sc):
    return norm(L.predict(list(data), predict_options=dict(show_confidences=sc), verbose=False))


def files(d):
    out = {}
    for p in sorted(glob.glob(d + "/*.json")):
        out[os.path.basename(p)] = json.load(open(p))
    return out


def sc_io(ctx):
    r = ctx.rng
    name, pre, model, post, data = r.choice(PARTS)(r)
    trainable = name in ("char", "cell") and r.random() < .5
    L = (TrainableDataLabeler if trainable else BaseDataLabeler).load_with_components(pre, model, post)
    sc = r.random() < .5
    warm = r.randint(0, 2)
    for _ in range(warm):
        pred(L, data, sc)
    d = os.path.join(ctx.tmpdir(), f"l{r.randrange(10**9)}")
    os.makedirs(d)
    before = state(L)
    ctx.note(kind=name, state=str(before)[:800], data=data, trainable=trainable, warm=warm)
    ctx.seen(("io", name, str(before["pre"]), str(before["post"])[:200], str(before["model"])[:300], tuple(data)), True)
    L.save_to_disk(d)
    ctx.check(state(L) == before, "io.self", "saving changed the labeler")
    M = r.choice([lambda: BaseDataLabeler.load_from_disk(d), lambda: dp.DataLabeler.load_from_disk(d), lambda: dp.DataLabeler.load_from_disk(d, trainable=trainable)])()
    after = state(M)
    for k in ("pre", "model", "post"):
        ctx.eq(after[k], before[k], "io.params", f"{k} of the loaded labeler")
    ctx.eq(after["map"], before["map"], "io.labels", "label mapping of the loaded labeler")
    ctx.eq(M.labels, L.labels, "io.labels", "labels of the loaded labeler")
    ctx.check((M == L) is True and (L == M) is True and not (M != L), "io.equal", "the loaded labeler does not equal the saved one")
    for _ in range(2):
        a, b = pred(L, data, sc), pred(M, data, sc)
        ctx.check(a == b, "io.pred", f"predictions differ after loading: {a} / {b}")
    d2 = d + "b"
    os.makedirs(d2)
    M2 = BaseDataLabeler.load_from_disk(d)
    M2.save_to_disk(d2)
    ctx.eq(files(d2), files(d), "io.files", "files written by a loaded labeler")


def sc_map(ctx):
    """label edits against a model of the mapping"""
    r = ctx.rng
    kind = r.choice(["regex", "echo", "column"])
    start = {"UNKNOWN": 1, "A": 2, "B": 3} if r.random() < .6 else ["UNKNOWN", "A", "B", "C"]
    zero = kind == "echo"

    def conv(x):
        if isinstance(x, dict):
            return dict(x)
        return {l: i + (0 if zero else 1) for i, l in enumerate(x)}
    model = {"regex": lambda: RegexModel(copy.deepcopy(start), {}), "echo": lambda: p21.EchoModel(copy.deepcopy(start) if isinstance(start, dict) else conv(start)),
             "column": lambda: ColumnNameModel(copy.deepcopy(start), {"true_positive_dict": [{"attribute": "a", "label": "A"}], "positive_threshold_config": 80})}[kind]()
    L = BaseDataLabeler.load_with_components(dpz.DirectPassPreprocessor(), model, dpz.RegexPostProcessor())
    want = conv(start)
    given = None
    log = []
    rejected = 0
    for _ in range(r.randint(2, 10)):
        op = r.choice(["add", "add", "same", "dup", "setl", "setd", "bad", "badsame", "badset", "mutate"])
        w = None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if op == "add":
                    l = f"L{r.randint(0, 5)}"
                    L.add_label(l)
                    if l not in want:
                        want[l] = max(want.values()) + 1
                elif op == "same":
                    l, s = f"L{r.randint(0, 9)}", r.choice(list(want))
                    L.add_label(l, same_as=s)
                    want.setdefault(l, want[s])
                elif op == "dup":
                    L.add_label(r.choice(list(want)), same_as=r.choice([None, r.choice(list(want))]))
                elif op == "setl":
                    x = ["UNKNOWN"] + [f"S{i}" for i in r.sample(range(9), r.randint(0, 4))]
                    given = x
                    L.set_labels(x)
                    want = conv(x)
                elif op == "setd":
                    x = {"UNKNOWN": 1, **{f"D{i}": r.randint(0, 9) for i in range(r.randint(0, 4))}}
                    given = x
                    L.set_labels(x)
                    want = dict(x)
                elif op == "bad":
                    w = r.choice([None, "", 5, ["x"]])
                    L.add_label(w)
                    ctx.check(False, "map.reject", f"adding the label {w!r} was accepted")
                elif op == "badsame":
                    w = r.choice(["no such label", 4])
                    L.add_label("NEW", same_as=w)
                    ctx.check(False, "map.reject", f"same_as={w!r} was accepted")
                elif op == "badset":
                    w = r.choice([[], {}, None, "A", ("A", "B")])
                    L.set_labels(w)
                    ctx.check(False, "map.reject", f"the labels {w!r} were accepted")
                elif op == "mutate":
                    # what the caller passed in or got back is his own
                    if isinstance(given, list):
                        given.append("ZZ")
                    elif isinstance(given, dict):
                        given["ZZ"] = 77
                    L.label_mapping["YY"] = 99
                    L.reverse_label_mapping[99] = "YY"
                    L.labels.append("YY")
                    L.model.get_parameters()["label_mapping"]["YY"] = 99
        except (TypeError, ValueError) as e:
            if op not in ("bad", "badsame", "badset"):
                raise
            rejected += 1
            ctx.count("chk.map.reject")
        log.append((op, w))
        if not ctx.check(L.label_mapping == want, "map.mapping", f"after {log}: {L.label_mapping}, expected {want}"):
            return
        ctx.check(L.model.label_mapping == want and L.model.get_parameters(["label_mapping"])["label_mapping"] == want, "map.views", f"after {log}: views of the mapping differ")
        rev = L.reverse_label_mapping
        ctx.check(set(rev) == set(want.values()) and all(want[l] == i for i, l in rev.items()), "map.views", f"reverse mapping {rev} of {want}")
        ctx.check(L.labels == [rev[i] for i in sorted(rev)] and L.model.num_labels == max(want.values()) + 1, "map.views", f"labels {L.labels}, number {L.model.num_labels} of {want}")
    ctx.note(kind=kind, start=str(start), log=log)
    ctx.seen(("map", kind, str(log)), rejected > 0)


SETS = {
    "CharPreprocessor": ([("max_length", 7), ("max_length", 500), ("flatten_split", .5), ("flatten_separator", "||"), ("default_label", "BG"), ("pad_label", "P"), ("is_separate_at_max_len", True)],
                         [("max_length", 0), ("max_length", "a"), ("flatten_split", 2), ("flatten_split", float("nan")), ("flatten_separator", 3), ("default_label", None), ("nope", 1), ("is_separate_at_max_len", 1)]),
    "CharPostprocessor": ([("use_word_level_argmax", True), ("output_format", "ner"), ("separators", [" "]), ("word_level_min_percent", .1), ("flatten_separator", "##")],
                          [("use_word_level_argmax", 1), ("output_format", "xml"), ("separators", "abc"), ("word_level_min_percent", 3), ("flatten_separator", None), ("nope", 1)]),
    "StructCharPreprocessor": ([("max_length", 9), ("flatten_separator", "@@"), ("default_label", "BG"), ("is_separate_at_max_len", True)],
                               [("max_length", -1), ("flatten_separator", 1), ("is_separate_at_max_len", "x"), ("nope", 0)]),
    "StructCharPostprocessor": ([("default_label", "BG"), ("flatten_separator", "@@"), ("is_pred_labels", False)], [("default_label", 1), ("is_pred_labels", 0), ("random_state", "x"), ("nope", 1)]),
    "RegexModel": ([("ignore_case", True), ("ignore_case", False), ("encapsulators", {"start": r"\b", "end": ""}), ("regex_patterns", {"A": ["x+"]}), ("default_label", "A")],
                   [("ignore_case", 2), ("encapsulators", {"start": ""}), ("regex_patterns", {"NOLABEL": ["x"]}), ("regex_patterns", {"A": ["("]}), ("regex_patterns", {"A": "x"}), ("regex_patterns", []),
                    ("default_label", 4), ("nope", 1)]),
    "RegexPostProcessor": ([("aggregation_func", "random"), ("aggregation_func", "split"), ("priority_order", [1, 0])], [("aggregation_func", "sum"), ("aggregation_func", 1), ("priority_order", "ab"), ("random_state", 5), ("nope", 1)]),
    "ColumnNameModel": ([("positive_threshold_config", 40), ("negative_threshold_config", 30), ("true_positive_dict", [{"attribute": "zip", "label": "name"}]), ("include_label", True)],
                        [("positive_threshold_config", "a"), ("positive_threshold_config", None), ("true_positive_dict", {}), ("include_label", 1), ("nope", 1)]),
}


def sc_par(ctx):
    r = ctx.rng
    name, pre, model, post, data = r.choice(PARTS)(r)
    L = BaseDataLabeler.load_with_components(pre, model, post)
    want = state(L)
    log = []
    rej = 0
    for _ in range(r.randint(1, 6)):
        where = r.choice([w for w, o in (("preprocessor", pre), ("model", model), ("postprocessor", post)) if type(o).__name__ in SETS] or ["preprocessor"])
        obj = {"preprocessor": pre, "model": model, "postprocessor": post}[where]
        good, bad = SETS.get(type(obj).__name__, ([], []))
        if not good:
            break
        vals = dict(r.sample(good, r.randint(1, 2)))
        isbad = r.random() < .4
        if isbad:
            vals = dict(list(vals.items()) + [r.choice(bad)])
        if type(obj).__name__ == "RegexPostProcessor" and obj.get_parameters()["aggregation_func"] == "priority" and "aggregation_func" in vals:
            continue
        via = r.random() < .5
        log.append((where, sorted(vals), isbad))
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if via:
                    L.set_params({where: copy.deepcopy(vals)})
                else:
                    obj.set_params(**copy.deepcopy(vals))
            if not ctx.check(not isbad, "par.reject", f"the parameters {vals} of {type(obj).__name__} were accepted"):
                return
            k = {"preprocessor": "pre", "model": "model", "postprocessor": "post"}[where]
            want[k][1].update(norm(vals))
        except ValueError as e:
            if not isbad:
                ctx.check(False, "par.set", f"the parameters {vals} of {type(obj).__name__} were rejected: {e}")
                return
            rej += 1
            ctx.count("chk.par.reject")
        if not ctx.check(state(L) == want, "par.set", f"after {log}: parameters {state(L)}, expected {want}"):
            return
        # parameters handed out are copies
        g = obj.get_parameters()
        for v in g.values():
            if isinstance(v, list):
                v.append("junk")
            elif isinstance(v, dict):
                v["junk"] = 1
        g["junk"] = 1
        ctx.check(state(L) == want, "par.copy", "editing the parameters handed out changed the labeler")
        one = r.choice(sorted(obj.get_parameters()))
        ctx.check(norm(obj.get_parameters([one])) == {one: norm(obj.get_parameters()[one])}, "par.get", f"get_parameters([{one!r}])")
    ctx.note(kind=name, log=log)
    ctx.seen(("par", name, str(log)), rej > 0)


def sc_own(ctx):
    """two labelers made from the same objects stay apart; the caller's objects stay as they were"""
    r = ctx.rng
    if r.random() < .5:
        lm = {"UNKNOWN": 1, "A": 2}
        params = {"regex_patterns": {"A": ["x+", "y"]}, "ignore_case": True}
        make = lambda: RegexModel(lm, params)
        edit = lambda m: m.set_params(ignore_case=False, regex_patterns={"A": ["q"]})
    else:
        lm = {"ssn": 1, "name": 2}
        params = {"true_positive_dict": [{"attribute": "ssn", "label": "ssn"}], "positive_threshold_config": 80}
        make = lambda: ColumnNameModel(lm, params)
        edit = lambda m: m.set_params(true_positive_dict=[{"attribute": "x", "label": "name"}], positive_threshold_config=20)
    p0, l0 = copy.deepcopy(params), copy.deepcopy(lm)
    a, b = make(), make()
    ctx.note(kind=type(a).__name__)
    ctx.seen(("own", type(a).__name__, r.randrange(20)), True)
    sa = norm(a.get_parameters())
    what = r.choice(["params", "labels", "caller"])
    if what == "params":
        edit(b)
        ctx.check(norm(a.get_parameters()) == sa, "own.apart", "setting parameters of one model changed another made from the same parameters")
    elif what == "labels":
        b.add_label("NEW")
        ctx.check(norm(a.get_parameters()) == sa, "own.apart", "adding a label to one model changed another")
    else:
        params["junk"] = 1
        lm["junk"] = 9
        ctx.check(norm(a.get_parameters()) == sa, "own.apart", "the caller's later edits of his dict changed the model")
        params.pop("junk")
        lm.pop("junk")
    ctx.check(params == p0 and lm == l0, "own.caller", f"the caller's parameters became {params}")


def sc_net(ctx):
    # constructing such a model rewrites its embedding file beside the package: one at a time
    with open(os.path.join(tempfile.gettempdir(), "vp_p23_net.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        _net(ctx)


def _net(ctx):
    """the neural character model: predictions do not depend on batching, survive saving, and relabelling is refused without training"""
    import tensorflow as tf
    from dataprofiler.labelers.character_level_cnn_model import CharacterLevelCnnModel
    r = ctx.rng
    tf.random.set_seed(r.randrange(10**6))
    ml = r.choice([12, 20])
    lm = {"PAD": 0, "UNKNOWN": 1, "A": 2, "B": 3}
    m = CharacterLevelCnnModel(dict(lm), {"max_length": ml, "dim_embed": 64, "size_fc": [8], "num_fil": [6], "size_conv": 3, "dropout": 0.0})
    struct = r.random() < .5
    sep = "\x01" * 5 if struct else " "
    pre = (dpz.StructCharPreprocessor if struct else dpz.CharPreprocessor)(max_length=ml, flatten_separator=sep)
    post = dpz.StructCharPostprocessor(random_state=1) if struct else dpz.CharPostprocessor()
    L = TrainableDataLabeler.load_with_components(pre, m, post)
    data = [p21.text(r, ml).replace("\x00", "") or "a" for _ in range(r.randint(1, 12))]
    ctx.note(kind="net", struct=struct, data=data, ml=ml)
    ctx.seen(("net", struct, ml, tuple(data)), True)
    ctx.raises(lambda: L.predict(list(data), verbose=False), ValueError, "net.untrained")
    m.reset_weights()
    base = L.predict(list(data), batch_size=32, predict_options=dict(show_confidences=True), verbose=False)
    if not struct:
        for i, s in enumerate(data):
            c = np.asarray(base["conf"][i], dtype=float)
            if not ctx.check(c.shape == (len(s), 4) and np.allclose(c.sum(axis=1), 1, atol=1e-4), "net.conf", f"confidences of shape {c.shape} for {len(s)} characters"):
                return
            srt = np.sort(c, axis=1)
            sure = srt[:, -1] - srt[:, -2] > 1e-4
            ctx.check((np.asarray(base["pred"][i])[sure] == c.argmax(axis=1)[sure]).all(), "net.argmax", f"labels of {s!r} are not those of the highest confidence")
    for bs in r.sample([1, 2, 3, 5, 7], 2):
        o = L.predict(list(data), batch_size=bs, predict_options=dict(show_confidences=True), verbose=False)
        if struct:
            # flattening is the same for every batch size, so are the characters' labels
            ctx.check(np.allclose(o["conf"], base["conf"], atol=1e-6), "net.pred", f"confidences differ with batch size {bs}")
        else:
            ctx.check(all(np.allclose(a, b, atol=1e-4) for a, b in zip(o["conf"], base["conf"])), "net.pred", f"confidences differ with batch size {bs}")
    d = os.path.join(ctx.tmpdir(), f"n{r.randrange(10**9)}")
    os.makedirs(d)
    L.save_to_disk(d)
    M = BaseDataLabeler.load_from_disk(d)
    o = M.predict(list(data), predict_options=dict(show_confidences=True), verbose=False)
    ctx.check(M == L, "net.io", "the loaded labeler does not equal the saved one")
    ctx.check(all(np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), atol=1e-4) for a, b in zip(o["conf"], base["conf"])), "net.io", "confidences differ after saving and loading")
    L.add_label("NEW")
    ctx.raises(lambda: L.predict(list(data), verbose=False), RuntimeError, "net.relabel")
    L.set_labels(dict(lm))
    o = L.predict(list(data), predict_options=dict(show_confidences=True), verbose=False)
    ctx.check(all(np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), atol=1e-6) for a, b in zip(o["conf"], base["conf"])), "net.relabel", "predictions differ after undoing a label edit")
    L.add_label("TWIN", same_as="A")
    o = L.predict(list(data), predict_options=dict(show_confidences=True), verbose=False)
    ctx.check(all(np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), atol=1e-6) for a, b in zip(o["conf"], base["conf"])), "net.relabel", "predictions differ after adding a synonym")


SCENARIOS = [("save-load", 40, sc_io), ("labels", 40, sc_map), ("parameters", 40, sc_par), ("independence", 10, sc_own), ("network", 1, sc_net)]
