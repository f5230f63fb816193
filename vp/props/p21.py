"""Labels come back on the characters and cells they were predicted for (character pipelines)."""
import random
import re
from collections import Counter

import numpy as np
import pandas as pd

import dataprofiler  # noqa: F401  (loads the package)
from dataprofiler.labelers import data_processing as dpz
from dataprofiler.labelers.base_data_labeler import BaseDataLabeler, TrainableDataLabeler
from dataprofiler.labelers.base_model import BaseModel, BaseTrainableModel

from .. import core, gen, util

PROP = "P21"
RULE = ("lists of cells and texts (empty, one char, exactly / just over the model length, long words, separators only, non-ASCII, control characters) sent through "
        "labelers built of the library's character preprocessors and postprocessors around a model whose label for a character is a fixed function of that "
        "character, over lengths, separators, flattening, batch sizes, output formats and containers; non-trivial = some text longer than the model length or an "
        "empty text; distinct by (pipeline, lengths, parameters)")
CASES = {"quick": 3000, "thorough": 30000}
REQUIRED = ["chk.char.pred", "chk.char.conf", "chk.char.ner", "chk.char.words", "chk.cell.label", "chk.cell.conf", "chk.cell.none", "chk.cell.tie",
            "chk.model.length", "chk.model.complete", "chk.train.char", "chk.train.cell", "chk.train.pairs", "chk.enc.chars", "chk.post.ner", "chk.post.words", "chk.post.plain", "chk.input.kept"]
LABELS = ["PAD", "UNKNOWN", "NUM", "LOW", "UP", "PUNC"]
MAP = {l: i for i, l in enumerate(LABELS)}


def lab(c):
    if c.isdigit():
        return 2
    if c.islower():
        return 3
    if c.isupper():
        return 4
    return 5 if ord(c) % 3 == 0 else 1


def conf(c):
    v = np.zeros(len(LABELS))
    v[lab(c)] = .5 + (ord(c) % 97) / 200
    v[1] += 1 - v.sum()
    return v


class EchoModel(BaseTrainableModel):
    """label of a character = fixed function of the character; records what it was given"""
    requires_zero_mapping = True

    def __init__(self, label_mapping=None, parameters=None, ml=None):
        self.max_len = ml
        self.given = []
        self.fits = []
        super().__init__(dict(label_mapping or MAP), dict(parameters or {}))

    def _validate_parameters(self, parameters):
        pass

    def _need_to_reconstruct_model(self):
        return False

    def _construct_model(self):
        pass

    _reconstruct_model = reset_weights = _construct_model

    def save_to_disk(self, dirpath):
        pass

    @classmethod
    def load_from_disk(cls, dirpath):
        return cls()

    def predict(self, data, batch_size=32, show_confidences=False, verbose=True):
        out = {"pred": []}
        if show_confidences:
            out["conf"] = []
        for batch in data:
            self.given.append([str(s[0]) for s in batch])
            for s in batch:
                t = s[0]
                out["pred"].append([lab(c) for c in t])
                if show_confidences:
                    out["conf"].append(np.array([conf(c) for c in t]).reshape(len(t), len(LABELS)))
        return out

    def fit(self, train_data, val_data, batch_size=None, epochs=None, label_mapping=None, reset_weights=False, verbose=True):
        self.fits.append(([(np.array(x), np.array(y)) for x, y in train_data],
                          None if val_data is None else [(np.array(x), np.array(y)) for x, y in val_data]))
        return {}, None, {}


ALPHA = "abcXYZ0189 ,.-_é日😀ß\t;" * 3 + "\x00"


def text(r, ml, empty=.1):
    p = r.random()
    if p < empty:
        return ""
    if p < .25:
        return r.choice(ALPHA)
    if p < .35:
        return "".join(r.choice(" ,;\t\n") for _ in range(r.randint(1, ml + 3)))
    if p < .5:
        n = r.choice([ml - 1, ml, ml + 1, 2 * ml, 2 * ml + 1])
        return "".join(r.choice("abX09") for _ in range(max(n, 1)))
    n = r.choice([r.randint(1, 6), r.randint(1, ml), r.randint(1, 3 * ml)])
    w = []
    while sum(map(len, w)) + len(w) < n:
        w.append("".join(r.choice(ALPHA.replace(" ", "")) for _ in range(r.randint(1, 7))))
    return r.choice([" ", ",", "\n", " "]).join(w)[:n] or "a"


def contain(r, vals):
    k = r.choice(["list", "array", "series", "frame", "list"])
    if not vals:
        k = "list"
    if k == "list":
        return k, list(vals)
    if k == "array":
        return k, np.array(vals, dtype=object)
    if k == "series":
        return k, pd.Series(vals, dtype=object, index=r.sample(range(1000), len(vals)))
    return k, pd.DataFrame({"c": pd.Series(vals, dtype=object)})


def texts(r, ml):
    n = r.choice([0, 1, 1, 2, 3, r.randint(2, 12), r.randint(5, 40), r.randint(5, 40)])
    return [text(r, ml) for _ in range(n)]


def ckeep(ctx, box, vals):
    back = list(np.asarray(box, dtype=object).reshape(-1))
    ctx.check(back == list(vals), "input.kept", f"the data given to predict changed: {back[:3]} for {vals[:3]}")


def sc_char(ctx):
    r = ctx.rng
    ml = r.choice([8, 9, 12, 20, 20, 50])
    sep = r.choice([" ", " ", "\x01", "\x01" * 3, "; "])
    split = r.choice([0, 0, 1, 1.0])
    atmax = r.random() < .4
    vals = texts(r, ml)
    bs = r.choice([1, 2, 3, 7, 32])
    word, ner = r.random() < .3, r.random() < .4
    kind, box = contain(r, vals)
    ctx.note(pipeline="text", ml=ml, sep=sep, flatten=split, atmax=atmax, batch=bs, word=word, ner=ner, vals=vals, container=kind)
    ctx.seen(("char", ml, sep, split, atmax, bs, word, ner, tuple(map(len, vals))), any(len(v) > ml or not v for v in vals))
    pre = dpz.CharPreprocessor(max_length=ml, flatten_split=split, flatten_separator=sep, is_separate_at_max_len=atmax)
    fmt = r.choice(["ner", "NER"]) if ner else "character_argmax"
    post = dpz.CharPostprocessor(flatten_separator=sep, use_word_level_argmax=word, output_format=fmt)
    m = EchoModel(ml=ml)
    L = BaseDataLabeler.load_with_components(pre, m, post)
    sc = r.random() < .6
    res = L.predict(box, batch_size=bs, predict_options=dict(show_confidences=sc))
    ckeep(ctx, box, vals)
    if not ctx.check(len(res["pred"]) == len(vals), "char.count", f"{len(res['pred'])} predictions for {len(vals)} texts"):
        return
    sent = [s for b in m.given for s in b]
    ctx.check(all(0 < len(s) <= ml for s in sent), "model.length", f"the model of length {ml} got {[s for s in sent if not 0 < len(s) <= ml][:3]!r}")
    ctx.check(all(len(b) <= bs for b in m.given), "model.batch", f"batches of {[len(b) for b in m.given]} with batch size {bs}")
    if not split:
        ctx.check("".join(sent) == "".join(vals), "model.complete", "the characters the model saw are not the characters given, in order")
    if not word:
        for v, p, i in zip(vals, res["pred"], range(len(vals))):
            want = [lab(c) for c in v]
            if ner:
                spans = [(a, b, LABELS[k]) for a, b, k in runs(want) if k not in (0, 1)]
                got = [tuple(x) for x in p]
                ctx.check(got == spans, "char.ner", f"text {i} {v!r}: entities {got}, expected {spans}")
            else:
                ctx.check([int(x) for x in p] == want, "char.pred", f"text {i} {v!r}: labels {[int(x) for x in p]}, expected {want}")
    else:
        seps = set((" ", ",", ";", "'", '"', ":", "\n", "\t", "."))
        for v, p, i in zip(vals, res["pred"], range(len(vals))):
            flat = [1] * len(v)
            if ner:
                for a, b, l in p:
                    if not ctx.check(0 <= a < b <= len(v) and l in MAP and l not in ("PAD", "UNKNOWN"), "char.span", f"entity {(a, b, l)} of a text of {len(v)}"):
                        return
                    flat[a:b] = [MAP[l]] * (b - a)
            else:
                flat = [int(x) for x in p]
            if not ctx.check(len(flat) == len(v), "char.words", f"text {i} {v!r}: {len(flat)} labels"):
                continue
            # a word of two or more characters predicted alike keeps its label
            k = 0
            while k < len(v):
                if v[k] in seps:
                    k += 1
                    continue
                e = k
                while e < len(v) and v[e] not in seps:
                    e += 1
                want = {lab(c) for c in v[k:e]}
                if len(want) == 1 and e - k >= 2 + (e == len(v)):
                    ctx.check(set(flat[k:e]) == want, "char.words", f"text {i} {v!r}: word {v[k:e]!r} is labelled {flat[k:e]}, every character was {want}")
                k = e
    if sc:
        for v, c, i in zip(vals, res["conf"], range(len(vals))):
            c = np.asarray(c, dtype=float)
            want = np.array([conf(x) for x in v]).reshape(len(v), len(LABELS))
            ok = c.shape == want.shape and np.allclose(c, want) if v else len(c) == 0
            ctx.check(ok, "char.conf", f"text {i} {v!r}: confidences do not belong to its characters")
    else:
        ctx.check("conf" not in res, "char.noconf", "confidences returned unasked")


def runs(seq):
    out, k = [], 0
    while k < len(seq):
        e = k
        while e < len(seq) and seq[e] == seq[k]:
            e += 1
        out.append((k, e, seq[k]))
        k = e
    return out


def sc_cell(ctx):
    r = ctx.rng
    ml = r.choice([8, 9, 12, 20, 20, 50, 3400])
    sep = r.choice(["\x01" * 5, "\x01" * 5, "\x01", "|", " "])
    atmax = r.random() < .3
    vals = texts(r, min(ml, 50))
    if r.random() < .2:
        vals = [None if r.random() < .2 else (float(len(v)) if r.random() < .2 else v) for v in vals]
    bs = r.choice([1, 2, 3, 7, 32])
    asl = r.random() < .7
    kind, box = contain(r, vals)
    ctx.note(pipeline="cells", ml=ml, sep=sep, atmax=atmax, batch=bs, names=asl, vals=vals, container=kind)
    S = [str(v) for v in vals]
    ctx.seen(("cell", ml, sep, atmax, bs, asl, tuple(map(len, S))), any(len(v) > ml or not v for v in S))
    pre = dpz.StructCharPreprocessor(max_length=ml, flatten_separator=sep, is_separate_at_max_len=atmax)
    post = dpz.StructCharPostprocessor(flatten_separator=sep, is_pred_labels=asl, random_state=r.choice([None, 3, random.Random(1)]))
    m = EchoModel(ml=ml)
    L = BaseDataLabeler.load_with_components(pre, m, post)
    sc = r.random() < .7
    res = L.predict(box, batch_size=bs, predict_options=dict(show_confidences=sc))
    ckeep(ctx, box, vals)
    if not ctx.check(len(res["pred"]) == len(vals), "cell.count", f"{len(res['pred'])} predictions for {len(vals)} cells"):
        return
    sent = [s for b in m.given for s in b]
    ctx.check(all(0 < len(s) <= ml for s in sent), "model.length", f"the model of length {ml} got {[s for s in sent if not 0 < len(s) <= ml][:3]!r}")
    ctx.check(all(len(b) <= bs for b in m.given), "model.batch", f"batches of {[len(b) for b in m.given]} with batch size {bs}")
    for i, s in enumerate(S):
        cnt = Counter(lab(c) for c in s)
        p = res["pred"][i]
        name = (lambda x: LABELS[x]) if asl else (lambda x: x)
        if not s:
            ctx.check(p is None if asl else p != p, "cell.none", f"empty cell {i} is labelled {p!r}")
        else:
            top = max(cnt.values())
            modes = {k for k, v in cnt.items() if v == top}
            if len(modes) > 1:
                modes -= {1}
                ctx.check(p in {name(x) for x in modes}, "cell.tie", f"cell {i} {s!r}: label {p!r} is none of the tied {modes}")
            else:
                ctx.check(p in {name(x) for x in modes}, "cell.label", f"cell {i} {s!r}: label {p!r}, most characters are {modes}")
        if sc:
            want = [cnt[k] / len(s) if s else 0 for k in range(len(LABELS))]
            ctx.check(np.allclose(res["conf"][i], want), "cell.conf", f"cell {i} {s!r}: confidences {list(res['conf'][i])}, expected {want}")
    if not sc:
        ctx.check("conf" not in res, "cell.noconf", "confidences returned unasked")


def spans(r, s):
    """disjoint labelled spans of a text"""
    out, k = [], 0
    while k < len(s) and len(out) < 5:
        a = r.randint(k, len(s) - 1)
        b = r.randint(a + 1, len(s))
        if r.random() < .7:
            out.append((a, b, r.choice(LABELS[2:])))
        k = b
    return out


def char_labels(s, sp):
    v = [1] * len(s)
    for a, b, l in sp:
        v[a:b] = [MAP[l]] * (b - a)
    return v


def unflatten(ctx, xs, ys, ml, sep, S, want, flat, sig):
    """walk the samples the model gets and the targets beside them against the texts and their labels"""
    got, tgt = [], []
    for x, y in zip(xs, ys):
        t = x[0]
        if not ctx.check(0 < len(t) <= ml and y.shape == (ml, len(LABELS)), "train.shape", f"sample of {len(t)} characters with targets {y.shape}, length {ml}"):
            return
        k = y.argmax(axis=1)
        ctx.check((y.sum(axis=1) == 1).all(), "train.onehot", "targets are not one label a character")
        ctx.check((k[len(t):] == 0).all(), sig, f"positions beyond the text {t!r} are not labelled as padding: {list(k)}")
        got.append(t)
        tgt.append(list(k[:len(t)]))
    if not flat:
        allc, allt = "".join(got), [v for t in tgt for v in t]
        ctx.check(allc == "".join(S), "train.chars", "the training samples are not the given texts in order")
        ctx.check(allt == [v for w in want for v in w], sig, f"targets {allt[:30]} expected {[v for w in want for v in w][:30]}")
        return
    # flattened: texts in order, separated by sep inside a sample and by nothing where a sample ends
    ci, k = 0, 0
    todo = [(s, w) for s, w in zip(S, want) if s]
    for t, y in zip(got, tgt):
        p = 0
        first = True
        while p < len(t):
            if not first:
                if not ctx.check(t[p:p + len(sep)] == sep, "train.sep", f"no separator at {p} of {t!r}"):
                    return
                ctx.check(all(v == 1 for v in y[p:p + len(sep)]), "train.seplabel", f"separator labelled {y[p:p + len(sep)]}")
                p += len(sep)
            first = False
            if not ctx.check(ci < len(todo), "train.chars", f"more training text than given: {t[p:]!r}"):
                return
            s, w = todo[ci]
            n = min(len(s) - k, len(t) - p)
            if not ctx.check(t[p:p + n] == s[k:k + n] and n > 0, "train.chars", f"training sample {t!r} does not continue with {s[k:]!r}"):
                return
            if not ctx.check(y[p:p + n] == w[k:k + n], sig, f"text {s!r}: targets {y[p:p + n]} for {s[k:k + n]!r}, expected {w[k:k + n]}"):
                return
            p += n
            k += n
            if k == len(s):
                ci, k = ci + 1, 0
    ctx.check(ci == len(todo), "train.chars", f"{len(todo) - ci} texts never reach the model")


def sc_train(ctx):
    r = ctx.rng
    ml = r.choice([8, 9, 12, 20, 50])
    cells = r.random() < .5
    sep = r.choice(["\x01" * 5, "\x01", "|"]) if cells else r.choice([" ", "\x01"])
    atmax = r.random() < .4
    S = [s for s in texts(r, ml)]
    bs = r.choice([1, 2, 5, 32])
    if cells:
        if r.random() < .7:
            S = [s or "x" for s in S]
        names = [r.choice(LABELS[1:]) for _ in S]
        want = [[MAP[l]] * len(s) for s, l in zip(S, names)]
        pre = dpz.StructCharPreprocessor(max_length=ml, flatten_separator=sep, is_separate_at_max_len=atmax)
        labels = np.array(names, dtype=object)
        flat = True
    else:
        sp = [spans(r, s) for s in S]
        want = [char_labels(s, q) for s, q in zip(S, sp)]
        split = r.choice([0, 1])
        pre = dpz.CharPreprocessor(max_length=ml, flatten_separator=sep, flatten_split=split, is_separate_at_max_len=atmax)
        labels = np.empty(len(S), dtype=object)
        labels[:] = [list(q) for q in sp]
        flat = bool(split)
    ctx.note(pipeline="train", cells=cells, ml=ml, sep=sep, atmax=atmax, flat=flat, S=S, labels=list(labels))
    ctx.seen(("train", cells, flat, ml, sep, atmax, bs, tuple(map(len, S))), any(len(s) > ml or not s for s in S))
    xs, ys = [], []
    for x, y in pre.process(np.array(S, dtype=object), labels=labels, label_mapping=dict(MAP), batch_size=bs):
        ctx.check(len(x) == len(y) and len(x) <= bs, "train.batch", f"batch of {len(x)} samples, {len(y)} targets, size {bs}")
        xs += list(x)
        ys += list(y)
    unflatten(ctx, xs, ys, ml, sep, S, want, flat, "train.cell" if cells else "train.char")


def sc_fit(ctx):
    """every training pair reaches the model with its own labels; the validation part is disjoint"""
    r = ctx.rng
    ml = 60
    n = r.randint(1, 30)
    S = [f"{gen.word(r)}{i:03d}" for i in range(n)]
    names = [LABELS[1 + (i * 7 + len(s)) % 5] for i, s in enumerate(S)]
    want = {s: MAP[l] for s, l in zip(S, names)}
    sep = "\x01" * 5
    pre = dpz.StructCharPreprocessor(max_length=ml, flatten_separator=sep)
    m = EchoModel(ml=ml)
    L = TrainableDataLabeler.load_with_components(pre, m, dpz.StructCharPostprocessor(flatten_separator=sep))
    vs = r.choice([0, .2, .5, .9])
    ep = r.randint(1, 3)
    shape = r.choice(["frame", "list", "series"])
    x = {"frame": pd.DataFrame({"a": S}), "list": list(S), "series": pd.Series(S)}[shape]
    y = {"frame": pd.DataFrame({"a": names}), "list": list(names), "series": pd.Series(names)}[shape]
    ctx.note(pipeline="fit", n=n, validation=vs, epochs=ep, container=shape)
    ctx.seen(("fit", n, vs, ep, shape), n > 1)
    L.fit(x, y, validation_split=vs, epochs=ep, batch_size=r.choice([1, 4, 32]))
    ctx.eq(len(m.fits), ep, "train.epochs", "epochs the model was trained for")
    tr0 = None
    for tr, va in m.fits:
        seen = [[], []]
        for which, part in ((0, tr), (1, va or [])):
            for X, Y in part:
                for (t,), lab1 in zip(X, Y):
                    k = lab1.argmax(axis=1)
                    pos = 0
                    for piece in t.split(sep):
                        seen[which].append(piece)
                        if not ctx.check(piece in want and set(k[pos:pos + len(piece)]) == {want[piece]}, "train.pairs",
                                         f"cell {piece!r} trained as {set(k[pos:pos + len(piece)])}, its label is {want.get(piece)}"):
                            return
                        pos += len(piece) + len(sep)
        k = max(1, int(n * (1 - vs)))
        ctx.check(len(seen[0]) == k and len(set(seen[0])) == k, "train.once", f"{len(seen[0])} training cells an epoch, expected {k} distinct")
        if va is not None:
            ctx.check(sorted(seen[0] + seen[1]) == sorted(S), "train.split", "training and validation cells do not make up the data given")
        if tr0 is not None:
            ctx.check(set(seen[0]) == tr0, "train.stable", "the cells held out for validation were trained on in a later epoch")
        tr0 = set(seen[0])


def sc_encoded(ctx):
    r = ctx.rng
    ml = r.choice([8, 12, 20])
    S = texts(r, ml)
    enc = {c: i + 1 for i, c in enumerate("abcXYZ0189 ,.é")}
    split = r.choice([0, 1])
    pre = dpz.CharEncodedPreprocessor(encoding_map=enc, max_length=ml, flatten_split=split, flatten_separator=" ", is_separate_at_max_len=r.random() < .5)
    plain = dpz.CharPreprocessor(max_length=ml, flatten_split=split, flatten_separator=" ", is_separate_at_max_len=pre.get_parameters()["is_separate_at_max_len"])
    bs = r.choice([1, 3, 32])
    lab_ = r.random() < .5
    kw = {}
    if lab_:
        labels = np.empty(len(S), dtype=object)
        labels[:] = [spans(r, s) for s in S]
        kw = dict(labels=labels, label_mapping=dict(MAP))
    ctx.note(pipeline="encoded", ml=ml, split=split, S=S, labels=lab_)
    ctx.seen(("enc", ml, split, bs, lab_, tuple(map(len, S))), any(len(s) > ml or not s for s in S))
    A = list(pre.process(np.array(S, dtype=object), batch_size=bs, **kw))
    B = list(plain.process(np.array(S, dtype=object), batch_size=bs, **kw))
    ctx.eq(len(A), len(B), "enc.batches", "encoded batches")
    for a, b in zip(A, B):
        if lab_:
            ctx.check(np.array_equal(a[1], b[1]), "enc.labels", "targets beside encoded text differ from those beside the text")
            a, b = a[0], b[0]
        for code, (t,) in zip(a, b):
            want = [enc.get(c, 0) for c in t] + [0] * (ml - len(t))
            ctx.check(list(code) == want, "enc.chars", f"{t!r} is encoded as {list(code)}, expected {want}")
        ctx.eq(len(a), len(b), "enc.count", "samples in a batch")


def sc_post(ctx):
    """arbitrary predictions (also padding inside a text): entities and words"""
    r = ctx.rng
    S = [t for t in (text(r, 12, 0).replace("\x00", "a") for _ in range(r.randint(1, 5)))]
    preds = []
    for s in S:
        y = [r.choice([0, 1, 1, 2, 3, 4, 5]) for _ in s]
        if r.random() < .6:                      # runs
            k = 0
            while k < len(y):
                n = r.randint(1, 6)
                y[k:k + n] = [y[k]] * len(y[k:k + n])
                k += n
        preds.append(y)
    word = r.random() < .5
    pct = r.choice([.6, .75, .75, .8, 1, 2 / 3])
    seps = r.choice([None, (" ", ","), ("-",)])
    kw = dict(use_word_level_argmax=word, word_level_min_percent=pct)
    if seps:
        kw["separators"] = seps
    sepset = set(seps or (" ", ",", ";", "'", '"', ":", "\n", "\t", "."))
    ctx.note(pipeline="post", S=S, preds=preds, word=word, pct=pct, seps=seps)
    ctx.seen(("post", tuple(map(len, S)), word, pct, seps), any(0 in y for y in preds))
    arr = np.array(S, dtype=object)
    give = lambda: {"pred": [list(y) for y in preds]}
    plain = dpz.CharPostprocessor(**kw).process(arr, give(), dict(MAP))["pred"]
    ner = dpz.CharPostprocessor(output_format="NER", **kw).process(arr, give(), dict(MAP))["pred"]
    for s, y, p, e in zip(S, preds, plain, ner):
        p = [int(x) for x in p]
        if not ctx.check(len(p) == len(s), "post.len", f"{len(p)} labels for {s!r}"):
            return
        want = [(a, b, LABELS[k]) for a, b, k in runs(p) if k not in (0, 1)]
        ctx.check([tuple(x) for x in e] == want, "post.ner", f"text {s!r} labelled {p}: entities {e}, expected {want}")
        if not word:
            ctx.check(p == y, "post.plain", f"text {s!r}: labels {p}, expected {y}")
            continue
        k = 0
        while k < len(s):
            if s[k] in sepset:
                k += 1
                continue
            q = k
            while q < len(s) and s[q] not in sepset:
                q += 1
            if q < len(s) and q - k > 1:
                cnt = Counter(y[k:q])
                top, n = cnt.most_common(1)[0]
                if abs(n / (q - k) - pct) > 1e-9 or n / (q - k) == pct:
                    lab1 = top if n / (q - k) >= pct and n > 1 else 1
                    ctx.check(set(p[k:q]) == {lab1}, "post.words", f"word {s[k:q]!r} predicted {y[k:q]} is labelled {p[k:q]} at {pct}")
            k = q


SCENARIOS = [("post", 2, sc_post), ("texts", 5, sc_char), ("cells", 5, sc_cell), ("training", 4, sc_train), ("fit", 1, sc_fit), ("encoded", 2, sc_encoded)]
