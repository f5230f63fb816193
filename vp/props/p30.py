"""Scores of a labeler are the scores of its predictions: confusion matrix, per-label and averaged precision, recall, F1."""
import csv
import os
from collections import Counter

import numpy as np

from dataprofiler.labelers import classification_report_utils as cru
from dataprofiler.labelers import labeler_utils as lu

from .. import core, gen, util

PROP = "P30"
RULE = ("random true and predicted label sequences (ragged truths, absent and never-predicted labels, omitted labels, one to nine labels) scored against a direct count; the streaming "
        "F-beta metric over random batches, weights, thresholds and averages against the same count; non-trivial = some label is confused with another; distinct by (labels, counts, options)")
CASES = {"quick": 1500, "thorough": 15000}
REQUIRED = ["chk.score.label", "chk.score.macro", "chk.score.micro", "chk.score.weighted", "chk.score.accuracy", "chk.score.matrix", "chk.score.text", "chk.score.stream", "chk.score.f1", "chk.score.large"]


def sk_div(a, b):
    return a / b if b else 0.0


def prf(tp, pred, true, beta=1.0):
    p, q = sk_div(tp, pred), sk_div(tp, true)
    d = beta * beta * p + q
    return p, q, ((1 + beta * beta) * p * q / d if d else 0.0)


def close_row(ctx, got, want, sig, msg):
    for k, w in zip(("precision", "recall", "f1-score"), want):
        g = got[k]
        ctx.check((w != w and g != g) or core.isclose(float(g), float(w), 1e-9), sig, f"{msg} {k}: got {g}, counted {w}")


def sample(r):
    nl = r.choice([1, 2, 3, 4, 6, 9])
    use_t = r.sample(range(nl), r.randint(1, nl))
    use_p = r.sample(range(nl), r.randint(1, nl))
    rows, width = r.choice([1, 2, 5, 20]), r.choice([1, 3, 10, 40])
    pred = [[r.choice(use_p) for _ in range(width)] for _ in range(rows)]
    skill = r.random()
    true = []
    for row in pred:
        n = width if r.random() < .5 else r.randint(0, width)
        true.append([x if r.random() < skill else r.choice(use_t) for x in row[:n]])
    return nl, pred, true


def pairs_of(pred, true):
    c = Counter()
    for p, t in zip(pred, true):
        t = list(t) + [0] * (len(p) - len(t))
        c.update(zip(t, p))
    return c


def names_for(r, nl):
    base = ["PAD", "UNKNOWN"] + [f"LABEL_{chr(65 + i)}" for i in range(nl)]
    return {i: base[i] for i in range(nl)}


def evaluate(ctx):
    r = ctx.rng
    nl, pred, true = sample(r)
    names = names_for(r, nl)
    omit = r.choice([("PAD", "UNKNOWN"), ("PAD",), (), ("UNKNOWN", "LABEL_A")])
    keep = [i for i in range(nl) if names[i] not in omit]
    if not keep:
        raise core.Skip("every label omitted")
    ctx.note(pred=pred[:2], true=true[:2], labels=nl, omit=omit)
    c = pairs_of(pred, true)
    tp = {i: c[(i, i)] for i in range(nl)}
    ps = {i: sum(v for (t, p), v in c.items() if p == i) for i in range(nl)}
    ts = {i: sum(v for (t, p), v in c.items() if t == i) for i in range(nl)}
    path = None
    kw = {}
    if r.random() < .5:
        path = os.path.join(ctx.tmpdir(), r.choice(["m.csv", "sub/dir/m.csv"]))
        kw["confusion_matrix_file"] = path
    if omit != ("PAD", "UNKNOWN") or r.random() < .5:
        kw["omitted_labels"] = omit
    args = (pred, true) if r.random() < .5 else (np.array(pred), [np.array(t) for t in true])
    f1, rep = lu.evaluate_accuracy(args[0], args[1], nl, names, verbose=r.random() < .3, **kw)
    for i in keep:
        row = rep[names[i]]
        close_row(ctx, row, prf(tp[i], ps[i], ts[i]), "score.label", names[i])
        ctx.eq(row["support"], ts[i], "score.label", f"support of {names[i]}")
    every = set(keep) == set(range(nl))
    keys = {names[i] for i in keep} | {"macro avg", "weighted avg", "accuracy" if every else "micro avg"}
    ctx.eq(set(rep), keys, "score.keys", "rows of the report")
    live = [i for i in keep if ts[i]]
    mac = [sum(prf(tp[i], ps[i], ts[i])[k] for i in keep) / len(live) if live else float("nan") for k in range(3)]
    close_row(ctx, rep["macro avg"], mac, "score.macro", "macro avg")
    tot = sum(ts[i] for i in keep)
    wei = [sum(prf(tp[i], ps[i], ts[i])[k] * ts[i] for i in keep) / tot if tot else 0.0 for k in range(3)]
    close_row(ctx, rep["weighted avg"], wei, "score.weighted", "weighted avg")
    if every:
        ctx.check(core.isclose(rep["accuracy"], sum(tp.values()) / sum(ts.values()), 1e-9), "score.accuracy", f"accuracy {rep['accuracy']}")
    else:
        close_row(ctx, rep["micro avg"], prf(sum(tp[i] for i in keep), sum(ps[i] for i in keep), tot), "score.micro", "micro avg")
    for k in ("macro avg", "weighted avg") + (() if every else ("micro avg",)):
        ctx.eq(rep[k]["support"], tot, "score.support", f"support of {k}")
    g = rep["macro avg"]["f1-score"]
    ctx.check(f1 == g or (f1 != f1 and g != g), "score.f1", f"returned F1 {f1}, macro F1 {g}")
    if path:
        with open(path) as f:
            rows = list(csv.reader(f))
        ctx.eq(rows[0][1:], ["pred:" + names[i] for i in range(nl)], "score.matrix", "columns of the confusion matrix")
        ctx.eq([x[0] for x in rows[1:]], ["true:" + names[i] for i in range(nl)], "score.matrix", "rows of the confusion matrix")
        ctx.eq([[int(v) for v in x[1:]] for x in rows[1:]], [[c[(t, p)] for p in range(nl)] for t in range(nl)], "score.matrix", "confusion matrix")
    text = lu.f1_report_dict_to_str(rep, [names[i] for i in keep])
    lines = [x for x in text.split("\n")[1:] if x.strip()]
    ctx.eq(len(lines), len(rep), "score.text", "lines of the printed report")
    for ln in lines:
        key = next(k for k in rep if ln.strip().startswith(k + " "))
        nums = ln.strip()[len(key):].split()
        want = ([f"{rep[key]:.2f}"] if key == "accuracy" else [f"{rep[key][k]:.2f}" for k in ("precision", "recall", "f1-score")] + [str(rep[key]["support"])])
        ctx.eq(nums, want, "score.text", f"printed row {key}")
    if any(t != p for t, p in c):
        ctx.count("nontrivial")
    ctx.seen("eval", nl, omit, tuple(sorted(c.items()))[:6], bool(path))


def matrix(ctx):
    """The confusion-matrix report over all or some labels, printed and as a dictionary."""
    r = ctx.rng
    nl = r.choice([1, 2, 3, 5])
    m = np.array([[r.choice([0, 0, 1, 2, 7, 50, 10 ** 6]) for _ in range(nl)] for _ in range(nl)])
    ctx.note(matrix=m.tolist())
    keep = list(range(nl)) if r.random() < .5 else r.sample(range(nl), r.randint(1, nl))
    kw = {} if keep == list(range(nl)) and r.random() < .5 else {"labels": keep}
    if r.random() < .5:
        kw["target_names"] = [f"n{i}" for i in keep]
    names = kw.get("target_names", [str(i) for i in keep])
    d = cru.classification_report(m, output_dict=True, **kw)
    tp, ps, ts = np.diag(m), m.sum(axis=0), m.sum(axis=1)
    for n, i in zip(names, keep):
        close_row(ctx, d[n], prf(int(tp[i]), int(ps[i]), int(ts[i])), "score.label", n)
        ctx.eq(d[n]["support"], int(ts[i]), "score.label", f"support of {n}")
    rows = [prf(int(tp[i]), int(ps[i]), int(ts[i])) for i in keep]
    close_row(ctx, d["macro avg"], [sum(x[k] for x in rows) / len(rows) for k in range(3)], "score.macro", "macro avg")
    tot = int(sum(ts[i] for i in keep))
    close_row(ctx, d["weighted avg"], [sum(x[k] * int(ts[i]) for x, i in zip(rows, keep)) / tot if tot else 0. for k in range(3)], "score.weighted", "weighted avg")
    mic = prf(int(sum(tp[i] for i in keep)), int(sum(ps[i] for i in keep)), tot)
    if set(keep) == set(range(nl)):
        ctx.check(core.isclose(d["accuracy"], mic[0], 1e-9), "score.accuracy", f"accuracy {d['accuracy']} counted {mic[0]}")
    else:
        close_row(ctx, d["micro avg"], mic, "score.micro", "micro avg")
    digits = r.choice([2, 3, 4])
    t = cru.classification_report(m, digits=digits, **kw)
    lines = {x[:x.index("avg") + 3].strip() if "avg" in x else x.split()[0]: x.split()[-4:] for x in t.split("\n")[1:] if x.strip()}
    for k, v in d.items():
        if k != "accuracy":
            want = [f"{v[q]:.{digits}f}" for q in ("precision", "recall", "f1-score")] + [str(v["support"])]
            ctx.eq(lines.get(k), want, "score.text", f"printed row {k}")
    mcm = cru.convert_confusion_matrix_to_MCM(m if r.random() < .5 else m.tolist())
    n = int(m.sum())
    for i in range(nl):
        a, b, c = int(tp[i]), int(ps[i] - tp[i]), int(ts[i] - tp[i])
        ctx.eq(mcm[i].tolist(), [[n - a - b - c, b], [c, a]], "score.mcm", f"counts of label {i}")
    ctx.seen("matrix", nl, tuple(keep), tuple(m.flatten().tolist())[:9])


def stream(ctx):
    import tensorflow as tf
    r = ctx.rng
    nc, n = r.choice([2, 3, 5]), r.choice([1, 4, 12, 30])
    avg = r.choice([None, "micro", "macro", "weighted"])
    th = r.choice([None, None, .3, .5, .9])
    beta = r.choice([1.0, 1.0, .5, 2.0])
    rs = np.random.RandomState(r.randrange(2 ** 31))
    y = (np.eye(nc)[rs.randint(0, nc, n)] if r.random() < .6 else rs.randint(0, 2, (n, nc))).astype("float32")
    p = rs.rand(n, nc).astype("float32")
    if r.random() < .3:
        p[rs.randint(0, n)] = 0
    w = rs.rand(n).astype("float32") if r.random() < .3 else None
    ctx.note(n=n, classes=nc, average=avg, threshold=th, beta=beta, weighted=w is not None)
    m = lu.F1Score(nc, average=avg, threshold=th) if beta == 1.0 and r.random() < .5 else lu.FBetaScore(nc, average=avg, beta=beta, threshold=th)
    conf = m.get_config()
    m2 = type(m).from_config(conf) if r.random() < .3 else m
    k = r.randint(1, 4)
    cuts = sorted(r.sample(range(1, n), min(k, n - 1))) if n > 1 else []
    for a, b in zip([0] + cuts, cuts + [n]):
        m2.update_state(tf.constant(y[a:b]), tf.constant(p[a:b]), *( [tf.constant(w[a:b])] if w is not None else []))
    got = np.asarray(m2.result())
    hit = (p > th) if th is not None else ((p >= p.max(axis=1, keepdims=True)) & (np.abs(p) > 1e-12))
    ww = (w if w is not None else np.ones(n))[:, None].astype(float)
    tp, fp, fn, sup = ((hit * y * ww), (hit * (1 - y) * ww), ((1 - hit) * y * ww), (y * ww))
    if avg == "micro":
        want = np.array(prf(tp.sum(), (tp + fp).sum(), (tp + fn).sum(), beta)[2])
    else:
        per = np.array([prf(tp[:, i].sum(), (tp + fp)[:, i].sum(), (tp + fn)[:, i].sum(), beta)[2] for i in range(nc)])
        s = sup.sum(axis=0)
        want = per if avg is None else np.array(per.mean()) if avg == "macro" else np.array((per * s).sum() / s.sum() if s.sum() else 0.)
    ctx.eq(got.shape, want.shape, "score.stream", "shape")
    ctx.check(np.allclose(got, want, rtol=1e-4, atol=1e-5), "score.stream", f"got {got}, counted {want} after {len(cuts) + 1} batches")
    ctx.seen("stream", nc, n, avg, th, beta, w is not None, len(cuts))


def settings(ctx):
    r = ctx.rng
    bad = r.choice([dict(average="samples"), dict(average="x"), dict(beta=0.0), dict(beta=-1.0), dict(threshold=1.5), dict(threshold=0.0)])
    ctx.raises(lambda: lu.FBetaScore(3, **bad), ValueError, "score.reject")
    ctx.seen("reject", str(bad))


def large(ctx):
    """Long label sequences (up to a few million characters), whatever their length."""
    r = ctx.rng
    n = max(1, r.choice([2 ** r.randint(12, 21), 10 ** r.randint(3, 6), r.randint(1, 3) * 2 ** 20, r.randint(1, 2 ** 21)]) + r.choice([0, 0, -1, 1, r.randint(-1000, 5000)]))
    rows = r.choice([1, 1, 4, 50]) if n < 2 ** 21 else 1
    nl = r.choice([2, 3, 7])
    rs = np.random.RandomState(r.randrange(2 ** 31))
    pred = [rs.randint(0, nl, max(1, n // rows)) for _ in range(rows)]
    true = [np.where(rs.rand(len(p)) < .8, p, rs.randint(0, nl, len(p))) for p in pred]
    k = min(len(true[-1]), r.randint(1, 2000))
    true[-1][-k:] = nl - 1  # a distinctive tail
    if r.random() < .3:
        true[-1] = true[-1][:len(true[-1]) - r.randint(0, min(len(true[-1]) - 1, 50))]
    ctx.note(n=n, rows=rows, labels=nl)
    f1, rep = lu.evaluate_accuracy(np.array(pred), true, nl, {i: f"L{i}" for i in range(nl)}, verbose=False, omitted_labels=())
    P = np.concatenate(pred)
    T = np.concatenate([np.concatenate([t, np.zeros(len(p) - len(t), dtype=int)]) for t, p in zip(true, pred)])
    for i in range(nl):
        close_row(ctx, rep[f"L{i}"], prf(int(((P == i) & (T == i)).sum()), int((P == i).sum()), int((T == i).sum())), "score.large", f"L{i} of {n} labels")
        ctx.eq(rep[f"L{i}"]["support"], int((T == i).sum()), "score.large", f"support of L{i} of {n} labels")
    ctx.count("nontrivial")
    ctx.count("obs.labels", len(P))
    ctx.seen("large", n, rows, nl)


SCENARIOS = [("evaluate", 12, evaluate), ("large", 1, large), ("matrix", 8, matrix), ("stream", 4, stream), ("settings", 2, settings)]
