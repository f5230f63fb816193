"""Free-text profiles: characters, words, empty lines, sizes; batching, merging, options, diffs."""
import os
import string
from collections import Counter

import pandas as pd

import dataprofiler as dp

from .. import core, gen, util

PROP = "P16"
RULE = ("lists, series, frames and strings of generated lines (unicode, punctuation, blanks, repeats, hostile row labels) profiled as "
        "free text one-shot, in batches and as merges under random case, stop-word, top-k and on/off options and sample sizes, against "
        "a direct recount; non-trivial = words and empty lines present; distinct by (options, shape, counts)")
CASES = {"quick": 3000, "thorough": 15000}
REQUIRED = ["chk.txt.words", "chk.txt.vocab", "chk.txt.empty", "chk.txt.memory", "chk.txt.top_words", "chk.txt.hist_words", "chk.txt.merge_words",
            "chk.txt.sampled", "chk.txt.diff_words", "chk.txt.diff_count", "chk.txt.roundtrip"]

WORDS = ["alpha", "Alpha", "ALPHA", "beta", "the", "The", "and", "you're", "x-ray", "don't", "1234", "3.14", "foo_bar", "naïve", "ÉCOLE", "école",
         "日本", "ok", "it", "It's", "end", "zzz", "a", "I", "Straße", "ǅungla", "b2b", "(", "--", "...", "'quoted'", "«x»", "ﬁne", "10%", "co-op"]
SEPS = [" ", " ", " ", "  ", "\t", "\n", ", ", ". ", "\u00a0", "\x1c", "!", "/"]
BLANKS = ["", " ", "\t", "  \n", "\u00a0", "\u2003 ", "\r\n"]


def line(r):
    if r.random() < .2:
        return r.choice(BLANKS)
    k = r.choice([1, 1, 2, 3, 6, 12])
    s = ""
    for _ in range(k):
        w = r.choice(WORDS) if r.random() < .8 else gen.word(r) + "q"
        if r.random() < .15:
            w = r.choice(string.punctuation) + w
        if r.random() < .2:
            w += r.choice(string.punctuation) * r.randint(1, 2)
        s += w + r.choice(SEPS)
    return s if r.random() < .5 else s.strip()


def lines(r, n):
    return [line(r) for _ in range(n)]


def is_blank(s):
    return s.strip() == ""


def recount(ls, stop, case):
    body = [s for s in ls if not is_blank(s)]
    vocab = Counter("".join(body))
    words = Counter()
    for s in body:
        if not case:
            s = s.lower()
        for w in s.split():
            w = w.strip(string.punctuation)
            if w and w.lower() not in stop:
                words[w] += 1
    return vocab, words


_default_stop = None


def default_stop():
    """the built-in stop words, as the class under test documents them: learnt from a profile of every candidate word"""
    global _default_stop
    if _default_stop is None:
        # candidates: every word the workload can produce; one line each; those not counted are stop words
        cand = sorted({w.strip(string.punctuation).lower() for w in WORDS} - {""})
        st = mk(cand).report({"output_format": None})["data_stats"]["statistics"]
        _default_stop = set(cand) - {w.lower() for w in st["word_count"]}
        assert {"the", "and", "it", "i", "a"} <= _default_stop and not {"alpha", "beta", "ok"} & _default_stop, _default_stop
    return _default_stop


def rand_opts(r):
    e = {}
    t = "unstructured_options.text."
    if r.random() < .4:
        e[t + "is_case_sensitive"] = False
    if r.random() < .35:
        e[t + "stop_words"] = r.choice([[], ["alpha"], ["alpha", "beta", "ok", "日本"], ["zzz", "x-ray", "école"]])
    if r.random() < .3:
        e[t + "top_k_words"] = r.choice([1, 2, 5, 1000])
    if r.random() < .3:
        e[t + "top_k_chars"] = r.choice([1, 3, 1000])
    if r.random() < .08:
        e[t + "vocab.is_enabled"] = False
    if r.random() < .08:
        e[t + "words.is_enabled"] = False
    return e


def mk(data, e=None, **kw):
    return dp.Profiler(data, options=util.opts(e), profiler_type="unstructured", **kw)


def O(e, k, d=None):
    return e.get("unstructured_options.text." + k, d)


def stops(e):
    s = O(e, "stop_words")
    return default_stop() if s is None else set(s)


def _top(ctx, got, full, k, sig):
    """got: the reported most common entries; full: true counts"""
    want = sorted(full.values(), reverse=True)[:k]
    ctx.eq(sorted(got.values(), reverse=True), want, sig, "largest counts")
    ctx.check(all(full.get(w) == c for w, c in got.items()), sig, lambda: f"{ {w: (c, full.get(w)) for w, c in got.items() if full.get(w) != c} }")
    v = list(got.values())
    ctx.check(v == sorted(v, reverse=True), sig + "_sorted", lambda: f"{v}")


def check(ctx, rep, ls, stop, case, kw, kc, vocab_on=True, words_on=True, pre=""):
    st = rep["data_stats"]["statistics"]
    g = rep["global_stats"]
    vocab, words = recount(ls, stop, case)
    if not vocab_on:
        vocab = Counter()
    if not words_on:
        words = Counter()
    ctx.check(len(st["vocab"]) == len(set(st["vocab"])) and set(st["vocab"]) == set(vocab), f"txt.{pre}vocab", lambda: f"{set(st['vocab']) ^ set(vocab)}")
    ctx.check(len(st["words"]) == len(set(st["words"])) and set(st["words"]) == set(words), f"txt.{pre}words", lambda: f"{set(st['words']) ^ set(words)}")
    _top(ctx, st["vocab_count"], vocab, kc, f"txt.{pre}top_chars" if kc else f"txt.{pre}vocab")
    _top(ctx, st["word_count"], words, kw, f"txt.{pre}top_words" if kw else f"txt.{pre}words")
    ctx.eq(g["samples_used"], len(ls), "txt.samples_used")
    ctx.eq(g["empty_line_count"], sum(map(is_blank, ls)), f"txt.{pre}empty")
    ctx.close(g["memory_size"], sum(len(s.encode()) for s in ls) / 1024 ** 2, f"txt.{pre}memory", rel=1e-9, abs_=1e-15)
    return vocab, words


def _case(e):
    return O(e, "is_case_sensitive", True)


def _check(ctx, p, ls, e, pre=""):
    v, w = check(ctx, p.report({"output_format": None}), ls, stops(e), _case(e), O(e, "top_k_words"), O(e, "top_k_chars"),
                 O(e, "vocab.is_enabled", True), O(e, "words.is_enabled", True), pre)
    if w and any(map(is_blank, ls)):
        ctx.seen(pre, tuple(sorted((k, str(x)) for k, x in e.items())), len(ls), sum(w.values()))


def _labels(r, n):
    if r.random() < .3:
        return pd.Index([r.randrange(max(1, n // 2)) for _ in range(n)]), "repeated"
    if r.random() < .15:
        return pd.Index([r.choice([i, f"r{i}"]) for i in range(n)], dtype=object), "mixed"
    return gen.index_for(r, n)


def oneshot(ctx):
    r = ctx.rng
    n = r.choice([1, 2, 5, 12, 30])
    ls = lines(r, n)
    e = rand_opts(r)
    kind = r.choice(["list", "series", "frame", "str", "labels", "labels"])
    idx, ik = _labels(r, n)
    ctx.note(lines=ls, options=e, kind=kind, index=ik)
    if kind == "str":
        ls = ls[:1]
        if not ls[0]:
            raise core.Skip
        data = ls[0]
    elif kind == "list":
        data = list(ls)
    elif kind == "series":
        data = pd.Series(ls, dtype=object)
    elif kind == "frame":
        data = pd.DataFrame({"t": ls}, dtype=object)
    else:
        data = pd.Series(ls, index=idx, dtype=object)
    _check(ctx, mk(data, e), ls, e)


def batches(ctx):
    r = ctx.rng
    n = r.choice([2, 6, 15, 30])
    ls = lines(r, n)
    e = rand_opts(r)
    parts = gen.split_points(r, n, r.randint(2, 4))
    how = r.choice(["update", "merge", "mixed"])
    ctx.note(lines=ls, options=e, parts=parts, how=how)
    p = None
    for a, b in parts:
        ch = ls[a:b] if r.random() < .5 else pd.Series(ls[a:b], index=range(a, b), dtype=object)
        if p is None:
            p = mk(ch, e)
        elif how == "update" or (how == "mixed" and r.random() < .5):
            p.update_profile(ch)
        else:
            p = p + mk(ch, e)
    if len(parts) and r.random() < .3 and how == "update":
        p.update_profile(r.choice([[], pd.Series([], dtype=object)]))
    _check(ctx, p, ls, e, "hist_")


def merge_options(ctx):
    """operands configured differently: all stop words of either side, case kept only if both keep it"""
    r = ctx.rng
    l1, l2 = lines(r, r.randint(1, 15)), lines(r, r.randint(1, 15))
    e1, e2 = rand_opts(r), rand_opts(r)
    for k in ("vocab.is_enabled", "words.is_enabled"):
        e1.pop("unstructured_options.text." + k, None)
        e2.pop("unstructured_options.text." + k, None)
    ctx.note(l1=l1, l2=l2, e1=e1, e2=e2)
    case = _case(e1) and _case(e2)
    stop = stops(e1) | stops(e2)
    kw, kc = [max(O(e1, k), O(e2, k)) if O(e1, k) and O(e2, k) else None for k in ("top_k_words", "top_k_chars")]
    p = mk(l1, e1) + mk(l2, e2)
    check(ctx, p.report({"output_format": None}), l1 + l2, stop, case, kw, kc, pre="merge_")
    if r.random() < .4:  # and it keeps counting by the merged rules
        l3 = lines(r, 5)
        p.update_profile(l3)
        check(ctx, p.report({"output_format": None}), l1 + l2 + l3, stop, case, kw, kc, pre="merge_")
    ctx.seen("mo", str(e1), str(e2))


def sampled(ctx):
    r = ctx.rng
    n = r.choice([4, 12, 40])
    k = r.randint(1, n + 2)
    t = r.choice([0, 0, 1, 2, n // 2, n])
    ls = ["" if r.random() < .4 else f"row{i}x" for i in range(n)]
    labels, ik = _labels(r, n)
    seed = r.randrange(1000)
    ctx.note(lines=ls, k=k, min_true=t, seed=seed, index=ik)
    old = os.environ.get("DATAPROFILER_SEED")
    reps = []
    try:
        dp.set_seed(seed)
        for _ in range(2):
            reps.append(mk(pd.Series(ls, index=labels, dtype=object), samples_per_update=k, min_true_samples=t).report({"output_format": None}))
    finally:
        dp.set_seed(None)
        if old is not None:
            os.environ["DATAPROFILER_SEED"] = old
    rep = reps[0]
    g, st = rep["global_stats"], rep["data_stats"]["statistics"]
    used, empty = g["samples_used"], g["empty_line_count"]
    words = st["word_count"]
    ctx.check(set(words) <= set(ls) and set(words.values()) <= {1}, "txt.sampled", "only given lines, each once")
    ctx.eq(used - empty, len(words), "txt.sampled", "non-empty sampled lines")
    if t == 0:
        ctx.eq(used, min(k, n), "txt.sampled", "requested size")
    ctx.check(used == n or used % k == 0, "txt.sampled", "in steps")
    ctx.check(used == n or len(words) >= t, "txt.sampled", f"{len(words)} < {t}")
    ctx.eq(sum(st["vocab_count"].values()), sum(map(len, words)), "txt.sampled", "characters of the same lines")
    if used == n:
        ctx.eq(empty, ls.count(""), "txt.sampled")
    d = core.deep_diff(util.strip_volatile(reps[0]), util.strip_volatile(reps[1]))
    ctx.check(not d, "txt.seeded", lambda: f"{d}")
    if used < n:
        ctx.seen("s", n, k, t, used, len(words))


def diffs(ctx):
    r = ctx.rng
    l1, l2 = lines(r, r.randint(1, 12)), lines(r, r.randint(1, 12))
    if r.random() < .2:
        l2 = list(reversed(l1))
    e1 = {"unstructured_options.text.is_case_sensitive": r.random() < .5}
    e2 = {"unstructured_options.text.is_case_sensitive": r.random() < .5}
    ctx.note(l1=l1, l2=l2, e1=e1, e2=e2)
    a, b = mk(l1, e1), mk(l2, e2)
    d = a.diff(b)
    c1, c2 = _case(e1), _case(e2)
    (v1, w1), (v2, w2) = recount(l1, default_stop(), c1 and c2), recount(l2, default_stop(), c1 and c2)
    g, st = d["global_stats"], d["data_stats"]["statistics"]
    num = lambda x, y: "unchanged" if x == y else x - y
    ctx.eq(g["samples_used"], num(len(l1), len(l2)), "txt.diff_global")
    ctx.eq(g["empty_line_count"], num(sum(map(is_blank, l1)), sum(map(is_blank, l2))), "txt.diff_global")
    for key, x, y in (("vocab", v1, v2), ("words", w1, w2)):
        got = st[key]
        if set(x) == set(y):
            ctx.eq(got, "unchanged", "txt.diff_words", key)
        else:
            if ctx.check(isinstance(got, list) and len(got) == 3, "txt.diff_words", lambda: f"{key}: {got}"):
                ctx.eq([sorted(z) for z in got], [sorted(set(x) - set(y)), sorted(set(x) & set(y)), sorted(set(y) - set(x))], "txt.diff_words", key)
        got = st[key[:5].rstrip("s") + "_count"] if key == "words" else st["vocab_count"]
        if not x and not y:
            ctx.eq(got, "unchanged", "txt.diff_count", key)
        elif ctx.check(isinstance(got, list) and len(got) == 3, "txt.diff_count", lambda: f"{key}: {got}"):
            ctx.eq(got[0], {k: v for k, v in x.items() if k not in y}, "txt.diff_count", key)
            ctx.eq(got[1], {k: num(v, y[k]) for k, v in x.items() if k in y}, "txt.diff_count", key)
            ctx.eq(got[2], {k: v for k, v in y.items() if k not in x}, "txt.diff_count", key)
    ctx.seen("d", c1, c2, len(w1), len(w2))


def roundtrip(ctx):
    r = ctx.rng
    ls, more = lines(r, r.randint(1, 12)), lines(r, 4)
    e = rand_opts(r)
    ctx.note(lines=ls, options=e)
    p = mk(ls, e)
    f = os.path.join(ctx.tmpdir(), "p.pkl")
    p.save(f)
    q = dp.Profiler.load(f)
    _check(ctx, q, ls, e)
    d = core.deep_diff(p.report({"output_format": None}), q.report({"output_format": None}))
    ctx.check(not d, "txt.roundtrip", lambda: f"{d}")
    q.update_profile(more)
    _check(ctx, q, ls + more, e)
    _check(ctx, p, ls, e)
    m = q + p
    _check(ctx, m, ls + more + ls, e, "hist_")


SCENARIOS = [("oneshot", 4, oneshot), ("batches", 4, batches), ("merge_options", 3, merge_options), ("sampled", 3, sampled), ("diffs", 3, diffs),
             ("roundtrip", 1, roundtrip)]


def setup(tier):
    default_stop()
