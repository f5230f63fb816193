"""Deterministic hostile-workload generators (driven by a random.Random)."""
import datetime as dtm
import math
import string

import numpy as np
import pandas as pd

NULLS = ["", "nan", "NaN", "NAN", "none", "None", "NONE", "null", "NULL", "Null", " ", "   ",
         "-", "--", "---", "_", "__", "____"]
NOT_NULLS = ["nano", "nullable", "n/a", "-1", "- ", "_a", "none.", "0", "na", "N/A", "-_", " nan", "nan "]
WORDS = ("alpha beta gamma delta epsilon zeta eta theta iota kappa lambda mu nu xi omicron pi rho sigma tau "
         "upsilon phi chi psi omega red green blue apple Banana cherry Date elder fig grape").split()
UNI = ["é", "ß", "漢", "字", "😀", "Ω", "ñ", "ü", "İ", "\u00a0x", "ﬁ", "Ж"]
DATE_FORMATS = [
    "%Y-%m-%d %H:%M:%S", "%Y-%m-%dT%H:%M:%S", "%Y-%m-%dT%H:%M:%S.%fZ", "%m/%d/%y %H:%M",
    "%m/%d/%Y %H:%M", "%Y%m%dT%H%M%S", "%Y-%m-%d", "%m/%d/%Y", "%m/%d/%y", "%b %d, %Y",
    "%B %d, %Y", "%d%b%y", "%b-%d-%y", "%H:%M:%S.%f",
]


def fmt_float(rng, x, style=None):
    style = style if style is not None else rng.randrange(7)
    if style == 0:
        return repr(float(x))
    if style == 1:
        return f"{x:.{rng.randrange(0, 8)}f}"
    if style == 2:
        return f"{x:.{rng.randrange(0, 6)}e}"
    if style == 3:
        return f"{x:+.{rng.randrange(1, 4)}f}"
    if style == 4:
        return f"{x:.3E}"
    if style == 5:
        return f"{x:.2f}"
    return f"{x:.4g}"


def ints(rng, n, kind=None):
    """list of python ints"""
    kind = kind or rng.choice(["small", "neg", "wide", "huge", "const", "zero", "seq", "desc", "binary", "skew",
                               "clustered", "offset"])
    if kind == "small":
        return [rng.randint(0, 9) for _ in range(n)]
    if kind == "neg":
        return [rng.randint(-50, 50) for _ in range(n)]
    if kind == "wide":
        return [rng.randint(-10**6, 10**6) for _ in range(n)]
    if kind == "huge":
        return [rng.randint(-10**12, 10**12) for _ in range(n)]
    if kind == "const":
        c = rng.choice([0, 1, -1, 7, 1000, -345])
        return [c] * n
    if kind == "zero":
        return [rng.choice([0, 0, 0, 1, -1]) for _ in range(n)]
    if kind == "seq":
        s = rng.randint(-20, 20)
        return [s + i for i in range(n)]
    if kind == "desc":
        s = rng.randint(-20, 20)
        return [s - i for i in range(n)]
    if kind == "binary":
        return [rng.randint(0, 1) for _ in range(n)]
    if kind == "skew":
        return [int(rng.expovariate(0.05)) for _ in range(n)]
    if kind == "clustered":
        cs = [rng.randint(-1000, 1000) for _ in range(3)]
        return [rng.choice(cs) + rng.randint(-2, 2) for _ in range(n)]
    off = rng.choice([10**6, 10**7, -10**6])
    return [off + rng.randint(0, 20) for _ in range(n)]


def floats(rng, n, kind=None):
    kind = kind or rng.choice(["unit", "gauss", "wide", "tiny", "const", "halves", "money", "skew", "offset", "neg"])
    if kind == "unit":
        return [rng.random() for _ in range(n)]
    if kind == "gauss":
        return [rng.gauss(0, rng.choice([1, 10])) for _ in range(n)]
    if kind == "wide":
        return [rng.uniform(-1, 1) * 10 ** rng.randint(-6, 6) for _ in range(n)]
    if kind == "tiny":
        return [rng.uniform(-1, 1) * 1e-6 for _ in range(n)]
    if kind == "const":
        return [rng.choice([0.5, -2.25, 0.0])] * n
    if kind == "halves":
        return [rng.randint(-10, 10) / 2 for _ in range(n)]
    if kind == "money":
        return [round(rng.uniform(0, 5000), 2) for _ in range(n)]
    if kind == "skew":
        return [rng.expovariate(0.1) for _ in range(n)]
    if kind == "offset":
        return [1e5 + rng.random() for _ in range(n)]
    return [-abs(rng.gauss(5, 3)) - 0.01 for _ in range(n)]


def int_str(rng, v, plain=0.9):
    if rng.random() < plain:
        return str(v)
    return rng.choice([f"{v:+d}", f"{v}.0", f"{v}.00", f" {v}", f"{v} "])


def word(rng):
    r = rng.random()
    if r < 0.75:
        return rng.choice(WORDS)
    if r < 0.9:
        return "".join(rng.choice(string.ascii_letters) for _ in range(rng.randint(2, 12)))
    return rng.choice(WORDS) + rng.choice(UNI)


def text_cell(rng):
    r = rng.random()
    if r < 0.6:
        return " ".join(word(rng) for _ in range(rng.randint(1, 5)))
    if r < 0.75:
        return "".join(rng.choice(string.ascii_letters + string.digits + " .,;:!?'\"#@/") for _ in range(rng.randint(3, 30))) + "z"
    if r < 0.85:
        return rng.choice(NOT_NULLS[:3]) + word(rng)
    if r < 0.86:
        return word(rng) + rng.choice(["\x00", "\x00\x00", "\x1f", "\t", "\u200b"])
    return word(rng)


def rand_dt(rng, lo=1975, hi=2060):
    base = dtm.datetime(lo, 1, 1)
    span = int((dtm.datetime(hi, 1, 1) - base).total_seconds())
    return base + dtm.timedelta(seconds=rng.randrange(span))


def dates(rng, n, fmts=None):
    fmts = fmts or rng.sample(DATE_FORMATS, rng.choice([1, 1, 1, 2, 3]))
    out = []
    for _ in range(n):
        f = rng.choice(fmts)
        d = rand_dt(rng)
        if "%b" in f or "%B" in f:
            d = d.replace(month=rng.choice([1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12]), day=min(d.day, 28))
        out.append(d.strftime(f))
    return out


def categorical(rng, n, k=None):
    k = k or rng.choice([1, 2, 3, 5, 8, 12])
    base = rng.sample(WORDS, k)
    w = [rng.random() ** 2 + 0.02 for _ in base]
    return rng.choices(base, w, k=n)


KINDS = ["int", "int", "float", "float", "intfloat", "text", "text", "date", "cat", "cat", "mixed", "allnull", "uniq",
         "intcat", "longtext"]


def column(rng, n, kind=None, null_rate=None, nulls=None):
    """-> (kind, list of str cells)"""
    kind = kind or rng.choice(KINDS)
    if kind == "int":
        plain = rng.choice([1.0, 1.0, 0.8])
        vals = [int_str(rng, v, plain) for v in ints(rng, n)]
    elif kind == "float":
        st = rng.choice([None, 0, 1, 2, 5])
        vals = [fmt_float(rng, v, st) for v in floats(rng, n)]
    elif kind == "intfloat":
        vals = [str(v) if rng.random() < .5 else fmt_float(rng, v + rng.choice([0, .5, .25]), 1)
                for v in ints(rng, n, rng.choice(["small", "neg", "skew"]))]
    elif kind == "text":
        vals = [text_cell(rng) for _ in range(n)]
    elif kind == "longtext":
        vals = [" ".join(word(rng) for _ in range(rng.randint(30, 80))) for _ in range(n)]
    elif kind == "date":
        vals = dates(rng, n)
    elif kind == "cat":
        vals = categorical(rng, n)
    elif kind == "intcat":
        vals = [str(rng.choice([1, 2, 3, 10, 20, 300][: rng.randint(1, 6)])) for _ in range(n)]
    elif kind == "mixed":
        pools = [lambda: str(rng.randint(-99, 99)), lambda: fmt_float(rng, rng.gauss(0, 5), 1), lambda: text_cell(rng),
                 lambda: rng.choice(NOT_NULLS)]
        pools = rng.sample(pools, rng.randint(2, 4))
        vals = [rng.choice(pools)() for _ in range(n)]
    elif kind == "allnull":
        vals = [rng.choice(NULLS) for _ in range(n)]
    elif kind == "uniq":
        vals = [f"id{i:05d}" for i in range(n)]
        if rng.random() < .5:
            rng.shuffle(vals)
    else:
        raise ValueError(kind)
    if kind != "allnull":
        if null_rate is None:
            null_rate = rng.choice([0, 0, 0.05, 0.2, 0.5])
        pool = nulls or rng.sample(NULLS, rng.randint(1, 5))
        if null_rate:
            vals = [rng.choice(pool) if rng.random() < null_rate else v for v in vals]
    return kind, vals


def index_for(rng, n, kind=None):
    kind = kind or rng.choice(["range", "range", "range", "offset", "shuffled", "gappy", "str", "negative"])
    if kind == "range":
        return pd.RangeIndex(n), kind
    if kind == "dup":
        k = rng.randint(1, max(1, n))
        return pd.Index([rng.randrange(k) for _ in range(n)]), kind
    if kind == "dupstr":
        return pd.Index([rng.choice("xyz") for _ in range(n)], dtype=object), kind
    if kind == "negative":
        s = rng.choice([-n, -1, -3, -n - 1, -2 * n, -1000])
        return pd.RangeIndex(s, s + n), kind
    if kind == "offset":
        s = rng.choice([1, 7, 1000, 123456])
        return pd.RangeIndex(s, s + n), kind
    if kind == "shuffled":
        p = list(range(n))
        rng.shuffle(p)
        return pd.Index(p), kind
    if kind == "gappy":
        p = sorted(rng.sample(range(n * 10 + 5), n))
        return pd.Index(p), kind
    return pd.Index([f"r{i:05d}" for i in range(n)]), kind


def index_any(rng, n):
    """like index_for, sometimes with repeated labels (concatenated frames)"""
    return index_for(rng, n, rng.choice(["dup", "dup", "dupstr"]) if rng.random() < .2 else None)


def table(rng, n=None, ncols=None, kinds=None, index="range", null_rate=None, names=None):
    n = n if n is not None else rng.choice([1, 2, 3, 5, 10, 20, 40, 60])
    ncols = ncols or rng.randint(1, 4)
    cols, ks = [], []
    for i in range(ncols):
        k, v = column(rng, n, kind=(rng.choice(kinds) if kinds else None), null_rate=null_rate)
        cols.append(v)
        ks.append(k)
    names = names or [rng.choice(["a", "B", "Col", "x_y", "7"]) + str(i) for i in range(ncols)]
    df = pd.DataFrame({i: c for i, c in enumerate(cols)}, dtype=object)
    df.columns = names
    if index == "range":
        ik = "range"
    else:
        df.index, ik = index_for(rng, n, None if index == "any" else index)
    return df, ks, ik


def split_points(rng, n, k):
    k = min(k, n)
    if k <= 1:
        return [(0, n)]
    cuts = sorted(rng.sample(range(1, n), k - 1))
    pts = [0] + cuts + [n]
    return list(zip(pts[:-1], pts[1:]))
