"""JSON reading: arrays, lines, single objects, payloads; formats; conservation of every value; buffers; detection."""
import io
import json
from fractions import Fraction
import math
import os
import warnings
from collections import Counter, OrderedDict

import pandas as pd

import dataprofiler as dp
from dataprofiler.data_readers.json_data import JSONData

from .. import core, gen

PROP = "P19"
RULE = ("generated JSON documents (arrays of records, one record per line with blank and broken lines between, single nested objects, payloads with "
        "metadata; unicode, escapes, missing keys, nulls, nesting, lists) read from files, buffers and strings in every format; non-trivial = nested or "
        "missing values; distinct by (document shape, source, format)")
CASES = {"quick": 2600, "thorough": 20000}
REQUIRED = ["chk.json.rows", "chk.json.columns", "chk.json.cells", "chk.json.conserved", "chk.json.records", "chk.json.json", "chk.json.auto",
            "chk.json.selected", "chk.json.payload", "chk.json.metadata", "chk.json.lines", "chk.json.reload"]

STR = ["alpha", "", "  x ", "007", "nan", "None", "naïve", "日本", "😀", 'q"q', "back\\slash", "tab\t", "line\nbreak", "a.b", "{", "[1]", "null", "3.0", "/x", "\u2028y", "\x85n"]
KEYS = ["id", "name", "Value", "x y", "größe", "k1", "k2", "list", "", "0", "Data1", "meta", "名", "UP"]


def val(r, kind):
    if kind == "str":
        return r.choice(STR) if r.random() < .6 else gen.word(r)
    if kind == "int":
        return r.choice([0, 1, -1, 7, 10**6, -10**9, 2**40, r.randint(-99, 99)])
    if kind == "big":
        return r.choice([2**53 + 1, -2**53 - 1, 2**62 + 1, 10**17 + 3, 10**25 + 7, 5, 0])
    if kind == "float":
        return r.choice([0.5, -2.25, 1e10, 1e-7, 3.0, r.random()])
    if kind == "bool":
        return r.random() < .5
    return [r.randint(0, 9) for _ in range(r.randint(1, 3))] if r.random() < .6 else r.choice([[r.choice(STR), 1], [{"a": 1}, 2], ["x", {"b": None}], [[1], {"c": 1}]])


KINDS = ["str", "str", "int", "big", "float", "bool", "list"]


def is_null(s):
    return s in ("nan", "None", "NaN", "<NA>")


def same_cell(s, v, numeric=True):
    """cell text `s` represents JSON value `v`"""
    if not isinstance(s, str):
        return False
    if v is None:
        return is_null(s)
    if isinstance(v, bool):
        return s == str(v) or s == str(float(v)) and False
    if isinstance(v, (int, float)):
        try:
            if type(v) is int:
                return Fraction(s) == v
            return float(s) == float(v)
        except ValueError:
            return False
    if isinstance(v, list) and s.startswith("[") and "OrderedDict(" in s:
        try:
            return eval(s, {"OrderedDict": OrderedDict, "__builtins__": {}}) == v
        except Exception:
            return False
    return s == str(v)


def flat(obj, sep=".", path=""):
    """[(path, leaf)] of nested objects only (lists are leaves)"""
    out = []
    for k, v in obj.items():
        p = path + k
        if isinstance(v, dict):
            if v:
                out += flat(v, sep, p + sep)
        else:
            out.append((p, v))
    return out


def record_maker(r, nested):
    keys = r.sample([k for k in KEYS if k or not nested], r.randint(1, 5))
    kinds = {k: r.choice(KINDS) for k in keys}
    sub = {}
    if nested:
        for k in keys:
            if r.random() < .4:
                sub[k] = {s: r.choice(["str", "int", "str", "big"]) for s in r.sample(["u", "v", "w x", "deep", "y", "z2", "t"], r.choice([1, 2, 3, 6]))}
    miss = r.choice([0, 0, .2])

    def make():
        o = {}
        for k in keys:
            if miss and r.random() < miss:
                if r.random() < .5:
                    o[k] = None
                continue
            if k in sub:
                o[k] = {s: (val(r, t) if s != "deep" else {"er": val(r, t)}) for s, t in sub[k].items()}
            else:
                o[k] = val(r, kinds[k])
        return o
    return make, keys


def doc_text(r, recs, style):
    asc = r.random() < .5
    if style == "array":
        return json.dumps(recs, ensure_ascii=asc, indent=r.choice([None, None, 1]))
    lines = [json.dumps(x, ensure_ascii=asc) for x in recs]
    if style == "lines":
        return "\n".join(lines) + r.choice(["", "\n"])
    out = []
    for ln in lines:                     # blank and broken lines in between are ignored
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            out.append(r.choice(["", "", "   ", "not json", "{broken", "]"]))
        out.append(ln)
    return "\n".join(out) + "\n"


def source(ctx, r, text):
    k = r.choice(["file", "file", "bytes", "text", "data"])
    if k == "file":
        p = os.path.join(ctx.tmpdir(), f"j{r.randrange(10**9)}.json")
        with open(p, "w", encoding="utf-8", newline="") as f:
            f.write(text)
        return k, p
    return k, {"bytes": lambda: io.BytesIO(text.encode("utf-8")), "text": lambda: io.StringIO(text), "data": lambda: text}[k]()


def reader(kind, src, **o):
    if kind in ("file", "bytes"):
        o.setdefault("encoding", "utf-8")
    return JSONData(data=src, options=o) if kind == "data" else JSONData(src, options=o)


def check_rows(ctx, df, recs, how):
    want = [dict(flat(x)) for x in recs]
    keys = []
    for w in want:
        for k in w:
            if k not in keys:
                keys.append(k)
    ctx.eq(len(df), len(recs), "json.rows", how)
    ctx.eq(sorted(map(str, df.columns)), sorted(keys), "json.columns", how)
    if sorted(map(str, df.columns)) != sorted(keys) or len(df) != len(recs):
        return
    for k in keys:
        col = df[k].tolist()
        full = all(k in w and w[k] is not None for w in want)
        for i, (s, w) in enumerate(zip(col, want)):
            v = w.get(k)
            ok = same_cell(s, v)
            if ok and full and isinstance(v, int) and all(type(x[k]) is int for x in want):
                ok = s == str(v)
            if not ok:
                ctx.check(False, "json.cells", f"{how} row {i} key {k!r}: read {s!r} for {v!r}")
                return
    ctx.check(True, "json.cells")
    ctx.count("cells", len(keys) * len(recs))


def records(ctx):
    r = ctx.rng
    nested = r.random() < .5
    make, keys = record_maker(r, nested)
    n = r.choice([1, 2, 3, 7, 25, 80])
    recs = [make() for _ in range(n)]
    if any(isinstance(v, dict) for x in recs for v in x.values()):
        for x in recs:                      # a key is an object in every record or in none
            for k in keys:
                if any(isinstance(y.get(k), dict) for y in recs) and not isinstance(x.get(k), dict):
                    x.pop(k, None)
    recs = [x for x in recs if flat(x)]
    if not recs:
        raise core.Skip("empty")
    style = r.choice(["array", "lines", "holes"])
    if style != "array" and len(recs) == 1:
        style = "array"
    text = doc_text(r, recs, style)
    kind, src = source(ctx, r, text)
    fmt = r.choice(["dataframe", "flattened_dataframe"])
    ctx.note(style=style, kind=kind, fmt=fmt, n=len(recs), text=text[:600])
    ctx.seen(style, kind, fmt, len(recs), nested, len(keys))
    f = reader(kind, src, data_format=fmt)
    df = f.data
    check_rows(ctx, df, recs, f"{style}/{kind}/{fmt}")
    if style != "array":
        ctx.check(True, "json.lines")
    ctx.check(f.is_structured is True, "json.structured", "dataframes are structured")
    ctx.eq(len(f), len(recs), "json.len")
    cols = list(df.columns)
    if r.random() < .4:
        sel = r.sample(cols, r.randint(1, len(cols)))
        kind2, src2 = source(ctx, r, text)
        s = reader(kind2, src2, data_format=fmt, selected_keys=list(sel)).data
        ctx.eq(list(s.columns), sel, "json.selected")
        ctx.check(s.equals(df[sel]), "json.selected", "selected columns hold what the whole table holds")
    # other formats carry the same table
    f.data_format = "json"
    back = json.loads("".join(f.data))
    ctx.eq(back, df.to_dict(orient="records"), "json.json")
    ctx.check(f.is_structured is False, "json.structured", "json text is not structured")
    if not any("." in k for x in recs for k in x) and len({k.split(".")[0] for k in cols}) and not any(k == "" or k.startswith(".") for k in cols):
        f.data_format = "records"
        back = [json.loads(x) for x in "\n".join(f.data).split("\n")]
        ctx.eq(len(back), len(recs), "json.records")
        for b, row in zip(back, df.to_dict(orient="records")):
            if dict(flat(b)) != row:
                ctx.check(False, "json.records", f"record {b} for row {row}")
                break
        else:
            ctx.check(True, "json.records")
    f.data_format = fmt
    ctx.check(f.data.equals(df), "json.again", "going back to the table gives the same table")


def tree(r, depth):
    out = {}
    for k in r.sample(KEYS[:6] + ["n1", "n2"], r.randint(1, 4)):
        t = r.random()
        if depth and t < .3:
            out[k] = tree(r, depth - 1)
        elif depth and t < .5:
            out[k] = [tree(r, depth - 1) for _ in range(r.randint(1, 4))]
        else:
            out[k] = val(r, r.choice([k for k in KINDS if k != "big"]))
    return out


def leaves(x, sep, path=""):
    """(dotted path, leaf) for every leaf, through objects and lists of objects"""
    out = []
    for k, v in x.items():
        p = path + k
        if isinstance(v, dict):
            out += leaves(v, sep, p + sep)
        elif isinstance(v, list) and v and all(isinstance(y, dict) for y in v):
            for y in v:
                out += leaves(y, sep, p + sep)
        else:
            out.append((p, v))
    return out


def norm(v):
    if isinstance(v, bool) or isinstance(v, str) or isinstance(v, list):
        return str(v)
    return f"num:{float(v)!r}"


def conserved(ctx, df, want, how, drop=""):
    """every leaf is in the table exactly once under its own path (cells beyond are padding)"""
    w = {}
    for p, v in want:
        w.setdefault(p, []).append(v)
    ctx.eq(sorted(map(str, df.columns)), sorted(w), "json.conserved", how)
    for p, vs in w.items():
        if p not in df.columns:
            continue
        cells = df[p].tolist()
        ok, i = True, 0
        # values keep their order; padding may only follow them
        for v in vs:
            if i >= len(cells) or not same_cell(cells[i], v):
                ok = False
                break
            i += 1
        ok = ok and all(is_null(c) for c in cells[i:])
        if not ok:
            ctx.check(False, "json.conserved", f"{how} path {p!r}: values {vs} read as {cells}")
            return
    ctx.check(True, "json.conserved")
    ctx.count("leaves", len(want))


def single(ctx):
    """one nested object: every leaf appears exactly once in the flattened table"""
    r = ctx.rng
    x = tree(r, r.choice([0, 1, 2, 3]))
    sep = r.choice([".", ".", "/", "__"])
    text = json.dumps(x, ensure_ascii=r.random() < .5)
    kind, src = source(ctx, r, text)
    ctx.note(text=text[:800], kind=kind, sep=sep)
    ctx.seen("single", kind, len(text))
    o = {} if sep == "." else {"key_separator": sep}
    f = reader(kind, src, **o)
    want = leaves(x, sep)
    if len({p for p, _ in want}) != len({tuple(p.split(sep)) for p, _ in want}):
        raise core.Skip("ambiguous")
    if "" in {p for p, _ in want} or any(p.startswith(sep) or p.endswith(sep) or sep + sep in p for p, _ in want):
        raise core.Skip("empty keys")
    conserved(ctx, f.data, want, kind)


def payload(ctx):
    r = ctx.rng
    make, keys = record_maker(r, False)
    n = r.choice([1, 2, 5, 20])
    recs = [make() for _ in range(n)]
    for x in recs:
        if not x:
            x[keys[0]] = "z"
    key = r.choice(["data", "payload", "items"])
    meta = {k: v for k, v in tree(r, 1).items() if k not in ("data", "payload", "items")}
    doc = dict(meta)
    doc[key] = recs
    if key != "items" and r.random() < .4 and n > 1:       # a smaller candidate is not the payload
        small = [make() for _ in range(r.randint(1, n - 1))]
        doc[{"data": "payload", "payload": "data"}[key]] = [x or {keys[0]: "z"} for x in small]
    if r.random() < .5:
        doc = {k: doc[k] for k in sorted(doc)}
    text = json.dumps(doc)
    kind, src = source(ctx, r, text)
    o = {}
    if key == "items":
        o["payload_keys"] = r.choice(["items", ["nothing", "items"]])
    ctx.note(text=text[:600], kind=kind, key=key)
    ctx.seen("payload", kind, key, n, len(meta), len(doc) - len(meta))
    f = reader(kind, src, **o)
    df = f.data
    check_rows(ctx, df.rename(columns={c: c[len(key) + 1:] for c in df.columns if c.startswith(key + ".")}), recs, "payload")
    ctx.check(all(str(c).startswith(key + ".") for c in df.columns), "json.payload", f"payload columns {list(df.columns)} carry the key {key}")
    want = leaves({k: v for k, v in doc.items() if k != key}, ".")
    if want and not any(p == "" or p.startswith(".") or ".." in p or p.endswith(".") for p, _ in want):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = f.metadata
        ctx.check(m is not None, "json.metadata", "metadata present")
        if m is not None:
            conserved(ctx, m, want, "metadata")
            both = f.data_and_metadata
            ctx.eq(sorted(both.columns), sorted(list(df.columns) + list(m.columns)), "json.metadata", "data and metadata joined")
            ctx.eq(len(both), max(len(df), len(m)), "json.metadata", "rows of data and metadata joined")


def auto(ctx):
    r = ctx.rng
    make, keys = record_maker(r, False)
    recs = [make() for _ in range(r.choice([2, 3, 12, 60]))]
    for x in recs:
        x["id"] = r.randint(0, 9)
    style = r.choice(["array", "lines"])
    text = doc_text(r, recs, style)
    kind, src = source(ctx, r, text)
    if kind == "data":
        kind, src = "text", io.StringIO(text)
    ctx.note(text=text[:500], kind=kind)
    ctx.seen("auto", kind, style, len(recs))
    f = dp.Data(src)
    ctx.eq(f.data_type, "json", "json.auto")
    check_rows(ctx, f.data, recs, "auto")
    if kind == "file" and r.random() < .6:
        # the same reader pointed at another document is as a fresh reader of it
        make2, _ = record_maker(r, False)
        recs2 = [dict(make2(), id=1) for _ in range(r.randint(2, 9))]
        k2, s2 = "file", os.path.join(ctx.tmpdir(), "other.json")
        with open(s2, "w", encoding="utf-8") as fh:
            fh.write(doc_text(r, recs2, r.choice(["array", "lines"])))
        f.reload(s2)
        check_rows(ctx, f.data, recs2, "reloaded")
        ctx.check(True, "json.reload")


SCENARIOS = [("records", 5, records), ("single", 3, single), ("payload", 2, payload), ("auto", 2, auto)]
