"""Parquet, Avro, text and graph readers; type detection; buffers left usable; profiling of a reader = profiling of its table."""
import csv
import io
import json
import os
from fractions import Fraction
from collections import Counter

import fastavro
import networkx as nx
import numpy as np
import pandas as pd
import pyarrow as pa
import pyarrow.parquet as pq

import dataprofiler as dp
from dataprofiler.data_readers.avro_data import AVROData
from dataprofiler.data_readers.graph_data import GraphData
from dataprofiler.data_readers.parquet_data import ParquetData
from dataprofiler.data_readers.text_data import TextData

from .. import core, gen, util

PROP = "P20"
RULE = ("generated tables, lines and edge lists written as Parquet (several row groups, column types, nulls), Avro (codecs, unions, nesting), text "
        "(encodings, line ends, chunk sizes) and edge-list files, read from files and buffers, explicitly and by detection; non-trivial = nulls, several row "
        "groups or non-ASCII; distinct by (kind, shape, source, options)")
CASES = {"quick": 1600, "thorough": 12000}
REQUIRED = ["chk.pq.cells", "chk.pq.columns", "chk.pq.selected", "chk.pq.sample", "chk.pq.formats", "chk.avro.cells", "chk.text.chars", "chk.text.chunks",
            "chk.graph.nodes", "chk.graph.edges", "chk.graph.attrs", "chk.kind.auto", "chk.kind.buffer", "chk.reader.profile", "chk.pq.labels"]

STR = ["alpha", "", " lead", "trail ", "naïve", "日本", "😀", "007", "nan", "two\nlines", "x,y", 'q"', "None"]


def source(ctx, r, raw, ext):
    if r.random() < .6:
        p = os.path.join(ctx.tmpdir(), f"s{r.randrange(10**9)}{ext}")
        with open(p, "wb") as f:
            f.write(raw)
        return "file", p
    return "bytes", io.BytesIO(raw)


def pq_table(r, n):
    k = r.randint(1, 5)
    cols, types = {}, {}
    for i in range(k):
        kind = r.choice(["str", "str", "int", "float", "bool"])
        nulls = r.choice([0, 0, .3])
        v = {"str": lambda: r.choice(STR) if r.random() < .6 else gen.word(r), "int": lambda: r.choice([r.randint(-10**6, 10**6), 2**53 + 1, 2**62 + 3, -2**63]),
             "float": lambda: r.choice([.5, -2.25, r.random() * 100, 1e-7, 3.0]), "bool": lambda: r.random() < .5}[kind]
        if kind == "bool":
            nulls = 0 if r.random() < .7 else nulls
        name = r.choice(["a", "B", "Col", "größe", "x y"]) + str(i)
        cols[name] = [None if r.random() < nulls else v() for _ in range(n)]
        types[name] = {"str": pa.string(), "int": pa.int64(), "float": pa.float64(), "bool": pa.bool_()}[kind]
    return cols, types


def pq_bytes(r, cols, types, index=None):
    t = pa.table({k: pa.array(v, type=types[k]) for k, v in cols.items()})
    b = io.BytesIO()
    n = t.num_rows
    pq.write_table(t, b, row_group_size=r.choice([max(1, n), max(1, n // 3), 1 if n < 30 else 7]), compression=r.choice(["snappy", "none", "gzip"]))
    return b.getvalue()


def cell_ok(s, v):
    if not isinstance(s, str):
        return False
    if v is None:
        return s in ("nan", "None", "NaN", "<NA>")
    if isinstance(v, bool):
        return s == str(v) or s in ("1.0", "0.0") and float(s) == v
    if isinstance(v, (int, float)):
        try:
            if type(v) is int:
                return Fraction(s) == v
            return float(s) == float(v)
        except ValueError:
            return False
    return s == v


def check_cols(ctx, df, cols, tag, how):
    ctx.eq(list(df.columns), list(cols), tag + ".columns", how)
    n = len(next(iter(cols.values())))
    if not ctx.eq(len(df), n, tag + ".rows", how):
        return
    for k, vs in cols.items():
        got = df[k].tolist()
        intcol = all(type(v) is int for v in vs)
        for i, (s, v) in enumerate(zip(got, vs)):
            if not cell_ok(s, v) or intcol and s != str(v):
                ctx.check(False, tag + ".cells", f"{how} row {i} column {k!r}: read {s!r}, file has {v!r}")
                return
    ctx.check(True, tag + ".cells")
    ctx.count("cells", n * len(cols))


def parquet(ctx):
    r = ctx.rng
    n = r.choice([1, 2, 5, 20, 40])
    cols, types = pq_table(r, n)
    raw = pq_bytes(r, cols, types)
    kind, src = source(ctx, r, raw, ".parquet")
    ng = pq.ParquetFile(io.BytesIO(raw)).num_row_groups
    ctx.note(n=n, cols={k: v[:8] for k, v in cols.items()}, groups=ng, kind=kind)
    ctx.seen("pq", n, len(cols), ng, kind, tuple(map(str, types.values())))
    f = ParquetData(src) if r.random() < .5 else dp.Data(src)
    ctx.eq(f.data_type, "parquet", "kind.auto")
    df = f.data
    check_cols(ctx, df, cols, "pq", f"{kind} groups={ng}")
    ctx.eq(list(df.index), list(range(n)), "pq.labels", f"row labels with {ng} row groups")
    ctx.eq(len(f), n, "pq.len")
    if kind == "bytes":
        src.seek(0)
        check_cols(ctx, ParquetData(src).data, cols, "pq", "reread")
        ctx.check(True, "kind.buffer")
    sel = r.sample(list(cols), r.randint(1, len(cols)))
    if kind == "bytes":
        src = io.BytesIO(raw)
    check_cols(ctx, ParquetData(src, options={"selected_columns": list(sel)}).data, {c: cols[c] for c in sel}, "pq", "selected")
    ctx.check(True, "pq.selected")
    m = r.choice([1, max(1, n // 2), n, n + 2])
    s = ParquetData(io.BytesIO(raw), options={"sample_nrows": m}).data
    ctx.eq(len(s), min(m, n), "pq.sample", f"{m} of {n}")
    ctx.eq(list(s.columns), list(cols), "pq.sample")
    sd = r.randrange(10**6)
    runs = []
    for _ in range(2):
        dp.set_seed(sd)
        d = ParquetData(io.BytesIO(raw), options={"sample_nrows": m})
        runs.append((repr(d.data.values.tolist()), [repr(b.values.tolist()) for b in d.get_batch_generator(max(1, n // 3))]))
    dp.set_seed(None)
    ctx.check(runs[0] == runs[1], "pq.seeded", "the same seed sampled other rows or batched them differently")
    whole, part = Counter(map(tuple, df.values.tolist())), Counter(map(tuple, s.values.tolist()))
    ctx.check(not (part - whole), "pq.sample", f"sampled rows {list((part - whole))[:2]} are not rows of the file")
    s = ParquetData(io.BytesIO(raw), options={"sample_nrows": m, "selected_columns": list(sel)}).data
    ctx.eq(list(s.columns), sel, "pq.sample", "sampled and selected")
    part = Counter(map(tuple, s.values.tolist())) - Counter(map(tuple, df[sel].values.tolist()))
    ctx.check(not part and len(s) == min(m, n), "pq.sample", f"sampled and selected {len(s)} rows, not in the file: {list(part)[:2]}")
    ctx.check(f.is_structured is True, "pq.structured", "a table is structured")
    # other formats
    f.data_format = "json"
    ctx.eq(json.loads("".join(f.data)), df.to_dict(orient="records"), "pq.formats")
    ctx.check(f.is_structured is False, "pq.structured", "JSON text is not structured")
    f.data_format = "records"
    ctx.check(f.is_structured is False, "pq.structured", "records are not structured")
    ctx.eq([json.loads(x) for x in "\n".join(f.data).split("\n")], df.to_dict(orient="records"), "pq.formats")
    f.data_format = "dataframe"
    ctx.check(f.data.equals(df), "pq.formats", "back to the table")


def core_isnum(x):
    try:
        float(x)
        return x == x.strip()
    except ValueError:
        return False


def avro(ctx):
    r = ctx.rng
    n = r.choice([1, 3, 12, 40])
    k = r.randint(1, 4)
    fields, makers = [], {}
    for i in range(k):
        kind = r.choice(["string", "string", "long", "double", "boolean", "record"])
        name = r.choice(["a", "B", "col"]) + str(i)
        t = kind
        mk = {"string": lambda: r.choice(STR), "long": lambda: r.choice([r.randint(-10**9, 10**9), 2**53 + 1, -2**62 - 1]), "double": lambda: r.random() * 10, "boolean": lambda: r.random() < .5,
              "record": lambda: {"u": r.choice(STR), "v": r.randint(0, 9)}}[kind]
        if kind == "record":
            t = {"type": "record", "name": f"R{i}", "fields": [{"name": "u", "type": "string"}, {"name": "v", "type": "long"}]}
        opt = kind in ("string", "double", "long") and r.random() < .4
        fields.append({"name": name, "type": [t, "null"] if opt else t})
        makers[name] = (lambda mk=mk, opt=opt: None if opt and r.random() < .3 else mk())
    recs = [{nm: mk() for nm, mk in makers.items()} for _ in range(n)]
    b = io.BytesIO()
    fastavro.writer(b, fastavro.parse_schema({"type": "record", "name": "T", "fields": fields}), recs, codec=r.choice(["null", "deflate"]), sync_interval=r.choice([16000, 64]))
    raw = b.getvalue()
    kind, src = source(ctx, r, raw, ".avro")
    ctx.note(recs=recs[:4], kind=kind, n=n)
    ctx.seen("avro", n, kind, tuple(str(f["type"])[:30] for f in fields))
    f = AVROData(src) if r.random() < .5 else dp.Data(src)
    ctx.eq(f.data_type, "avro", "kind.auto")
    df = f.data
    flat = []
    for x in recs:
        o = {}
        for a, v in x.items():
            if isinstance(v, dict):
                for q, w in v.items():
                    o[f"{a}.{q}"] = w
            else:
                o[a] = v
        flat.append(o)
    cols = {c: [x[c] for x in flat] for c in flat[0]}
    ctx.eq(sorted(df.columns), sorted(cols), "avro.columns")
    check_cols(ctx, df[list(cols)], cols, "avro", kind)
    ctx.check(f.is_structured is True, "avro.structured", "tables are structured")


def text(ctx):
    r = ctx.rng
    lines = [" ".join(r.choice([gen.word(r), gen.word(r), "naïve", "日本", "😀", "", "it's", "(x)"]) for _ in range(r.randint(0, 9))) for _ in range(r.choice([1, 2, 5, 30, 120]))]
    enc = r.choice(["utf-8", "utf-8", "utf-16", "utf-32"])
    eol = r.choice(["\n", "\n", "\r\n"])
    body = eol.join(lines) + r.choice(["", eol])
    want = body.replace("\r\n", "\n")
    raw = body.encode(enc)
    kind, src = source(ctx, r, raw, ".txt")
    o = {"encoding": enc}
    auto = enc == "utf-8" and r.random() < .5
    if auto:
        o = {}
    per = r.choice([None, None, 1, 3, 10, 1000, len(want) + 1])
    if per:
        o["samples_per_line"] = per
    ctx.note(body=body[:300], enc=enc, kind=kind, per=per, auto=auto)
    ctx.seen("text", enc, eol, kind, per, len(lines), auto)
    f = TextData(src, options=dict(o))
    d = f.data
    ctx.eq("".join(d), want, "text.chars", f"{kind} {enc} auto={auto}")
    ctx.check(f.is_structured is False, "text.structured", "text is not structured")
    if want:
        size = min(len(want), per or 10**9)
        ctx.check(all(len(x) == size for x in d[:-1]) and 0 < len(d[-1]) <= size, "text.chunks", f"chunks of {size}: {[len(x) for x in d][:5]}")
    else:
        ctx.check("".join(d) == "", "text.chunks", "nothing from nothing")
    if kind == "bytes" and not src.closed:
        src.seek(0)
        ctx.eq("".join(TextData(src, options=dict(o)).data), want, "kind.buffer")
    s = TextData(data=want, options={k: v for k, v in o.items() if k != "encoding"}) if want else None
    if s is not None:
        ctx.eq(s.data, d, "text.chunks", "string input")
    # several chunks in batches
    if want and per:
        bt = list(f.get_batch_generator(r.randint(1, 5)))
        ctx.eq(Counter(sum(bt, [])), Counter(d), "text.batches")


def graph(ctx):
    r = ctx.rng
    n = r.choice([4, 6, 12, 40])
    ids = r.choice(["int", "int", "word", "signed", "mixed"])

    def node():
        if ids == "int":
            return str(r.randint(0, 400))
        if ids == "word":
            return "n" + r.choice("abcdefghij") + str(r.randint(0, 9))
        if ids == "signed":
            return str(r.randint(-50, 50))
        return r.choice(["7", "300", "x1", "gamma"])
    na = r.randint(0, 3)
    names = ["node_id_dst", "node_id_src"] + [f"attrib_{c}" for c in "abc"[:na]]
    perm = list(range(len(names)))
    if r.random() < .5:
        r.shuffle(perm)
    rows = [[node(), node()] + [r.choice([str(r.randint(0, 9)), f"{r.random()*10:.3f}"]) for _ in range(na)] for _ in range(n)]
    d = r.choice([",", ",", "\t"])
    q = '"'
    if ids == "word" and r.random() < .5:                # nodes that need quoting
        q = r.choice(['"', "'"])
        for row in rows:
            for j in (0, 1):
                if r.random() < .3:
                    row[j] = row[j] + r.choice([d + "x", q, d, "y" + d + d]) + "z"
    out = io.StringIO()
    w = csv.writer(out, delimiter=d, quotechar=q, lineterminator="\n")
    w.writerow([names[i] for i in perm])
    w.writerows([[row[i] for i in perm] for row in rows])
    text = out.getvalue()
    explicit = ids != "int" or na == 0 or r.random() < .5
    above = r.choice([0, 0, 0, 1, 5, 256, 257, 400]) if explicit else 0        # lines above the header
    text = "".join(f"line{d}{i}" + d * (len(names) - 2) + "\n" for i in range(above)) + text
    kind, src = source(ctx, r, text.encode(), ".csv")
    ctx.note(text=text[-500:], kind=kind, ids=ids, above=above)
    ctx.seen("graph", n, ids, na, kind, tuple(perm), d, above)
    if explicit:
        f = GraphData(src, options={"delimiter": d, "quotechar": q, "header": above, "encoding": "utf-8"})
    else:
        f = dp.Data(src)
        ctx.eq(f.data_type, "graph", "kind.auto")
    g = f.data

    def as_node(s):
        try:
            return int(s)
        except ValueError:
            return s
    want = nx.Graph()
    for row in rows:
        want.add_edge(as_node(row[1]), as_node(row[0]), **{names[i]: float(row[i]) for i in range(2, 2 + na)})
    ctx.eq(sorted(map(repr, g.nodes)), sorted(map(repr, want.nodes)), "graph.nodes")
    ctx.eq({frozenset(e) for e in g.edges}, {frozenset(e) for e in want.edges}, "graph.edges")
    for u, v, at in want.edges(data=True):
        if g.has_edge(u, v) and dict(g.edges[u, v]) != at:
            ctx.check(False, "graph.attrs", f"edge {u}-{v}: read {dict(g.edges[u, v])}, file has {at}")
            return
    ctx.check(True, "graph.attrs")


def profiled(ctx):
    """profiling a reader equals profiling the table it returns"""
    r = ctx.rng
    n = r.choice([5, 30])
    cols, types = pq_table(r, n)
    raw = pq_bytes(r, cols, types)
    f = ParquetData(io.BytesIO(raw))
    a, b = util.rep(util.profile(f)), util.rep(util.profile(ParquetData(io.BytesIO(raw)).data.reset_index(drop=True)))
    ctx.seen("profiled", n, len(cols), r.random())
    for x in (a, b):
        for k in ("file_type", "encoding"):
            x["global_stats"].pop(k)
    dd = core.deep_diff(a, b)
    ctx.check(not dd, "reader.profile", f"report of the reader differs from that of its table: {dd[:3]}")
    ctx.check(a["global_stats"]["row_count"] == n, "reader.profile", "row count")


SCENARIOS = [("parquet", 4, parquet), ("avro", 2, avro), ("text", 3, text), ("graph", 3, graph), ("profiled", 1, profiled)]
