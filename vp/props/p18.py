"""CSV reading: cell-for-cell fidelity, header positions, column selection, row sampling, records, buffers, batches."""
import csv
import io
import os
from collections import Counter

import numpy as np
import pandas as pd

import dataprofiler as dp
from dataprofiler.data_readers.csv_data import CSVData

from .. import core, gen, util

PROP = "P18"
RULE = ("generated tables (quoted delimiters, quotes and line breaks, unicode, blanks, leading zeros, null-like words; several delimiters, quote "
        "characters, line ends, encodings, header positions) written to files, strings and buffers and read back; non-trivial = cells needing "
        "quotes or non-ASCII; distinct by (dialect, shape, source)")
CASES = {"quick": 1400, "thorough": 12000}
REQUIRED = ["chk.csv.cells", "chk.csv.columns", "chk.csv.auto", "chk.csv.sample_size", "chk.csv.sample_rows", "chk.csv.records", "chk.csv.batches",
            "chk.csv.selected", "chk.csv.buffer_again", "chk.csv.uniform", "chk.csv.reload"]

PLAIN = ["alpha", "beta", "Gamma", "x1", "007", "1.50", "-3", "1e5", "NA", "nan", "null", "None", "", "2020-01-02", "True", "naïve", "日本", "a b", "N/A"]
HARD = [" lead", "trail ", "x,y", "a;b", "p|q", "t\tt", 'say "hi"', "it's", "two\nlines", "'q'", '"', "''", "a:b", "~", "😀", "end\\", "#no"]
NAMES = ["id", "name", "value", "amount", "city", "when", "code", "note", "größe", "名", "First Name", "x_1", "total (%)", "a-b"]


def _eq(ctx, sig, got, want, **kw):
    return ctx.eq(got, want, sig, str(kw or ""))


def _ck(ctx, sig, ok, msg, **kw):
    return ctx.check(ok, sig, f"{msg} {kw or ''}")


def cell(r, hard):
    return r.choice(HARD) if r.random() < hard else (r.choice(PLAIN) if r.random() < .6 else r.choice([gen.word(r), str(r.randint(-999, 99999)), f"{r.random():.4f}"]))


def table(r, n, k, hard=.2, ban=""):
    def one():
        while True:
            c = cell(r, hard)
            if not any(b in c for b in ban):
                return c
    names = r.sample(NAMES, k)
    rows = [[one() for _ in range(k)] for _ in range(n)]
    for row in rows:            # a row of only empty cells is not distinguishable from a blank line with one column
        if all(c == "" for c in row):
            row[0] = "x"
    return names, rows


def text_of(r, names, rows, delim, quote, eol, all_quoted, header=True):
    s = io.StringIO()
    w = csv.writer(s, delimiter=delim, quotechar=quote, lineterminator=eol, quoting=csv.QUOTE_ALL if all_quoted else csv.QUOTE_MINIMAL)
    if header:
        w.writerow(names)
    w.writerows(rows)
    return s.getvalue()


def same_table(ctx, df, names, rows, what, **kw):
    _eq(ctx, "csv.columns", [str(c) for c in df.columns], [str(n) for n in names], how=what, **kw)
    got = df.values.tolist()
    _eq(ctx, "csv.rows", len(got), len(rows), how=what, **kw)
    for i, (a, b) in enumerate(zip(got, rows)):
        if a != b:
            j = next(j for j in range(max(len(a), len(b))) if a[j:j + 1] != b[j:j + 1])
            _ck(ctx, "csv.cells", False, f"row {i} column {j}: read {a[j:j+1]!r}, file has {b[j:j+1]!r}", how=what, **kw)
            return
    _ck(ctx, "csv.cells", True, "")
    ctx.count("cells", len(rows) * len(names))


def dialect(r):
    return r.choice([",", ",", ";", "\t", "|", ":", "~", "^"]), r.choice(['"', '"', '"', "'"]), r.choice(["\n", "\n", "\r\n"]), r.random() < .3


def write(ctx, r, text, enc="utf-8"):
    p = os.path.join(ctx.tmpdir(), f"f{r.randrange(10**9)}.csv")
    with open(p, "w", encoding=enc, newline="") as f:
        f.write(text)
    return p


def sources(ctx, r, text, enc):
    """the same document as a file, as a byte buffer, as a text buffer"""
    k = r.choice(["file", "file", "bytes", "text"])
    if k == "file":
        return k, write(ctx, r, text, enc)
    if k == "bytes":
        return k, io.BytesIO(text.encode(enc))
    return k, io.StringIO(text, newline=None)


def explicit(ctx):
    """dialect told by the user"""
    r = ctx.rng
    d, q, eol, allq = dialect(r)
    k = r.randint(1, 7)
    n = r.choice([1, 2, 3, 5, 11, 12, 40, 300])
    names, rows = table(r, n, k, hard=r.choice([0, .15, .5]))
    hpos = r.choice([0, 0, 0, 1, 3, None])
    if hpos is None and k > 2 and r.random() < .3:           # a column that is empty throughout, at the end of every line
        rows = [row[:-1] + [""] for row in rows]
        for row in rows:
            row[0] = row[0] or "x"
    if hpos is None and k == 1:
        rows = [[c or "x" for c in row] for row in rows]
    junk = [gen.word(r) + (d if k > 1 else "") for _ in range(hpos or 0)]
    text = "".join(j + eol for j in junk) + text_of(r, names, rows, d, q, eol, allq, header=hpos is not None)
    if r.random() < .3 and text.endswith(eol):
        text = text[:-len(eol)]
    if hpos is None:
        names = list(range(k))
    enc = r.choice(["utf-8", "utf-8", "utf-8", "utf-16", "utf-32"])
    kind, src = sources(ctx, r, text, enc)
    o = {"delimiter": d, "quotechar": q, "header": hpos}
    if kind != "text":
        o["encoding"] = enc
    ctx.note(shape=(n, k), dialect=(d, q, eol, allq), header=hpos, enc=enc, src=kind)
    ctx.seen(d, q, eol, allq, hpos, enc, kind, k)
    f = CSVData(src, options=dict(o))
    df = f.data
    same_table(ctx, df, names, rows, "explicit " + kind)
    _eq(ctx, "csv.len", len(f), n)
    if kind != "file":
        again = CSVData(src, options=dict(o)).data if not src.closed else None
        if again is not None:
            same_table(ctx, again, names, rows, "reread " + kind)
            _ck(ctx, "csv.buffer_again", True, "")
    if hpos is not None and k > 1 and r.random() < .4:
        sel = r.sample(names, r.randint(1, k - 1))
        if kind != "file":
            src.seek(0)
        sdf = CSVData(src, options=dict(o, selected_columns=list(sel))).data
        _eq(ctx, "csv.selected", sorted(sdf.columns), sorted(sel))
        for c in sel:
            _eq(ctx, "csv.selected", sdf[c].tolist(), [row[names.index(c)] for row in rows], col=c)
    if r.random() < .3:
        _eq(ctx, "csv.string", CSVData(data=text.replace("\r\n", "\n"), options=dict(o)).data.values.tolist(), rows)


def auto(ctx):
    """a plain table (words, numbers, dates; header of words) is recognised and read without being told anything"""
    r = ctx.rng
    d = r.choice([",", ",", "\t"])
    n = r.choice([4, 6, 9, 12, 30, 200])
    k = r.randint(2, 6)
    kinds = [r.choice(["int", "float", "word", "code"]) for _ in range(k)]
    kinds[r.randrange(k)] = r.choice(["int", "float"])

    def val(kd):
        return {"int": lambda: str(r.randint(-999, 9999)), "float": lambda: f"{r.uniform(-99, 999):.2f}", "word": lambda: r.choice(gen.WORDS),
                "code": lambda: r.choice("abcdef") + f"{r.randint(0, 999):03d}"}[kd]()
    names = r.sample(["identifier", "first_name", "amount", "city", "group", "score", "total", "remark"], k)
    rows = [[val(kd) for kd in kinds] for _ in range(n)]
    allq = False
    text = text_of(r, names, rows, d, '"', r.choice(["\n", "\r\n"]), allq)
    kind, src = sources(ctx, r, text, "utf-8")
    ctx.note(shape=(n, k), delim=d, kinds=kinds, src=kind, allq=allq)
    ctx.seen("auto", d, n, k, kind, tuple(sorted(kinds)), allq)
    f = dp.Data(src)
    _eq(ctx, "csv.auto", f.data_type, "csv")
    same_table(ctx, f.data, names, rows, "auto " + kind)
    _eq(ctx, "csv.auto", f.delimiter, d)
    _eq(ctx, "csv.auto", f.header, 0)
    _ck(ctx, "csv.auto", f.is_structured is True, "dataframe format is structured")


def sample(ctx):
    r = ctx.rng
    d, q, eol, allq = dialect(r)
    n, k = r.choice([1, 5, 20, 100, 1500]), r.randint(2, 4)
    names, rows = table(r, n, k, hard=.2)
    for i, row in enumerate(rows):
        row[0] = f"r{i}"
    if k == 2:                  # one delimiter, at the end of every line, is no delimiter
        rows[0][1] = "z"
    hpos = r.choice([0, 0, 2, None])
    text = "".join("junk" + d + eol for _ in range(hpos or 0)) + text_of(r, names, rows, d, q, eol, allq, header=hpos is not None)
    if r.random() < .3:
        text = text[:-len(eol)]
    m = r.choice([1, 2, n, n + 3, max(1, n // 2), max(1, n - 1)])
    kind, src = sources(ctx, r, text, "utf-8")
    o = {"delimiter": d, "quotechar": q, "header": hpos, "sample_nrows": m}
    ctx.note(n=n, m=m, src=kind, dialect=(d, q, eol, allq), header=hpos)
    ctx.seen("sample", n, m, kind, hpos)
    seed = r.randrange(10**6)
    dp.set_seed(seed)
    df = CSVData(src, options=dict(o)).data
    _eq(ctx, "csv.sample_size", len(df), min(n, m))
    _eq(ctx, "csv.sample_columns", [str(c) for c in df.columns], [str(c) for c in (names if hpos is not None else range(k))])
    got = df.values.tolist()
    ids = [g[0] for g in got]
    _eq(ctx, "csv.sample_distinct", len(set(ids)), len(ids))
    by = {row[0]: row for row in rows}
    for g in got:
        if by.get(g[0]) != g:
            _ck(ctx, "csv.sample_rows", False, f"sampled row {g} is not a row of the file ({by.get(g[0])})")
            return
    _ck(ctx, "csv.sample_rows", True, "")
    if kind == "file":
        dp.set_seed(seed)
        _eq(ctx, "csv.sample_seeded", CSVData(src, options=dict(o)).data.values.tolist(), got)


def uniform(ctx):
    """every row has the same chance of being sampled"""
    r = ctx.rng
    n, m, runs = r.choice([(12, 3, 500), (30, 10, 300), (40, 1, 900), (9, 8, 400)])
    text = "a,b\n" + "".join(f"{i},x\n" for i in range(n))
    p = write(ctx, r, text)
    c = Counter()
    for _ in range(runs):
        dp.set_seed(r.randrange(10**9))
        c.update(int(v) for v in CSVData(p, options={"delimiter": ",", "quotechar": '"', "header": 0, "encoding": "utf-8", "sample_nrows": m}).data["a"])
    _eq(ctx, "csv.uniform_total", sum(c.values()), m * runs)
    pr = m / n
    sd = (runs * pr * (1 - pr)) ** .5
    worst = max(range(n), key=lambda i: abs(c[i] - runs * pr))
    ctx.note(n=n, m=m, runs=runs)
    ctx.seen("uniform", n, m, r.random())
    _ck(ctx, "csv.uniform", abs(c[worst] - runs * pr) < 6 * sd, f"row {worst} of {n} drawn {c[worst]} times in {runs} samples of {m}, expected {runs*pr:.0f}±{sd:.0f}")


def records(ctx):
    r = ctx.rng
    d, q = r.choice([",", ";", "|", "\t"]), r.choice(['"', "'"])
    n, k = r.choice([1, 2, 7, 50]), r.randint(1, 4)
    names, rows = table(r, n, k, hard=.3)
    for row in rows:
        for j in range(k):
            if r.random() < .08:
                row[j] = r.choice(["a\u2028b", "p\x0bq", "\x0c", "u\x85", "x\x1cy"])
    per = r.choice([1, 1, 2, 3, 7, n + 1, n + 5])
    p = write(ctx, r, text_of(r, names, rows, d, q, "\n", False))
    f = CSVData(p, options={"delimiter": d, "quotechar": q, "header": 0, "data_format": "records", "record_samples_per_line": per})
    recs = f.data
    ctx.note(n=n, per=per, d=d, q=q)
    ctx.seen("records", n, per, d, q)
    _ck(ctx, "csv.records", f.is_structured is False, "records are not structured")
    _eq(ctx, "csv.records_count", len(recs), -(-(n + 1) // per))
    _ck(ctx, "csv.records_size", all(len(list(csv.reader(io.StringIO(s), delimiter=d, quotechar=q))) == per for s in recs[:-1]), f"each record but the last holds {per} rows")
    back = list(csv.reader(io.StringIO("\n".join(recs)), delimiter=d, quotechar=q))
    _eq(ctx, "csv.records", back, [names] + rows)
    f.data_format = "dataframe"
    same_table(ctx, f.data, names, rows, "records->dataframe")
    # batches partition the rows
    for i, row in enumerate(rows):
        row[0] = f"r{i}"
    f = CSVData(data=pd.DataFrame(rows, columns=names))
    bs = r.choice([1, 2, 3, n, n + 2])
    bt = list(f.get_batch_generator(bs))
    _eq(ctx, "csv.batches", sorted(map(tuple, sum((b.values.tolist() for b in bt), []))), sorted(map(tuple, rows)))
    _ck(ctx, "csv.batches", all(len(b) == bs for b in bt[:-1]) and 0 < len(bt[-1]) <= bs, f"batch sizes {[len(b) for b in bt]} for {bs}")
    if r.random() < .5:
        f.data_format = "records"
        fl = f.data
        bt = list(f.get_batch_generator(bs))
        _eq(ctx, "csv.batches", Counter(sum(bt, [])), Counter(fl))


def reload(ctx):
    """after loading another file the reader is as a fresh reader of that file"""
    r = ctx.rng
    docs = []
    for _ in range(2):
        d, q, eol, allq = dialect(r)
        n, k = r.randint(5, 30), r.randint(2, 5)
        names, rows = table(r, n, k, hard=.1, ban="\n")
        if k == 2:
            rows[0][1] = "z"
        h = r.choice([0, 0, None])
        if docs and r.random() < .4:                        # the same dialect, which need not be told again
            same = True
            d, q, h = docs[0][2]["delimiter"], docs[0][2]["quotechar"], docs[0][2]["header"]
        else:
            same = False
        docs.append((names if h == 0 else list(range(k)), rows, {"delimiter": d, "quotechar": q, "header": h}, write(ctx, r, text_of(r, names, rows, d, q, eol, allq, header=h == 0))))
    a, b = docs
    first = dict(a[2])
    sel = None
    if a[2]["header"] == 0 and r.random() < .3:
        sel = first["selected_columns"] = [a[0][0]]
    f = CSVData(a[3], options=first)
    same_table(ctx, f.data, sel or a[0], [row[:1] for row in a[1]] if sel else a[1], "first")
    if r.random() < .2:
        f.data_format = "records"
        f.data
    try:
        f.reload(b[3], options=None if same else dict(b[2]))
    except ValueError as e:
        if "does not match" in str(e):
            raise core.Skip("second file not recognised as CSV")
        raise
    _ck(ctx, "csv.reload", True, "")
    same_table(ctx, f.data, b[0], b[1], "reloaded")
    ctx.seen("reload", str(a[2]), str(b[2]))


def profiled(ctx):
    """profiling the file gives the report of profiling the same table held in memory"""
    r = ctx.rng
    df, _, _ = gen.table(r, r.choice([20, 60]))
    df = df.astype(str).reset_index(drop=True).replace({"\x00": ""}, regex=True)      # a text file holds no NUL
    df.columns = [f"col_{i}" for i in range(df.shape[1])]
    p = write(ctx, r, df.to_csv(index=False))
    ctx.seen("profiled", df.shape, r.random())
    f = CSVData(p, options={"delimiter": ",", "quotechar": '"', "header": 0})
    a, b = util.rep(util.profile(f)), util.rep(util.profile(df))
    ga, gb = a["global_stats"], b["global_stats"]
    _eq(ctx, "csv.profile_type", ga.pop("file_type"), "csv")
    gb.pop("file_type"); ga.pop("encoding"), gb.pop("encoding")
    _eq(ctx, "csv.profile", core.deep_diff(a, b), core.deep_diff(b, b))


SCENARIOS = [("explicit", 6, explicit), ("auto", 4, auto), ("sample", 3, sample), ("uniform", 1, uniform), ("records", 2, records), ("reload", 2, reload), ("profiled", 1, profiled)]
