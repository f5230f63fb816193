"""Validation flags exactly the rows the configured range and list checks name."""
import copy

import numpy as np
import pandas as pd
from dask import dataframe as dd

from dataprofiler.validators.base_validators import Validator

from .. import core, gen, util

PROP = "P25"
RULE = ("numeric and numeric-text columns (duplicates, negatives, decimals, exponents, nulls, boundaries) checked by random range and list configurations over one or more "
        "columns, as pandas and partitioned dask frames, default and labelled rows, one validator used again and after failed runs; non-trivial = some but not all rows flagged; "
        "distinct by (cells, config, frame kind)")
CASES = {"quick": 1200, "thorough": 12000}
REQUIRED = ["chk.val.range", "chk.val.list", "chk.val.dask", "chk.val.columns", "chk.val.again", "chk.val.reject", "chk.val.data", "chk.val.get"]


def column(r, n):
    kind = r.choice(["int", "float", "text", "mixed"])
    def one():
        v = r.choice([r.randint(-5, 15), r.randint(-5, 15), round(r.uniform(-5, 15), 1), r.choice([0, -0.0, 1e3, 2.5, float(r.randint(0, 9))])])
        if kind == "int":
            return int(v)
        if kind == "float":
            return float(v) if r.random() > .1 else float("nan")
        s = r.choice([str(v), repr(float(v)), f" {v}", f"{float(v):e}", f"{v:+}"])
        return s if kind == "text" else r.choice([s, v])
    return [one() for _ in range(n)], kind


def num(x):
    return float(x)


def config(r, names):
    c = {}
    for n in r.sample(names, r.randint(1, len(names))):
        d = {}
        if r.random() < .7:
            a, b = sorted([r.randint(-6, 16), r.choice([r.randint(-6, 16), r.uniform(-6, 16)])])
            if r.random() < .1:
                a, b = b, a
            d["range"] = {"start": r.choice([a, str(a), float(a)]), "end": r.choice([b, b, str(b)])}
        if r.random() < .7 or not d:
            d["list"] = [r.choice([r.randint(-5, 15), float(r.randint(-5, 15)), 2.5]) for _ in range(r.choice([0, 1, 3, 6]))]
        c[n] = d
    return c


def expect(cols, cfg, labels):
    out = {}
    for n, d in cfg.items():
        out[n] = {}
        for k, v in d.items():
            rows = []
            for lab, x in zip(labels, cols[n]):
                f = num(x)
                hit = (float(v["start"]) <= f <= float(v["end"])) if k == "range" else any(f == float(y) for y in v)
                if hit:
                    rows.append(lab)
            out[n][k] = rows
    return out


def sc_validate(ctx):
    r = ctx.rng
    V = Validator()
    log = []
    ctx.raises(V.get, Warning, "val.get")
    done = False
    for step in range(r.choice([1, 1, 2, 3])):
        n = r.choice([1, 2, 5, 20, 60])
        names = [f"c{i}" for i in range(r.randint(1, 3))]
        cols, kinds = {}, []
        for x in names:
            cols[x], k = column(r, n)
            kinds.append(k)
        df = pd.DataFrame({k: pd.Series(v, dtype=object if t in ("text", "mixed") else None) for (k, v), t in zip(cols.items(), kinds)})
        dask = r.random() < .25
        labels = list(range(n))
        if not dask and r.random() < .3:
            labels = r.sample(range(1000), n)
            df.index = labels
        cfg = config(r, names)
        conf = {"df_type": r.choice(["dask", "Dask"]) if dask else r.choice(["pandas", "PANDAS"]), "known_anomaly_validation": cfg}
        c0 = copy.deepcopy(conf)
        data = dd.from_pandas(df, npartitions=r.randint(1, 3), sort=False) if dask else df
        before = df.copy(deep=True)
        bad = r.random() < .25
        if bad:
            how = r.choice(["key", "type", "empty", "none", "emptycol", "text"])
            x = names[0]
            if how == "key":
                conf["known_anomaly_validation"] = {**cfg, x: {"rng": {}}}
            elif how == "type":
                conf["df_type"] = "spark"
            elif how == "empty":
                conf = {}
            elif how == "none":
                conf = None
            elif how == "emptycol":
                conf["known_anomaly_validation"] = {**cfg, x: {}}
            else:
                df[x] = ["word"] * n
                data = dd.from_pandas(df, npartitions=1, sort=False) if dask else df
                conf["known_anomaly_validation"] = {**cfg, x: {"range": {"start": 0, "end": 5}}}
            log.append(("bad", how))
            try:
                V.validate(data, conf)
                ctx.check(False, "val.reject", f"the configuration {conf} ({how}) was accepted")
            except (TypeError, ValueError, Warning):
                ctx.count("chk.val.reject")
            continue
        V.validate(data, conf)
        got = V.get()
        want = expect(cols, cfg, labels)
        log.append(("dask" if dask else "pandas", cfg))
        ctx.note(step=step, log=log, cols={k: v[:25] for k, v in cols.items()}, labels=labels[:25])
        ctx.seen((str(cols), str(cfg), dask), any(0 < len(x) < n for d in want.values() for x in d.values()))
        ctx.check(set(got) == set(want) and all(set(got[k]) == set(want[k]) for k in want), "val.again" if done else "val.columns",
                  f"results for {[(k, sorted(v)) for k, v in got.items()]}, the configuration names {[(k, sorted(v)) for k, v in want.items()]}")
        for k in want:
            for t in want[k]:
                g = [int(i) for i in got.get(k, {}).get(t, [])]
                ctx.check(g == want[k][t], "val.dask" if dask else f"val.{t}", f"rows of {k} flagged by {t} {cfg[k][t]}: {g}, expected {want[k][t]}")
                ctx.count(f"chk.val.{t}")
        ctx.check(conf == c0, "val.data", "the configuration changed")
        ctx.check(df.equals(before), "val.data", "the data changed")
        done = True
        if step:
            ctx.count("chk.val.again")


SCENARIOS = [("validate", 1, sc_validate)]
