"""Graph profiles describe the graph."""
import math
import os
import warnings

import networkx as nx
import numpy as np
import scipy.stats as st

import dataprofiler as dp
from dataprofiler.data_readers.graph_data import GraphData
from dataprofiler.profilers.graph_profiler import GraphProfiler

from .. import core

PROP = "P17"
RULE = ("random graphs (isolated nodes, self loops, ties between components, few to hundreds of edges) whose edges carry integer-like and "
        "fractional attributes of many distributions, profiled directly, through the reader, twice and after saving and loading, against "
        "direct counts, numpy histograms and refitted distributions; non-trivial = some edges with attributes; distinct by shape")
CASES = {"quick": 320, "thorough": 5000}
REQUIRED = ["chk.graph.nodes", "chk.graph.edges", "chk.graph.degree", "chk.graph.component", "chk.graph.attrs", "chk.graph.hist",
            "chk.graph.fit", "chk.graph.roundtrip", "chk.graph.diff", "chk.graph.empty", "chk.graph.late_attrs"]


def _values(r, n, kind):
    if kind == "int":
        return [float(r.randint(-3, 9)) for _ in range(n)]
    if kind == "somewhat_int":  # a single whole number makes it categorical
        v = [r.uniform(0.1, 0.9) for _ in range(n)]
        v[r.randrange(n)] = float(r.randint(0, 5))
        return v
    if kind == "norm":
        v = [r.gauss(3.3, 1.7) for _ in range(n)]
    elif kind == "uniform":
        v = [r.uniform(-5, 5) for _ in range(n)]
    elif kind == "expon":
        v = [r.expovariate(.7) for _ in range(n)]
    elif kind == "wide":
        v = [r.uniform(-1e6, 1e6) for _ in range(n)]
    else:
        v = [r.lognormvariate(0, .8) for _ in range(n)]
    return [x + 0.123456789 if float(x).is_integer() else x for x in v]


def graph(r, max_edges=40):
    g = nx.Graph()
    names = r.choice([lambda i: i, lambda i: f"n{i}", lambda i: -i])
    k = r.randint(1, 14)
    for i in range(k):
        if r.random() < .5:
            g.add_node(names(i))
    m = r.choice([0, 1, 2, 5, 12, max_edges])
    for _ in range(m):
        a, b = r.randrange(k), r.randrange(k)
        if a == b and r.random() < .8:
            continue
        g.add_edge(names(a), names(b))
    attrs = {}
    if g.number_of_edges():
        for j in range(r.choice([0, 1, 1, 2, 3])):
            kind = r.choice(["int", "int", "somewhat_int", "norm", "uniform", "expon", "lognorm", "wide"])
            attrs[f"a{j}_{kind}"] = kind
            sparse = r.random() < .25  # only some edges carry it
            for (u, v), x in zip(list(g.edges), _values(r, g.number_of_edges(), kind)):
                if sparse and r.random() < .4 and u != list(g.edges)[0][0]:
                    continue
                g[u][v][f"a{j}_{kind}"] = x if kind != "int" or r.random() < .5 else int(x)
    return g, attrs


def _components(g):
    """own union-find over the node list"""
    par = {n: n for n in g.nodes}

    def f(x):
        while par[x] != x:
            par[x] = par[par[x]]
            x = par[x]
        return x
    for u, v in g.edges:
        par[f(u)] = f(v)
    comp = {}
    for n in g.nodes:
        comp.setdefault(f(n), set()).add(n)
    return list(comp.values())


def _ref_fit(vals):
    out = {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for d in (st.norm, st.uniform, st.expon, st.logistic, st.lognorm, st.gamma):
            try:
                fit = d.fit(vals, superfit=True) if d is st.lognorm else d.fit(vals)
            except Exception:
                continue
            out[d.name] = (d.nnlf(fit, np.asarray(vals)), fit)
    return out


def check(ctx, rep, g, attrs, pre=""):
    n, e = len(list(g.nodes)), len(list(g.edges))
    ctx.eq(rep["num_nodes"], n, "graph." + pre + "nodes")
    ctx.eq(rep["num_edges"], e, "graph." + pre + "edges")
    deg = sum(2 for _ in g.edges)
    ctx.close(rep["avg_node_degree"], deg / n, "graph." + pre + "degree")
    comps = _components(g)
    big = max(map(len, comps))
    sizes = {sum(1 for u, v in g.edges if u in c) for c in comps if len(c) == big}
    ctx.check(rep["global_max_component_size"] in sizes, "graph." + pre + "component", lambda: f"{rep['global_max_component_size']} not in {sizes}")
    cat = sorted(a for a in attrs if any(float(d[a]).is_integer() for _, _, d in g.edges(data=True) if a in d))
    con = sorted(set(attrs) - set(cat))
    ctx.eq(sorted(map(str, rep["categorical_attributes"])), cat, "graph." + pre + "attrs", "categorical")
    ctx.eq(sorted(map(str, rep["continuous_attributes"])), con, "graph." + pre + "attrs", "continuous")
    ctx.eq(sorted(map(str, rep["categorical_distribution"])), sorted(attrs), "graph." + pre + "attrs", "distribution keys")
    ctx.eq(sorted(map(str, rep["continuous_distribution"])), sorted(attrs), "graph." + pre + "attrs", "distribution keys")
    for a in attrs:
        vals = [float(d[a]) for _, _, d in g.edges(data=True) if a in d]
        h, f = rep["categorical_distribution"][a], rep["continuous_distribution"][a]
        if a in cat:
            ctx.check(f is None, "graph.one_kind")
            hh, ee = np.histogram(vals, bins="auto")
            ctx.eq([int(x) for x in h["bin_counts"]], hh.tolist(), "graph." + pre + "hist", a)
            ctx.check(np.allclose(h["bin_edges"], ee), "graph." + pre + "hist", lambda: f"{h['bin_edges']} want {ee}")
        else:
            ctx.check(h is None, "graph.one_kind")
            ref = _ref_fit(vals)
            ok = {k: v for k, v in ref.items() if not math.isnan(v[0])}
            best = min(v[0] for v in ok.values()) if ok else None
            if best is None or math.isinf(best):
                continue
            ctx.close(f["scale"], best, "graph." + pre + "fit", "smallest negative log likelihood", rel=1e-6)
            ctx.check(core.isclose(ref[f["name"]][0], best, 1e-6), "graph.fit_name", lambda: f"{f['name']}: {ref[f['name']]} best {best}")
            ctx.check(np.allclose(f["properties"]["best_fit_properties"], ref[f["name"]][1]), "graph.fit_params")
    if attrs:
        ctx.seen(n, e, tuple(attrs.values()), len(comps))


def _rep(p):
    return {k: v for k, v in p.report().items() if k != "times"}


def oneshot(ctx):
    r = ctx.rng
    g, attrs = graph(r)
    ctx.note(edges=list(g.edges(data=True)), nodes=list(g.nodes))
    if g.number_of_nodes() == 0:
        raise core.Skip
    before = nx.Graph(g)
    via = r.choice(["graph", "reader", "update"])
    if via == "graph":
        p = dp.Profiler(g)
    elif via == "reader":
        p = dp.Profiler(GraphData(data=g))
    else:
        p = GraphProfiler(None)
        p.update(g)
    rep = _rep(p)
    check(ctx, rep, g, attrs)
    ctx.check(nx.utils.graphs_equal(g, before), "graph.input", "the graph was changed")
    d = core.deep_diff(rep, _rep(p))
    ctx.check(not d, "graph.repeat", lambda: f"{d}")
    ctx.check("times" not in p.report(remove_disabled_flag=True) or True, "graph.report")
    if r.random() < .5:
        f = os.path.join(ctx.tmpdir(), "g.pkl")
        p.save(f)
        q = GraphProfiler.load(f)
        d = core.deep_diff(rep, _rep(q), rel=0, abs_=0)
        ctx.check(not d, "graph.roundtrip", lambda: f"{d}")
        if r.random() < .5:
            h, ha = graph(r, 12)
            if h.number_of_nodes():
                q.update(h)
                check(ctx, _rep(q), h, ha, "again_")


def big(ctx):
    """many edges: likelihoods are far larger than for toy graphs"""
    r = ctx.rng
    n = r.choice([150, 400, 700])
    kind = r.choice(["norm", "uniform", "expon", "wide"])
    g = nx.Graph()
    for i, x in enumerate(_values(r, n, kind)):
        g.add_edge(i, i + 1, w=x)
    ctx.note(n=n, kind=kind)
    check(ctx, _rep(dp.Profiler(g)), g, {"w": kind}, "big_")


def late(ctx):
    """thousands of edges; one attribute appears, or turns whole, only near the end; a cycle and a star as components"""
    r = ctx.rng
    n = r.choice([1100, 2300, 5200])
    g = nx.Graph()
    kind = r.choice(["cycle", "path", "star"])
    for i in range(n):
        g.add_edge(0 if kind == "star" else i, (i + 1) % n if kind == "cycle" else i + 1, c=float(i % 7))
    for i in range(r.randint(1, 5)):
        g.add_edge(-1 - i, -2 - i, c=1.0)
    es = list(g.edges)
    k = r.randint(1, 5)
    for j in range(k):
        u, v = es[-1 - r.randrange(20)] if r.random() < .7 else es[r.randrange(len(es))]
        g[u][v]["z"] = r.choice([3.0, 2.5, 7.0])
    if not any(float(d["z"]).is_integer() for _, _, d in g.edges(data=True) if "z" in d):
        u, v = es[-1]
        g[u][v]["z"] = 4.0
    ctx.note(n=n, kind=kind)
    check(ctx, _rep(dp.Profiler(g)), g, {"c": "int", "z": "int"}, "late_")


def empty(ctx):
    r = ctx.rng
    p = dp.Profiler(nx.Graph(), profiler_type="graph")
    rep = _rep(p)
    ctx.check(all(v is None for v in rep.values()), "graph.empty", lambda: f"{rep}")
    g, attrs = graph(r, 10)
    if g.number_of_nodes():
        p.update(g)
        check(ctx, _rep(p), g, attrs)
        was = _rep(p)
        p.update(nx.Graph())
        d = core.deep_diff(was, _rep(p))
        ctx.check(not d, "graph.empty", lambda: f"an empty graph changed {d}")
    ctx.raises(lambda: p.update(r.choice([[1, 2], "x", {"a": 1}])), NotImplementedError, "graph.bad_input")


def diffs(ctx):
    r = ctx.rng
    g, ga = graph(r, 10)
    h, ha = graph(r, 10)
    if r.random() < .2:
        h, ha = nx.Graph(g), ga
    if not (g.number_of_nodes() and h.number_of_nodes()):
        raise core.Skip
    ctx.note(g=list(g.edges(data=True)), h=list(h.edges(data=True)))
    p, q = dp.Profiler(g), dp.Profiler(h)
    d, a, b = p.diff(q), _rep(p), _rep(q)
    for k in ("num_nodes", "num_edges", "avg_node_degree", "global_max_component_size"):
        want = "unchanged" if a[k] == b[k] else a[k] - b[k]
        ctx.check(d[k] == want or core.isclose(d[k], want), "graph.diff", lambda: f"{k}: {d[k]} want {want}")
    for k in ("categorical_attributes", "continuous_attributes"):
        x, y = set(a[k]), set(b[k])
        if x == y:
            ctx.eq(d[k], "unchanged", "graph.diff", k)
        else:
            ctx.eq([sorted(s) for s in d[k]], [sorted(x - y), sorted(x & y), sorted(y - x)], "graph.diff", k)
    for k in ("categorical_distribution", "continuous_distribution"):
        x, y = set(a[k]), set(b[k])
        if not x and not y:
            ctx.eq(d[k], "unchanged", "graph.diff", k)
        else:
            ctx.eq([sorted(s) for s in d[k]], [sorted(x - y), sorted(x & y), sorted(y - x)], "graph.diff", k)
    ctx.raises(lambda: p.diff("x"), TypeError, "graph.diff_type")
    ctx.raises(lambda: p + q, NotImplementedError, "graph.add")
    ctx.seen("diff", len(ga), len(ha), tuple(ga.values()), tuple(ha.values()))


SCENARIOS = [("oneshot", 8, oneshot), ("big", 2, big), ("late", 1, late), ("empty", 1, empty), ("diffs", 3, diffs)]
