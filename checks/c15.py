"""C15: JSON round trips, joins of tabular data, and the frozen graph, against plain models."""
import copy
import json
import math
import os
import shutil
import tempfile

import networkx
import numpy
import pandas
from hypothesis import strategies as st

from vp import gen, hist
from vp.harness import Sub, Violation, check

RULE = ("json: at least two different types of attribute values; tables: some but not all nodes match a row or a key repeats; "
        "frozen: at least one edge and a proper subgraph; succession: at least one edge")
ASSUMPTIONS = ["node labels and attribute values are those JSON can express, plus numpy scalars and geometries; "
               "attributes are not called 'id' (reserved by the file format)",
               "table keys are unique; a table that lacks a node's key may be refused, leaving the graph unchanged"]

names = st.sampled_from(["pop", "x", "NAME", "a b", "été", "0", "boundary_node", "county", "k1", "k2"])
plain = st.one_of(st.integers(-5, 5), st.integers(-2**53, 2**53), st.booleans(), st.none(), st.text(max_size=4),
                  st.floats(allow_nan=False, width=64), st.sampled_from(["001", "", "NaN", 0, 0.0, -0.5, 1e300]),
                  st.just(["nan"]), st.just(["inf"]))
tagged = st.one_of(plain,
                   st.tuples(st.just("i64"), st.integers(-2**60, 2**60)).map(list),
                   st.tuples(st.just("i8"), st.integers(-128, 127)).map(list),
                   st.tuples(st.just("u32"), st.integers(0, 2**32 - 1)).map(list),
                   st.tuples(st.just("f64"), st.floats(-1e9, 1e9)).map(list),
                   st.tuples(st.just("f32"), st.integers(-100, 100).map(lambda i: i / 4)).map(list),
                   st.tuples(st.just("f32"), st.floats(width=32, allow_nan=False, allow_infinity=False)).map(list),
                   st.tuples(st.just("f16"), st.floats(width=16, allow_nan=False, allow_infinity=False)).map(list),
                   st.tuples(st.just("u64"), st.integers(0, 2**64 - 1)).map(list),
                   st.tuples(st.just("i16"), st.integers(-2**15, 2**15 - 1)).map(list),
                   st.tuples(st.just("nlist"), st.lists(st.integers(-9, 2**40), max_size=3)).map(list),
                   st.tuples(st.just("b"), st.booleans()).map(list),
                   st.tuples(st.just("list"), st.lists(st.integers(0, 9), max_size=3)).map(list),
                   st.tuples(st.just("dict"), st.dictionaries(st.sampled_from(["a", "b"]), st.integers(0, 9), max_size=2)).map(list))
geom = st.one_of(st.tuples(st.just("pt"), st.integers(-9, 9), st.integers(-9, 9)).map(list),
                 st.tuples(st.just("box"), st.integers(-9, 9), st.integers(1, 9)).map(list),
                 st.tuples(st.just("multi"), st.integers(-9, 9), st.integers(1, 9)).map(list),
                 st.tuples(st.just("fine"), st.integers(-9, 9), st.integers(1, 9)).map(list))


def make(v):
    import shapely.geometry as sg

    if not isinstance(v, list):
        return v
    t = v[0]
    if t == "nan":
        return math.nan
    if t == "inf":
        return math.inf
    if t == "nlist":
        return [numpy.int64(x) for x in v[1]]
    if t in ("i64", "i16", "i8", "u64", "u32", "f64", "f32", "f16", "b"):
        return {"i64": numpy.int64, "i8": numpy.int8, "u32": numpy.uint32, "f64": numpy.float64, "f32": numpy.float32, "f16": numpy.float16, "u64": numpy.uint64, "i16": numpy.int16,
                "b": numpy.bool_}[t](v[1])
    if t in ("list", "dict"):
        return v[1]
    if t == "pt":
        return sg.Point(v[1], v[2])
    if t == "box":
        return sg.box(v[1], 0, v[1] + v[2], 1)
    if t == "fine":  # with vertices along straight sides, coordinates of many digits and a hole
        x, w = v[1] + 1 / 3, v[2] / 7
        return sg.Polygon([(x, 0), (x + w / 2, 0), (x + w, 0), (x + w, 1 / 9), (x + w, 1), (x, 1)],
                          [[(x + w / 4, 0.25), (x + w / 4, 0.5), (x + w / 2, 0.5 + 1e-9), (x + w / 2, 0.25)]])
    return sg.MultiPolygon([sg.box(v[1], 0, v[1] + v[2], 1), sg.box(v[1], 5, v[1] + v[2], 6)])


def is_geom(v):
    return isinstance(v, list) and v[0] in ("pt", "box", "multi", "fine")


def value(v):
    """What a JSON file can say about it."""
    x = make(v)
    return x.item() if isinstance(x, numpy.generic) else x


def same(a, b):
    if isinstance(a, float) and isinstance(b, float) and (a != a or b != b):
        return a != a and b != b
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, (bool, numpy.bool_)) and isinstance(b, (bool, numpy.bool_)) and bool(a) == bool(b)
    if (a is None) != (b is None) or isinstance(a, str) != isinstance(b, str):
        return False
    return type(a) in (int, float, str, type(None), list, dict) and a == b


@st.composite
def json_cases(draw):
    spec = draw(gen.graphs(1, 7, connected=False))
    if spec["label"] == "tuple":
        spec["label"] = "str"
    n, m = spec["n"], len(spec["edges"])
    geo = draw(st.booleans())
    val = st.one_of(tagged, geom) if geo else tagged
    return {"g": spec, "nodes": draw(st.lists(st.dictionaries(names, val, max_size=4), min_size=n, max_size=n)),
            "edges": draw(st.lists(st.dictionaries(names, tagged, max_size=3), min_size=m, max_size=m)),
            "graph": draw(st.dictionaries(st.sampled_from(["crs", "name", "z"]), plain, max_size=2)),
            "geojson": draw(st.booleans()), "frozen": draw(st.sampled_from([0, 0, 1])), "again": draw(st.booleans()),
            "loops": draw(loops(n)), "pad": draw(st.sampled_from([0, 0, 0, 12, 40, 150]))}


def loops(n):
    return st.one_of(st.just([]), st.just([]), st.lists(st.integers(0, n - 1), unique=True, max_size=2))


def add_loops(spec, which):
    """Edges from a node to itself: rare, but legal."""
    return dict(spec, edges=spec["edges"] + [[i, i] for i in which])


def state(g):
    return ([(repr(v), [(k, type(x).__name__, repr(x)) for k, x in d.items()]) for v, d in g.nodes(data=True)],
            [(repr(a), repr(b), [(k, type(x).__name__, repr(x)) for k, x in d.items()]) for a, b, d in g.edges(data=True)],
            [(k, repr(x)) for k, x in g.graph.items()])


def run_json(c):
    import shapely.geometry as sg

    from gerrychain import Graph, Partition

    more = c.get("loops", [])
    pad = {"p%d" % i: i for i in range(c.get("pad", 0))}
    c = dict(c, g=add_loops(c["g"], more), edges=c["edges"] + [{"x": 5}] * len(more), nodes=[{**pad, **d} for d in c["nodes"]])
    g, lab = gen.build_nx(c["g"])
    for i, v in enumerate(lab):
        g.nodes[v].update({k: make(x) for k, x in c["nodes"][i].items()})
    for (a, b), d in zip(c["g"]["edges"], c["edges"]):
        g.edges[lab[a], lab[b]].update({k: make(x) for k, x in d.items()})
    g.graph.update({k: make(x) for k, x in c["graph"].items()})
    src = g
    if c["frozen"]:
        src = Partition(g, {v: 1 for v in lab}, use_default_updaters=False).graph
    d = tempfile.mkdtemp(prefix="vpc15")
    try:
        f = os.path.join(d, "g.json")
        before = state(g)
        src.to_json(f, include_geometries_as_geojson=True) if c["geojson"] else src.to_json(f)
        check(state(g) == before, "to_json changed the graph")
        h = Graph.from_json(f)
        check(isinstance(h, Graph), lambda: f"from_json gives a {type(h)}")
        compare(c, lab, h, False)
        if c["again"]:
            h.to_json(f)
            compare(c, lab, Graph.from_json(f), True)
    finally:
        shutil.rmtree(d)
    kinds = {type(value(x)).__name__ for dd in c["nodes"] + c["edges"] for x in dd.values()}
    return {"nt": len(kinds) > 1, "tags": (["geom"] if any(is_geom(x) for dd in c["nodes"] for x in dd.values()) else [])}


def compare(c, lab, h, twice):
    import shapely.geometry as sg

    check(set(h.nodes) == set(lab) and len(h.nodes) == len(lab), lambda: f"nodes after loading {list(h.nodes)}, saved {lab}")
    check(all(type(a) is (int if isinstance(b, numpy.integer) else type(b)) for a in h.nodes for b in lab if a == b), "a node's type changed")
    want = {frozenset((lab[a], lab[b])) for a, b in c["g"]["edges"]}
    check({frozenset(e) for e in h.edges} == want and len(h.edges) == len(want), lambda: f"edges after loading {list(h.edges)}, saved {want}")
    for i, v in enumerate(lab):
        attrs(c["nodes"][i], h.nodes[v], c["geojson"], f"node {v!r}")
    for (a, b), d in zip(c["g"]["edges"], c["edges"]):
        attrs(d, h.edges[lab[a], lab[b]], c["geojson"], f"edge {(lab[a], lab[b])}")
    attrs(c["graph"], h.graph, False, "graph")


def attrs(d, got, geojson, what):
    import shapely.geometry as sg

    want = {k: x for k, x in d.items() if geojson or not is_geom(x)}
    check(set(got) == set(want), lambda: f"{what} has the attributes {sorted(got)}, should be {sorted(want)}")
    for k, x in want.items():
        if is_geom(x):
            ok = isinstance(got[k], dict) and sg.shape(got[k]).equals_exact(make(x), 1e-12) and got[k]["type"] == make(x).geom_type
            check(ok, lambda: f"{what} attribute {k}: {got[k]!r} is not the GeoJSON of {make(x)}")
        else:
            check(same(value(x), got[k]), lambda: f"{what} attribute {k}: {got[k]!r}, saved {make(x)!r}")


cell = {"int": st.integers(-9, 9**9), "float": st.one_of(st.floats(-1e6, 1e6), st.just("nan")), "str": st.text(max_size=3),
        "bool": st.booleans(), "obj": st.one_of(st.none(), st.integers(0, 3), st.text(max_size=2))}


@st.composite
def table_cases(draw):
    spec = draw(gen.graphs(1, 8, connected=False))
    n = spec["n"]
    kind = draw(st.sampled_from(["add", "join", "join", "join"]))
    existing = draw(st.lists(st.dictionaries(st.sampled_from(["c0", "c1", "old", "other"]), st.integers(100, 110), max_size=3), min_size=n, max_size=n))
    lefts = draw(st.booleans()) if kind == "join" else False
    # the keys of the nodes: their labels, or an attribute that may repeat or be missing
    keys = draw(st.lists(st.one_of(st.none(), st.integers(0, 6), st.integers(0, 6)), min_size=n, max_size=n)) if lefts else list(range(n))
    full = draw(st.sampled_from([True, True, False])) if kind == "join" else draw(st.booleans())
    universe = list(range(0, 7)) if lefts else list(range(n))
    rows = universe if full else draw(st.lists(st.sampled_from(universe), unique=True, min_size=0, max_size=len(universe)))
    rows = draw(st.permutations(rows))
    extra = draw(st.integers(0, 2))
    ncol = draw(st.integers(1, 3))
    kinds = [draw(st.sampled_from(sorted(cell))) for _ in range(ncol)]
    total = len(rows) + extra
    cols = [draw(st.lists(cell[k], min_size=total, max_size=total)) for k in kinds]
    return {"g": spec, "kind": kind, "existing": existing, "lefts": lefts, "keys": keys, "rows": list(rows), "extra": extra,
            "kinds": kinds, "cols": cols, "right": draw(st.booleans()) if kind == "join" else False,
            "columns": draw(st.one_of(st.none(), st.lists(st.integers(0, ncol - 1), unique=True, min_size=draw(st.sampled_from([0, 1, 1, 1])), max_size=ncol))),
            "keystr": draw(st.sampled_from([0, 1, 2, 3])), "twice": draw(st.booleans()), "form": draw(st.sampled_from(["list", "list", "tuple", "generator", "keys", "index"]))}


def num(x):
    return math.nan if x == "nan" else x


def run_table(c):
    n = c["g"]["n"]
    g, lab = gen.build_nx(c["g"])
    model = []
    # kinds 2 and 3 have a first key that is falsy
    key = {0: lambda i: i + 3, 1: lambda i: "k%d" % i, 2: lambda i: i, 3: lambda i: "k" * i}[int(c["keystr"])]
    for i, v in enumerate(lab):
        d = dict(c["existing"][i])
        if c["lefts"] and c["keys"][i] is not None:
            d["KEY"] = key(c["keys"][i])
        g.nodes[v].update(d)
        model.append(d)
    if c["lefts"]:
        rowkeys = [key(r) for r in c["rows"]] + [key(100 + j) for j in range(c["extra"])]
    else:
        rowkeys = [lab[r] for r in c["rows"]] + [gen.node_label(c["g"]["label"], 60 + j) for j in range(c["extra"])]
    data = {}
    for j, (kind, col) in enumerate(zip(c["kinds"], c["cols"])):
        vals = [num(x) for x in col]
        data["c%d" % j] = pandas.Series(vals, dtype={"int": "int64", "float": "float64", "bool": bool}.get(kind, object))
    df = pandas.DataFrame(data)
    columns = None if c["columns"] is None else ["c%d" % j for j in c["columns"]]
    if c["right"]:
        df["RK"] = pandas.Series(rowkeys, dtype=object)
        df.index = [1000 + 3 * i for i in range(len(df))]
    else:
        df.index = pandas.Index(rowkeys, tupleize_cols=False)
    copydf = df.copy(deep=True)
    shaped = {"list": list, "tuple": tuple, "generator": lambda x: (y for y in x), "keys": lambda x: dict.fromkeys(x).keys(), "index": lambda x: pandas.Index(x, dtype=object)}[c.get("form", "list")]
    used = columns if columns is not None else ["c%d" % j for j in range(len(c["cols"]))]
    where = {k: i for i, k in enumerate(rowkeys)}
    nodekeys = [d.get("KEY") if c["lefts"] else lab[i] for i, d in enumerate(model)]
    has = [not c["lefts"] or "KEY" in d for d in model]
    missing = [i for i in range(n) if has[i] and nodekeys[i] not in where]
    before = state(g)
    refused = False
    for _ in range(2 if c["twice"] else 1):
        try:
            if c["kind"] == "add":
                g.add_data(df, columns=shaped(columns)) if columns is not None else g.add_data(df)
            else:
                kw = {}
                if columns is not None:
                    kw["columns"] = columns
                if c["lefts"]:
                    kw["left_index"] = "KEY"
                if c["right"]:
                    kw["right_index"] = "RK"
                g.join(df, **kw)
        except KeyError:
            if c["kind"] == "join" and missing:
                refused = True
                check(state(g) == before, "a refused join changed the graph")
            else:
                raise
    check(df.equals(copydf) and list(df.columns) == list(copydf.columns) and list(df.index) == list(copydf.index), "the table was changed")
    matched = 0
    if not refused:
        for i, d in enumerate(model):
            if has[i] and nodekeys[i] in where:
                r = where[nodekeys[i]]
                matched += 1
                d.update({"c%d" % j: num(c["cols"][j][r]) for j in range(len(c["cols"])) if "c%d" % j in used})
    for i, v in enumerate(lab):
        got = g.nodes[v]
        check(set(got) == set(model[i]), lambda: f"node {v!r} has {sorted(got)}, should have {sorted(model[i])}")
        for k, x in model[i].items():
            y = got[k]
            y = y.item() if isinstance(y, numpy.generic) else y
            ok = (x != x and y != y) or (x == y and isinstance(x, str) == isinstance(y, str)) or (x is None and y is None)
            check(ok, lambda: f"node {v!r} attribute {k} is {y!r}, should be {x!r}")
    edges = {frozenset((lab[a], lab[b])) for a, b in c["g"]["edges"]}
    check(set(g.nodes) == set(lab) and {frozenset(e) for e in g.edges} == edges, "the table changed the graph's nodes or edges")
    dup = len({k for k in nodekeys if k is not None}) < len([k for k in nodekeys if k is not None])
    return {"nt": refused or matched > 0, "tags": [c["kind"], "refused" if refused else "set"] + (["repeated-key"] if dup else [])
            + (["partial"] if matched < n else [])}


@st.composite
def frozen_cases(draw):
    spec = draw(gen.graphs(1, 9, connected=False))
    n, m = spec["n"], len(spec["edges"])
    q = st.tuples(st.sampled_from(["neighbors", "degree", "lookup", "sub", "getitem", "iter", "sets", "misc", "frozen"]),
                  st.integers(0, n - 1), st.integers(0, 1), st.lists(st.integers(0, n - 1), max_size=n)).map(list)
    return {"g": spec, "a": draw(st.lists(st.integers(0, 9), min_size=n, max_size=n)),
            "b": draw(st.lists(st.integers(0, 9), min_size=n, max_size=n)),
            "w": draw(st.lists(st.integers(0, 9), min_size=m, max_size=m)),
            "nx": draw(st.booleans()), "qs": draw(st.lists(q, min_size=3, max_size=12)) + [
                ["sub", 0, draw(st.integers(0, 1)), draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=max(1, n - 1)))]], "drop": draw(st.integers(0, max(0, m - 1))),
            "plan": draw(hist.plans(spec, 1, 3)), "loops": draw(loops(n))}


def run_frozen(c):
    from gerrychain import Graph, Partition

    n = c["g"]["n"]
    more = c.get("loops", [])
    c = dict(c, g=add_loops(c["g"], more), w=c["w"] + [7] * len(more))
    cls = networkx.Graph if c["nx"] else Graph
    lab = [gen.node_label(c["g"]["label"], i) for i in range(n)]
    fields = ["a", "b"]
    worlds = []
    # two graphs with the same labels, other data and one edge less: answers must not mix
    for t in range(2):
        edges = [e for i, e in enumerate(c["g"]["edges"]) if not (t == 1 and i == c["drop"])]
        spec = dict(c["g"], edges=edges)
        vals = {"a": c["a"] if t == 0 else [x + 100 for x in c["a"]], "b": c["b"] if t == 0 else [x + 200 for x in c["b"]]}
        g, _ = gen.build_nx(spec, vals, {"w": [c["w"][i] + 10 * t for i in range(len(edges))]}, cls=cls)
        p = Partition(g, {lab[i]: c["plan"][i] for i in range(n)}, use_default_updaters=False)
        worlds.append((p.graph, gen.adjacency(spec), vals, {frozenset((lab[a], lab[b])): c["w"][i] + 10 * t for i, (a, b) in enumerate(edges)}, p))
    proper = False
    for q, i, t, nodes in c["qs"]:
        for fg, adj, vals, weights, p in (worlds[t], worlds[1 - t]):
            proper |= query(fg, q, i, nodes, lab, adj, vals, weights, fields, 0)
    for fg, adj, vals, weights, p in worlds:
        for j in set(c["plan"]):
            members = [i for i in range(n) if c["plan"][i] == j]
            audit(p.subgraphs[j], members, lab, adj, vals, weights, f"subgraphs[{j}]")
        audit(fg, range(n), lab, adj, vals, weights, "partition.graph")
    return {"nt": bool(c["g"]["edges"]) and proper, "tags": ["nx" if c["nx"] else "Graph"]}


@st.composite
def succession_cases(draw):
    spec = draw(gen.graphs(1, 8, connected=False))
    n, m = spec["n"], len(spec["edges"])
    return {"g": spec, "a": draw(st.lists(st.integers(0, 9), min_size=n, max_size=n)), "w": draw(st.lists(st.integers(0, 9), min_size=m, max_size=m)),
            "nx": draw(st.booleans()), "rounds": draw(st.integers(3, 10)), "plan": draw(hist.plans(spec, 1, 3)),
            "collect": draw(st.sampled_from([True, True, False])), "subs": draw(st.booleans()),
            "qs": draw(st.lists(st.sampled_from(["lookup", "lookup", "neighbors", "degree", "getitem", "sets", "misc"]), max_size=2))}


def run_succession(c):
    """One graph after another with the same labels, each thrown away before the next is made: an answer never comes from a dead one.

    Few kinds of query per case, because a cache behind one of them may be what keeps a graph alive."""
    import gc

    from gerrychain import Graph, Partition

    n = c["g"]["n"]
    cls = networkx.Graph if c["nx"] else Graph
    lab = [gen.node_label(c["g"]["label"], i) for i in range(n)]
    g = p = None
    for t in range(c["rounds"]):
        edges = [e for i, e in enumerate(c["g"]["edges"]) if len(c["g"]["edges"]) < 2 or i != t % len(c["g"]["edges"])]
        spec = dict(c["g"], edges=edges)
        vals = {"a": [x + 100 * t for x in c["a"]], "b": [x - 50 * t for x in c["a"]]}
        w = [c["w"][i] + 10 * t for i in range(len(edges))]
        g, _ = gen.build_nx(spec, vals, {"w": w}, cls=cls)
        p = Partition(g, {lab[i]: c["plan"][i] for i in range(n)}, use_default_updaters=False)
        adj, weights = gen.adjacency(spec), {frozenset((lab[a], lab[b])): w[i] for i, (a, b) in enumerate(edges)}
        for q in c["qs"]:
            for i in range(n):
                query(p.graph, q, i, [], lab, adj, vals, weights, ["a", "b"], 0)
        if not c["qs"]:
            audit(p.graph, range(n), lab, adj, vals, weights, f"graph number {t}")
        if c["subs"] and not c["qs"]:
            for j in set(c["plan"]):
                audit(p.subgraphs[j], [i for i in range(n) if c["plan"][i] == j], lab, adj, vals, weights, f"subgraph {j} of graph number {t}")
        g = p = None
        if c["collect"]:
            gc.collect()
    return {"nt": bool(c["g"]["edges"]), "tags": ["nx" if c["nx"] else "Graph"]}


def audit(h, members, lab, adj, vals, weights, what):
    members = list(members)
    ms = {lab[i] for i in members}
    check(set(h.nodes) == ms and set(h) == ms and len(h) == len(ms) and set(h.node_indices) == ms,
          lambda: f"{what}: nodes {set(h.nodes)}, iterates {list(h)}, should be {ms}")
    check(len(list(h)) == len(ms), lambda: f"{what}: iteration repeats nodes")
    want = {frozenset((lab[i], lab[j])) for i in members for j in adj[i] if lab[j] in ms}
    check({frozenset(e) for e in h.edges} == want and {frozenset(e) for e in h.edge_indices} == want and len(h.edge_indices) == len(want),
          lambda: f"{what}: edges {list(h.edges)}, should be {want}")
    for i in members:
        nb = {lab[j] for j in adj[i] if lab[j] in ms}
        got = list(h.neighbors(lab[i]))
        check(set(got) == nb and len(got) == len(nb), lambda: f"{what}: neighbours of {lab[i]!r}: {got}, should be {nb}")
        deg = len(nb) + (lab[i] in nb)
        check(h.degree(lab[i]) == deg, lambda: f"{what}: degree of {lab[i]!r} is {h.degree(lab[i])}, should be {deg}")
        check(set(h[lab[i]]) == nb, lambda: f"{what}: graph[{lab[i]!r}]")
        for f in vals:
            check(h.lookup(lab[i], f) == vals[f][i] and h.nodes[lab[i]][f] == vals[f][i],
                  lambda: f"{what}: {f} of {lab[i]!r} is {h.lookup(lab[i], f)}, should be {vals[f][i]}")
    for e in want:
        a, b = (*e, *e)[:2] if len(e) == 1 else tuple(e)
        check(h.edges[a, b]["w"] == weights[e], lambda: f"{what}: weight of {e}")


def query(fg, q, i, nodes, lab, adj, vals, weights, fields, depth):
    v = lab[i]
    nb = {lab[j] for j in adj[i]}
    if q == "neighbors":
        got = list(fg.neighbors(v))
        check(set(got) == nb and len(got) == len(nb), lambda: f"neighbors({v!r}) = {got}, should be {nb}")
    elif q == "degree":
        deg = len(nb) + (v in nb)
        check(fg.degree(v) == deg, lambda: f"degree({v!r}) = {fg.degree(v)}, should be {deg}")
    elif q == "lookup":
        for f in fields:
            check(fg.lookup(v, f) == vals[f][i], lambda: f"lookup({v!r}, {f}) = {fg.lookup(v, f)}, should be {vals[f][i]}")
        refuse(lambda: fg.lookup(v, "no such field"), "a missing field")
    elif q == "getitem":
        check(set(fg[v]) == nb, lambda: f"graph[{v!r}] = {set(fg[v])}")
    elif q == "iter":
        check(sorted(map(repr, fg)) == sorted(map(repr, lab)) and len(fg) == len(lab) and fg.size == len(lab), "iteration or length")
    elif q == "sets":
        check(set(fg.node_indices) == set(lab), "node_indices")
        check({frozenset(e) for e in fg.edge_indices} == set(weights) and len(fg.edge_indices) == len(weights), "edge_indices")
    elif q == "misc":
        check(v in fg and v in fg.nodes and "no such node" not in fg.nodes, "membership")
        check({frozenset(e) for e in fg.edges} == set(weights), "edges")
        check(set(fg.islands) == {lab[j] for j in range(len(lab)) if not adj[j]}, "islands")
    elif q == "frozen":
        before = state(fg.graph)
        for f in (lambda: fg.add_node("x"), lambda: fg.add_edge(v, "y"), lambda: fg.remove_node(v), lambda: fg.clear(),
                  lambda: fg.join(pandas.DataFrame({"z": [1]}, index=[v])),
                  lambda: fg.add_data(pandas.DataFrame({"z": [1]}, index=[v]))):
            try:
                f()
            except Exception:
                continue
            raise Violation("the graph of a partition could be changed")
        check(state(fg.graph) == before, "a refused change took effect")
    else:
        sub = [j for j in range(len(lab)) if j in set(nodes)]
        h = fg.subgraph([lab[j] for j in nodes])
        audit(h, sub, lab, adj, vals, weights, "subgraph")
        half = sub[::2]
        audit(h.subgraph([lab[j] for j in half]), half, lab, adj, vals, weights, "subgraph of a subgraph")
        audit(fg.subgraph(lab[j] for j in half), half, lab, adj, vals, weights, "subgraph of a generator")
        return 0 < len(sub) < len(lab)
    return False


def refuse(f, what):
    try:
        f()
    except KeyError:
        return
    raise Violation(f"{what} was not refused")


def some_values(rng):
    kind = rng.choice(["int", "float", "str", "np", "nan", "none", "bool", "list"])
    return {"int": rng.randrange(-2**40, 2**40), "float": rng.uniform(-1e6, 1e6), "str": "s%d" % rng.randrange(99), "np": ["i64", rng.randrange(-2**60, 2**60)],
            "nan": ["nan"], "none": None, "bool": rng.random() < 0.5, "list": ["list", [rng.randrange(5)]]}[kind]


def run_bigjson(lc):
    rng, c = hist.big(lc, contiguous=lc.get("contiguous"))
    g = c["g"]
    if g["label"] == "tuple":
        g["label"] = "str"
    cols = ["pop", "x", "NAME", "county", "k1", "boundary_node"]
    geo = rng.random() < 0.3
    pick = lambda: {k: some_values(rng) for k in rng.sample(cols, rng.randrange(5))}
    nodes = [dict(pick(), **({"geometry": ["box", rng.randrange(9), rng.randrange(1, 9)]} if geo else {})) for _ in range(g["n"])]
    return run_json({"g": g, "nodes": nodes, "edges": [pick() for _ in g["edges"]], "graph": {}, "geojson": rng.random() < 0.5, "frozen": rng.randrange(2),
                     "again": rng.random() < 0.5})


def run_bigtable(lc):
    rng, c = hist.big(lc, contiguous=lc.get("contiguous"))
    g = c["g"]
    n = g["n"]
    kind, lefts = rng.choice(["add", "join", "join"]), False
    if kind == "join":
        lefts = rng.random() < 0.5
    m = rng.choice([7, n]) if lefts else n
    keys = [rng.randrange(m) for _ in range(n)] if lefts else list(range(n))
    rows = rng.sample(range(m), m if rng.random() < 0.7 else m // 2)
    ncol = rng.randint(1, 6)
    val = {"int": lambda: rng.randrange(9**9), "float": lambda: rng.choice(["nan", rng.uniform(-9, 9)]), "str": lambda: "t%d" % rng.randrange(99), "bool": lambda: rng.random() < 0.5,
           "obj": lambda: rng.choice([None, 3, "z"])}
    kinds = [rng.choice(sorted(val)) for _ in range(ncol)]
    if g["label"] == "str":
        g["label"] = "scram"  # keys of rows nobody asked for must differ from the nodes'
    return run_table({"g": g, "kind": kind, "existing": [{"old": 100 + rng.randrange(9)} for _ in range(n)], "lefts": lefts, "keys": keys, "rows": rows, "extra": 0, "kinds": kinds,
                      "cols": [[val[k]() for _ in rows] for k in kinds], "right": kind == "join" and rng.random() < 0.5,
                      "columns": None if rng.random() < 0.4 else rng.sample(range(ncol), rng.randint(1, ncol)), "keystr": rng.randrange(3), "twice": rng.random() < 0.3})


def run_vast(lc):
    """Graphs of the size of real ones (precincts of a state)."""
    return (run_bigjson, run_bigtable, run_bigfrozen)[lc["steps"] % 3](dict(lc, contiguous=False))


def run_bigfrozen(lc):
    rng, c = hist.big(lc, contiguous=lc.get("contiguous"))
    g, n = c["g"], c["g"]["n"]
    kinds = ["neighbors", "degree", "lookup", "sub", "getitem", "iter", "sets", "misc", "frozen"]
    nums = lambda m: [rng.randrange(10) for _ in range(m)]
    return run_frozen({"g": g, "a": nums(n), "b": nums(n), "w": nums(len(g["edges"])), "nx": rng.random() < 0.5, "drop": rng.randrange(len(g["edges"])), "plan": c["plan"],
                       "qs": [[rng.choice(kinds), rng.randrange(n), rng.randrange(2), rng.sample(range(n), rng.randrange(1, n))] for _ in range(12)]})


SUBS = [
    Sub("json", json_cases, run_json, 1500, 40000, 30),
    Sub("tables", table_cases, run_table, 1800, 40000, 30),
    Sub("frozen", frozen_cases, run_frozen, 1200, 40000, 30),
    Sub("hugejson", lambda: hist.big_seeds(lo=300, hi=1500, kmin=2, kmax=9, smin=2, smax=6), run_bigjson, 12, 300, 200),
    Sub("hugefrozen", lambda: hist.big_seeds(lo=300, hi=1500, kmin=2, kmax=9, smin=2, smax=6), run_bigfrozen, 12, 300, 200),
    Sub("hugetables", lambda: hist.big_seeds(lo=300, hi=1500, kmin=2, kmax=9, smin=2, smax=6), run_bigtable, 12, 300, 200),
    Sub("vast", lambda: hist.big_seeds(lo=4500, hi=9000, kmin=2, kmax=9, smin=2, smax=4), run_vast, 8, 100, 300),
    Sub("bigjson", lambda: hist.big_seeds(hi=200), run_bigjson, 64, 1500, 60),
    Sub("bigtables", lambda: hist.big_seeds(hi=200), run_bigtable, 96, 2500, 60),
    Sub("bigfrozen", lambda: hist.big_seeds(hi=120), run_bigfrozen, 64, 1500, 60),
    Sub("succession", succession_cases, run_succession, 400, 10000, 60),
]
