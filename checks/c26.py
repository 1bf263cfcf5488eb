"""C26: faults in the data are reported - islands, overlaps, missing values, a missing CRS, stuck searches - and only those.

A report is recognised by the names (units, columns) it mentions, not by its wording: all units are named by numbers or
words that occur nowhere else."""
import json
import math
import os
import random
import re
import shutil
import tempfile
import warnings

import networkx as nx
import numpy
import pandas
from hypothesis import strategies as st

from vp import gen, hist
from vp.harness import Sub, check

RULE = "a case is non-trivial when at least one fault is reported and at least one unit, column or pair is not faulty (attempts: at least one try fails)"
ASSUMPTIONS = ["a report is a warning that names the units or columns concerned (for a missing CRS: that says CRS)",
               "overlaps and islands of maps are judged on rectangles with integer corners"]


def unit(kind, i):
    if kind == "mixed":
        kind = ["int", "str"][i % 2]
    if kind == "small":
        return i
    return 4000 + (i * 37) % 101 if kind == "int" else "unit%dx" % ((i * 37) % 101 + 100)


TOKEN = {"int": re.compile(r"(?<![\w.])4\d\d\d(?![\w.])"), "str": re.compile(r"unit\d\d\dx"), "mixed": re.compile(r"unit\d\d\dx|(?<![\w.])4\d\d\d(?![\w.])")}
LABELS = st.sampled_from(["int", "str", "mixed"])


def value(x):
    return int(x) if x.isdigit() else x


def named(text, kind):
    return {value(x) for x in TOKEN[kind].findall(text)}


def record(f):
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        out = f()
    return out, [str(w.message) for w in log if issubclass(w.category, UserWarning)]


def about(texts, kind):
    """all units named in any of the warnings"""
    return set().union(*(named(t, kind) for t in texts)) if texts else set()


def says(texts, kind, units):
    if kind == "small":  # such numbers may stand for anything
        return bool(texts) == bool(units)
    return about(texts, kind) == units and bool(texts) == bool(units)


# --- islands
@st.composite
def island_cases(draw):
    n = draw(st.integers(1, 12))
    pairs = [[i, j] for i in range(n) for j in range(i)]
    edges = draw(st.lists(st.sampled_from(pairs), max_size=n, unique_by=tuple)) if pairs else []
    return {"n": n, "edges": edges, "kind": draw(st.one_of(LABELS, st.just("small"))), "source": draw(st.sampled_from(["file", "file", "saved", "ask", "warn"])),
            "later": draw(st.lists(st.sampled_from(pairs), max_size=4)) if pairs else [], "new": draw(st.integers(0, 2)), "zero": draw(st.booleans())}


def run_islands(c):
    from gerrychain import Graph, Partition

    n, lab = c["n"], [unit(c["kind"], i) for i in range(c["n"] + 2)]
    g = nx.Graph()
    for v in lab[:n]:
        g.add_node(v, pop=0 if c["zero"] else 1)
    g.add_edges_from((lab[a], lab[b]) for a, b in c["edges"])
    alone = lambda h: {v for v in h.nodes if not h.adj[v]}
    want = alone(g)
    if c["source"] in ("file", "saved"):
        d = tempfile.mkdtemp(prefix="vpc26")
        try:
            path = os.path.join(d, "g.json")
            if c["source"] == "file":
                with open(path, "w") as f:
                    json.dump(nx.adjacency_data(g), f)
            else:
                Graph.from_networkx(g).to_json(path)
            h, texts = record(lambda: Graph.from_json(path))
        finally:
            shutil.rmtree(d)
    else:
        h = Graph.from_networkx(g)
        _, texts = record(h.issue_warnings if c["source"] == "ask" else h.warn_for_islands)
    check(says(texts, c["kind"], want), lambda: f"the islands are {sorted(map(str, want))}, reported: {texts}")
    check(h.islands == want, lambda: f"islands {h.islands}, should be {want}")
    # after editing the graph
    for i in range(c["new"]):
        h.add_node(lab[n + i])
    for a, b in c["later"]:
        if h.has_edge(lab[a], lab[b]):
            h.remove_edge(lab[a], lab[b])
        else:
            h.add_edge(lab[a], lab[b])
        now = alone(h)
        check(h.islands == now, lambda: f"islands {h.islands} after an edit, should be {now}")
    now = alone(h)
    _, texts = record(h.issue_warnings)
    check(says(texts, c["kind"], now), lambda: f"after editing, the islands are {sorted(map(str, now))}, reported: {texts}")
    with hist.fresh_defaults():
        p = Partition(h, {v: 0 for v in h.nodes})
        check(p.graph.islands == now, lambda: f"islands of the partition's graph {p.graph.islands}, should be {now}")
    return {"nt": bool(want) and len(want) < n, "tags": [c["source"]]}


# --- missing values in tables
VALUES = {"float": [0.5, 0.0, -2.0, math.inf], "object": ["a", "", 0, "NA", "nan"], "int": [0, 1, 7], "bool": [True, False], "Int64": [0, 3], "time": [pandas.Timestamp(2020, 1, 1)],
          "string": ["x", ""], "cat": ["u", "v"]}
MISSING = {"float": [math.nan], "object": [None, math.nan], "Int64": [None], "time": [None], "string": [None], "cat": [None]}


@st.composite
def column_cases(draw):
    n, m = draw(st.integers(1, 8)), draw(st.integers(1, 5))
    cols = []
    for _ in range(m):
        kind = draw(st.sampled_from(sorted(VALUES)))
        pick = VALUES[kind] + MISSING.get(kind, [])
        vals = draw(st.lists(st.integers(0, len(pick) - 1), min_size=n, max_size=n))
        if kind in MISSING and draw(st.booleans()):  # one fault, somewhere
            vals = [v % len(VALUES[kind]) for v in vals]
            vals[draw(st.integers(0, n - 1))] = len(pick) - 1
        elif draw(st.booleans()):
            vals = [v % len(VALUES[kind]) for v in vals]
        cols.append([kind, vals])
    return {"n": n, "cols": cols, "kind": draw(LABELS), "how": draw(st.sampled_from(["add", "join", "join", "rejoin"])),
            "pick": draw(st.one_of(st.none(), st.lists(st.integers(0, m - 1), min_size=1, max_size=m, unique=True))), "perm": draw(gen.seeds),
            "left": draw(st.booleans()), "right": draw(st.booleans())}


def run_columns(c):
    from gerrychain import Graph

    n, lab = c["n"], [unit(c["kind"], i) for i in range(c["n"])]
    g = Graph.from_networkx(nx.relabel_nodes(nx.path_graph(n), dict(enumerate(lab))))
    for i, v in enumerate(lab):
        g.nodes[v]["code"] = "key%d" % i
    names = ["column%dz" % i for i in range(len(c["cols"]))]
    rows = list(range(n))
    random.Random(c["perm"]).shuffle(rows)
    keys = ["key%d" % i for i in rows] if c["how"] != "add" and c["left"] else [lab[i] for i in rows]
    data, holes = {}, set()
    for name, (kind, vals) in zip(names, c["cols"]):
        pick = VALUES[kind] + MISSING.get(kind, [])
        got = [pick[vals[i]] for i in rows]
        dtype = {"float": "float64", "object": object, "int": "int64", "bool": bool, "Int64": "Int64", "time": "datetime64[ns]", "string": "string", "cat": "category"}[kind]
        data[name] = pandas.Series(got, index=keys, dtype=dtype)
        if any(vals[i] >= len(VALUES[kind]) for i in rows):
            holes.add(name)
    df = pandas.DataFrame(data)
    want = holes if c["pick"] is None else holes & {names[i] for i in c["pick"]}
    kw = {} if c["pick"] is None else {"columns": [names[i] for i in c["pick"]]}
    if c["how"] == "add":
        call = lambda: g.add_data(df, **kw)
    else:
        if c["left"]:
            kw["left_index"] = "code"
        if c["right"]:
            df = df.assign(theindex=keys)
            df.index = range(n)
            kw["right_index"] = "theindex"
        call = lambda: g.join(df, **kw)
        if c["how"] == "rejoin":
            record(call)
    _, texts = record(call)
    got = {x for t in texts for x in re.findall(r"column\d+z", t)}
    check(got == want and bool(texts) == bool(want), lambda: f"{c['how']}: the columns with missing values are {sorted(want)}, reported: {texts}")
    return {"nt": 0 < len(want) < len(names), "tags": [c["how"]]}


# --- maps
@st.composite
def map_cases(draw):
    k, side = draw(st.integers(1, 8)), draw(st.sampled_from([3, 6, 12]))
    rects = []
    for _ in range(k):
        x, y = draw(st.integers(0, side)), draw(st.integers(0, side))
        rects.append([x, y, x + draw(st.integers(1, 3)), y + draw(st.integers(1, 3))])
    return {"rects": rects, "kind": draw(LABELS), "adj": draw(st.sampled_from(["rook", "queen"])), "scale": draw(st.sampled_from([1, 1, 1024, 1 / 1024, 2.0**-30])),
            "crs": draw(st.sampled_from([None, "EPSG:26986", "override"])), "ignore": draw(st.booleans()), "perm": draw(gen.seeds),
            "miss": draw(st.lists(st.booleans(), min_size=k, max_size=k)), "cols": draw(st.sampled_from([None, [], ["column1z"], ["column2z"], ["column1z", "column2z"]]))}


def run_maps(c):
    from geopandas import GeoDataFrame
    from shapely.geometry import Polygon

    from gerrychain import Graph

    R, z, k = c["rects"], c["scale"], len(c["rects"])
    order = list(range(k))
    random.Random(c["perm"]).shuffle(order)
    lab = [unit(c["kind"], i) for i in range(k)]
    shape = lambda r: Polygon([(r[0] * z, r[1] * z), (r[2] * z, r[1] * z), (r[2] * z, r[3] * z), (r[0] * z, r[3] * z)])
    df = GeoDataFrame({"column1z": [math.nan if c["miss"][i] else float(i) for i in order], "column2z": [i for i in order]},
                      geometry=[shape(R[i]) for i in order], index=[lab[i] for i in order], crs=None if c["crs"] != "EPSG:26986" else c["crs"])
    over, near = set(), [set() for _ in R]
    for i in range(k):
        for j in range(i):
            w = min(R[i][2], R[j][2]) - max(R[i][0], R[j][0])
            h = min(R[i][3], R[j][3]) - max(R[i][1], R[j][1])
            if w > 0 and h > 0:
                over.add(frozenset((lab[i], lab[j])))
            if min(w, h) > 0 or min(w, h) == 0 and (max(w, h) > 0 or c["adj"] == "queen"):
                near[i].add(j)
                near[j].add(i)
    islands = {lab[i] for i in range(k) if not near[i]}
    kw = {} if c["crs"] != "override" else {"crs_override": "EPSG:26986"}
    if c["cols"] is not None:
        kw["cols_to_add"] = list(c["cols"])
    g, texts = record(lambda: Graph.from_geodataframe(df, adjacency=c["adj"], ignore_errors=c["ignore"], **kw))
    say = lambda t: bool(named(t, c["kind"]))
    overtexts = [t for t in texts if "verlap" in t]
    check(about([t for t in texts if say(t)], c["kind"]) == islands | set().union(*over), lambda: f"islands {islands}, overlaps {over}; reported: {texts}")
    check(bool(overtexts) == bool(over) and about(overtexts, c["kind"]) == set().union(*over), lambda: f"overlaps {over}; reported: {texts}")
    if over:
        tok = r"'?(%s)'?" % TOKEN[c["kind"]].pattern
        pairs = [frozenset(value(x) for x in p) for t in overtexts for p in re.findall(r"\(%s, %s\)" % (tok, tok), t)]
        check(not pairs or set(pairs) == over and len(pairs) == len(over), lambda: f"overlapping pairs {over}, reported: {overtexts}")
    check(about([t for t in texts if say(t) and "verlap" not in t], c["kind"]) == islands, lambda: f"islands {islands}; reported: {texts}")
    check(g.islands == islands, lambda: f"graph.islands {g.islands}, should be {islands}")
    holes = {"column1z"} if any(c["miss"]) and (c["cols"] is None or "column1z" in c["cols"]) else set()
    got = {x for t in texts for x in re.findall(r"column\d+z", t)}
    check(got == holes, lambda: f"columns with missing values {holes}; reported: {texts}")
    check(any("CRS" in t for t in texts) == (c["crs"] is None), lambda: f"CRS {c['crs']}; reported: {texts}")
    return {"nt": bool(over or islands) and len(islands | set().union(*over)) < k, "tags": [c["adj"]] + (["overlaps"] if over else []) + (["islands"] if islands else [])}


# --- tallies of data with missing values
@st.composite
def tally_cases(draw):
    n = draw(st.integers(1, 9))
    nf = draw(st.integers(1, 3))
    num = st.one_of(st.integers(0, 9), st.just("nan"), st.just(2.5))
    return {"n": n, "vals": [draw(st.lists(num, min_size=n, max_size=n)) for _ in range(nf)], "plan": draw(st.lists(st.integers(0, 2), min_size=n, max_size=n)),
            "kind": draw(LABELS), "how": draw(st.sampled_from(["tally", "tally", "data", "dict", "series", "election"])), "alias": draw(st.booleans()), "moves": draw(st.integers(0, 3))}


def run_tallies(c):
    from gerrychain import Partition
    from gerrychain.updaters import Election, Tally
    from gerrychain.updaters.tally import DataTally

    n, lab = c["n"], [unit(c["kind"], i) for i in range(c["n"])]
    g = nx.relabel_nodes(nx.path_graph(n), dict(enumerate(lab)))
    vals = [[math.nan if x == "nan" else x for x in col] for col in c["vals"]]
    fields = ["field%dq" % j for j in range(len(vals))]
    for col, name in zip(vals, fields):
        for v, x in zip(lab, col):
            g.nodes[v][name] = x
    key = "alias9q" if c["alias"] else fields[0]
    used = vals if c["how"] == "tally" else vals[:1]
    if c["how"] == "tally":
        up = {key: Tally(fields, key) if c["alias"] or len(fields) > 1 else Tally(fields[0])}
    elif c["how"] == "election":
        used = vals
        up = {key: Election(key, {"party%dq" % j: f for j, f in enumerate(fields)})}
    else:
        given = {"data": fields[0], "dict": dict(zip(lab, vals[0])), "series": pandas.Series(vals[0], index=lab, dtype=float)}[c["how"]]
        up = {key: DataTally(given, key)}
    want = {lab[i] for i in range(n) if any(col[i] != col[i] for col in used)}
    with hist.fresh_defaults():
        p = Partition(g, dict(zip(lab, c["plan"])), up, use_default_updaters=False)
        if c["moves"]:  # reading a child first still tallies from scratch only once
            q = p.flip({lab[c["moves"] % n]: c["plan"][0]})
            _, texts = record(lambda: (q[key], p[key]))
        else:
            _, texts = record(lambda: p[key])
    check(about(texts, c["kind"]) == want and bool(texts) == bool(want), lambda: f"units without data: {sorted(map(str, want))}; reported: {texts}")
    for v in want:
        mine = [t for t in texts if v in named(t, c["kind"])]
        about_it = fields[:len(used)] + [key] if c["how"] != "election" else ["party%dq" % j for j, col in enumerate(vals) if col[lab.index(v)] != col[lab.index(v)]]
        check(any(a in t for a in about_it for t in mine), lambda: f"the warnings for {v} do not say which data: {mine}")
        if c["how"] == "election":
            for a in about_it:
                check(any(a in t for t in mine) or any(fields[int(a[5:-1])] in t for t in mine), lambda: f"the missing votes of {a} in {v} are not reported: {mine}")
    return {"nt": 0 < len(want) < n, "tags": [c["how"]]}


# --- a search for a balanced cut that does not get on
@st.composite
def attempt_cases(draw):
    return {"fail": draw(st.integers(0, 12)), "warn": draw(st.one_of(st.integers(1, 12), st.none())), "max": draw(st.one_of(st.none(), st.integers(1, 14))), "resel": draw(st.booleans()),
            "repeats": draw(st.integers(1, 3)), "seed": draw(gen.seeds), "n": draw(st.integers(2, 6)), "how": draw(st.sampled_from(["plain", "plain", "recom", "part", "random"]))}


def run_attempts(c):
    from functools import partial

    from gerrychain import Partition
    from gerrychain import tree as gt
    from gerrychain.proposals import recom
    from gerrychain.updaters import cut_edges

    n = c["n"]
    g, lab = gen.build_nx({"n": n, "edges": [[i, i + 1] for i in range(n - 1)], "label": "int"}, {"pop": [1] * n})
    target, eps = n / 2, 1 / n + 0.01
    tries = [0]

    def cuts(h, one_sided_cut=False, choice=random.choice):
        tries[0] += 1
        return [] if tries[0] <= c["fail"] else gt.find_balanced_edge_cuts_memoization(h, one_sided_cut=one_sided_cut, choice=choice)

    kw = dict(balance_edge_fn=cuts, max_attempts=c["max"])
    if c["warn"] is not None:
        kw["warn_attempts"] = c["warn"]
    resel = c["resel"] and c["how"] == "plain"
    if resel:
        kw["allow_pair_reselection"] = True
    random.seed(c["seed"])

    def call():
        try:
            if c["how"] == "plain":
                gt.bipartition_tree(g, "pop", target, eps, node_repeats=c["repeats"], **kw)
            elif c["how"] == "random":
                gt.bipartition_tree_random(g, "pop", target, eps, node_repeats=c["repeats"], balance_edge_fn=cuts, max_attempts=c["max"])
            elif c["how"] == "part":
                gt.epsilon_tree_bipartition(g, [0, 1], target, "pop", eps, node_repeats=c["repeats"], method=partial(gt.bipartition_tree, **kw))
            else:
                with hist.fresh_defaults():
                    p = Partition(g, {v: int(2 * i >= n) for i, v in enumerate(lab)}, {"cut_edges": cut_edges})
                    recom(p, "pop", target, eps, node_repeats=c["repeats"], method=partial(gt.bipartition_tree, **kw))
        except (RuntimeError, gt.ReselectException):
            return "error"

    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        out = call()
    got = sum(issubclass(w.category, gt.BipartitionWarning) for w in log)
    failed = c["fail"] if c["max"] is None else min(c["fail"], c["max"])
    check((out == "error") == (c["max"] is not None and c["fail"] >= c["max"]), lambda: f"{out} after {c['fail']} failures, {c['max']} attempts allowed")
    want = int(failed >= (1000 if c["warn"] is None else c["warn"]) and not resel and c["how"] != "random")
    check(got == want, lambda: f"{got} warnings after {failed} failed attempts (warn_attempts={c['warn']}, reselection {resel}), should be {want}")
    return {"nt": c["fail"] > 0, "tags": [c["how"], "warned" if want else "quiet"]}


SUBS = [
    Sub("islands", island_cases, run_islands, 1500, 40000, 30, rule="graphs loaded from files or made, then edited"),
    Sub("columns", column_cases, run_columns, 1200, 30000, 30, rule="tables of all column types, added or joined"),
    Sub("maps", map_cases, run_maps, 1000, 20000, 60, rule="rectangles that may touch, overlap or lie apart"),
    Sub("tallies", tally_cases, run_tallies, 1500, 40000, 30, rule="tallies and elections over data with gaps"),
    Sub("attempts", attempt_cases, run_attempts, 1500, 40000, 30, rule="bipartitions whose first tries fail"),
]
