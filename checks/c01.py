"""C01: incremental updaters equal recomputation, over generated flip/read/unlink histories."""
import functools
import math

import numpy
import pandas
from hypothesis import strategies as st

from vp import gen, hist
from vp.harness import Sub, check

RULE = ("a case is non-trivial when at least one node changes part in the history and at least one "
        "incremental value is read after that")
ASSUMPTIONS = ["node labels are mutually orderable, flips go to existing part labels",
               "a part that became empty may be reported as 0 / empty or left out",
               "floating-point tallies are compared with relative tolerance 1e-9"]

KEYS = ["cut_edges", "cut_edges_by_part", "perimeter", "exterior_boundaries", "interior_boundaries",
        "boundary_nodes", "area", "ext_set", "pop", "pop_alias", "two", "x", "dt_dict", "dt_ser", "dt_str",
        "members", "cutlen", "nbrs", "npcol", "ratio", "twonan", "bnodes", "three"]


@st.composite
def cases(draw):
    c = draw(hist.histories(lo=2, hi=10, kmax=4, max_ops=9, nkeys=len(KEYS)))
    n, m = c["g"]["n"], len(c["g"]["edges"])
    small = st.integers(-3, 9)
    xs = st.one_of(st.integers(0, 40).map(lambda i: i / 8), st.just("nan"), st.integers(-4, 4),
                   st.floats(-1e6, 1e6, allow_nan=False).map(lambda f: round(f, 3)))
    c["pop"] = draw(st.lists(st.one_of(small, st.integers(0, 10**15)), min_size=n, max_size=n))
    c["b"] = draw(st.lists(small, min_size=n, max_size=n))
    c["x"] = draw(st.lists(xs, min_size=n, max_size=n))
    c["area"] = draw(st.lists(st.integers(1, 64).map(lambda i: i / 8), min_size=n, max_size=n))
    c["bn"] = draw(st.lists(st.booleans(), min_size=n, max_size=n))
    c["bp"] = draw(st.lists(st.integers(1, 64).map(lambda i: i / 8), min_size=n, max_size=n))
    c["sp"] = draw(st.lists(st.integers(1, 64).map(lambda i: i / 8), min_size=m, max_size=m))
    c["geo"] = draw(st.booleans())
    c["bare"] = draw(st.one_of(st.just(False), st.just(False), st.just(False), st.just(True), st.lists(st.sampled_from(KEYS[1:]), min_size=1, max_size=4)))
    c["flag"] = draw(st.sampled_from(["bool", "bool", "int", "numpy"]))
    c["final"] = draw(st.integers(0, 5))
    return c


def fl(x):
    return float("nan") if x == "nan" else x


def build(c):
    from gerrychain import GeographicPartition, Graph, Partition
    from gerrychain.updaters import (DataTally, Tally, boundary_nodes, cut_edges, cut_edges_by_part,
                                     exterior_boundaries, exterior_boundaries_as_a_set,
                                     interior_boundaries, perimeter)
    from gerrychain.updaters.flows import on_edge_flow, on_flow

    xs = [fl(x) for x in c["x"]]
    flag = {"bool": bool, "int": int, "numpy": numpy.bool_}[c.get("flag", "bool")]
    attrs = {"pop": c["pop"], "b": c["b"], "x": xs, "area": c["area"], "boundary_node": [flag(b) for b in c["bn"]],
             "np": [numpy.int64(v) for v in c["b"]]}
    g, lab = gen.build_nx(c["g"], attrs, {"shared_perim": c["sp"]})
    for i, v in enumerate(lab):
        if c["bn"][i]:
            g.nodes[v]["boundary_perim"] = c["bp"][i]
    k = max(c["plan"]) + 1
    plab = [gen.part_label(c["plabel"], j) for j in range(k)]

    @on_flow(lambda p: {q: frozenset(p.parts[q]) for q in p.parts}, alias="members")
    def members(partition, previous, new_nodes, old_nodes):
        return (previous | new_nodes) - old_nodes

    def init_len(p):
        return {q: sum(p.graph.edges[e]["shared_perim"] for e in p.graph.edges
                       if (p.assignment[e[0]] == q) != (p.assignment[e[1]] == q)) for q in p.parts}

    @on_edge_flow(init_len, alias="cutlen")
    def cutlen(partition, previous, new_edges, old_edges):
        return (previous + sum(partition.graph.edges[e]["shared_perim"] for e in new_edges)
                - sum(partition.graph.edges[e]["shared_perim"] for e in old_edges))

    @on_edge_flow(lambda p: {q: sum(1 for a, b in p.graph.edges
                                    if (p.assignment[a] == q) != (p.assignment[b] == q)) for q in p.parts},
                  alias="nbrs")
    def nbrs(partition, previous, new_edges, old_edges):
        return previous + len(new_edges) - len(old_edges)

    ups = {
        "cut_edges": cut_edges, "cut_edges_by_part": cut_edges_by_part, "perimeter": perimeter,
        "exterior_boundaries": exterior_boundaries, "interior_boundaries": interior_boundaries,
        "boundary_nodes": boundary_nodes, "area": Tally("area", alias="area", dtype=float),
        "exterior_boundaries_as_a_set": exterior_boundaries_as_a_set,
        "pop": Tally("pop"), "pop_alias": Tally("b", alias="pop_alias"),
        "three": Tally(["pop", "b", "np"], alias="three"),
        "two": Tally(["pop", "b"], alias="two"), "x": Tally("x", alias="x", dtype=float),
        "dt_dict": DataTally({v: xs[i] for i, v in enumerate(lab)}, "dt_dict"),
        "dt_ser": DataTally(series(lab, c["b"]), "dt_ser"),
        "dt_str": DataTally("pop", "dt_str"), "npcol": Tally("np", alias="npcol"),
        "twonan": Tally(["x", "b"], alias="twonan", dtype=float), "bnodes": functools.partial(boundary_nodes, alias="bnodes"),
        "members": members, "cutlen": cutlen, "nbrs": nbrs,
        "ratio": lambda p: {q: (p["two"][q], len(p["members"][q])) for q in p.parts},
    }
    cls = GeographicPartition if c["geo"] else Partition
    if c.get("bare"):
        # without the default updaters, hence perhaps without "cut_edges"
        del ups["cut_edges"]
        keep = set(c["bare"]) if isinstance(c["bare"], list) else set(KEYS)
        keep = closure(keep)
        ups = {key: f for key, f in ups.items() if key in keep}
        return g, lab, plab, Partition(g, {v: plab[c["plan"][i]] for i, v in enumerate(lab)}, ups, use_default_updaters=False)
    if c["geo"]:
        for key in ("cut_edges", "cut_edges_by_part", "perimeter", "exterior_boundaries",
                    "interior_boundaries", "boundary_nodes", "area"):
            del ups[key]
    part = cls(g, {v: plab[c["plan"][i]] for i, v in enumerate(lab)}, ups)
    return g, lab, plab, part


NEEDS = {"perimeter": ["exterior_boundaries", "interior_boundaries"], "exterior_boundaries": ["boundary_nodes"],
         "interior_boundaries": ["cut_edges_by_part"], "exterior_boundaries_as_a_set": ["boundary_nodes"], "ratio": ["two", "members"]}


def closure(keys):
    keys = {"exterior_boundaries_as_a_set" if key == "ext_set" else key for key in keys}
    while True:
        more = {n for key in keys for n in NEEDS.get(key, [])} - keys
        if not more:
            return keys
        keys |= more


def series(lab, values):
    idx = pandas.Index(lab, tupleize_cols=False)
    return pandas.Series(list(values), index=idx)


class Oracle:
    def __init__(self, c, lab, plab):
        self.c, self.lab, self.plab = c, lab, plab
        self.k = len(plab)
        self.ways = ["twonan0", "twonan1"]

    def expect(self, key, model):
        c, k = self.c, self.k
        edges = c["g"]["edges"]
        cut = [p for p, (a, b) in enumerate(edges) if model[a] != model[b]]
        nodes = {j: [v for v in range(len(model)) if model[v] == j] for j in range(k)}
        es = lambda p: frozenset((self.lab[edges[p][0]], self.lab[edges[p][1]]))
        inc = {j: [p for p in cut if j in (model[edges[p][0]], model[edges[p][1]])] for j in range(k)}
        tot = lambda vals: {j: sum(vals[v] for v in nodes[j]) for j in range(k)}
        if key == "cut_edges":
            return {es(p) for p in cut}
        if key == "cut_edges_by_part":
            return {j: {es(p) for p in inc[j]} for j in range(k)}
        if key == "nbrs":
            return {j: len(inc[j]) for j in range(k)}
        interior = {j: sum(c["sp"][p] for p in inc[j]) for j in range(k)}
        exterior = tot([c["bp"][v] if c["bn"][v] else 0 for v in range(len(model))])
        if key in ("interior_boundaries", "cutlen"):
            return interior
        if key == "exterior_boundaries":
            return exterior
        if key == "perimeter":
            return {j: interior[j] + exterior[j] for j in range(k)}
        if key in ("boundary_nodes", "bnodes"):
            return {self.lab[v] for v in range(len(model)) if c["bn"][v]}
        if key == "ext_set":
            return {j: {self.lab[v] for v in nodes[j] if c["bn"][v]} for j in range(k)}
        if key == "members":
            return {j: {self.lab[v] for v in nodes[j]} for j in range(k)}
        if key == "area":
            return tot(c["area"])
        if key in ("pop", "dt_str"):
            return tot(c["pop"])
        if key in ("pop_alias", "dt_ser", "npcol"):
            return tot(c["b"])
        two = tot([a + b for a, b in zip(c["pop"], c["b"])])
        if key == "two":
            return two
        if key == "three":
            return tot([a + 2 * b for a, b in zip(c["pop"], c["b"])])
        if key in ("x", "dt_dict"):
            return tot([0 if v == "nan" else v for v in c["x"]])
        if key.startswith("twonan"):
            # a node of which one of several fields is missing may count as missing or by its other fields, always the same way
            return tot([(0 if key == "twonan0" else b) if x == "nan" else x + b for x, b in zip(c["x"], c["b"])])
        if key == "ratio":
            return {j: (two[j], len(nodes[j])) for j in range(k)}
        raise KeyError(key)

    def compare(self, key, got, model):
        if key == "twonan":
            self.ways = [way for way in self.ways if all(hist.close(got[q] if q in got else 0, v, scale=1e3)
                                                         for q, v in zip(self.plab, self.expect(way, model).values()))]
            check(self.ways, lambda: f"twonan: reported {show(got)}, recomputed {self.expect('twonan0', model)} (by part index), model {model}")
            return
        want = self.expect(key, model)
        if key == "cut_edges":
            norm = [frozenset(e) for e in got]
            ok = set(norm) == want and len(norm) == len(want)
        elif key in ("boundary_nodes", "bnodes"):
            ok = set(got) == want
        else:
            keys = set(got.keys())
            check(keys <= set(self.plab), lambda: f"{key}: unknown parts in {dict(got)}")
            ok = True
            for j, w in want.items():
                q = self.plab[j]
                if isinstance(w, set):
                    have = list(got[q]) if q in keys else []
                    if key == "cut_edges_by_part":
                        have = [frozenset(e) for e in have]
                    ok &= set(have) == w and len(have) == len(w)
                elif isinstance(w, tuple):
                    ok &= (tuple(got[q]) if q in keys else (0, 0)) == w
                else:
                    have = got[q] if q in keys else 0
                    if all(isinstance(t, int) for t in (w,)) and key in ("pop", "pop_alias", "two", "three", "dt_str",
                                                                         "dt_ser", "npcol", "nbrs"):
                        ok &= have == w
                    else:
                        ok &= hist.close(have, w, scale=1e3 if key in ("x", "dt_dict") else 1.0)
        check(ok, lambda: f"{key}: reported {show(got)}, recomputed {want} (by part index), model {model}")


def show(got):
    return dict(got) if hasattr(got, "items") else got


def run(c):
    with hist.fresh_defaults():
        g, lab, plab, first = build(c)
        w = hist.World(c, first, lab, plab)
        orc = Oracle(c, lab, plab)
        seen = {}
        read_after = [False]

        def read(i, key):
            p = w.parts[i]
            real = "exterior_boundaries_as_a_set" if key == "ext_set" else key
            val = p[real]
            orc.compare(key, val, w.models[i])
            if i > 0:
                read_after[0] = True
            seen.setdefault((i, key), (val, hist.freeze(val)))

        keys = list(KEYS)
        if c.get("bare"):
            have = closure(c["bare"]) if isinstance(c["bare"], list) else set(KEYS) | {"exterior_boundaries_as_a_set"}
            keys = [key for key in KEYS if key != "cut_edges" and ("exterior_boundaries_as_a_set" if key == "ext_set" else key) in have]

        def readall(i, order):
            for key in gen.ordered(keys, order):
                read(i, key)

        for op in c["ops"]:
            if op[0] == "read":
                read(w.pick(op[1]), keys[op[2] % len(keys)])
            elif op[0] == "readall":
                readall(w.pick(op[1]), op[2])
            elif op[0] == "unlink":
                w.parts[w.pick(op[1])].parent = None
            else:
                w.flip(op)
        for i in gen.ordered(range(len(w.parts)), c["final"]):
            readall(i, c["final"])
        for (i, key), (val, before) in seen.items():
            check(hist.freeze(val) == before, lambda: f"value of {key} reported by partition {i} changed later: "
                  f"{before} -> {val}")
        tags = []
        if w.emptied:
            tags.append("emptied part")
        if any(o[0] == "unlink" for o in c["ops"]):
            tags.append("unlink")
        if "nan" in c["x"]:
            tags.append("nan")
        if len(set(w.parent[1:])) < len(w.parent[1:]):
            tags.append("branching history")
        return {"nt": w.changed > 0 and read_after[0], "tags": tags}


@st.composite
def long_cases(draw):
    return {"seed": draw(gen.seeds), "a": draw(st.integers(2, 7)), "b": draw(st.integers(2, 8)),
            "k": draw(st.integers(2, 8)), "steps": draw(st.integers(10, 90)),
            "label": draw(st.sampled_from(gen.LABELS)), "plabel": draw(st.sampled_from(gen.PARTS)),
            "geo": draw(st.booleans())}


def expand(lc):
    import random

    rng = random.Random(lc["seed"])
    a, b = lc["a"], lc["b"]
    n = a * b
    edges = [[i, i + 1] for i in range(n) if (i + 1) % b] + [[i, i + b] for i in range(n - b)]
    g = {"n": n, "edges": edges, "label": lc["label"] if n <= 100 else "int", "order": rng.randrange(4)}
    k = min(lc["k"], n)
    return fill(rng, {"g": g, "plan": gen.contiguous_plan(g, k, rng), "plabel": lc["plabel"], "geo": lc["geo"],
                      "ops": hist.random_ops(rng, g, k, lc["steps"], len(KEYS)), "final": rng.randrange(4)})


def fill(rng, c):
    n, edges = c["g"]["n"], c["g"]["edges"]
    c["pop"] = [rng.choice([rng.randrange(10), rng.randrange(10**12)]) for _ in range(n)]
    c["b"] = [rng.randrange(-3, 10) for _ in range(n)]
    c["x"] = [rng.choice(["nan", rng.randrange(80) / 8, round(rng.uniform(0, 1e5), 2)]) for _ in range(n)]
    c["area"] = [rng.randrange(1, 64) / 8 for _ in range(n)]
    c["bn"] = [rng.random() < 0.5 for _ in range(n)]
    c["bp"] = [rng.randrange(1, 64) / 8 for _ in range(n)]
    c["sp"] = [rng.randrange(1, 64) / 8 for _ in edges]
    return c


def expand_big(lc):
    rng, c = hist.big(lc, len(KEYS))
    return fill(rng, dict(c, geo=rng.random() < 0.5, final=rng.randrange(4)))


SUBS = [Sub("history", cases, run, quick=4000, thorough=120000, rule="flip/read/unlink histories, 20 updaters"),
        Sub("huge", lambda: hist.big_seeds(lo=400, hi=1500, kmin=2, kmax=60, smin=2, smax=16), lambda lc: run(expand_big(lc)), quick=16, thorough=400,
            timeout=120, rule="the same on graphs of up to 1510 nodes"),
        Sub("big", lambda: hist.big_seeds(hi=200, kmin=1, kmax=40, smin=10, smax=250), lambda lc: run(expand_big(lc)), quick=64, thorough=2500,
            rule="histories of up to 250 operations on graphs of up to 200 nodes, up to 40 parts"),
        Sub("long", long_cases, lambda lc: run(expand(lc)), quick=160, thorough=6000,
            rule="histories of up to 90 operations on grids of up to 56 nodes")]
