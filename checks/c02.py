"""C02: assignment, parts and subgraphs agree; flips never change the past."""
import json
import os
import shutil
import tempfile

import networkx
import pandas
from hypothesis import strategies as st

from vp import gen, hist
from vp.harness import Sub, Violation, check

QUICK = 2  # the numbers of cases in SUBS, times this, in the quick tier
RULE = "a case is non-trivial when the plan has at least two parts and some node changes part, or when a bad assignment is offered"
ASSUMPTIONS = ["flips go to existing part labels (others may be refused, but not ignored)", "a part that became empty may be listed as empty or left out"]

SOURCES = ["dict", "series", "attr", "assignment", "districtr", "frozen", "nx", "parts"]


@st.composite
def cases(draw):
    c = draw(hist.histories(lo=1, hi=10, kmax=5, max_ops=9, nkeys=1))
    c["source"] = draw(st.sampled_from(SOURCES))
    c["geo"] = draw(st.booleans())
    c["own"] = draw(st.sampled_from([False, False, True]))
    c["defaults"] = draw(st.booleans())
    c["ids"] = draw(st.integers(0, 7))
    c["values"] = draw(st.lists(st.integers(0, 9), min_size=c["g"]["n"], max_size=c["g"]["n"]))
    return c


def same_edges(a, b):
    return {frozenset(e) for e in a} == {frozenset(e) for e in b}


def view(p):
    """Everything the partition says about its plan, as plain data."""
    return {
        "map": dict(p.assignment.items()),
        "parts": {q: frozenset(ns) for q, ns in p.parts.items() if len(ns)},
    }


def consistent(p, g, lab, plab, model, full):
    want = {lab[i]: plab[model[i]] for i in range(len(lab))}
    a = p.assignment
    check(dict(a.items()) == want, lambda: f"assignment items {dict(a.items())} want {want}")
    for v, q in want.items():
        check(a[v] == q, lambda: f"assignment[{v!r}] = {a[v]!r}, want {q!r}")
    check(len(a) == len(want) and set(a) == set(want) and sorted(map(str, a.keys())) == sorted(map(str, want)),
          "assignment keys/len differ")
    check(sorted(map(str, a.values())) == sorted(map(str, want.values())), "assignment values differ")
    parts = {q: set(ns) for q, ns in p.parts.items() if len(ns)}
    level = {}
    for v, q in want.items():
        level.setdefault(q, set()).add(v)
    check(parts == level, lambda: f"parts {parts}, level sets {level}")
    check(sum(len(ns) for ns in p.parts.values()) == len(want), "parts do not cover each node once")
    if len(level) == len(plab):
        check(len(p) == len(plab), lambda: f"len(partition) = {len(p)}")
    check(dict(a.to_dict()) == want, "to_dict differs")
    for e in g.edges:
        check(p.crosses_parts(e) == (want[e[0]] != want[e[1]]), lambda: f"crosses_parts({e})")
    if full:
        seen = []
        for q, sub in p.subgraphs.items():
            seen.append(q)
            nodes = level.get(q, set())
            check(set(sub.nodes) == nodes, lambda: f"subgraph of {q!r} has nodes {set(sub.nodes)}, want {nodes}")
            ind = [e for e in g.edges if e[0] in nodes and e[1] in nodes]
            check(same_edges(sub.edges, ind) and len(list(sub.edges)) == len(ind),
                  lambda: f"subgraph of {q!r} has edges {list(sub.edges)}, want {ind}")
            for v in nodes:
                check(dict(sub.nodes[v]) == dict(g.nodes[v]), "subgraph node data differ")
        check(set(level) <= set(seen) and len(seen) == len(set(seen)), "subgraphs do not list each part once")
        check(len(list(p.subgraphs)) == len(seen), "iterating subgraphs differs from items")
        for q, nodes in level.items():
            check(set(p.subgraphs[q].nodes) == nodes, lambda: f"subgraphs[{q!r}] wrong")
        if all(not isinstance(v, tuple) for v in lab):
            ser = a.to_series()
            check({k: v for k, v in ser.items()} == want and len(ser) == len(want), "to_series differs")


def district_ids(kind, n):
    """Identifiers of units as maps have them; all different, as strings too"""
    f = [lambda i: f"id{i}", lambda i: i, lambda i: f" {i}" if i % 2 else f"{i} ", lambda i: "%05d" % i if i % 2 else str(i), lambda i: f"Ä-{i}/x",
         lambda i: "id" if not i else "ID" if i == 1 else "Id" if i == 2 else f"iD{i}", lambda i: i / 2, lambda i: "" if not i else "\t" * i][kind]
    return [f(i) for i in range(n)]


def own_class(base):
    """A user's kind of partition: more default updaters and a method that uses them."""

    class Mine(base):
        default_updaters = {**base.default_updaters, "sizes": lambda p: {q: len(x) for q, x in p.parts.items() if len(x)}}

        def largest(self):
            return max(self["sizes"].values())

    return Mine


def build(c, tmp):
    from gerrychain import GeographicPartition, Graph, Partition
    from gerrychain.graph.graph import FrozenGraph
    from gerrychain.partition.assignment import Assignment, get_assignment
    from gerrychain.updaters import Tally

    spec, n = c["g"], c["g"]["n"]
    k = max(c["plan"]) + 1
    plab = [gen.part_label(c["plabel"], j) for j in range(k)]
    ids = district_ids(c.get("ids", 0), n)
    key = ["ID", "GEOID 10", ""][c.get("ids", 0) % 3]
    g, lab = gen.build_nx(spec, {"v": c["values"], key: ids,
                                 "plan": [plab[j] for j in c["plan"]]})
    want = {lab[i]: plab[c["plan"][i]] for i in range(n)}
    cls = GeographicPartition if c["geo"] else Partition
    if c.get("own"):
        cls = own_class(cls)
    ups = {"v": Tally("v", alias="v")}
    kw = {"use_default_updaters": c["defaults"]}
    s = c["source"]
    given, graph = None, g
    if s == "dict":
        given = dict(gen.ordered(want.items(), c["g"]["order"]))
        keep = dict(given)
    elif s == "series":
        given = pandas.Series(list(want.values()), index=pandas.Index(list(want), tupleize_cols=False))
        keep = given.copy()
    elif s == "attr":
        given, keep = "plan", None
    elif s == "assignment":
        given = Assignment.from_dict(want)
        keep = dict(given.items())
    elif s == "parts":
        lv = {}
        for v, q in want.items():
            lv.setdefault(q, set()).add(v)
        given = Assignment({q: frozenset(x) for q, x in lv.items()})
        keep = dict(given.items())
    elif s == "frozen":
        graph, given = FrozenGraph(g), want
        keep = dict(want)
    elif s == "nx":
        graph, given = networkx.Graph(g), want
        keep = dict(want)
    elif s == "districtr":
        path = os.path.join(tmp, "plan.json")
        with open(path, "w") as f:
            json.dump({"idColumn": {"key": key, "name": "other"}, "assignment": {str(ids[i]): want[lab[i]] for i in gen.ordered(range(n), c.get("ids", 0) % 4)}}, f)
        p = cls.from_districtr_file(g, path, ups)
        return g, lab, plab, p, None, None
    p = cls(graph, given, ups, **kw)
    return g, lab, plab, p, given, keep


def run(c):
    if c["source"] == "districtr" and c["plabel"] in ("np", "tuple"):  # not what a file can say
        c = dict(c, source="dict")
    tmp = tempfile.mkdtemp(prefix="vpc02")
    try:
        with hist.fresh_defaults():
            g, lab, plab, first, given, keep = build(c, tmp)
            before_nodes = {v: dict(d) for v, d in g.nodes(data=True)}
            before_edges = {frozenset(e[:2]): dict(e[2]) for e in g.edges(data=True)}
            check(not c.get("own") or type(first).__name__ == "Mine", lambda: f"a partition made through the user's class is a {type(first)}")
            w = hist.World(c, first, lab, plab)
            consistent(first, g, lab, plab, w.models[0], True)
            views, vals, made = [view(first)], {}, []
            def untouched():
                if isinstance(given, dict):
                    check(given == keep, "the caller's dict changed")
                elif isinstance(given, pandas.Series):
                    check(list(given.items()) == list(keep.items()), "the caller's Series changed")
                elif given is not None and not isinstance(given, str):
                    check(dict(given.items()) == keep, "the caller's Assignment changed")

            half = len(c["ops"]) // 2
            for j, op in enumerate(c["ops"]):
                if j == half:
                    untouched()
                    if isinstance(given, dict):  # the caller goes on using its objects
                        given.update({v: plab[0] for v in given} if c["g"]["order"] % 2 else {lab[0]: "elsewhere"})
                        if c["g"]["order"] % 3 == 0:
                            given.popitem()
                        keep = dict(given)
                    elif isinstance(given, pandas.Series):
                        for i in range(len(given)):
                            given.iat[i] = plab[0]
                        keep = given.copy()
                    elif given is not None and not isinstance(given, str):
                        given.update_parts({**{q: frozenset() for q in given.parts}, plab[-1]: frozenset(lab)})
                        keep = dict(given.items())
                if op[0] == "unlink":
                    w.parts[w.pick(op[1])].parent = None
                elif op[0] == "read":
                    i = w.pick(op[1])
                    vals.setdefault(i, (w.parts[i]["v"], dict(w.parts[i]["v"])))
                elif op[0] == "readall":
                    i = w.pick(op[1])
                    consistent(w.parts[i], g, lab, plab, w.models[i], True)
                else:
                    p, model = w.flip(op)
                    check(p is not w.parts[w.parent[-1]], "flip returned the same object")
                    consistent(p, g, lab, plab, model, op[1] == 0)
                    views.append(view(p))
                    check(type(p) is type(first), "flip changed the partition's class")
                    made.append((p, dict(views[w.parent[-1]]["map"]), views[-1]["map"]))
                for i, p in enumerate(w.parts):
                    check(view(p) == views[i], lambda: f"partition {i} changed after {op}: {views[i]} -> {view(p)}")
            for i, p in enumerate(w.parts):
                consistent(p, g, lab, plab, w.models[i], True)
            for p, old, new in made:
                check({**old, **p.flips} == new, lambda: f"the flips {p.flips} do not lead from the plan before to the plan after")
            if c.get("own") and (c["defaults"] or c["source"] == "districtr"):
                for i, p in enumerate(w.parts):
                    sizes = {}
                    for q in w.models[i]:
                        sizes[plab[q]] = sizes.get(plab[q], 0) + 1
                    check(p["sizes"] == sizes and p.sizes == sizes and p.largest() == max(sizes.values()), lambda: f"the user's default updater reports {p['sizes']}, should be {sizes}")
            for i, (val, was) in vals.items():
                check(dict(val) == was and dict(w.parts[i]["v"]) == was, "a reported value changed later")
            x = c["g"]["order"]  # a flip to a part that does not exist may be refused, but is not left undone in silence
            i = x % len(w.parts)
            new = plab + [gen.part_label(c["plabel"], len(plab) + 1)]
            model = list(w.models[i])
            model[x % len(lab)] = len(plab)
            if x % 3 == 0:
                model[x // 3 % len(lab)] = x % len(new)
            flips = {v: new[a] for v, a, b in zip(lab, model, w.models[i]) if a != b}
            try:
                q = w.parts[i].flip(flips)
            except Exception:
                pass
            else:
                consistent(q, g, lab, new, model, True)
            check(all(view(p) == v for p, v in zip(w.parts, views)), lambda: f"a partition changed after the flips {flips}")
            untouched()
            check({v: dict(d) for v, d in g.nodes(data=True)} == before_nodes
                  and {frozenset(e[:2]): dict(e[2]) for e in g.edges(data=True)} == before_edges,
                  "the caller's graph changed")
            return {"nt": w.changed > 0 and len(plab) > 1, "tags": [c["source"]] + (["emptied part"] if w.emptied else [])}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_big(lc):
    rng, c = hist.big(lc)
    return run(dict(c, source=rng.choice(SOURCES), geo=rng.random() < 0.5, own=rng.random() < 0.3, defaults=rng.random() < 0.5, values=[rng.randrange(9) for _ in range(c["g"]["n"])]))


# --- assignments that do not fit the graph are refused
@st.composite
def bad_cases(draw):
    spec = draw(gen.graphs(1, 8))
    plan = draw(hist.plans(spec))
    how = draw(st.sampled_from(["missing", "extra", "swap", "type", "attr"]))
    return {"g": spec, "plan": plan, "how": how, "at": draw(st.integers(0, spec["n"] - 1)),
            "source": draw(st.sampled_from(["dict", "series", "assignment"]))}


def run_bad(c):
    from gerrychain import Partition
    from gerrychain.partition.assignment import Assignment

    with hist.fresh_defaults():
        g, lab = gen.build_nx(c["g"], {"plan": c["plan"]})
        m = {lab[i]: c["plan"][i] for i in range(len(lab))}
        alien = gen.node_label(c["g"]["label"], 40)
        arg = m
        if c["how"] in ("missing", "swap"):
            del m[lab[c["at"]]]
        if c["how"] in ("extra", "swap"):
            m[alien] = 0
        if c["how"] == "type":
            arg = [1, 2, 3]
        elif c["how"] == "attr":
            arg = "no_such_attribute"
        elif not m:
            arg = m
        elif c["source"] == "series":
            arg = pandas.Series(list(m.values()), index=pandas.Index(list(m), tupleize_cols=False))
        elif c["source"] == "assignment":
            arg = Assignment.from_dict(m)
        try:
            p = Partition(g, arg)
        except Exception:
            return {"nt": True, "tags": [c["how"]]}
        raise Violation(f"accepted an assignment that does not fit the graph ({c['how']}): {dict(p.assignment.items())}")


# --- Assignment on its own
@st.composite
def asg_cases(draw):
    n = draw(st.integers(1, 9))
    m = draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))
    steps = draw(st.lists(st.tuples(st.lists(st.integers(0, 3), min_size=n, max_size=n), st.booleans()), max_size=4))
    return {"m": m, "steps": [[list(a), b] for a, b in steps], "frozen": draw(st.lists(st.booleans(), min_size=1, max_size=4)), "twice": draw(st.lists(st.integers(0, 5), min_size=2, max_size=6))}


def run_asg(c):
    from gerrychain.partition.assignment import Assignment

    a = Assignment.from_dict({i: q for i, q in enumerate(c["m"])})
    model = list(c["m"])
    olds = []
    for new, copyfirst in c["steps"]:
        if copyfirst:
            olds.append((a, list(model)))
            a = a.copy()
        target = {}
        changed = {q for i in range(len(model)) if model[i] != new[i] for q in (model[i], new[i])}
        for q in changed:
            target[q] = {i for i in range(len(new)) if new[i] == q}
        a.update_parts(target)
        model = list(new)
        for b, m in olds + [(a, model)]:
            check(dict(b.items()) == dict(enumerate(m)), lambda: f"assignment {dict(b.items())}, want {m}")
            lv = {}
            for i, q in enumerate(m):
                lv.setdefault(q, set()).add(i)
            check({q: set(x) for q, x in b.parts.items() if x} == lv, lambda: f"parts {b.parts}, want {lv}")
            check(len(b) == len(m), "len differs")
    parts = {}
    for i, v in enumerate(c["twice"]):  # node v is put in part i % 3
        parts.setdefault(i % 3, set()).add(v)
    doubled = sum(map(len, parts.values())) > len(set().union(*parts.values()))
    good = {q: frozenset(x) for q, x in parts.items()}
    try:
        b = Assignment(good)
    except ValueError:
        check(doubled, lambda: f"refused: {good}")
    else:
        check(not doubled, lambda: f"a node in two parts was accepted: {good}")
        check(dict(b.items()) == {v: q for q, x in good.items() for v in x}, lambda: f"{dict(b.items())} from {good}")
    if not all(c["frozen"]):
        mixed = {i: frozenset([i]) if fz else {i} for i, fz in enumerate(c["frozen"])}
        try:
            Assignment(mixed)
        except TypeError:
            pass
        else:
            raise Violation(f"mutable level sets were accepted: {mixed}")
    return {"nt": bool(c["steps"])}


# --- each partition reports the updaters it was given
@st.composite
def upd_cases(draw):
    return {"g": draw(gen.graphs(2, 5)), "n2": draw(st.booleans()),
            "keys": draw(st.lists(st.sampled_from(["a", "b"]), min_size=2, max_size=4)),
            "defaults": draw(st.lists(st.booleans(), min_size=4, max_size=4)),
            "geo": draw(st.lists(st.booleans(), min_size=4, max_size=4)),
            "read_first": draw(st.lists(st.booleans(), min_size=4, max_size=4)),
            "flip": draw(st.lists(st.booleans(), min_size=4, max_size=4))}


def run_upd(c):
    from gerrychain import GeographicPartition, Partition

    with hist.fresh_defaults():
        roots = []
        for r, key in enumerate(c["keys"]):
            g, lab = gen.build_nx(c["g"])
            cls = GeographicPartition if c["geo"][r] else Partition
            given = {key: (lambda p, r=r: r)}
            p = cls(g, {v: i % 2 for i, v in enumerate(lab)}, given, use_default_updaters=c["defaults"][r])
            check(list(given) == [key], "the caller's dict of updaters changed")
            if c["flip"][(r + 1) % 4]:  # the caller goes on using its dict
                given[key] = lambda p: "another"
                given["later"] = given[key]
                check("later" not in p.keys() and "later" not in p.updaters, "an updater the caller added to its own dict later is there")
            if c["flip"][r]:
                p = p.flip({lab[0]: 1})
            if c["read_first"][r]:
                check(p[key] == r, lambda: f"root {r} reports {p[key]!r}, its updater gives {r}")
            roots.append((cls, c["defaults"][r], key, p))
        known = None
        for r, (cls, dflt, key, p) in enumerate(roots):
            got = p[key]
            if got == r:
                continue
            later = [s for s in range(r + 1, len(roots))
                     if roots[s][0] is cls and roots[s][1] and dflt and roots[s][2] == key]
            msg = f"root {r} reports {key}={got!r}, the updater it was given returns {r}"
            if later and got == later[-1] and not c["read_first"][r]:
                known = Violation(msg + " (overwritten by a later root partition of the class)",
                                  sig="C02-shared-default-updaters")
            else:
                raise Violation(msg)
        if known:
            raise known
        return {"nt": len(set(c["keys"])) < len(c["keys"])}


SUBS = [
    Sub("history", cases, run, quick=3000, thorough=80000, rule="all ways to build, then flips/reads/unlinks"),
    Sub("huge", lambda: hist.big_seeds(lo=400, hi=1500, kmin=2, kmax=60, smin=2, smax=8), run_big, quick=12, thorough=400, timeout=120, rule="the same on graphs of up to 1510 nodes"),
    Sub("big", lambda: hist.big_seeds(hi=150, kmin=1, kmax=30, smax=25), run_big, quick=96, thorough=3000, rule="the same on graphs of up to 160 nodes, 30 parts"),
    Sub("bad", bad_cases, run_bad, quick=600, thorough=8000, rule="assignments with missing, extra or swapped keys"),
    Sub("assignment", asg_cases, run_asg, quick=600, thorough=8000, rule="update_parts/copy sequences"),
    Sub("updaters", upd_cases, run_upd, quick=600, thorough=8000, rule="several root partitions with their own updaters"),
]
