"""C08: tree bipartitions: connected, balanced, region-preferred, or the documented error."""
import math
import random
from collections import Counter
from fractions import Fraction
from functools import partial

import networkx as nx
from hypothesis import strategies as st

from vp import gen, hist, trees
from vp.harness import Skip, Sub, Violation, check

QUICK = 4  # the numbers of cases in SUBS, times this, in the quick tier
RULE = "a case is non-trivial when a bipartition is returned for a graph with at least three nodes, or a failure is due"
ASSUMPTIONS = ["connected graphs with at least two nodes, populations >= 0 with positive target"]


@st.composite
def cases(draw):
    spec = draw(gen.graphs(2, 12))
    n = spec["n"]
    pop = draw(st.one_of(st.just([1] * n), st.lists(st.integers(1, 4), min_size=n, max_size=n),
                         st.lists(st.integers(0, 9), min_size=n, max_size=n)))
    if not sum(pop):
        pop[0] = 1
    one = draw(st.booleans())
    nk = draw(st.integers(0, 2))
    return {"g": spec, "pop": pop, "one": one,
            "div": draw(st.sampled_from([2, 3, 4] if one else [2, 2, 2, 1, 1.25, 4])),
            "eps": draw(st.sampled_from([0.0, 0.05, 0.1, 0.25, 0.5, 0.9])),
            "method": draw(st.sampled_from(["first", "random", "first_maxw"])),
            "cut": draw(st.sampled_from(["con", "mem"])), "tree": draw(st.sampled_from(["random", "uniform"])),
            "repeats": draw(st.integers(1, 4)), "attempts": draw(st.sampled_from([1, 3, 40])),
            "resel": draw(st.booleans()), "until": draw(st.booleans()), "given": draw(st.booleans()),
            "regs": [draw(st.lists(st.integers(0, 2), min_size=n, max_size=n)) for _ in range(nk)],
            "sur": draw(st.lists(st.sampled_from([0.5, 1, 2]), min_size=nk, max_size=nk)), "seed": draw(gen.seeds)}


def snapshot(g):
    return ({v: dict(d) for v, d in g.nodes(data=True)},
            {frozenset(e[:2]): {k: v for k, v in e[2].items() if k != "random_weight"} for e in g.edges(data=True)})


def run(c):
    from gerrychain import tree as gt

    spec, n = c["g"], c["g"]["n"]
    adj = gen.adjacency(spec)
    g, lab = gen.build_nx(spec, {"pop": c["pop"], **{f"r{i}": r for i, r in enumerate(c["regs"])}})
    index = {lab[i]: i for i in range(n)}
    before = snapshot(g)
    tot = sum(c["pop"])
    target = tot / c["div"]
    fn = gt.find_balanced_edge_cuts_contraction if c["cut"] == "con" else gt.find_balanced_edge_cuts_memoization
    tf = gt.random_spanning_tree if c["tree"] == "random" else gt.uniform_spanning_tree
    kw = dict(pop_col="pop", pop_target=target, epsilon=c["eps"], node_repeats=c["repeats"], spanning_tree_fn=tf,
              balance_edge_fn=fn, one_sided_cut=c["one"], max_attempts=c["attempts"])
    given = None
    if c["given"]:
        order = gen.ordered(range(len(spec["edges"])), c["seed"] % 4)
        t, comp = nx.Graph(), {i: i for i in range(n)}
        t.add_nodes_from((v, dict(g.nodes[v])) for v in lab)
        given = []
        for p in order:
            a, b = spec["edges"][p]
            ra, rb = a, b
            while comp[ra] != ra:
                ra = comp[ra]
            while comp[rb] != rb:
                rb = comp[rb]
            if ra != rb:
                comp[ra] = rb
                t.add_edge(lab[a], lab[b])
                given.append(p)
        kw["spanning_tree"] = t
    random.seed(c["seed"])
    documented = (RuntimeError,)
    if c["method"] == "random":
        if not c["until"]:
            documented = ()  # the outcome of a failed try is None
        kw["repeat_until_valid"] = c["until"]
        call = gt.bipartition_tree_random
    else:
        kw["allow_pair_reselection"] = c["resel"]
        kw["warn_attempts"] = 2
        if c["regs"]:
            kw["region_surcharge"] = {f"r{i}": s for i, s in enumerate(c["sur"])}
        if c["method"] == "first_maxw":
            kw["cut_choice"] = lambda cuts: cuts[-1]
        call = gt.bipartition_tree
        if c["resel"]:
            documented = (gt.ReselectException,)
    try:
        res = call(g, **kw)
    except documented:
        res = "error"
    check(snapshot(g) == before, "the graph's data were changed")

    exact = c["eps"] in (0.0, 0.25, 0.5) and c["div"] in (1, 2, 4)
    slack = 0 if exact else Fraction(1, 10**9)

    def cut_sides(positions):
        es = [spec["edges"][p] for p in positions]
        return [(p, s) for p, s in zip(positions, trees.sides(range(n), es))]

    def ok_side(nodes):
        return trees.within(sum(c["pop"][v] for v in nodes), target, c["eps"], slack)

    def edgy(nodes):
        return not exact and trees.on_edge(sum(c["pop"][v] for v in nodes), target, c["eps"])

    def balanced(positions):
        """(surely has a cut, surely has none) for a tree"""
        have, maybe = False, False
        for p, s in cut_sides(positions):
            o = set(range(n)) - s
            x, y = ok_side(s), ok_side(o)
            hit = (x or y) if c["one"] else (x and y)
            if hit:
                maybe = True
                strict = not (edgy(s) or edgy(o))
                if c["one"] and c["cut"] == "con":
                    strict = False  # may depend on the root
                have |= strict
        return have, not maybe

    if res is None:
        check(c["method"] == "random" and not c["until"], "None was returned although a cut was to be searched until found")
        if given is not None:
            check(not balanced(given)[0], "None was returned although the given tree has a balanced cut")
        elif len(spec["edges"]) == n - 1:
            check(not balanced(range(n - 1))[0], "None was returned although the only spanning tree has a balanced cut")
        return {"nt": n > 2, "tags": ["none"]}
    if isinstance(res, str):
        if given is not None:
            check(not balanced(given)[0], "an error was raised although the given tree has a balanced cut")
        if len(spec["edges"]) == n - 1:
            check(not balanced(range(n - 1))[0], "an error was raised although the only spanning tree has a balanced cut")
        elif c["attempts"] == 40 and len(spec["edges"]) <= 9 and n <= 6 and not (c["one"] and c["cut"] == "con"):
            al = trees.spanning_trees(range(n), spec["edges"])
            p = sum(balanced(t)[0] for t in al) / len(al)
            draws = 40 // c["repeats"] - 1
            if not c["regs"]:
                # Kruskal's law differs from the uniform one, by a bounded factor on graphs this small
                check((1 - p / 8) ** draws > 1e-12, lambda: f"no cut found in {draws} trees although a fraction {p} of all trees have one")
        return {"nt": n > 2, "tags": ["error"]}
    side = {index[v] for v in res}
    rest = set(range(n)) - side
    check(len(res) == len(side), "nodes repeated")
    check(side and rest, lambda: f"one side is empty: {side}")
    check(gen.is_conn(side, adj) and gen.is_conn(rest, adj), lambda: f"sides {sorted(side)} / {sorted(rest)} are not both connected")
    check(ok_side(side), lambda: f"the returned side has population {sum(c['pop'][v] for v in side)}, target {target}, eps {c['eps']}")
    if not c["one"]:
        check(ok_side(rest), lambda: f"the other side has population {sum(c['pop'][v] for v in rest)}, target {target}, eps {c['eps']}")
    return {"nt": n > 2, "tags": ["returned", c["method"]]}


# --- the cut chosen on a given tree has the highest regional preference
@st.composite
def region_cases(draw):
    spec = draw(gen.graphs(3, 14, kinds=("tree", "path", "tree")))
    n = spec["n"]
    nk = draw(st.sampled_from([1, 2, 2, 3, 3, 3, 4, 5]))
    return {"g": spec, "regs": [draw(st.lists(st.integers(0, draw(st.integers(1, 2))), min_size=n, max_size=n)) for _ in range(nk)],
            "sur": draw(st.lists(st.sampled_from([1, 1, 2, 3, 6, 10]), min_size=nk, max_size=nk)),
            "eps": draw(st.sampled_from([0.5, 0.75, 0.9])), "seed": draw(gen.seeds),
            "cut": draw(st.sampled_from(["con", "mem"])), "w": draw(st.sampled_from(["fn", "attr", "none", "uniform", "drawn"]))}


def run_region(c):
    from gerrychain import tree as gt

    spec, n = c["g"], c["g"]["n"]
    edges = spec["edges"]
    g, lab = gen.build_nx(spec, {"pop": [1] * n, **{f"r{i}": r for i, r in enumerate(c["regs"])}})
    index = {lab[i]: i for i in range(n)}
    sur = {f"r{i}": s for i, s in enumerate(c["sur"])}
    random.seed(c["seed"])
    t = nx.Graph()
    t.add_nodes_from((v, dict(g.nodes[v])) for v in lab)
    weights = [((p * 37 + c["seed"]) % 101) / 101 for p in range(len(edges))]
    for p, (a, b) in enumerate(edges):
        t.add_edge(lab[a], lab[b], **({"random_weight": weights[p]} if c["w"] == "attr" else {}))
    if c["w"] == "fn":
        t = gt.random_spanning_tree(g, region_surcharge=sur)
    elif c["w"] == "uniform":
        t = gt.uniform_spanning_tree(g)
    fn = gt.find_balanced_edge_cuts_contraction if c["cut"] == "con" else gt.find_balanced_edge_cuts_memoization
    side0 = trees.sides(range(n), edges)
    bal = [p for p in range(len(edges)) if all(trees.within(x, n / 2, c["eps"]) for x in (len(side0[p]), n - len(side0[p])))]
    if not bal or (c["eps"] == 0.9 and any(trees.on_edge(len(side0[p]), n / 2, 0.9) for p in range(len(edges)))):
        return {"nt": False}
    crossed = {p: [i for i, r in enumerate(c["regs"]) if r[edges[p][0]] != r[edges[p][1]]] for p in bal}
    if len(sur) <= 3:
        rank = {p: (len(crossed[p]), sum(c["sur"][i] for i in crossed[p])) for p in bal}
    elif c["w"] == "fn":
        rank = {p: sum(c["sur"][i] for i in crossed[p]) for p in bal}
    else:
        rank = {p: 0 for p in bal}
    top = max(rank.values())
    best = [p for p in bal if rank[p] == top]
    allowed = [frozenset(s) for p in best for s in (side0[p], set(range(n)) - side0[p])]
    for _ in range(3):
        how = {"spanning_tree_fn": gt.uniform_spanning_tree} if c["w"] == "drawn" else {"spanning_tree": t}
        res = gt.bipartition_tree(g, pop_col="pop", pop_target=n / 2, epsilon=c["eps"], **how,
                                  region_surcharge=sur, balance_edge_fn=fn, max_attempts=2)
        side = frozenset(index[v] for v in res)
        check(side in allowed, lambda: f"cut with side {sorted(side)} is not among the preferred balanced cuts: crossings {crossed}, "
              f"surcharges {c['sur']}")
    return {"nt": len(best) < len(bal), "tags": [f"{len(sur)} region types"]}


# --- hopeless searches, long ones: the tolerance is just below what any cut needs
@st.composite
def stubborn_cases(draw):
    spec = draw(gen.graphs(3, 6))
    n = spec["n"]
    return {"g": spec, "pop": draw(st.lists(st.integers(1, 7), min_size=n, max_size=n)), "f": draw(st.sampled_from([0.97, 0.9, 0.6])),
            "one": draw(st.booleans()), "div": draw(st.sampled_from([2, 2, 3])), "attempts": draw(st.sampled_from([150, 1100, 2500])),
            "method": draw(st.sampled_from(["first", "random"])), "cut": draw(st.sampled_from(["con", "mem"])),
            "tree": draw(st.sampled_from(["random", "uniform"])), "repeats": draw(st.integers(1, 3)), "resel": draw(st.booleans()),
            "regs": draw(st.booleans()), "seed": draw(gen.seeds)}


def run_stubborn(c):
    from gerrychain import tree as gt

    spec, n = c["g"], c["g"]["n"]
    adj = gen.adjacency(spec)
    g, lab = gen.build_nx(spec, {"pop": c["pop"], "r": [i % 2 for i in range(n)]})
    tot = sum(c["pop"])
    target = Fraction(tot, c["div"] if c["one"] else 2)
    need = None
    for mask in range(1, 2**n - 1):
        s = [v for v in range(n) if mask >> v & 1]
        o = [v for v in range(n) if not mask >> v & 1]
        if gen.is_conn(s, adj) and gen.is_conn(o, adj):
            d = abs(sum(c["pop"][v] for v in s) / target - 1)
            if not c["one"]:
                d = max(d, abs(sum(c["pop"][v] for v in o) / target - 1))
            need = d if need is None else min(need, d)
    if not need:
        return {"nt": False, "tags": ["a perfect cut exists"]}
    eps = float(need) * c["f"]
    kw = dict(pop_col="pop", pop_target=float(target), epsilon=eps, node_repeats=c["repeats"], one_sided_cut=c["one"], max_attempts=c["attempts"],
              spanning_tree_fn=gt.random_spanning_tree if c["tree"] == "random" else gt.uniform_spanning_tree,
              balance_edge_fn=gt.find_balanced_edge_cuts_contraction if c["cut"] == "con" else gt.find_balanced_edge_cuts_memoization)
    expected = RuntimeError
    if c["method"] == "first":
        kw["allow_pair_reselection"] = c["resel"]
        if c["resel"]:
            expected = gt.ReselectException
        if c["regs"]:
            kw["region_surcharge"] = {"r": 1}
    random.seed(c["seed"])
    try:
        res = (gt.bipartition_tree if c["method"] == "first" else gt.bipartition_tree_random)(g, **kw)
    except expected:
        return {"nt": True, "tags": [c["method"], f"{c['attempts']} attempts"]}
    raise Violation(f"{res} was returned, although no cut is within {eps} of {float(target)} (the best is {float(need)} off)")


# --- the cut drawn on a given tree is uniform among its balanced cuts
@st.composite
def pick_cases(draw):
    spec = draw(gen.graphs(3, 12, kinds=("tree", "path", "star", "tree")))
    n = spec["n"]
    return {"g": spec, "pop": draw(st.one_of(st.just([1] * n), st.lists(st.integers(1, 4), min_size=n, max_size=n))),
            "eps": draw(st.sampled_from([0.33, 0.55, 0.77, 0.93])), "method": draw(st.sampled_from(["first", "random", "random"])), "one": draw(st.booleans()),
            "cut": draw(st.sampled_from(["con", "mem"])), "seed": draw(gen.seeds), "empty": draw(st.booleans())}


NPICK = 700


def run_pick(c):
    from gerrychain import tree as gt

    spec, n = c["g"], c["g"]["n"]
    edges = spec["edges"]
    g, lab = gen.build_nx(spec, {"pop": c["pop"]})
    index = {lab[i]: i for i in range(n)}
    t, _ = gen.build_nx(spec, {"pop": c["pop"]}, cls=nx.Graph)
    tot = sum(c["pop"])
    target = tot / 3 if c["one"] else tot / 2
    fn = gt.find_balanced_edge_cuts_memoization if c["one"] or c["cut"] == "mem" else gt.find_balanced_edge_cuts_contraction
    side0 = trees.sides(range(n), edges)
    name, good = {}, []
    for p, s in enumerate(side0):
        x = sum(c["pop"][v] for v in s)
        y = tot - x
        if trees.on_edge(x, target, c["eps"]) or trees.on_edge(y, target, c["eps"]):
            raise Skip("on the edge")
        fx, fy = trees.within(x, target, c["eps"]), trees.within(y, target, c["eps"])
        if (fx or fy) if c["one"] else (fx and fy):
            good.append(p)
            name[frozenset(s)] = name[frozenset(set(range(n)) - s)] = p
    if len(good) < 2:
        return {"nt": False}
    kw = dict(pop_col="pop", pop_target=target, epsilon=c["eps"], spanning_tree=t, balance_edge_fn=fn, max_attempts=2, one_sided_cut=c["one"])
    if c["method"] == "first" and c["empty"]:
        kw["region_surcharge"] = {}
    random.seed(c["seed"])
    counts = {}
    for _ in range(NPICK):
        res = (gt.bipartition_tree if c["method"] == "first" else gt.bipartition_tree_random)(g, **kw)
        key = name.get(frozenset(index[v] for v in res))
        check(key is not None, lambda: f"{res} is not a side of a balanced cut")
        counts[key] = counts.get(key, 0) + 1
    ok, msg = trees.law_ok(counts, {p: 1 / len(good) for p in good}, NPICK)
    check(ok, lambda: f"cuts are not drawn uniformly among the {len(good)} balanced ones: {msg}")
    return {"nt": True, "tags": [c["method"]]}


# --- epsilon_tree_bipartition
@st.composite
def eps_cases(draw):
    spec = draw(gen.graphs(2, 10))
    n = spec["n"]
    pop = draw(st.one_of(st.just([1] * n), st.lists(st.integers(1, 5), min_size=n, max_size=n)))
    return {"g": spec, "pop": pop, "eps": draw(st.sampled_from([0.05, 0.25, 0.5, 0.9])), "seed": draw(gen.seeds),
            "parts": draw(st.sampled_from([[0, 1], [1, 0], ["a", "b"], [7, -2]])), "method": draw(st.sampled_from(["first", "random", "own"])),
            "off": draw(st.sampled_from([0, 0, 0, 0.3])), "frozen": draw(st.booleans())}


def run_eps(c):
    from functools import partial

    from gerrychain import tree as gt
    from gerrychain.graph.graph import FrozenGraph

    spec, n = c["g"], c["g"]["n"]
    adj = gen.adjacency(spec)
    g, lab = gen.build_nx(spec, {"pop": c["pop"]})
    index = {lab[i]: i for i in range(n)}
    target = sum(c["pop"]) / 2 + c["off"]
    meth = partial(gt.bipartition_tree if c["method"] == "first" else gt.bipartition_tree_random, max_attempts=60)
    own = c["method"] == "own"
    if own:  # a user's method that disregards the tolerance
        meth = lambda graph, **kw: {lab[v] for v in range(n) if v == 0 or v < n - 1 and c["seed"] >> v & 1}
    whole = None
    if c["frozen"]:  # the graph of a partition
        whole = g = FrozenGraph(g)
        if not own:
            meth = partial(meth, spanning_tree_fn=gt.uniform_spanning_tree)
    random.seed(c["seed"])
    for bad in ([1], [1, 2, 3]):
        try:
            gt.epsilon_tree_bipartition(g, bad, target, "pop", c["eps"], method=meth)
        except ValueError:
            pass
        else:
            raise Violation(f"{bad} was accepted as two parts")
    try:
        res = gt.epsilon_tree_bipartition(g, c["parts"], target, "pop", c["eps"], method=meth)
    except (RuntimeError, gt.BalanceError, gt.PopulationBalanceError):
        res = None
    if whole is not None:
        check(set(whole.node_indices) == set(lab) and sorted(map(str, whole)) == sorted(map(str, lab)) and len(whole.edge_indices) == len(spec["edges"]),
              lambda: f"the partition's graph now has nodes {sorted(map(str, whole))}")
    if res is None:
        if len(spec["edges"]) == n - 1 and not own:
            for s in trees.sides(range(n), spec["edges"]):
                x, y = sum(c["pop"][v] for v in s), sum(c["pop"]) - sum(c["pop"][v] for v in s)
                check(not all(trees.within(z, target, c["eps"], -1e-9) for z in (x, y)), "failed on a tree with a balanced cut")
        return {"nt": False, "tags": ["error"]}
    check({index[v] for v in res} == set(range(n)), "not all nodes are assigned")
    for q in c["parts"]:
        nodes = [index[v] for v, x in res.items() if x == q]
        check(nodes and (own or gen.is_conn(nodes, adj)), lambda: f"part {q} = {nodes} is not connected")
        check(trees.within(sum(c["pop"][v] for v in nodes), target, c["eps"], 1e-9), lambda: f"part {q} is not balanced")
    check(set(res.values()) <= set(c["parts"]), "other parts")
    check(set(g.nodes) == set(lab) and len(g.edges) == len(spec["edges"]), "the graph was changed")
    return {"nt": n > 2}


def run_big(lc):
    rng, c = hist.big(lc, contiguous=True)
    g = c["g"]
    n, nk = g["n"], rng.randrange(3)
    one = rng.random() < 0.5
    return run({"g": g, "pop": [1] * n if rng.random() < 0.4 else [rng.randint(0, rng.choice([4, 1000])) for _ in range(n - 1)] + [1], "one": one,
                "div": rng.choice([2, 3, 4, 10] if one else [2]), "eps": rng.choice([0.02, 0.05, 0.1, 0.25, 0.5]), "method": rng.choice(["first", "random", "first_maxw"]),
                "cut": rng.choice(["con", "mem"]), "tree": rng.choice(["random", "uniform"]), "repeats": rng.randint(1, 12), "attempts": rng.choice([1, 3, 20]),
                "resel": rng.random() < 0.5, "until": rng.random() < 0.5, "given": rng.random() < 0.3,
                "regs": [[rng.randrange(6) for _ in range(n)] for _ in range(nk)], "sur": [rng.choice([0.5, 1, 2]) for _ in range(nk)], "seed": lc["seed"]})


# --- the law of the whole search: trees are drawn until one has a balanced cut, and one of its cuts is drawn
@st.composite
def law_cases(draw):
    spec = draw(gen.graphs(3, 7, kinds=("rand", "cycle", "complete", "grid", "rand")))
    n = spec["n"]
    return {"g": spec, "pop": draw(st.one_of(st.just([1] * n), st.lists(st.integers(1, 4), min_size=n, max_size=n))), "eps": draw(st.sampled_from([0.3, 0.5, 0.7])),
            "tree": draw(st.sampled_from(["random", "random", "uniform"])), "fn": draw(st.sampled_from(["mem", "con"])), "method": draw(st.sampled_from(["first", "random"])),
            "repeats": draw(st.integers(1, 3)), "seed": draw(gen.seeds)}


def run_law(c, ndraw=1500):
    from gerrychain import tree as gt

    spec, n, pop = c["g"], c["g"]["n"], c["pop"]
    edges = spec["edges"]
    target = sum(pop) / 2
    if len(edges) > 12 or any(trees.on_edge(x, target, c["eps"]) for x in range(sum(pop) + 1)):
        raise Skip("a population on the edge of the tolerance")
    if c["tree"] == "random":
        weight = trees.kruskal_law(n, edges, [0] * len(edges)) if len(edges) <= 7 else None
    else:
        weight = trees.spanning_trees(range(n), edges, limit=130)
        weight = weight and {t: Fraction(1, len(weight)) for t in weight}
    if not weight:
        raise Skip("too many trees")
    law = Counter()
    for t, pr in weight.items():
        cuts = []
        for e in t:
            comp = {edges[e][0]}
            while True:
                more = {x for f in t if f != e for x in edges[f] if comp & set(edges[f])} - comp
                if not more:
                    break
                comp |= more
            x = sum(pop[v] for v in comp)
            if trees.within(x, target, c["eps"]) and trees.within(sum(pop) - x, target, c["eps"]):
                cuts.append(frozenset([frozenset(comp), frozenset(range(n)) - comp]))
        for cut in cuts:
            law[cut] += pr / len(cuts)
    total = sum(law.values())
    if not total or total < Fraction(1, 100):
        raise Skip("no balanced cut")
    law = {k: x / total for k, x in law.items()}
    g, lab = gen.build_nx(spec, {"pop": pop})
    index = {v: i for i, v in enumerate(lab)}
    call = partial(gt.bipartition_tree if c["method"] == "first" else gt.bipartition_tree_random, g, pop_col="pop", pop_target=target, epsilon=c["eps"], node_repeats=c["repeats"],
                   max_attempts=20000, spanning_tree_fn=gt.random_spanning_tree if c["tree"] == "random" else gt.uniform_spanning_tree,
                   balance_edge_fn=gt.find_balanced_edge_cuts_memoization if c["fn"] == "mem" else gt.find_balanced_edge_cuts_contraction)
    random.seed(c["seed"])
    counts = Counter()
    for _ in range(ndraw):
        side = frozenset(index[v] for v in call())
        counts[frozenset([side, frozenset(range(n)) - side])] += 1
    ok, msg = trees.law_ok(counts, law, ndraw)
    check(ok, lambda: f"bipartitions of {edges}, populations {pop}, tolerance {c['eps']}: {msg}")
    return {"nt": len(law) > 1, "tags": [c["tree"], c["method"]]}


# --- how often a tree is tried
@st.composite
def repeat_cases(draw):
    n = draw(st.integers(2, 6))
    return {"n": n, "fail": draw(st.integers(0, 14)), "repeats": draw(st.integers(1, 5)), "max": draw(st.one_of(st.none(), st.integers(1, 16))), "given": draw(st.booleans()),
            "method": draw(st.sampled_from(["first", "random"])), "resel": draw(st.booleans()), "seed": draw(gen.seeds)}


def run_repeats(c):
    from gerrychain import tree as gt

    n = c["n"]
    g, lab = gen.build_nx({"n": n, "edges": [[i, i + 1] for i in range(n - 1)], "label": "int"}, {"pop": [1] * n})
    drawn, tries = [], []

    def draw_tree(graph):
        drawn.append(gt.random_spanning_tree(graph))
        return drawn[-1]

    def cuts(h, one_sided_cut=False, choice=random.choice):
        tries.append(len(drawn))
        return [] if len(tries) <= c["fail"] else gt.find_balanced_edge_cuts_memoization(h, one_sided_cut=one_sided_cut, choice=choice)

    kw = dict(node_repeats=c["repeats"], max_attempts=c["max"], spanning_tree_fn=draw_tree, balance_edge_fn=cuts)
    if c["given"]:
        kw["spanning_tree"] = gt.random_spanning_tree(g)
    if c["resel"] and c["method"] == "first":
        kw["allow_pair_reselection"] = True
    random.seed(c["seed"])
    try:
        (gt.bipartition_tree if c["method"] == "first" else gt.bipartition_tree_random)(g, "pop", n / 2, 1 / n + 0.01, **kw)
        total = c["fail"] + 1
    except (RuntimeError, gt.ReselectException):
        check(c["max"] is not None and c["max"] <= c["fail"], "gave up although attempts remain")
        total = c["max"]
    want = [i // c["repeats"] + (not c["given"]) for i in range(total)]
    check(tries == want, lambda: f"attempts were made with trees number {tries}, should be {want} (node_repeats={c['repeats']})")
    return {"nt": total > c["repeats"], "tags": [c["method"]]}


SUBS = [
    Sub("repeats", repeat_cases, run_repeats, quick=500, thorough=10000, rule="searches whose first tries fail: which tree each try uses"),
    Sub("law", law_cases, run_law, quick=60, thorough=1500, timeout=300, rule="1500 draws per graph against the law over all its spanning trees"),
    Sub("bipartition", cases, run, quick=5000, thorough=150000, rule="all methods, samplers, finders, modes"),
    Sub("region", region_cases, run_region, quick=2500, thorough=60000, rule="preferred cut of a given tree; non-trivial if preference excludes a balanced cut"),
    Sub("stubborn", stubborn_cases, run_stubborn, quick=100, thorough=4000, rule="searches of up to 2500 attempts without a balanced cut"),
    Sub("pick", pick_cases, run_pick, quick=100, thorough=3000, rule="700 draws per tree against its balanced cuts"),
    Sub("epsilon", eps_cases, run_eps, quick=1000, thorough=20000, rule="two labelled parts"),
    Sub("huge", lambda: hist.big_seeds(lo=300, hi=800, kmin=2, kmax=9, smin=2, smax=6), run_big, quick=8, thorough=300, timeout=200, rule="bipartitions of graphs of up to 800 nodes"),
    Sub("big", lambda: hist.big_seeds(hi=200), run_big, quick=96, thorough=3000, rule="bipartitions of graphs of up to 210 nodes"),
]
