"""C10: seed plans, seed chunks, prime factors."""
import random
from functools import partial

from hypothesis import strategies as st

from vp import gen, hist, trees
from vp.harness import Skip, Sub, check

RULE = "a case is non-trivial when a plan (or chunking) with at least three parts is produced"
ASSUMPTIONS = ["connected graphs, at least two parts, target = total / parts", "failing to find a plan within few attempts is a documented error"]


@st.composite
def graph_pop(draw, big=8):
    if draw(st.integers(0, 3)):
        a, b = draw(st.integers(2, big)), draw(st.integers(2, big))
        n = a * b
        spec = {"n": n, "edges": [[i, i + 1] for i in range(n) if (i + 1) % b] + [[i, i + b] for i in range(n - b)],
                "label": draw(st.sampled_from(["int", "tuple", "str", "scram"])), "order": draw(st.integers(0, 3))}
    else:
        spec = draw(gen.graphs(4, 16))
        n = spec["n"]
    kind = draw(st.sampled_from(["unit", "unit", "vary", "vary", "zeros", "parts"]))
    if kind == "unit":
        pop = [1] * n
    else:
        rng = random.Random(draw(gen.seeds))
        hi = rng.choice([3, 9, 1000])
        pop = [rng.randint(1, hi) for _ in range(n)]
        if kind == "zeros":
            pop = [0 if rng.random() < 0.3 and i else x for i, x in enumerate(pop)]
        elif kind == "parts":
            pop = [x / 1024 for x in pop]
    return spec, pop


@st.composite
def cases(draw):
    spec, pop = draw(graph_pop())
    k = draw(st.sampled_from([j for j in range(2, max(2, min(9, spec["n"] // 2)) + 1) for _ in range(1 if j == 2 else 2)]))
    return {"g": spec, "pop": pop, "k": k, "labels": draw(st.sampled_from(["range", "list", "str", "rev"])),
            "eps": draw(st.sampled_from([0.1, 0.2, 0.3, 0.5, 0.05])), "seed": draw(gen.seeds),
            "how": draw(st.sampled_from(["rtp", "rtp", "rsp", "rsp_n", "rsp_ceil", "random", "random_rsp"])),
            "n": draw(st.integers(2, 5)), "ceil": draw(st.integers(2, 8)), "method": draw(st.sampled_from(["first", "random"])),
            "cut": draw(st.sampled_from(["mem", "con"])), "tree": draw(st.sampled_from(["random", "uniform"])),
            "repeats": draw(st.integers(1, 2)), "frozen": draw(st.booleans())}


def same_frozen(f, lab, edges):
    """the frozen graph (a partition's) still has all its nodes and edges"""
    want = {frozenset((lab[a], lab[b])) for a, b in edges}
    check(set(f.node_indices) == set(lab) and sorted(map(str, f)) == sorted(map(str, lab)) and len(f) == len(lab) and set(f.nodes) == set(lab),
          lambda: f"the partition's graph now has nodes {sorted(map(str, f))} (nodes: {len(list(f.nodes))})")
    check({frozenset(e) for e in f.edge_indices} == want and {frozenset(e) for e in f.edges} == want, "the edges of the partition's graph changed")


def the_method(c, attempts=40):
    from gerrychain import tree as gt

    return partial(gt.bipartition_tree if c["method"] == "first" else gt.bipartition_tree_random, max_attempts=attempts,
                   balance_edge_fn=gt.find_balanced_edge_cuts_memoization if c["cut"] == "mem" else gt.find_balanced_edge_cuts_contraction,
                   spanning_tree_fn=gt.random_spanning_tree if c["tree"] == "random" else gt.uniform_spanning_tree)


def run(c):
    from gerrychain import Partition
    from gerrychain import tree as gt

    spec, n = c["g"], c["g"]["n"]
    if c["k"] > n:
        raise Skip("more parts than nodes")
    adj = gen.adjacency(spec)
    g, lab = gen.build_nx(spec, {"pop": c["pop"]})
    index = {v: i for i, v in enumerate(lab)}
    k = c["k"]
    parts = {"range": range(k), "list": [3 * j - 2 for j in range(k)], "str": [f"d{j}" for j in range(k)],
             "rev": list(range(k, 0, -1))}[c["labels"]]
    target = sum(c["pop"]) / k
    m = the_method(c)
    whole = None
    if c["frozen"] and c["tree"] == "uniform":  # the graph of a partition
        whole = g = Partition(g, dict.fromkeys(lab, 0), use_default_updaters=False).graph
    kw = dict(pop_target=target, pop_col="pop", epsilon=c["eps"], method=m)
    random.seed(c["seed"])
    with hist.fresh_defaults():
        try:
            if c["how"] == "rtp":
                res = gt.recursive_tree_part(g, parts, node_repeats=c["repeats"], **kw)
            elif c["how"] == "rsp":
                res = gt.recursive_seed_part(g, parts, node_repeats=c["repeats"], **kw)
            elif c["how"] == "rsp_n":
                res = gt.recursive_seed_part(g, parts, n=c["n"], **kw)
            elif c["how"] == "rsp_ceil":
                res = gt.recursive_seed_part(g, parts, ceil=c["ceil"], **kw)
            else:
                f = partial(gt.recursive_tree_part if c["how"] == "random" else gt.recursive_seed_part, method=m)
                p = Partition.from_random_assignment(g, k, c["eps"], "pop", method=f)
                res = dict(p.assignment.items())
                parts = range(k)
        except (RuntimeError, gt.BalanceError, gt.PopulationBalanceError):
            res = None
    if whole is not None:
        same_frozen(whole, lab, spec["edges"])
    if res is None:
        return {"nt": False, "tags": ["failed " + c["how"]]}
    check({index[v] for v in res} == set(range(n)), "not every node is assigned")
    check(set(res.values()) == set(parts), lambda: f"parts {sorted(map(str, set(res.values())))} used, {list(parts)} requested")
    for q in parts:
        nodes = [index[v] for v, x in res.items() if x == q]
        check(gen.is_conn(nodes, adj), lambda: f"part {q!r} = {sorted(nodes)} is not connected")
        x = sum(c["pop"][v] for v in nodes)
        check(trees.within(x, target, c["eps"], 1e-9), lambda: f"part {q!r} has population {x}, target {target}, eps {c['eps']} ({c['how']})")
    check(set(g.nodes) == set(lab) and len(g.edges) == len(spec["edges"])
          and all(g.nodes[v] == {"pop": c["pop"][i]} for i, v in enumerate(lab)), "the graph was changed")
    return {"nt": k >= 3, "tags": [c["how"]]}


@st.composite
def chunk_cases(draw):
    spec, pop = draw(graph_pop(7))
    nc = draw(st.integers(2, 4))
    return {"g": spec, "pop": pop, "chunks": nc, "per": draw(st.integers(1, 4)), "eps": draw(st.sampled_from([0.1, 0.3, 0.5, 0.75])),
            "seed": draw(gen.seeds), "method": draw(st.sampled_from(["first", "random"])), "cut": draw(st.sampled_from(["mem", "con"])),
            "tree": draw(st.sampled_from(["random", "uniform"])), "default": draw(st.booleans())}


def run_chunks(c):
    from gerrychain import tree as gt

    spec, n = c["g"], c["g"]["n"]
    nd = c["chunks"] * c["per"]
    if c["chunks"] > n // 2:
        raise Skip("too many chunks")
    adj = gen.adjacency(spec)
    g, lab = gen.build_nx(spec, {"pop": c["pop"]})
    index = {v: i for i, v in enumerate(lab)}
    target = sum(c["pop"]) / nd
    random.seed(c["seed"])
    kw = {} if c["default"] and n <= 9 else {"method": partial(the_method(c), one_sided_cut=True)}
    try:
        res = gt.get_seed_chunks(g, c["chunks"], nd, target, "pop", c["eps"], **kw)
    except (RuntimeError, gt.BalanceError):
        return {"nt": False, "tags": ["failed"]}
    check(len(res) == c["chunks"], lambda: f"{len(res)} chunks, {c['chunks']} requested")
    flat = [index[v] for ch in res for v in ch]
    check(sorted(flat) == list(range(n)), "the chunks do not cover each node once")
    for ch in res:
        nodes = [index[v] for v in ch]
        check(gen.is_conn(nodes, adj), lambda: f"chunk {sorted(nodes)} is not connected")
        x = sum(c["pop"][v] for v in nodes)
        check(trees.within(x, target * c["per"], c["eps"], 1e-9), lambda: f"chunk population {x}, share {target * c['per']}, eps {c['eps']}")
    return {"nt": c["chunks"] >= 3, "tags": ["produced"]}


# --- a user's method that disregards the tolerance
@st.composite
def own_cases(draw):
    n = draw(st.integers(4, 14))
    return {"n": n, "k": draw(st.integers(2, min(6, n))), "pop": draw(st.lists(st.integers(1, 4), min_size=n, max_size=n)),
            "eps": draw(st.sampled_from([0.1, 0.3, 0.6, 0.9])), "sizes": draw(st.lists(st.integers(0, 3), min_size=6, max_size=6)), "last": draw(st.booleans())}


def run_own(c):
    from gerrychain import tree as gt

    n, k, pop = c["n"], c["k"], c["pop"]
    g, lab = gen.build_nx({"n": n, "edges": [[i, i + 1] for i in range(n - 1)], "label": "int"}, {"pop": pop})
    target = sum(pop) / k
    todo, took = list(c["sizes"]), []

    def method(graph, pop_target=None, **kw):
        """about pop_target people from one end of the path, plus or minus a few nodes"""
        nodes = sorted(graph.nodes)
        out, x = [], 0
        while nodes[1:] and x + pop[nodes[0]] <= pop_target * 1.01 or not out:
            x += pop[nodes[0]]
            out.append(nodes.pop(0))
        off = todo.pop(0) if todo else 0
        if off == 1 and len(nodes) > 1:
            out.append(nodes.pop(0))
        elif off == 2 and len(out) > 1:
            nodes.insert(0, out.pop())
        took.append(out)
        return set(out)

    try:
        res = gt.recursive_tree_part(g, range(k), target, "pop", c["eps"], method=method)
    except (gt.BalanceError, gt.PopulationBalanceError, IndexError):
        return {"nt": False, "tags": ["refused"]}
    check(set(res) == set(range(n)), "not every node is assigned")
    for q in range(k):
        x = sum(pop[v] for v in res if res[v] == q)
        check(trees.within(x, target, c["eps"], 1e-9), lambda: f"part {q} has population {x}, target {target}, eps {c['eps']}, and no error")
    return {"nt": k >= 3, "tags": ["produced"]}


# --- on a path or cycle of equal nodes every region can be cut, so a plan must be found
@st.composite
def line_cases(draw):
    m, k = draw(st.integers(2, 12)), draw(st.integers(2, 14))
    return {"m": m, "k": k, "d": draw(st.integers(1, max(1, (m - 1) // 2))), "cycle": draw(st.booleans()), "seed": draw(gen.seeds), "each": draw(st.sampled_from([1, 7, 0.25])),
            "method": draw(st.sampled_from(["first", "random"])), "cut": draw(st.sampled_from(["mem", "mem", "con"])), "tree": draw(st.sampled_from(["random", "uniform"])),
            "how": draw(st.sampled_from(["rtp", "rtp", "random"])), "label": draw(st.sampled_from(["int", "str", "scram"]))}


def run_line(c):
    from gerrychain import Partition
    from gerrychain import tree as gt

    n = c["m"] * c["k"]
    spec = {"n": n, "edges": [[i, i + 1] for i in range(n - 1)] + ([[n - 1, 0]] if c["cycle"] else []), "label": c["label"]}
    g, lab = gen.build_nx(spec, {"pop": [c["each"]] * n})
    index = {v: i for i, v in enumerate(lab)}
    adj = gen.adjacency(spec)
    target, eps = c["m"] * c["each"], (c["d"] + 0.5) / c["m"]
    m = the_method(c, attempts=3000)
    random.seed(c["seed"])
    with hist.fresh_defaults():
        if c["how"] == "rtp":
            res = gt.recursive_tree_part(g, range(c["k"]), target, "pop", eps, method=m)
        else:
            res = dict(Partition.from_random_assignment(g, c["k"], eps, "pop", method=partial(gt.recursive_tree_part, method=m)).assignment.items())
    check({index[v] for v in res} == set(range(n)) and set(res.values()) == set(range(c["k"])), "not all nodes or not all parts are used")
    for q in range(c["k"]):
        nodes = [index[v] for v in res if res[v] == q]
        check(gen.is_conn(nodes, adj), lambda: f"part {sorted(nodes)} is not connected")
        check(abs(len(nodes) - c["m"]) <= c["d"], lambda: f"a part has {len(nodes)} nodes, allowed {c['m']} +- {c['d']}")
    return {"nt": c["k"] >= 3, "tags": ["cycle" if c["cycle"] else "path"]}


@st.composite
def prime_cases(draw):
    n = draw(st.one_of(st.integers(-2, 400), st.integers(1, 20000),
                       st.lists(st.sampled_from([2, 3, 5, 7, 11, 13, 97]), min_size=1, max_size=5).map(
                           lambda l: __import__("math").prod(l))))
    return {"n": n, "ceil": draw(st.one_of(st.integers(-1, 30), st.integers(0, 20001), st.just(n)))}


def run_prime(c):
    from gerrychain.tree import get_max_prime_factor_less_than

    n, ceil = c["n"], c["ceil"]
    fs, m, p = [], n, 2
    while m > 1:
        if m % p == 0:
            fs.append(p)
            m //= p
        else:
            p += 1
    want = max((p for p in fs if p <= ceil), default=None)
    got = get_max_prime_factor_less_than(n, ceil)
    check(got == want, lambda: f"get_max_prime_factor_less_than({n}, {ceil}) = {got}, want {want}")
    return {"nt": want is not None}


@st.composite
def big_cases(draw):
    c = draw(cases())
    rng = random.Random(c["seed"])
    c["g"] = gen.big_spec(rng, 60, draw(st.integers(61, 220)))
    n = c["g"]["n"]
    c["pop"] = [1] * n if rng.random() < 0.4 else [rng.randint(1, rng.choice([3, 9, 1000])) for _ in range(n)]
    c.update(k=draw(st.integers(2, 18)), eps=draw(st.sampled_from([0.1, 0.2, 0.3, 0.5])), n=draw(st.integers(2, 7)), ceil=draw(st.integers(2, 13)))
    return c


@st.composite
def many_cases(draw):
    c = draw(cases())
    a, b = draw(st.integers(8, 14)), draw(st.integers(8, 14))
    n = a * b
    c["g"] = {"n": n, "edges": [[i, i + 1] for i in range(n) if (i + 1) % b] + [[i, i + b] for i in range(n - b)],
              "label": draw(st.sampled_from(["int", "tuple", "str", "scram"])), "order": draw(st.integers(0, 3))}
    c.update(pop=[1] * n, k=min(n // 2, draw(st.integers(19, 70))), eps=draw(st.sampled_from([0.5, 0.6, 0.75])), n=draw(st.integers(2, 7)), ceil=draw(st.integers(2, 13)))
    return c


SUBS = [
    Sub("plans", cases, run, quick=1200, thorough=30000, rule="recursive tree part, seed part (n, ceil), random assignment"),
    Sub("chunks", chunk_cases, run_chunks, quick=800, thorough=20000, rule="get_seed_chunks"),
    Sub("primes", prime_cases, run_prime, quick=2000, thorough=40000, rule="largest prime factor up to a ceiling"),
    Sub("own", own_cases, run_own, quick=1000, thorough=20000, rule="recursive tree part with a user's method that disregards the tolerance"),
    Sub("lines", line_cases, run_line, quick=300, thorough=8000, rule="recursive tree part on paths and cycles of equal nodes must succeed"),
    Sub("manyparts", many_cases, run, quick=64, thorough=2000, rule="plans of up to 70 parts on grids"),
    Sub("bigplans", big_cases, run, quick=96, thorough=3000, rule="plans of up to 18 parts on graphs of up to 220 nodes"),
]
