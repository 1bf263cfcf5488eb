"""C06: balanced edge cuts of trees, both finders, against removal of every edge."""
import networkx as nx
from fractions import Fraction
from hypothesis import strategies as st

from vp import gen, trees
from vp.harness import Sub, check

QUICK = 3  # the numbers of cases in SUBS, times this, in the quick tier
RULE = "a case is non-trivial when the tree has at least one balanced and one unbalanced edge"
ASSUMPTIONS = ["edges whose sides are within 1e-9 of the tolerance's boundary are judged only when target and tolerance are dyadic",
               "one-sided contraction is only required to find cuts whose side away from the root is strictly inside the tolerance"]


@st.composite
def tree_specs(draw, lo=2, hi=14):
    return draw(gen.graphs(lo, hi, kinds=("tree", "path", "star", "tree", "tree")))


@st.composite
def cases(draw):
    spec = draw(tree_specs())
    n = spec["n"]
    f = draw(st.sampled_from([1, 1, 1, 2**-4, 2**-10, 2**20]))
    pop = draw(st.one_of(st.just([1] * n), st.lists(st.integers(0, 6), min_size=n, max_size=n),
                         st.lists(st.integers(1, 3), min_size=n, max_size=n),
                         st.lists(st.integers(0, 10**6), min_size=n, max_size=n),
                         st.lists(st.integers(1, 40).map(lambda i: i / 4), min_size=n, max_size=n)))
    pop = [x * f for x in pop] if f != 1 else pop  # powers of two: no rounding
    tot = sum(pop)
    target = draw(st.sampled_from(["half", "half", "half", "third", "quarter", "near", "any"]))
    at = draw(st.integers(0, 30)) % (n - 1)
    side = sum(pop[v] for v in trees.sides(range(n), spec["edges"])[at])
    if draw(st.booleans()):
        # a target for which a given edge is exactly on, or just off, the boundary
        e = draw(st.sampled_from([0.0, 0.25, 0.5, 0.75]))
        t = draw(st.sampled_from([tot / 2, side / (1 + e), side / (1 - e), (tot - side) / (1 + e)]))
        return {"g": spec, "pop": pop, "target": t or f, "eps": e, "root": draw(st.integers(0, 40)),
                "one": draw(st.booleans()), "fn": draw(st.sampled_from(["con", "mem"])),
                "weights": draw(st.booleans()), "npop": draw(st.booleans())}
    t = {"half": tot / 2, "third": tot / 3, "quarter": tot / 4, "near": tot / 2 + 0.5 * f, "any": draw(st.integers(1, 30)) * f}[target]
    return {"g": spec, "pop": pop, "target": t or f,
            "eps": draw(st.sampled_from([0.0, 0.125, 0.25, 0.5, 0.75, 1.0, 0.1, 0.3, 0.05, 0.01])),
            "root": draw(st.integers(0, 40)), "one": draw(st.booleans()),
            "fn": draw(st.sampled_from(["con", "mem"])), "weights": draw(st.booleans()), "npop": draw(st.booleans())}


def run(c):
    import numpy
    from gerrychain import tree as gt

    spec, n = c["g"], c["g"]["n"]
    g, lab = gen.build_nx(spec, cls=nx.Graph)
    if c["weights"]:
        for p, (a, b) in enumerate(spec["edges"]):
            g.edges[lab[a], lab[b]]["random_weight"] = p / 64
    pop = [numpy.int64(x) if c["npop"] and isinstance(x, int) else x for x in c["pop"]]
    populations = {lab[i]: pop[i] for i in range(n)}
    keep = dict(populations)
    before = (sorted(map(str, g.nodes)), sorted((str(sorted(map(str, e[:2]))), str(e[2])) for e in g.edges(data=True)))
    h = gt.PopulatedGraph(g, populations, c["target"], c["eps"])
    picked = []

    def choice(seq):
        seq = list(seq)
        x = seq[c["root"] % len(seq)]
        picked.append(x)
        return x

    fn = gt.find_balanced_edge_cuts_contraction if c["fn"] == "con" else gt.find_balanced_edge_cuts_memoization
    cuts = fn(h, one_sided_cut=c["one"], choice=choice) if c["one"] or c["root"] % 2 else fn(h, choice=choice)
    after = (sorted(map(str, g.nodes)), sorted((str(sorted(map(str, e[:2]))), str(e[2])) for e in g.edges(data=True)))
    check(before == after, "the tree was changed")
    check(populations == keep, "the populations passed in were changed")

    index = {lab[i]: i for i in range(n)}
    side0 = trees.sides(range(n), spec["edges"])
    pos = {frozenset(e): p for p, e in enumerate(spec["edges"])}
    tot = sum(Fraction(x) for x in c["pop"])
    t, e = c["target"], c["eps"]
    exact = e in (0.0, 0.125, 0.25, 0.5, 0.75, 1.0) and Fraction(t).numerator.bit_length() <= 40
    seen = {}
    for cut in cuts:
        a, b = (index[x] for x in cut.edge)
        p = pos.get(frozenset((a, b)))
        check(p is not None, lambda: f"cut names {cut.edge}, which is not an edge of the tree")
        check(p not in seen, lambda: f"edge {cut.edge} is listed twice")
        sub = {index[x] for x in cut.subset}
        other = set(range(n)) - side0[p]
        check(sub in (side0[p], other), lambda: f"cut {cut.edge}: subset {sorted(sub)} is not a side of it")
        if c["weights"]:
            check(cut.weight == p / 64, lambda: f"cut {cut.edge} has weight {cut.weight}, the edge's is {p / 64}")
        else:
            check(cut.weight is not None and 0 <= cut.weight <= 1, "weight of the cut is not in [0, 1]")
        seen[p] = sub
    good = bad = 0
    for p in range(len(spec["edges"])):
        x = sum(Fraction(c["pop"][v]) for v in side0[p])
        y = tot - x
        fx, fy = trees.within(x, t, e), trees.within(y, t, e)
        amb = not exact and (trees.on_edge(x, t, e) or trees.on_edge(y, t, e))
        if not c["one"]:
            want = fx and fy
            if not amb:
                check((p in seen) == want, lambda: f"{c['fn']}: edge {p} with sides {float(x)}, {float(y)} (target {t}, "
                      f"eps {e}) is {'balanced but not listed' if want else 'listed but not balanced'}")
        else:
            want = fx or fy
            if p in seen:
                s = sum((Fraction(c["pop"][v]) for v in seen[p]), Fraction(0))
                check(trees.within(s, t, e, Fraction(1, 10**9)) if amb else trees.within(s, t, e),
                      lambda: f"{c['fn']} one-sided: listed side has {float(s)}, target {t}, eps {e}")
            elif not amb:
                if c["fn"] == "mem":
                    check(not want, lambda: f"one-sided memoization misses edge {p} with sides {float(x)}, {float(y)} (target {t}, eps {e})")
                else:
                    root = index[picked[0]] if picked else None
                    if root is not None:
                        away = y if root in side0[p] else x
                        inside = abs(away - Fraction(t)) < Fraction(e) * Fraction(t)
                        check(not inside, lambda: f"one-sided contraction misses edge {p}: {float(away)} on the side away from the root "
                              f"(target {t}, eps {e})")
        good += want
        bad += not want
    return {"nt": good > 0 and bad > 0, "tags": [c["fn"] + ("1" if c["one"] else "2")] + (["balanced edge"] if good else [])}


# --- large trees (deep paths, long brooms): linear-time oracle
@st.composite
def big_cases(draw):
    return {"n": draw(st.integers(200, 2500)), "shape": draw(st.sampled_from(["path", "broom", "rand", "binary"])),
            "seed": draw(gen.seeds), "eps": draw(st.sampled_from([0.01, 0.1, 0.25])), "k": draw(st.integers(2, 4)),
            "one": draw(st.booleans()), "fn": draw(st.sampled_from(["con", "mem"])), "root": draw(st.integers(0, 3000))}


def run_big(c):
    import random

    from gerrychain import tree as gt

    rng = random.Random(c["seed"])
    n = c["n"]
    par = [None] * n
    for i in range(1, n):
        par[i] = (i - 1 if c["shape"] == "path" else (i - 1 if i < n // 2 else n // 2 - 1) if c["shape"] == "broom"
                  else rng.randrange(i) if c["shape"] == "rand" else (i - 1) // 2)
    pop = [rng.randrange(0, 5) for _ in range(n)]
    tot = sum(pop)
    g = nx.Graph()
    g.add_nodes_from(range(n))
    g.add_edges_from((i, par[i]) for i in range(1, n))
    t = tot / c["k"] if c["one"] else tot / 2
    h = gt.PopulatedGraph(g, dict(enumerate(pop)), t, c["eps"])
    fn = gt.find_balanced_edge_cuts_contraction if c["fn"] == "con" else gt.find_balanced_edge_cuts_memoization
    cuts = fn(h, one_sided_cut=c["one"], choice=lambda s: list(s)[c["root"] % len(list(s))])
    sub = list(pop)
    size = [1] * n
    for i in range(n - 1, 0, -1):
        sub[par[i]] += sub[i]
        size[par[i]] += size[i]
    listed = {}
    for cut in cuts:
        a, b = cut.edge
        check(par[a] == b or par[b] == a, "not an edge")
        child = a if par[a] == b else b
        check(child not in listed, "edge listed twice")
        s = sum(pop[v] for v in cut.subset)
        check((s == sub[child] and len(cut.subset) == size[child]) or (s == tot - sub[child] and len(cut.subset) == n - size[child]),
              "subset is not a side of the cut")
        listed[child] = s
    good = 0
    for i in range(1, n):
        x, y = sub[i], tot - sub[i]
        if trees.on_edge(x, t, c["eps"]) or trees.on_edge(y, t, c["eps"]):
            continue
        fx, fy = trees.within(x, t, c["eps"]), trees.within(y, t, c["eps"])
        if not c["one"]:
            check((i in listed) == (fx and fy), lambda: f"edge above {i}: sides {x}, {y}, target {t}")
        else:
            if i in listed:
                check(trees.within(listed[i], t, c["eps"]), "listed side is not balanced")
            elif c["fn"] == "mem":
                check(not (fx or fy), lambda: f"one-sided memoization misses the edge above {i}: {x}, {y}, target {t}")
        good += i in listed
    return {"nt": good > 0, "tags": [c["shape"], c["fn"]]}


SUBS = [
    Sub("small", cases, run, quick=12000, thorough=300000, rule="trees of 2-12 nodes, all roots, modes and finders"),
    Sub("big", big_cases, run_big, quick=64, thorough=1500, timeout=200, rule="trees of 200-2500 nodes"),
]
