"""C07: spanning-tree samplers and the number of spanning trees."""
import math
import random
from collections import Counter

import numpy
from hypothesis import strategies as st

from vp import gen, hist, trees
from vp.harness import Skip, Sub, check

QUICK = 4  # the numbers of cases in SUBS, times this, in the quick tier
RULE = "a case is non-trivial when the graph has more than one spanning tree"
ASSUMPTIONS = ["connected graphs", "laws are tested statistically at p < 1e-9, with the seed in the case",
               "num_spanning_trees is compared with relative tolerance 1e-9 times the district's size, for counts below 1e300 (beyond, floats overflow)"]


@st.composite
def shape_cases(draw):
    spec = draw(gen.graphs(1, 12))
    n = spec["n"]
    nk = draw(st.integers(0, 3))
    regs = []
    for _ in range(nk):
        r = draw(st.integers(1, 4))
        regs.append(draw(st.lists(st.one_of(st.integers(0, r - 1), st.sampled_from([0, 0, None])), min_size=n, max_size=n)))
    return {"g": spec, "regs": regs, "sur": draw(st.lists(st.integers(1, 5), min_size=nk, max_size=nk)),
            "seed": draw(gen.seeds), "fn": draw(st.sampled_from(["random", "random", "uniform"])),
            "old": draw(st.booleans())}


def run_shape(c):
    from gerrychain import tree as gt

    spec, n = c["g"], c["g"]["n"]
    edges = spec["edges"]
    attrs = {f"r{i}": r for i, r in enumerate(c["regs"])}
    g, lab = gen.build_nx(spec, attrs, {"random_weight": [(-1) ** p * 5.0 for p in range(len(edges))]} if c["old"] else None)
    index = {lab[i]: i for i in range(n)}
    pos = {frozenset(e) for e in map(tuple, edges)}
    random.seed(c["seed"])
    sur = {f"r{i}": s for i, s in enumerate(c["sur"])}
    cross = lambda a, b: sum(s for s, r in zip(c["sur"], c["regs"]) if r[a] != r[b] or r[a] is None or r[b] is None)
    many = False
    for rep in range(4):
        if c["fn"] == "uniform":
            t = gt.uniform_spanning_tree(g)
        elif sur:
            t = gt.random_spanning_tree(g, region_surcharge=dict(sur))
        else:
            t = gt.random_spanning_tree(g)
        te = [tuple(index[x] for x in e[:2]) for e in t.edges]
        check({index[v] for v in t.nodes} == set(range(n)), lambda: f"the tree has nodes {sorted(map(str, t.nodes))}")
        check(all(frozenset(e) in pos for e in te), lambda: f"the tree uses edges that are not in the graph: {te}")
        check(trees.is_tree(n, range(n), te), lambda: f"not a spanning tree: {te} on {edges}")
        if c["fn"] == "random" and sur:
            got = sum(cross(a, b) for a, b in te)
            best = trees.kruskal_min(range(n), edges, [cross(a, b) for a, b in edges])
            check(got == best, lambda: f"total surcharge {got}, a spanning tree with {best} exists (regions {c['regs']}, {c['sur']}, tree {te})")
            if c["old"] is False:
                for v in t.nodes:
                    for key in sur:
                        check(t.nodes[v].get(key) == g.nodes[v][key], "the tree's nodes do not carry their regions")
        many |= len(edges) >= n
    check(set(g.nodes) == set(lab) and len(g.edges) == len(edges), "the graph was changed")
    for i, v in enumerate(lab):
        check(all(g.nodes[v][k] == r[i] for k, r in attrs.items()), "node data were changed")
    return {"nt": many, "tags": [c["fn"], f"{len(sur)} region types"]}


@st.composite
def law_cases(draw):
    return {"g": draw(gen.graphs(3, 6, kinds=("rand", "cycle", "complete", "grid", "rand"))), "seed": draw(gen.seeds),
            "fn": draw(st.sampled_from(["uniform", "uniform", "random"]))}


@st.composite
def kruskal_cases(draw):
    spec = draw(gen.graphs(3, 7, kinds=("rand", "cycle", "complete", "grid", "rand")))
    n, nk = spec["n"], draw(st.sampled_from([0, 0, 1, 2]))
    return {"g": spec, "seed": draw(gen.seeds), "sur": draw(st.lists(st.integers(1, 3), min_size=nk, max_size=nk)),
            "regs": [draw(st.lists(st.sampled_from([0, 0, 1, 1, None]), min_size=n, max_size=n)) for _ in range(nk)]}


def run_kruskal(c):
    from gerrychain import tree as gt

    spec = c["g"]
    edges, n = spec["edges"], spec["n"]
    extra = [sum(s for s, r in zip(c["sur"], c["regs"]) if r[a] != r[b] or r[a] is None or r[b] is None) for a, b in edges]
    law = trees.kruskal_law(n, edges, extra)
    if law is None or len(law) > 130:
        raise Skip("too many orders")
    g, lab = gen.build_nx(spec, {f"r{i}": r for i, r in enumerate(c["regs"])})
    index = {v: i for i, v in enumerate(lab)}
    pos = {frozenset(e): p for p, e in enumerate(map(tuple, edges))}
    sur = {f"r{i}": s for i, s in enumerate(c["sur"])}
    random.seed(c["seed"])
    counts = {}
    for _ in range(3000):
        t = gt.random_spanning_tree(g, dict(sur)) if sur else gt.random_spanning_tree(g)
        key = tuple(sorted(pos[frozenset((index[a], index[b]))] for a, b in t.edges))
        counts[key] = counts.get(key, 0) + 1
    ok, msg = trees.law_ok(counts, law, 3000)
    check(ok, lambda: f"random_spanning_tree on {edges}, surcharges {extra}, does not follow random weights: {msg}")
    return {"nt": len(law) > 1, "tags": [f"{len(sur)} region types"]}


NDRAW = 6000


def run_law(c):
    from gerrychain import tree as gt

    spec = c["g"]
    edges = spec["edges"]
    if len(edges) > 12:
        raise Skip("too many edges")
    all_t = trees.spanning_trees(range(spec["n"]), edges, limit=130)
    if all_t is None:
        raise Skip("too many trees")
    g, lab = gen.build_nx(spec)
    index = {lab[i]: i for i in range(spec["n"])}
    pos = {frozenset(e): p for p, e in enumerate(map(tuple, edges))}
    random.seed(c["seed"])
    counts = {}
    ndraw = NDRAW if c["fn"] == "uniform" else 3000
    for _ in range(ndraw):
        t = gt.uniform_spanning_tree(g) if c["fn"] == "uniform" else gt.random_spanning_tree(g)
        key = tuple(sorted(pos[frozenset((index[a], index[b]))] for a, b in t.edges))
        counts[key] = counts.get(key, 0) + 1
    for key in counts:
        check(key in all_t, lambda: f"not a spanning tree: {key}")
    if c["fn"] == "uniform":
        ok, msg = trees.law_ok(counts, {t: 1 / len(all_t) for t in all_t}, ndraw)
        check(ok, lambda: f"uniform_spanning_tree is not uniform over the {len(all_t)} trees of {edges}: {msg}")
    elif len(all_t) <= 40:
        # every tree has probability at least 1/m! * ...; with <= 40 trees none is rarer than about 1/200
        missing = [t for t in all_t if t not in counts]
        check(not missing, lambda: f"spanning trees {missing} never occurred in {ndraw} draws")
    return {"nt": len(all_t) > 1, "tags": [c["fn"]]}


# --- larger graphs: features of the trees, against trees drawn by an independent Kruskal
def run_sample(lc):
    from gerrychain import tree as gt

    rng = random.Random(lc["seed"])
    spec = gen.big_spec(rng, 6, 20)
    if rng.random() < 0.4:
        n = rng.randint(5, 9)
        spec = dict(spec, n=n, edges=[[a, b] for a in range(n) for b in range(a) if a == b + 1 or rng.random() < 0.9])
    n, edges = spec["n"], spec["edges"]
    if len(edges) > 60:
        raise Skip("too many edges")
    nk = rng.choice([0, 0, 1, 2])
    regs = [[rng.choice([0, 0, 1, 1, None]) for _ in range(n)] for _ in range(nk)]
    sur = [rng.choice([0.25, 0.5, 0.9, 1]) for _ in range(nk)]
    extra = [sum(s for s, r in zip(sur, regs) if r[a] != r[b] or r[a] is None or r[b] is None) for a, b in edges]
    g, lab = gen.build_nx(spec, {f"r{i}": r for i, r in enumerate(regs)})
    index = {v: i for i, v in enumerate(lab)}
    pos = {frozenset(e): p for p, e in enumerate(map(tuple, edges))}

    def own():
        w = [rng.random() + x for x in extra]
        comp, t = list(range(n)), []
        for p in sorted(range(len(edges)), key=w.__getitem__):
            a, b = comp[edges[p][0]], comp[edges[p][1]]
            if a != b:
                t.append(p)
                comp = [a if x == b else x for x in comp]
        return t

    def theirs():
        t = gt.random_spanning_tree(g, {f"r{i}": s for i, s in enumerate(sur)}) if nk else gt.random_spanning_tree(g)
        return [pos[frozenset((index[a], index[b]))] for a, b in t.edges]

    def features(draw, m):
        out = Counter()
        for _ in range(m):
            t = draw()
            deg = Counter(v for p in t for v in edges[p])
            out.update(("edge", p) for p in t)
            out["largest degree", max(deg.values())] += 1
            out["leaves", sum(x == 1 for x in deg.values())] += 1
            out["first leaf", min(v for v in deg if deg[v] == 1)] += 1
        return out

    random.seed(lc["seed"])
    m1, m2 = 1500, 4500
    a, b = features(theirs, m1), features(own, m2)
    for f in set(a) | set(b):
        p = (a[f] + b[f]) / (m1 + m2)
        if min(p, 1 - p) * (m1 + m2) < 60:
            continue
        z = (a[f] / m1 - b[f] / m2) / math.sqrt(p * (1 - p) * (1 / m1 + 1 / m2))
        check(abs(z) < 8, lambda: f"random spanning trees of {edges}, surcharges {extra}: {f} in {a[f]} of {m1}, independently drawn in {b[f]} of {m2}")
    return {"nt": len(edges) >= n, "tags": [f"{nk} region types"]}


# --- uniform trees of larger graphs: edges and pairs of edges, against the transfer-current theorem
def run_current(lc):
    from gerrychain import tree as gt

    rng = random.Random(lc["seed"])
    spec = gen.big_spec(rng, 8, 60)
    n, edges = spec["n"], spec["edges"]
    if len(edges) > 150:
        raise Skip("too many edges")
    inc = numpy.zeros((len(edges), n))
    for p, (a, b) in enumerate(edges):
        inc[p, a], inc[p, b] = 1, -1
    cur = inc @ numpy.linalg.pinv(inc.T @ inc) @ inc.T
    g, lab = gen.build_nx(spec)
    index = {v: i for i, v in enumerate(lab)}
    pos = {frozenset(e): p for p, e in enumerate(map(tuple, edges))}
    pairs = sorted({tuple(sorted(rng.sample(range(len(edges)), 2))) for _ in range(60)})
    random.seed(lc["seed"])
    ndraw, seen = 500, Counter()
    for _ in range(ndraw):
        t = {pos[frozenset((index[a], index[b]))] for a, b in gt.uniform_spanning_tree(g).edges}
        seen.update(t)
        seen.update(pr for pr in pairs if t.issuperset(pr))
    for key in list(range(len(edges))) + pairs:
        want = cur[key, key] if isinstance(key, int) else cur[key[0], key[0]] * cur[key[1], key[1]] - cur[key[0], key[1]] ** 2
        want = min(1.0, max(0.0, float(want)))
        pv = trees.binom_p(seen[key], ndraw, want) if 1e-9 < want < 1 - 1e-9 else float(seen[key] == round(want) * ndraw)
        check(pv > 1e-12, lambda: f"uniform spanning trees of {edges}: {key} in {seen[key]} of {ndraw}, probability {want:.4f}")
    return {"nt": len(edges) >= n}


@st.composite
def num_cases(draw):
    c = draw(hist.histories(lo=1, hi=10, kmax=3, max_ops=4))
    m = len(c["g"]["edges"])
    c["w"] = draw(st.lists(st.integers(1, 5), min_size=m, max_size=m))
    return c


def run_num(c):
    from gerrychain import Partition
    from gerrychain.updaters import num_spanning_trees

    with hist.fresh_defaults():
        g, lab = gen.build_nx(c["g"], None, {"weight": c["w"]})
        k = max(c["plan"]) + 1
        plab = [gen.part_label(c["plabel"], j) for j in range(k)]
        first = Partition(g, {v: plab[c["plan"][i]] for i, v in enumerate(lab)}, {"nst": num_spanning_trees})
        w = hist.World(c, first, lab, plab)
        for op in c["ops"]:
            if op[0] in ("flip", "merge", "many"):
                i, fl = w.flips_of(op)
                m = list(w.models[i])
                for v, p in fl.items():
                    m[v] = p
                if len(set(m)) == k:
                    w.do(i, fl)
        big = 0
        for p, m in zip(w.parts, w.models):
            got = p["nst"]
            for j in range(k):
                nodes = [v for v in range(w.n) if m[v] == j]
                want = trees.count_trees(nodes, c["g"]["edges"])
                big = max(big, want)
                if want > 10**300:
                    raise Skip("the count is beyond floats")
                tol = 1e-9 * max(8, len(nodes)) * max(1, want)
                if want == 0:  # a singular matrix: rounding leaves a trace, relative to its entries
                    deg = [sum(1 for e in c["g"]["edges"] if v in e and m[e[0]] == m[e[1]] == j) for v in nodes]
                    tol = max(tol, 1e-9 * math.prod(max(1, d) for d in deg))
                check(abs(got[plab[j]] - want) <= tol, lambda: f"district {nodes}: {got[plab[j]]} spanning trees, want {want}")
            check(set(got) == set(plab), "other districts reported")
        return {"nt": big > 1}


def run_bigshape(lc):
    rng, c = hist.big(lc)
    n, nk = c["g"]["n"], rng.randrange(4)
    regs = []
    for _ in range(nk):
        r, holes = rng.choice([2, 5, 20]), rng.random() < 0.3
        regs.append([None if holes and rng.random() < 0.1 else rng.randrange(r) for _ in range(n)])
    return run_shape({"g": c["g"], "regs": regs, "sur": [rng.randint(1, 5) for _ in range(nk)], "seed": lc["seed"],
                      "fn": rng.choice(["random", "uniform"]), "old": rng.random() < 0.5})


def run_bignum(lc):
    rng, c = hist.big(lc, reads=False)
    c["ops"] = c["ops"][:2]
    return run_num(dict(c, w=[rng.randint(1, 5) for _ in c["g"]["edges"]]))


SUBS = [
    Sub("shape", shape_cases, run_shape, quick=3000, thorough=80000, rule="samplers with and without region surcharges"),
    Sub("law", law_cases, run_law, quick=96, thorough=1200, timeout=300, rule="6000 draws per graph against all its spanning trees"),
    Sub("kruskal", kruskal_cases, run_kruskal, quick=60, thorough=1200, timeout=300, rule="3000 draws per graph against the law of Kruskal's algorithm with random weights"),
    Sub("sample", lambda: hist.big_seeds(), run_sample, quick=40, thorough=1500, timeout=300, rule="1500 draws on graphs of up to 20 nodes against 4500 drawn independently"),
    Sub("current", lambda: hist.big_seeds(), run_current, quick=30, thorough=1500, timeout=300, rule="500 uniform draws on graphs of up to 60 nodes, edges and pairs of edges against their exact probabilities"),
    Sub("count", num_cases, run_num, quick=1500, thorough=40000, rule="districts along histories, exact matrix-tree count"),
    Sub("hugeshape", lambda: hist.big_seeds(lo=300, hi=1500, kmin=2, kmax=9, smin=2, smax=6), run_bigshape, quick=8, thorough=300, timeout=200, rule="samplers on graphs of up to 1500 nodes"),
    Sub("bigshape", lambda: hist.big_seeds(hi=240), run_bigshape, quick=96, thorough=3000, rule="samplers on graphs of up to 250 nodes"),
    Sub("bigcount", lambda: hist.big_seeds(hi=60, kmax=20), run_bignum, quick=64, thorough=1500, rule="counts on graphs of up to 70 nodes"),
    Sub("hugecount", lambda: hist.big_seeds(lo=70, hi=130, kmin=1, kmax=3, smin=1, smax=2), run_bignum, quick=16, thorough=500, timeout=200, rule="counts on graphs of up to 140 nodes, districts of all of them"),
]
