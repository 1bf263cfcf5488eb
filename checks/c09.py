"""C09: ReCom steps."""
import random
from collections import Counter
from fractions import Fraction
from functools import partial

import numpy
from hypothesis import strategies as st

from vp import gen, hist, trees
from vp.harness import Skip, Sub, Violation, check

QUICK = 6  # the numbers of cases in SUBS, times this, in the quick tier
RULE = "a case is non-trivial when at least one step changes the plan, or the scripted failures leave some or no pair"
ASSUMPTIONS = ["contiguous plans on connected graphs", "failures within a small number of attempts are the documented errors"]


@st.composite
def chain_cases(draw):
    if draw(st.booleans()):
        a, b = draw(st.integers(2, 5)), draw(st.integers(2, 6))
        n = a * b
        spec = {"n": n, "edges": [[i, i + 1] for i in range(n) if (i + 1) % b] + [[i, i + b] for i in range(n - b)],
                "label": draw(st.sampled_from(["int", "tuple", "str", "scram"])), "order": draw(st.integers(0, 3))}
    else:
        spec = draw(gen.graphs(2, 14))
        n = spec["n"]
    return {"g": spec, "plan": draw(hist.plans(spec, 2, 5, contiguous=True)),
            "plabel": draw(st.sampled_from(gen.SORTABLE)),
            "pop": draw(st.one_of(st.just([1] * n), st.lists(st.integers(1, 4), min_size=n, max_size=n))),
            "eps": draw(st.sampled_from([0.1, 0.25, 0.5, 0.75, "fit"])),
            "form": draw(st.sampled_from(["recom", "ReCom", "recom_region", "chain"])),
            "method": draw(st.sampled_from(["first", "random"])), "cut": draw(st.sampled_from(["mem", "con"])),
            "tree": draw(st.sampled_from(["random", "uniform"])), "resel": draw(st.booleans()),
            "repeats": draw(st.integers(1, 3)), "steps": draw(st.integers(1, 8)), "seed": draw(gen.seeds), "geo": draw(st.sampled_from([False, False, True]))}


def adjacent_pairs(model, spec):
    return {tuple(sorted((model[a], model[b]))) for a, b in spec["edges"] if model[a] != model[b]}


def verify(old, new, c, adj, target, eps, k):
    spec, n = c["g"], c["g"]["n"]
    check(set(new) == set(range(k)), lambda: f"districts {sorted(set(new))} after the step, {k} before")
    diff = [v for v in range(n) if old[v] != new[v]]
    whys = []
    for a, b in sorted(adjacent_pairs(old, spec)):
        if any(old[v] not in (a, b) or new[v] not in (a, b) for v in diff):
            continue
        good = True
        for d in (a, b):
            nodes = [v for v in range(n) if new[v] == d]
            x = sum(c["pop"][v] for v in nodes)
            if not nodes or not gen.is_conn(nodes, adj) or not trees.within(x, target, eps, 1e-9):
                good = False
                whys.append((a, b, d, nodes, x))
        if good:
            return len(diff)
    raise Violation(f"step {old} -> {new} is not a connected, balanced redraw of two adjacent districts "
                    f"(target {target}, eps {eps}; {whys or 'no adjacent pair explains the changed nodes'})")


def run_chain(c):
    from gerrychain import GeographicPartition, MarkovChain, Partition, accept
    from gerrychain import tree as gt
    from gerrychain.proposals import ReCom, recom
    from gerrychain.proposals.tree_proposals import MetagraphError

    with hist.fresh_defaults():
        spec, n = c["g"], c["g"]["n"]
        adj = gen.adjacency(spec)
        k = max(c["plan"]) + 1
        if k < 2:
            raise Skip("one district")
        plab = [gen.part_label(c["plabel"], j) for j in range(k)]
        g, lab = gen.build_nx(spec, {"pop": c["pop"], "county": [i // 3 for i in range(n)]})
        p = (GeographicPartition if c.get("geo") else Partition)(g, {v: plab[c["plan"][i]] for i, v in enumerate(lab)})
        target = sum(c["pop"]) / k
        pops = [sum(c["pop"][v] for v in range(n) if c["plan"][v] == j) for j in range(k)]
        eps = c["eps"] if c["eps"] != "fit" else max(abs(x - target) / target for x in pops) + 0.01
        if spec.get("numbers") == "np":
            target, eps = numpy.float64(target), numpy.float64(eps)
        base = gt.bipartition_tree if c["method"] == "first" else gt.bipartition_tree_random
        kw = {"max_attempts": 12,
              "balance_edge_fn": gt.find_balanced_edge_cuts_memoization if c["cut"] == "mem" else gt.find_balanced_edge_cuts_contraction,
              "spanning_tree_fn": gt.random_spanning_tree if c["tree"] == "random" else gt.uniform_spanning_tree}
        if c["method"] == "first":
            kw["allow_pair_reselection"] = c["resel"]
        method = partial(base, **kw)
        if c["form"] == "ReCom":
            step = ReCom("pop", target, eps, method=method)
        elif c["form"] == "recom_region":
            step = partial(recom, pop_col="pop", pop_target=target, epsilon=eps, node_repeats=c["repeats"],
                           region_surcharge={"county": 0.7}, method=method)
        else:
            step = partial(recom, pop_col="pop", pop_target=target, epsilon=eps, node_repeats=c["repeats"], method=method)
        inv = {q: j for j, q in enumerate(plab)}
        read = lambda part: [inv[part.assignment[v]] for v in lab]
        random.seed(c["seed"])
        before = {v: dict(d) for v, d in g.nodes(data=True)}
        allowed = (MetagraphError,) if c["resel"] and c["method"] == "first" else (RuntimeError,)
        moved = 0
        old = list(c["plan"])
        all_bal = all(trees.within(x, target, eps, 1e-9) for x in pops)
        try:
            if c["form"] == "chain":
                states = iter(MarkovChain(step, [lambda s: True], accept.always_accept, p, c["steps"] + 1))
                next(states)
            for _ in range(c["steps"]):
                q = next(states) if c["form"] == "chain" else step(p)
                check(read(p) == old, "the proposal changed its parent")
                new = read(q)
                moved += verify(old, new, c, adj, target, eps, k)
                if all_bal:
                    for j in range(k):
                        nodes = [v for v in range(n) if new[v] == j]
                        check(nodes and gen.is_conn(nodes, adj) and trees.within(sum(c["pop"][v] for v in nodes), target, eps, 1e-9),
                              lambda: f"a balanced contiguous plan became {new}")
                p, old = q, new
        except allowed as e:
            if isinstance(e, MetagraphError):
                # fatal only if no adjacent pair can be split; on trees that is decidable
                for a, b in adjacent_pairs(old, spec):
                    nodes = [v for v in range(n) if old[v] in (a, b)]
                    es = [e for e in spec["edges"] if e[0] in nodes and e[1] in nodes]
                    if len(es) == len(nodes) - 1:
                        for s in trees.sides(nodes, es):
                            x, y = sum(c["pop"][v] for v in s), sum(c["pop"][v] for v in nodes if v not in s)
                            check(not (trees.within(x, target, eps, -1e-9) and trees.within(y, target, eps, -1e-9)),
                                  lambda: f"MetagraphError although districts {a} and {b} can be split (plan {old})")
            return {"nt": moved > 0, "tags": ["error", c["form"]]}
        check({v: dict(d) for v, d in g.nodes(data=True)} == before, "node data were changed")
        return {"nt": moved > 0, "tags": [c["form"], c["method"]] + (["balanced start"] if all_bal else [])}


# --- scripted failures of the bipartition
@st.composite
def fail_cases(draw):
    spec = draw(gen.graphs(3, 12))
    return {"g": spec, "plan": draw(hist.plans(spec, 2, 6, contiguous=True)), "plabel": draw(st.sampled_from(gen.SORTABLE)),
            "bad": draw(st.integers(0, 2**15 - 1)), "all": draw(st.sampled_from([None, None, "bad", "good"])), "own": draw(st.sampled_from([None, None, 0.3, 0.6])),
            "seed": draw(gen.seeds), "cls": draw(st.booleans()), "flaky": draw(st.booleans()), "reads": draw(st.booleans())}


def run_fail(c):
    from gerrychain import Partition
    from gerrychain.proposals import ReCom, recom
    from gerrychain.proposals.tree_proposals import MetagraphError
    from gerrychain.tree import BalanceError, PopulationBalanceError, ReselectException

    with hist.fresh_defaults():
        spec, n = c["g"], c["g"]["n"]
        k = max(c["plan"]) + 1
        if k < 2:
            raise Skip("one district")
        plab = [gen.part_label(c["plabel"], j) for j in range(k)]
        g, lab = gen.build_nx(spec, {"pop": [1] * n})
        index = {v: i for i, v in enumerate(lab)}
        p = Partition(g, {v: plab[c["plan"][i]] for i, v in enumerate(lab)})
        pairs = sorted(adjacent_pairs(c["plan"], spec))
        bad = {pr for i, pr in enumerate(pairs) if c["all"] == "bad" or (c["all"] is None and c["bad"] >> i & 1)}
        calls = []

        def method(graph, pop_col=None, pop_target=None, epsilon=None, node_repeats=None, one_sided_cut=None, **kw):
            nodes = sorted(index[v] for v in graph.nodes)
            ds = tuple(sorted({c["plan"][v] for v in nodes}))
            calls.append(ds)
            if len(calls) > 5000:
                raise Violation("the proposal keeps trying pairs that failed before")
            if ds not in pairs:
                raise Violation(f"districts {ds} were merged, adjacent pairs are {pairs}")
            check(nodes == [v for v in range(n) if c["plan"][v] in ds], "the merged region is not the union of two districts")
            if ds in bad:
                raise ReselectException("no cut")
            if own is not None:  # a user's method that disregards the tolerance
                return {lab[v] for v in nodes[:-1] if v == nodes[0] or c["seed"] >> v & 1}
            return {lab[v] for v in nodes if c["plan"][v] == ds[0]}

        random.seed(c["seed"])
        own = c.get("own")
        target, eps = (1, 1000) if own is None else (n / k, own)
        step = ReCom("pop", target, eps, method=method) if c["cls"] else partial(
            recom, pop_col="pop", pop_target=target, epsilon=eps, method=method)
        try:
            q = step(p)
        except (BalanceError, PopulationBalanceError):
            check(own is not None and calls[-1] not in bad, "an error although the split is within the tolerance")
            return {"nt": True, "tags": ["unbalanced split"]}
        except MetagraphError:
            check(set(pairs) <= bad, lambda: f"MetagraphError although pairs {sorted(set(pairs) - bad)} can be split")
            return {"nt": True, "tags": ["all fail"]}
        check(not set(pairs) <= bad, "a plan was returned although every pair fails")
        new = {index[v]: q.assignment[v] for v in lab}
        last = calls[-1]
        check(last not in bad, "the step used a failed pair")
        inv = {x: j for j, x in enumerate(plab)}
        for v in range(n):
            j = inv[new[v]]
            if c["plan"][v] in last:
                check(j in last, "a node of the merged region left it")
            else:
                check(j == c["plan"][v], "a node outside the merged region changed")
        check({inv[x] for x in new.values()} == set(range(k)), "a district label was lost")
        if own is not None:
            for j in last:
                x = sum(1 for v in range(n) if inv[new[v]] == j)
                check(trees.within(x, target, eps, 1e-9), lambda: f"a redrawn district has population {x}, target {target}, eps {eps}")
        return {"nt": bool(bad), "tags": [f"{len(bad)} failing pairs"]}


# --- which pair is redrawn
@st.composite
def pair_cases(draw):
    c = draw(fail_cases())
    return dict(c, all=draw(st.sampled_from([None, None, "good"])), bad=draw(st.sampled_from([1, 2, 3, 5, 6])))


def run_pairs(c, ndraw=1500):
    from gerrychain import Partition
    from gerrychain.proposals import ReCom, recom
    from gerrychain.tree import ReselectException

    with hist.fresh_defaults():
        spec, n = c["g"], c["g"]["n"]
        k = max(c["plan"]) + 1
        if k < 3:
            raise Skip("one pair")
        plab = [gen.part_label(c["plabel"], j) for j in range(k)]
        g, lab = gen.build_nx(spec, {"pop": [1] * n})
        index = {v: i for i, v in enumerate(lab)}
        p = Partition(g, {v: plab[c["plan"][i]] for i, v in enumerate(lab)})
        cuts = Counter(tuple(sorted((c["plan"][a], c["plan"][b]))) for a, b in spec["edges"] if c["plan"][a] != c["plan"][b])
        bad = {pr for i, pr in enumerate(sorted(cuts)) if c["all"] is None and c["bad"] >> i & 1}
        if set(cuts) <= bad:
            raise Skip("nothing can be split")
        law, todo = {}, [((), Fraction(1))]
        while todo:
            tried, pr = todo.pop()
            if tried and tried[-1] not in bad:
                law[tried] = pr
                continue
            left = {q: x for q, x in cuts.items() if q not in tried}
            todo += [(tried + (q,), pr * Fraction(x, sum(left.values()))) for q, x in left.items()]
        calls = []

        def method(graph, pop_col=None, pop_target=None, epsilon=None, node_repeats=None, one_sided_cut=None):
            ds = tuple(sorted({c["plan"][index[v]] for v in graph.nodes}))
            calls.append(ds)
            if ds in bad:
                raise ReselectException("no cut")
            return {v for v in graph.nodes if c["plan"][index[v]] == ds[0]}

        step = ReCom("pop", 1, 1000, method=method) if c["cls"] else partial(recom, pop_col="pop", pop_target=1, epsilon=1000, method=method)
        random.seed(c["seed"])
        counts = Counter()
        for _ in range(ndraw):
            calls.clear()
            step(p)
            counts[tuple(calls)] += 1
        ok, msg = trees.law_ok(counts, law, ndraw)
        check(ok, lambda: f"pairs tried are not those of uniformly drawn cut edges {dict(cuts)}, failing {sorted(bad)}: {msg}")
        return {"nt": len(law) > 1, "tags": [f"{len(bad)} failing pairs"]}


# --- region surcharges: two districts made of two balanced regions are split between them
@st.composite
def county_cases(draw):
    spec = draw(gen.graphs(4, 16))
    n = spec["n"]
    return {"g": spec, "plan": draw(hist.plans(spec, 2, 4, contiguous=True)), "plabel": draw(st.sampled_from(gen.SORTABLE)), "split": draw(gen.seeds),
            "sur": draw(st.sampled_from([1, 1.5, 3])), "second": draw(st.booleans()), "eps": draw(st.sampled_from([0.01, 0.2, 0.4])),
            "names": draw(st.sampled_from([[0, 1], ["A", "B"], [7, "x"]])), "seed": draw(gen.seeds),
            "wrap": draw(st.sampled_from(["plain", "partial", "chain"]))}


def run_county(c):
    from gerrychain import MarkovChain, Partition, accept
    from gerrychain import tree as gt
    from gerrychain.proposals import recom

    with hist.fresh_defaults():
        spec, n = c["g"], c["g"]["n"]
        adj = gen.adjacency(spec)
        k = max(c["plan"]) + 1
        pairs = sorted(adjacent_pairs(c["plan"], spec))
        if not pairs:
            raise Skip("one district")
        rng = random.Random(c["split"])
        # every adjacent pair of districts is made of two regions of equal population: that needs one pair
        pr = rng.choice(pairs)
        region = [v for v in range(n) if c["plan"][v] in pr]
        pos = {v: i for i, v in enumerate(region)}
        sub = {"n": len(region), "edges": [[pos[a], pos[b]] for a, b in spec["edges"] if a in pos and b in pos], "label": "int"}
        halves = gen.contiguous_plan(sub, 2, rng)
        if len(set(halves)) < 2:
            raise Skip("no two regions")
        county, pop = [2] * n, [0] * n
        for v in region:
            county[v] = halves[pos[v]]
        for h in (0, 1):
            inside = [v for v in region if county[v] == h]
            for i, v in enumerate(inside):
                pop[v] = 120 // len(inside) + (i < 120 % len(inside))
        names = c["names"] + ["rest"]
        plab = [gen.part_label(c["plabel"], j) for j in range(k)]
        g, lab = gen.build_nx(spec, {"pop": pop, "county": [names[x] for x in county], "zone": [int(x == 0) for x in county]})
        p = Partition(g, {v: plab[c["plan"][i]] for i, v in enumerate(lab)})
        sur = {"county": c["sur"]}
        if c["second"]:
            sur["zone"] = 0.5
        inv = {q: j for j, q in enumerate(plab)}
        method = gt.bipartition_tree
        if c["wrap"] == "partial":
            method = partial(gt.bipartition_tree, max_attempts=10000, allow_pair_reselection=True)
        # the other pairs are of no interest
        def only(graph, region_surcharge=None, **kw):
            if {c["plan"][i] for i, v in enumerate(lab) if v in graph.nodes} != set(pr):
                raise gt.ReselectException("not this pair")
            return method(graph, region_surcharge=region_surcharge, **kw) if region_surcharge is not None else method(graph, **kw)

        step = partial(recom, pop_col="pop", pop_target=120, epsilon=c["eps"], region_surcharge=dict(sur), method=only if len(pairs) > 1 else method)
        random.seed(c["seed"])
        if c["wrap"] == "chain":
            states = iter(MarkovChain(step, [lambda s: True], accept.always_accept, p, 2))
            next(states)
            q = next(states)
        else:
            q = step(p)
        new = [inv[q.assignment[v]] for v in lab]
        got = {frozenset(v for v in region if new[v] == j) for j in pr}
        want = {frozenset(v for v in region if county[v] == h) for h in (0, 1)}
        check(got == want and all(new[v] == c["plan"][v] for v in range(n) if v not in pos),
              lambda: f"surcharges {sur}: the regions {want} can be kept whole, but the step made {got}")
        return {"nt": {frozenset(v for v in region if c["plan"][v] == j) for j in pr} != want, "tags": [c["wrap"]]}


def run_big(lc):
    rng, c = hist.big(lc, contiguous=True)
    c["plabel"] = c["plabel"] if c["plabel"] in gen.SORTABLE else "zero"
    n, k = c["g"]["n"], max(c["plan"]) + 1
    return run_chain({"g": c["g"], "plan": c["plan"], "plabel": c["plabel"], "pop": [1] * n if rng.random() < 0.5 else [rng.randint(1, 9) for _ in range(n)],
                      "eps": rng.choice([0.1, 0.3, 0.75, "fit"]), "form": rng.choice(["recom", "ReCom", "recom_region", "chain"]), "method": rng.choice(["first", "random"]),
                      "cut": rng.choice(["mem", "con"]), "tree": rng.choice(["random", "uniform"]), "resel": rng.random() < 0.7, "repeats": rng.randint(1, 3),
                      "steps": rng.choice([3, 20]), "seed": lc["seed"]})


SUBS = [
    Sub("steps", chain_cases, run_chain, quick=1600, thorough=40000, rule="chains of ReCom steps, all forms and methods"),
    Sub("huge", lambda: hist.big_seeds(lo=300, hi=600, kmin=2, kmax=40, smin=2, smax=6), run_big, quick=4, thorough=300, timeout=200, rule="the same on graphs of up to 600 nodes, 40 districts"),
    Sub("big", lambda: hist.big_seeds(hi=160, kmax=16), run_big, quick=96, thorough=3000, rule="the same on graphs of up to 170 nodes, 16 districts"),
    Sub("failures", fail_cases, run_fail, quick=1500, thorough=30000, timeout=60, rule="scripted reselection failures"),
    Sub("counties", county_cases, run_county, quick=500, thorough=10000, rule="steps with region surcharges where two balanced regions can be kept whole"),
    Sub("pairs", pair_cases, run_pairs, quick=40, thorough=1000, timeout=200, rule="1500 draws per plan of the pairs tried, against the exact law"),
]
