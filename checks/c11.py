"""C11: the transition law of reversible ReCom, exactly computed by enumerating spanning trees."""
import math
import random
from fractions import Fraction
from functools import partial

import numpy
from hypothesis import strategies as st

from vp import gen, hist, trees
from vp.harness import Skip, Sub, check

QUICK = 3  # the numbers of cases in SUBS, times this, in the quick tier
RULE = "a case is non-trivial when some neighbouring plan has positive probability"
ASSUMPTIONS = ["laws are tested statistically (exact probabilities, 3000 draws, p < 1e-9, seed in the case)",
               "the law is judged on plans up to relabelling of the two redrawn districts"]
NDRAW = 3000


@st.composite
def cases(draw, lo=3, hi=7):
    spec = draw(gen.graphs(lo, hi, kinds=("rand", "cycle", "grid", "path", "complete", "tree", "rand", "grid")))
    n = spec["n"]
    pop = draw(st.one_of(st.just([1] * n), st.just([1] * n), st.lists(st.integers(1, 3), min_size=n, max_size=n)))
    return {"g": spec, "plan": draw(hist.plans(spec, 2, 4, contiguous=True)), "plabel": draw(st.sampled_from(gen.SORTABLE)),
            "pop": pop, "eps": draw(st.sampled_from([0.25, 0.5, 0.5, 0.75, 0.75])), "dM": draw(st.sampled_from([0, 0, 1, 3, -1])),
            "fn": draw(st.sampled_from(["default", "mem", "con"])), "repeat": draw(st.sampled_from([False, False, False, True])),
            "seed": draw(gen.seeds)}


def plan_key(model):
    d = {}
    for v, q in enumerate(model):
        d.setdefault(q, []).append(v)
    return tuple(sorted(tuple(x) for x in d.values()))


def law(c, model, k, target):
    """Probabilities of every outcome (plan up to relabelling, or 'error'), and the largest number of cuts of a tree."""
    spec, n = c["g"], c["g"]["n"]
    adjp = {tuple(sorted((model[a], model[b]))) for a, b in spec["edges"] if model[a] != model[b]}
    info, most = [], 0
    for a, b in sorted(adjp):
        nodes = [v for v in range(n) if model[v] in (a, b)]
        es = [e for e in spec["edges"] if e[0] in nodes and e[1] in nodes]
        if len(es) > 13 and math.comb(len(es), len(nodes) - 1) > 3000:
            raise Skip("too many trees")
        ts = trees.spanning_trees(nodes, es, limit=400)
        if ts is None:
            raise Skip("too many trees")
        rows = []
        for t in ts:
            te = [es[p] for p in t]
            cuts = []
            for s in trees.sides(nodes, te):
                o = [v for v in nodes if v not in s]
                if all(trees.within(sum(c["pop"][v] for v in z), target, c["eps"]) for z in (s, o)):
                    new = list(model)
                    for v in nodes:
                        new[v] = a if v in s else b
                    seam = sum(1 for x, y in es if (x in s) != (y in s))
                    cuts.append((plan_key(new), seam))
            rows.append(cuts)
            most = max(most, len(cuts))
        info.append(rows)
    M = max(1, most + c["dM"])
    out, err = {}, Fraction(0)
    for rows in info:
        use = [r for r in rows if r] if c["repeat"] else rows
        if not use:
            return None, M, most  # with repeat_until_valid there would be no end
        for cuts in use:
            w = Fraction(2, k * k) / len(use)
            if len(cuts) > M:
                err += w
                continue
            for key, seam in cuts:
                out[key] = out.get(key, 0) + w * Fraction(1, M * seam)
    here = plan_key(model)
    out.pop(here, None)
    law_ = dict(out)
    if err:
        law_["error"] = err
    law_[here] = 1 - sum(law_.values())
    return law_, M, most


def law2(c, model, k, target):
    """The same for bounds that no tree exceeds, by the matrix-tree theorem: the seam and the number of cuts cancel, so a split into A and B
    has probability 2 / k^2 * trees(A) * trees(B) / trees(A and B) / M."""
    spec, n = c["g"], c["g"]["n"]
    adj = gen.adjacency(spec)
    M = n - 1 + c["dM"]
    out = {}
    for a, b in sorted({tuple(sorted((model[x], model[y]))) for x, y in spec["edges"] if model[x] != model[y]}):
        nodes = [v for v in range(n) if model[v] in (a, b)]
        if len(nodes) > 11:
            raise Skip("large region")
        tot = trees.count_trees(nodes, spec["edges"])
        for mask in range(1, 2 ** (len(nodes) - 1)):
            s = [v for i, v in enumerate(nodes) if mask >> i & 1]
            o = [v for i, v in enumerate(nodes) if not mask >> i & 1]
            if all(trees.within(sum(c["pop"][v] for v in z), target, c["eps"]) and gen.is_conn(z, adj) for z in (s, o)):
                new = list(model)
                for v in nodes:
                    new[v] = a if v in s else b
                w = Fraction(2 * trees.count_trees(s, spec["edges"]) * trees.count_trees(o, spec["edges"]), k * k * M * tot)
                out[plan_key(new)] = out.get(plan_key(new), 0) + w
    here = plan_key(model)
    out.pop(here, None)
    out[here] = 1 - sum(out.values())
    return out, M, M


def run(c, ndraw=NDRAW):
    from gerrychain import Partition
    from gerrychain import tree as gt
    from gerrychain.proposals import reversible_recom
    from gerrychain.proposals.tree_proposals import ReversibilityError

    with hist.fresh_defaults():
        spec, n = c["g"], c["g"]["n"]
        adj = gen.adjacency(spec)
        model = list(c["plan"])
        k = max(model) + 1
        if k < 2:
            raise Skip("one district")
        plab = [gen.part_label(c["plabel"], j) for j in range(k)]
        g, lab = gen.build_nx(spec, {"pop": c["pop"]})
        p = Partition(g, {v: plab[model[i]] for i, v in enumerate(lab)})
        target = sum(c["pop"]) / k
        if (Fraction(target) * 64).denominator != 1:
            # total/3 is not a binary fraction: make the target exact, so that no tolerance is hit by rounding
            target = round(target * 4) / 4
        want, M, most = (law2 if c.get("dense") else law)(c, model, k, target)
        if want is None:
            raise Skip("no balanced cut at all")
        kw = {} if c["fn"] == "default" else {"balance_edge_fn": gt.find_balanced_edge_cuts_memoization if c["fn"] == "mem"
                                              else gt.find_balanced_edge_cuts_contraction}
        if c["repeat"]:
            kw["repeat_until_valid"] = True
        random.seed(c["seed"])
        counts = {}
        inv = {q: j for j, q in enumerate(plab)}
        for _ in range(ndraw):
            try:
                q = reversible_recom(p, pop_col="pop", pop_target=target, epsilon=c["eps"], M=M, **kw)
            except ReversibilityError:
                counts["error"] = counts.get("error", 0) + 1
                continue
            new = [inv[q.assignment[v]] for v in lab]
            if new != model:
                check(set(new) == set(range(k)), lambda: f"districts {set(new)} left")
                diff = [v for v in range(n) if new[v] != model[v]]
                involved = {model[v] for v in diff} | {new[v] for v in diff}
                check(len(involved) == 2, lambda: f"{model} -> {new} changes districts {involved}")
                check(any({model[a], model[b]} == involved for a, b in spec["edges"]), "the redrawn districts were not adjacent")
                for d in involved:
                    nodes = [v for v in range(n) if new[v] == d]
                    check(gen.is_conn(nodes, adj), lambda: f"district {nodes} is not connected")
                    check(trees.within(sum(c["pop"][v] for v in nodes), target, c["eps"]), lambda: f"district {nodes} is not balanced")
            key = plan_key(new)
            counts[key] = counts.get(key, 0) + 1
        check([inv[p.assignment[v]] for v in lab] == model, "the proposal changed its parent")
        ok, msg = trees.law_ok(counts, want, ndraw)
        check(ok, lambda: f"from {plan_key(model)} with M={M}: {msg}; law { {str(a): str(b) for a, b in want.items()} }, counts {counts}")
        return {"nt": sum(1 for o in want if o != plan_key(model)) > 0,
                "tags": (["error possible"] if "error" in want else []) + (["repeat"] if c["repeat"] else []) + [f"k={k}"]}


@st.composite
def wide_cases(draw):
    """Long lines, rings and trees: few spanning trees, many districts and cuts"""
    c = draw(cases())
    c["g"] = draw(gen.graphs(8, 30, kinds=("path", "cycle", "tree", "path", "cycle")))
    n = c["g"]["n"]
    c.update(pop=[1] * n, plan=draw(hist.plans(c["g"], 2, draw(st.sampled_from([2, 3, 12])), contiguous=True)), eps=draw(st.sampled_from([0.5, 0.75, 0.9375])))
    return c


@st.composite
def dense_cases(draw):
    """Dense regions: long seams and very many spanning trees"""
    c = draw(cases())
    n = draw(st.integers(6, 10))
    drop = draw(st.sets(st.integers(0, n * (n - 1) // 2 - 1), max_size=n))
    c["g"] = {"n": n, "edges": [e for i, e in enumerate([[a, b] for a in range(n) for b in range(a)]) if i not in drop or e[0] == e[1] + 1],
              "label": c["g"]["label"], "order": c["g"]["order"]}
    c.update(pop=draw(st.one_of(st.just([1] * n), st.lists(st.integers(1, 3), min_size=n, max_size=n))), plan=draw(hist.plans(c["g"], 2, 3, contiguous=True)),
             eps=draw(st.sampled_from([0.25, 0.5, 0.75])), dM=draw(st.sampled_from([0, 0, 2])), dense=True, repeat=False)
    return c


# --- many cheap single steps on larger graphs: structure only
@st.composite
def step_cases(draw):
    a, b = draw(st.integers(2, 5)), draw(st.integers(2, 5))
    n = a * b
    spec = {"n": n, "edges": [[i, i + 1] for i in range(n) if (i + 1) % b] + [[i, i + b] for i in range(n - b)],
            "label": draw(st.sampled_from(["int", "tuple", "str"])), "order": draw(st.integers(0, 3)), "numbers": draw(st.sampled_from(["py", "np"]))}
    if draw(st.integers(0, 2)) == 0:
        spec = draw(gen.graphs(4, 20, kinds=("tree", "path", "cycle", "rand")))
        n = spec["n"]
    return {"g": spec, "pop": draw(st.one_of(st.just([1] * n), st.lists(st.integers(1, 3), min_size=n, max_size=n))), "geo": draw(st.booleans()), "chain": draw(st.booleans()), "plan": draw(hist.plans(spec, 2, 4, contiguous=True)), "plabel": draw(st.sampled_from(gen.SORTABLE)),
            "eps": draw(st.sampled_from([0.3, 0.6, 0.9])), "M": draw(st.sampled_from([1, 2, 5, 30])), "steps": 30, "seed": draw(gen.seeds)}


def run_steps(c):
    from gerrychain import GeographicPartition, MarkovChain, Partition, accept
    from gerrychain.proposals import reversible_recom
    from gerrychain.proposals.tree_proposals import ReversibilityError

    with hist.fresh_defaults():
        spec, n = c["g"], c["g"]["n"]
        adj = gen.adjacency(spec)
        model = list(c["plan"])
        k = max(model) + 1
        plab = [gen.part_label(c["plabel"], j) for j in range(k)]
        g, lab = gen.build_nx(spec, {"pop": c["pop"]})
        p = (GeographicPartition if c["geo"] else Partition)(g, {v: plab[model[i]] for i, v in enumerate(lab)})
        inv = {q: j for j, q in enumerate(plab)}
        random.seed(c["seed"])
        moved = errs = 0
        target, eps = sum(c["pop"]) / k, c["eps"]
        if spec.get("numbers") == "np":
            target, eps = numpy.float64(target), numpy.float64(eps)
        step = partial(reversible_recom, pop_col="pop", pop_target=target, epsilon=eps, M=c["M"])

        def states():
            """a chain goes on by itself; an error ends it and another takes up its last state"""
            while True:
                chain = iter(MarkovChain(step, [lambda s: True], accept.always_accept, p, c["steps"] + 1))
                next(chain)
                try:
                    yield from chain
                except ReversibilityError as e:
                    yield e

        walk = states()
        for _ in range(c["steps"]):
            try:
                q = next(walk) if c["chain"] else step(p)
                if isinstance(q, ReversibilityError):
                    raise q
            except ReversibilityError:
                errs += 1
                continue
            new = [inv[q.assignment[v]] for v in lab]
            diff = [v for v in range(n) if new[v] != model[v]]
            if diff:
                moved += 1
                involved = {model[v] for v in diff} | {new[v] for v in diff}
                check(len(involved) == 2 and set(new) == set(range(k)), lambda: f"{model} -> {new}")
                check(any({model[a], model[b]} == involved for a, b in spec["edges"]), "the redrawn districts were not adjacent")
                for d in involved:
                    nodes = [v for v in range(n) if new[v] == d]
                    check(gen.is_conn(nodes, adj), lambda: f"district {nodes} is not connected")
                    check(trees.within(sum(c["pop"][v] for v in nodes), sum(c["pop"]) / k, c["eps"], 1e-9), lambda: f"district {nodes} is not balanced")
            p, model = q, new
        return {"nt": moved > 0, "tags": ["error"] * (errs > 0)}


SUBS = [
    Sub("law", cases, run, quick=120, thorough=1600, timeout=400, rule="3000 draws per plan against the enumerated law"),
    Sub("wide", wide_cases, run, quick=40, thorough=800, timeout=400, rule="3000 draws on lines, rings and trees of up to 30 nodes, 12 districts"),
    Sub("dense", dense_cases, run, quick=40, thorough=800, timeout=400, rule="3000 draws on dense graphs against the matrix-tree law"),
    Sub("law_long", partial(cases, 3, 6), partial(run, ndraw=12000), quick=24, thorough=400, timeout=600, rule="12000 draws"),
    Sub("steps", step_cases, run_steps, quick=900, thorough=6000, timeout=200, rule="walks on grids, structure of every step"),
]
