"""Seeded runs for C21; also run as a fresh process:  python -m vp.repro < cases.json"""
import contextlib
import io
import json
import random
import sys
from functools import partial

from . import gen, hist


def noise(c, how):
    """Other work of the same program, before the run: other partitions, graphs and runs, on other labels."""
    from gerrychain import Graph, GeographicPartition, MarkovChain, Partition, accept, proposals, tree, updaters
    from gerrychain.grid import Grid

    import networkx as nx

    rng = random.Random(how)
    g = Graph.from_networkx(nx.grid_graph([rng.randint(2, 4), rng.randint(3, 5)]))
    for v in g:
        g.nodes[v]["pop"] = rng.randint(1, 3)
        g.nodes[v]["county"] = v[0]
    p = Partition(g, {v: v[0] % 2 for v in g}, {"cut_edges": updaters.cut_edges})
    random.seed(how)
    for s in MarkovChain(proposals.propose_random_flip, [], accept.always_accept, p, 5):
        s["cut_edges"]
    if how % 2:
        Grid((3, 3))
        with contextlib.suppress(Exception):
            tree.recursive_tree_part(g, range(2), sum(g.nodes[v]["pop"] for v in g) / 2, "pop", 0.5)
    if how % 3 == 0:
        with contextlib.suppress(Exception):
            proposals.recom(p, "pop", sum(g.nodes[v]["pop"] for v in g) / 2, 0.5, region_surcharge={"county": 1})
    return g, p


def run(c, reads=0, before=None):
    """The plans of one seeded run, by node index, as [outcome, [plan, ...], a draw from the generator afterwards]."""
    from gerrychain import GeographicPartition, MarkovChain, Partition, accept, constraints, proposals, updaters
    from gerrychain import tree as gt
    from gerrychain.optimization import Gingleator, SingleMetricOptimizer
    from gerrychain.proposals import ReCom, recom, reversible_recom, spectral_recom

    import numpy

    keep = noise(c, before) if before else None
    spec, n, k = c["g"], c["g"]["n"], c["k"]
    g, lab = gen.build_nx(spec, {"pop": c["pop"], "county": c["county"], "pop2": [x * (1 + i % 3) for i, x in enumerate(c["pop"])],
                                "boundary_node": [i % 4 == 0 for i in range(n)]})
    plab = [gen.part_label(c["plabel"], j) for j in range(k)]
    inv = {p: j for j, p in enumerate(plab)}
    total = sum(c["pop"])
    target, eps = total / k, c["eps"]
    numpy.random.seed(before or 1)
    kw = {"max_attempts": 30,
          "balance_edge_fn": gt.find_balanced_edge_cuts_memoization if c["cut"] == "mem" else gt.find_balanced_edge_cuts_contraction,
          "spanning_tree_fn": gt.random_spanning_tree if c["tree"] == "random" else gt.uniform_spanning_tree}
    method = partial(gt.bipartition_tree if c["method"] == "first" else gt.bipartition_tree_random, **kw)
    sur = {"county": c["sur"]} if c["kind"] == "region" else None
    ups = {"pop": updaters.Tally("pop", "pop"), "pop2": updaters.Tally("pop2", "pop2"), "cut_edges_by_part": updaters.cut_edges_by_part,
           "county": updaters.county_splits("county", "county"),
           "boundary_nodes": updaters.boundary_nodes,
           "E": updaters.Election("E", {"a": "pop", "b": {v: i % 3 for i, v in enumerate(lab)}})}
    out, outcome = [], "done"

    def note(part):
        out.append([inv[part.assignment[v]] for v in lab])
        if reads:
            keys = [x for x in ups] + ["cut_edges"]
            if reads == 2:
                keys.reverse()
            for x in keys:
                val = part[x]
                if x == "E":
                    val.wins("a"), val.percents("b")
            if reads == 2:
                list(part.parts), dict(part.assignment.mapping), part.subgraphs[plab[0]]

    random.seed(c["seed"])
    try:
        kind = c["kind"]
        if kind in ("seed", "rsp"):
            f = gt.recursive_tree_part if kind == "seed" else gt.recursive_seed_part
            a = f(g, plab, pop_target=target, pop_col="pop", epsilon=eps, method=method)
            note(Partition(g, a, ups))
        elif kind == "random_init":
            inv.clear()
            inv.update({x: x for x in range(-1, k + 1)})
            plab = list(range(k))
            note(Partition.from_random_assignment(g, k, eps, "pop", ups,
                                                  method=partial(gt.recursive_tree_part, method=method)))
        else:
            p = Partition(g, {v: plab[c["plan"][i]] for i, v in enumerate(lab)}, ups)
            cons, acc = [], accept.always_accept
            if c["cons"] == "contig":
                cons = [constraints.contiguous]
            elif c["cons"] == "single" and kind == "flip":
                cons = [constraints.single_flip_contiguous]
            if c["acc"] == "cut":
                acc = accept.cut_edge_accept
            if kind in ("recom", "region"):
                prop = partial(recom, pop_col="pop", pop_target=target, epsilon=eps, node_repeats=c["repeats"],
                               region_surcharge=sur, method=method)
            elif kind == "ReCom":
                prop = ReCom("pop", target, eps, method=method)
            elif kind == "rev":
                prop = partial(reversible_recom, pop_col="pop", pop_target=target, epsilon=eps, M=c["M"])
            elif kind == "spectral":
                prop = partial(spectral_recom, weight_type=c["wt"])
                cons = []
            else:
                prop = {"flip": proposals.propose_random_flip, "slow": proposals.slow_reversible_propose,
                        "bi": proposals.slow_reversible_propose_bi, "chunk": proposals.propose_chunk_flip,
                        "every": proposals.propose_flip_every_district, "any": proposals.propose_any_node_flip,
                        "bursts": proposals.propose_random_flip, "tilted": proposals.propose_random_flip,
                        "anneal": proposals.propose_random_flip, "gingles": proposals.propose_random_flip}[kind]
            tries = [0]

            def capped(part):
                tries[0] += 1
                if tries[0] > 60 + 10 * c["steps"]:
                    raise StopAsyncIteration("enough proposals")
                return prop(part)

            if kind in ("bursts", "tilted", "anneal"):
                opt = SingleMetricOptimizer(capped, cons or (lambda q: True), p, lambda q: len(q["cut_edges"]), maximize=bool(c["M"] % 2))
                it = {"bursts": lambda: opt.short_bursts(4, c["steps"] // 4 + 1), "tilted": lambda: opt.tilted_run(c["steps"], 0.4),
                      "anneal": lambda: opt.simulated_annealing(c["steps"], opt.jumpcycle_beta_function(2, 3), beta_magnitude=0.5)}[kind]()
            elif kind == "gingles":
                opt = Gingleator(capped, cons or (lambda q: True), p, minority_pop_col="pop", total_pop_col="pop2", threshold=0.4,
                                 score_function=Gingleator.reward_partial_dist)
                it = opt.short_bursts(4, c["steps"] // 4 + 1)
            else:
                it = MarkovChain(capped, cons, acc, p, c["steps"])
            for q in it:
                note(q)
    except Exception as e:
        outcome = type(e).__name__
    return [outcome, out, random.random()]


if __name__ == "__main__":
    import warnings

    warnings.simplefilter("ignore")
    jobs = json.load(sys.stdin)
    res = []
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        for c, reads, before in jobs:
            with hist.fresh_defaults():
                res.append(run(c, reads, before))
    print(json.dumps(res))
