"""C23: however long a run, only a bounded number of its plans stays in memory; live plans are counted."""
import contextlib
import gc
import io
import random
import warnings
import weakref

from hypothesis import strategies as st

from vp import gen, hist
from vp.harness import Skip, Sub, check

RULE = "at least 60 plans were made in the run"
ASSUMPTIONS = ["plans are counted after a garbage collection; 40 plans besides those the user keeps are allowed, in runs of 60 to 3000 steps"]
ROOM = 40

PROPOSALS = ["random", "random", "slow", "pairs", "chunk", "anynode", "everydistrict", "recom", "recom class", "reversible", "spectral", "same", "script", "idle"]
RUNS = ["chain", "chain", "chain", "chain", "bar", "diversity", "diversity", "twice", "bursts", "tilted", "anneal", "variable", "gingles"]
frozen = []


@st.composite
def cases(draw, lo=60, hi=250, proposals=PROPOSALS):
    return {"a": draw(st.integers(2, 4)), "b": draw(st.integers(3, 5)), "k": draw(st.integers(2, 4)), "seed": draw(gen.seeds), "steps": draw(st.integers(lo, hi)),
            "cls": draw(st.sampled_from(["plain", "plain", "geo", "grid"])), "run": draw(st.sampled_from(RUNS)), "proposal": draw(st.sampled_from(proposals)),
            "cons": draw(st.sampled_from(["none", "none", "contiguous", "bfs", "flip", "vanish", "many"])), "accept": draw(st.sampled_from(["always", "always", "cut", "never", "some"])),
            "read": draw(st.sampled_from(["none", "all", "some", "late"])), "keep": draw(st.sampled_from([0, 0, 0, 10, 25])), "born": draw(st.booleans())}


def live_class(base):
    seen = weakref.WeakSet()
    made = [0]

    class Counted(base):
        def __init__(self, *args, **kw):
            super().__init__(*args, **kw)
            seen.add(self)
            made[0] += 1

    return Counted, seen, made


def proposal(c, p0, rng):
    from functools import partial

    from gerrychain import proposals as pr
    from gerrychain.proposals import proposals as pm
    from gerrychain.proposals import ReCom, recom, reversible_recom, spectral_recom

    ideal = sum(p0["population"].values()) / len(p0)
    kind = c["proposal"]
    labels = sorted(p0.parts, key=str)
    nodes = sorted(p0.graph.nodes, key=str)
    return {"random": pr.propose_random_flip, "slow": pm.slow_reversible_propose_bi, "pairs": pm.slow_reversible_propose, "chunk": pr.propose_chunk_flip,
            "anynode": pm.propose_any_node_flip, "everydistrict": pm.propose_flip_every_district,
            "recom": partial(recom, pop_col="population", pop_target=ideal, epsilon=0.9, node_repeats=1),
            "recom class": ReCom("population", ideal, 0.9) if c["seed"] % 2 else partial(recom, pop_col="population", pop_target=ideal, epsilon=0.7, node_repeats=2),
            "reversible": partial(reversible_recom, pop_col="population", pop_target=ideal, epsilon=0.9, M=30), "spectral": partial(spectral_recom, weight_type=None),
            "same": lambda p: p, "idle": lambda p: p.flip({} if rng.random() < 0.98 else {rng.choice(nodes): rng.choice(labels)}), "script": lambda p: p.flip({rng.choice(nodes): rng.choice(labels)})}[kind]


def run(c):
    from gerrychain import GeographicPartition, MarkovChain, Partition, accept, constraints, updaters
    from gerrychain.grid import Grid, create_grid_graph
    from gerrychain.meta import collect_diversity_stats
    from gerrychain.optimization import Gingleator, SingleMetricOptimizer
    from gerrychain.updaters.locality_split_scores import LocalitySplits

    if not frozen:
        gc.collect()
        gc.freeze()
        frozen.append(1)
    with hist.fresh_defaults(), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rng = random.Random(c["seed"])
        random.seed(c["seed"])
        a, b = c["a"], c["b"]
        g = create_grid_graph((a, b), False)
        for i, v in enumerate(sorted(g.nodes)):
            g.nodes[v].update(R=rng.randrange(9), D=rng.randrange(9), county="c%d" % (i % 3), MIN=rng.randrange(2), shared=1)
        cols = {v: v[1] * c["k"] // b if b >= c["k"] else 0 for v in g.nodes}
        ups = {"population": updaters.Tally("population", alias="population"), "e": updaters.Election("e", {"R": "R", "D": "D"}),
               "splits": updaters.county_splits("splits", "county"), "loc": LocalitySplits("loc", "county", "population", scores_to_compute=["num_parts"]),
               "cut_edges_by_part": updaters.cut_edges_by_part, "MIN": updaters.Tally("MIN", alias="MIN"), "TOTPOP": updaters.Tally("population", alias="TOTPOP")}
        base = {"plain": Partition, "geo": GeographicPartition, "grid": Grid}[c["cls"]]
        cls, seen, made = live_class(base)
        if c["cls"] == "grid":
            p0 = cls((a, b), assignment=cols, updaters=ups)
            for v in p0.graph.nodes:
                p0.graph.nodes[v].update(R=1, D=rng.randrange(3), county="c%d" % (v[0] % 3), MIN=rng.randrange(2))
        else:
            p0 = cls(g, cols, ups)
        p0.updaters = dict(p0.updaters)
        if c["born"]:  # the first plan has ancestors of its own
            for _ in range(12):
                p0 = p0.flip({})
        prop = proposal(c, p0, rng)
        cons = {"none": [lambda p: True], "contiguous": [constraints.contiguous], "bfs": [constraints.contiguous_bfs], "flip": [constraints.single_flip_contiguous],
                "vanish": [constraints.no_vanishing_districts], "many": [constraints.contiguous_bfs, constraints.no_vanishing_districts, constraints.LowerBound(lambda p: len(p["cut_edges"]), 0)]}[c["cons"]]
        if c["cons"] == "flip" and c["proposal"] not in ("random", "slow", "pairs"):
            cons = [constraints.contiguous]  # that constraint is for flips of one node to a neighbouring district
        if c["proposal"] in ("chunk", "anynode", "everydistrict", "script", "idle"):
            cons = cons + [constraints.no_vanishing_districts]
        acc = {"always": accept.always_accept, "cut": accept.cut_edge_accept, "never": lambda p: False, "some": lambda p: random.random() < 0.5}[c["accept"]]
        n = c["steps"]
        tries = [0]

        def limited(p):
            tries[0] += 1
            if tries[0] > 20 * n + 500:
                raise Skip
            try:
                return prop(p)
            except Exception as e:  # a proposal that fails is for other checks
                raise Skip from e

        kind = c["run"]
        if kind in ("chain", "bar", "diversity", "twice"):
            chain = MarkovChain(limited, cons, acc, p0, n)
            runs = [chain.with_progress_bar() if kind == "bar" else (p for p, _ in collect_diversity_stats(chain)) if kind == "diversity" else chain]
            if kind == "twice":
                runs.append(chain)
        else:
            score = lambda p: len(p["cut_edges"])
            opt = Gingleator(limited, cons, p0, minority_pop_col="MIN", total_pop_col="TOTPOP", threshold=0.4) if kind == "gingles" else \
                SingleMetricOptimizer(limited, cons, p0, score, maximize=bool(c["seed"] % 2))
            runs = [{"bursts": lambda: opt.short_bursts(7, n // 7 + 1, accept=acc), "gingles": lambda: opt.short_bursts(10, n // 10 + 1), "tilted": lambda: opt.tilted_run(n, 0.3),
                     "anneal": lambda: opt.simulated_annealing(n, opt.jumpcycle_beta_function(20, 20)), "variable": lambda: opt.variable_length_short_bursts(n, 2, accept=acc)}[kind]()]
        kept, total, p = [], 0, None
        del p0
        checks = set(rng.sample(range(n // 2, n), 2)) | {n - 1}
        for it in runs:
            for i, p in enumerate(it):
                total += 1
                if c["read"] == "all" or c["read"] == "late" and i % 9 == 8:
                    for key in list(p.updaters):
                        p[key]
                elif c["read"] == "some":
                    p["cut_edges"], p["population"]
                if c["keep"] and i % c["keep"] == 0:
                    kept.append(p)
                if i in checks:
                    gc.collect()
                    alive = len(seen)
                    check(alive <= ROOM + len({id(x) for x in kept}), lambda: f"after {i + 1} steps {alive} plans are alive, of {made[0]} made and {len(kept)} kept by the user")
        p = None
        return {"nt": made[0] >= 60, "tags": [kind, c["proposal"]]}


SUBS = [
    Sub("runs", cases, run, 500, 10000, 60),
    Sub("long", lambda: cases(1500, 3000, ["random", "random", "slow", "pairs", "anynode", "same", "script", "idle"]), run, 40, 1000, 120),
]
