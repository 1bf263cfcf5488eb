"""C25: exceptions thrown into the computation at generated points; everything must go on as if the failed call had not been made."""
import os
import random
import shutil
import tempfile
import warnings

from hypothesis import strategies as st

from checks import c01, c02, c13, c14, c17
from vp import faults, gen, hist, trees
from vp.harness import Skip, Sub, Violation, check

RULE = "at least one exception was injected and came out, and the interrupted call was made again"
ASSUMPTIONS = ["exceptions are ordinary ones or KeyboardInterrupt; those with a meaning to the library (ReselectException, StopIteration) are not injected",
               "a chain interrupted between deciding on a state and handing it out may hand out one state less"]


# --- the checks of other properties, with interrupted reads and flips
def again(strategy):
    @st.composite
    def cases(draw):
        return {"inner": draw(strategy()), "fault": draw(gen.seeds)}
    return cases


def under_faults(run):
    def go(c):
        with faults.interrupted_reads(c["fault"]) as count:
            run(c["inner"])
        return {"nt": count[0] > 0, "tags": [f"{min(count[0], 5)} interrupts"]}
    return go


# --- chains whose functions fail
class Boom(Exception):
    pass


@st.composite
def chain_cases(draw):
    return {"a": draw(st.integers(2, 4)), "b": draw(st.integers(2, 4)), "k": draw(st.integers(2, 3)), "seed": draw(gen.seeds), "steps": draw(st.integers(1, 25)),
            "rates": draw(st.lists(st.sampled_from([0, 0, 0.1, 0.3]), min_size=3, max_size=3)), "lines": draw(st.sampled_from([0, 0, 0, 0.2, 0.5])),
            "cls": draw(st.sampled_from(["plain", "geo", "grid"])), "cons": draw(st.sampled_from(["flip", "contiguous", "pop", "many"])),
            "accept": draw(st.sampled_from(["always", "cut", "some"])), "read": draw(st.booleans())}


def grid_start(c, rng):
    from gerrychain import GeographicPartition, Partition, updaters
    from gerrychain.grid import Grid

    a, b = c["a"], c["b"]
    n = a * b
    if c["cls"] == "grid":
        spec = {"n": n, "edges": [[i, i + 1] for i in range(n) if (i + 1) % b] + [[i, i + b] for i in range(n - b)]}
        plan = gen.contiguous_plan(spec, min(c["k"], n), rng)
        return Grid((a, b), assignment={(i // b, i % b): plan[i] for i in range(n)})
    spec = {"n": n, "edges": [[i, i + 1] for i in range(n) if (i + 1) % b] + [[i, i + b] for i in range(n - b)], "label": "int", "order": 0}
    plan = gen.contiguous_plan(spec, min(c["k"], n), rng)
    g, lab = gen.build_nx(spec, {"population": [1 + i % 3 for i in range(n)], "area": [1.0] * n, "boundary_node": [i % 2 == 0 for i in range(n)],
                                 "boundary_perim": [1.0 + i % 2 for i in range(n)]}, {"shared_perim": [1.0 + p % 3 for p in range(len(spec["edges"]))]})
    return (GeographicPartition if c["cls"] == "geo" else Partition)(
        g, {v: plan[i] for i, v in enumerate(lab)}, {"population": updaters.Tally("population"), "cut_edges_by_part": updaters.cut_edges_by_part})


def values(p):
    """Everything p reports, in a comparable form."""
    out = {}
    for key in sorted(set(p.updaters)):
        v = p[key]
        if key == "cut_edges":
            v = {frozenset(e) for e in v}
        elif key == "cut_edges_by_part":
            v = {q: {frozenset(e) for e in es} for q, es in v.items()}
        elif key in ("step", "flips"):
            continue
        out[key] = hist.freeze(v)
    return out


def same(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple) and x and x[0] == "d" and y[0] == "d":
        return set(x[1]) == set(y[1]) and all(same(x[1][q], y[1][q]) for q in x[1])
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        return hist.close(x, y)
    return x == y


def judge_values(p, what):
    """p's values are those of a partition made from scratch with p's assignment."""
    from gerrychain.grid import Grid

    got = values(p)
    if isinstance(p, Grid):
        scratch = Grid(p.dimensions, assignment=dict(p.assignment.items()))
    else:
        scratch = type(p)(p.graph, dict(p.assignment.items()), {k: f for k, f in p.updaters.items()})
    want = values(scratch)
    gone = {q for v in got.values() if isinstance(v, tuple) and v and v[0] == "d" for q in v[1]} - set(p.assignment[v] for v in p.graph.nodes)
    for key in want:
        for v in (got.get(key), want[key]):
            if isinstance(v, tuple) and v and v[0] == "d":  # what a part that vanished has may be left out
                for q in gone:
                    v[1].pop(q, None)
        check(same(got.get(key), want[key]), lambda: f"{what}: {key} is {got.get(key)}, computed afresh it is {want[key]}")
    level = {}
    for v, q in p.assignment.items():
        level.setdefault(q, set()).add(v)
    check({q: set(s) for q, s in p.parts.items() if s} == level, lambda: f"{what}: parts and assignment disagree")


def run_chain(c):
    from gerrychain import MarkovChain, accept, constraints, proposals

    rng = random.Random(c["seed"])
    random.seed(c["seed"])
    log = []
    started = [False]
    tries = [0]

    def maybe(rate, who):
        if started[0] and rng.random() < rate:
            e = rng.choice([Boom, ValueError, RuntimeError, KeyError, ZeroDivisionError, AttributeError, TypeError, IndexError, KeyboardInterrupt])(who)
            log.append(("boom", e))
            raise e

    with hist.fresh_defaults():
        init = grid_start(c, rng)

        def propose(p):
            tries[0] += 1
            if tries[0] > 3000:
                raise Skip("stuck")
            log.append(("ask", p))
            maybe(c["rates"][0], "proposal")
            new = proposals.propose_random_flip(p)
            maybe(c["rates"][0] / 2, "proposal, late")
            log.append(("made", new))
            return new

        real = {"flip": [constraints.single_flip_contiguous], "contiguous": [constraints.contiguous],
                "pop": [constraints.UpperBound(lambda p: max(p["population"].values()), 4 + c["a"] * c["b"] * 2)],
                "many": [constraints.contiguous, constraints.no_vanishing_districts, lambda p: len(p["cut_edges"]) < 999]}[c["cons"]]

        def con(p):
            maybe(c["rates"][1], "constraint")
            ok = all(f(p) for f in real)
            maybe(c["rates"][1] / 2, "constraint, late")
            log.append(("con", p, ok))
            return ok

        def acc(p):
            maybe(c["rates"][2], "acceptance")
            ok = {"always": accept.always_accept, "cut": accept.cut_edge_accept, "some": lambda q: rng.random() < 0.5}[c["accept"]](p)
            log.append(("acc", p, ok, p.parent))
            return ok

        chain = MarkovChain(propose, [con], acc, init, c["steps"])
        it = iter(chain)
        log.clear()
        started[0] = True
        states, faulted, lines = [], 0, 0
        cur = init
        may_be = [init]  # after an interrupt between the decision and the hand-over, the decided state may be the current one
        while True:
            log.clear()
            tries[0] = 0
            out = stop = None
            exc = None
            line_fault = c["lines"] and rng.random() < c["lines"]
            try:
                if line_fault:
                    exc = faults.Interrupt("injected")
                    fired, out, _ = faults.attempt(lambda: next(it), int(10 ** rng.uniform(0, 3)), exc)
                    if fired:
                        lines += 1
                        got = ("line", exc)
                    else:
                        got = ("state", out)
                else:
                    out = next(it)
                    got = ("state", out)
            except StopIteration:
                got = ("stop",)
            except Skip:
                raise
            except BaseException as e:
                got = ("raised", e)
            if got[0] == "raised":
                faulted += 1
                check(log and log[-1] == ("boom", got[1]), lambda: f"{got[1]!r} came out of the chain, the functions raised {[x[1] for x in log if x[0] == 'boom']}")
            else:
                check(not any(x[0] == "boom" for x in log), "an exception of a user function did not come out of the chain")
            # what happened inside
            decided = None
            for pos, x in enumerate(log):
                if x[0] == "ask":
                    if decided is not None:
                        raise Violation("a proposal was asked for after a state had been decided on")
                    if len(may_be) > 1:
                        check(any(x[1] is s for s in may_be), "after an interrupt the chain went on from a state that was neither the old nor the new one")
                        cur = x[1]
                        may_be = [cur]
                    check(x[1] is cur, "a proposal was asked for from a state that is not the current one")
                elif x[0] == "con":
                    check(pos > 0 and log[pos - 1][0] == "made" and log[pos - 1][1] is x[1], "the constraint did not judge the proposal just made")
                elif x[0] == "acc":
                    check(log[pos - 1][0] == "con" and log[pos - 1][1] is x[1] and log[pos - 1][2] is True, "a proposal was accepted or rejected without having been found valid")
                    check(x[1] is cur or x[3] is cur, "the acceptance function did not see the current state as the parent")
                    decided = x[1] if x[2] else cur
            if got[0] == "line":
                if decided is not None and decided is not cur:
                    may_be = [cur, decided]
                if len(states) == 0 and lines > 0 and decided is None:
                    pass
                continue
            if got[0] == "raised":
                check(decided is None, "an exception came out although a state had been decided on")
                continue
            if got[0] == "stop":
                check(not log, "the chain went on working after its last step")
                break
            if not states and not log:  # the initial state
                check(out is init, "the first state is not the initial one")
            elif decided is not None:
                check(out is decided, "the state yielded is not the one decided on")
                cur = decided
                may_be = [cur]
            else:
                raise Violation("a state was yielded that nothing had decided on")
            states.append(out)
            check(len(states) <= c["steps"], lambda: f"more than {c['steps']} states")
            if c["read"]:
                judge_values(out, f"state {len(states)}")
        check(c["steps"] - lines <= len(states) <= c["steps"], lambda: f"{len(states)} states, {c['steps']} were asked for, {lines} interrupts")
        for i, s in enumerate(states):
            judge_values(s, f"state {i + 1}")
        return {"nt": faulted + lines > 0, "tags": ["interrupts"] * (lines > 0) + ["failing functions"] * (faulted > 0)}


# --- bipartitions, seed plans and proposals whose functions fail, or that are interrupted
KINDS = ["first", "random", "recursive", "seed", "random assignment", "recom", "recom random", "ReCom", "reversible", "spectral", "spectral random", "flip", "chunk", "every", "any", "slow", "slow bi"]


@st.composite
def tree_cases(draw):
    return {"a": draw(st.integers(2, 4)), "b": draw(st.integers(2, 4)), "k": draw(st.integers(2, 4)), "seed": draw(gen.seeds), "cls": draw(st.sampled_from(["plain", "geo"])),
            "kind": draw(st.sampled_from(KINDS)), "who": draw(st.sampled_from(["tree", "cut", "choice", "line", "line", "line"])), "times": draw(st.integers(1, 4)),
            "eps": draw(st.sampled_from([0.5, 0.9])), "sampler": draw(st.sampled_from(["random", "uniform"])), "cut": draw(st.sampled_from(["con", "mem"]))}


def data_of(g):
    return ({v: dict(g.nodes[v]) for v in g.nodes}, {frozenset(e): {k: x for k, x in g.edges[e].items() if k != "random_weight"} for e in g.edges})


def run_trees(c):
    from functools import partial

    from gerrychain import Partition, proposals
    from gerrychain import tree as gt
    from gerrychain.proposals import proposals as pp
    from gerrychain.proposals import ReCom, recom, reversible_recom, spectral_recom
    from gerrychain.proposals.tree_proposals import MetagraphError, ReversibilityError

    rng = random.Random(c["seed"])
    random.seed(c["seed"])
    with hist.fresh_defaults():
        part = grid_start(c, rng)
        if rng.random() < 0.5:
            part = part.flip({})
        graph = part.graph.graph
        nodes = list(graph.nodes)
        n = len(nodes)
        adj = {v: set(graph.neighbors(v)) for v in nodes}
        pop = {v: graph.nodes[v]["population"] for v in nodes}
        tot = sum(pop.values())
        due = [None, 0]

        def failing(f, who):
            import functools

            @functools.wraps(f)
            def g(*args, **kw):
                if c["who"] == who and due[0] is not None:
                    due[1] -= 1
                    if due[1] <= 0:
                        e, due[0] = due[0], None
                        raise e
                return f(*args, **kw)
            return g

        tf = failing(gt.uniform_spanning_tree if c["sampler"] == "uniform" else gt.random_spanning_tree, "tree")
        cf = failing(gt.find_balanced_edge_cuts_memoization if c["cut"] == "mem" else gt.find_balanced_edge_cuts_contraction, "cut")
        ch = failing(random.choice, "choice")
        kw = dict(spanning_tree_fn=tf, balance_edge_fn=cf, choice=ch, max_attempts=60)
        first, rand = partial(gt.bipartition_tree, **kw), partial(gt.bipartition_tree_random, **kw)
        k, eps = len(part.parts), c["eps"]
        target = tot / k
        kind = c["kind"]
        call = {"first": lambda: first(graph, "population", tot / 2, eps), "random": lambda: rand(graph, "population", tot / 2, eps),
                "recursive": lambda: gt.recursive_tree_part(graph, range(k), target, "population", eps, method=first),
                "seed": lambda: gt.recursive_seed_part(graph, range(k), target, "population", eps, method=first),
                "random assignment": lambda: Partition.from_random_assignment(graph, k, eps, "population", method=partial(gt.recursive_tree_part, method=first)),
                "recom": lambda: recom(part, "population", target, eps, method=first), "recom random": lambda: recom(part, "population", target, eps, method=rand),
                "ReCom": lambda: ReCom("population", target, eps, method=rand)(part),
                "reversible": lambda: reversible_recom(part, "population", target, eps, balance_edge_fn=cf, M=20, choice=ch),
                "spectral": lambda: spectral_recom(part), "spectral random": lambda: spectral_recom(part, "random"),
                "flip": lambda: proposals.propose_random_flip(part), "chunk": lambda: proposals.propose_chunk_flip(part),
                "every": lambda: pp.propose_flip_every_district(part), "any": lambda: pp.propose_any_node_flip(part),
                "slow": lambda: pp.slow_reversible_propose(part), "slow bi": lambda: pp.slow_reversible_propose_bi(part)}[kind]
        expected = (RuntimeError, gt.BalanceError, gt.PopulationBalanceError, MetagraphError, ReversibilityError, gt.ReselectException)
        before, assigned = data_of(graph), dict(part.assignment.items())
        hit = 0
        for _ in range(c["times"]):
            exc = rng.choice([Boom, ValueError, KeyError, TypeError, AttributeError, IndexError, ZeroDivisionError, StopAsyncIteration, KeyboardInterrupt])("injected")
            try:
                if c["who"] == "line":
                    exc = faults.Interrupt("injected")
                    hit += faults.attempt(call, int(10 ** rng.uniform(0, 3.2)), exc)[0]
                else:
                    due[:] = [exc, int(10 ** rng.uniform(0, 1.2))]
                    call()
                    check(due[0] is not None, lambda: f"{exc!r}, raised by the user's {c['who']} function, did not reach the caller")
            except expected:
                check(c["who"] == "line" or due[0] is not None, lambda: f"another error came out in place of {exc!r}")
            except BaseException as e:
                if e is not exc:
                    raise
                hit += 1
            due[0] = None
            check(data_of(graph) == before, lambda: f"{kind}: a call that failed changed the data of the graph")
            check(dict(part.assignment.items()) == assigned, lambda: f"{kind}: a call that failed changed the plan")
            check(set(graph.nodes) == set(nodes) and {v: set(graph.neighbors(v)) for v in nodes} == adj, "a call that failed changed the graph")
            if rng.random() < 0.3:
                judge_values(part, f"after a failed {kind}")
        judge_values(part, f"after a failed {kind}")
        try:
            res = call()
        except expected:
            return {"nt": hit > 0, "tags": [kind, "error"]}
        if res is None:
            return {"nt": hit > 0, "tags": [kind, "none"]}
        if isinstance(res, Partition):
            plan, goal, lo = {v: res.assignment[v] for v in nodes}, target, kind in ("recom", "recom random", "ReCom", "random assignment")
            judge_values(res, f"the {kind} made after a failed one") if res.graph is part.graph else None
        elif isinstance(res, dict):
            plan, goal, lo = res, target, True
        else:
            plan, goal, lo = {v: v in res for v in nodes}, tot / 2, True
        check(set(plan) == set(nodes), "not every node is assigned")
        if lo:
            changed = {q for v, q in plan.items() if kind not in ("recom", "recom random", "ReCom") or plan[v] != assigned[v]}
            for q in changed:
                mine = [v for v in nodes if plan[v] == q]
                check(gen.is_conn(mine, adj), lambda: f"{kind} after a failed call: part {q!r} is not connected")
                check(trees.within(sum(pop[v] for v in mine), goal, eps, 1e-9), lambda: f"{kind} after a failed call: part {q!r} is not balanced")
        return {"nt": hit > 0, "tags": [kind, c["who"]]}


# --- optimizers whose score fails
@st.composite
def opt_cases(draw):
    return {"a": draw(st.integers(2, 3)), "b": draw(st.integers(2, 4)), "k": 2, "seed": draw(gen.seeds), "cls": draw(st.sampled_from(["plain", "geo"])),
            "kind": draw(st.sampled_from(["bursts", "tilted bursts", "variable", "tilted", "anneal"])), "maximize": draw(st.booleans()),
            "who": draw(st.sampled_from(["score", "proposal", "constraint", "line"])), "failures": draw(st.integers(1, 3)), "steps": draw(st.integers(2, 20)), "bar": draw(st.booleans())}


def run_opt(c):
    import contextlib
    import io

    from gerrychain import proposals
    from gerrychain.optimization import SingleMetricOptimizer

    rng = random.Random(c["seed"])
    random.seed(c["seed"])
    due = [None, 0]

    def maybe(who):
        if c["who"] == who and due[0] is not None:
            due[1] -= 1
            if due[1] <= 0:
                e, due[0] = due[0], None
                raise e

    def value(p):
        return sum((i * 7 + 3) % 5 for i, v in enumerate(sorted(p.assignment.keys())) if p.assignment[v] == 0)

    def score(p):
        maybe("score")
        return value(p)

    tries = [0]

    def propose(p):
        maybe("proposal")
        return proposals.propose_random_flip(p)

    def con(p):
        maybe("constraint")
        tries[0] += 1
        if tries[0] > 5000:
            raise Skip("stuck")
        return all(len(s) > 0 for s in p.parts.values())

    better = (lambda x, y: x >= y) if c["maximize"] else (lambda x, y: x <= y)
    with hist.fresh_defaults():
        init = grid_start(c, rng)
        opt = SingleMetricOptimizer(propose, con, init, score, maximize=c["maximize"])

        def start():
            m, bar = c["steps"], c["bar"]
            if c["kind"] == "bursts":
                return opt.short_bursts(3, -(-m // 3), with_progress_bar=bar), 3 * -(-m // 3)
            if c["kind"] == "tilted bursts":
                return opt.tilted_short_bursts(3, -(-m // 3), 0.5, with_progress_bar=bar), 3 * -(-m // 3)
            if c["kind"] == "variable":
                return opt.variable_length_short_bursts(m, 2, with_progress_bar=bar), m
            if c["kind"] == "tilted":
                return opt.tilted_run(m, 0.5, with_progress_bar=bar), m
            return opt.simulated_annealing(m, opt.jumpcycle_beta_function(2, 2), with_progress_bar=bar), m

        hit = 0
        with contextlib.redirect_stderr(io.StringIO()):
            for _ in range(c["failures"]):
                exc = rng.choice([Boom, ValueError, KeyError, TypeError, ZeroDivisionError, KeyboardInterrupt])("injected")
                due[:] = [exc, rng.randint(1, 2 * c["steps"])]
                seen = [init]
                tries[0] = 0

                def whole():
                    for s in start()[0]:
                        seen.append(s)
                try:
                    if c["who"] == "line":
                        due[0] = None
                        exc = faults.Interrupt("injected")
                        hit += faults.attempt(whole, int(10 ** rng.uniform(0, 3.3)), exc)[0]
                    else:
                        whole()
                        check(due[0] is not None, lambda: f"{exc!r}, raised by the user's {c['who']}, did not reach the caller")
                except BaseException as e:
                    if e is not exc:
                        raise
                    hit += 1
                    if len(seen) > 1:
                        top = (max if c["maximize"] else min)(value(s) for s in seen)
                        check(opt.best_score == value(opt.best_part), lambda: f"after a failure the best score is {opt.best_score}, the best plan's is {value(opt.best_part)}")
                        check(better(opt.best_score, top), lambda: f"after a failure the best score is {opt.best_score}, a plan with {top} was yielded")
                due[0] = None
            gen_, count = start()
            tries[0] = 0
            best, got = None, 0
            for s in gen_:
                got += 1
                if got == 1:
                    check(dict(s.assignment.items()) == dict(init.assignment.items()), "the run after a failed one did not start at the initial plan")
                if best is None or better(value(s), best):
                    best = value(s)
                check(opt.best_score == best and value(opt.best_part) == best, lambda: f"in the run after a failed one the best score is {opt.best_score} (plan: {value(opt.best_part)}), should be {best}")
            check(got == count, lambda: f"the run after a failed one yielded {got} states, {count} were asked for")
        judge_values(init, "the initial plan")
        return {"nt": hit > 0, "tags": [c["kind"], c["who"]]}


# --- saving, joining and building graphs, interrupted
@st.composite
def file_cases(draw):
    return {"t": draw(__import__("checks.c16", fromlist=["tilings"]).tilings(rmax=3, cmax=3)), "seed": draw(gen.seeds), "kind": draw(st.sampled_from(["json", "geojson", "geojson", "frame", "override", "join"])),
            "times": draw(st.integers(1, 4))}


def run_files(c):
    import geopandas
    import pandas

    from checks import c16
    from gerrychain import Graph

    rng = random.Random(c["seed"])
    geoms = c16.polygons(c["t"], lambda x, y: (float(x), float(y)), False)
    k = len(geoms)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        df = geopandas.GeoDataFrame({"pop": range(k), "name": ["u%d" % i for i in range(k)]}, geometry=geoms)
        g = Graph.from_geodataframe(df)
        d = tempfile.mkdtemp(prefix="vpc25")
        path = os.path.join(d, "graph.json")
        extra = pandas.DataFrame({"name": ["u%d" % i for i in range(k)], "votes": [i * 3 for i in range(k)], "pop": [-1] * k})
        call = {"json": lambda: g.to_json(path), "geojson": lambda: g.to_json(path, include_geometries_as_geojson=True),
                "frame": lambda: Graph.from_geodataframe(df), "override": lambda: Graph.from_geodataframe(df, crs_override="EPSG:26986"),
                "join": lambda: g.join(extra, columns=["votes"], left_index="name", right_index="name")}[c["kind"]]
        snap = lambda: ({v: {k: (x.wkb if hasattr(x, "wkb") else x) for k, x in g.nodes[v].items() if k != "votes"} for v in g.nodes},
                        {frozenset(e): dict(g.edges[e]) for e in g.edges}, c16.snapshot(df), extra.values.tolist(), list(extra.columns))
        before = snap()
        hit = 0
        try:
            for _ in range(c["times"]):
                hit += faults.attempt(call, int(10 ** rng.uniform(0, 2.2)), faults.Interrupt("injected"))[0]
                check(snap() == before, lambda: f"an interrupted call ({c['kind']}) changed the graph or the caller's data")
            res = call()
            check(snap() == before, lambda: f"{c['kind']} after an interrupted call changed the graph or the caller's data")
            if c["kind"] in ("json", "geojson"):
                h = Graph.from_json(path)
                check(set(h.nodes) == set(g.nodes) and {frozenset(e) for e in h.edges} == {frozenset(e) for e in g.edges}, "the graph saved after an interrupted call is another")
                for v in g.nodes:
                    for key in ("pop", "name", "area"):
                        check(h.nodes[v][key] == g.nodes[v][key], lambda: f"{key} of node {v} was not saved after an interrupted call")
            elif c["kind"] == "join":
                check(all(g.nodes[v]["votes"] == 3 * v for v in g.nodes), "the join after an interrupted call is incomplete")
            else:
                check({frozenset(e) for e in res.edges} == {frozenset(e) for e in g.edges} and all(res.nodes[v]["area"] == g.nodes[v]["area"] for v in g.nodes), "the graph built after an interrupted call is another")
        finally:
            shutil.rmtree(d)
    return {"nt": hit > 0, "tags": [c["kind"]]}


# --- input that is refused
REFUSED = ["assignment", "join", "add", "save", "save odd", "constraints", "flip", "bounds", "plot", "chain", "score", "seed", "attribute", "updater"]


@st.composite
def refused_cases(draw):
    return {"a": draw(st.integers(2, 3)), "b": draw(st.integers(2, 4)), "k": draw(st.integers(2, 3)), "seed": draw(gen.seeds), "cls": draw(st.sampled_from(["plain", "geo"])),
            "ops": draw(st.lists(st.sampled_from(REFUSED), min_size=2, max_size=8))}


def run_refused(c):
    import pandas

    from gerrychain import Graph, MarkovChain, Partition, accept, constraints, proposals
    from gerrychain.constraints import bounds as cb
    from gerrychain.tree import recursive_tree_part

    rng = random.Random(c["seed"])
    random.seed(c["seed"])
    tags = set()
    with hist.fresh_defaults(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        part = grid_start(c, rng)
        g = Graph.from_networkx(part.graph.graph.copy())  # one that is not frozen
        nodes = list(g.nodes)
        plan = dict(part.assignment.items())
        d = tempfile.mkdtemp(prefix="vpc25")
        bar = [True]
        cons = [lambda p: bar[0]]
        chain = MarkovChain(proposals.propose_random_flip, cons, accept.always_accept, part, 50)
        it = iter(chain)
        boom = Boom("f")
        fails = [0]

        def numbers(p):
            fails[0] -= 1
            if fails[0] == 0:
                raise boom
            return sum(len(s) ** 2 for s in p.parts.values())

        limits = {"up": cb.SelfConfiguringUpperBound(numbers), "low": cb.SelfConfiguringLowerBound(numbers, 0), "range": cb.WithinPercentRangeOfBounds(numbers, 10)}
        base = {}

        def refused(call, *kinds):
            try:
                call()
            except kinds:
                return
            raise Violation(f"{op}: what should have been refused was not")

        before, frozen = data_of(g), data_of(part.graph.graph)
        try:
            for op in c["ops"]:
                tags.add(op)
                if op in ("assignment", "attribute"):
                    bad = dict(plan)
                    if op == "attribute":
                        bad = "no such column"
                    elif rng.random() < 0.5:
                        del bad[rng.choice(nodes)]
                    else:
                        bad["nowhere"] = 0
                    refused(lambda: Partition(g, bad, {"x": len}), KeyError, TypeError, ValueError)
                    g.nodes[nodes[0]]["new"] = 1
                    g.add_node("new")  # the graph is the caller's to change
                    g.remove_node("new")
                    del g.nodes[nodes[0]]["new"]
                    check("x" not in part.updaters, "an updater of a partition that was refused is there")
                elif op == "join":
                    df = pandas.DataFrame({"votes": [1] * len(nodes), "id": range(len(nodes))}, index=pandas.Index(nodes, tupleize_cols=False))
                    how = rng.randrange(3)
                    if how == 0:
                        refused(lambda: g.join(df.iloc[1:], ["votes"]), KeyError)
                    elif how == 1:
                        refused(lambda: g.join(df, ["votes", "not there"]), KeyError)
                    else:
                        refused(lambda: g.join(df, ["votes"], right_index="not there"), KeyError)
                elif op == "add":
                    df = pandas.DataFrame({"votes": [1] * len(nodes)}, index=pandas.Index(nodes, tupleize_cols=False))
                    refused(lambda: g.add_data(df, ["votes", "not there"]), KeyError)
                elif op == "save":
                    refused(lambda: g.to_json(os.path.join(d, "no such folder", "x.json")), OSError)
                elif op == "save odd":
                    g.nodes[nodes[-1]]["odd"] = odd = {(1, 2): 3}
                    refused(lambda: g.to_json(os.path.join(d, "x.json")), TypeError, ValueError)
                    check(g.nodes[nodes[-1]].pop("odd") is odd, "a failed save changed an attribute")
                elif op == "constraints":
                    def fail(p):
                        raise boom
                    new = rng.choice([[lambda p: False], lambda p: False, [lambda p: True, fail], fail, [lambda p: 1]])

                    def assign():
                        chain.constraints = new
                    refused(assign, ValueError, Boom, TypeError)
                    s = next(it, None)
                    check(s is None or isinstance(s, Partition), "the chain does not go on after constraints were refused")
                elif op == "flip":
                    refused(lambda: part.flip({nodes[0]: plan[nodes[1]], "nowhere": 0}), KeyError)
                elif op == "bounds":
                    name = rng.choice(sorted(limits))
                    fails[0] = 1
                    refused(lambda: limits[name](part), Boom)
                    fails[0] = 0
                    other = part if rng.random() < 0.5 else part.flip({nodes[0]: plan[nodes[-1]]})
                    v = sum(len(s) ** 2 for s in other.parts.values())
                    got = limits[name](other)
                    if name not in base:
                        base[name] = v
                    b = base[name]
                    want = {"up": v <= b, "low": v >= b, "range": 0.9 * b <= v <= 1.1 * b}[name]
                    check(got is want or got == want or (name == "range" and abs(abs(v / b - 1) - 0.1) < 1e-9),
                          lambda: f"the bound whose function had failed answers {got} for {v}; it was first asked about {b}")
                elif op == "plot":
                    import geopandas

                    refused(lambda: part.plot(geopandas.GeoSeries([], dtype="geometry")), TypeError)
                elif op == "chain":
                    refused(lambda: MarkovChain(proposals.propose_random_flip, [lambda p: True, lambda p: False], accept.always_accept, part, 5), ValueError)
                elif op == "score":
                    from gerrychain.optimization import SingleMetricOptimizer

                    opt = SingleMetricOptimizer(proposals.propose_random_flip, [constraints.contiguous], part, numbers, maximize=True)
                    fails[0] = 3
                    refused(lambda: [0 for _ in opt.short_bursts(2, 4)], Boom)
                    fails[0] = 0
                    first = next(iter(opt.short_bursts(2, 4)))
                    check(dict(first.assignment.items()) == plan, "a run after a failed one starts elsewhere")
                elif op == "seed":
                    refused(lambda: recursive_tree_part(part.graph.graph, range(2), 1, "no such column", 0.1), KeyError)
                elif op == "updater":
                    new = Partition(part.graph, plan, {"bad": lambda p: p["not there"], "good": lambda p: len(p["cut_edges"])})
                    refused(lambda: new["bad"], KeyError)
                    check(new["good"] == len(part["cut_edges"]), "a value is wrong after another one failed")
                    refused(lambda: new.flip({nodes[0]: plan[nodes[-1]]})["bad"], KeyError)
                    for name in ("bad", "good"):
                        new.updaters.pop(name, None)
                check(data_of(g) == before and data_of(part.graph.graph) == frozen, lambda: f"{op}: a refused call changed the graph")
                check(dict(part.assignment.items()) == plan, lambda: f"{op}: a refused call changed the plan")
            judge_values(part, "a partition used in refused calls")
            steps = sum(1 for _ in it)
            check(steps >= 1, "the chain ended early")
        finally:
            shutil.rmtree(d)
    return {"nt": True, "tags": sorted(tags)}


SUBS = [
    Sub("refused", refused_cases, run_refused, quick=2000, thorough=20000, timeout=60, rule="calls with input that is refused, among others"),
    Sub("values", again(c01.cases), under_faults(c01.run), quick=1200, thorough=30000, timeout=60, rule="C01's histories; every read and flip may be interrupted first"),
    Sub("plans", again(c02.cases), under_faults(c02.run), quick=800, thorough=20000, timeout=60, rule="C02's histories, likewise"),
    Sub("elections", again(c13.cases), under_faults(c13.run_hist), quick=500, thorough=12000, timeout=60, rule="C13's histories, likewise"),
    Sub("regions", again(c14.cases), under_faults(c14.run), quick=500, thorough=12000, timeout=60, rule="C14's histories, likewise"),
    Sub("grids", again(c17.cases), under_faults(c17.run_grid), quick=500, thorough=12000, timeout=60, rule="C17's histories, likewise"),
    Sub("chains", chain_cases, run_chain, quick=1200, thorough=30000, timeout=60, rule="chains whose proposal, constraint or acceptance function raises, or that are interrupted"),
    Sub("trees", tree_cases, run_trees, quick=2000, thorough=50000, timeout=60, rule="bipartitions, seed plans and proposals whose functions raise, or that are interrupted"),
    Sub("optimizers", opt_cases, run_opt, quick=600, thorough=15000, timeout=60, rule="optimization runs that fail, and a whole run after them"),
    Sub("files", file_cases, run_files, quick=300, thorough=6000, timeout=60, rule="saving, joining and building graphs"),
]
