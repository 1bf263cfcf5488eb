"""C03: MarkovChain semantics against a step-by-step model, with scripted proposals, constraints, acceptance."""
import contextlib
import io
import itertools
import random

import numpy
from hypothesis import strategies as st

from vp import gen, hist
from vp.harness import Skip, Sub, Violation, check

QUICK = 5  # the numbers of cases in SUBS, times this, in the quick tier
RULE = ("a case is non-trivial when at least one proposal is rejected by a constraint or by the acceptance "
        "function, or when the chain has to be refused")
ASSUMPTIONS = ["constraints terminate and some proposal is eventually valid"]

FORMS = ["list", "tuple", "generator", "validator", "callable", "iter", "dictvalues"]


@st.composite
def scripts(draw):
    spec = draw(gen.graphs(2, 6))
    ncon = draw(st.integers(0, 3))
    mask = st.sampled_from([0, 0, 0] + list(range(2 ** ncon)))
    dec = st.tuples(mask, st.booleans(), st.integers(0, 7), st.integers(0, 1))
    return {
        "g": spec, "plan": draw(hist.plans(spec, 2, 2)),
        "script": [list(d) for d in draw(st.lists(dec, min_size=1, max_size=14))],
        "ncon": ncon, "form": draw(st.sampled_from(FORMS)), "total": draw(st.sampled_from([0] + list(range(1, 10)) * 2)),
        "rounds": draw(st.lists(st.one_of(st.none(), st.integers(0, 6)), min_size=1, max_size=3)),
        "bar": draw(st.booleans()), "bool": draw(st.sampled_from(["bool", "numpy"])),
        "acc": draw(st.sampled_from(["bool", "numpy", "int"])),
        "setter": draw(st.sampled_from([None, "same", "bad", "run"])),
        "start_flipped": draw(st.booleans()),
    }


def as_form(form, cons):
    from gerrychain.constraints import Validator

    if form == "list":
        return list(cons)
    if form == "tuple":
        return tuple(cons)
    if form == "generator":
        return (c for c in cons)
    if form == "iter":
        return iter(cons)
    if form == "dictvalues":
        return dict(enumerate(cons)).values()
    if form == "validator":
        return Validator(list(cons))
    if len(cons) == 1:
        return cons[0]
    return Validator(tuple(cons))


def run(c):
    from gerrychain import MarkovChain, Partition

    with hist.fresh_defaults():
        g, lab = gen.build_nx(c["g"])
        init = Partition(g, {lab[i]: c["plan"][i] for i in range(len(lab))})
        if c["start_flipped"]:
            init = init.flip({lab[0]: c["plan"][0]})
        made, cur, asked = [], [init], []
        problems = []

        def proposal(state):
            d = c["script"][len(made)] if len(made) < len(c["script"]) else [0, len(made) % 3 != 0, 0, 0]
            if state is not cur[0]:
                problems.append(f"proposal {len(made)} was made from another state than the current one")
            if d[2] == 7:
                # a proposal that stays where it is, as reversible ReCom does
                d = [0] + d[1:]
                p = state
            elif d[2] == 6:
                p = state.flip({})
            else:
                p = state.flip({lab[d[2] % len(lab)]: d[3]})
            made.append((p, d))
            return p

        def decision(p):
            if made and made[-1][0] is p:
                return made[-1][1]
            for q, d in made:
                if q is p:
                    return d
            return None

        def constraint(i):
            def con(p):
                if p is init:
                    ok = True
                else:
                    d = decision(p)
                    if d is None:
                        problems.append("a constraint was shown a partition that was never proposed")
                        return True
                    if p is made[-1][0] and p is not cur[0] and p.parent is not cur[0]:
                        problems.append("a constraint saw a proposal whose parent is not the current state")
                    ok = not (d[0] >> i) & 1
                return numpy.bool_(ok) if c["bool"] == "numpy" else ok
            con.__name__ = f"con{i}"
            return con

        def accept(p):
            asked.append(len(made))
            d = decision(p)
            if d is None or p is not made[-1][0]:
                problems.append("the acceptance function was shown something other than the current proposal")
                return True
            if d[0]:
                problems.append("the acceptance function was shown an invalid proposal")
            if p is not cur[0] and p.parent is not cur[0]:
                problems.append("the acceptance function saw a proposal whose parent is not the current state")
            a = d[1]
            return numpy.bool_(a) if c["acc"] == "numpy" else int(a) if c["acc"] == "int" else a

        cons = [constraint(i) for i in range(c["ncon"])]
        chain = MarkovChain(proposal, as_form(c["form"], cons), accept, init, c["total"])
        check(len(chain) == c["total"], "len(chain) differs from the requested number of steps")
        if c["setter"] == "same":
            chain.constraints = as_form(c["form"], cons)
        elif c["setter"] == "bad":
            def never(p):
                return False
            try:
                chain.constraints = [never]
            except ValueError:
                pass
            else:
                raise Violation("constraints that the initial state violates were accepted by the setter")
        rejected = False
        for rnd, stop in enumerate(c["rounds"]):
            cur[0] = init
            pos = len(made)
            count = 0
            if c["bar"] and rnd == 0 and stop is None:
                with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                    it = iter(chain.with_progress_bar())
            else:
                it = iter(chain)
            err = io.StringIO()
            while stop is None or count < stop:
                try:
                    with contextlib.redirect_stderr(err):
                        state = next(it)
                except StopIteration:
                    break
                count += 1
                if count == 1:
                    expected = init
                    check(len(made) == pos, "a proposal was made before the first state was yielded")
                else:
                    expected = None
                    while expected is None:
                        check(pos < len(made), lambda: f"state {count} was yielded without a valid proposal")
                        p, d = made[pos]
                        pos += 1
                        if d[0]:
                            rejected = True
                            continue
                        expected = p if d[1] else cur[0]
                        rejected |= not d[1]
                    check(pos == len(made), "more proposals were made than needed for this step")
                check(state is expected, lambda: f"round {rnd}: yield {count} is not the expected state; problems {problems}")
                cur[0] = state
                if c["setter"] == "run" and count == 2:
                    keepers = list(cons)
                    chain.constraints = keepers + [lambda p: p is init]  # what counts is the initial state
                    chain.constraints = keepers
                    try:
                        chain.constraints = keepers + [lambda p: p is not init]
                    except ValueError:
                        pass
                    else:
                        raise Violation("constraints that the initial state violates were accepted by the setter")
                check(not problems, lambda: problems[0])
                check(count <= c["total"], "more states were yielded than requested")
            if stop is None:
                check(count == c["total"], lambda: f"{count} states were yielded, {c['total']} requested")
                check(len(made) == pos, "proposals were made after the last state")
        check(not problems, lambda: problems[0])
        valid = [i + 1 for i, (_, d) in enumerate(made) if not d[0]]
        check(asked == valid, lambda: f"the acceptance function was asked about the proposals {asked}, valid were {valid}")
        return {"nt": rejected, "tags": [c["form"]] + (["bar"] if c["bar"] else [])}


# --- chains that must be refused
@st.composite
def bad_cases(draw):
    n = draw(st.integers(1, 4))
    kinds = ["ok", "ok", "np_ok", "false", "np_false", "none", "one", "str", "list", "zero", "np_one", "np_zero", "np_float"]
    return {"kinds": draw(st.lists(st.sampled_from(kinds), min_size=n, max_size=n)),
            "form": draw(st.sampled_from(FORMS)), "setter": draw(st.booleans()),
            "obj": draw(st.sampled_from(["def", "lambda", "partial", "object", "bounds", "bound of object", "bound of partial"])),
            "late": draw(st.booleans())}


VALUES = {"ok": True, "np_ok": numpy.bool_(True), "false": False, "np_false": numpy.bool_(False), "none": None,
          "one": 1, "str": "yes", "list": [True], "zero": 0, "np_one": numpy.int64(1), "np_zero": numpy.int64(0), "np_float": numpy.float64(1.0)}


def run_bad(c):
    import functools

    from gerrychain import MarkovChain, Partition
    from gerrychain.constraints import Bounds, LowerBound, UpperBound

    class Odd(float):
        """a number whose comparison with a bound answers v (as that of an array is not a boolean)"""
        def __new__(cls, v):
            x = float.__new__(cls, 1)
            x.v = v
            return x

        def __le__(self, other):
            return self.v

        __ge__ = __le__

    class Obj:
        def __init__(self, v):
            self.v = v

        def __call__(self, p):
            return self.v

    def make(v):
        if c["obj"] == "lambda":
            return lambda p: v
        if c["obj"] == "partial":
            return functools.partial(lambda x, p: x, v)
        if c["obj"] == "object":
            return Obj(v)
        if c["obj"] == "bounds" and v is False:
            return UpperBound(lambda p: 1, 0)
        if c["obj"].startswith("bound of"):  # bounds on a function without a name
            def wrap(x):
                return Obj(x) if c["obj"] == "bound of object" else functools.partial(lambda y, p: y, x)
            if v is False or v is True:
                which = len(c["kinds"]) % 3
                return [UpperBound(wrap(1), int(v)), LowerBound(wrap(int(v)), 1), Bounds(wrap([1, int(v)]), (1, 2))][which]
            return [UpperBound, LowerBound][len(c["kinds"]) % 2](wrap(Odd(v)), 1)
        def con(p):
            return v
        return con

    with hist.fresh_defaults():
        g, lab = gen.build_nx({"n": 3, "edges": [[0, 1], [1, 2]], "label": "int", "order": 0})
        init = Partition(g, {0: 0, 1: 0, 2: 1})
        vals = [VALUES[k] for k in c["kinds"]]
        cons = [make(v) for v in vals]
        false_at = next((i for i, k in enumerate(c["kinds"]) if "false" in k), None)
        weird_at = next((i for i, k in enumerate(c["kinds"]) if k in ("none", "one", "str", "list", "zero", "np_one", "np_zero", "np_float")), None)
        allowed = set()
        if false_at is not None:
            allowed.add(ValueError)
        if weird_at is not None:
            allowed.add(TypeError)
        # a chain whose constraints go wrong only after the start
        if c["late"] and allowed:
            started = [False]

            def gate(v):
                f = make(v)
                return lambda p: f(p) if started[0] else True
            chain = MarkovChain(lambda s: s.flip({0: 0}), as_form(c["form"], [gate(v) for v in vals]),
                                lambda p: True, init, 3)
            it = iter(chain)
            next(it)
            started[0] = True
            if weird_at is not None and false_at is None:
                try:
                    next(it)
                except TypeError:
                    return {"nt": True, "tags": ["late TypeError"]}
                raise Violation(f"a constraint returning {vals[weird_at]!r} did not raise TypeError in the run")
            return {"nt": False}
        try:
            if c["setter"]:
                chain = MarkovChain(lambda s: s, [lambda p: True], lambda p: True, init, 3)
                chain.constraints = as_form(c["form"], cons)
            else:
                chain = MarkovChain(lambda s: s, as_form(c["form"], cons), lambda p: True, init, 3)
        except (ValueError, TypeError) as e:
            check(type(e) in allowed or any(isinstance(e, a) for a in allowed),
                  lambda: f"constraints returning {vals} raised {e!r}")
            return {"nt": True, "tags": [type(e).__name__]}
        check(not allowed, lambda: f"constraints returning {vals} on the initial state were accepted")
        return {"nt": False}


# --- real chains: every yielded state is valid and one flip away
@st.composite
def real_cases(draw):
    return {"a": draw(st.integers(2, 5)), "b": draw(st.integers(2, 5)), "k": draw(st.integers(2, 4)),
            "seed": draw(gen.seeds), "steps": draw(st.integers(1, 25)), "eps": draw(st.sampled_from([0.25, 0.5, 0.75])),
            "accept": draw(st.sampled_from(["always", "cut"])), "con": draw(st.sampled_from(["single", "plain", "bfs"])),
            "label": draw(st.sampled_from(["int", "tuple", "str"]))}


def run_real(c):
    from gerrychain import MarkovChain, Partition, accept, constraints, proposals, updaters
    import gerrychain

    with hist.fresh_defaults():
        rng = random.Random(c["seed"])
        a, b = c["a"], c["b"]
        n = a * b
        spec = {"n": n, "edges": [[i, i + 1] for i in range(n) if (i + 1) % b] + [[i, i + b] for i in range(n - b)],
                "label": c["label"], "order": 0}
        k = min(c["k"], n)
        plan = gen.contiguous_plan(spec, k, rng)
        g, lab = gen.build_nx(spec, {"pop": [1] * n})
        init = Partition(g, {lab[i]: plan[i] for i in range(n)}, {"population": updaters.Tally("pop", alias="population")})
        hi = max(plan.count(j) for j in range(k)) + 2
        con = {"single": constraints.single_flip_contiguous, "plain": constraints.contiguous,
               "bfs": constraints.contiguous_bfs}[c["con"]]
        cap = constraints.UpperBound(lambda p: max(p["population"].values()), hi)
        tries = [0]

        def propose(p):
            tries[0] += 1
            if tries[0] > 20000:  # a plan from which no flip is valid: such a chain has no end
                raise Skip("stuck")
            return proposals.propose_random_flip(p)

        chain = MarkovChain(propose, [con, cap],
                            accept.always_accept if c["accept"] == "always" else accept.cut_edge_accept, init, c["steps"])
        adj = gen.adjacency(spec)
        index = {v: i for i, v in enumerate(lab)}
        random.seed(c["seed"])
        prev, count, moved = None, 0, 0
        for limit, state in zip(itertools.count(), chain):
            count += 1
            tries[0] = 0
            cur = [state.assignment[lab[i]] for i in range(n)]
            if prev is None:
                check(state is init, "first state is not the initial one")
            else:
                diff = [i for i in range(n) if cur[i] != prev[i]]
                check(len(diff) <= 1, lambda: f"one flip step changed nodes {diff}")
                moved += len(diff)
            for j in range(k):
                nodes = [i for i in range(n) if cur[i] == j]
                check(nodes and gen.is_conn(nodes, adj), lambda: f"yielded a state with district {j} = {nodes} not connected")
                check(len(nodes) <= hi, "yielded a state over the population cap")
            prev = cur
            check(count <= c["steps"], "too many states")
        check(count == c["steps"], lambda: f"{count} states, wanted {c['steps']}")
        return {"nt": moved > 0}


def guard_real(c):
    """Skip plans from which no flip is possible at all (such a chain never ends)."""
    n = c["a"] * c["b"]
    if c["k"] > n // 2:
        raise Skip("too many districts")
    return run_real(c)


# --- long chains, with long stretches of invalid or rejected proposals
@st.composite
def long_cases(draw):
    return {"seed": draw(gen.seeds), "total": draw(st.sampled_from([1, 2, 30, 200, 1500])), "n": draw(st.integers(2, 6)),
            "run": draw(st.sampled_from([5, 40, 400, 2500])), "rounds": draw(st.integers(1, 2))}


def run_long(c):
    from gerrychain import MarkovChain, Partition

    with hist.fresh_defaults():
        rng = random.Random(c["seed"])
        g, lab = gen.build_nx({"n": c["n"], "edges": [[i, i + 1] for i in range(c["n"] - 1)], "label": "int", "order": 0})
        init = Partition(g, {v: 0 for v in lab}, use_default_updaters=False)
        mode = ["ok", 0]
        last = [None]
        streak = {"invalid": 0, "reject": 0}
        budget = [6000]  # proposals per round

        def proposal(state):
            if state is not now[0]:
                raise Violation("a proposal was made from another state than the current one")
            if mode[1] <= 0:
                mode[:] = [rng.choice(["ok", "invalid", "reject", "mixed"]), rng.randint(1, c["run"])]
            mode[1] -= 1
            budget[0] -= 1
            kind = rng.choice(["ok", "invalid", "reject"]) if mode[0] == "mixed" else mode[0]
            if kind == "invalid" and budget[0] < 0:
                kind = "ok"
            for s in streak:
                streak[s] = streak[s] + 1 if s == kind else 0
                most[s] = max(most[s], streak[s])
            p = state.flip({lab[rng.randrange(c["n"])]: 0})
            last[0] = (p, kind)
            return p

        def valid(p):
            return p is init or last[0][1] != "invalid" or p is not last[0][0]

        def accept(p):
            check(p is last[0][0] and last[0][1] != "invalid", "the acceptance function was shown something else than a valid proposal")
            check(p.parent is now[0], "the proposal's parent is not the current state")
            return last[0][1] == "ok"

        most = {"invalid": 0, "reject": 0}
        chain = MarkovChain(proposal, [valid], accept, init, c["total"])
        for _ in range(c["rounds"]):
            now = [init]
            count, budget[0] = 0, 6000
            for state in chain:
                count += 1
                check(count <= c["total"], "more states than requested")
                if count == 1:
                    check(state is init, "the first state is not the initial one")
                else:
                    p, kind = last[0]
                    check(kind != "invalid", lambda: f"a state was yielded after {most['invalid']} invalid proposals, without a valid one")
                    check(state is (p if kind == "ok" else now[0]), lambda: f"state {count} is not the {'proposal' if kind == 'ok' else 'previous state'}; streaks {most}")
                now[0] = state
            check(count == c["total"], lambda: f"{count} states, {c['total']} requested")
        return {"nt": max(most.values()) >= 10, "tags": [f"{s} x{10 ** (len(str(m)) - 1)}" for s, m in most.items() if m]}


SUBS = [
    Sub("script", scripts, run, quick=3000, thorough=80000, rule="scripted proposals/constraints/acceptance, restarts"),
    Sub("refuse", bad_cases, run_bad, quick=800, thorough=10000, rule="invalid or non-boolean constraints"),
    Sub("real", real_cases, guard_real, quick=240, thorough=6000, timeout=120, rule="flip chains on grids"),
    Sub("long", long_cases, run_long, quick=160, thorough=4000, timeout=120, rule="up to 1500 steps, streaks of up to 2500 invalid or rejected proposals"),
]
