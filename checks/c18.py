"""C18: optimization runs against a reference model driven by the same scripted proposals; acceptance rates by statistics."""
import contextlib
import io
import math
import random

from hypothesis import strategies as st

from vp import gen, hist, trees
from vp.harness import Skip, Sub, check

QUICK = 2  # the numbers of cases in SUBS, times this, in the quick tier
RULE = "runs: at least one plan of the run improves on the first and one is worse than the best; rates: at least 100 worse proposals"
ASSUMPTIONS = ["proposals are scripted (they do not draw from the global generator), scores are functions of the plan",
               "the step of a plan is what its step updater says: the number of moves that led to it, unless the user's updater counts otherwise",
               "acceptance rates are judged at p < 1e-9 under a fixed seed"]


class Cap(Exception):
    pass


@st.composite
def cases(draw):
    spec = draw(gen.graphs(3, 7))
    n = spec["n"]
    plan = draw(hist.plans(spec, draw(st.sampled_from([2, 2, 2, 1])), 4))
    runs = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 2, 3]))):
        kind = draw(st.sampled_from(["bursts", "bursts", "variable", "variable", "tilted", "tiltedbursts", "anneal", "anneal"]))
        runs.append({"kind": kind, "L": draw(st.integers(1, 6)), "B": draw(st.integers(1, 6)), "n": draw(st.integers(1, 60 if kind == "variable" else 25)),
                     "stuck": draw(st.integers(1, 3)), "p": draw(st.sampled_from([0, 1])), "mag": draw(st.sampled_from([1e6, 1e9])),
                     "hot": draw(st.integers(0, 5)), "cold": draw(st.integers(1, 5)), "accept": draw(st.sampled_from(["always", "always", "some"])),
                     "bar": draw(st.sampled_from([False, False, False, True])), "stop": draw(st.one_of(st.none(), st.none(), st.integers(0, 5)))})
    return {"g": spec, "plan": plan, "plabel": draw(st.sampled_from(gen.PARTS)), "w": draw(st.lists(st.integers(-2, 3), min_size=n, max_size=n)),
            "score": draw(st.sampled_from(["weights", "weights", "mod", "float", "tuple", "tiny", "huge"])), "maximize": draw(st.booleans()),
            "bad": draw(st.sampled_from([0, 0, 3, 5])), "seed": draw(gen.seeds), "runs": runs, "calm": draw(st.sampled_from([0, 0, 4])),
            "step": draw(st.sampled_from(["default", "default", "named", "own", "own step"])), "history": draw(st.integers(0, 2)),
            "form": draw(st.sampled_from(["callable", "list", "validator", "tuple", "generator", "iter"])),
            "start": draw(st.sampled_from(["first", "first", "child", "orphan"])), "other": draw(st.sampled_from([False, False, True]))}


SCALES = {"tiny": 2.0 ** -40, "huge": 2.0 ** 70}


def make_score(c, lab, plab):
    """score of a plan (list of part indices)"""
    w = c["w"]

    def f(model):
        s = sum(x for x, q in zip(w, model) if q == 0)
        if c["score"] == "mod":
            return (sum((i + 1) * q for i, q in enumerate(model)) * 7 + s) % 5
        if c["score"] == "float":
            return s / 4 + 0.25
        if c["score"] in SCALES:
            return s * SCALES[c["score"]]
        if c["score"] == "tuple":
            return (s // 2, model[0])
        return s

    return f


def run(c):
    from gerrychain import Partition
    from gerrychain.accept import always_accept
    from gerrychain.constraints import Validator
    from gerrychain.optimization import SingleMetricOptimizer

    with hist.fresh_defaults(), contextlib.redirect_stderr(io.StringIO()):
        g, lab = gen.build_nx(c["g"])
        n, k = c["g"]["n"], max(c["plan"]) + 1
        plab = [gen.part_label(c["plabel"], j) for j in range(k)]
        inv = {p: j for j, p in enumerate(plab)}
        score = make_score(c, lab, plab)
        read = lambda p: [inv[p.assignment[v]] for v in lab]

        def valid(model):
            return c["bad"] == 0 or model == c["plan"] or sum((i + 2) * (q + 1) for i, q in enumerate(model)) % c["bad"] != 0

        def accepts(model):
            return sum((i + 1) * q for i, q in enumerate(model)) % 3 != 1

        rng0 = random.Random(c["seed"])
        script = [(rng0.randrange(n), rng0.randrange(k)) for _ in range(15000 if c.get("very") else 6000)]
        if c["calm"]:  # mostly proposals that change nothing good: getting stuck is common
            script = [s if i % c["calm"] == 0 else (0, c["plan"][0]) for i, s in enumerate(script)]
        calls = [0]

        def proposal(p):
            calls[0] += 1
            if calls[0] >= len(script):
                raise Cap
            v, q = script[calls[0]]
            return p.flip({lab[v]: plab[q]})

        ups, own = {}, None
        stepname = "step"
        if c["step"] == "named":
            stepname = "my step"
        if c["step"] in ("own", "own step"):
            stepname = "mine" if c["step"] == "own" else "step"
            ups[stepname] = lambda p: 5 if p.parent is None else p.parent[stepname] + 3
        p0 = Partition(g, {lab[i]: plab[c["plan"][i]] for i in range(n)}, ups, use_default_updaters=False)
        p0.updaters = dict(p0.updaters)
        if c.get("start", "first") != "first":  # a plan reached by an earlier run
            away = p0.flip({lab[0]: plab[(c["plan"][0] + 1) % k]})
            p0 = away.flip({lab[0]: plab[c["plan"][0]]})
            if c["start"] == "orphan":
                p0.parent = None
        con = lambda p: valid(read(p))
        cons = {"callable": con, "list": [con], "validator": Validator([con]), "tuple": (con,), "generator": (x for x in [con]), "iter": iter([con])}[c["form"]]
        kw = {} if c["step"] in ("default", "own step") else {"step_indexer": stepname}
        opt = SingleMetricOptimizer(proposal, cons, p0, lambda p: score(read(p)), maximize=c["maximize"], **kw)
        start, inc = (5, 3) if c["step"] in ("own", "own step") else (0, 1)
        if c.get("start", "first") != "first":
            start = p0[stepname]
        # another optimizer of the same plan, used in between
        other = SingleMetricOptimizer(lambda p: p.flip({lab[rng0.randrange(n)]: plab[rng0.randrange(k)]}), lambda p: True, p0, lambda p: -score(read(p))
                                      if c["score"] != "tuple" else read(p), maximize=c["maximize"]) if c.get("other") else None
        better = (lambda a, b: a > b) if c["maximize"] else (lambda a, b: a < b)

        improved = worse = False
        for r in c["runs"]:
            if c["score"] == "tuple" and r["kind"] == "anneal":
                continue
            kind = r["kind"]
            if other is not None:
                for _ in other.short_bursts(3, 2):
                    pass
            user = always_accept if r["accept"] == "always" else (lambda p: accepts(read(p)))
            beta = lambda t: 0.0 if t % (r["hot"] + r["cold"]) < r["hot"] else 1.0
            if kind == "bursts":
                it = opt.short_bursts(r["L"], r["B"], accept=user, with_progress_bar=r["bar"])
            elif kind == "tiltedbursts":
                it = opt.tilted_short_bursts(r["L"], r["B"], r["p"], with_progress_bar=r["bar"])
            elif kind == "variable":
                it = opt.variable_length_short_bursts(r["n"], r["stuck"], accept=user, with_progress_bar=r["bar"])
            elif kind == "tilted":
                it = opt.tilted_run(r["n"], r["p"], with_progress_bar=r["bar"])
            else:
                it = opt.simulated_annealing(r["n"], beta, beta_magnitude=r["mag"] / SCALES.get(c["score"], 1), with_progress_bar=r["bar"])
            at = calls[0]

            # the reference: states are (plan, step)
            class Ref:
                best = (list(c["plan"]), start)
                t = at

            def chain(first, steps, accept):
                state = first
                yield state
                for _ in range(steps - 1):
                    while True:
                        Ref.t += 1
                        if Ref.t >= len(script):
                            raise Skip
                        v, q = script[Ref.t]
                        new = list(state[0])
                        new[v] = q
                        if not valid(new):
                            continue
                        cand = (new, state[1] + inc)
                        if accept(cand, state):
                            state = cand
                        break
                    yield state

            def track(gen_):
                for s in gen_:
                    if not better(score(Ref.best[0]), score(s[0])):
                        Ref.best = s
                    yield s

            def tilted(cand, state):
                return not better(score(state[0]), score(cand[0])) or r["p"] == 1

            def anneal(cand, state):
                return not better(score(state[0]), score(cand[0])) or beta(cand[1]) == 0

            useracc = (lambda cand, state: True) if r["accept"] == "always" else (lambda cand, state: accepts(cand[0]))

            def ref():
                first = (list(c["plan"]), start)
                if kind in ("bursts", "tiltedbursts"):
                    for _ in range(r["B"]):
                        yield from track(chain(Ref.best, r["L"], useracc if kind == "bursts" else tilted))
                elif kind == "tilted":
                    yield from track(chain(first, r["n"], tilted))
                elif kind == "anneal":
                    yield from track(chain(first, r["n"], anneal))
                else:
                    done, length, stuck = 0, 2, 0
                    while done < r["n"]:
                        b0 = score(Ref.best[0])
                        for s in track(chain(Ref.best, length, useracc)):
                            done += 1
                            yield s
                            if done >= r["n"]:
                                return
                        stuck = 0 if better(score(Ref.best[0]), b0) else stuck + 1
                        if stuck >= r["stuck"]:
                            length, stuck = 2 * length, 0

            what = lambda: f"{r} maximize={c['maximize']}"
            expected = ref()
            seen = [p0]
            i = 0
            try:
                for i, part in enumerate(it):
                    try:
                        want = next(expected)
                    except StopIteration:
                        check(False, lambda: f"more than {i} states were yielded: {what()}")
                    seen.append(part)
                    check(read(part) == want[0], lambda: f"state {i} is {read(part)}, should be {want[0]} (first plan {c['plan']}): {what()}")
                    check(valid(read(part)), lambda: f"state {i} is not valid: {what()}")
                    best(opt, Ref.best, score, read, seen, lambda: f"after state {i}: {what()}")
                    if kind == "anneal" and i:
                        check(part[stepname] == want[1], lambda: f"step of state {i} is {part[stepname]}, should be {want[1]}")
                    improved |= better(score(want[0]), score(c["plan"]))
                    worse |= better(score(Ref.best[0]), score(want[0]))
                    if r["stop"] is not None and i >= r["stop"] and r is not c["runs"][-1]:
                        break
                else:
                    check(next(expected, None) is None, lambda: f"only {len(seen) - 1} states were yielded: {what()}")
            except Cap:
                raise Skip
            if hasattr(it, "close"):
                it.close()
            best(opt, Ref.best, score, read, seen, lambda: f"after the run: {what()}")
        return {"nt": bool(improved and worse), "tags": sorted({r["kind"] for r in c["runs"]}) + ["max" if c["maximize"] else "min"]}


def best(opt, want, score, read, seen, when):
    check(opt.best_score == score(want[0]), lambda: f"best_score is {opt.best_score}, should be {score(want[0])}, {when()}")
    check(read(opt.best_part) == want[0], lambda: f"best_part is {read(opt.best_part)}, should be {want[0]} (score {score(want[0])}), {when()}")
    check(any(opt.best_part is s for s in seen), lambda: f"best_part was not yielded, {when()}")


@st.composite
def rate_cases(draw):
    spec = draw(gen.graphs(4, 7))
    n = spec["n"]
    return {"g": spec, "plan": draw(hist.plans(spec, 2, 2)), "w": draw(st.lists(st.integers(-2, 3), min_size=n, max_size=n)), "seed": draw(gen.seeds),
            "kind": draw(st.sampled_from(["tilted", "tiltedbursts", "anneal", "anneal", "logit"])), "p": draw(st.sampled_from([0.1, 0.25, 0.5, 0.9, 0.02])),
            "mag": draw(st.sampled_from([0.25, 0.5, 1, 2])), "maximize": draw(st.booleans()), "ramp": draw(st.integers(2, 8)),
            "scale": draw(st.sampled_from([1, 1, 2.0 ** -30, 2.0 ** 40])), "peak": draw(st.sampled_from([1, 1, 1, 3]))}


def run_rates(c):
    """Which proposals are accepted, and how often."""
    from gerrychain import Partition
    from gerrychain.optimization import SingleMetricOptimizer

    with hist.fresh_defaults():
        g, lab = gen.build_nx(c["g"])
        n = c["g"]["n"]
        read = lambda p: [p.assignment[v] for v in lab]
        scale = c.get("scale", 1)
        score = lambda m: scale * sum(x for x, q in zip(c["w"], m) if q == 0)
        mag = c["mag"] / scale
        prop = random.Random(c["seed"])
        pend = []
        seen = {}  # probability -> [accepted, proposed]

        def settle(state):
            if pend:
                old, new, t = pend.pop()
                if old == new:
                    return
                loss = (score(old) - score(new)) * (1 if c["maximize"] else -1)
                if c["kind"] in ("tilted", "tiltedbursts"):
                    pr = 1.0 if loss <= 0 else c["p"]
                else:
                    pr = 1.0 if loss <= 0 else math.exp(-beta(t) * mag * loss)
                a = seen.setdefault(pr, [0, 0])
                a[1] += 1
                a[0] += read(state) == new
                check(read(state) in (old, new), lambda: f"the chain went from {old} to {read(state)} when {new} was proposed")

        ramp = c["ramp"]
        if c["kind"] == "logit":
            beta = SingleMetricOptimizer.logitcycle_beta_function(2, ramp, 2)
        else:
            beta = lambda t: (t % ramp) / ramp * c.get("peak", 1)

        def proposal(p):
            q = p.flip({lab[prop.randrange(n)]: prop.randrange(2)})
            pend.append((read(p), read(q), q["step"] if c["kind"] in ("anneal", "logit") else None))
            return q

        p0 = Partition(g, {lab[i]: c["plan"][i] for i in range(n)}, use_default_updaters=False)
        opt = SingleMetricOptimizer(proposal, lambda p: True, p0, lambda p: score(read(p)), maximize=c["maximize"])
        random.seed(c["seed"])
        N = 1200
        if c["kind"] == "tilted":
            it = opt.tilted_run(N, c["p"])
        elif c["kind"] == "tiltedbursts":
            it = opt.tilted_short_bursts(N // 3, 3, c["p"])
        else:
            it = opt.simulated_annealing(N, beta, **({} if mag == 1 else {"beta_magnitude": mag}))
        for i, part in enumerate(it):
            if c["kind"] == "tiltedbursts" and i % (N // 3) == 0:
                pend.clear()
            settle(part)
        worse = 0
        for pr, (a, m) in seen.items():
            if pr == 1.0:
                check(a == m, lambda: f"{m - a} of {m} proposals that had to be accepted were refused: {c['kind']}")
            else:
                worse += m
                pv = trees.binom_p(a, m, pr)
                check(pv > 1e-9, lambda: f"{a} of {m} proposals with acceptance probability {pr} were accepted ({c['kind']}, p-value {pv})")
        return {"nt": worse >= 100, "tags": [c["kind"]]}


@st.composite
def long_cases(draw):
    c = draw(cases())
    for r in c["runs"]:
        r.update(L=draw(st.integers(1, 60)), B=draw(st.integers(1, 30)), n=draw(st.integers(50, 900)), stuck=draw(st.integers(1, 12)),
                 hot=draw(st.integers(0, 60)), cold=draw(st.integers(1, 60)))
    return c


@st.composite
def very_long_cases(draw):
    """One run of thousands of states: bursts that have doubled ten times and more."""
    c = draw(cases())
    kind = draw(st.sampled_from(["variable", "variable", "variable", "bursts", "tilted", "anneal"]))
    r = dict(c["runs"][0], kind=kind, L=draw(st.integers(500, 3000)), B=2, n=draw(st.integers(1500, 7000)), stuck=draw(st.sampled_from([1, 1, 1, 2])), stop=None,
             hot=draw(st.integers(0, 900)), cold=draw(st.integers(1, 900)), bar=False)
    return dict(c, runs=[r], very=1)


SUBS = [
    Sub("verylong", very_long_cases, run, 24, 1000, 200),
    Sub("runs", cases, run, 6000, 100000, 60),
    Sub("long", long_cases, run, 250, 8000, 120),
    Sub("rates", rate_cases, run_rates, 150, 3000, 60),
]
