"""C19: Gingles scores and temperature schedules against their formulas."""
import math
import warnings

import pandas
from hypothesis import strategies as st

from vp import gen, hist
from vp.harness import Sub, Violation, check

QUICK = 4  # the numbers of cases in SUBS, times this, in the quick tier
RULE = ("scores: districts on both sides of the threshold, or exactly on it; runs: the score takes two values; "
        "schedules: at least three phases of positive length")
ASSUMPTIONS = ["district populations are positive; the threshold is below 1",
               "a schedule's cycle has at least one step"]

SCORES = ["num_opportunity_dists", "reward_partial_dist", "reward_next_highest_close", "penalize_maximum_over", "penalize_avg_over"]


def formula(name, shares, th):
    over = [s for s in shares if s >= th]
    under = [s for s in shares if s < th]
    if name == "num_opportunity_dists":
        return len(over)
    if name == "reward_partial_dist":
        return len(over) + (max(under) if under else 0)
    if name == "reward_next_highest_close":
        if not under or max(under) < th - 0.1:
            return len(over)
        return len(over) + (max(under) - th + 0.1) * 10
    if not over:
        return 0
    if name == "penalize_maximum_over":
        return len(over) + (1 - max(over)) / (1 - th)
    return len(over) + (1 - sum(over) / len(over)) / (1 - th)


def agree(got, want):
    # on the rim of the 10% band both answers are within rounding of each other
    return abs(float(got) - float(want)) <= 1e-8 * max(1, abs(want))


thresholds = st.one_of(st.sampled_from([0.5, 0.5, 0.4, 0.25, 0.75, 0.45, 0.0, 0.9]), st.integers(0, 19).map(lambda i: i / 20))


@st.composite
def score_cases(draw):
    k = draw(st.integers(1, 7))
    tot = draw(st.lists(st.integers(1, 40), min_size=k, max_size=k))
    mino = [draw(st.integers(0, t)) for t in tot]
    th = draw(st.one_of(thresholds, st.integers(0, k - 1).map(lambda i: mino[i] / tot[i] if mino[i] < tot[i] else 0.5)))
    near = draw(st.sampled_from([0, 0, 0, -1, 1, -1e-10, 1e-10, -1e-5, 1e-5]))  # a hair beside a district's share
    th = math.nextafter(th, near) if near in (-1, 1) and 0 < th < 1 else min(0.99, max(0.0, th + near)) if abs(near) < 1 else th
    return {"tot": tot, "min": mino, "th": th, "plabel": draw(st.sampled_from(gen.PARTS)), "form": draw(st.sampled_from(["dict", "tally"]))}


def run_scores(c):
    """One node per district: any vector of shares."""
    from gerrychain import Graph, Partition
    from gerrychain.optimization import Gingleator
    from gerrychain.updaters import Tally

    with hist.fresh_defaults():
        k = len(c["tot"])
        g = Graph()
        for i in range(k):
            g.add_node(i, TOTPOP=c["tot"][i], MIN=c["min"][i])
        for i in range(k - 1):
            g.add_edge(i, i + 1)
        plab = [gen.part_label(c["plabel"], j) for j in range(k)]
        shares = [m / t for m, t in zip(c["min"], c["tot"])]
        ups = {"share": lambda p: {plab[i]: shares[i] for i in range(k)}} if c["form"] == "dict" else {
            "T": Tally("TOTPOP", alias="T"), "M": Tally("MIN", alias="M"), "share": lambda p: {q: p["M"][q] / p["T"][q] for q in p.parts}}
        p = Partition(g, {i: plab[i] for i in range(k)}, ups, use_default_updaters=False)
        for name in SCORES:
            got = getattr(Gingleator, name)(p, "share", c["th"])
            again = getattr(Gingleator, name)(part=p, minority_perc_col="share", threshold=c["th"])
            want = formula(name, shares, c["th"])
            check(agree(got, want) and got == again, lambda: f"{name} of {shares} at {c['th']}: {got}, should be {want}")
        over = sum(s >= c["th"] for s in shares)
        return {"nt": 0 < over < k or c["th"] in shares, "tags": ["rim" if c["th"] in shares else "off"]}


@st.composite
def run_cases(draw):
    spec = draw(gen.graphs(3, 8))
    n = spec["n"]
    tot = draw(st.lists(st.integers(1, 9), min_size=n, max_size=n))
    return {"g": spec, "plan": draw(hist.plans(spec, 2, 4)), "tot": tot, "min": [draw(st.integers(0, t)) for t in tot], "th": draw(thresholds),
            "score": draw(st.sampled_from(SCORES + [None])), "col": draw(st.sampled_from(["pop", "pop", "perc", "both"])), "name": draw(st.booleans()),
            "plabel": draw(st.sampled_from(gen.PARTS)), "seed": draw(gen.seeds), "kind": draw(st.sampled_from(["bursts", "tilted", "anneal", "variable"])),
            "totname": draw(st.booleans()), "dflt": draw(st.booleans()), "rival": draw(st.sampled_from([None, None, None, "before", "after"]))}


def run_runs(c):
    import random

    from gerrychain import Partition
    from gerrychain.optimization import Gingleator
    from gerrychain.updaters import Tally

    with hist.fresh_defaults():
        g, lab = gen.build_nx(c["g"], {"tot": c["tot"], "min": c["min"], "rest": [t - m for t, m in zip(c["tot"], c["min"])]})
        n, k = c["g"]["n"], max(c["plan"]) + 1
        plab = [gen.part_label(c["plabel"], j) for j in range(k)]
        inv = {p: j for j, p in enumerate(plab)}
        T = "people" if c["totname"] else "TOTPOP"
        ups = {T: Tally("tot", alias=T), "M": Tally("min", alias="M"), "M2": Tally("rest", alias="M2"),
               "other": lambda p: {q: 0.123 for q in p.parts}, "share": lambda p: {q: p["M"][q] / p[T][q] for q in p.parts}}
        p0 = Partition(g, {lab[i]: plab[c["plan"][i]] for i in range(n)}, ups, use_default_updaters=False)
        p0.updaters = dict(p0.updaters)
        rng = random.Random(c["seed"])
        read = lambda p: [inv[p.assignment[v]] for v in lab]

        def proposal(p):
            m = read(p)
            for _ in range(50):
                v, q = rng.randrange(n), rng.randrange(k)
                if m.count(m[v]) > 1 or m[v] == q:
                    return p.flip({lab[v]: plab[q]})
            return p.flip({})

        kw = {}
        if c["col"] in ("perc", "both"):
            kw["minority_perc_col"] = "share"
        if c["col"] == "both":
            kw["minority_pop_col"] = "M"
        if c["col"] == "pop":
            kw["minority_pop_col"] = "M"
            if c["name"]:
                kw["min_perc_column_name"] = "chosen name"
        if c["totname"]:
            kw["total_pop_col"] = T
        th = c["th"]
        if c["dflt"]:
            th = 0.5
        else:
            kw["threshold"] = th
        if c["score"] is not None:
            kw["score_function"] = getattr(Gingleator, c["score"])
        try:
            Gingleator(proposal, lambda p: True, p0, **{x: y for x, y in kw.items() if x not in ("minority_perc_col", "minority_pop_col")})
        except ValueError:
            pass
        else:
            raise Violation("an optimizer without any minority column was made")
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter("always")
            opt = Gingleator(proposal, lambda p: True, p0, **kw)
        check(log or c["col"] != "both", lambda: f"no warning for {kw}")
        if c.get("rival"):  # the same question about another group, asked of the same plan
            if c["rival"] == "before":
                opt.score(p0)
            rival = Gingleator(proposal, lambda p: True, p0, minority_pop_col="M2", total_pop_col=T, threshold=th)
            m0 = read(p0)
            other = lambda m: formula("num_opportunity_dists", [sum(c["tot"][i] - c["min"][i] for i in range(n) if m[i] == q) / sum(c["tot"][i] for i in range(n) if m[i] == q) for q in range(k)], th)
            check(agree(rival.score(p0), other(m0)), lambda: f"a second optimizer, for another group, gives the plan {m0} the score {rival.score(p0)}, should be {other(m0)}")
        name = c["score"] or "num_opportunity_dists"

        def want(p):
            m = read(p)
            sh = [sum(c["min"][i] for i in range(n) if m[i] == q) / sum(c["tot"][i] for i in range(n) if m[i] == q) for q in range(k)]
            return formula(name, sh, th)

        random.seed(c["seed"])
        it = {"bursts": lambda: opt.short_bursts(4, 5), "tilted": lambda: opt.tilted_run(20, 0.3), "variable": lambda: opt.variable_length_short_bursts(20, 2),
              "anneal": lambda: opt.simulated_annealing(20, opt.jumpcycle_beta_function(3, 4), beta_magnitude=2)}[c["kind"]]()
        top, vals = None, set()
        for i, p in enumerate(it):
            w = want(p)
            vals.add(round(w, 9))
            got = opt.score(p)
            check(agree(got, w), lambda: f"{name} of state {i} (plan {read(p)}): {got}, should be {w}")
            top = w if top is None else max(top, w)
            check(agree(opt.best_score, top) and agree(want(opt.best_part), top), lambda: f"best score {opt.best_score} after {i} states, the best seen is {top} ({name})")
            if c["col"] == "pop" and c["name"]:
                check(set(p["chosen name"]) == set(plab), "the share updater has another name")
        check(i == 19, lambda: f"{i + 1} states")
        return {"nt": len(vals) > 1, "tags": [c["kind"], name]}


@st.composite
def beta_cases(draw):
    dur = st.one_of(st.integers(0, 12), st.integers(0, 12), st.integers(13, 1500))
    return {"kind": draw(st.sampled_from(["jumpcycle", "linearcycle", "linear_jumpcycle", "logitcycle", "logit_jumpcycle"])),
            "hot": draw(dur), "cool": draw(st.one_of(st.integers(0, 40), st.integers(0, 40), st.integers(100, 900))), "cold": draw(dur),
            "steps": draw(st.lists(st.integers(0, 10**6), max_size=5))}


def logit(x):
    return min(1.0, max(0.0, (math.log(x / (1 - x)) + 5) / 10))


def run_beta(c):
    from gerrychain.optimization import SingleMetricOptimizer as S

    kind, hot, cool, cold = c["kind"], c["hot"], c["cool"], c["cold"]
    if kind == "jumpcycle":
        cycle = hot + cold
    elif "jump" in kind:
        cycle = hot + cool + cold
    else:
        cycle = hot + 2 * cool + cold
    if cycle == 0:
        return {"nt": False}
    f = getattr(S, kind + "_beta_function")(*((hot, cold) if kind == "jumpcycle" else (hot, cool, cold)))

    def want(step):
        t = step % cycle
        if t < hot:
            return 0.0
        t -= hot
        if kind == "jumpcycle":
            return 1.0
        if t < cool:
            x = t / cool
            return x if "linear" in kind else (0.0 if t == 0 else logit(x))
        t -= cool
        if "jump" in kind or t < cold:
            return 1.0
        t -= cold
        x = t / cool
        return 1 - x if "linear" in kind else (1.0 if t == 0 else 1 - logit(x))

    for step in list(range(3 * cycle + 1)) + c["steps"] + [s * cycle for s in c["steps"]]:
        got = f(step)
        check(isinstance(got, (int, float)) and 0 <= got <= 1, lambda: f"{kind}{(hot, cool, cold)} at {step}: {got}")
        check(abs(got - want(step)) <= 1e-9, lambda: f"{kind}{(hot, cool, cold)} at step {step} is {got}, should be {want(step)}")
    return {"nt": sum(x > 0 for x in (hot, cool, cold)) >= 3 or (kind == "jumpcycle" and hot and cold), "tags": [kind]}


SUBS = [
    Sub("scores", score_cases, run_scores, 5000, 50000, 30),
    Sub("runs", run_cases, run_runs, 3000, 30000, 60),
    Sub("schedules", beta_cases, run_beta, 3000, 30000, 30),
]
