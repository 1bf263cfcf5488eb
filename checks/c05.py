"""C05: bounds, population balance, validity constraints against their definitions, over call sequences."""
from fractions import Fraction

import numpy
import pandas
from hypothesis import strategies as st

from vp import gen, hist
from vp.harness import Skip, Sub, Violation, check

QUICK = 4  # the numbers of cases in SUBS, times this, in the quick tier
RULE = "a case is non-trivial when the sequence of calls contains both answers, or a value exactly on a bound"
ASSUMPTIONS = ["values within 1e-9 (relative) of a bound are judged only when the bound is exactly representable"]

num = st.one_of(st.integers(-20, 20), st.integers(-80, 80).map(lambda i: i / 4),
                st.floats(-1e6, 1e6, allow_nan=False).map(lambda f: round(f, 2)))


@st.composite
def bound_cases(draw):
    kind = draw(st.sampled_from(["bounds", "upper", "lower", "selfupper", "selflower", "selflower_eps", "percent"]))
    vals = draw(st.lists(num, min_size=1, max_size=8))
    # repeat earlier values and bounds, so that equality is common
    extra = draw(st.lists(st.integers(0, len(vals) - 1), max_size=4))
    seq = vals + [vals[i] for i in extra]
    return {"kind": kind, "seq": seq, "lists": draw(st.lists(st.lists(num, min_size=1, max_size=4), min_size=1, max_size=5)),
            "b": draw(st.one_of(num, st.sampled_from(seq))), "width": draw(st.integers(0, 60).map(lambda i: i / 4)),
            "cont": draw(st.sampled_from(["list", "dictvalues", "numpy", "tuple", "set", "generator", "map", "series", "dictkeys"])),
            "eps": draw(st.sampled_from([0, 0.25, 0.5, 2, 0.1])),
            "pct": draw(st.sampled_from([0, 25, 50, 100, 12.5, 10, 1, 33, 150, 200, 300])),
            "ulp": [list(x) for x in draw(st.lists(st.tuples(st.integers(0, len(seq) - 1), st.sampled_from([-1, 1])), max_size=3))],
            "np": draw(st.booleans())}


def container(kind, xs):
    if kind == "list":
        return list(xs)
    if kind == "tuple":
        return tuple(xs)
    if kind == "set":
        return set(xs)
    if kind == "numpy":
        return numpy.array(xs)
    if kind == "generator":
        return (x for x in xs)
    if kind == "map":
        return map(lambda x: x, xs)
    if kind == "series":
        return pandas.Series(xs, index=[f"d{i}" for i in range(len(xs))])
    if kind == "dictkeys":
        return dict.fromkeys(xs).keys()
    return dict(enumerate(xs)).values()


def as_bool(x):
    check(isinstance(x, (bool, numpy.bool_)), lambda: f"the constraint returned {x!r}, not a boolean")
    return bool(x)


def near(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def run_bounds(c):
    from gerrychain.constraints import (Bounds, LowerBound, SelfConfiguringLowerBound, SelfConfiguringUpperBound,
                                        UpperBound, WithinPercentRangeOfBounds)

    F = Fraction
    seq = c["seq"] + [float(numpy.nextafter(c["seq"][i], d * numpy.inf)) for i, d in c.get("ulp", [])]
    conv = (lambda v: numpy.float64(v)) if c["np"] else (lambda v: v)
    kind = c["kind"]
    answers, edge = set(), False
    if kind == "bounds":
        lo, hi = c["b"], c["b"] + c["width"]
        con = Bounds(lambda x: container(c["cont"], x), bounds=(lo, hi))
        for xs in c["lists"] + [[c["b"]], [hi], [lo, hi], [float(numpy.nextafter(lo, -numpy.inf))], [hi, float(numpy.nextafter(hi, numpy.inf)), lo]]:
            want = all(F(lo) <= F(x) <= F(hi) for x in xs)
            got = as_bool(con(xs))
            check(got == want, lambda: f"Bounds({lo}, {hi}) of {xs}: {got}")
            answers.add(want)
            edge |= lo in xs or hi in xs
        return {"nt": len(answers) > 1 or edge, "tags": [kind]}
    fn = lambda x: conv(x)
    first = F(seq[0])
    if kind == "upper":
        con, rule = UpperBound(fn, c["b"]), lambda i, v: v <= F(c["b"])
        edges = [F(c["b"])]
    elif kind == "lower":
        con, rule = LowerBound(fn, c["b"]), lambda i, v: v >= F(c["b"])
        edges = [F(c["b"])]
    elif kind == "selfupper":
        con, rule = SelfConfiguringUpperBound(fn), lambda i, v: v <= first
        edges = [first]
    elif kind == "selflower":
        con, rule = SelfConfiguringLowerBound(fn), lambda i, v: v >= first - F(0.05)
        edges = [first - F(0.05)]
    elif kind == "selflower_eps":
        con, rule = SelfConfiguringLowerBound(fn, epsilon=c["eps"]), lambda i, v: v >= first - F(c["eps"])
        edges = [first - F(c["eps"])]
    else:
        con = WithinPercentRangeOfBounds(fn, c["pct"])
        pc = F(c["pct"]) / 100
        a, b = sorted((first * (1 - pc), first * (1 + pc)))
        rule = lambda i, v: i == 0 or a <= v <= b
        edges = [a, b]
        seq = seq + [float(a), float(b)]
    exact = all(F(float(e)) == e for e in edges) and (kind not in ("selflower",)) and not (
        kind == "percent" and (F(1 - c["pct"] / 100) != 1 - pc or F(float(seq[0]) * (1 + c["pct"] / 100)) != first * (1 + pc)
                               or F(float(seq[0]) * (1 - c["pct"] / 100)) != first * (1 - pc)))
    for i, v in enumerate(seq):
        amb = not exact and any(near(float(F(v)), float(e)) for e in edges)
        got = as_bool(con(v))
        if amb and i > 0:
            continue
        want = rule(i, F(v))
        check(got == want, lambda: f"{kind} (bound {c['b']}, eps {c['eps']}, pct {c['pct']}) call {i} of {seq}: {got}, want {want}")
        answers.add(want)
        edge |= F(v) in edges
    return {"nt": len(answers) > 1 or edge, "tags": [kind]}


@st.composite
def val_cases(draw):
    m = draw(st.integers(0, 4))
    return {"table": draw(st.lists(st.lists(st.booleans(), min_size=m, max_size=m), min_size=1, max_size=6)),
            "m": m, "np": draw(st.lists(st.booleans(), min_size=4, max_size=4)),
            "form": draw(st.sampled_from(["list", "tuple", "generator", "map", "nested", "set"])),
            "bad": draw(st.one_of(st.none(), st.integers(0, 5))), "badval": draw(st.sampled_from([0, 1, None, "x", 1.0, [], [1], "np1", "np0", "npf"]))}


def run_val(c):
    from gerrychain.constraints import Validator

    def mk(i):
        def con(row):
            v = c["table"][row][i]
            return numpy.bool_(v) if c["np"][i] else v
        return con
    cons = [mk(i) for i in range(c["m"])]
    if c["form"] == "tuple":
        arg = tuple(cons)
    elif c["form"] == "generator":
        arg = (x for x in cons)
    elif c["form"] == "map":
        arg = map(lambda f: f, cons)
    elif c["form"] == "set":
        arg = set(cons)
    elif c["form"] == "nested":
        arg = [Validator(cons)]
    else:
        arg = cons
    v = Validator(arg)
    for row in list(range(len(c["table"]))) * 2:
        got = v(row)
        want = all(c["table"][row])
        check(bool(got) == want and isinstance(got, (bool, numpy.bool_)), lambda: f"validator over {c['table'][row]}: {got}")
    if c["bad"] is not None:
        at = min(c["bad"], c["m"])
        bad = {"np1": numpy.int64(1), "np0": numpy.int64(0), "npf": numpy.float64(1)}.get(c["badval"], c["badval"]) if isinstance(c["badval"], str) else c["badval"]
        cons2 = cons[:at] + [lambda row: bad] + cons[at:]
        v = Validator(cons2)
        for row in range(len(c["table"])):
            try:
                got = v(row)
            except TypeError:
                continue
            check(got is False and not all(c["table"][row]), lambda: f"a constraint returning {c['badval']!r} gave {got!r}")
    return {"nt": len({all(r) for r in c["table"]}) > 1 or c["bad"] is not None, "tags": [c["form"]]}


@st.composite
def pop_cases(draw):
    c = draw(hist.histories(lo=2, hi=9, kmin=2, kmax=4, max_ops=7))
    n = c["g"]["n"]
    kind = draw(st.sampled_from(["unit", "small", "float", "big", "huge"]))
    el = {"unit": st.just(1), "small": st.integers(0, 8), "float": st.integers(1, 40).map(lambda i: i / 4),
          "big": st.integers(0, 10**6), "huge": st.integers(10**11, 10**11 + 10**4)}[kind]
    c["np"] = draw(st.sampled_from([None, None, "int64", "float64", "int32", "uint16", "int8"]))
    c["at"] = draw(st.integers(0, 3))  # the plan from which the constraint is made
    c["pop"] = draw(st.lists(el, min_size=n, max_size=n))
    c["percent"] = draw(st.sampled_from([None, 0.25, 0.5, 0.125, 0.1, 0.01, 0.05, 1.0, 0.0, 0.3]))
    c["tol"] = draw(st.sampled_from([None, 0.25, 0.5, 0.1, 0.9, 1, 10, 25, 50, 100, 0.0]))
    c["snug"] = draw(st.sampled_from([None, None, 1, -1])) and [draw(st.sampled_from([1, -1])), draw(st.integers(2, 8)), draw(st.sampled_from([1, -1]))]
    c["key"] = draw(st.sampled_from(["population", "TOTPOP"]))
    return c


def run_bigpop(lc):
    rng, c = hist.big(lc)
    n = c["g"]["n"]
    each = rng.choice([lambda: 1, lambda: rng.randrange(9), lambda: rng.randrange(1, 40) / 4, lambda: rng.randrange(10**6)])
    return run_pop(dict(c, pop=[each() for _ in range(n)], percent=rng.choice([None, 0.25, 0.5, 0.125, 0.1, 0.9, 1.0]), tol=rng.choice([None, 0.25, 0.5, 0.9, 50, 100]),
                        snug=rng.choice([None, [rng.choice([1, -1]), rng.randint(2, 8), rng.choice([1, -1])]]),
                        key=rng.choice(["population", "TOTPOP"])))


def run_pop(c):
    from gerrychain import Partition, updaters
    from gerrychain.constraints import (deviation_from_ideal, districts_within_tolerance, no_vanishing_districts,
                                        within_percent_of_ideal_population)

    with hist.fresh_defaults():
        pop = c["pop"]
        if c.get("np") and all(numpy.dtype(c["np"]).type(x) == x for x in pop if abs(x) < 100):
            pop = [numpy.dtype(c["np"]).type(x) if abs(x) < 100 else x for x in pop]
        g, lab = gen.build_nx(c["g"], {"p": pop})
        k = max(c["plan"]) + 1
        plab = [gen.part_label(c["plabel"], j) for j in range(k)]
        first = Partition(g, {v: plab[c["plan"][i]] for i, v in enumerate(lab)}, {c["key"]: updaters.Tally("p", alias=c["key"])})
        w = hist.World(c, first, lab, plab)
        F = Fraction
        if c.get("snug") and sum(c["pop"]):
            # tolerances just above or just below what the first plan needs
            s, e, t = c["snug"]
            pops = [float(sum(x for x, q in zip(c["pop"], c["plan"]) if q == j)) for j in range(k)]
            mean = sum(pops) / k
            dev = max(abs(x - mean) for x in pops) / mean
            if 0 < dev < 1:
                c = dict(c, percent=dev * (1 + s * 10.0 ** -e))
            gap = (max(pops) - min(pops)) / min(pops) if min(pops) else 0
            if 0 < gap < 0.9:
                c = dict(c, tol=gap * (1 + t * 10.0 ** -e))
        kw = {} if c["percent"] is None else {"percent": c["percent"]}
        if c["key"] != "population":
            kw["pop_key"] = c["key"]
        pct = F(0.01 if c["percent"] is None else c["percent"])
        total = sum(F(x) for x in c["pop"])
        ideal = total / k
        con = within_percent_of_ideal_population(first.flip({lab[i % len(lab)]: plab[i % k] for i in range(c.get("at", 0))}) if c.get("at") else first, **kw)
        lo, hi = (1 - pct) * ideal, (1 + pct) * ideal
        fi = float(total) / k
        exact = (F(fi) == ideal and F((1 - float(pct)) * fi) == lo and F((1 + float(pct)) * fi) == hi)
        answers = set()

        def judge(i):
            p, m = w.parts[i], w.models[i]
            pops = [sum((F(c["pop"][v]) for v in range(w.n) if m[v] == j), F(0)) for j in range(k)]
            used = len(set(m)) == k
            if used and (exact or not any(near(float(x), float(b)) for x in pops for b in (lo, hi))):
                want = all(lo <= x <= hi for x in pops)
                got = as_bool(con(p))
                check(got == want, lambda: f"within_percent_of_ideal_population({kw}): {got}, populations {list(map(float, pops))}, "
                      f"allowed {float(lo)}..{float(hi)}")
                answers.add(("ideal", want))
            if used and total:
                dev = deviation_from_ideal(p, **({} if c["key"] == "population" else {"attribute": c["key"]}))
                check(set(dev) == set(plab), "deviation_from_ideal has other parts")
                for j in range(k):
                    check(hist.close(float(dev[plab[j]]), float((pops[j] - ideal) / ideal)),
                          lambda: f"deviation of part {j} is {dev[plab[j]]}, want {float((pops[j] - ideal) / ideal)}")
            if used:
                tkw = {} if c["tol"] is None else {"percentage": c["tol"]}
                if c["key"] != "population":
                    tkw["attribute_name"] = c["key"]
                t = F(0.1) if c["tol"] is None else F(c["tol"])
                if t >= 1:
                    t = t / 100
                gap, allow = max(pops) - min(pops), t * min(pops)
                ex = t in (F(1, 4), F(1, 2), F(0))
                if ex or not near(float(gap), float(allow)) or min(pops) == 0:
                    got = as_bool(districts_within_tolerance(p, **tkw))
                    check(got == (gap <= allow), lambda: f"districts_within_tolerance({tkw}): {got} for {list(map(float, pops))}")
                    answers.add(("tol", got))
            par = w.parent[i]
            if par is None:
                check(as_bool(no_vanishing_districts(p)) is True, "no_vanishing_districts refuses a plan without a parent")
            elif i not in unlinked:
                got = as_bool(no_vanishing_districts(p))
                check(got == used, lambda: f"no_vanishing_districts {got} for {m} from {w.models[par]}")
                answers.add(("vanish", got))

        unlinked = set()
        judge(0)
        for op in c["ops"]:
            if op[0] in ("read", "readall"):
                judge(w.pick(op[1]))
            elif op[0] == "unlink":
                i = w.pick(op[1])
                w.parts[i].parent = None
                unlinked.add(i)
            else:
                w.flip(op)
                judge(len(w.parts) - 1)
        for i in range(len(w.parts)):
            judge(i)
        kinds = [a for a, _ in answers]
        return {"nt": len(kinds) > len(set(kinds)), "tags": [f"{a}={b}" for a, b in answers]}


SUBS = [
    Sub("bounds", bound_cases, run_bounds, quick=3000, thorough=60000, rule="call sequences on all bound classes"),
    Sub("validator", val_cases, run_val, quick=1000, thorough=20000, rule="truth tables of constraints"),
    Sub("population", pop_cases, run_pop, quick=2400, thorough=60000, rule="population constraints along histories"),
    Sub("bigpop", lambda: hist.big_seeds(hi=100, kmax=30, smax=30), run_bigpop, quick=96, thorough=3000, rule="the same with up to 110 nodes and 30 districts"),
]
