"""C13: election results and partisan metrics against exact recomputation from the votes, over flip histories."""
from collections import Counter
from fractions import Fraction as F

import numpy
import pandas
from hypothesis import strategies as st

from vp import gen, hist
from vp.harness import Sub, check

QUICK = 2  # the numbers of cases in SUBS, times this, in the quick tier
RULE = ("histories: some node with votes changes district and the election is read afterwards; "
        "metrics: at least two districts with different vote shares")
ASSUMPTIONS = ["votes are non-negative and exactly representable, so that every count is exact",
               "the share of a party in a district without votes is not a number; metrics are judged when every district has votes",
               "partisan bias is judged when no district's share is within 1e-9 of the mean without all shares being equal "
               "(floating-point ties)"]

METRICS = ["mean_median", "mean_thirdian", "efficiency_gap", "partisan_bias", "partisan_gini"]


@st.composite
def votes(draw, n):
    kind = draw(st.sampled_from(["small", "small", "tied", "wide", "frac", "tiny"]))
    el = {"small": st.integers(0, 9), "tied": st.sampled_from([0, 1, 1, 2]), "wide": st.integers(0, 10**7),
          "frac": st.integers(0, 80).map(lambda i: i / 8), "tiny": st.integers(0, 20).map(lambda i: i * 2.0**-21)}[kind]
    return draw(st.lists(el, min_size=n, max_size=n))


@st.composite
def elections(draw, n, idx):
    np = draw(st.sampled_from([1, 2, 2, 2, 2, 3, 4]))
    names = draw(st.sampled_from([["D", "R", "G", "I"], ["R", "D", "I", "G"], ["a", "b", "c", "d"]]))[:np]
    return {"parties": names, "votes": [draw(votes(n)) for _ in range(np)],
            "form": draw(st.sampled_from(["cols", "cols", "list", "dict", "series", "mixed"])),
            "alias": draw(st.booleans()), "type": draw(st.sampled_from(["py", "py", "np", "small"])),
            "order": draw(st.sampled_from(["same", "same", "reversed", "extra"]))}


@st.composite
def cases(draw):
    c = draw(hist.histories(lo=2, hi=9, kmax=4, max_ops=8, nkeys=3))
    n = c["g"]["n"]
    ne = draw(st.integers(1, 3))
    c["el"] = [draw(elections(n, i)) for i in range(ne)]
    # the same Election objects on a second graph, with other votes
    c["second"] = draw(st.sampled_from([0, 0, 1, 2]))
    c["votes2"] = [[draw(votes(n)) for _ in e["parties"]] for e in c["el"]] if c["second"] else None
    c["geo"] = False
    c["defer"] = draw(st.booleans())
    return c


def colname(e, i, j):
    return e["parties"][j] if e["form"] == "list" else "E%d_%s" % (i, e["parties"][j])


def cast(x, how):
    """The same number as another type."""
    if how == "np":
        return numpy.int64(x) if isinstance(x, int) else numpy.float64(x)
    if how == "small":  # the narrowest type that holds the number exactly
        for t in [numpy.uint8, numpy.int16, numpy.int32, numpy.float32, numpy.float64]:
            if t(x) == x:
                return t(x)
    return x


def make_elections(c, lab):
    from gerrychain import Election

    out = []
    for i, e in enumerate(c["el"]):
        key = "el%d" % i
        if e["form"] == "list":
            ptc = [colname(e, i, j) for j in range(len(e["parties"]))]
        else:
            ptc = {}
            for j, p in enumerate(e["parties"]):
                f = e["form"] if e["form"] != "mixed" else ["cols", "dict"][j % 2]
                col = colname(e, i, j)
                data = list(zip(lab, e["votes"][j]))
                if e.get("order") == "reversed":
                    data.reverse()
                if e.get("order") == "extra":  # units outside the graph do not vote
                    data.insert(len(data) // 2, ("elsewhere", 1000))
                data = dict(data)
                how = e.get("type", "py")
                series = pandas.Series(list(data.values()), index=pandas.Index(list(data), tupleize_cols=False))
                if how == "small":
                    series = series.astype(numpy.min_scalar_type(max(data.values())) if all(isinstance(x, int) for x in data.values()) else "float64")
                ptc[p] = {"cols": col, "dict": {v: cast(x, how) for v, x in data.items()}, "series": series}[f]
        # an election's name is only for display, and may be the key of another one
        name = "Election %d" % i if len(lab) % 2 else "el%d" % ((i + 1) % len(c["el"]))
        out.append((key, Election(name, ptc, alias=key) if e["alias"] else Election(key, ptc)))
    return out


def exact(x):
    return F(x.item() if isinstance(x, numpy.generic) else x)


def truth(e, vote, model, k):
    """votes[party index][part index] as Fractions"""
    t = [[F(0)] * k for _ in e["parties"]]
    for j in range(len(e["parties"])):
        for v, p in enumerate(model):
            t[j][p] += exact(vote[j][v])
    return t


def eq(x, frac, what):
    check(hist.close(float(x), float(frac), 1e-12), lambda: f"{what}: {x!r}, should be {float(frac)!r}")


def isnan(x):
    return x != x


def verify(res, e, vote, model, plab, full=True):
    k = len(plab)
    t = truth(e, vote, model, k)
    live = [p for p in range(k) if p in set(model)]
    tot = [sum(t[j][p] for j in range(len(t))) for p in range(k)]
    names = e["parties"]
    where = lambda: f"plan {model} of {names} with votes {vote}"
    for j, name in enumerate(names):
        for p in live:
            got = res.count(name, plab[p])
            check(exact(got) == t[j][p], lambda: f"count({name}, {plab[p]!r}) = {got}, should be {float(t[j][p])}: {where()}")
            check(exact(res.totals_for_party[name][plab[p]]) == t[j][p], lambda: f"totals_for_party[{name}][{plab[p]!r}]")
            share = res.percent(name, plab[p])
            if tot[p] == 0:
                check(isnan(share), lambda: f"percent({name}, {plab[p]!r}) = {share} in a district without votes")
            else:
                eq(share, t[j][p] / tot[p], f"percent({name}, {plab[p]!r})")
                eq(res.percents_for_party[name][plab[p]], t[j][p] / tot[p], "percents_for_party")
            want = all(t[j][p] > t[i][p] for i in range(len(names)) if i != j)
            got = res.won(name, plab[p])
            check(bool(got) == want, lambda: f"won({name}, {plab[p]!r}) = {got}, votes {[float(t[i][p]) for i in range(len(names))]}")
        wins = sum(all(t[j][p] > t[i][p] for i in range(len(names)) if i != j) for p in live)
        if len(names) > 1 or len(live) == k:
            check(res.seats(name) == wins and res.wins(name) == wins, lambda: f"seats({name}) = {res.seats(name)}, should be {wins}: {where()}")
        check(exact(res.count(name)) == sum(t[j]), lambda: f"count({name}) = {res.count(name)}, should be {float(sum(t[j]))}")
        if sum(tot):
            eq(res.percent(name), sum(t[j]) / sum(tot), f"percent({name})")
    check(exact(res.total_votes()) == sum(tot), lambda: f"total_votes() = {res.total_votes()}, should be {float(sum(tot))}")
    for p in live:
        check(exact(res.totals[plab[p]]) == tot[p], lambda: f"totals[{plab[p]!r}] = {res.totals[plab[p]]}, should be {float(tot[p])}")
    # the sequences list every district once, in one common order
    cs = [res.counts(n) for n in names]
    vs = [res.votes(n) for n in names]
    ps = [res.percents(n) for n in names]
    check(cs == vs, "votes() and counts() differ")
    rows = Counter(tuple(exact(x) for x in r) for r in zip(*cs))
    want = Counter(tuple(t[j][p] for j in range(len(names))) for p in live)
    zero = tuple(F(0) for _ in names)
    extra = rows - want
    check(not (want - rows) and set(extra) <= {zero} and extra[zero] <= k - len(live),
          lambda: f"counts() {cs} do not list the districts' votes once each: {where()}")
    for i, row in enumerate(zip(*cs)):
        s = sum(exact(x) for x in row)
        for j in range(len(names)):
            if s == 0:
                check(isnan(ps[j][i]), lambda: f"percents({names[j]})[{i}] = {ps[j][i]} without votes")
            else:
                eq(ps[j][i], exact(row[j]) / s, f"percents({names[j]})[{i}] (same order as counts)")
    check(all(len(ps[j]) == len(cs[j]) for j in range(len(names))), "percents() and counts() have different lengths")
    text = str(res)
    check(isinstance(text, str) and all(str(n) in text for n in names), "str() of the results misses a party")
    if full and len(live) == k and all(x > 0 for x in tot):
        metrics(res, t, tot, names)
        return len({t[0][p] / tot[p] for p in range(k)}) > 1
    return False


def metrics(res, t, tot, names):
    import gerrychain.metrics.partisan as pm

    k = len(tot)
    shares = [t[0][p] / tot[p] for p in range(k)]
    srt = sorted(shares)
    mean = sum(shares) / k
    med = srt[k // 2] if k % 2 else (srt[k // 2 - 1] + srt[k // 2]) / 2
    eq2(res.mean_median(), pm.mean_median(res), med - mean, "mean_median", shares)
    third = (2 * k + 3) // 6  # k/3 rounded to the nearest whole number
    eq2(res.mean_thirdian(), pm.mean_thirdian(res), srt[third] - mean, "mean_thirdian", shares)
    clear = all(abs(s - mean) > F(1, 10**9) for s in shares) or all(s == mean and s.denominator & (s.denominator - 1) == 0 for s in shares)
    if clear:
        eq2(res.partisan_bias(), pm.partisan_bias(res), F(sum(s > mean for s in shares), k) - F(1, 2), "partisan_bias", shares)
    overall = sum(t[0]) / sum(tot)
    # area between the seats-votes curve (steps at overall - share + 1/2) and its reflection about (1/2, 1/2)
    steps = sorted(overall - s + F(1, 2) for s in shares)
    area = sum(abs(steps[i] - (1 - steps[k - 1 - i])) for i in range(k)) / k
    eq2(res.partisan_gini(), pm.partisan_gini(res), area, "partisan_gini", shares)
    if len(names) == 2:
        gap = F(0)
        for p in range(k):
            a, b = t[0][p], t[1][p]
            half = (a + b) / 2
            w1, w2 = (a - half, b) if a > b else (a, b - half)
            if a == b:
                got = pm.wasted_votes(float(a), float(b))
                check({exact(x) for x in got} <= {F(0), a} and sum(map(exact, got)) == a,
                      lambda: f"wasted_votes({float(a)}, {float(b)}) = {got}")
                # who is taken as the winner of a tie decides where the wasted votes go
                w1, w2 = exact(got[0]), exact(got[1])
            else:
                got = pm.wasted_votes(float(a), float(b))
                check(exact(got[0]) == w1 and exact(got[1]) == w2, lambda: f"wasted_votes({float(a)}, {float(b)}) = {got}")
            gap += w2 - w1
        eq2(res.efficiency_gap(), pm.efficiency_gap(res), gap / sum(tot), "efficiency_gap", [[float(x) for x in y] for y in t])


def eq2(a, b, want, what, data):
    for x in (a, b):
        check(abs(float(x) - float(want)) <= 1e-9, lambda: f"{what} = {x!r}, should be {float(want)!r}; {[float(s) if isinstance(s, F) else s for s in data]}")


def run_hist(c):
    from gerrychain import Partition

    with hist.fresh_defaults():
        n = c["g"]["n"]
        lab = [gen.node_label(c["g"]["label"], i) for i in range(n)]
        k = max(c["plan"]) + 1
        plab = [gen.part_label(c["plabel"], j) for j in range(k)]
        els = make_elections(c, lab)

        def attrs(vts):
            a = {}
            for i, e in enumerate(c["el"]):
                for j in range(len(e["parties"])):
                    a.setdefault(colname(e, i, j), [cast(x, e.get("type", "py")) for x in vts[i][j]])
            return a

        # two "list" elections may name the same column: then they share its values
        base = [e["votes"] for e in c["el"]]
        a1 = attrs(base)
        votes1 = [[a1[colname(e, i, j)] if uses_column(e, j) else e["votes"][j] for j in range(len(e["parties"]))]
                  for i, e in enumerate(c["el"])]
        g, _ = gen.build_nx(c["g"], a1)
        assign = {v: plab[c["plan"][i]] for i, v in enumerate(lab)}
        ups = {key: el for key, el in els}
        first = Partition(g, dict(assign), dict(ups), use_default_updaters=False)
        w = hist.World(c, first, lab, plab)
        w2 = votes2 = None
        if c["second"]:
            a2 = attrs(c["votes2"])
            votes2 = [[a2[colname(e, i, j)] if uses_column(e, j) else e["votes"][j] for j in range(len(e["parties"]))]
                      for i, e in enumerate(c["el"])]
            g2, _ = gen.build_nx(c["g"], a2)
            other = Partition(g2, dict(assign), dict(ups), use_default_updaters=False)
            w2 = hist.World(c, other, lab, plab)
        moved, reads, spread = False, 0, False
        held = []
        for op in c["ops"]:
            for ww, vv in ((w, votes1), (w2, votes2)):
                if ww is None or (ww is w2 and c["second"] == 2 and op[0] != "flip"):
                    continue
                if op[0] in ("flip", "merge", "many"):
                    ww.flip(op)
                    moved = moved or ww.changed > 0
                elif op[0] in ("read", "readall"):
                    i = ww.pick(op[1])
                    for q in range(len(c["el"])):
                        if op[0] == "readall" or q == op[2] % len(c["el"]):
                            res = ww.parts[i]["el%d" % q]
                            spread |= verify(res, c["el"][q], vv[q], ww.models[i], plab)
                            held.append((res, q, vv[q], list(ww.models[i])))
                            reads += moved
                elif op[0] == "unlink":
                    ww.parts[ww.pick(op[1])].parent = None
        order = range(len(w.parts)) if c["defer"] else reversed(range(len(w.parts)))
        for i in order:
            for ww, vv in ((w, votes1), (w2, votes2)):
                if ww is None or i >= len(ww.parts):
                    continue
                for q in range(len(c["el"])):
                    res = ww.parts[i]["el%d" % q]
                    spread |= verify(res, c["el"][q], vv[q], ww.models[i], plab)
                    reads += moved
        for res, q, vv, model in held:  # results read earlier still say the same
            verify(res, c["el"][q], vv, model, plab, full=False)
        return {"nt": bool(moved and reads), "tags": ["spread" if spread else "flat", "second" if c["second"] else "one"]
                + (["emptied"] if w.emptied else [])}


def uses_column(e, j):
    return e["form"] in ("cols", "list") or (e["form"] == "mixed" and j % 2 == 0)


@st.composite
def metric_cases(draw):
    k = draw(st.integers(1, 12))
    kind = draw(st.sampled_from(["small", "wide", "tied", "one-sided"]))
    el = {"small": st.integers(0, 9), "wide": st.integers(0, 10**8), "tied": st.integers(1, 2),
          "one-sided": st.integers(50, 100)}[kind]
    el2 = st.integers(0, 20) if kind == "one-sided" else el
    np = draw(st.sampled_from([2, 2, 2, 3]))
    rows = []
    for _ in range(k):
        r = [draw(el)] + [draw(el2) for _ in range(np - 1)]
        if sum(r) == 0:
            r[draw(st.integers(0, np - 1))] = 1
        rows.append(r)
    return {"rows": rows, "plabel": draw(st.sampled_from(gen.PARTS)), "name": draw(st.booleans())}


def run_metrics(c):
    """One node per district: any vote table."""
    from gerrychain import Election, Graph, Partition

    with hist.fresh_defaults():
        k = len(c["rows"])
        names = ["A", "B", "C"][: len(c["rows"][0])]
        g = Graph()
        for i, r in enumerate(c["rows"]):
            g.add_node(i, **{"v" + nm: x for nm, x in zip(names, r)})
        for i in range(k - 1):
            g.add_edge(i, i + 1)
        plab = [gen.part_label(c["plabel"], j) for j in range(k)]
        p = Partition(g, {i: plab[i] for i in range(k)}, {"el": Election("el", {nm: "v" + nm for nm in names})},
                      use_default_updaters=False)
        e = {"parties": names}
        vote = [[r[j] for r in c["rows"]] for j in range(len(names))]
        spread = verify(p["el"], e, vote, list(range(k)), plab)
        # the score of the mirrored election: the other party's advantage
        if len(names) == 2:
            q = Partition(g, {i: plab[i] for i in range(k)}, {"em": Election("em", {"B": "vB", "A": "vA"})},
                          use_default_updaters=False)
            verify(q["em"], {"parties": ["B", "A"]}, [vote[1], vote[0]], list(range(k)), plab)
            a, b = p["el"], q["em"]
            check(abs(a.mean_median() + b.mean_median()) < 1e-9, "mean_median is not antisymmetric")
            check(abs(a.partisan_gini() - b.partisan_gini()) < 1e-9, "partisan_gini is not symmetric")
            check(abs(a.efficiency_gap()) <= 0.5 + 1e-9, lambda: f"efficiency_gap = {a.efficiency_gap()}")
        return {"nt": bool(spread and k > 1), "tags": ["k%d" % k]}


def run_big(lc):
    rng, c = hist.big(lc, 3)
    n = c["g"]["n"]
    draw = {"small": lambda: rng.randrange(10), "tied": lambda: rng.choice([0, 1, 1, 2]), "wide": lambda: rng.randrange(10**7), "frac": lambda: rng.randrange(80) / 8}
    els = []
    for i in range(rng.randint(1, 3)):
        names = rng.choice([["D", "R"], ["R", "D"], ["D", "R", "G", "I"], ["p%d" % j for j in range(9)]])
        each = draw[rng.choice(sorted(draw))]
        els.append({"parties": names, "votes": [[each() for _ in range(n)] for _ in names], "form": rng.choice(["cols", "list", "dict", "series", "mixed"]),
                    "alias": rng.random() < 0.5})
    return run_hist(dict(c, el=els, second=0, votes2=None, geo=False, defer=rng.random() < 0.5))


def run_bigmetrics(lc):
    import random

    rng = random.Random(lc["seed"])
    hi = rng.choice([4, 50, 10**6])
    rows = [[rng.randrange(hi), rng.randrange(1, hi)] for _ in range(lc["k"])]
    return run_metrics({"rows": rows, "plabel": rng.choice(gen.PARTS), "name": True})


SUBS = [
    Sub("histories", cases, run_hist, 2600, 60000, 60),
    Sub("metrics", metric_cases, run_metrics, 2400, 60000, 30),
    Sub("huge", lambda: hist.big_seeds(lo=300, hi=1000, kmin=2, kmax=80, smin=2, smax=6), run_big, 12, 300, 200),
    Sub("big", lambda: hist.big_seeds(hi=120, kmax=40, smax=40), run_big, 96, 2000, 120),
    Sub("bigmetrics", lambda: hist.big_seeds(hi=21, kmin=10, kmax=160), run_bigmetrics, 160, 4000, 60),
]
