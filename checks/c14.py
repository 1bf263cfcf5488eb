"""C14: county splits, region splits and locality scores against their definitions, over flip histories."""
import math
from collections import Counter

from hypothesis import strategies as st

from vp import gen, hist
from vp.harness import Sub, Violation, check

QUICK = 5  # the numbers of cases in SUBS, times this, in the quick tier
RULE = "a county is split in some state of the history, and some node changes district"
ASSUMPTIONS = ["the power entropy is the one implemented: sum over localities of (sum p^(1-alpha) - 1) / q",
               "a partition whose parent was removed before its county splits were first read may report a split county as new or old"]

SCORES = ["num_parts", "num_pieces", "naked_boundary", "shannon_entropy", "power_entropy", "symmetric_entropy",
          "num_split_localities"]
LOCS = {"str": lambda i: "C%d" % i, "int": lambda i: i, "tuple": lambda i: ("c", i), "digits": lambda i: str(10 + i),
        "mixed": lambda i: i if i % 2 else "C%d" % i, "falsy": lambda i: [None, "", 0, ()][i] if i < 4 else "C%d" % i}


@st.composite
def cases(draw):
    c = draw(hist.histories(lo=2, hi=10, kmax=4, max_ops=8, nkeys=4))
    n = c["g"]["n"]
    k = draw(st.integers(1, 4))
    c["loc"] = draw(st.lists(st.integers(0, k - 1), min_size=n, max_size=n))
    c["loc2"] = draw(st.lists(st.integers(0, 2), min_size=n, max_size=n))
    c["lockind"] = draw(st.sampled_from(sorted(LOCS)))
    pops = draw(st.lists(st.integers(0, 9), min_size=n, max_size=n))
    if sum(pops) == 0:
        pops[0] = 1
    f = draw(st.sampled_from([1, 1, 1, 2**-6, 10**6]))
    c["pop"] = [x * f for x in pops]
    c["alpha"] = draw(st.sampled_from([0.05, 0.8, 0.5, 0.0, 1.0]))
    c["scores"] = draw(st.lists(st.sampled_from(SCORES), min_size=1, max_size=7, unique=True)) if draw(st.booleans()) else SCORES
    c["second"] = draw(st.booleans())
    c["defer"] = draw(st.booleans())
    return c


def split_map(loc, model):
    d = {}
    for v, l in enumerate(loc):
        d.setdefault(l, set()).add(model[v])
    return d


def score(name, c, loc, model, adj, alpha):
    n = len(model)
    pairs = Counter(zip(loc, model))
    tot = Counter(loc)
    if name == "num_parts":
        return len(pairs)
    if name == "num_pieces":
        return sum(len(gen.components([v for v in range(n) if (loc[v], model[v]) == pr], adj)) for pr in pairs)
    if name == "naked_boundary":
        return sum(1 for a, b in c["g"]["edges"] if model[a] != model[b] and loc[a] == loc[b])
    if name == "num_split_localities":
        return sum(1 for s in split_map(loc, model).values() if len(s) > 1)
    if name == "shannon_entropy":
        return sum(tot[l] / n * sum((pairs[l, d] / tot[l]) * math.log(tot[l] / pairs[l, d]) for l2, d in pairs if l2 == l) for l in tot)
    if name == "power_entropy":
        return sum((sum((pairs[l, d] / tot[l]) ** (1 - alpha) for l2, d in pairs if l2 == l) - 1) * n / tot[l] for l in tot)
    pop = Counter()
    for v in range(n):
        pop[loc[v], model[v]] += c["pop"][v]
    out = 0.0
    for axis in (0, 1):
        for key in {pr[axis] for pr in pop}:
            t = sum(x for pr, x in pop.items() if pr[axis] == key)
            out += sum(math.sqrt(x * t) for pr, x in pop.items() if pr[axis] == key)
    return out


def same_enum(x, name):
    return getattr(x, "name", None) == name


def run(c):
    from gerrychain import Partition
    from gerrychain.constraints import refuse_new_splits
    from gerrychain.updaters.locality_split_scores import LocalitySplits
    from gerrychain.updaters import county_splits, cut_edges, tally_region_splits
    from gerrychain.updaters.county_splits import CountySplit

    with hist.fresh_defaults():
        n = c["g"]["n"]
        name = LOCS[c["lockind"]]
        loc = [name(i) for i in c["loc"]]
        loc2 = ["R%d" % i for i in c["loc2"]]
        g, lab = gen.build_nx(c["g"], {"county": loc, "town": loc2, "pop": c["pop"]})
        k = max(c["plan"]) + 1
        plab = [gen.part_label(c["plabel"], j) for j in range(k)]
        locsp = LocalitySplits("ls", "county", "pop", list(c["scores"]), pent_alpha=c["alpha"])
        ups = {"cut_edges": cut_edges, "cs": county_splits("cs", "county"), "ts": county_splits("ts", "town"),
               "reg": tally_region_splits(["county", "town"]), "ls": locsp}
        first = Partition(g, {v: plab[c["plan"][i]] for i, v in enumerate(lab)}, ups, use_default_updaters=False)
        w = hist.World(c, first, lab, plab)
        other = None
        if c["second"]:
            # the same locality updater on another graph, whose localities are different
            locb = [name(i) for i in c["loc"][1:] + c["loc"][:1]]
            gb, _ = gen.build_nx(c["g"], {"county": locb, "town": loc2, "pop": c["pop"]})
            other = Partition(gb, {v: plab[c["plan"][i]] for i, v in enumerate(lab)}, dict(ups), use_default_updaters=False)
        unlinked = set()
        held = []
        refuse = refuse_new_splits("cs")
        seen_new = [False, False]

        def county(i, key, l):
            p, model = w.parts[i], w.models[i]
            got = p[key]
            now = split_map(l, model)
            before = split_map(l, w.models[w.parent[i]]) if w.parent[i] is not None else None
            check(set(got) == set(now), lambda: f"county_splits lists the counties {set(got)}, should be {set(now)}")
            for county in now:
                info = got[county]
                nodes = [lab[v] for v in range(n) if l[v] == county]
                check(len(info.nodes) == len(nodes) and set(info.nodes) == set(nodes), lambda: f"county {county!r} nodes {info.nodes}, should be {nodes}")
                want = {plab[d] for d in now[county]}
                check(set(info.contains) == want, lambda: f"county {county!r} contains {info.contains}, should be {want}; plan {model}")
                if len(want) == 1:
                    ok = {CountySplit.NOT_SPLIT}
                elif before is None or len(before[county]) > 1:
                    ok = {CountySplit.OLD_SPLIT}
                else:
                    ok = {CountySplit.NEW_SPLIT}
                    if i in unlinked:
                        ok.add(CountySplit.OLD_SPLIT)
                check(info.split in ok, lambda: f"county {county!r} is marked {info.split}, should be {ok}: plan {model}, before {before}")
                if ok == {CountySplit.NEW_SPLIT}:
                    seen_new[0] = True
            return got

        def verify(i, read):
            p, model = w.parts[i], w.models[i]
            if read in (None, 0):
                held.append((county(i, "cs", loc), i, "cs", loc))
                if i not in unlinked:
                    before = split_map(loc, w.models[w.parent[i]]) if w.parent[i] is not None else None
                    now = split_map(loc, model)
                    want = before is None or not any(len(now[x]) > 1 and len(before[x]) == 1 for x in now)
                    got = refuse(p)
                    check(bool(got) == want, lambda: f"refuse_new_splits says {got} on {model} after {before}")
            if read in (None, 1):
                county(i, "ts", loc2)
            if read in (None, 2):
                got = p["reg"]
                for key, l in (("county", loc), ("town", loc2)):
                    want = len({l[a] for a, b in c["g"]["edges"] if l[a] == l[b] and model[a] != model[b]})
                    check(got[key] == want, lambda: f"tally_region_splits {key}: {got[key]}, should be {want}; plan {model}, regions {l}")
                check(set(got) == {"county", "town"}, lambda: f"tally_region_splits reports {set(got)}")
            if read in (None, 3):
                got = p["ls"]
                judge(got, loc, model, "")
                held.append((got, i, "ls", loc))

        def judge(got, l, model, when):
            check(set(got) == set(c["scores"]), lambda: f"locality scores {set(got)}, asked for {c['scores']}")
            for s in c["scores"]:
                want = score(s, c, l, model, w.adj, c["alpha"])
                check(hist.close(got[s], want, 1.0), lambda: f"{s} = {got[s]}, should be {want}{when}: plan {model}, localities {l}, pop {c['pop']}, alpha {c['alpha']}")

        for op in c["ops"]:
            if op[0] in ("flip", "merge", "many"):
                w.flip(op)
            elif op[0] == "read":
                verify(w.pick(op[1]), op[2])
            elif op[0] == "readall":
                verify(w.pick(op[1]), None)
                if other is not None and op[2] % 2:
                    judge(LocalitySplits.__call__(locsp, other), locb, c["plan"], " (same updater on another graph)")
            elif op[0] == "unlink":
                i = w.pick(op[1])
                if w.parent[i] is not None:
                    w.parts[i].parent = None
                    unlinked.add(i)
        if c["second"]:
            bare = Partition(g, {v: plab[c["plan"][i]] for i, v in enumerate(lab)}, {"reg": tally_region_splits(["town"])}, use_default_updaters=False)
            try:
                got = bare["reg"]
            except ValueError:
                pass
            else:
                raise Violation(f"tally_region_splits without the cut_edges updater it documents as required gives {got}")
        order = list(range(len(w.parts)))
        for i in order if c["defer"] else reversed(order):
            verify(i, None)
        if other is not None:
            judge(other["ls"], locb, c["plan"], " (same updater on another graph)")
        for got, i, key, l in held:
            if key == "ls":
                judge(got, l, w.models[i], " (as reported earlier)")
            else:
                now = split_map(l, w.models[i])
                for x, info in got.items():
                    check(set(info.contains) == {plab[d] for d in now[x]}
                          and sorted(map(repr, info.nodes)) == sorted(repr(lab[v]) for v in range(n) if l[v] == x),
                          lambda: f"the split report of an earlier partition changed: {x!r} {info}")
        anysplit = any(len(s) > 1 for m in w.models for s in split_map(loc, m).values())
        return {"nt": anysplit and w.changed > 0, "tags": (["new-split"] if seen_new[0] else []) + (["emptied"] if w.emptied else [])}


def run_big(lc):
    rng, c = hist.big(lc, 4)
    n = c["g"]["n"]
    k = rng.choice([2, 10, 40])
    return run(dict(c, loc=[rng.randrange(k) for _ in range(n)] if rng.random() < 0.3 else gen.contiguous_plan(c["g"], min(k, n), rng), loc2=[rng.randrange(3) for _ in range(n)],
                    lockind=rng.choice(sorted(LOCS)), pop=[x * f for f in [rng.choice([1, 1, 1, 2**-10, 10**4])] for x in [rng.randrange(10) for _ in range(n - 1)] + [1]], alpha=rng.choice([0.05, 0.8, 0.5, 0.0, 1.0]),
                    scores=SCORES, second=rng.random() < 0.5, defer=rng.random() < 0.5))


SUBS = [Sub("histories", cases, run, 2600, 60000, 60),
        Sub("huge", lambda: hist.big_seeds(lo=300, hi=600, kmin=2, kmax=40, smin=2, smax=6), run_big, 8, 300, 200),
        Sub("big", lambda: hist.big_seeds(hi=100, kmax=20, smax=20), run_big, 64, 1500, 120)]
