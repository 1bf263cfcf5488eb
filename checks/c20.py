"""C20: metagraph neighbours and diversity statistics against brute force."""
import random
from collections import Counter

from hypothesis import strategies as st

from vp import gen, hist
from vp.harness import Sub, check

QUICK = 4  # the numbers of cases in SUBS, times this, in the quick tier
RULE = "metagraph: some flips are valid and some are not, or a node borders two other districts; diversity: a plan or district recurs"
ASSUMPTIONS = ["diversity is judged on contiguous plans of connected graphs (the documentation identifies a plan by its cut edges)"]


@st.composite
def meta_cases(draw):
    c = draw(hist.histories(lo=2, hi=9, kmax=4, max_ops=3, nkeys=1, reads=False))
    c["con"] = draw(st.sampled_from(["none", "mod", "mod", "contiguous", "size", "two", "emptylist", "validator"]))
    c["m"] = draw(st.sampled_from([2, 3, 4]))
    c["form"] = draw(st.sampled_from(["callable", "list", "tuple", "generator"]))
    return c


def run_meta(c):
    from gerrychain import Partition
    from gerrychain.constraints import Validator, contiguous
    from gerrychain.metagraph import all_cut_edge_flips, all_valid_flips, all_valid_states_one_flip_away, metagraph_degree
    from gerrychain.updaters import cut_edges

    with hist.fresh_defaults():
        g, lab = gen.build_nx(c["g"])
        n, k = c["g"]["n"], max(c["plan"]) + 1
        plab = [gen.part_label(c["plabel"], j) for j in range(k)]
        inv = {p: j for j, p in enumerate(plab)}
        idx = {v: i for i, v in enumerate(lab)}
        p0 = Partition(g, {lab[i]: plab[c["plan"][i]] for i in range(n)}, {"cut_edges": cut_edges}, use_default_updaters=False)
        w = hist.World(c, p0, lab, plab)
        for op in c["ops"]:
            w.flip(op)
        read = lambda p: tuple(inv[p.assignment[v]] for v in lab)
        conn = lambda m: all(gen.is_conn([i for i in range(n) if m[i] == q], w.adj) for q in set(m))
        mod = lambda m: sum((i + 1) * (q + 1) for i, q in enumerate(m)) % c["m"] != 0
        size = lambda m: min(Counter(m).values()) * 2 >= max(Counter(m).values())
        tests = {"none": [], "mod": [mod], "contiguous": [conn], "size": [size], "two": [mod, size], "emptylist": [], "validator": [mod]}[c["con"]]
        real = {"contiguous": [contiguous]}.get(c["con"]) or [(lambda p, t=t: t(read(p))) for t in tests]

        def constraints():
            if c["con"] == "validator":
                return Validator(real)
            if c["con"] == "none":
                return lambda p: True
            if c["form"] == "callable" and len(real) == 1:
                return real[0]
            return {"list": list(real), "tuple": tuple(real), "callable": list(real), "generator": (f for f in real)}[c["form"]]

        some = False
        for p, m in {id(w.parts[i]): (w.parts[i], tuple(w.models[i])) for i in (0, len(w.parts) - 1)}.values():
            moves = {(v, m[u]) for v in range(n) for u in w.adj[v] if m[u] != m[v]}
            after = lambda v, q: m[:v] + (q,) + m[v + 1:]
            if c["con"] == "contiguous" and (not conn(m) or any(len(set(after(v, q))) < len(set(m)) for v, q in moves)):
                # the constraint judges the districts that changed (so the plan itself must be contiguous), and
                # whether a district that vanishes is contiguous is C04's question
                moves_ok = None
            else:
                moves_ok = {mv for mv in moves if all(t(after(*mv)) for t in tests)}
            got = [tuple(sorted((idx[v], inv[q]) for v, q in f.items())) for f in all_cut_edge_flips(p)]
            check(Counter(got) == Counter([((v, q),) for v, q in moves]), lambda: f"cut-edge flips {sorted(got)}, should be {sorted(moves)}; plan {m}")
            if moves_ok is None:
                continue
            states = list(all_valid_states_one_flip_away(p, constraints()))
            want = Counter(after(*mv) for mv in moves_ok)
            check(Counter(read(s) for s in states) == want, lambda: f"states one flip away of {m} ({c['con']}): {sorted(read(s) for s in states)}, should be {sorted(want)}")
            flips = list(all_valid_flips(p, constraints()))
            check(Counter(tuple(sorted((idx[v], inv[q]) for v, q in f.items())) for f in flips) == Counter([((v, q),) for v, q in moves_ok]),
                  lambda: f"valid flips {flips}, should be {sorted(moves_ok)}; plan {m}")
            for f in flips:
                check(read(p.flip(f)) in want, "a valid flip leads to a state that is not listed")
            deg = metagraph_degree(p, constraints())
            check(deg == len(moves_ok), lambda: f"metagraph_degree {deg}, should be {len(moves_ok)}; plan {m}")
            check(read(p) == m, "enumerating the neighbours changed the plan")
            some |= 0 < len(moves_ok) < len(moves) or len(moves) > len({v for v, q in moves})
        return {"nt": some, "tags": [c["con"]]}


@st.composite
def div_cases(draw):
    loose = draw(st.sampled_from([False, False, True]))  # districts need not be connected, nor the graph
    spec = draw(gen.graphs(2, 9, connected=not loose or draw(st.booleans())))
    return {"g": spec, "plan": draw(hist.plans(spec, 1, 4, contiguous=None if loose else True)), "loose": loose, "seed": draw(gen.seeds), "steps": draw(st.integers(1, 14)),
            "plabel": draw(st.sampled_from(gen.PARTS)), "kind": draw(st.sampled_from(["walk", "walk", "chain", "jump", "thin"])), "lazy": draw(st.booleans()),
            "before": draw(st.integers(0, 2))}


def run_div(c):
    from gerrychain import MarkovChain, Partition
    from gerrychain.accept import always_accept
    from gerrychain.constraints import single_flip_contiguous
    from gerrychain.meta.diversity import collect_diversity_stats
    from gerrychain.updaters import cut_edges

    with hist.fresh_defaults():
        g, lab = gen.build_nx(c["g"])
        n, k = c["g"]["n"], max(c["plan"]) + 1
        adj = gen.adjacency(c["g"])
        plab = [gen.part_label(c["plabel"], j) for j in range(k)]
        inv = {p: j for j, p in enumerate(plab)}
        rng = random.Random(c["seed"])
        make = lambda m: Partition(g, {lab[i]: plab[m[i]] for i in range(n)}, {"cut_edges": cut_edges}, use_default_updaters=False)
        read = lambda p: [inv[p.assignment[v]] for v in lab]
        p0 = make(c["plan"])

        def proposal(p):
            m = read(p)
            if c.get("loose"):
                opts = [(v, q) for v in range(n) if m.count(m[v]) > 1 for q in range(k) if q != m[v]]
            else:
                opts = [(v, m[u]) for v in range(n) for u in sorted(adj[v]) if m[u] != m[v]
                    and gen.is_conn([i for i in range(n) if m[i] == m[v] and i != v], adj)]
            if not opts:
                return p.flip({})
            v, q = rng.choice(opts)
            return p.flip({lab[v]: plab[q]})

        for _ in range(c["before"]):  # the first state may have a history
            p0 = proposal(p0)

        def source():
            p = p0
            for _ in range(c["steps"]):
                made.append(p)
                yield p
                if c["kind"] == "jump":
                    m = gen.contiguous_plan(c["g"], k, rng) if rng.random() < 0.5 and not c.get("loose") else read(p)
                    if c.get("loose") and rng.random() < 0.5:
                        rng.shuffle(m)
                    perm = list(range(k))
                    rng.shuffle(perm)  # the same districts under other names
                    p = make([perm[q] for q in m])
                else:
                    for _ in range(rng.randint(1, 3) if c["kind"] == "thin" else 1):
                        p = proposal(p)

        made = []
        if c["kind"] == "chain":
            class Chain:
                def __init__(self):
                    self.inner = iter(MarkovChain(proposal, lambda p: True, lambda p: rng.random() < 0.7, p0, c["steps"]))

                def __iter__(self):
                    return self

                def __next__(self):
                    p = next(self.inner)
                    made.append(p)
                    return p

            chain = Chain()
        else:
            chain = source()
        if not c["lazy"]:
            chain = list(chain)
        plans, dists, recur = set(), set(), False
        count = 0
        for p, s in collect_diversity_stats(chain):
            check(p is made[count], lambda: f"item {count} is not the chain's")
            count += 1
            m = read(p)
            groups = frozenset(frozenset(i for i in range(n) if m[i] == q) for q in set(m))
            recur |= groups in plans or bool(groups & dists)
            plans.add(groups)
            dists |= groups
            got = (s.steps_taken, s.unique_plans, s.unique_districts)
            check(got == (count, len(plans), len(dists)), lambda: f"after {count} plans: (steps, plans, districts) = {got}, should be {(count, len(plans), len(dists))}; plan {m}")
        check(count == c["steps"], lambda: f"{count} of {c['steps']} states")
        return {"nt": recur and len(plans) > 1, "tags": [c["kind"]]}


def run_bigmeta(lc):
    rng, c = hist.big(lc, reads=False)
    return run_meta(dict(c, con=rng.choice(["none", "mod", "contiguous", "two", "validator"]), m=rng.choice([2, 3]), form=rng.choice(["callable", "list"]), ops=c["ops"][:3]))


def run_bigdiv(lc):
    rng, c = hist.big(lc, contiguous=True)
    return run_div(dict(c, seed=lc["seed"], steps=lc["steps"], kind=rng.choice(["walk", "chain", "jump", "thin"]), before=rng.randrange(3), lazy=rng.random() < 0.5))


SUBS = [
    Sub("metagraph", meta_cases, run_meta, 3000, 60000, 60),
    Sub("diversity", div_cases, run_div, 2000, 50000, 60),
    Sub("bigmeta", lambda: hist.big_seeds(hi=50, kmax=12), run_bigmeta, 64, 1500, 120),
    Sub("bigdiv", lambda: hist.big_seeds(hi=40, kmax=10, smin=40, smax=200), run_bigdiv, 64, 1500, 120),
]
