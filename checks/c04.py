"""C04: contiguity constraints against a plain search, over generated histories."""
import copy
import random

from hypothesis import strategies as st

from vp import gen, hist
from vp.harness import Sub, check

RULE = "a case is non-trivial when some judged state is contiguous and some judged state is not, or a flipped state is judged"
ASSUMPTIONS = ["contiguity of a flipped state is claimed only when its linked parent is contiguous",
               "single-flip contiguity is claimed for roots and for one node moved to a neighbouring, different district"]


@st.composite
def cases(draw):
    c = draw(hist.histories(lo=1, hi=10, kmax=4, max_ops=8))
    c["use"] = draw(st.sampled_from(["contig_walk", "any"]))
    return c


def conn_parts(model, k, adj):
    out = {}
    for j in range(k):
        nodes = [v for v in range(len(model)) if model[v] == j]
        out[j] = gen.components(nodes, adj)
    return out


def judge(w, i, stats):
    from gerrychain.constraints import contiguity as con

    p, model = w.parts[i], w.models[i]
    comps = conn_parts(model, w.k, w.adj)
    good = all(len(cs) == 1 for cs in comps.values())
    ncon = sum(1 for cs in comps.values() if len(cs) == 1)
    par = w.parent[i] if w.linked[i] else None
    if par is not None:
        pc = conn_parts(w.models[par], w.k, w.adj)
        in_domain = all(len(cs) == 1 for cs in pc.values())
    else:
        # without a parent; parts that do not exist any more are unknown to the partition only if it never had them
        in_domain = True
    if in_domain:
        for name, fn in (("contiguous", con.contiguous), ("contiguous_bfs", con.contiguous_bfs)):
            got = fn(p)
            check(bool(got) == good, lambda: f"{name} says {got} for model {model}, components {comps}, parent "
                  f"{None if par is None else w.models[par]}")
            check(got is True or got is False, f"{name} returned a non-boolean")
        stats.append(good)
        fl = w.flipmaps[i]
        single = par is not None and len(fl) == 1
        if single:
            (v, q), = fl.items()
            old = w.models[par][v]
            single = q != old and any(w.models[par][u] == q for u in w.adj[v])
        if par is None or single:
            for _ in range(2):
                got = con.single_flip_contiguous(p)
                check(bool(got) == good, lambda: f"single_flip_contiguous says {got} for model {model}, "
                      f"components {comps}, parent {None if par is None else w.models[par]}")
    got = con.number_of_contiguous_parts(p)
    check(got == ncon, lambda: f"number_of_contiguous_parts {got}, want {ncon} for {model}")
    cc = con.contiguous_components(p)
    for j, cs in comps.items():
        have = cc.get(w.plab[j], [])
        sets = [frozenset(s.nodes) for s in have]
        want = {frozenset(w.lab[v] for v in comp) for comp in cs}
        check(set(sets) == want and len(sets) == len(want), lambda: f"components of part {j}: {sets}, want {want}")
        for s, nodes in zip(have, sets):
            idx = {w.lab[v]: v for v in range(w.n)}
            ind = {frozenset((a, b)) for a in nodes for b in nodes if a != b and idx[b] in w.adj[idx[a]]}
            check({frozenset(e) for e in s.edges} == ind, "component subgraph edges differ")
    check(set(cc) <= set(w.plab), "unknown parts in contiguous_components")
    return ncon


def start(c):
    from gerrychain import Partition

    g, lab = gen.build_nx(c["g"])
    k = max(c["plan"]) + 1
    plab = [gen.part_label(c["plabel"], j) for j in range(k)]
    first = Partition(g, {v: plab[c["plan"][i]] for i, v in enumerate(lab)})
    w = hist.World(c, first, lab, plab)
    w.linked, w.flipmaps = [False], [None]
    return w


def run(c):
    from gerrychain.constraints import contiguity as con

    with hist.fresh_defaults():
        w = start(c)
        stats = []
        limit = copy.deepcopy(con.no_more_discontiguous)
        base = judge(w, 0, stats)
        check(bool(limit(w.parts[0])) is True, "no_more_discontiguous refuses the first state it sees")
        for op in c["ops"]:
            if op[0] in ("read", "readall"):
                i = w.pick(op[1])
            elif op[0] == "unlink":
                i = w.pick(op[1])
                w.parts[i].parent = None
                w.linked[i] = False
            else:
                i, fl = w.flips_of(op)
                w.do(i, fl)
                w.linked.append(True)
                w.flipmaps.append(fl)
                i = len(w.parts) - 1
            n = judge(w, i, stats)
            got = limit(w.parts[i])
            check(bool(got) == (n >= base), lambda: f"no_more_discontiguous {got}: {n} contiguous parts, started with {base}")
        return {"nt": len(w.parts) > 1 and w.changed > 0,
                "tags": (["contiguous"] if any(stats) else []) + (["discontiguous"] if not all(stats) else [])
                + (["emptied part"] if w.emptied else [])}


# --- every single flip of a contiguous plan, and walks along them
@st.composite
def flip_cases(draw):
    spec = draw(gen.graphs(3, 14))
    return {"g": spec, "plan": draw(hist.plans(spec, 2, 4, contiguous=True)), "plabel": draw(st.sampled_from(gen.PARTS)),
            "seed": draw(gen.seeds), "steps": draw(st.integers(1, 4))}


@st.composite
def big_flip_cases(draw):
    a, b = draw(st.integers(3, 8)), draw(st.integers(3, 8))
    n = a * b
    spec = {"n": n, "edges": [[i, i + 1] for i in range(n) if (i + 1) % b] + [[i, i + b] for i in range(n - b)],
            "label": draw(st.sampled_from(["int", "tuple", "str", "scram"])), "order": draw(st.integers(0, 3))}
    return {"g": spec, "plan": draw(hist.plans(spec, 2, 6, contiguous=True)), "plabel": draw(st.sampled_from(gen.PARTS)),
            "seed": draw(gen.seeds), "steps": draw(st.integers(2, 12))}


def run_flips(c):
    with hist.fresh_defaults():
        w = start(c)
        rng = random.Random(c["seed"])
        random.seed(c["seed"])
        stats = []
        cur = 0
        for _ in range(c["steps"]):
            m = w.models[cur]
            moves = [(v, q) for v in range(w.n) for q in sorted({m[u] for u in w.adj[v]} - {m[v]})]
            rng.shuffle(moves)
            nxt = None
            for v, q in moves[:24]:
                w.do(cur, {v: q})
                w.linked.append(True)
                w.flipmaps.append({v: q})
                i = len(w.parts) - 1
                before = len(stats)
                judge(w, i, stats)
                if stats[before]:
                    nxt = i
            if nxt is None:
                break
            cur = nxt
        return {"nt": any(stats) and not all(stats), "tags": ["contiguous"] * any(stats)}


def run_big(lc):
    return run(hist.big(lc, contiguous=True)[1])


def run_bigwalk(lc):
    rng, c = hist.big(lc, contiguous=True)
    return run_flips(dict(c, seed=lc["seed"], steps=min(lc["steps"], 8)))


SUBS = [
    Sub("history", cases, run, quick=3000, thorough=80000, rule="arbitrary flips, unlinked parents, empty districts"),
    Sub("flips", flip_cases, run_flips, quick=1200, thorough=30000, rule="up to 24 single flips of each plan of a walk"),
    Sub("bigflips", big_flip_cases, run_flips, quick=160, thorough=4000, rule="the same on grids up to 8x8"),
    Sub("huge", lambda: hist.big_seeds(lo=300, hi=1000, kmin=2, kmax=60, smin=2, smax=6), run_big, quick=16, thorough=300, timeout=200, rule="histories on graphs of up to 1000 nodes, 60 districts"),
    Sub("big", lambda: hist.big_seeds(hi=120, kmax=20, smax=20), run_big, quick=64, thorough=1500, rule="histories on graphs of up to 130 nodes, 20 districts"),
    Sub("bigwalk", lambda: hist.big_seeds(hi=150, kmax=12), run_bigwalk, quick=64, thorough=1500, rule="single flips on graphs of up to 160 nodes"),
]
