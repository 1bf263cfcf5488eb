"""C12: flip-type proposals, spectral ReCom, and the cut-edge acceptance rule: moves and laws."""
import random
from collections import Counter
from fractions import Fraction

import numpy
from hypothesis import strategies as st

from vp import gen, hist, trees
from vp.harness import Skip, Sub, check

QUICK = 6  # the numbers of cases in SUBS, times this, in the quick tier
RULE = "a case is non-trivial when the plan has at least two districts and a cut edge"
ASSUMPTIONS = ["every district is non-empty; spectral ReCom: contiguous plans",
               "laws are tested statistically (exact probabilities, p < 1e-9, seed in the case)"]

PROPOSALS = ["random_flip", "flip_alias", "bi", "slow", "chunk", "every", "any"]


@st.composite
def cases(draw, lo=2, hi=10):
    spec = draw(gen.graphs(lo, hi, connected=draw(st.booleans())))
    n = spec["n"]
    m = len(spec["edges"])
    return {"g": spec, "plan": draw(hist.plans(spec, 2, 4)), "plabel": draw(st.sampled_from(gen.PARTS)),
            "proposal": draw(st.sampled_from(PROPOSALS)), "pre": draw(st.lists(st.integers(0, n - 1), max_size=2)),
            "seed": draw(gen.seeds), "w": draw(st.lists(st.integers(1, 9), min_size=m, max_size=m))}


def get(name):
    from gerrychain import proposals

    return {"random_flip": proposals.propose_random_flip, "flip_alias": proposals.flip,
            "bi": proposals.slow_reversible_propose_bi, "slow": proposals.slow_reversible_propose,
            "chunk": proposals.propose_chunk_flip, "every": proposals.propose_flip_every_district,
            "any": proposals.propose_any_node_flip}[name]


def setup(c):
    from gerrychain import Partition, updaters

    spec, n = c["g"], c["g"]["n"]
    k = max(c["plan"]) + 1
    plab = [gen.part_label(c["plabel"], j) for j in range(k)]
    g, lab = gen.build_nx(spec, {"x": list(range(n))}, {"weight": c["w"], "shared_perim": c["w"]})
    p = Partition(g, {v: plab[c["plan"][i]] for i, v in enumerate(lab)}, {"cut_edges_by_part": updaters.cut_edges_by_part})
    model = list(c["plan"])
    # a few flips first, so that the proposal starts from an incrementally updated state
    for v in c.get("pre", []):
        tgt = model[(v + 1) % n]
        m2 = list(model)
        m2[v] = tgt
        if len(set(m2)) == k:
            p, model = p.flip({lab[v]: plab[tgt]}), m2
    return g, lab, plab, p, model, k


def snap(g):
    return ({v: dict(d) for v, d in g.nodes(data=True)},
            {frozenset(e[:2]): {k: v for k, v in e[2].items() if k != "random_weight"} for e in g.edges(data=True)})


def law_of(name, model, spec, k):
    """{moves (frozenset of (node, part))}: probability, for the single-flip proposals"""
    edges = spec["edges"]
    n = spec["n"]
    cut = [(a, b) for a, b in edges if model[a] != model[b]]
    out = {}
    add = lambda mv, pr: out.__setitem__(mv, out.get(mv, 0) + pr)
    if name in ("random_flip", "flip_alias"):
        for a, b in cut:
            add((a, model[b]), Fraction(1, 2 * len(cut)))
            add((b, model[a]), Fraction(1, 2 * len(cut)))
    elif name == "bi":
        bn = sorted({v for e in cut for v in e})
        for v in bn:
            ds = sorted({model[b] if a == v else model[a] for a, b in cut if v in (a, b)})
            for d in ds:
                add((v, d), Fraction(1, len(bn) * len(ds)))
    elif name == "slow":
        prs = {(a, model[b]) for a, b in cut} | {(b, model[a]) for a, b in cut}
        for x in prs:
            add(x, Fraction(1, len(prs)))
    elif name == "any":
        for v in range(n):
            for d in range(k):
                add((v, d) if model[v] != d else "stay", Fraction(1, n * k))
    return out


def run_moves(c):
    with hist.fresh_defaults():
        g, lab, plab, p, model, k = setup(c)
        spec, n = c["g"], c["g"]["n"]
        before = snap(g)
        cut = [(a, b) for a, b in spec["edges"] if model[a] != model[b]]
        name = c["proposal"]
        if not cut and name not in ("random_flip", "flip_alias", "any", "every"):
            raise Skip("no cut edges")
        inv = {q: j for j, q in enumerate(plab)}
        fn = get(name)
        random.seed(c["seed"])
        adj = gen.adjacency(spec)
        law = law_of(name, model, spec, k)
        for _ in range(6):
            q = fn(p)
            new = [inv[q.assignment[v]] for v in lab]
            check([inv[p.assignment[v]] for v in lab] == model, "the proposal changed its parent")
            diff = {v: new[v] for v in range(n) if new[v] != model[v]}
            if not cut and name != "any":
                check(not diff, lambda: f"{name} changed {diff} without any cut edge")
                continue
            if law:
                check(len(diff) <= 1, lambda: f"{name} moved {diff}")
                mv = next(iter(diff.items())) if diff else "stay"
                check(mv in law, lambda: f"{name} made the move {mv}, possible are {sorted(map(str, law))}")
            elif name == "chunk":
                ok = False
                for v in {x for e in cut for x in e}:
                    if diff == {u: model[v] for u in adj[v] if model[u] != model[v]}:
                        ok = True
                check(ok, lambda: f"chunk flip changed {diff}: not the differing neighbours of a boundary node (plan {model})")
            elif name == "every":
                flips = {lab.index(v): inv[d] for v, d in q.flips.items()}
                check(all(flips.get(v) == d for v, d in diff.items()), "the flips do not explain the change")
                districts = {d for e in cut for d in (model[e[0]], model[e[1]])}
                check(len(flips) <= len(districts), lambda: f"{len(flips)} nodes flipped, {len(districts)} districts have a boundary")
                for v, d in flips.items():
                    check(any(model[u] == d for u in adj[v]) and model[v] != d,
                          lambda: f"node {v} was moved into district {d}, which it does not border")
                for d in districts:
                    check(any(v in flips for e in cut if d in (model[e[0]], model[e[1]]) for v in e),
                          lambda: f"no boundary flip for district {d}: {flips}")
            check(q is p or q.parent is p, "the proposal's parent is another partition")
        check(snap(g) == before, "graph data were changed")
        return {"nt": k > 1 and bool(cut), "tags": [name]}


def run_law(c, ndraw=2500):
    if c["proposal"] in ("chunk", "every"):
        return _law_chunk(c, ndraw)
    with hist.fresh_defaults():
        g, lab, plab, p, model, k = setup(c)
        law = law_of(c["proposal"], model, c["g"], k)
        if not law:
            raise Skip("no cut edges")
        inv = {q: j for j, q in enumerate(plab)}
        fn = get(c["proposal"])
        random.seed(c["seed"])
        counts = {}
        for _ in range(ndraw):
            q = fn(p)
            diff = [(v, inv[q.assignment[lab[v]]]) for v in range(c["g"]["n"]) if inv[q.assignment[lab[v]]] != model[v]]
            key = diff[0] if len(diff) == 1 else ("stay" if not diff else tuple(diff))
            counts[key] = counts.get(key, 0) + 1
        ok, msg = trees.law_ok(counts, law, ndraw)
        check(ok, lambda: f"{c['proposal']} on plan {model}, edges {c['g']['edges']}: {msg}")
        return {"nt": len(law) > 1, "tags": [c["proposal"]]}


# --- laws on larger graphs, judged on groups of moves
def run_biglaw(lc):
    rng, c = hist.big(lc, reads=False)
    if c["g"]["n"] < 3:
        raise Skip("tiny")
    c = {"g": c["g"], "plan": c["plan"], "plabel": c["plabel"], "proposal": rng.choice(["random_flip", "flip_alias", "bi", "slow", "any"]), "pre": [],
         "w": [1] * len(c["g"]["edges"])}
    with hist.fresh_defaults():
        g, lab, plab, p, model, k = setup(c)
        n = c["g"]["n"]
        law = law_of(c["proposal"], model, c["g"], k)
        if not law:
            raise Skip("no cut edges")
        inv = {q: j for j, q in enumerate(plab)}
        fn = get(c["proposal"])
        ndraw = min(5000, max(1500, 6 * len(law)))
        salts = [rng.random() for _ in range(3)]
        stay = lambda m: m == "stay"
        groups = [("new district", lambda m: "stay" if stay(m) else m[1]), ("old district", lambda m: "stay" if stay(m) else model[m[0]]),
                  ("move", lambda m: m), ("node, by position", lambda m: "stay" if stay(m) else m[0] * 10 // n)]
        groups += [(f"random halves {i}", lambda m, s=s: random.Random(f"{m}/{s}").random() < 0.5) for i, s in enumerate(salts)]
        random.seed(lc["seed"])
        seen = []
        for _ in range(ndraw):
            q = fn(p)
            if q.flips is not None and q is not p:
                new = {lab_i: inv[d] for lab_i, d in q.flips.items()}
                moves = [(v, d) for v, d in new.items()]
                check(len(moves) == 1, lambda: f"{c['proposal']} flipped {moves}")
                v = index_of(lab)[moves[0][0]]
                check(inv[q.assignment[lab[v]]] == moves[0][1], "the flips do not describe the new plan")
                seen.append((v, moves[0][1]) if model[v] != moves[0][1] else "stay")
            else:
                seen.append("stay")
        for name, f in groups:
            want, counts = {}, {}
            for m, pr in law.items():
                want[f(m)] = want.get(f(m), 0) + pr
            for m in seen:
                check(m in law, lambda: f"{c['proposal']} made the move {m}, which it should not")
                counts[f(m)] = counts.get(f(m), 0) + 1
            ok, msg = trees.law_ok(counts, want, ndraw, alpha=1e-12 if len(want) > 100 else 1e-10)
            check(ok, lambda: f"{c['proposal']} on a graph of {n} nodes, moves grouped by {name}: {msg}")
        return {"nt": len(law) > 100, "tags": [c["proposal"]]}


_index = {}


def index_of(lab):
    if _index.get("lab") is not lab:
        _index.update(lab=lab, d={v: i for i, v in enumerate(lab)})
    return _index["d"]


def _law_chunk(c, ndraw):
    with hist.fresh_defaults():
        g, lab, plab, p, model, k = setup(c)
        spec = c["g"]
        adj = gen.adjacency(spec)
        cut = [(a, b) for a, b in spec["edges"] if model[a] != model[b]]
        if not cut:
            raise Skip("no cut edges")
        if len(cut) > 12:
            raise Skip("many cut edges")
        inv = {q: j for j, q in enumerate(plab)}
        fn = get(c["proposal"])
        random.seed(c["seed"])
        seen = Counter()
        for _ in range(1500):
            q = fn(p)
            seen[frozenset((v, inv[q.assignment[lab[v]]]) for v in range(spec["n"]) if inv[q.assignment[lab[v]]] != model[v])] += 1
        ends = lambda es: [(a, model[b]) for a, b in es] + [(b, model[a]) for a, b in es]
        law = Counter()
        if c["proposal"] == "chunk":  # around a random end of a random cut edge
            for v, _ in ends(cut):
                law[frozenset((u, model[v]) for u in adj[v] if model[u] != model[v])] += Fraction(1, 2 * len(cut))
            counts = seen
        else:
            moves = {m for d in seen for m in d}
            want = set(ends(cut))
            check(moves == want, lambda: f"boundary flips seen {moves}, possible {want}")
            # for each district an independent random end of a random one of its cut edges: which nodes move
            law[frozenset()] = Fraction(1)
            for d in sorted({model[v] for e in cut for v in e}):
                draws = ends([e for e in cut if d in (model[e[0]], model[e[1]])])
                step = Counter()
                for old, pr in law.items():
                    for v, _ in draws:
                        step[old | {v}] += pr / len(draws)
                law = step
            counts = Counter()
            for d, x in seen.items():
                counts[frozenset(v for v, _ in d)] += x
        ok, msg = trees.law_ok(counts, dict(law), 1500)
        check(ok, lambda: f"{c['proposal']} on plan {model}, edges {spec['edges']}: {msg}")
        return {"nt": len(law) > 1, "tags": [c["proposal"]]}


# --- spectral ReCom
@st.composite
def spec_cases(draw):
    spec = draw(gen.graphs(2, 14))
    m = len(spec["edges"])
    return {"g": spec, "plan": draw(hist.plans(spec, 2, 4, contiguous=True)), "plabel": draw(st.sampled_from(gen.PARTS)),
            "wt": draw(st.sampled_from([None, "random"])), "lap": draw(st.sampled_from(["normalized", "standard"])),
            "w": draw(st.lists(st.integers(1, 9), min_size=m, max_size=m)), "seed": draw(gen.seeds), "steps": draw(st.integers(1, 3))}


def run_spec(c):
    from gerrychain.proposals import spectral_recom

    with hist.fresh_defaults():
        g, lab, plab, p, model, k = setup(c)
        spec, n = c["g"], c["g"]["n"]
        adj = gen.adjacency(spec)
        before = snap(g)
        inv = {q: j for j, q in enumerate(plab)}
        random.seed(c["seed"])
        moved = sharp = 0
        if k < 2:
            raise Skip("one district")
        for _ in range(c["steps"]):
            if any(not gen.is_conn([v for v in range(n) if model[v] in e], adj)
                   for e in {(model[a], model[b]) for a, b in spec["edges"] if model[a] != model[b]}):
                break  # merged regions must be connected
            q = spectral_recom(p, weight_type=c["wt"], lap_type=c["lap"])
            check([inv[p.assignment[v]] for v in lab] == model, "the proposal changed its parent")
            new = [inv[q.assignment[v]] for v in lab]
            check(set(new) == set(range(k)), lambda: f"districts {set(new)} after {model} -> {new}")
            pairs = {frozenset((model[a], model[b])) for a, b in spec["edges"] if model[a] != model[b]}
            diff = [v for v in range(n) if new[v] != model[v]]
            check(any({model[v] for v in diff} | {new[v] for v in diff} <= pr for pr in pairs),
                  lambda: f"{model} -> {new} is not a redraw of two adjacent districts")
            if c["wt"] is None:
                # the documented cut: the signs of the Fiedler vector of some two adjacent districts' subgraph
                cuts = [fiedler(c, model, pr) for pr in pairs if {model[v] for v in diff} <= pr]
                sharp += None not in cuts
                check(None in cuts or any({frozenset(v for v in range(n) if new[v] == j) for j in pr} == f for pr, f in cuts),
                      lambda: f"{model} -> {new} is not a split by the signs of the Fiedler vector; those are {cuts}")
            moved += bool(diff)
            p, model = q, new
        check(snap(g) == before, "graph data were changed")
        return {"nt": moved > 0, "tags": [str(c["wt"]), c["lap"]] + ["sharp"] * (sharp > 0)}


def fiedler(c, model, pair):
    """(pair, {side, other side}), or None if the signs are not clear"""
    nodes = [v for v in range(len(model)) if model[v] in pair]
    pos = {v: i for i, v in enumerate(nodes)}
    lap = numpy.zeros((len(nodes), len(nodes)))
    for (a, b), w in zip(c["g"]["edges"], c["w"]):
        if a in pos and b in pos:
            i, j = pos[a], pos[b]
            lap[i, j] -= w
            lap[j, i] -= w
            lap[i, i] += w
            lap[j, j] += w
    if c["lap"] == "normalized":
        d = numpy.sqrt(numpy.diag(lap))
        lap = lap / d[:, None] / d[None, :]
    val, vec = numpy.linalg.eigh(lap)
    f = vec[:, 1]
    if (len(val) > 2 and val[2] - val[1] < 1e-6 * val[-1]) or min(abs(f)) < 1e-6:
        return None
    return pair, {frozenset(v for v in nodes if f[pos[v]] > 0), frozenset(v for v in nodes if f[pos[v]] <= 0)}


@st.composite
def speclaw_cases(draw):
    spec = draw(gen.graphs(5, 14))
    m = len(spec["edges"])
    return {"g": spec, "plan": draw(hist.plans(spec, 3, 5, contiguous=True)), "plabel": draw(st.sampled_from(gen.PARTS)),
            "lap": draw(st.sampled_from(["normalized", "standard"])), "w": draw(st.lists(st.integers(1, 9), min_size=m, max_size=m)), "seed": draw(gen.seeds)}


def run_speclaw(c, ndraw=400):
    from gerrychain.proposals import spectral_recom

    with hist.fresh_defaults():
        g, lab, plab, p, model, k = setup(c)
        cuts = Counter(frozenset((model[a], model[b])) for a, b in c["g"]["edges"] if model[a] != model[b])
        law = Counter()
        key = lambda m: frozenset(frozenset(v for v in range(len(m)) if m[v] == j) for j in range(k))
        rest = lambda pr: frozenset(frozenset(v for v in range(len(model)) if model[v] == j) for j in range(k) if j not in pr)
        for pr, x in cuts.items():
            f = fiedler(c, model, pr)
            if f is None:
                raise Skip("the signs are not clear")
            law[rest(pr) | frozenset(f[1])] += Fraction(x, sum(cuts.values()))
        if len(cuts) < 2:
            raise Skip("one pair")
        inv = {q: j for j, q in enumerate(plab)}
        random.seed(c["seed"])
        counts = Counter()
        for _ in range(ndraw):
            q = spectral_recom(p, lap_type=c["lap"])
            counts[key([inv[q.assignment[v]] for v in lab])] += 1
        ok, msg = trees.law_ok(counts, dict(law), ndraw)
        check(ok, lambda: f"the pairs are not those of uniformly drawn cut edges {dict(cuts)}, split by the Fiedler vector: {msg}")
        return {"nt": len(law) > 1}


@st.composite
def widespec_cases(draw):
    c = draw(spec_cases())
    c["g"] = gen.big_spec(random.Random(c["seed"]), 20, draw(st.integers(21, 90)))
    m = len(c["g"]["edges"])
    rng = random.Random(c["seed"] + 1)
    top = draw(st.sampled_from([1, 1, 9]))
    return dict(c, plan=draw(hist.plans(c["g"], 2, 8, contiguous=True)), w=[rng.randint(1, top) for _ in range(m)])


# --- cut-edge acceptance
@st.composite
def acc_cases(draw):
    spec = draw(gen.graphs(3, 10, connected=draw(st.integers(0, 3)) > 0))
    n = spec["n"]
    return {"g": spec, "plan": draw(hist.plans(spec, 2, 3)), "plabel": "zero", "w": [1] * len(spec["edges"]), "merge": draw(st.integers(0, 4)) == 0,
            "flip": [list(x) for x in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, 2)), min_size=1, max_size=draw(st.sampled_from([2, 4, 12]))))],
            "seed": draw(gen.seeds), "root": draw(st.sampled_from([False] * 7 + [True]))}


def run_acc(c, ndraw=2500):
    from gerrychain.accept import always_accept, cut_edge_accept

    with hist.fresh_defaults():
        g, lab, plab, p, model, k = setup(c)
        ncut = lambda m: sum(1 for a, b in c["g"]["edges"] if m[a] != m[b])
        random.seed(c["seed"])
        if c["root"]:
            check(all(bool(cut_edge_accept(p)) for _ in range(50)), "a state without a parent was rejected")
            return {"nt": False}
        if c.get("merge"):  # a state without cut edges
            p, model = p.flip({v: plab[0] for v in lab}), [0] * len(model)
        new = list(model)
        for v, d in c["flip"]:
            new[v] = d % k
        q = p.flip({lab[v]: plab[d % k] for v, d in c["flip"]})
        a, b = ncut(model), ncut(new)
        prob = Fraction(1) if b == 0 else min(Fraction(1), Fraction(a, b))
        n = 200 if prob == 1 else ndraw
        hits = sum(bool(cut_edge_accept(q)) for _ in range(n))
        if prob in (0, 1):
            check(hits == n * prob, lambda: f"{a} -> {b} cut edges: accepted {hits} of {n}")
        else:
            pv = trees.binom_p(hits, n, prob)
            check(pv > 1e-10, lambda: f"{a} -> {b} cut edges: accepted {hits} of {n}, probability {float(prob):.3f}")
        check(always_accept(q) is True, "always_accept")
        return {"nt": 0 < prob < 1}


def run_big(lc):
    rng, c = hist.big(lc, reads=False)
    if c["g"]["n"] < 3:
        raise Skip
    return run_moves({"g": c["g"], "plan": c["plan"], "plabel": c["plabel"], "proposal": rng.choice(PROPOSALS), "pre": [rng.randrange(c["g"]["n"]) for _ in range(rng.randrange(20))],
                      "seed": lc["seed"], "w": [rng.randint(1, 9) for _ in c["g"]["edges"]]})


SUBS = [
    Sub("moves", cases, run_moves, quick=3000, thorough=80000, rule="six moves of each proposal per plan"),
    Sub("hugemoves", lambda: hist.big_seeds(lo=300, hi=1000, kmin=2, kmax=60, smin=2, smax=8), run_big, quick=8, thorough=300, timeout=200, rule="the same on graphs of up to 1000 nodes"),
    Sub("bigmoves", lambda: hist.big_seeds(hi=120, kmax=24), run_big, quick=160, thorough=4000, rule="the same on graphs of up to 130 nodes, 24 districts"),
    Sub("law", lambda: cases(2, 7), run_law, quick=96, thorough=2400, timeout=300, rule="2500 draws per plan against the exact law"),
    Sub("biglaw", lambda: hist.big_seeds(lo=60, hi=600, kmin=2, kmax=40, smin=1, smax=2), run_biglaw, quick=24, thorough=800, timeout=300, rule="1500-5000 draws on graphs of up to 600 nodes, grouped moves"),
    Sub("spectral", spec_cases, run_spec, quick=800, thorough=20000, rule="spectral ReCom steps"),
    Sub("widespectral", widespec_cases, run_spec, quick=100, thorough=3000, rule="spectral ReCom steps on graphs of up to 90 nodes"),
    Sub("spectrallaw", speclaw_cases, run_speclaw, quick=40, thorough=1000, timeout=200, rule="400 draws per plan of spectral ReCom against the exact law"),
    Sub("accept", acc_cases, run_acc, quick=160, thorough=4000, rule="2500 draws of the acceptance; non-trivial if its probability is inside (0, 1)"),
]
