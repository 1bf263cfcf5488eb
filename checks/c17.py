"""C17: grids and compactness scores against plane geometry counted on unit squares, over flip histories."""
import copy
import math

from hypothesis import strategies as st

from vp import gen, hist
from vp.harness import Sub, check

QUICK = 3  # the numbers of cases in SUBS, times this, in the quick tier
RULE = "grids: at least two rows or columns, two districts and a moved square; scores: at least two districts"
ASSUMPTIONS = ["the default plan is the quadrant plan (column half plus twice the row half, counted by halves rounded down)",
               "a district that became empty is left out, or has zero area and perimeter"]


@st.composite
def cases(draw):
    size = [1, 2, 2, 3, 3, 4, 5, 6]
    m, n = draw(st.sampled_from(size)), draw(st.sampled_from(size))
    default = draw(st.sampled_from([True, False, False]))
    k = draw(st.integers(1, 4))
    plan = None if default else draw(st.lists(st.integers(0, k - 1), min_size=m * n, max_size=m * n))
    node = st.integers(0, m * n - 1)
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("flip"), st.integers(0, 2), st.lists(st.tuples(node, st.integers(0, 3)), min_size=1, max_size=4)),
        st.tuples(st.just("flip"), st.just(0), st.lists(st.tuples(node, st.integers(0, 3)), min_size=1, max_size=1)),
        st.tuples(st.just("read"), st.integers(0, 2), st.integers(0, 8)),
        st.tuples(st.just("readall"), st.integers(0, 2))).map(hist.jsonable), max_size=8))
    return {"m": m, "n": n, "diag": draw(st.booleans()), "plan": plan, "ops": ops, "plabel": draw(st.sampled_from(["zero", "one", "str", "gap"])),
            "up": draw(st.sampled_from(["none", "none", "new", "override", "both"])), "rev": draw(st.booleans())}


KEYS = ["population", "area", "cut_edges", "interior_boundaries", "exterior_boundaries", "perimeter", "boundary_nodes",
        "polsby_popper", "cut_edges_by_part"]


class Plane:
    def __init__(self, m, n, diag):
        self.m, self.n = m, n
        self.nodes = [(i, j) for i in range(m) for j in range(n)]
        self.rook = {frozenset(((i, j), (i + a, j + b))) for i, j in self.nodes for a, b in ((1, 0), (0, 1)) if i + a < m and j + b < n}
        self.dia = {frozenset(((i, j), (i + 1, j + b))) for i, j in self.nodes for b in (1, -1) if i + 1 < m and 0 <= j + b < n} if diag else set()
        self.edges = self.rook | self.dia

    def sides(self, v):
        """neighbouring positions across the four sides; None outside the grid"""
        i, j = v
        return [(a, b) if 0 <= a < self.m and 0 <= b < self.n else None for a, b in ((i - 1, j), (i + 1, j), (i, j - 1), (i, j + 1))]

    def measure(self, plan, part):
        mine = [v for v in self.nodes if plan[v] == part]
        inner = outer = 0
        for v in mine:
            for w in self.sides(v):
                if w is None:
                    outer += 1
                elif plan[w] != part:
                    inner += 1
        return len(mine), inner, outer


def verify(p, plan, plane, keys, mult):
    live = set(plan.values())
    cut = {e for e in plane.edges if len({plan[v] for v in e}) == 2}
    near = lambda key, part, want: check(hist.close(p[key][part], want), lambda: f"{key}[{part!r}] = {p[key][part]}, should be {want}; plan {plan}")
    for key in keys:
        if key == "cut_edges":
            got = [frozenset(e) for e in p["cut_edges"]]
            check(set(got) == cut and len(got) == len(cut), lambda: f"cut_edges {got}, should be {cut}; plan {plan}")
        elif key == "boundary_nodes":
            want = {v for v in plane.nodes if None in plane.sides(v)}
            check(set(p[key]) == want, lambda: f"boundary_nodes {p[key]}, should be {want}")
        else:
            for part in live:
                size, inner, outer = plane.measure(plan, part)
                if key == "cut_edges_by_part":
                    got = {frozenset(e) for e in p[key][part]}
                    want = {e for e in cut if part in {plan[v] for v in e}}
                    check(got == want, lambda: f"cut_edges_by_part[{part!r}] = {got}, should be {want}")
                elif key == "interior_boundaries":
                    near(key, part, inner)
                elif key == "exterior_boundaries":
                    got = p[key].get(part, 0)
                    check(hist.close(got, outer), lambda: f"exterior_boundaries[{part!r}] = {got}, should be {outer}; plan {plan}")
                elif key == "perimeter":
                    near(key, part, inner + outer)
                elif key == "polsby_popper":
                    near(key, part, 4 * math.pi * size / (inner + outer) ** 2)
                elif key == "area":
                    near(key, part, size)
                else:
                    near(key, part, size * mult)
            extra = set(p[key]) - live
            check(all(hist.freeze(p[key][q]) in (0, ("s", frozenset())) or p[key][q] != p[key][q] or not p[key][q] for q in extra),
                  lambda: f"{key} of districts that do not exist: {dict(p[key])}, plan {plan}")


def norms(p, scores):
    from gerrychain import constraints as C

    vals = list(scores)
    for f, want in ((C.L1_polsby_popper, sum(vals)), (C.L1_reciprocal_polsby_popper, sum(1 / v for v in vals)),
                    (C.L2_polsby_popper, math.sqrt(sum(v * v for v in vals))), (C.L_minus_1_polsby_popper, len(vals) / sum(1 / v for v in vals))):
        got = f(p)
        check(hist.close(got, want), lambda: f"{f.__name__} = {got}, should be {want}, of {vals}")


def run_grid(c):
    from gerrychain.grid import Grid
    from gerrychain.updaters import Tally

    with hist.fresh_defaults():
        m, n = c["m"], c["n"]
        plane = Plane(m, n, c["diag"])
        if c["plan"] is None:
            plan = {(i, j): (0 if i < m // 2 else 1) + (0 if j < n // 2 else 2) for i, j in plane.nodes}
            labels = sorted(set(plan.values()))
        else:
            labels = [gen.part_label(c["plabel"], q) for q in range(max(4, max(c["plan"]) + 1))]
            plan = {v: labels[c["plan"][q]] for q, v in enumerate(plane.nodes)}
            labels = sorted(set(plan.values()), key=repr)
        kw = {}
        mult = 1
        if c["up"] != "none":
            ups = {}
            if c["up"] in ("new", "both"):
                ups["squares"] = lambda p: {q: len(s) for q, s in p.parts.items()}
            if c["up"] in ("override", "both"):
                ups["population"] = lambda p: {q: 7 * len(s) for q, s in p.parts.items()}
                mult = 7
            kw["updaters"] = ups
            given = dict(ups)
        if c["plan"] is not None:
            kw["assignment"] = dict(plan)
        g = Grid((m, n), with_diagonals=c["diag"], **kw)
        if c["up"] != "none":
            check(ups == given, "the dict of updaters was changed")
        check(set(g.graph.nodes) == set(plane.nodes), lambda: f"nodes {set(g.graph.nodes)}")
        check({frozenset(e) for e in g.graph.edges} == plane.edges, lambda: f"edges {list(g.graph.edges)}")
        for v in plane.nodes:
            d = g.graph.nodes[v]
            outer = plane.sides(v).count(None)
            check(d["area"] == 1 and d["population"] == 1, lambda: f"square {v}: {d}")
            check(bool(d["boundary_node"]) == (outer > 0) and d.get("boundary_perim", 0) == outer, lambda: f"square {v}: {d}, has {outer} outer sides")
        for e in plane.edges:
            got = g.graph.edges[tuple(e)]["shared_perim"]
            check(got == (1 if e in plane.rook else 0), lambda: f"edge {set(e)} has shared_perim {got}")
        check({v: g.assignment[v] for v in plane.nodes} == plan, lambda: f"the first plan is {dict(g.assignment.items())}, should be {plan}")
        states = [(g, plan)]
        moved = False
        for op in c["ops"]:
            i = max(0, len(states) - 1 - op[1])
            p, pl = states[i]
            if op[0] == "flip":
                fl = {plane.nodes[v]: labels[q % len(labels)] for v, q in op[2]}
                moved |= any(pl[v] != q for v, q in fl.items())
                states.append((p.flip(fl), {**pl, **fl}))
            else:
                verify(p, pl, plane, KEYS if op[0] == "readall" else [KEYS[op[2]]], mult)
        for p, pl in reversed(states) if c["rev"] else states:
            verify(p, pl, plane, KEYS, mult)
            if c["up"] in ("new", "both"):
                check({q: x for q, x in p["squares"].items() if x} == {q: list(pl.values()).count(q) for q in set(pl.values())}, "the user's updater")
            live = set(pl.values())
            if live == set(labels):
                norms(p, [4 * math.pi * plane.measure(pl, q)[0] / sum(plane.measure(pl, q)[1:]) ** 2 for q in live])
            check({v: p.assignment[v] for v in plane.nodes} == pl and isinstance(p, Grid) and tuple(p.dimensions) == (m, n), "the plan or dimensions of a state")
            rows = p.as_list_of_lists()
            check(sorted(repr(x) for r in rows for x in r) == sorted(map(repr, pl.values())), "as_list_of_lists lists other squares")
            str(p), repr(p)
        return {"nt": m * n > 1 and len(labels) > 1 and moved, "tags": ["diag" if c["diag"] else "rook", "thin" if 1 in (m, n) else "thick", "default" if c["plan"] is None else "given"]}


@st.composite
def score_cases(draw):
    spec = draw(gen.graphs(2, 8))
    n = spec["n"]
    q = st.integers(1, 80).map(lambda i: i / 8)
    return {"g": spec, "plan": draw(hist.plans(spec, 1, 4)), "area": draw(st.lists(q, min_size=n, max_size=n)),
            "bp": draw(st.lists(q, min_size=n, max_size=n)), "bn": draw(st.lists(st.booleans(), min_size=n, max_size=n)),
            "sp": draw(st.lists(q, min_size=len(spec["edges"]), max_size=len(spec["edges"]))),
            "moves": draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, 3)).map(list), min_size=2, max_size=6)),
            "alias": draw(st.booleans())}


def run_scores(c):
    """Any areas and lengths: Polsby-Popper, its norms, and the two self-configuring bounds on them, along a run."""
    import gerrychain.constraints as C
    from gerrychain import GeographicPartition
    from gerrychain.constraints.bounds import SelfConfiguringLowerBound, SelfConfiguringUpperBound
    from gerrychain.metrics import polsby_popper

    with hist.fresh_defaults():
        g, lab = gen.build_nx(c["g"], {"area": c["area"], "boundary_node": c["bn"], "boundary_perim": c["bp"]}, {"shared_perim": c["sp"]})
        n = c["g"]["n"]
        p = GeographicPartition(g, {lab[i]: c["plan"][i] for i in range(n)}, {"polsby_popper": polsby_popper})
        k = max(c["plan"]) + 1
        model = list(c["plan"])
        states = [(p, list(model))]
        for v, q in c["moves"]:
            new = list(model)
            new[v] = q % k
            if len(set(new)) < k:
                continue
            model = new
            p = p.flip({lab[v]: q % k})
            states.append((p, model))
        # fresh copies of the module's self-configuring constraints
        low = copy.deepcopy(C.no_worse_L_minus_1_polsby_popper)
        up = copy.deepcopy(C.no_worse_L1_reciprocal_polsby_popper)
        fresh = not hasattr(low, "bound") or low.bound is None
        ref = None
        for p, m in states:
            scores = []
            for q in range(k):
                a = sum(c["area"][i] for i in range(n) if m[i] == q)
                per = sum(c["bp"][i] for i in range(n) if m[i] == q and c["bn"][i])
                per += sum(l for (x, y), l in zip(c["g"]["edges"], c["sp"]) if (m[x] == q) != (m[y] == q))
                got = p["polsby_popper"][q]
                if per == 0:
                    check(got != got, lambda: f"Polsby-Popper of a district without perimeter: {got}")
                else:
                    check(hist.close(got, 4 * math.pi * a / per**2), lambda: f"Polsby-Popper {got}, area {a}, perimeter {per}")
                    scores.append(4 * math.pi * a / per**2)
                check(p["area"][q] == a and hist.close(p["perimeter"][q], per), lambda: f"area or perimeter of district {q}: {p['area']}, {p['perimeter']}")
            if len(scores) < k:
                return {"nt": False, "tags": ["no perimeter"]}
            norms(p, scores)
            lm1, r1 = len(scores) / sum(1 / s for s in scores), sum(1 / s for s in scores)
            if ref is None:
                ref = (lm1, r1)
                check(bool(low(p)) and bool(up(p)), "the first plan is worse than itself")
            else:
                if abs(lm1 - (ref[0] - 0.05)) > 1e-6:
                    check(bool(low(p)) == (lm1 >= ref[0] - 0.05), lambda: f"no_worse_L_minus_1_polsby_popper: {low(p)} at {lm1}, first {ref[0]}")
                if abs(r1 - ref[1]) > 1e-6 * ref[1]:
                    check(bool(up(p)) == (r1 <= ref[1]), lambda: f"no_worse_L1_reciprocal_polsby_popper: {up(p)} at {r1}, first {ref[1]}")
        return {"nt": k > 1 and len(states) > 1, "tags": ["scores"]}


@st.composite
def big_cases(draw):
    m, n, k = draw(st.integers(5, 24)), draw(st.integers(5, 24)), draw(st.integers(1, 12))
    rng = __import__("random").Random(draw(gen.seeds))
    default = draw(st.booleans())
    plan = None if default else [rng.randrange(k) for _ in range(m * n)]
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        ops.append(rng.choice([["flip", rng.randrange(3), [[rng.randrange(m * n), rng.randrange(4 if default else k)] for _ in range(rng.choice([1, 1, 5, 40]))]],
                               ["read", rng.randrange(3), rng.randrange(9)], ["readall", rng.randrange(3)]]))
    return {"m": m, "n": n, "diag": draw(st.booleans()), "plan": plan, "ops": ops, "plabel": draw(st.sampled_from(["zero", "one", "str", "gap"])),
            "up": draw(st.sampled_from(["none", "new", "override", "both"])), "rev": draw(st.booleans())}


SUBS = [
    Sub("grids", cases, run_grid, 4500, 40000, 60),
    Sub("biggrids", big_cases, run_grid, 64, 1500, 120),
    Sub("scores", score_cases, run_scores, 3500, 30000, 60),
]
