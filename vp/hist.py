"""Generated histories: a graph, a first plan, and a sequence of flips, reads and unlinks."""
import contextlib
import copy
import math
import random

import numpy
from hypothesis import strategies as st

from . import gen


@st.composite
def plans(draw, spec, kmin=1, kmax=4, contiguous=None):
    """A list of part indices by node index, using each of 0..k-1."""
    n = spec["n"]
    kmax = min(kmax, n)
    kmin = min(kmin, kmax)
    k = draw(st.sampled_from([j for j in range(kmin, kmax + 1) for _ in range(1 if j == 1 else 4)]))
    c = draw(st.booleans()) if contiguous is None else contiguous
    if c:
        rng = random.Random(draw(gen.seeds))
        return gen.contiguous_plan(spec, k, rng)
    raw = draw(st.lists(st.integers(0, k - 1), min_size=n, max_size=n))
    missing = [j for j in range(k) if j not in raw]
    for pos, j in zip([i for i in range(n) if raw.count(raw[i]) > 1], missing):
        raw[pos] = j
    used = sorted(set(raw))
    return [used.index(x) for x in raw]


@st.composite
def histories(draw, lo=2, hi=10, kmin=1, kmax=4, max_ops=9, nkeys=1, contiguous=None, connected=None,
              single=False, reads=True):
    conn = draw(st.booleans()) if connected is None else connected
    spec = draw(gen.graphs(lo, hi, connected=conn))
    plan = draw(plans(spec, kmin, kmax, contiguous))
    k = max(plan) + 1
    n = spec["n"]
    node, part, src = st.integers(0, n - 1), st.integers(0, k - 1), st.sampled_from([0, 0, 0, 0, 1, 2, 3])
    flip = st.tuples(st.just("flip"), src,
                     st.lists(st.tuples(node, part), min_size=0 if not single else 1,
                              max_size=1 if single else min(n, 6)))
    choices = [flip, flip]
    if not single:
        choices.append(st.tuples(st.just("merge"), src, part, part))
        choices.append(st.tuples(st.just("many"), src, st.lists(part, min_size=n, max_size=n)))
    if reads:
        choices += [st.tuples(st.just("read"), src, st.integers(0, max(0, nkeys - 1))),
                    st.tuples(st.just("readall"), src, st.integers(0, 5)),
                    st.tuples(st.just("unlink"), src)]
    firstflip = st.tuples(st.just("flip"), st.just(0), st.lists(st.tuples(node, part), min_size=1, max_size=1 if single else 4))
    ops = draw(st.lists(st.one_of(choices), min_size=0, max_size=max_ops - 1))
    at = draw(st.integers(0, min(2, len(ops))))
    ops = ops[:at] + [draw(firstflip)] + ops[at:]
    return {"g": spec, "plan": plan, "plabel": draw(st.sampled_from(gen.PARTS)),
            "ops": [jsonable(o) for o in ops]}


def jsonable(x):
    if isinstance(x, (list, tuple)):
        return [jsonable(y) for y in x]
    if isinstance(x, dict):
        return {k: jsonable(v) for k, v in x.items()}
    return x


@contextlib.contextmanager
def fresh_defaults():
    """Partition classes share one dict of updaters (see known_findings): undo what a case adds to it."""
    from gerrychain import GeographicPartition, Partition
    from gerrychain.grid import Grid

    classes = [Partition, GeographicPartition, Grid]
    saved = [(c, c.__dict__.get("default_updaters"), dict(c.__dict__.get("default_updaters") or {}))
             for c in classes]
    try:
        yield
    finally:
        for c, d, content in saved:
            if d is not None:
                d.clear()
                d.update(content)


def fresh(x, numpys=False):
    """An equal label that is another object (callers read labels from files, data frames and arithmetic)."""
    if isinstance(x, str):
        return "".join(list(x))
    if isinstance(x, tuple):
        return tuple([fresh(y, numpys) for y in x])
    if isinstance(x, bool) or type(x) is not int:
        return float(repr(x)) if type(x) is float else x
    return numpy.int64(x) if numpys else int(str(x))


class World:
    """Partitions made from each other and the model (list of part indices) of each."""

    def __init__(self, case, first, lab, plab):
        self.lab, self.plab = lab, plab
        self.adj = gen.adjacency(case["g"])
        self.parts = [first]
        self.models = [list(case["plan"])]
        self.parent = [None]
        self.k = max(case["plan"]) + 1
        self.n = case["g"]["n"]
        self.emptied = False
        self.changed = 0

    def pick(self, src):
        return max(0, len(self.parts) - 1 - src)

    def flips_of(self, op):
        """(index of the source, {node index: part index})"""
        i = self.pick(op[1])
        m = self.models[i]
        if op[0] == "flip":
            return i, {a: b for a, b in op[2]}
        if op[0] == "merge":
            return i, {v: op[3] for v in range(self.n) if m[v] == op[2]}
        if op[0] == "many":
            return i, dict(enumerate(op[2]))
        raise ValueError(op)

    def flip(self, op):
        i, fl = self.flips_of(op)
        return self.do(i, fl)

    def do(self, i, fl):
        model = list(self.models[i])
        for v, p in fl.items():
            if model[v] != p:
                self.changed += 1
            model[v] = p
        if len(set(model)) < self.k:
            self.emptied = True
        r = len(self.parts) % 4
        new_label = (lambda x: x) if r == 0 else lambda x: fresh(x, r == 3)
        flips = {fresh(self.lab[v]) if r == 2 else self.lab[v]: new_label(self.plab[p]) for v, p in fl.items()}
        snapshot = dict(flips)
        new = self.parts[i].flip(flips)
        assert flips == snapshot, "flip() changed the dict of flips it was given"
        if r in (1, 3):  # the caller goes on using its dict
            other = self.plab[(len(self.parts) + r) % len(self.plab)]
            flips.clear()
            flips.update({self.lab[(len(self.parts) + j) % self.n]: other for j in range(r - 1)})
        self.parts.append(new)
        self.models.append(model)
        self.parent.append(i)
        return new, model


def close(a, b, scale=1.0, rel=1e-9):
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    try:
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
    except TypeError:
        return a == b
    return abs(a - b) <= rel * max(scale, abs(a), abs(b))


def freeze(x):
    """A deep copy of a reported value, as plain data, comparable later."""
    if isinstance(x, dict):
        out = {k: freeze(v) for k, v in x.items()}
        return ("d", {k: v for k, v in out.items()
                      if not (isinstance(v, tuple) and v == ("s", frozenset()))
                      and not (not isinstance(v, tuple) and v is not None and v is not False and v == 0)})
    if isinstance(x, (set, frozenset)):
        return ("s", frozenset(x))
    if isinstance(x, (list, tuple)):
        return ("l", [freeze(v) for v in x])
    try:
        return copy.copy(x)
    except Exception:
        return x


@st.composite
def big_seeds(draw, **kw):
    """A case given by its seed and size, expanded by big() (a large case is not worth drawing value by value)."""
    return {"seed": draw(gen.seeds), "size": draw(st.integers(kw.get("lo", 20), kw.get("hi", 160))), "k": draw(st.integers(kw.get("kmin", 2), kw.get("kmax", 24))),
            "steps": draw(st.integers(kw.get("smin", 4), kw.get("smax", 120))), **{a: draw(b) for a, b in kw.get("more", {}).items()}}


def big(lc, nkeys=1, contiguous=None, reads=True):
    """(rng, case in the format of histories()) for a case of big_seeds()"""
    rng = random.Random(lc["seed"])
    g = gen.big_spec(rng, lc["size"], lc["size"] + 10)
    k = min(lc["k"], g["n"])
    if contiguous or (contiguous is None and rng.random() < 0.7):
        plan = gen.contiguous_plan(g, k, rng) if rng.random() < 0.7 else gen.lopsided_plan(g, min(k, 6), rng)
        k = max(plan) + 1
    else:
        plan = list(range(k)) + [rng.randrange(k) for _ in range(g["n"] - k)]
        rng.shuffle(plan)
    ops = random_ops(rng, g, k, lc["steps"], nkeys)
    if not reads:
        ops = [o for o in ops if o[0] in ("flip", "merge", "many")]
    return rng, {"g": g, "plan": plan, "plabel": rng.choice(gen.PARTS), "ops": ops}


def random_ops(rng, spec, k, steps, nkeys=1):
    """A long random history (list of ops), drawn from a seeded generator."""
    n, ops = spec["n"], []
    for _ in range(steps):
        src = rng.choice([0] * 12 + [1, 2, 5])
        r = rng.random()
        if r < 0.55:
            ops.append(["flip", src, [[rng.randrange(n), rng.randrange(k)] for _ in range(rng.choice([1, 1, 2, 3, 8]))]])
        elif r < 0.60:
            ops.append(["merge", src, rng.randrange(k), rng.randrange(k)])
        elif r < 0.63:
            ops.append(["many", src, [rng.randrange(k) for _ in range(n)]])
        elif r < 0.85:
            ops.append(["read", src, rng.randrange(nkeys)])
        elif r < 0.92:
            ops.append(["readall", src, rng.randrange(4)])
        else:
            ops.append(["unlink", src])
    return ops
