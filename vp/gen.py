"""Generators shared by the checks.  Everything drawn is plain JSON."""
import random

import networkx as nx
import numpy
from hypothesis import strategies as st

LABELS = ["int", "int", "off", "str", "tuple", "scram", "np", "half"]
PARTS = ["zero", "one", "neg", "str", "gap", "empty", "float", "np", "tuple", "mixed"]
SORTABLE = PARTS[:-1]
PARTS2 = PARTS


def node_label(kind, i):
    if kind == "int":
        return i
    if kind == "off":
        return i - 3
    if kind == "str":
        return "n%02d" % ((i * 37 + 11) % 101) if i < 101 else "m%d" % i
    if kind == "tuple":
        return (i % 4, i // 4)
    if kind == "scram":
        return (i * 7919 + 13) % 100003
    if kind == "np":  # as from a column of a table
        return numpy.int64((i * 7) % 1009 if i < 1009 else i)
    if kind == "half":
        return i / 2 - 1
    raise ValueError(kind)


def part_label(kind, j):
    if kind == "zero":
        return j
    if kind == "one":
        return j + 1
    if kind == "neg":
        return j - 2
    if kind == "str":
        return "D%d" % j
    if kind == "gap":
        return 5 * j * j + 3
    if kind == "empty":  # falsy label first, unsorted
        return ["", "b", "a", "d", "c", "e", "g", "f", "h", "k", "i", "j"][j] if j < 12 else "z%d" % (97 - j)
    if kind == "float":
        return j / 2
    if kind == "np":
        return numpy.int64(j + 1)
    if kind == "tuple":
        return (j % 2, "p%d" % j)
    if kind == "mixed":  # of several types
        return "2" if j == 1 else j + 0.5 if j % 3 == 2 else j
    raise ValueError(kind)


@st.composite
def graphs(draw, lo=2, hi=10, connected=True, kinds=("rand", "rand", "rand", "grid", "grid", "cycle", "complete", "path", "star", "tree")):
    """A graph: {'n', 'edges' (pairs of indices), 'label', 'order'}."""
    kind = draw(st.sampled_from(kinds))
    if kind == "grid":
        a = draw(st.integers(1, max(1, int(hi ** 0.5))))
        bmax = max(1, hi // a)
        bmin = min(bmax, -(-lo // a))
        b = draw(st.integers(bmin, bmax))
        n = a * b
        edges = [[i, i + 1] for i in range(n) if (i + 1) % b] + [[i, i + b] for i in range(n - b)]
        if draw(st.booleans()):
            edges += [[i, i + b + 1] for i in range(n - b) if (i + 1) % b]
    else:
        n = draw(st.integers(lo, hi))
        if kind == "path":
            edges = [[i, i + 1] for i in range(n - 1)]
        elif kind == "cycle":
            edges = [[i, (i + 1) % n] for i in range(n)] if n > 2 else [[0, 1]][: n - 1]
        elif kind == "star":
            edges = [[0, i] for i in range(1, n)]
        elif kind == "complete":
            n = min(n, 6) if lo <= 6 else n
            edges = [[i, j] for i in range(n) for j in range(i)]
        else:
            edges = [[draw(st.integers(0, i - 1)), i] for i in range(1, n)]
            if kind == "rand" and n > 2:
                extra = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)),
                                      min_size=draw(st.integers(0, n)), max_size=2 * n))
                edges += [[a, b] for a, b in extra if a != b]
    if not connected and draw(st.booleans()) and edges:
        drop = draw(st.sets(st.integers(0, len(edges) - 1), max_size=max(1, len(edges) // 3)))
        edges = [e for i, e in enumerate(edges) if i not in drop]
    seen, out = set(), []
    for a, b in edges:
        k = (min(a, b), max(a, b))
        if k not in seen:
            seen.add(k)
            out.append([a, b])
    return {"n": n, "edges": out, "label": draw(st.sampled_from(LABELS)), "order": draw(st.integers(0, 3)),
            "numbers": draw(st.sampled_from(["py", "py", "py", "np"]))}


def big_spec(rng, lo=40, hi=160):
    """A larger connected graph, from a seeded generator."""
    n = rng.randint(lo, hi)
    kind = rng.choice(["grid", "grid", "tri", "sparse", "tree", "dense", "path", "ring", "ring", "star"])
    if kind in ("grid", "tri"):
        b = rng.randint(3, max(3, int(n ** 0.5) + 2))
        n = max(2, n // b) * b
        edges = [[i, i + 1] for i in range(n) if (i + 1) % b] + [[i, i + b] for i in range(n - b)]
        if kind == "tri":
            edges += [[i, i + b + 1] for i in range(n - b) if (i + 1) % b and rng.random() < 0.7]
    elif kind == "path":
        edges = [[i, i + 1] for i in range(n - 1)]
    elif kind == "ring":  # a long cycle with a few branches and chords
        m = max(3, n * rng.choice([6, 8, 9]) // 10)
        edges = [[i, (i + 1) % m] for i in range(m)] + [[rng.randrange(i), i] for i in range(m, n)]
        edges += [rng.sample(range(n), 2) for _ in range(rng.choice([0, 0, 1, 3]))]
    elif kind == "star":  # a few hubs
        hubs = rng.choice([1, 1, 2, 4])
        edges = [[i, i + 1] for i in range(hubs - 1)] + [[rng.randrange(hubs), i] for i in range(hubs, n)]
        edges += [[i, i + 1] for i in range(hubs, n - 1) if rng.random() < 0.3]
    else:
        near = rng.choice([3, 10, n])
        edges = [[rng.randrange(max(0, i - near), i), i] for i in range(1, n)]
        for _ in range({"tree": 0, "sparse": n // 2, "dense": 4 * n}[kind]):
            a = rng.randrange(n)
            b = min(n - 1, max(0, a + rng.randint(-near, near)))
            if a != b:
                edges.append([a, b])
    seen, out = set(), []
    for a, b in edges:
        if (min(a, b), max(a, b)) not in seen:
            seen.add((min(a, b), max(a, b)))
            out.append([a, b] if rng.random() < 0.5 else [b, a])
    return {"n": n, "edges": out, "label": rng.choice(LABELS), "order": rng.randrange(4), "numbers": rng.choice(["py", "py", "py", "np"])}


def ordered(items, order):
    items = list(items)
    if order == 1:
        items.reverse()
    elif order == 2:
        items = items[1::2] + items[::2]
    elif order == 3:
        random.Random(len(items) * 31 + 7).shuffle(items)
    return items


def as_numpy(x):
    if type(x) is int and abs(x) < 2**53:
        return numpy.int64(x)
    return numpy.float64(x) if type(x) is float else x


def build_nx(spec, attrs=None, edge_attrs=None, cls=None):
    """Returns (graph, labels) where labels[i] is the label of node index i.

    attrs: {name: list of values by index};  edge_attrs: {name: list by position in spec['edges']}"""
    from gerrychain import Graph

    lab = [node_label(spec["label"], i) for i in range(spec["n"])]
    if spec.get("numbers") == "np":  # as read from a table
        attrs, edge_attrs = [{k: [as_numpy(x) for x in v] for k, v in (d or {}).items()} for d in (attrs, edge_attrs)]
    g = (cls or Graph)()
    for i in ordered(range(spec["n"]), spec.get("order", 0)):
        g.add_node(lab[i], **{k: v[i] for k, v in (attrs or {}).items()})
    for p in ordered(range(len(spec["edges"])), spec.get("order", 0)):
        a, b = spec["edges"][p]
        g.add_edge(lab[a], lab[b], **{k: v[p] for k, v in (edge_attrs or {}).items()})
    return g, lab


def adjacency(spec):
    adj = {i: set() for i in range(spec["n"])}
    for a, b in spec["edges"]:
        adj[a].add(b)
        adj[b].add(a)
    return adj


def components(nodes, adj):
    nodes, out = set(nodes), []
    while nodes:
        s = next(iter(nodes))
        comp, todo = {s}, [s]
        while todo:
            v = todo.pop()
            for w in adj[v]:
                if w in nodes and w not in comp:
                    comp.add(w)
                    todo.append(w)
        nodes -= comp
        out.append(comp)
    return out


def is_conn(nodes, adj):
    return len(nodes) > 0 and len(components(nodes, adj)) == 1


def contiguous_plan(spec, k, rng):
    """A list part-index by node index: k connected parts (k <= n), grown at random."""
    adj = adjacency(spec)
    n = spec["n"]
    seeds = rng.sample(range(n), k)
    part = {s: j for j, s in enumerate(seeds)}
    front = list(seeds)
    while len(part) < n:
        opts = [(v, w) for v in sorted(part) for w in sorted(adj[v]) if w not in part]
        if not opts:  # disconnected graph: give the rest to their own component's first part or part 0
            for v in range(n):
                part.setdefault(v, 0)
            break
        v, w = rng.choice(opts)
        part[w] = part[v]
    return [part[i] for i in range(n)]


def lopsided_plan(spec, k, rng):
    """Like contiguous_plan, but part 0 is as large as possible and the others are small."""
    adj = adjacency(spec)
    n = spec["n"]
    part = [0] * n
    for q in range(1, k):
        big = [v for v in range(n) if part[v] == 0]
        rng.shuffle(big)
        leaves = [v for v in big if len(adj[v]) == 1]
        for v in leaves[:3] + big:
            if len(big) > 1 and is_conn([u for u in big if u != v], adj):
                part[v] = q
                break
    used = sorted(set(part))
    return [used.index(q) for q in part]


def sorted_edge(a, b):
    return tuple(sorted((a, b)))


seeds = st.integers(0, 2**31 - 1)
small_pop = st.integers(0, 9)


@st.composite
def populations(draw, n, lo=0, hi=20):
    kind = draw(st.sampled_from(["unit", "small", "small", "wide"]))
    if kind == "unit":
        return [max(lo, 1)] * n
    if kind == "small":
        return draw(st.lists(st.integers(lo, hi), min_size=n, max_size=n))
    return draw(st.lists(st.one_of(st.integers(lo, hi), st.integers(max(lo, 1), 10**6)), min_size=n, max_size=n))
