"""C16: graphs built from generated tilings, against adjacency, lengths and areas counted on the lattice."""
import math
import os
import shutil
import tempfile
import warnings

from hypothesis import strategies as st

from vp import gen, hist
from vp.harness import Skip, Sub, Violation, check

QUICK = 1.5  # the numbers of cases in SUBS, times this, in the quick tier
RULE = ("at least three polygons and two pairs that touch, in the lattice tiling; for histories also a moved polygon")
ASSUMPTIONS = ["tilings are unions of lattice cells under an integer linear map, so that truth can be counted exactly; "
               "polygons to be reprojected have vertices at every lattice point (shared edges stay shared)",
               "boundary_node means that the polygon meets the boundary of the whole map, possibly at a point only"]


@st.composite
def tilings(draw, rmax=5, cmax=5, holes=True):
    size = [1, 2, 3, 3, 4, 4, 5, 5]
    r = draw(st.sampled_from([x for x in size if x <= rmax]))
    s = draw(st.sampled_from([x for x in size if x <= cmax]))
    k = draw(st.sampled_from([x for x in (1, 2, 3, 4, 5, 6, 7, 8, 9) if x <= r * s]))
    cells = draw(st.lists(st.integers(0, k - 1), min_size=r * s, max_size=r * s))
    style = draw(st.sampled_from(["noise", "blocks", "blocks", "stripes"]))
    if style == "blocks":  # growing from seeds: mostly connected polygons
        rng = __import__("random").Random(draw(gen.seeds))
        spec = {"n": r * s, "edges": [[i, i + 1] for i in range(r * s) if (i + 1) % s] + [[i, i + s] for i in range(r * s - s)]}
        cells = gen.contiguous_plan(spec, k, rng)
    elif style == "stripes":
        cells = [(i % s) % k for i in range(r * s)]
    if holes:
        gaps = draw(st.lists(st.integers(0, r * s - 1), max_size=draw(st.sampled_from([0, 0, 1, 3]))))
        cells = [-1 if i in gaps else x for i, x in enumerate(cells)]
    used = sorted({x for x in cells if x >= 0})
    if not used:
        cells[0] = 0
        used = [0]
    return {"r": r, "s": s, "cells": [used.index(x) if x >= 0 else -1 for x in cells]}


MAPS = [[1, 0, 0, 1], [1, 0, 0, 1], [2, 0, 0, 1], [1, 1, 0, 1], [2, 1, -1, 3], [0, 1, -1, 0], [3, 0, 0, 5]]


class Truth:
    """Everything counted from cells and unit edges."""

    def __init__(self, t, pos):
        """pos(x, y): plane coordinates of the lattice point"""
        self.t = t
        r, s, cells = t["r"], t["s"], t["cells"]
        self.k = max(cells) + 1
        self.pos = pos
        at = lambda x, y: cells[y * s + x] if 0 <= x < s and 0 <= y < r else -1
        self.at = at
        self.area = [0.0] * self.k
        self.shared = {}
        self.ext = [0.0] * self.k
        self.touch = set()
        self.bnode = [False] * self.k
        self.bedge = [False] * self.k
        for y in range(r):
            for x in range(s):
                if at(x, y) >= 0:
                    self.area[at(x, y)] += shoelace([pos(x, y), pos(x + 1, y), pos(x + 1, y + 1), pos(x, y + 1)])
        edges = [((x, y), (x, y + 1), at(x - 1, y), at(x, y)) for y in range(r) for x in range(s + 1)]
        edges += [((x, y), (x + 1, y), at(x, y - 1), at(x, y)) for y in range(r + 1) for x in range(s)]
        self.edges = [(dist(pos(*p), pos(*q)), a, b) for p, q, a, b in edges]
        for d, a, b in self.edges:
            if a == b:
                continue
            if a >= 0 and b >= 0:
                key = (min(a, b), max(a, b))
                self.shared[key] = self.shared.get(key, 0.0) + d
            else:
                self.ext[max(a, b)] += d
        for y in range(r + 1):
            for x in range(s + 1):
                around = [at(x - 1, y - 1), at(x, y - 1), at(x - 1, y), at(x, y)]
                ids = {a for a in around if a >= 0}
                for a in ids:
                    for b in ids:
                        if a < b:
                            self.touch.add((a, b))
                    if -1 in around:
                        self.bnode[a] = True

    def union(self, group):
        """(area, perimeter) of the union of the polygons in group"""
        g = set(group)
        return sum(self.area[i] for i in g), sum(d for d, a, b in self.edges if (a in g) != (b in g))


def dist(p, q):
    return math.hypot(p[0] - q[0], p[1] - q[1])


def shoelace(pts):
    return abs(sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(pts, pts[1:] + pts[:1]))) / 2


def polygons(t, pos, dense):
    """One shapely geometry per polygon."""
    import shapely
    from shapely.geometry import box
    from shapely.ops import transform, unary_union

    out = []
    for i in range(max(t["cells"]) + 1):
        g = unary_union([box(j % t["s"], j // t["s"], j % t["s"] + 1, j // t["s"] + 1) for j, x in enumerate(t["cells"]) if x == i])
        if dense:
            g = shapely.segmentize(g, 1.0)
        out.append(transform(lambda xs, ys: tuple(zip(*[pos(x, y) for x, y in zip(xs, ys)])), g))
    return out


@st.composite
def cases(draw):
    t = draw(tilings())
    k = max(t["cells"]) + 1
    return {"t": t, "map": draw(st.integers(0, len(MAPS) - 1)), "dense": draw(st.booleans()), "adj": draw(st.sampled_from(["rook", "rook", "queen", None])),
            "index": draw(st.sampled_from(["default", "default", "str", "off", "perm"])), "shuffle": draw(st.integers(0, 3)),
            "cols": draw(st.sampled_from([None, [], ["pop"], ["name", "pop"], ["f"]])), "pop": draw(st.lists(st.integers(0, 99), min_size=k, max_size=k)),
            "crs": draw(st.sampled_from([None, "EPSG:26986", "EPSG:32618", "EPSG:3857", "override"])),
            "source": draw(st.sampled_from(["frame", "frame", "frame", "gpkg", "geojson"])),
            "plan": draw(st.lists(st.integers(0, 2), min_size=k, max_size=k)),
            "moves": draw(st.lists(st.tuples(st.integers(0, k - 1), st.integers(0, 2)).map(list), max_size=5)),
            "geomname": draw(st.sampled_from(["geometry", "geometry", "geom"])), "scale": draw(st.sampled_from([1, 1, 1000, 0.125, 1e-5, 1e6])),
            "wx": draw(widths), "wy": draw(widths)}


widths = st.one_of(st.none(), st.none(), st.lists(st.sampled_from([1, 1, 2, 0.5, 256, 1 / 512, 4096]), min_size=1, max_size=6))


def lines(w, m):
    """Where the lattice lines 0..m lie, for columns (or rows) of uneven widths."""
    at = [0.0]
    for i in range(m):
        at.append(at[-1] + (w[i % len(w)] if w else 1))
    return at


def frame(c, geoms, crs):
    import geopandas

    k = len(geoms)
    rows = gen.ordered(range(k), c["shuffle"])
    data = {"name": ["p%d" % i for i in rows], "pop": [c["pop"][i] for i in rows], "f": [c["pop"][i] / 4 for i in rows]}
    df = geopandas.GeoDataFrame(data, geometry=[geoms[i] for i in rows], crs=crs)
    if c["index"] == "str":
        df.index = ["id%d" % i for i in rows]
    elif c["index"] == "off":
        df.index = [i + 10 for i in rows]
    elif c["index"] == "perm":
        df.index = [(i * 7 + 3) % 101 for i in rows]
    if c.get("geomname") == "geom":
        df = df.rename_geometry("geom")
    return df, rows


def snapshot(df):
    return (list(df.index), list(df.columns), df.crs, [g.wkb for g in df.geometry], df.drop(columns=[df.geometry.name]).values.tolist())


def close(a, b, scale, rel=1e-9):
    return abs(a - b) <= rel * max(abs(a), abs(b), scale)


def verify_graph(g, tr, ids, adj, c, cols, rel=1e-9):
    """ids[i]: the node of polygon i"""
    k = tr.k
    check(set(g.nodes) == set(ids) and len(g.nodes) == k, lambda: f"nodes {set(g.nodes)}, rows {ids}")
    unit = max(d for d, a, b in tr.edges)
    want = {frozenset((ids[a], ids[b])) for a, b in (tr.touch if adj == "queen" else tr.shared)}
    got = {frozenset(e) for e in g.edges}
    check(got == want and len(g.edges) == len(want), lambda: f"{adj} adjacency: missing {want - got}, extra {got - want}; cells {tr.t}")
    for (a, b) in (tr.touch if adj == "queen" else tr.shared):
        x, y = g.edges[ids[a], ids[b]]["shared_perim"], tr.shared.get((a, b), 0.0)
        check(close(x, y, unit, rel), lambda: f"shared_perim of {(a, b)} is {x}, should be {y}; cells {tr.t}")
    for i in range(k):
        d = g.nodes[ids[i]]
        check(close(d["area"], tr.area[i], unit * unit, rel), lambda: f"area of polygon {i} is {d['area']}, should be {tr.area[i]}")
        check(bool(d["boundary_node"]) == tr.bnode[i], lambda: f"boundary_node of polygon {i} is {d['boundary_node']}; cells {tr.t}")
        bp = d.get("boundary_perim", 0.0)
        check(close(bp, tr.ext[i], unit, rel * 10), lambda: f"boundary_perim of polygon {i} is {bp}, should be {tr.ext[i]}; cells {tr.t}")
        check(not tr.bnode[i] or "boundary_perim" in d, lambda: f"boundary node {i} has no boundary_perim")
        vals = {"name": "p%d" % i, "pop": c["pop"][i], "f": c["pop"][i] / 4}
        for key in cols:
            check(d.get(key) == vals[key], lambda: f"column {key} of polygon {i} is {d.get(key)!r}, should be {vals[key]!r}")
        extra = set(d) - {"area", "boundary_node", "boundary_perim"} - set(cols)
        check(extra <= ({"geometry", "geom"} if c["cols"] is None else set()), lambda: f"node attributes nobody asked for: {extra}")


def same_crs(text, crs):
    import pyproj

    check(isinstance(text, str), lambda: f"graph.graph['crs'] is {text!r}")
    a, b = pyproj.CRS.from_user_input(text), pyproj.CRS.from_user_input(crs)
    check(a.equals(b, ignore_axis_order=True) or a.to_dict() == b.to_dict(), lambda: f"the recorded CRS is {a.name}, should be {b.name}")


def run(c):
    from gerrychain import Graph

    t = c["t"]
    a, b, e, f = MAPS[c["map"]]
    z = c["scale"]
    xs, ys = lines(c.get("wx"), t["s"]), lines(c.get("wy"), t["r"])
    pos = lambda x, y: ((a * xs[int(x)] + b * ys[int(y)]) * z, (e * xs[int(x)] + f * ys[int(y)]) * z)
    tr = Truth(t, pos)
    geoms = polygons(t, pos, c["dense"])
    crs = None if c["crs"] in (None, "override") else c["crs"]
    df, rows = frame(c, geoms, crs)
    cols = ["name", "pop", "f"] if c["cols"] is None else c["cols"]
    adj = c["adj"] or "rook"
    kw = {} if c["adj"] is None else {"adjacency": c["adj"]}
    if c["cols"] is not None:
        kw["cols_to_add"] = list(c["cols"])
    src = c["source"]
    if src == "geojson":
        crs = crs and "EPSG:4326"
        df, rows = frame(c, geoms, "EPSG:4326")
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        if src == "frame":
            before = snapshot(df)
            if c["crs"] == "override":
                kw["crs_override"] = "EPSG:26986"
                crs = "EPSG:26986"
            g = Graph.from_geodataframe(df, **kw)
            check(snapshot(df) == before, "from_geodataframe changed the frame")
            ids = [None] * tr.k
            for p, i in enumerate(rows):
                ids[i] = df.index[p]
        else:
            d = tempfile.mkdtemp(prefix="vpc16")
            try:
                path = os.path.join(d, "map." + src)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    df.to_file(path, index=False, driver={"gpkg": "GPKG", "geojson": "GeoJSON"}[src])
                g = Graph.from_file(path, **kw)
            finally:
                shutil.rmtree(d)
            ids = [None] * tr.k
            for p, i in enumerate(rows):
                ids[i] = p
            crs = df.crs
    texts = [str(w.message) for w in log]
    verify_graph(g, tr, ids, adj, c, cols)
    if src == "frame" or crs is not None:
        if crs is None:
            check(g.graph.get("crs") is None, lambda: f"a CRS appeared: {g.graph.get('crs')}")
        else:
            same_crs(g.graph["crs"], crs)
    islands = [i for i in range(tr.k) if not any(i in p for p in (tr.touch if adj == "queen" else tr.shared))]
    check(any("sland" in x for x in texts) == bool(islands), lambda: f"islands {islands}, warnings {texts}")
    check(not any("verlap" in x for x in texts), lambda: f"overlaps were reported for a tiling: {texts}")
    history(c, g, tr, ids)
    return {"nt": tr.k >= 3 and len(tr.touch) >= 2, "tags": [src, adj] + (["islands"] if islands else [])
            + (["corner"] if len(tr.touch) > len(tr.shared) else []) + (["gap"] if -1 in t["cells"] else [])}


def history(c, g, tr, ids):
    from gerrychain import GeographicPartition

    with hist.fresh_defaults():
        model = list(c["plan"])
        p = GeographicPartition(g, {ids[i]: model[i] for i in range(tr.k)})
        labels = set(model)
        states = [(p, list(model))]
        for v, q in c["moves"]:
            if q not in labels:
                continue
            model[v] = q
            p = p.flip({ids[v]: q})
            states.append((p, list(model)))
        unit = max(d for d, a, b in tr.edges)
        for p, m in states if c["shuffle"] % 2 else reversed(states):
            for q in set(m):
                area, per = tr.union([i for i in range(tr.k) if m[i] == q])
                check(close(p["area"][q], area, unit * unit), lambda: f"area of district {q} is {p['area'][q]}, should be {area}")
                check(close(p["perimeter"][q], per, unit), lambda: f"perimeter of district {q} is {p['perimeter'][q]}, should be {per}; plan {m}, cells {tr.t}")


@st.composite
def big_cases(draw):
    rng = __import__("random").Random(draw(gen.seeds))
    r, s = draw(st.integers(4, 12)), draw(st.integers(4, 12))
    k = min(r * s, draw(st.integers(6, 70)))
    if draw(st.booleans()):
        spec = {"n": r * s, "edges": [[i, i + 1] for i in range(r * s) if (i + 1) % s] + [[i, i + s] for i in range(r * s - s)]}
        cells = gen.contiguous_plan(spec, k, rng)
    else:
        cells = [rng.randrange(k) for _ in range(r * s)]
    for _ in range(draw(st.sampled_from([0, 0, 3, 20]))):
        cells[rng.randrange(r * s)] = -1
    used = sorted({x for x in cells if x >= 0})
    if not used:
        cells[0], used = 0, [0]
    t = {"r": r, "s": s, "cells": [used.index(x) if x >= 0 else -1 for x in cells]}
    k, d = len(used), rng.choice([2, 3, 9])
    return {"t": t, "map": draw(st.integers(0, len(MAPS) - 1)), "dense": draw(st.booleans()), "adj": draw(st.sampled_from(["rook", "rook", "queen", None])),
            "index": draw(st.sampled_from(["default", "default", "str", "off", "perm"])), "shuffle": draw(st.integers(0, 3)),
            "cols": draw(st.sampled_from([None, ["pop"], ["name", "pop"]])), "pop": [rng.randrange(10**6) for _ in range(k)],
            "crs": draw(st.sampled_from([None, "EPSG:26986", "EPSG:32618", "EPSG:3857", "override"])),
            "source": draw(st.sampled_from(["frame", "frame", "frame", "gpkg", "geojson"])), "plan": [rng.randrange(d) for _ in range(k)],
            "moves": [[rng.randrange(k), rng.randrange(d)] for _ in range(rng.choice([1, 6, 25]))],
            "geomname": draw(st.sampled_from(["geometry", "geometry", "geom"])), "scale": draw(st.sampled_from([1, 1, 1000, 0.125])),
            "wx": draw(widths), "wy": draw(widths)}


@st.composite
def reproj_cases(draw):
    t = draw(tilings(4, 4))
    k = max(t["cells"]) + 1
    return {"t": t, "zone": draw(st.integers(1, 60)), "lat": draw(st.integers(-70, 80)), "pop": draw(st.lists(st.integers(0, 99), min_size=k, max_size=k)),
            "off": draw(st.integers(-8, 8)), "adj": draw(st.sampled_from(["rook", "queen"])), "index": draw(st.sampled_from(["default", "str"])),
            "shuffle": draw(st.integers(0, 3)), "cols": draw(st.sampled_from([None, ["pop"]])), "source": draw(st.sampled_from(["frame", "frame", "gpkg"])),
            "crs": draw(st.sampled_from(["EPSG:4326", "EPSG:4326", "EPSG:4269", "utm"])), "reproject": draw(st.sampled_from([True, True, True, False])),
            "step": draw(st.sampled_from([0.01, 0.05]))}


def run_reproj(c):
    """Geographic input, projected to UTM: lengths are those of the projected lattice."""
    import pyproj

    from gerrychain import Graph

    t = c["t"]
    lon0 = -183 + 6 * c["zone"] + c["off"] / 4
    lat0 = c["lat"] + 0.3
    if 55 <= lat0 + 1 and lat0 <= 65 or lat0 >= 71:
        lat0 = 50.3  # stay away from the Norway and Svalbard exceptions (they are C22's)
    ll = lambda x, y: (lon0 + c["step"] * x, lat0 + c["step"] * y)
    utm = "+proj=utm +zone=%d +ellps=WGS84 +datum=WGS84 +units=m +no_defs" % c["zone"]
    fwd = pyproj.Transformer.from_crs("EPSG:4326", utm, always_xy=True)
    incrs = c["crs"]
    if incrs == "utm":
        # input in the neighbouring zone's projection
        incrs = "+proj=utm +zone=%d +ellps=WGS84 +datum=WGS84 +units=m +no_defs" % (c["zone"] % 60 + 1)
        if c["zone"] == 60:
            incrs = "EPSG:4326"
    toin = pyproj.Transformer.from_crs("EPSG:4326", incrs, always_xy=True) if incrs not in ("EPSG:4326", "EPSG:4269") else None
    inpos = (lambda x, y: toin.transform(*ll(x, y))) if toin else ll
    geoms = polygons(t, inpos, True)
    df, rows = frame(c, geoms, incrs)
    if c["reproject"]:
        f2 = pyproj.Transformer.from_crs(incrs, utm, always_xy=True)
        pos = lambda x, y: f2.transform(*inpos(x, y))
    else:
        pos = inpos
    tr = Truth(t, pos)
    before = snapshot(df)
    kw = {"adjacency": c["adj"], "reproject": c["reproject"]}
    if c["cols"] is not None:
        kw["cols_to_add"] = c["cols"]
    ids = [None] * tr.k
    if c["source"] == "frame":
        g = Graph.from_geodataframe(df, **kw)
        check(snapshot(df) == before, "from_geodataframe changed the frame")
        for p, i in enumerate(rows):
            ids[i] = df.index[p]
    else:
        d = tempfile.mkdtemp(prefix="vpc16")
        try:
            path = os.path.join(d, "map.gpkg")
            df.to_file(path, index=False, driver="GPKG")
            g = Graph.from_file(path, **kw)
        finally:
            shutil.rmtree(d)
        for p, i in enumerate(rows):
            ids[i] = p
    cols = ["name", "pop", "f"] if c["cols"] is None else c["cols"]
    verify_graph(g, tr, ids, c["adj"], c, cols, rel=1e-6)
    same_crs(g.graph["crs"], utm if c["reproject"] else df.crs)
    return {"nt": tr.k >= 3 and len(tr.touch) >= 2, "tags": ["reprojected" if c["reproject"] else "kept", c["source"]]}


@st.composite
def bad_cases(draw):
    t = draw(tilings(4, 4, holes=False))
    k = max(t["cells"]) + 1
    return {"t": t, "kind": draw(st.sampled_from(["bowtie", "bowtie", "overlap", "overlap", "contain", "twice", "badadj", "good"])), "at": draw(st.integers(0, k - 1)),
            "cell": draw(st.integers(0, t["r"] * t["s"] - 1)), "pop": [1] * (k + 1), "index": draw(st.sampled_from(["default", "str", "off"])),
            "shuffle": draw(st.integers(0, 3)), "ignore": draw(st.booleans()), "how": draw(st.integers(0, 6)), "adj": draw(st.sampled_from(["rook", "queen"])),
            "file": draw(st.sampled_from([False, False, True]))}


def invalid(how, x, y):
    from shapely.geometry import MultiPolygon, Polygon, box

    sq = lambda a, b, w: [(x + a, y + b), (x + a + w, y + b), (x + a + w, y + b + w), (x + a, y + b + w)]
    return [Polygon([(x, y), (x + 1, y + 1), (x + 1, y), (x, y + 1)]),
            Polygon(sq(0, 0, 1), [sq(3, 3, 1)]),  # a hole outside the shell
            Polygon(sq(0, 0, 4), [sq(1, 1, 2), sq(1.5, 1.5, 0.5)]),  # a hole in a hole
            MultiPolygon([box(x, y, x + 4, y + 4), box(x + 1, y + 1, x + 2, y + 2)]),  # a shell in a shell
            Polygon(sq(0, 0, 4), [[(x, y + 2), (x + 2, y), (x + 4, y + 2), (x + 2, y + 4)]]),  # interior in pieces
            Polygon([(x, y), (x + 2, y), (x + 1, y + 1), (x + 2, y + 2), (x, y + 2), (x + 1, y + 1)]),  # a ring that meets itself
            Polygon([(x, y), (x + 1, y), (x + 2, y)])][how]  # no area


def run_bad(c):
    from shapely.geometry import Polygon, box
    from shapely.ops import unary_union

    from gerrychain import Graph
    from gerrychain.graph.geo import GeometryError

    t = c["t"]
    geoms = polygons(t, lambda x, y: (float(x), float(y)), False)
    s = t["s"]
    cx, cy = c["cell"] % s, c["cell"] // s
    kind = c["kind"]
    overlap = None
    if kind == "bowtie":
        geoms.append(invalid(c.get("how", 0), cx, cy + 50))
    elif kind == "overlap":
        # polygon `at` also covers a cell of another one
        if t["cells"][c["cell"]] == c["at"]:
            raise Skip
        geoms[c["at"]] = unary_union([geoms[c["at"]], box(cx, cy, cx + 1, cy + 1)])
        overlap = (c["at"], t["cells"][c["cell"]])
    elif kind == "contain":
        geoms.append(box(cx + 0.25, cy + 0.25, cx + 0.75, cy + 0.75))
        overlap = (len(geoms) - 1, t["cells"][c["cell"]])
    elif kind == "twice":
        geoms.append(Polygon(geoms[c["at"]]) if geoms[c["at"]].geom_type == "Polygon" else geoms[c["at"]])
        overlap = (len(geoms) - 1, c["at"])
    df, rows = frame(c, geoms, "EPSG:26986")
    ids = [None] * len(geoms)
    for p, i in enumerate(rows):
        ids[i] = df.index[p]
    before = snapshot(df)
    adj = "bishop" if kind == "badadj" else c["adj"]
    refused = None
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        try:
            kw = {"ignore_errors": True} if c["ignore"] else {}
            if c["file"]:
                d = tempfile.mkdtemp(prefix="vpc16")
                try:
                    df.to_file(os.path.join(d, "map.gpkg"), index=False, driver="GPKG")
                    ids = [None] * len(geoms)
                    for p, i in enumerate(rows):
                        ids[i] = p
                    log.clear()
                    g = Graph.from_file(os.path.join(d, "map.gpkg"), adjacency=adj, **kw)
                finally:
                    shutil.rmtree(d)
            else:
                g = Graph.from_geodataframe(df, adjacency=adj, **kw)
        except (GeometryError, ValueError) as e:
            refused = e
        except Exception as e:
            if kind == "bowtie" and c["ignore"]:
                return {"nt": True, "tags": ["attempt failed"]}  # "attempt to create the graph anyway"
            raise
    texts = [str(w.message) for w in log]
    check(snapshot(df) == before, "from_geodataframe changed the frame")
    if kind == "bowtie" and not c["ignore"]:
        check(isinstance(refused, GeometryError), lambda: f"a frame with an invalid polygon was not refused with GeometryError ({refused!r})")
    elif kind == "badadj":
        check(isinstance(refused, ValueError), lambda: f"adjacency 'bishop' was not refused ({refused!r})")
    else:
        check(refused is None, lambda: f"refused: {refused!r} (ignore_errors={c['ignore']})")
        check(set(g.nodes) == set(ids), "nodes")
        if kind in ("overlap", "contain", "twice", "good"):
            check(any("verlap" in x for x in texts) == (overlap is not None), lambda: f"overlap of {overlap}: warnings {texts}")
            if overlap is not None:
                w = [x for x in texts if "verlap" in x][0]
                check(all(str(ids[i]) in w for i in overlap), lambda: f"the overlap of {[ids[i] for i in overlap]} is not named: {w}")
    return {"nt": kind != "good", "tags": [kind, "ignore" if c["ignore"] else "strict"]}


SUBS = [
    Sub("tilings", cases, run, 3000, 30000, 60),
    Sub("bigtilings", big_cases, run, 64, 2000, 120),
    Sub("reprojected", reproj_cases, run_reproj, 700, 10000, 60),
    Sub("refusals", bad_cases, run_bad, 400, 10000, 60),
]
