"""C24: what Partition.plot draws, read back from the matplotlib axes, against the plan."""
import warnings

from hypothesis import strategies as st

from checks import c16
from vp import gen, hist
from vp.harness import Sub, Violation, check

RULE = "at least two districts and three units were drawn"
ASSUMPTIONS = ["at most seven districts, with labels of one kind; colours are compared with each other (equal exactly within a district), not with a colour table"]

LABELS = {"int": lambda j: j + 1, "zero": lambda j: j, "neg": lambda j: -3 * j, "float": lambda j: j / 4, "str": lambda j: "D%d" % j, "numeral": lambda j: str(10 - j), "bool": lambda j: bool(j % 2)}
INDEX = {"default": lambda i: i, "off": lambda i: i + 10, "perm": lambda i: (i * 7 + 3) % 101, "str": lambda i: "id%d" % i, "numeral": lambda i: str(i + 8)}


@st.composite
def cases(draw):
    t = draw(c16.tilings(rmax=4, cmax=4))
    k = max(t["cells"]) + 1
    q = draw(st.integers(1, 7))
    plan = draw(st.lists(st.integers(0, q - 1), min_size=k, max_size=k))
    return {"t": t, "plan": plan, "label": draw(st.sampled_from(sorted(LABELS))), "index": draw(st.sampled_from(sorted(INDEX))),
            "moves": draw(st.lists(st.lists(st.tuples(st.integers(0, k - 1), st.sampled_from(sorted(set(plan)))).map(list), max_size=3), max_size=3)),
            "how": draw(st.sampled_from(["graph", "frame graph", "series", "frame", "renamed", "frame with assignment"])), "shuffle": draw(st.integers(0, 3)), "order": draw(st.integers(0, 3)),
            "kw": draw(st.sampled_from(["none", "none", "cmap", "categorical", "ax", "edge", "legend"])), "geo": draw(st.booleans()),
            "wrong": draw(st.sampled_from([None] * 5 + ["missing", "extra", "swapped"])), "at": draw(st.integers(0, 99))}


def keyof(ring_points):
    return frozenset((round(float(x), 6), round(float(y), 6)) for x, y in ring_points)


def drawn(ax):
    """{vertices of a polygon: the colours it was drawn in}"""
    out = {}
    for coll in ax.collections:
        coll.update_scalarmappable()
        cols = coll.get_facecolor()
        for i, path in enumerate(coll.get_paths()):
            out.setdefault(keyof(path.vertices), []).append(tuple(round(float(v), 6) for v in cols[i % len(cols)]))
    return out


def run(c):
    import geopandas
    import matplotlib.pyplot as plt

    from gerrychain import GeographicPartition, Graph, Partition

    t, k = c["t"], len(c["plan"])
    geoms = c16.polygons(t, lambda x, y: (float(x), float(y)), False)
    ids = [INDEX[c["index"]](i) for i in range(k)]
    lab = LABELS[c["label"]]
    rows = gen.ordered(range(k), c["shuffle"])
    df = geopandas.GeoDataFrame({"pop": rows}, geometry=[geoms[i] for i in rows], index=[ids[i] for i in rows])
    with hist.fresh_defaults(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g = Graph.from_geodataframe(df)
        part = (GeographicPartition if c["geo"] else Partition)(g, {ids[i]: lab(c["plan"][i]) for i in gen.ordered(range(k), c["order"])})
        plan = list(c["plan"])
        for m in c["moves"]:
            part = part.flip({ids[i]: lab(j) for i, j in m})
            for i, j in dict(map(tuple, m)).items():
                plan[i] = j
        again = gen.ordered(range(k), c["order"] + 1)
        # the caller's own geometries: the same units, drawn elsewhere
        moved = [s if c["how"] == "graph" else __import__("shapely").affinity.translate(s, 100, 50) for s in geoms]
        keys = [ids[i] for i in again]
        shapes = [moved[i] for i in again]
        if c["wrong"] == "missing":
            keys, shapes = keys[1:], shapes[1:]
        elif c["wrong"] == "extra":
            keys, shapes = keys + ["new unit" if isinstance(keys[0], str) else 9999], shapes + [moved[0]]
        elif c["wrong"] == "swapped":
            keys = keys[:-1] + ["new unit" if isinstance(keys[0], str) else 9999]
        series = geopandas.GeoSeries(shapes, index=keys)
        arg = {"graph": None, "series": series, "frame": geopandas.GeoDataFrame({"pop": range(len(keys))}, geometry=series, index=keys), "frame graph": df,
               "renamed": geopandas.GeoDataFrame({"pop": range(len(keys))}, geometry=series, index=keys).rename_geometry("shape"),
               "frame with assignment": geopandas.GeoDataFrame({"assignment": [i % 2 for i in range(len(keys))]}, geometry=series, index=keys)}[c["how"]]
        own = c["how"] not in ("graph", "frame graph")
        if c["how"] == "frame graph":
            moved = geoms
        kw = {"none": {}, "cmap": {"cmap": "tab10"}, "categorical": {"categorical": True}, "edge": {"edgecolor": "black"}, "legend": {"legend": True, "categorical": True}}.get(c["kw"], {})
        fig = None
        if c["kw"] == "ax":
            fig, kw["ax"] = plt.subplots()
        before = None if arg is None else (list(arg.index), [s.wkb for s in (arg.geometry if hasattr(arg, "columns") else arg)], list(getattr(arg, "columns", [])))
        plan_before = dict(part.assignment.items())
        try:
            if own and c["wrong"]:
                try:
                    part.plot(arg, **kw)
                except TypeError:
                    return {"nt": k > 1, "tags": ["refused"]}
                raise Violation(f"geometries of other units ({c['wrong']}) were plotted")
            ax = part.plot(**kw) if arg is None else part.plot(arg, **kw) if c["at"] % 2 else part.plot(geometries=arg, **kw)
            check(c["kw"] != "ax" or ax is kw["ax"], "the plot was not made on the axes given")
            got = drawn(ax)
        finally:
            plt.close("all")
        if before is not None:
            check(before == (list(arg.index), [s.wkb for s in (arg.geometry if hasattr(arg, "columns") else arg)], list(getattr(arg, "columns", []))), "the caller's geometries were changed")
        check(dict(part.assignment.items()) == plan_before, "the plan was changed by plotting it")
        colour = {}
        pieces = 0
        for i in range(k):
            for poly in getattr(moved[i], "geoms", [moved[i]]):
                pts = [p for ring in [poly.exterior, *poly.interiors] for p in ring.coords]
                cols = got.get(keyof(pts))
                check(cols is not None, lambda: f"unit {ids[i]} was not drawn")
                check(len(set(cols)) == 1, lambda: f"unit {ids[i]} was drawn in the colours {cols}")
                colour.setdefault(lab(plan[i]), set()).add(cols[0])
                pieces += 1
        check(sum(map(len, got.values())) == pieces, lambda: f"{sum(map(len, got.values()))} polygons were drawn, there are {pieces}")
        for d, cols in colour.items():
            check(len(cols) == 1, lambda: f"district {d!r} was drawn in the colours {cols}; plan {plan}")
        allcols = [next(iter(s)) for s in colour.values()]
        check(len(set(allcols)) == len(allcols), lambda: f"two districts were drawn in one colour: {colour}")
    return {"nt": len(colour) > 1 and k > 2, "tags": [c["how"], c["label"]]}


SUBS = [Sub("plot", cases, run, quick=1200, thorough=30000, timeout=60, rule="tilings x plans and flips x where the geometries come from x labels x options")]
