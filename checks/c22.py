"""C22: UTM conversion and reprojection against PROJ."""
import math

import numpy
from hypothesis import strategies as st

from vp.harness import Skip, Sub, Violation, check

QUICK = 4  # the numbers of cases in SUBS, times this, in the quick tier
RULE = "points: off the central meridian and the equator; arrays: at least two points; corners and refusals: every case; reprojection: at least two shapes"
ASSUMPTIONS = ["coordinates agree with PROJ to 2 mm; converting back returns the point to 3e-8 degrees within 3 degrees of the central meridian "
               "(1e-6 degrees up to 6 degrees: the Norway zone and forced zones)"]

EDGES_LAT = [-80, -72, -64, -56, -8, 0, 8, 40, 48, 55.999999, 56, 63.999999, 64, 71.999999, 72, 79.5, 84, 83.999999, -0.000001, 0.000001, -79.999999]
EDGES_LON = [-180, 180, 179.999999, -179.999999, -174, 0, -0.000001, 2.999999, 3, 6, 8.999999, 9, 11.999999, 12, 20.999999, 21, 32.999999, 33,
             41.999999, 42, 36, 30, 24, 18, -6, -72, -78, -84, -120]
lats = st.one_of(st.sampled_from(EDGES_LAT), st.floats(-80, 84, allow_nan=False).map(lambda x: round(x, 7)), st.integers(-80, 84), st.floats(54, 84).map(lambda x: round(x, 6)))
lons = st.one_of(st.sampled_from(EDGES_LON), st.floats(-180, 180, allow_nan=False).map(lambda x: round(x, 7)), st.integers(-180, 180), st.floats(-2, 44).map(lambda x: round(x, 6)))


def zone(lat, lon):
    z = int(math.floor((lon + 180) / 6)) + 1
    z = 60 if z > 60 else z
    if 56 <= lat < 64 and 3 <= lon < 12:
        z = 32
    if 72 <= lat <= 84:
        for a, b, q in ((0, 9, 31), (9, 21, 33), (21, 33, 35), (33, 42, 37)):
            if a <= lon < b:
                z = q
    return z


def letter(lat):
    return "X" if lat >= 72 else "CDEFGHJKLMNPQRSTUVWX"[int(math.floor((lat + 80) / 8))]


_proj = {}


def proj(z, south):
    import pyproj

    if (z, south) not in _proj:
        _proj[z, south] = pyproj.Proj(proj="utm", zone=z, south=south, ellps="WGS84")
    return _proj[z, south]


def agree_forward(lat, lon, e, n, z, what=""):
    x, y = proj(z, lat < 0)(lon, lat)
    d = abs(lon - (6 * z - 183))
    tol = 0.002 if d <= 4 else 0.05
    check(abs(e - x) <= tol and abs(n - y) <= tol, lambda: f"from_latlon{(lat, lon)}{what} = {(e, n)}, PROJ says {(x, y)} in zone {z}")


def agree_back(lat, lon, a, b, z, what=""):
    d = abs(lon - (6 * z - 183))
    tol = 3e-8 if d <= 3.0001 else 2e-6
    check(abs(a - lat) <= tol and abs(b - lon) * math.cos(math.radians(lat)) <= tol, lambda: f"{(lat, lon)} came back as {(a, b)} through zone {z}{what}")


def pt_cases():
    return st.fixed_dictionaries({"lat": lats, "lon": lons, "force": st.sampled_from([None, None, None, -1, 1]), "letter": st.booleans(), "np": st.booleans()})


def run_points(c):
    from gerrychain.vendor.utm import from_latlon, to_latlon

    lat, lon = c["lat"], c["lon"]
    if c["np"]:
        lat, lon = numpy.float64(lat), numpy.float64(lon)
    e, n, z, l = from_latlon(lat, lon)
    check(z == zone(c["lat"], c["lon"]), lambda: f"zone of {(lat, lon)} is {z}, should be {zone(c['lat'], c['lon'])}")
    check(l == letter(c["lat"]), lambda: f"zone letter of {(lat, lon)} is {l}, should be {letter(c['lat'])}")
    agree_forward(c["lat"], c["lon"], e, n, z)
    a, b = to_latlon(e, n, z, l)
    agree_back(c["lat"], c["lon"], a, b, z)
    a, b = to_latlon(e, n, z, l.lower())
    agree_back(c["lat"], c["lon"], a, b, z, " (lower-case letter)")
    a, b = to_latlon(e, n, z, northern=c["lat"] >= 0)
    agree_back(c["lat"], c["lon"], a, b, z, " (northern)")
    if c["force"]:
        z2 = z + c["force"]
        if 1 <= z2 <= 60 and abs(c["lon"] - (6 * z2 - 183)) <= 6:
            kw = {"force_zone_letter": l} if c["letter"] else {}
            e2, n2, zz, ll = from_latlon(lat, lon, force_zone_number=z2, **kw)
            check(zz == z2 and ll == l, lambda: f"forced zone {z2}: {zz}{ll}")
            agree_forward(c["lat"], c["lon"], e2, n2, z2, f" in zone {z2}")
            a, b = to_latlon(e2, n2, z2, ll, strict=False)
            agree_back(c["lat"], c["lon"], a, b, z2)
    return {"nt": c["lat"] != 0 and (c["lon"] + 3) % 6 != 0, "tags": ["north" if c["lat"] >= 0 else "south", "exception" if z != int((c["lon"] + 180) // 6) + 1 else "plain"]}


def corner_cases():
    return st.fixed_dictionaries({"lat": st.sampled_from(EDGES_LAT + [60, 62.5, 75, 78]), "np": st.booleans()})


def run_corners(c):
    """One latitude against every longitude at which zones meet, just beside them, and inside each special box."""
    special = 0
    for lon in sorted(set(EDGES_LON + [6 * k - 180 for k in range(61)] + [x + d for x in EDGES_LON for d in (-0.5, 0.5, -1.5, 1.5, 4.5) if -180 <= x + d <= 180])):
        special += run_points({"lat": c["lat"], "lon": lon, "force": None, "letter": False, "np": c["np"]})["tags"][1] == "exception"
    return {"nt": True, "tags": ["special zones" if special else "plain"]}


@st.composite
def arr_cases(draw):
    z = draw(st.integers(1, 60))
    south = draw(st.booleans())
    m = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 6, 40]))
    band = st.floats(-79, -0.5) if south else st.floats(0.5, 55)
    one = draw(st.booleans())  # all in one band
    if one:
        base = draw(st.integers(-9, -1)) * 8 if south else draw(st.integers(0, 6)) * 8
        band = st.floats(base + 0.01, base + 7.9)
    lat = draw(st.lists(band.map(lambda x: round(x, 6)), min_size=m, max_size=m))
    lon = draw(st.lists(st.floats(-2.9, 2.9).map(lambda x: round(6 * z - 183 + x, 6)), min_size=m, max_size=m))
    return {"lat": lat, "lon": lon, "z": z, "shape": draw(st.sampled_from(["flat", "column", "scalar-lat"])), "mixed": draw(st.sampled_from([False, False, True]))}


def run_arrays(c):
    from gerrychain.vendor.utm import from_latlon, to_latlon

    lat, lon = numpy.array(c["lat"], dtype=float), numpy.array(c["lon"], dtype=float)
    if c["mixed"]:
        lat = numpy.append(lat, [-lat[0]])
        lon = numpy.append(lon, [lon[0]])
        try:
            from_latlon(lat, lon)
        except ValueError:
            return {"nt": True, "tags": ["mixed"]}
        raise Violation("latitudes of both signs were not refused")
    if c["shape"] == "column":
        lat, lon = lat.reshape(-1, 1), lon.reshape(-1, 1)
    keep = (lat.copy(), lon.copy())
    if c["shape"] == "scalar-lat":
        e, n, z, l = from_latlon(float(c["lat"][0]), lon)
        pts = [(c["lat"][0], x) for x in c["lon"]]
        check(numpy.shape(e) == lon.shape, lambda: f"shape {numpy.shape(e)}")
    else:
        e, n, z, l = from_latlon(lat, lon)
        pts = list(zip(c["lat"], c["lon"]))
        check(numpy.shape(e) == lat.shape and numpy.shape(n) == lat.shape, lambda: f"shapes {numpy.shape(e)}, {numpy.shape(n)}, given {lat.shape}")
    check(numpy.array_equal(keep[0], lat) and numpy.array_equal(keep[1], lon), "the arrays were changed")
    check(z == c["z"] and l == letter(pts[0][0]), lambda: f"zone {z}{l}, should be {c['z']}{letter(pts[0][0])}")
    for i, (a, b) in enumerate(pts):
        agree_forward(a, b, numpy.ravel(e)[i], numpy.ravel(n)[i], z, f" (element {i})")
        e1, n1, z1, _ = from_latlon(a, b)
        check(abs(e1 - numpy.ravel(e)[i]) < 1e-6 and abs(n1 - numpy.ravel(n)[i]) < 1e-6, lambda: f"element {i} differs from the single conversion")
    la, lo = to_latlon(e, n, z, l)
    for i, (a, b) in enumerate(pts):
        agree_back(a, b, numpy.ravel(la)[i], numpy.ravel(lo)[i], z, f" (element {i})")
    return {"nt": len(pts) > 1, "tags": [c["shape"]]}


def bad_cases():
    big = st.one_of(st.floats(84.000001, 1e6), st.floats(-1e6, -80.000001), st.sampled_from([84.0001, -80.0001, 90, -90]))
    bigl = st.one_of(st.floats(180.000001, 1e6), st.floats(-1e6, -180.000001), st.sampled_from([180.0001, -180.0001, 360]))
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["lat", "lon", "zone", "letter", "neither", "both", "east", "north", "arr", "arrlat", "arrlon", "arreast", "arrnorth", "force", "forceletter"]), "big": big, "bigl": bigl,
        "ok": st.floats(-79, 83).map(lambda x: round(x, 4)), "okl": st.floats(-179, 179).map(lambda x: round(x, 4)),
        "zone": st.one_of(st.sampled_from([0, 61, -1]), st.integers(61, 400), st.integers(-400, 0)), "letter": st.sampled_from(list("ABIOYZabioyz")),
        "east": st.one_of(st.sampled_from([99999.99, 1000000, 0, -5]), st.floats(1000000, 1e8), st.floats(-1e7, 99999.9)),
        "north": st.one_of(st.sampled_from([-1, -0.01, 10000000.01]), st.floats(1.0000001e7, 1e9), st.floats(-1e9, -0.001)), "z": st.integers(1, 60), "m": st.integers(1, 12), "at": st.integers(0, 12)})


def amid(x, good, c):
    """An array of good values with x among them."""
    a = [good] * c.get("m", 1)
    a.insert(min(c.get("at", 0), len(a)), x)
    return numpy.array(a, dtype=float)


def run_bad(c):
    from gerrychain.vendor.utm import OutOfRangeError, from_latlon, to_latlon

    k = c["kind"]
    call, exc = {
        "lat": (lambda: from_latlon(c["big"], c["okl"]), OutOfRangeError),
        "lon": (lambda: from_latlon(c["ok"], c["bigl"]), OutOfRangeError),
        "zone": (lambda: to_latlon(500000, 100000, c["zone"], "U"), OutOfRangeError),
        "letter": (lambda: to_latlon(500000, 100000, c["z"], c["letter"]), OutOfRangeError),
        "neither": (lambda: to_latlon(500000, 100000, c["z"]), ValueError),
        "both": (lambda: to_latlon(500000, 100000, c["z"], "U", northern=c["ok"] > 0), ValueError),
        "east": (lambda: to_latlon(c["east"], 100000, c["z"], "U"), OutOfRangeError),
        "north": (lambda: to_latlon(500000, c["north"], c["z"], "U"), OutOfRangeError),
        "arr": (lambda: from_latlon(numpy.array([abs(c["ok"]) + 0.1 if abs(c["ok"]) < 80 else 1.0, abs(c["big"]) + 5]), numpy.array([c["okl"], c["okl"]])), OutOfRangeError),
        "arrlat": (lambda: from_latlon(amid(c["big"], math.copysign(c["ok"] if abs(c["ok"]) < 80 else 79, c["big"]), c), amid(c["okl"], c["okl"], c)), OutOfRangeError),
        "arrlon": (lambda: from_latlon(amid(c["ok"], c["ok"], c), amid(c["bigl"], c["okl"], c)), OutOfRangeError),
        "arreast": (lambda: to_latlon(amid(c["east"], 500000, c), amid(1e5, 1e5, c), c["z"], "U"), OutOfRangeError),
        "arrnorth": (lambda: to_latlon(amid(5e5, 5e5, c), amid(c["north"], 5000000, c), c["z"], "U"), OutOfRangeError),
        "force": (lambda: from_latlon(c["ok"], c["okl"], force_zone_number=c["zone"]), OutOfRangeError),
        "forceletter": (lambda: from_latlon(c["ok"], c["okl"], force_zone_number=c["z"], force_zone_letter=c["letter"]), OutOfRangeError),
    }[k]
    try:
        out = call()
    except exc:
        return {"nt": True, "tags": [k]}
    raise Violation(f"{k}: {c} was not refused but gave {out}")


@st.composite
def rep_cases(draw):
    m = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 7, 30]))
    base = draw(st.integers(1, 60))
    lat = draw(st.sampled_from([-60.5, -10.4, 10.3, 40.2, 50.1, 60.2, 75.3]))
    shapes = []
    for _ in range(m):
        z = min(60, max(1, base + draw(st.sampled_from([0, 0, 0, 1, -1, 2]))))
        shapes.append([round(6 * z - 183 + draw(st.floats(-2.8, 2.8)), 4), round(lat + draw(st.floats(-2, 2)), 4)])
    # [half width, bar, side] of a wide bracket, or of two islands, whose centroid lies off the middle and often outside it
    wide = st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(["bracket", "islands"]), st.sampled_from([0.3, 1.5, 4.0]), st.sampled_from([0.2, 0.02]), st.sampled_from([-1, 1])).map(list))
    return {"shapes": shapes, "wide": [draw(wide) for _ in shapes] if m < 8 and abs(lat) < 55 else [], "crs": draw(st.sampled_from(["EPSG:4326", "EPSG:4326", "EPSG:3857"])), "index": draw(st.booleans()), "name": draw(st.booleans()),
            "vals": draw(st.lists(st.integers(0, 99), min_size=m, max_size=m))}


def odd(x, y, kind, w, d, side):
    """A bracket or a pair of islands up to 2w degrees wide; one end is larger than the other."""
    from shapely.geometry import MultiPolygon, box
    from shapely.ops import unary_union

    w = min(w, 179.5 - abs(x))
    ends = [box(x - w, y, x - w + d * (1 if side < 0 else 3), y + 0.5), box(x + w - d * (1 if side > 0 else 3), y, x + w, y + 0.5)]
    return MultiPolygon(ends) if kind == "islands" else unary_union(ends + [box(x - w, y, x + w, y + 0.01)])


def corners_of(g):
    return [p for q in getattr(g, "geoms", [g]) for p in q.exterior.coords]


def run_rep(c):
    import geopandas
    import pyproj
    from shapely.geometry import box

    from gerrychain.graph.geo import identify_utm_zone, reprojected

    h = 0.005
    boxes = [box(x - h, y - h, x + h, y + h) for x, y in c["shapes"]]
    for i, w in enumerate(c.get("wide", [])):
        if w is not None:
            boxes[i] = odd(*c["shapes"][i], *w)
    centres = [(b.centroid.x, b.centroid.y) for b in boxes]
    zones = [zone(y, x) for x, y in centres]
    for x, y in centres:  # a centroid computed on the plane may lie a little off: stay away from the borders
        if len({zone(y + dy, x + dx) for dx in (-0.01, 0.01) for dy in (-0.01, 0.01)}) > 1:
            raise Skip
    m = len(boxes)
    df = geopandas.GeoDataFrame({"v": c["vals"], "w": ["r%d" % i for i in range(m)]}, geometry=boxes, crs="EPSG:4326")
    if c["crs"] != "EPSG:4326":
        df = df.to_crs(c["crs"])
    if c["index"]:
        df.index = ["q%d" % ((i * 5 + 3) % 37) for i in range(m)]
    if c["name"]:
        df = df.rename_geometry("shape")
    before = (list(df.index), list(df.columns), df.crs, [g.wkb for g in df.geometry], list(df["v"]), list(df["w"]))
    top = max(zones.count(z) for z in zones)
    best = {z for z in zones if zones.count(z) == top}
    got = identify_utm_zone(df)
    check(got in best, lambda: f"identify_utm_zone says {got}, the zones are {zones}")
    out = reprojected(df)
    check((list(df.index), list(df.columns), df.crs, [g.wkb for g in df.geometry], list(df["v"]), list(df["w"])) == before, "reprojected changed its argument")
    check(list(out.index) == before[0] and list(out.columns) == before[1] and list(out["v"]) == before[4] and list(out["w"]) == before[5], "reprojected changed rows or columns")
    z = next((z for z in sorted(best) if out.crs.equals(pyproj.CRS(f"+proj=utm +zone={z} +ellps=WGS84 +datum=WGS84 +units=m +no_defs"), ignore_axis_order=True)
              or out.crs.to_dict().get("zone") == z and out.crs.to_dict().get("proj") == "utm"), None)
    check(z is not None, lambda: f"reprojected to {out.crs.name}, the zones are {zones}")
    tr = pyproj.Transformer.from_crs(df.crs, f"+proj=utm +zone={z} +ellps=WGS84 +datum=WGS84 +units=m +no_defs", always_xy=True)
    for g, old in zip(out.geometry, df.geometry):
        pts, new = [tr.transform(*p) for p in corners_of(old)], corners_of(g)
        # southern maps may use the zone's southern variant (false northing)
        d0 = max(max(abs(a - x), abs(b - y)) for (a, b), (x, y) in zip(new, pts))
        d1 = max(max(abs(a - x), abs(b - y - 1e7)) for (a, b), (x, y) in zip(new, pts))
        check(len(new) == len(pts) and min(d0, d1 if old.centroid.y < 0 else d0) < 0.01, lambda: f"shape moved by {d0} m in zone {z}")
    return {"nt": m > 1, "tags": ["several zones" if len(set(zones)) > 1 else "one zone"]}


SUBS = [
    Sub("points", pt_cases, run_points, 4000, 100000, 30),
    Sub("corners", corner_cases, run_corners, 150, 3000, 60),
    Sub("arrays", arr_cases, run_arrays, 1500, 30000, 30),
    Sub("refusals", bad_cases, run_bad, 1500, 30000, 30),
    Sub("reprojection", rep_cases, run_rep, 600, 15000, 60),
]
