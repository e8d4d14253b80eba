"""P23  Coordinates, bounding boxes and polygons."""
import math

from hypothesis import strategies as st

from ..core import Property

PROP = Property(
    "P23",
    "A case is a transformer (projections, reference point) with points or a "
    "polygon, a bounding box, or a catalogue with a polygon. Non-trivial: at "
    "least two points and a reference point other than the origin, a box with "
    "an area, or a catalogue partly inside of the polygon.",
    ["points within central Europe, projections valid there",
     "polygons do not cross themselves; coordinates are multiples of 1/4 so "
     "that points on the border are exact"])

LOCAL = [2056, "epsg:2056", 32632, 3857, 21781,
         "+proj=utm +zone=32 +ellps=WGS84 +datum=WGS84 +units=m +no_defs",
         "+proj=laea +lat_0=47 +lon_0=8 +datum=WGS84 +units=m"]
CONFORMAL = {32632, LOCAL[5], LOCAL[6], 2056, "epsg:2056", 21781}

lon = st.integers(6_000_000, 10_500_000).map(lambda k: k / 1e6)
lat = st.integers(45_800_000, 47_800_000).map(lambda k: k / 1e6)
alt = st.sampled_from([0, 0.0, 500, -1234.5, 8848.25])


@st.composite
def _frame(draw):
    f = {"local": draw(st.sampled_from(LOCAL)),
         "external": draw(st.sampled_from([None, None, 4326, "epsg:4326",
                                           4258, 3857])),
         "ref": draw(st.sampled_from(["none", "local", "geo"])),
         "rlon": draw(lon), "rlat": draw(lat), "ralt": draw(alt)}
    return f


def proj(a, b):
    from pyproj import Transformer
    return Transformer.from_crs(a, b, always_xy=True)


_CT = {}


def frame(f):
    """(transformer, expected reference point, external coordinates of
    geographic ones)"""
    from seismostats.utils import CoordinateTransformer
    key = repr(sorted(f.items(), key=str))
    if key in _CT:
        return _CT[key]
    loc = f["local"]
    ext = f["external"] or 4326
    kw = {"external_proj": f["external"]} if f["external"] else {}
    if f["ref"] == "none":
        ref = (0.0, 0.0, 0.0)
        ct = CoordinateTransformer(loc, **kw)
    else:
        e, n = proj(4326, loc).transform(f["rlon"], f["rlat"])
        ref = (e, n, f["ralt"])
        if f["ref"] == "local":
            ct = CoordinateTransformer(loc, e, n, f["ralt"], **kw)
        else:
            ct = CoordinateTransformer(loc, f["rlon"], f["rlat"], f["ralt"],
                                       ref_proj=4326, **kw)
    if len(_CT) > 200:
        _CT.clear()
    _CT[key] = ct, ref, proj(4326, ext), proj(ext, loc), ext
    return _CT[key]


@st.composite
def _points(draw):
    n = draw(st.integers(1, 5))
    return {"frame": draw(_frame()),
            "p": draw(st.lists(st.tuples(lon, lat, alt), min_size=n,
                               max_size=n)),
            "alt": draw(st.booleans()),
            "as": draw(st.sampled_from(["scalar", "list", "array", "series",
                                        "tuple"]))}


def give(v, how):
    import numpy as np
    import pandas as pd
    return {"list": list, "array": np.array, "tuple": tuple,
            "series": lambda x: pd.Series(x, index=range(5, 5 + len(x)))
            }[how](v)


def near(a, b, tol, what):
    a, b = [float(x) for x in a], [float(x) for x in b]
    assert len(a) == len(b), f"{what}: {len(a)} of {len(b)} values"
    for x, y in zip(a, b):
        assert abs(x - y) <= tol, f"{what}: {x} instead of {y}"


@PROP.facet(_points, quick=250, shards=2)
def points(case, ctx):
    """local coordinates are the projected ones relative to the reference
    point (which is the origin), for numbers, lists, arrays and columns alike;
    the way back gives the same point; altitudes only shift; distances near
    the reference are those on the sphere"""
    ct, ref, to_ext, to_loc, ext = frame(case["frame"])
    geo = case["p"]
    x, y = to_ext.transform([p[0] for p in geo], [p[1] for p in geo])
    h = [p[2] for p in geo] if case["alt"] else None
    e, n = to_loc.transform(x, y)
    e, n = [v - ref[0] for v in e], [v - ref[1] for v in n]
    u = [v - ref[2] for v in h] if h is not None else None
    deg = ext != 3857
    back_tol = 1e-7 if deg else 1e-2
    what = f"{case['frame']['local']}, {case['as']}"
    if case["as"] == "scalar":
        res, inv = [], []
        for i in range(len(x)):
            a = () if h is None else (h[i],)
            r = ct.to_local_coords(x[i], y[i], *a)
            res.append(r)
            inv.append(ct.from_local_coords(*r))
        res, inv = list(zip(*res)), list(zip(*inv))
        if h is None:
            assert all(v is None for v in res[2] + inv[2]), f"{what}: altitude"
    else:
        g = [give(v, case["as"]) for v in (x, y)]
        k = {} if h is None else {"altitude": give(h, case["as"])}
        res = ct.to_local_coords(*g, **k)
        inv = ct.from_local_coords(*[None if v is None else
                                     give(list(v), case["as"]) for v in res])
        near(g[0], x, 0, f"{what}: input")
        near(g[1], y, 0, f"{what}: input")
        if h is None:
            assert res[2] is None and inv[2] is None, f"{what}: altitude"
        else:
            near(k["altitude"], h, 0, f"{what}: input")
    # with an altitude, a datum shift moves the point by a few centimetres
    tol = 1e-6 if h is None else 0.3
    near(res[0], e, tol, f"{what}: easting")
    near(res[1], n, tol, f"{what}: northing")
    near(inv[0], x, back_tol, f"{what}: longitude after the way back")
    near(inv[1], y, back_tol, f"{what}: latitude after the way back")
    if h is not None:
        near(res[2], u, 1e-6, f"{what}: altitude")
        near(inv[2], h, 1e-6, f"{what}: altitude after the way back")
    if case["frame"]["ref"] != "none":
        o = to_ext.transform(case["frame"]["rlon"], case["frame"]["rlat"])
        zero = ct.to_local_coords(*o, case["frame"]["ralt"])
        near(zero, (0, 0, 0), 0.5, f"{what}: reference point")
        if case["frame"]["local"] in CONFORMAL:
            for p, a, b in zip(geo, res[0], res[1]):
                la, lb = math.radians(p[1]), math.radians(case["frame"]["rlat"])
                dl = math.radians(p[0] - case["frame"]["rlon"])
                dx = 6371008.8 * dl * math.cos((la + lb) / 2)
                dy = 6371008.8 * (la - lb)
                d = math.hypot(dx, dy)
                assert math.hypot(a - dx, b - dy) < 0.06 * d + 5, \
                    f"{what}: {p} is at {a}, {b} from the reference, " \
                    f"about {dx}, {dy} expected"
    ctx.nt(len(geo) > 1 and case["frame"]["ref"] != "none")
    ctx.label(f"{case['as']}, reference {case['frame']['ref']}")


# ------------------------------------------------------------------ polygons
@st.composite
def _ring(draw, lo=-8, hi=8, nmax=8):
    """vertices of a simple polygon, ordered around a centre"""
    pts = draw(st.lists(st.tuples(st.integers(lo, hi), st.integers(lo, hi)),
                        min_size=3, max_size=nmax, unique=True))
    c = draw(st.tuples(st.integers(lo, hi), st.integers(lo, hi)))
    seen, out = set(), []
    for x, y in sorted(pts):
        dx, dy = x - c[0], y - c[1]
        if dx == dy == 0:
            continue
        g = math.gcd(dx, dy)
        if (dx // g, dy // g) not in seen:
            seen.add((dx // g, dy // g))
            out.append((x, y))
    out.sort(key=lambda p: math.atan2(p[1] - c[1], p[0] - c[0]))
    area = sum(a[0] * b[1] - a[1] * b[0]
               for a, b in zip(out, out[1:] + out[:1]))
    return out if len(out) > 2 and area else [(0, 0), (4, 0), (0, 4)]


@st.composite
def _poly(draw):
    return {"frame": draw(_frame()), "ring": draw(_ring()),
            "hole": draw(st.booleans()), "z": draw(st.booleans()),
            "closed": draw(st.booleans())}


@PROP.facet(_poly, quick=200, shards=2)
def polygons(case, ctx):
    """polygons, with holes and altitudes, are converted vertex by vertex like
    points, in order, and back"""
    from shapely.geometry import Polygon
    ct, ref, to_ext, to_loc, ext = frame(case["frame"])
    tol = 1e-7 if ext != 3857 else 1e-2

    def ring(r, shift):
        out = []
        for k, (a, b) in enumerate(r):
            p = to_ext.transform(8 + shift + a / 8, 46.8 + shift + b / 8)
            out.append(p + (100.5 * k,) if case["z"] else p)
        return out
    rings = [ring(case["ring"], 0)]
    if case["hole"]:
        rings = [ring([(-9, -9), (9, -9), (9, 9), (-9, 9)], 0),
                 ring(case["ring"], 0)]
    poly = Polygon(rings[0], rings[1:])
    local = ct.polygon_to_local_coords(poly)
    back = ct.polygon_from_local_coords(local)
    what = f"polygon in {case['frame']['local']}"
    for geom, name in ((local, "local"), (back, "back")):
        got = [geom.exterior] + list(geom.interiors)
        assert len(got) == len(rings), f"{what}: {len(got)} rings"
        for r, want in zip(got, rings):
            c = list(r.coords)
            want = want + want[:1]
            assert len(c) == len(want), f"{what}: {len(c)} vertices"
            if name == "local":
                e, n = to_loc.transform([p[0] for p in want],
                                        [p[1] for p in want])
                exp = [(a - ref[0], b - ref[1]) + ((p[2] - ref[2],)
                       if case["z"] else ()) for a, b, p in zip(e, n, want)]
            else:
                exp = want
            for p, q in zip(c, exp):
                near(p, q, tol if name == "back" else
                     0.3 if case["z"] else 1e-6,
                     f"{what}, {name}: vertex")
    for r, want in zip([poly.exterior] + list(poly.interiors), rings):
        assert list(r.coords)[:-1] == want, f"{what}: input changed"
    ctx.nt(case["frame"]["ref"] != "none")
    ctx.label(f"{len(rings)} rings{', z' * case['z']}")


q = st.integers(-800, 800).map(lambda k: k / 4)


@PROP.facet(lambda: st.fixed_dictionaries({
    "x": st.tuples(q, q), "y": st.tuples(q, q), "ring": _ring(nmax=12),
    "srid": st.sampled_from([None, 4326]),
    "probe": st.lists(st.tuples(q, q), min_size=1, max_size=5)}), quick=300)
def boxes(case, ctx):
    """the polygon of a bounding box is exactly the rectangle, and the
    bounding box of a polygon its smallest and largest coordinates (of x and
    y), which fit together"""
    from shapely.geometry import Point, Polygon
    from seismostats.utils import (bounding_box_to_polygon,
                                   polygon_to_bounding_box)
    (x0, x1), (y0, y1) = sorted(case["x"]), sorted(case["y"])
    p = bounding_box_to_polygon(x0, x1, y0, y1, case["srid"])
    assert set(p.exterior.coords) == {(x0, y0), (x1, y0), (x1, y1), (x0, y1)},\
        f"corners {list(p.exterior.coords)} of {x0, x1, y0, y1}"
    assert abs(p.area - (x1 - x0) * (y1 - y0)) <= 1e-9, "area"
    b = polygon_to_bounding_box(p)
    assert isinstance(b, tuple) and b == (x0, y0, x1, y1), \
        f"box {b} instead of {(x0, y0, x1, y1)}"
    if x0 < x1 and y0 < y1:
        for a, c in case["probe"] + [(x0, y1), ((x0 + x1) / 2, y0)]:
            assert p.intersects(Point(a, c)) == (x0 <= a <= x1 and
                                                 y0 <= c <= y1), f"{a, c}"
        ctx.nt()
    r = [(v / 4, w / 3) for v, w in case["ring"]]
    b = polygon_to_bounding_box(Polygon(r))
    assert b == (min(v for v, _ in r), min(w for _, w in r),
                 max(v for v, _ in r), max(w for _, w in r)), f"{b} of {r}"


# ---------------------------------------------------------- events in a polygon
def inside(p, ring):
    """exact for integer coordinates; the border belongs to the polygon"""
    (x, y), res = p, False
    for (ax, ay), (bx, by) in zip(ring, ring[1:] + ring[:1]):
        cross = (bx - ax) * (y - ay) - (by - ay) * (x - ax)
        if cross == 0 and min(ax, bx) <= x <= max(ax, bx) \
                and min(ay, by) <= y <= max(ay, by):
            return True
        if (ay > y) != (by > y) and (cross > 0) == (by > ay):
            res = not res
    return res


@st.composite
def _cat(draw):
    ring = draw(_ring())
    near_ = st.one_of(
        st.tuples(st.integers(-18, 18), st.integers(-18, 18)),
        st.sampled_from([(2 * x, 2 * y) for x, y in ring]),
        st.sampled_from([(a[0] + b[0], a[1] + b[1]) for a, b in
                         zip(ring, ring[1:] + ring[:1])]))
    n = draw(st.integers(0, 8))
    return {"ring": ring, "rev": draw(st.booleans()),
            "p": draw(st.lists(near_, min_size=n, max_size=n)),
            "nan": draw(st.lists(st.integers(0, 9), min_size=n, max_size=n)),
            "as": draw(st.sampled_from(["frame", "catalog", "forecast"])),
            "kind": draw(st.sampled_from(["list", "array", "lists"])),
            "closed": draw(st.booleans()),
            "cols": draw(st.lists(st.sampled_from(
                ["time", "remark", "inside_polygon", "inside", "event_type"]),
                unique=True)),
            "index": draw(st.sampled_from(["range", "same", "shuffled"])),
            "at": draw(st.sampled_from([(0, 0), (46, 8), (-120, 35)]))}


@PROP.facet(_cat, quick=400, shards=2)
def events_in_polygon(case, ctx):
    """exactly the events inside of the polygon or on its border (vertices as
    latitude, longitude) are kept, in order, with row labels, all columns,
    class and attributes; the input stays as it is"""
    import numpy as np
    import pandas as pd
    from seismostats import Catalog, ForecastCatalog
    from seismostats.utils import cat_intersect_polygon
    n, (o1, o2) = len(case["p"]), case["at"]
    nan = [k == 0 for k in case["nan"]]
    d = {"latitude": [float("nan") if m else o1 + p[0] / 8
                      for p, m in zip(case["p"], nan)],
         "longitude": [o2 + p[1] / 8 for p in case["p"]],
         "magnitude": [1.0 + i for i in range(n)]}
    for c in case["cols"]:
        d[c] = {"time": pd.to_datetime(["2020-01-01"] * n),
                "remark": ["a", "b"] * n, "inside_polygon": [0, 1] * n,
                "inside": [1.5] * n, "event_type": ["earthquake"] * n}[c][:n]
    idx = {"range": range(n), "same": [5] * n,
           "shuffled": [(k * 7 + 3) % 11 for k in range(n)]}[case["index"]]
    if case["as"] == "forecast":
        d["catalog_id"] = list(range(n))
    cat = pd.DataFrame(d, index=list(idx))
    if case["as"] == "catalog":
        cat = Catalog(cat, name="x", mc=1.5, delta_m=0.1)
    elif case["as"] == "forecast":
        cat = ForecastCatalog(cat, n_catalogs=20, mc=1.5)
    snap = pd.DataFrame(cat).copy()
    ring = [(o1 + a / 4, o2 + b / 4) for a, b in case["ring"]]
    if case["rev"]:
        ring = ring[::-1]
    if case["closed"]:
        ring = ring + ring[:1]
    v = {"list": ring, "array": np.array(ring),
         "lists": [list(p) for p in ring]}[case["kind"]]
    res = cat_intersect_polygon(cat, v)
    pd.testing.assert_frame_equal(pd.DataFrame(cat), snap)
    keep = [not m and inside(p, [(2 * a, 2 * b) for a, b in case["ring"]])
            for p, m in zip(case["p"], nan)]
    want = snap[np.array(keep, dtype=bool)]
    what = f"events at {case['p']} in {case['ring']}"
    assert type(res) is type(cat), f"{what}: a {type(res).__name__}"
    assert list(res["magnitude"]) == list(want["magnitude"]), \
        f"{what}: kept {list(res['magnitude'])}, " \
        f"expected {list(want['magnitude'])}"
    pd.testing.assert_frame_equal(pd.DataFrame(res), want, check_dtype=n > 0)
    if case["as"] != "frame":
        assert res.mc == 1.5 and getattr(res, "n_catalogs", 20) == 20, \
            f"{what}: attributes"
    ctx.nt(0 < sum(keep) < n)
    ctx.label(f"{case['as']}, {'inside' * any(keep)}")
