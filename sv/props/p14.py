"""P14  Declustering."""
import math

from hypothesis import strategies as st

from .. import gen
from ..core import Property

PROP = Property(
    "P14",
    "A case is a catalogue (times, places, magnitudes, index labels, order), a "
    "window type with or without cutoff and a foreshock proportion. "
    "Non-trivial: at least one event is removed and at least two are kept.",
    ["spherical earth of 6371.227 km radius; events whose distance or delay "
     "is within 1e-9 of a window edge (2 s in time) are set aside; magnitudes "
     "0.1 to 9; no two events with the same magnitude and time"])


def _win(kind, m, cutoff):
    """space window in km, time window in days (published expressions)"""
    if kind == "GardnerKnopoffWindow":
        s = 10 ** (0.1238 * m + 0.983)
        t = 10 ** (0.032 * m + 2.7389) if m >= 6.5 \
            else 10 ** (0.5409 * m - 0.547)
    elif kind == "GruenthalWindow":
        s = math.exp(1.77 + math.sqrt(0.037 + 1.02 * m))
        t = 10 ** (2.8 + 0.024 * m) if m >= 6.5 \
            else abs(math.exp(-3.95 + math.sqrt(0.62 + 17.32 * m)))
    else:
        s = math.exp(-1.024 + 0.804 * m)
        t = math.exp(-2.87 + 1.235 * m)
    if cutoff is not None:
        t = min(t, cutoff)
    return s, t


def _dist(lo1, la1, lo2, la2, r=6371.227):
    """great circle distance through the chord"""
    p = []
    for lo, la in ((lo1, la1), (lo2, la2)):
        lo, la = math.radians(lo), math.radians(la)
        p.append((math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo),
                  math.sin(la)))
    cr = (p[0][1] * p[1][2] - p[0][2] * p[1][1],
          p[0][2] * p[1][0] - p[0][0] * p[1][2],
          p[0][0] * p[1][1] - p[0][1] * p[1][0])
    return r * math.atan2(math.sqrt(sum(c * c for c in cr)),
                          sum(a * b for a, b in zip(*p)))


KINDS = ["GardnerKnopoffWindow", "GruenthalWindow", "UhrhammerWindow"]
cutoffs = st.one_of(st.none(), st.none(),
                    st.sampled_from([0.5, 10, 100.0, 400, 0]),
                    gen.f(0.01, 1000))


@st.composite
def _catalog(draw):
    n = draw(st.integers(0, 30))
    hi = draw(st.sampled_from([3.0, 5.0, 6.6, 9.0]))
    dig = draw(st.sampled_from([1, 2]))
    days = draw(st.sampled_from([1, 30, 1000, 20000]))
    deg = draw(st.sampled_from([0.02, 0.3, 2.0, 40.0]))
    lon0 = draw(st.sampled_from([0, 8, 179.9, -180, -120]))
    lat0 = draw(st.sampled_from([0, 47, -33, 89, -89.5]))
    ev = []
    for _ in range(n):
        lon = lon0 + draw(st.integers(-1000, 1000)) / 1000 * deg
        lat = lat0 + draw(st.integers(-1000, 1000)) / 1000 * deg
        lon = (lon + 180) % 360 - 180
        lat = max(-90, min(90, lat))
        ev.append([draw(st.integers(0, days * 86400)), round(lon, 6),
                   round(lat, 6),
                   draw(gen.f(0.1, hi, dig))])
    if ev:
        # the same places at other times
        m = len(ev)
        ev = gen.stretched(draw, {"ev": ev}, ("ev",), hi=140)["ev"]
        ev = ev[:m] + [[(t + 977 * i) % (days * 86400), lo, la, g] for i, (
            t, lo, la, g) in enumerate(ev[m:])]
    return {"ev": ev, "kind": draw(st.sampled_from(KINDS)),
            "cut": draw(cutoffs),
            "fs": draw(st.sampled_from([None, 1.0, 0.5, 0.0, 0.1])),
            "sub": draw(st.booleans()),
            "index": draw(st.sampled_from(
                ["range", "range", "filtered", "shuffled", "dup", "text",
                 "time"])),
            "frame": draw(st.booleans())}


def _build(case):
    import numpy as np
    import pandas as pd
    from seismostats import Catalog
    ev = case["ev"]
    t = pd.to_datetime("1990-01-01") + pd.to_timedelta(
        np.array([e[0] for e in ev], dtype=float), unit="s")
    if case["sub"]:
        t = t + pd.to_timedelta([(137 * i) % 1000 for i in range(len(ev))],
                                unit="ms")
    d = {"longitude": [float(e[1]) for e in ev],
         "latitude": [float(e[2]) for e in ev],
         "depth": [5.0] * len(ev), "time": pd.Series(t),
         "magnitude": [float(e[3]) for e in ev]}
    df = pd.DataFrame(d)
    n = len(ev)
    df.index = {
        "range": lambda: pd.RangeIndex(n),
        "filtered": lambda: pd.Index([3 * i + 2 for i in range(n)], dtype=int),
        "shuffled": lambda: pd.Index([(i * 7 + 3) % n if n % 7 else n - 1 - i
                                      for i in range(n)], dtype=int),
        "dup": lambda: pd.Index([i // 2 for i in range(n)], dtype=int),
        "text": lambda: pd.Index([f"ev{i}" for i in range(n)], dtype=object),
        "time": lambda: pd.Index(df["time"]),
    }[case["index"]]()
    if case["frame"]:
        return df
    return Catalog(df)


def _reference(case, ctx):
    import pandas as pd
    ev = case["ev"]
    n = len(ev)
    if len({(e[3], e[0]) for e in ev}) < n:
        ctx.discard("same magnitude and time")
    fs = 1.0 if case["fs"] is None else case["fs"]
    sub = [0.137 * i % 1.0 if case["sub"] else 0.0 for i in range(n)]
    t = [e[0] + s for e, s in zip(ev, sub)]
    cluster = [False] * n
    main = [True] * n
    for i in sorted(range(n), key=lambda i: (-ev[i][3], t[i])):
        if cluster[i]:
            continue
        s, w = _win(case["kind"], ev[i][3], case["cut"])
        w = pd.Timedelta(days=w).total_seconds()
        for j in range(n):
            if cluster[j]:
                continue
            dt = t[j] - t[i]
            if j == i:
                cluster[j] = True
                continue
            dd = _dist(ev[i][1], ev[i][2], ev[j][1], ev[j][2])
            near_t = -w * fs - 2 <= dt <= w + 2
            near_s = dd <= s * (1 + 1e-9)
            if near_t and near_s:
                if abs(dt - w) < 2 or (abs(dt + w * fs) < 2
                                       and not (w * fs == 0 and dt == 0)) \
                        or abs(dd - s) < 1e-9 * s:
                    ctx.discard("on the edge of a window")
                cluster[j] = True
                main[j] = False
    return main


@PROP.facet(_catalog, quick=1200, shards=4)
def gardner_knopoff(case, ctx):
    """events are visited from the largest to the smallest (earlier first);
    each one not yet removed keeps its place and removes all events not yet in
    a cluster inside its space and time windows; the flags are in the order of
    the catalogue, whatever its row labels"""
    import numpy as np
    import seismostats.analysis.declustering as dec
    exp = _reference(case, ctx)
    cat = _build(case)
    before = cat.copy(deep=True)
    kw = {} if case["fs"] is None else {"fs_time_prop": case["fs"]}
    got = dec.GardnerKnopoffType1(
        getattr(dec, case["kind"])(time_cutoff=case["cut"]), **kw)(cat)
    got = np.asarray(got)
    assert got.dtype == bool and got.shape == (len(exp),), got
    assert got.tolist() == exp, (got.tolist(), exp)
    assert before.equals(cat) and list(before.columns) == list(cat.columns), \
        "the catalogue was modified"
    ctx.label("index " + case["index"])
    ctx.nt(0 < exp.count(False) and exp.count(True) >= 2)


@st.composite
def _perm(draw):
    c = draw(_catalog())
    c["index"] = "range"
    c["perm"] = gen.perm(draw, len(c["ev"]))
    c["shift"] = draw(st.sampled_from([0, 86400, 10**8]))
    c["rot"] = draw(st.sampled_from([0, 0, 30.0, -75.5]))
    return c


@PROP.facet(_perm, quick=400, shards=2)
def metamorphic(case, ctx):
    """reordering the catalogue reorders the flags; shifting all times or
    turning all longitudes changes nothing; the largest event is always kept,
    and declustering only the kept events by the same declusterer works on its
    own rows"""
    import numpy as np
    import seismostats.analysis.declustering as dec
    exp = _reference(case, ctx)
    d = dec.GardnerKnopoffType1(
        getattr(dec, case["kind"])(time_cutoff=case["cut"]),
        fs_time_prop=1.0 if case["fs"] is None else case["fs"])
    cat = _build(case)
    a = np.asarray(d(cat))
    assert a.tolist() == exp
    p = case["perm"]
    b = np.asarray(d(cat.iloc[list(p)]))          # keeps the row labels
    assert b.tolist() == [exp[i] for i in p], "order of the rows matters"
    moved = cat.copy()
    import pandas as pd
    moved["time"] = moved["time"] + pd.Timedelta(seconds=case["shift"])
    moved["longitude"] = moved["longitude"] + case["rot"]
    assert np.asarray(d(moved)).tolist() == exp, "shift or rotation matters"
    if exp:
        ms = [e[3] for e in case["ev"]]
        top = [i for i, m in enumerate(ms) if m == max(ms)]
        assert any(exp[i] for i in top)
    kept = cat[a]
    sub = dict(case, ev=[e for e, k in zip(case["ev"], exp) if k])
    if not case["sub"]:
        assert np.asarray(d(kept)).tolist() == _reference(sub, ctx), \
            "declustering the kept events"
    ctx.nt(0 < exp.count(False) and exp.count(True) >= 2)


@st.composite
def _mags(draw):
    return {"m": draw(st.lists(st.one_of(
        gen.f(0.1, 9.0), st.sampled_from([6.5, 6.4, 6.4999, 6.6, 1, 7])),
        min_size=0, max_size=20)),
        "kind": draw(st.sampled_from(KINDS)), "cut": draw(cutoffs),
        "series": draw(st.sampled_from(["array", "series", "labels", "dup"]))}


@PROP.facet(_mags, quick=500)
def windows(case, ctx):
    """every magnitude gets the published space (km) and time windows, in the
    order given, none longer than the cutoff"""
    import numpy as np
    import pandas as pd
    import seismostats.analysis.declustering as dec
    m = np.array(case["m"], dtype=float)
    x = m.copy()
    if case["series"] != "array":
        x = pd.Series(m)
        if case["series"] == "labels":
            x.index = [5 * i + 3 for i in range(len(m))]
        elif case["series"] == "dup":
            x.index = [0] * len(m)
    s, t = getattr(dec, case["kind"])(time_cutoff=case["cut"])(x)
    assert len(s) == len(t) == len(m)
    exp = [_win(case["kind"], v, case["cut"]) for v in m]
    gen.same(np.asarray(s, float), [e[0] for e in exp], "space", rtol=1e-9)
    gen.same([v.total_seconds() for v in t], [e[1] * 86400 for e in exp],
             "time", rtol=1e-9, atol=1e-5)
    assert np.array_equal(np.asarray(x), m), "magnitudes were modified"
    ctx.nt(len(m) >= 2)


@st.composite
def _points(draw):
    lon = st.one_of(gen.f(-180, 180, 3), st.sampled_from([-180., 180., 0.]))
    lat = st.one_of(gen.f(-90, 90, 3), st.sampled_from([-90., 90., 0.]))
    return {"pts": draw(st.lists(st.tuples(lon, lat), min_size=1,
                                 max_size=15)),
            "target": [draw(lon), draw(lat)],
            "rad": draw(st.sampled_from([None, 6371.0, 1.0]))}


@PROP.facet(_points, quick=500)
def great_circle(case, ctx):
    """distances are great-circle distances, also across the date line and at
    the poles"""
    import numpy as np
    from seismostats.analysis.declustering.utils import haversine
    lo = np.array([p[0] for p in case["pts"]], float)
    la = np.array([p[1] for p in case["pts"]], float)
    kw = {} if case["rad"] is None else {"earth_rad": case["rad"]}
    got = haversine(lo, la, case["target"][0], case["target"][1], **kw)
    r = 6371.227 if case["rad"] is None else case["rad"]
    exp = [_dist(a, b, *case["target"], r=r) for a, b in zip(lo, la)]
    gen.same(got, exp, "distance", rtol=1e-7, atol=1e-6 * r)
    ctx.nt(len(exp) >= 2)
