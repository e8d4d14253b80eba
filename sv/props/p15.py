"""P15  Building a catalogue from data."""
import datetime as dt
import math

from hypothesis import strategies as st

from .. import gen
from ..core import Property

PROP = Property(
    "P15",
    "A case is a table (numbers, number-like and junk strings, times in many "
    "ISO 8601 spellings and types, placeholders for missing text) together "
    "with the container it is passed in and the catalogue attributes. "
    "Non-trivial: at least two rows and a value that needs conversion.",
    ["years 1 to 2261; time zones are dropped, not converted (documented); "
     "time resolution compared to the microsecond"])

NUMERIC = ["magnitude", "latitude", "longitude", "depth",
           "associatedphasecount", "usedphasecount",
           "associatedstationcount", "usedstationcount", "standarderror",
           "azimuthalgap", "secondaryazimuthalgap", "maximumdistance",
           "minimumdistance", "mediandistance"]
TEXT = ["magnitude_type", "event_type"]
MISSING = ["", "nan", "NaN", "none", "None", "na", "Na", "NA", "null", "Null",
           "NULL"]

_num = st.one_of(
    gen.f(-180, 180, 3), st.integers(-90, 90),
    gen.f(-180, 180, 4).map(lambda v: {"s": repr(v)}),
    st.integers(-9, 99).map(lambda v: {"s": str(v)}),
    st.sampled_from([None, {"s": ""}, {"s": "abc"}, {"s": "1,5"},
                     {"s": "1e-1"}, {"s": "nan"}]))
_text = st.one_of(
    st.sampled_from(["Ml", "Mw", "MLhc", "earthquake", "quarry blast", "nano",
                     "NAN", "nulls", " ", "M", "m", "mb", "Ms", "nA", "N/A",
                     "unknown", "other", "not existing", "-", "0", "0.0"]),
    st.text("MLNabmnosuwl?_- ", min_size=1, max_size=4).filter(
        lambda s: s not in MISSING),
    st.sampled_from(MISSING), st.none())


@st.composite
def _time(draw):
    kind = draw(st.sampled_from(["s", "s", "s", "s", "dt", "ts", "none"]))
    if kind == "none":
        return {"k": "none", "v": draw(st.sampled_from(["None", "", "NaT"]))}
    return {"k": kind,
            "y": draw(st.sampled_from([1, 987, 1020, 1677, 1678, 1900, 2000,
                                       2020, 2020, 2261])),
            "mo": draw(st.integers(1, 12)), "d": draw(st.integers(1, 28)),
            "h": draw(st.integers(0, 23)), "mi": draw(st.integers(0, 59)),
            "s": draw(st.integers(0, 59)),
            "us": draw(st.one_of(
                st.sampled_from([0, 0, 1, 999999, 250000, 123456]),
                st.integers(0, 999999))),
            "dig": draw(st.sampled_from([6, 6, 9, 3, 1])),
            "sep": draw(st.sampled_from(["T", "T", "T", " "])),
            "tz": draw(st.sampled_from(["", "", "Z", "+00:00", "+02:00",
                                        "-05:30"])),
            "pad": draw(st.booleans())}


def _parts(t):
    """what the value means (microseconds), or None"""
    if t["k"] == "none":
        return None
    us = t["us"]
    if t["k"] == "s":
        f = f"{us:06d}"[:min(t["dig"], 6)]
        us = int(f.ljust(6, "0"))
    return (t["y"], t["mo"], t["d"], t["h"], t["mi"], t["s"], us)


def _offset(tz):
    if not tz:
        return None
    if tz == "Z":
        return dt.timezone.utc
    sg = -1 if tz[0] == "-" else 1
    return dt.timezone(sg * dt.timedelta(hours=int(tz[1:3]),
                                         minutes=int(tz[4:6])))


def _value(t):
    import pandas as pd
    if t["k"] == "none":
        return {"None": None, "": "", "NaT": pd.NaT}[t["v"]]
    if t["k"] == "s":
        y = f"{t['y']:04d}" if t["pad"] else str(t["y"])
        f = f"{t['us']:06d}"[:min(t["dig"], 6)].ljust(t["dig"], "7")
        f = "" if t["us"] == 0 and t["dig"] != 3 else "." + f
        if t["dig"] == 9 and f:
            f = "." + f"{t['us']:06d}" + "789"
        return (f"{y}-{t['mo']:02d}-{t['d']:02d}{t['sep']}{t['h']:02d}:"
                f"{t['mi']:02d}:{t['s']:02d}{f}{t['tz']}")
    d = dt.datetime(*_parts(t), tzinfo=_offset(t["tz"]))
    if t["k"] == "dt" or not 1678 <= t["y"] < 2262:
        return d
    return pd.Timestamp(d)


@st.composite
def _table(draw):
    n = draw(st.integers(0, 6))
    cols = {}
    for c in draw(st.lists(st.sampled_from(
            ["magnitude"] * 3 + NUMERIC), max_size=5, unique=True)):
        cols[c] = draw(st.lists(_num, min_size=n, max_size=n))
    for c in draw(st.lists(st.sampled_from(TEXT), max_size=2, unique=True)):
        cols[c] = draw(st.lists(_text, min_size=n, max_size=n))
    if draw(st.integers(0, 3)):
        modern = draw(st.booleans())
        ts = draw(st.lists(_time(), min_size=n, max_size=n))
        if modern:
            for t in ts:
                if "y" in t and t["y"] < 1900:
                    t["y"] = 2000 + t["y"] % 100
        if draw(st.booleans()):
            for t in ts:
                if "tz" in t:
                    t["tz"] = draw(st.sampled_from(["", "Z"])) \
                        if t is ts[0] else ts[0].get("tz", "")
        cols["time"] = ts
    for c in draw(st.lists(st.sampled_from(["note", "mag", "weight"]),
                           max_size=2, unique=True)):
        cols[c] = draw(st.lists(st.sampled_from(
            ["", "nan", "x", "1"]) if c == "note" else st.integers(0, 5),
            min_size=n, max_size=n))
    return {"n": n, "cols": [[k, cols[k]] for k in cols],
            "as": draw(st.sampled_from(
                ["dict", "records", "frame", "frame index", "from_dict",
                 "catalog"])),
            "attrs": draw(st.fixed_dictionaries({}, optional={
                "name": st.sampled_from(["x", ""]),
                "mc": st.sampled_from([0, 0.0, -1.0, 2.5]),
                "delta_m": st.sampled_from([0, 0.1]),
                "b_value": st.sampled_from([0.9]),
                "a_value": st.sampled_from([0.0, 3.1]),
                "depth_min": st.sampled_from([0, -1.5]),
                "depth_max": st.sampled_from([0, 30.0]),
                "starttime": st.sampled_from(["2020-01-01",
                                              "2020-01-01T12:00:00"]),
                "endtime": st.sampled_from(["2021-01-01"]),
                "bounding_polygon": st.sampled_from(["POLYGON EMPTY"])}))}


def _raw(c, v):
    if c == "time":
        return _value(v)
    if isinstance(v, dict):
        return v["s"]
    return v


def _number(v):
    if v is None:
        return math.nan
    if isinstance(v, dict):
        try:
            return float(v["s"])
        except ValueError:
            return math.nan
    return float(v)


def _check_rows(cat, case, idx=None):
    import pandas as pd
    n = case["n"]
    assert len(cat) == n, (len(cat), n)
    for c, vals in case["cols"]:
        assert c in cat.columns, f"column {c} was lost"
        got = list(cat[c])
        if c in NUMERIC:
            assert n == 0 or cat[c].dtype.kind in "iuf", (c, cat[c].dtype)
            gen.same(got, [_number(v) for v in vals], c, rtol=1e-15, atol=0)
        elif c == "time":
            for g, t in zip(got, vals):
                p = _parts(t)
                if p is None:
                    assert pd.isna(g), (g, t)
                    continue
                assert not pd.isna(g), f"time lost: {_value(t)!r}"
                assert g.tzinfo is None, f"{g!r} has a time zone"
                q = (g.year, g.month, g.day, g.hour, g.minute, g.second,
                     g.microsecond)
                assert q == p, f"{_value(t)!r} became {g!r}"
        elif c in TEXT:
            for g, v in zip(got, vals):
                if v is None or v in MISSING:
                    assert pd.isna(g), f"{c}: {v!r} became {g!r}"
                else:
                    assert g == v, f"{c}: {v!r} became {g!r}"
        else:
            assert got == list(vals), (c, got, vals)
    if idx is not None:
        assert list(cat.index) == idx, list(cat.index)


@PROP.facet(_table, quick=1600, shards=4)
def construct(case, ctx):
    """numbers become numbers (what is no number becomes missing), times become
    times without time zone however spelled or typed, placeholder texts become
    missing; all other columns, the row order and labels and the attributes
    are kept, and the data passed in are not changed"""
    import pandas as pd
    from seismostats import Catalog
    n = case["n"]
    data = {c: [_raw(c, v) for v in vals] for c, vals in case["cols"]}
    how = case["as"]
    idx = None
    if not data:
        ctx.discard("no column")
    if how in ("frame", "frame index", "catalog"):
        data = pd.DataFrame({k: pd.Series(v, dtype=object)
                             for k, v in data.items()})
        if how == "frame index":
            idx = [10 - 3 * i for i in range(n)]
            data.index = idx
    elif how in ("records", "from_dict"):
        if n == 0:
            ctx.discard("no record")
        data = [{k: v[i] for k, v in data.items()} for i in range(n)]
    keep = data.copy(deep=True) if isinstance(data, pd.DataFrame) else \
        [dict(r) for r in data] if isinstance(data, list) else \
        {k: list(v) for k, v in data.items()}
    attrs = case["attrs"]
    if how == "from_dict":
        cat = Catalog.from_dict(data)
        attrs = {}
    else:
        cat = Catalog(data, **attrs)
    assert type(cat) is Catalog
    _check_rows(cat, case, idx)
    assert list(cat.columns) == [c for c, _ in case["cols"]], cat.columns
    if isinstance(data, pd.DataFrame):
        pd.testing.assert_frame_equal(data, keep)
    else:
        assert [repr(x) for x in data] == [repr(x) for x in keep] and \
            repr(data) == repr(keep), "the data passed in were changed"
    for a in ("name", "mc", "delta_m", "b_value", "a_value", "depth_min",
              "depth_max", "bounding_polygon"):
        g = getattr(cat, a)
        assert g is attrs.get(a) or (a in attrs and g == attrs[a]), (a, g)
    for a in ("starttime", "endtime"):
        g = getattr(cat, a)
        assert (g == pd.Timestamp(attrs[a])) if a in attrs else g is None, g
    # building from a catalogue once more changes nothing
    again = Catalog(cat)
    pd.testing.assert_frame_equal(pd.DataFrame(again), pd.DataFrame(cat))
    _check_rows(cat.copy(), case, idx)
    ctx.label(how)
    ctx.nt(n >= 2 and any(
        isinstance(v, dict) or v is None or v in MISSING
        for c, vals in case["cols"] for v in vals
        if c in NUMERIC + TEXT + ["time"]))


@st.composite
def _empty(draw):
    return {"how": draw(st.sampled_from(
        ["nothing", "none", "dict", "list", "frame", "columns", "rows"])),
        "cols": draw(st.lists(st.sampled_from(
            ["magnitude", "time", "x", "depth"]), min_size=1, max_size=3,
            unique=True)),
        "forecast": draw(st.booleans()),
        "mc": draw(st.sampled_from([None, 0, 1.5]))}


@PROP.facet(_empty, quick=100)
def without_data(case, ctx):
    """a catalogue without any data still has the standard columns, and keeps
    its attributes; one with columns but without rows keeps its columns"""
    import pandas as pd
    from seismostats import Catalog, ForecastCatalog
    C = ForecastCatalog if case["forecast"] else Catalog
    std = ["longitude", "latitude", "depth", "time", "magnitude",
           "magnitude_type"]
    kw = {"mc": case["mc"], "name": "n"}
    how = case["how"]
    if how == "nothing":
        c = C(**kw)
    elif how == "none":
        c = C(None, **kw)
    elif how in ("dict", "list", "frame"):
        c = C({"dict": {}, "list": [], "frame": pd.DataFrame()}[how], **kw)
    elif how == "columns":
        c = C(columns=case["cols"], **kw)
        std = case["cols"]
    else:
        c = C({k: [] for k in case["cols"]}, **kw)
        std = case["cols"]
    assert len(c) == 0 and list(c.columns) == std, c
    assert type(c) is C and c.mc == case["mc"] and c.name == "n"
    if case["forecast"]:
        assert c.n_catalogs is None
    ctx.nt(how in ("columns", "rows") or case["forecast"])


@st.composite
def _drops(draw):
    bases = ["magnitude", "latitude", "longitude", "depth", "time",
             "magnitude_Mw"]
    cols = draw(st.lists(st.sampled_from(
        bases + [b + s for b in bases for s in
                 ("_uncertainty", "_lowerUncertainty", "_upperUncertainty",
                  "_confidenceLevel")]
        + ["eventID", "originID", "magnitudeID", "magnitude_Mw_magnitudeID",
           "uncertainty_class", "eventID_old", "event_type", "IDs",
           "my_uncertainty_x"]), max_size=10, unique=True))
    return {"cols": cols, "u": draw(st.booleans()), "i": draw(st.booleans()),
            "default": draw(st.booleans())}


@PROP.facet(_drops, quick=300)
def optional_columns(case, ctx):
    """from a list of event descriptions, uncertainties and ids are included
    exactly if asked for; nothing else is dropped"""
    from seismostats import Catalog
    cols = ["magnitude"] + [c for c in case["cols"] if c != "magnitude"]
    recs = [{c: "2020-01-01T00:00:00" if c == "time" else 1.5 + i
             for c in cols} for i in range(2)]
    if case["default"]:
        cat = Catalog.from_dict(recs)
        u = i = True
    else:
        u, i = case["u"], case["i"]
        cat = Catalog.from_dict(recs, include_uncertainties=u, include_ids=i)
    isu = [c for c in cols if c.endswith(
        ("_uncertainty", "_lowerUncertainty", "_upperUncertainty",
         "_confidenceLevel"))]
    isi = [c for c in cols if c.endswith(("eventID", "originID",
                                          "magnitudeID"))]
    want = [c for c in cols if (u or c not in isu) and (i or c not in isi)]
    assert list(cat.columns) == want, (list(cat.columns), want)
    full = Catalog(recs)
    assert list(full.drop_uncertainties().columns) == \
        [c for c in cols if c not in isu]
    assert list(full.drop_ids().columns) == [c for c in cols if c not in isi]
    assert list(full.columns) == cols, "dropping changed the catalogue"
    ctx.nt(bool(isu) and bool(isi))
