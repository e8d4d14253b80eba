"""P22  Conversion to and from OpenQuake catalogues keeps the events."""
import datetime as dt

from hypothesis import strategies as st

from ..core import Property

PROP = Property(
    "P22",
    "A case is a catalogue (any years, fractions of seconds, gaps, row labels, "
    "additional columns) converted to OpenQuake and back, or an OpenQuake "
    "catalogue converted to a Catalog and back. Non-trivial: at least two "
    "events, one of them with a fraction of a second.",
    ["every event has a time, whole microseconds, no leap seconds",
     "OpenQuake seconds within 1e-6 s"])

EPOCH = dt.datetime(1, 1, 1)
us = st.one_of(
    st.integers(0, 999_999), st.sampled_from(
        [0, 1, 999_999, 999_500, 500_000, 10, 100_000, 123_400, 59_999]))
when = st.builds(
    lambda y, d, s, u: [y, d, s, u],
    st.one_of(st.integers(1900, 2030), st.sampled_from([1970, 2000, 1999]),
              st.sampled_from([1200, 1333, 1600, 1676, 1678, 2261, 2263, 5, 3000])),
    st.integers(1, 365),
    st.one_of(st.integers(0, 86399), st.sampled_from([59, 86399, 0, 3599])),
    us)
modern = st.builds(lambda y, r: [y] + r[1:], st.integers(1900, 2030), when)


def moment(w):
    y, d, s, u = w
    return dt.datetime(y, 1, 1) + dt.timedelta(days=d - 1, seconds=s,
                                               microseconds=u)


@st.composite
def _cat(draw):
    n = draw(st.one_of(st.integers(0, 7), st.just(2)))
    f = lambda *v: draw(st.lists(st.sampled_from(v), min_size=n, max_size=n))
    times = draw(st.lists(draw(st.sampled_from([when, modern])), min_size=n,
                          max_size=n))
    return {"n": n, "t": times,
            "lon": f(0.0, 8.25, -179.9, 180.0, 7.123456789),
            "lat": f(0.0, 46.1, -90.0, 1e-7), "dep": f(0.0, 5.5, -1.2, None),
            "mag": f(1.0, 2.5, 3.333, -0.5, None, 0.0),
            "gap": draw(st.booleans()), "int_mag": draw(st.booleans()),
            "cols": draw(st.lists(st.sampled_from(
                ["eventID", "magnitude_type", "remark", "count", "flag2",
                 "sigmaMagnitude", "Agency", "w"]), unique=True)),
            "index": draw(st.sampled_from(["range", "same", "shuffled"])),
            "int_id": draw(st.booleans()),
            "void": draw(st.sampled_from([None, None, 0, 1])),
            "keep": draw(st.booleans()), "unit": draw(st.booleans())}


def columns(c):
    """the columns as plain lists"""
    n = c["n"]
    fill = (lambda v, x: [x if a is None and not c["gap"] else
                          float("nan") if a is None else a for a in v])
    out = {"longitude": list(c["lon"]), "latitude": list(c["lat"]),
           "depth": fill(c["dep"], 1.0), "time": [moment(w) for w in c["t"]],
           "magnitude": fill(c["mag"], 2.0)}
    if c["int_mag"]:
        out["magnitude"] = [k % 4 for k in range(n)]
    for k in c["cols"]:
        out[k] = {
            "eventID": list(range(n)) if c["int_id"] else [
                "" if i == c.get("void") else f"smi:x/{i}"
                for i in range(n)],
            "magnitude_type": ["ML", "Mw"] * n, "remark": ["", "a,b", "ü"] * n,
            "count": list(range(3, 3 + n)), "flag2": [True, False] * n,
            "sigmaMagnitude": [0.1, 0.25] * n, "Agency": ["SED", "NA"] * n,
            "w": [0.5, float("nan")] * n}[k][:n]
    return out


def label(c):
    n = c["n"]
    return list({"range": range(n), "same": [4] * n,
                 "shuffled": [(k * 7 + 2) % 11 for k in range(n)]}[c["index"]])


def compare(df, want, what, times):
    import pandas as pd
    assert len(df) == len(times), f"{what}: {len(df)} of {len(times)} events"
    if not times:
        return
    for k, v in want.items():
        assert k in df.columns, f"{what}: no column {k}"
        if k == "time":
            continue
        for i, (a, b) in enumerate(zip(df[k], v)):
            assert a == b or (a != a and b != b), \
                f"{what}: event {i}: {k} is {a!r} instead of {b!r}"
    assert pd.api.types.is_datetime64_any_dtype(df["time"]), \
        f"{what}: times are {df['time'].dtype}"
    for i, (a, b) in enumerate(zip(df["time"], times)):
        a = a.to_pydatetime(warn=False) if hasattr(a, "to_pydatetime") else a
        d = abs((a - b) / dt.timedelta(microseconds=1))
        assert d == 0, f"{what}: event {i} at {a} instead of {b}"


@PROP.facet(_cat, quick=400, shards=2)
def there_and_back(case, ctx):
    """to_openquake gives the events with date, seconds with their fraction,
    ids (own or unique new ones) and all other columns; from_openquake of it
    gives the same events again; the catalogue is not changed"""
    import pandas as pd
    from seismostats import Catalog
    data, times = columns(case), [moment(w) for w in case["t"]]
    unit = "us" if case["unit"] or any(
        not 1678 < t.year < 2262 for t in times) else "ns"
    table = pd.DataFrame({
        k: pd.Series(v, dtype="object" if not v else None)
        if k != "time" else pd.Series(times, dtype=f"datetime64[{unit}]")
        for k, v in data.items()})
    table.index = label(case)
    cat = Catalog(table.copy())
    snap = pd.DataFrame(cat).copy()
    oq = cat.to_openquake()
    pd.testing.assert_frame_equal(pd.DataFrame(cat), snap)
    what = f"{case['n']} events from {[t.isoformat() for t in times]}"
    assert oq.get_number_events() == case["n"], f"{what}: number of events"
    back = Catalog.from_openquake(oq)
    compare(back, data, what + ", back", times)
    if not case["n"]:
        return
    for k in ("year", "month", "day", "hour", "minute"):
        assert [int(x) for x in oq.data[k]] == \
            [getattr(t, k) for t in times], f"{what}: {k} {oq.data[k]}"
    for i, (s, t) in enumerate(zip(oq.data["second"], times)):
        assert abs(s - t.second - t.microsecond / 1e6) < 1e-9, \
            f"{what}: second {s} of event {i}"
    for k, v in data.items():
        if k != "time":
            for i, (a, b) in enumerate(zip(oq.data[k], v)):
                assert a == b or (a != a and b != b), \
                    f"{what}: {k} of event {i}: {a!r} instead of {b!r}"
    if "eventID" not in data:
        ids = list(oq.data["eventID"])
        assert len(set(ids)) == case["n"] and all(
            isinstance(x, str) and x for x in ids), f"{what}: ids {ids}"
    oq.data["longitude"][0] += 1
    pd.testing.assert_frame_equal(pd.DataFrame(cat), snap)
    ctx.nt(case["n"] > 1 and any(t.microsecond for t in times))
    ctx.label("outside of 1678-2262" if unit == "us" and not case["unit"]
              else "modern")


@PROP.facet(_cat, quick=400, shards=2)
def back_and_there(case, ctx):
    """from_openquake gives the events of an OpenQuake catalogue at their
    times (all fractions of seconds, also just below a full minute, whatever
    the other events' years) with all other columns, and the time columns if
    asked for; to_openquake of it gives the same again; the OpenQuake
    catalogue is not changed"""
    import numpy as np
    import pandas as pd
    from openquake.hmtk.seismicity.catalogue import Catalogue
    from seismostats import Catalog
    data, times = columns(case), [moment(w) for w in case["t"]]
    data.pop("time")
    n = case["n"]
    src = {k: np.array(v) if v and not isinstance(v[0], str) else list(v)
           for k, v in data.items()}
    if "eventID" not in src or case["int_id"]:
        k0 = case["void"] or 0
        src["eventID"] = np.arange(k0, k0 + n) if case["int_id"] \
            else [f"e{i}" for i in range(n)]
    for k in ("year", "month", "day", "hour", "minute"):
        src[k] = np.array([getattr(t, k) for t in times], dtype=int)
    src["second"] = np.array([t.second + t.microsecond / 1e6 for t in times])
    data["eventID"] = list(src["eventID"])
    if not n:
        oq = Catalogue()
    else:
        oq = Catalogue.make_from_dict(dict(src))
    cat = Catalog.from_openquake(oq, keep_time_cols=case["keep"])
    what = f"{n} events from {[t.isoformat() for t in times]}"
    assert isinstance(cat, Catalog)
    compare(cat, data, what, times)
    if not n:
        return
    kept = [k for k in ("year", "month", "day", "hour", "minute", "second")
            if k in cat.columns]
    assert len(kept) == (6 if case["keep"] else 0), f"{what}: columns {kept}"
    for k in kept[:-1]:
        assert [int(x) for x in cat[k]] == [getattr(t, k) for t in times], \
            f"{what}: {k}"
    assert case["keep"] or "microsecond" not in cat.columns
    for k, v in src.items():
        for a, b in zip(oq.data[k], v):
            assert a == b or (a != a and b != b), f"{what}: source changed"
    again = cat.to_openquake()
    for k, v in src.items():
        for i, (a, b) in enumerate(zip(again.data[k], v)):
            assert a == b or (a != a and b != b) or (
                k == "second" and abs(a - b) < 1e-6), \
                f"{what}: {k} of event {i}: {a!r} instead of {b!r}"
    cat["longitude"] = 0
    assert list(oq.data["longitude"]) == list(src["longitude"])
    ctx.nt(n > 1 and any(t.microsecond for t in times))
    ctx.label("some outside of 1678-2262" if any(
        not 1678 < t.year < 2262 for t in times) else "modern")
