"""P18  QuakeML written from a catalogue reads back as the same catalogue."""
import datetime as dt
import math
import os
import tempfile
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from .. import gen
from ..core import Property
from .p17 import LABELS, relabel

PROP = Property(
    "P18",
    "A case is a catalogue (events with any of the QuakeML columns, missing "
    "values, special characters, secondary magnitudes) written to QuakeML and "
    "read back. Non-trivial: at least one event survives and it has a "
    "secondary magnitude, a missing value or a special character.",
    ["times are judged to microseconds (the resolution of QuakeML here)",
     "lower and upper uncertainties, confidence levels and unknown columns are "
     "not part of the written format",
     "a secondary magnitude of the preferred type has no place in the format"])

QUALITY = ["associatedphasecount", "usedphasecount", "associatedstationcount",
           "usedstationcount", "depthphasecount", "standarderror",
           "azimuthalgap", "secondaryazimuthalgap", "maximumdistance",
           "minimumdistance", "mediandistance"]
COUNTS = QUALITY[:5]
UNC = ["latitude_uncertainty", "longitude_uncertainty", "depth_uncertainty",
       "magnitude_uncertainty"]
TYPES = ["ML", "MLv", "MLhc", "MLh", "Mw", "Mwc", "mb", "mb_Lg", "M", "m",
         "Mw(mB)", "Md&<x>", "MÖ"]
TEXT = st.sampled_from(["earthquake", "quarry blast", "a & b", "<c>", "d > e",
                        "quote\"d 'x'", "Erdbeben é", "&amp;", "]]>", "nan1"])
IDS = st.sampled_from(["smi:x/ev", "quakeml:u/query?eventid=u&format=xml",
                       "<i>", "a\"b'c", "id é", "1234"])


def num(lo, hi):
    return st.one_of(gen.f(lo, hi), gen.f(lo, hi, 2),
                     st.integers(lo, hi).map(float))


def maybe(s, k=4):
    """s, or a missing value in one of k cases"""
    return st.integers(0, k - 1).flatmap(
        lambda i: st.none() if i == k // 2 else s)


@st.composite
def _events(draw, nmin=0):
    n = max(nmin, draw(st.sampled_from(
        [3, 2, 4, 1, 5, 3, 2, 4, 6, 2, 3, 0])))
    opt = draw(st.lists(st.sampled_from(
        QUALITY + UNC + ["event_type", "evaluationmode", "eventID",
                         "originID", "magnitudeID", "extra"]),
        max_size=14, unique=True))
    types = draw(st.lists(st.sampled_from(TYPES), max_size=4, unique=True))
    secs = {t: {"unc": draw(st.booleans()), "id": draw(st.booleans())}
            for t in types}
    allt = draw(st.lists(st.sampled_from(TYPES), min_size=1, max_size=2)) + \
        types
    old = draw(st.integers(0, 4)) == 0
    ev = []
    for i in range(n):
        e = {"latitude": draw(maybe(num(-90, 90), 15)),
             "longitude": draw(maybe(num(-180, 180), 15)),
             "depth": draw(maybe(num(-3, 600), 6)),
             "time": None if draw(st.integers(0, 14)) == 7 else [
                 draw(st.sampled_from([1200, 999, 1600, 1677]))
                 if old and draw(st.booleans())
                 else draw(st.integers(1900, 2100)),
                 draw(st.integers(1, 12)), draw(st.integers(1, 28)),
                 draw(st.integers(0, 86399)),
                 draw(st.sampled_from([0, 0, 1, 500000, 999999, 123456]))],
             "magnitude": draw(maybe(num(-3, 9), 6)),
             "magnitude_type": draw(maybe(st.sampled_from(allt), 6))}
        for c in opt:
            if c in COUNTS:
                e[c] = draw(maybe(st.integers(0, 500)))
            elif c in QUALITY:
                e[c] = draw(maybe(num(0, 360)))
            elif c in UNC:
                e[c] = draw(maybe(num(0, 30), 3))
            elif c.endswith("ID"):
                v = draw(maybe(IDS))
                e[c] = v if v is None else f"{v}/{c}{i}"
            elif c == "evaluationmode":
                e[c] = draw(maybe(st.sampled_from(["manual", "automatic"])))
            else:
                e[c] = draw(maybe(TEXT))
        e["sec"] = {}
        for t in types:
            v = draw(maybe(num(-3, 9), 3))
            if v is None or t == e["magnitude_type"]:
                continue
            s = {"value": v}
            if secs[t]["unc"]:
                s["unc"] = draw(maybe(num(0, 2), 3))
            if secs[t]["id"]:
                d = draw(maybe(IDS))
                s["id"] = d if d is None else f"{d}/{t}{i}"
            e["sec"][t] = s
        ev.append(e)
    return {"ev": ev, "opt": opt, "secs": secs,
            "index": draw(st.sampled_from(LABELS)),
            "agency": draw(TEXT), "author": draw(TEXT),
            "none": draw(st.sampled_from(["nan", "None"])),
            "file": draw(st.booleans()),
            "cid": draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))}


def _dt(t):
    if t is None:
        return None
    y, mo, d, s, us = t
    return dt.datetime(y, mo, d) + dt.timedelta(seconds=s, microseconds=us)


def frame(case):
    import numpy as np
    import pandas as pd
    ev = case["ev"]
    miss = {"nan": float("nan"), "None": None}[case["none"]]

    def text(c):
        return np.array([miss if e[c] is None else e[c] for e in ev],
                        dtype=object)

    def numbers(v):
        return np.array([math.nan if x is None else x for x in v], float)
    d = {}
    for c in ["latitude", "longitude", "depth", "magnitude"]:
        d[c] = numbers([e[c] for e in ev])
    ts = [_dt(e["time"]) for e in ev]
    if any(t is not None and t.year < 1678 for t in ts):
        d["time"] = np.array([pd.NaT if t is None else t for t in ts],
                             dtype=object)
    else:
        d["time"] = pd.to_datetime(pd.Series(ts, dtype=object)).to_numpy()
    d["magnitude_type"] = text("magnitude_type")
    for c in case["opt"]:
        if c in QUALITY or c in UNC:
            v = [e[c] for e in ev]
            d[c] = numbers(v) if any(x is not None for x in v) else text(c)
        else:
            d[c] = text(c)
    for t, s in case["secs"].items():
        sec = [e["sec"].get(t, {}) for e in ev]
        d[f"magnitude_{t}"] = numbers([x.get("value") for x in sec])
        if s["unc"]:
            d[f"magnitude_{t}_uncertainty"] = numbers(
                [x.get("unc") for x in sec])
        if s["id"]:
            d[f"magnitude_{t}_magnitudeID"] = np.array(
                [x.get("id", miss) for x in sec], dtype=object)
    return relabel(pd.DataFrame(d), case["index"])


def missing(v):
    import pandas as pd
    return v is None or bool(pd.isna(v))


def expected(e):
    """what an event looks like after reading: column -> value or None"""
    out = {c: e.get(c) for c in ["latitude", "longitude", "depth",
                                 "magnitude", "magnitude_type", "event_type",
                                 "evaluationmode"] + QUALITY + UNC}
    out["time"] = _dt(e["time"])
    for c in ("latitude", "longitude", "depth", "magnitude"):
        if e[c] is None and e.get(c + "_uncertainty") is not None:
            out[c + "_uncertainty"] = e[c + "_uncertainty"]
    for t in TYPES:
        s = e["sec"].get(t, {})
        v, u, d = s.get("value"), s.get("unc"), s.get("id")
        if t == e["magnitude_type"]:
            v, u = e["magnitude"], e.get("magnitude_uncertainty")
            d = e.get("magnitudeID")
        out[f"magnitude_{t}"] = v
        out[f"magnitude_{t}_uncertainty"] = u
        if d is not None:
            out[f"magnitude_{t}_magnitudeID"] = d
    for c in ("eventID", "originID", "magnitudeID"):
        if e.get(c) is not None:
            out[c] = e[c]
    return out


def check_rows(cat, evs, what, skip=()):
    assert len(cat) == len(evs), f"{what}: {len(cat)} of {len(evs)} events"
    rows = {c: list(cat[c]) for c in cat.columns}
    for i, e in enumerate(evs):
        for c, v in expected(e).items():
            if any(s(c) for s in skip):
                assert c not in rows, f"{what}: column {c} was not asked for"
                continue
            g = rows[c][i] if c in rows else None
            if v is None:
                assert missing(g), f"{what}: event {i} {c}: {g!r}, was missing"
            elif isinstance(v, str):
                assert g == v, f"{what}: event {i} {c}: {g!r}, was {v!r}"
            elif isinstance(v, dt.datetime):
                assert not missing(g) and g == v, \
                    f"{what}: event {i} time: {g!r}, was {v!r}"
            else:
                assert not missing(g) and math.isclose(
                    float(g), v, rel_tol=1e-12, abs_tol=1e-300), \
                    f"{what}: event {i} {c}: {g!r}, was {v!r}"


def check_xml(qml, n):
    """well-formed, with consistent, non-empty ids"""
    ns = "{http://quakeml.org/xmlns/bed/1.2}"
    root = ET.fromstring(qml.encode("utf-8"))
    evs = root.findall(f"./{ns}eventParameters/{ns}event")
    assert len(evs) == n, f"{len(evs)} events written, expected {n}"
    for e in evs:
        ids = {}
        for tag in ("origin", "magnitude"):
            ids[tag] = [o.get("publicID") for o in e.findall(ns + tag)]
            assert all(ids[tag]), f"empty {tag} id in {ids}"
            assert len(set(ids[tag])) == len(ids[tag]), f"same {tag} ids"
        assert e.get("publicID"), "empty event id"
        assert e.findtext(ns + "preferredOriginID") in ids["origin"]
        assert e.findtext(ns + "preferredMagnitudeID") in ids["magnitude"]


def read(qml, file, **kw):
    from seismostats import Catalog
    kw = {"include_all_magnitudes": True, "include_uncertainties": True,
          "include_ids": True, "include_quality": True, **kw}
    if not file:
        return Catalog.from_quakeml(qml, **kw)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "cat.xml")
        with open(p, "w", encoding="utf-8") as f:
            f.write(qml)
        return Catalog.from_quakeml(p, **kw)


def survivors(case):
    return [e for e in case["ev"] if e["latitude"] is not None
            and e["longitude"] is not None and e["time"] is not None]


def interesting(evs):
    return any(e["sec"] or any(v is None or (isinstance(v, str)
               and set(v) & set("&<>\"'")) for v in e.values())
               for e in evs)


@PROP.facet(_events, quick=600, shards=4)
def round_trip(case, ctx):
    """every event with a place and a time is written to well-formed QuakeML
    with consistent ids, in order, and all its values, types, ids, qualities
    and secondary magnitudes come back unchanged, missing ones as missing;
    writing what was read and reading it again changes nothing; the
    catalogue itself is not changed"""
    import pandas as pd
    from seismostats import Catalog
    cat = Catalog(frame(case))
    before = pd.DataFrame(cat).copy()
    qml = cat.to_quakeml(agencyID=case["agency"], author=case["author"])
    pd.testing.assert_frame_equal(pd.DataFrame(cat), before)
    evs = survivors(case)
    check_xml(qml, len(evs))
    back = read(qml, case["file"])
    if evs:
        check_rows(back, evs, "read back")
        again = read(back.to_quakeml(), not case["file"])
        check_rows(again, evs, "second time")
        for c in ("eventID", "originID", "magnitudeID"):
            assert list(again[c]) == list(back[c]), f"{c} changed"
            assert len(set(back[c])) == len(evs), f"{c} not unique"
    else:
        assert len(back) == 0
        ctx.label("no event left")
    ctx.nt(bool(evs) and interesting(evs))


@st.composite
def _select(draw):
    c = draw(_events(nmin=1))
    c["all"], c["unc"], c["ids"], c["q"] = (draw(st.booleans())
                                            for _ in range(4))
    return c


@PROP.facet(_select, quick=300, shards=2)
def selection(case, ctx):
    """secondary magnitudes, uncertainties, ids and qualities are included
    exactly if asked for, everything else stays the same"""
    from seismostats import Catalog
    evs = survivors(case)
    if not evs:
        ctx.discard("no event left")
    qml = Catalog(frame(case)).to_quakeml()
    back = read(qml, case["file"], include_all_magnitudes=case["all"],
                include_uncertainties=case["unc"], include_ids=case["ids"],
                include_quality=case["q"])
    skip = []
    if not case["all"]:
        skip.append(lambda c: c.startswith("magnitude_") and c not in (
            "magnitude_type", "magnitude_uncertainty"))
    if not case["unc"]:
        skip.append(lambda c: c.endswith("_uncertainty"))
    if not case["ids"]:
        skip.append(lambda c: c.endswith("ID"))
    if not case["q"]:
        skip.append(lambda c: c in QUALITY)
    check_rows(back, evs, "selection", skip)
    for c in back.columns:
        assert not any(s(c) for s in skip), f"{c} was not asked for"
    ctx.nt(interesting(evs) and bool(skip))


@PROP.facet(_events, quick=200)
def forecast(case, ctx):
    """a forecast catalogue gives one document per catalogue with events, by
    ascending catalogue number, each with the events of that catalogue"""
    from seismostats import ForecastCatalog
    df = frame(case)
    df["catalog_id"] = case["cid"]
    cat = ForecastCatalog(df, n_catalogs=9)
    docs = cat.to_quakeml(agencyID=case["agency"])
    ids = sorted(set(case["cid"]))
    assert len(docs) == len(ids), (len(docs), ids)
    for i, qml in zip(ids, docs):
        sub = dict(case, ev=[e for e, c in zip(case["ev"], case["cid"])
                             if c == i])
        evs = survivors(sub)
        check_xml(qml, len(evs))
        if evs:
            check_rows(read(qml, case["file"]), evs, f"catalogue {i}")
    ctx.nt(len(ids) > 1 and interesting(survivors(case)))
