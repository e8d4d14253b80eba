"""P19  The QuakeML reader gives every event its own preferred values."""
import io
import math
import os
import tempfile
import xml.sax
from xml.sax.saxutils import escape, quoteattr

from hypothesis import strategies as st

from ..core import Property

PROP = Property(
    "P19",
    "A case is a QuakeML document, described as plain data (events with "
    "several origins and magnitudes, preferred ones, types, versions, other "
    "elements in between) and rendered with random order, spacing, comments "
    "and escapes. Non-trivial: an event has a preferred origin or magnitude "
    "and at least two of the kind.",
    ["documents follow the QuakeML schema (ids on events, origins and "
     "magnitudes, default namespace)",
     "magnitudes of one type with the same version and creation time may be "
     "chosen freely"])

VALS = {"value": "", "uncertainty": "_uncertainty",
        "lowerUncertainty": "_lowerUncertainty",
        "upperUncertainty": "_upperUncertainty",
        "confidenceLevel": "_confidenceLevel"}
QUALITY = {"associatedPhaseCount": "associatedphasecount",
           "usedPhaseCount": "usedphasecount",
           "associatedStationCount": "associatedstationcount",
           "usedStationCount": "usedstationcount",
           "depthPhaseCount": "depthphasecount",
           "standardError": "standarderror", "azimuthalGap": "azimuthalgap",
           "secondaryAzimuthalGap": "secondaryazimuthalgap",
           "maximumDistance": "maximumdistance",
           "minimumDistance": "minimumdistance",
           "medianDistance": "mediandistance",
           "groundTruthLevel": None}
TEXT = st.sampled_from(["earthquake", "quarry blast", "induced or triggered",
                        "a & b", "<c>", "x  y", "é ü", "1", "]]>", "event",
                        "tab\tin", "two\nlines"])
NUM = st.one_of(st.integers(-50, 500).map(str),
                st.floats(-200, 700, allow_nan=False).map(repr),
                st.sampled_from(["0", "-0.0", "1e-3", "1.10", "007"]))
# moments close to each other, whose order is not the one of their texts
CLOSE = ["2001-02-03T04:05:06Z", "2001-02-03T04:05:06.5Z",
         "2001-02-03T04:05:06.25Z", "2001-02-03T05:05:06.75+02:00",
         "2001-02-03T06:05:07+02:00", "2001-02-03T06:05:05+02:00",
         "2001-02-03T04:05:05Z", "2001-02-03T04:05:06.123456"]
MTYPES = ["ML", "MLv", "ML", "Mw", "mb_Lg", "M", "Mw(mB)"]


@st.composite
def _quantity(draw):
    """children of a QuakeML RealQuantity, in any order"""
    keys = ["value"] + draw(st.lists(st.sampled_from(list(VALS)[1:]),
                                     max_size=3, unique=True))
    return {k: draw(NUM) for k in draw(st.permutations(keys))}


@st.composite
def _time(draw):
    return "%04d-%02d-%02dT%02d:%02d:%02d%s%s" % (
        draw(st.integers(2000, 2003)), draw(st.integers(1, 12)),
        draw(st.integers(1, 28)), draw(st.integers(0, 23)),
        draw(st.integers(0, 59)), draw(st.integers(0, 59)),
        draw(st.sampled_from(["", ".5", ".25", ".123456"])),
        draw(st.sampled_from(["Z", "", "Z", "+02:00"])))


@st.composite
def _info(draw):
    """creationInfo: version and time, possibly shared with others"""
    out = {}
    if draw(st.integers(0, 3)):
        out["version"] = draw(st.sampled_from(
            ["1", "2", "10", "2.5", "1", "2", "10"] + (
                ["1.0.2", "final"] if draw(st.integers(0, 3)) == 0 else [])))
    if draw(st.integers(0, 3)):
        out["creationTime"] = draw(st.one_of(_time(), st.sampled_from(
            ["2001-02-03T04:05:06.5Z", "2001-02-03T04:05:06.25Z",
             "2001-02-03T05:00:00+02:00"])))
    if draw(st.booleans()):
        out["agencyID"] = draw(TEXT)
    return out


@st.composite
def _doc(draw, nmax=4):
    events = []
    for i in range(draw(st.integers(1, nmax)) if nmax > 1 else 1):
        origins = []
        for j in range(draw(st.sampled_from([1, 2, 3, 0, 1, 2]))):
            o = {"id": f"smi:o/{i}/{j}?a=1&b=<>"}
            for k in ("time", "latitude", "longitude", "depth"):
                if k != "depth" or draw(st.integers(0, 3)):
                    o[k] = draw(_quantity())
            o["time"]["value"] = draw(_time())
            if draw(st.booleans()):
                o["evaluationMode"] = draw(st.sampled_from(
                    ["manual", "automatic"]))
            if draw(st.booleans()):
                o["quality"] = {k: draw(NUM) for k in draw(st.lists(
                    st.sampled_from(list(QUALITY)), max_size=6,
                    unique=True))}
            o["order"] = draw(st.permutations(range(8)))
            origins.append(o)
        mags = []
        for j in range(draw(st.sampled_from([2, 3, 1, 4, 5, 0]))):
            m = {"id": f"smi:m/{i}/{j}", "mag": draw(_quantity()),
                 "info": draw(_info()),
                 "order": draw(st.permutations(range(8)))}
            if draw(st.integers(0, 9)) != 5:
                m["type"] = draw(st.sampled_from(MTYPES))
            mags.append(m)
        if draw(st.integers(0, 2)) == 0:
            # a history: solutions of one type, one after the other
            ver = draw(st.sampled_from(["1", "2", None, "mixed"]))
            for j in range(draw(st.integers(2, 5))):
                info = {"creationTime": draw(st.sampled_from(CLOSE))}
                if ver:
                    info["version"] = ver if ver != "mixed" else draw(
                        st.sampled_from(["1", "2", "2.0", "10", "9"]))
                if draw(st.integers(0, 9)) == 0:
                    del info[draw(st.sampled_from(sorted(info)))]
                mags.insert(draw(st.integers(0, len(mags))), {
                    "id": f"smi:h/{i}/{j}", "mag": draw(_quantity()),
                    "info": info, "order": draw(st.permutations(range(8))),
                    "type": "Mh"})

        def pick(v):
            k = draw(st.sampled_from([0, 1, 2, 0, 1, 2, 0, 1, "none",
                                      "dangling"]))
            if k == "dangling":
                return "smi:elsewhere"
            return v[k % len(v)]["id"] if v and k != "none" else None
        events.append({
            "id": f"smi:e/{i}&x", "origins": origins, "mags": mags,
            "pref_o": pick(origins), "pref_m": pick(mags),
            "type": draw(st.one_of(TEXT, TEXT, st.none())),
            "order": draw(st.permutations(range(
                len(origins) + len(mags) + 9))),
            "noise": draw(st.lists(st.integers(0, 5), max_size=4,
                                   unique=True))})
    return {"events": events, "style": draw(st.integers(0, 10**6)),
            "enc": draw(st.sampled_from(["UTF-8", "UTF-8", "ISO-8859-1"])),
            "all": draw(st.booleans()), "quality": draw(st.booleans()),
            "chunks": draw(st.lists(st.integers(1, 40), min_size=1,
                                    max_size=5))}


class Render:
    """XML text with pseudo-random, insignificant variations"""

    def __init__(self, style):
        self.s = style

    def r(self, n):
        self.s = (self.s * 1103515245 + 12345) % 2 ** 31
        return (self.s >> 8) % n

    def sp(self):
        return ["", "\n  ", " ", "\n\t", "<!-- <event> value -->",
                "\r\n", "<?pi x?>", ""][self.r(8)]

    def text(self, t):
        k = self.r(6)
        if k == 0 and "]]>" not in t:
            return f"<![CDATA[{t}]]>"
        t = escape(t)
        if k == 1 and t and t[-1].isalnum():
            return t[:-1] + f"&#{ord(t[-1])};"
        if k == 2 and " " in t:
            a, b = t.split(" ", 1)
            return a + " <!-- c -->" + b
        return t

    def leaf(self, tag, t):
        pad = ["", "", "\n  ", " "][self.r(4)]
        return f"<{tag}>{pad}{self.text(t)}{pad}</{tag}>"

    def node(self, tag, kids, attrs=""):
        return f"<{tag}{attrs}>" + self.sp() + "".join(
            k + self.sp() for k in kids) + f"</{tag}>"

    def quantity(self, tag, q):
        return self.node(tag, [self.leaf(k, v) for k, v in q.items()])

    def info(self, i):
        return self.node("creationInfo", [self.leaf(k, v)
                                          for k, v in i.items()])

    def origin(self, o):
        k = [self.quantity(c, o[c]) for c in ("time", "latitude", "longitude",
                                              "depth") if c in o]
        if "evaluationMode" in o:
            k.append(self.leaf("evaluationMode", o["evaluationMode"]))
        if "quality" in o:
            k.append(self.node("quality", [self.leaf(a, b) for a, b in
                                           o["quality"].items()]))
        k += [self.node("arrival", [
            self.leaf("phase", "P"), self.leaf("azimuth", "77"),
            self.leaf("timeResidual", "0.5")], ' publicID="smi:arr"'),
            self.leaf("depthType", "operator assigned")]
        k = [k[i] for i in o["order"] if i < len(k)]
        return self.node("origin", k, " publicID=" + quoteattr(o["id"]))

    def magnitude(self, m):
        k = [self.quantity("mag", m["mag"])]
        if "type" in m:
            k.append(self.leaf("type", m["type"]))
        if m["info"]:
            k.append(self.info(m["info"]))
        k += [self.leaf("originID", "smi:some"),
              self.leaf("stationCount", "12"),
              self.node("comment", [self.leaf("text", "value")]),
              self.leaf("evaluationStatus", "final")]
        k = [k[i] for i in m["order"] if i < len(k)]
        return self.node("magnitude", k, f' publicID="{m["id"]}"')

    def event(self, e):
        noise = [
            lambda: self.node("description", [
                self.leaf("text", "Somewhere & else"),
                self.leaf("type", "region name")]),
            lambda: self.info({"agencyID": "X", "version": "3"}),
            lambda: self.node("pick", [
                self.quantity("time", {"value": "1999-01-01T00:00:00Z"}),
                '<waveformID networkCode="CH" stationCode="A"/>',
                self.leaf("evaluationMode", "rejected")],
                ' publicID="smi:pick"'),
            lambda: self.node("stationMagnitude", [
                self.quantity("mag", {"value": "7.77"}),
                self.leaf("type", "MXX"), self.leaf("originID", "z")],
                ' publicID="smi:stamag"'),
            lambda: self.node("focalMechanism", [
                self.node("nodalPlanes", [self.node("nodalPlane1", [
                    self.quantity("strike", {"value": "7"})])]),
                self.leaf("triggeringOriginID", "smi:trig")],
                ' publicID="smi:fm"'),
            lambda: self.node("amplitude", [
                self.quantity("genericAmplitude", {"value": "1"}),
                self.leaf("type", "AML"),
                self.leaf("magnitudeHint", "ML")], ' publicID="smi:amp"')]
        k = [self.origin(o) for o in e["origins"]]
        k += [self.magnitude(m) for m in e["mags"]]
        if e["pref_o"] is not None:
            k.append(self.leaf("preferredOriginID", e["pref_o"]))
        if e["pref_m"] is not None:
            k.append(self.leaf("preferredMagnitudeID", e["pref_m"]))
        if e["type"] is not None:
            k.append(self.leaf("type", e["type"]))
        k += [noise[i]() for i in e["noise"]]
        k = [k[i] for i in e["order"] if i < len(k)]
        return self.node("event", k, " publicID=" + quoteattr(e["id"]))

    def document(self, case, pad=0):
        ev = [self.event(e) for e in case["events"]]
        extra = [self.leaf("description", "type of all"),
                 self.info({"agencyID": "SED"})] if self.r(2) else []
        body = self.node("eventParameters", extra + ev,
                         ' publicID="smi:ep"')
        return (f'<?xml version="1.0" encoding="{case["enc"]}"?>\n'
                + (f"<!--{'p' * pad}-->" if pad else "")
                + '<q:quakeml xmlns="http://quakeml.org/xmlns/bed/1.2" '
                'xmlns:q="http://quakeml.org/xmlns/quakeml/1.2">'
                + body + "</q:quakeml>\n")


def _norm(t):
    """what an XML parser makes of line ends"""
    return t.strip()


def _stamp(t):
    import datetime as dt
    d, frac = t[:19], ""
    rest = t[19:]
    off = 0
    if rest.endswith("+02:00"):
        off, rest = 7200, rest[:-6]
    rest = rest.rstrip("Z")
    frac = float("0" + rest) if rest else 0.0
    return (dt.datetime.strptime(d, "%Y-%m-%dT%H:%M:%S")
            - dt.datetime(2000, 1, 1)).total_seconds() - off + frac


def _number(v):
    try:
        return v is not None and math.isfinite(float(v))
    except ValueError:
        return False


def expected(e, case):
    """(dict of the event, {type: list of allowed secondary dicts})"""
    out = {"eventID": e["id"], "event_type": e["type"], "time": None,
           "latitude": None, "longitude": None, "depth": None,
           "evaluationmode": None, "magnitude": None,
           "magnitude_type": None}
    o = next((o for o in e["origins"] if o["id"] == e["pref_o"]), None)
    if o:
        out["originID"] = o["id"]
        for k in ("time", "latitude", "longitude", "depth"):
            for a, v in o.get(k, {}).items():
                out[k + VALS[a]] = v
        if "evaluationMode" in o:
            out["evaluationmode"] = o["evaluationMode"]
        if case["quality"]:
            for a, v in o.get("quality", {}).items():
                if QUALITY[a]:
                    out[QUALITY[a]] = v
    p = next((m for m in e["mags"] if m["id"] == e["pref_m"]), None)
    if p:
        out["magnitudeID"] = p["id"]
        for a, v in p["mag"].items():
            out["magnitude" + VALS[a]] = v
        out["magnitude_type"] = p.get("type")
    sec = {}
    if case["all"]:
        for t in {m["type"] for m in e["mags"] if "type" in m}:
            c = [m for m in e["mags"] if m.get("type") == t]
            if p and p.get("type") == t:
                c = [p]
            ver = [m["info"].get("version") for m in c]
            tim = [m["info"].get("creationTime") for m in c]
            key = [(float(v) if all(map(_number, ver)) else 0,
                    _stamp(s) if all(tim) else 0)
                   for v, s in zip(ver, tim)]
            c = [m for m, k in zip(c, key) if k == max(key)]
            sec[t] = [{**{f"magnitude_{t}" + VALS[a]: v
                          for a, v in m["mag"].items()},
                       f"magnitude_{t}_magnitudeID": m["id"]} for m in c]
    return out, sec


def compare(got, case, what):
    assert len(got) == len(case["events"]), \
        f"{what}: {len(got)} of {len(case['events'])} events"
    for g, e in zip(got, case["events"]):
        out, sec = expected(e, case)
        rest = dict(g)
        for k, v in out.items():
            v = v if v is None else _norm(v)
            assert rest.pop(k, None) == v, \
                f"{what}: {e['id']} {k} is {g.get(k)!r}, expected {v!r}"
        for t, options in sec.items():
            keys = {f"magnitude_{t}{v}" for v in VALS.values()} | {
                f"magnitude_{t}_magnitudeID"}
            mine = {k: rest.pop(k) for k in keys if k in rest}
            assert mine in options, \
                f"{what}: {e['id']} {t}: {mine}, expected one of {options}"
        assert not rest, f"{what}: {e['id']} has also {rest}"


class Raw(io.RawIOBase):
    """a network stream that gives the bytes in uneven pieces"""

    def __init__(self, data, chunks):
        self.data, self.pos = data, 0
        self.chunks, self.i = chunks, 0

    def readable(self):
        return True

    def read(self, size=-1):
        n = self.chunks[self.i % len(self.chunks)]
        if size is not None and size >= 0:
            n = min(n, size)
        if size:
            self.i += 1
        out = self.data[self.pos:self.pos + n]
        self.pos += len(out)
        return out


def response(data, chunks):
    import requests
    r = requests.Response()
    r.status_code = 200
    r.raw = Raw(data, chunks)
    return r


def read_file(data, opts):
    from seismostats.io.parser import parse_quakeml_file
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "q.xml")
        with open(p, "wb") as f:
            f.write(data)
        return parse_quakeml_file(p, **opts)


def _nt(case, ctx):
    ctx.nt(any((e["pref_o"] and len(e["origins"]) > 1)
               or (e["pref_m"] and len(e["mags"]) > 1)
               for e in case["events"]))


@PROP.facet(_doc, quick=800, shards=3)
def document(case, ctx):
    """from a string, a file or a response in pieces of any size: one entry
    per event in order, with the event's id and type, the values of its
    preferred origin and magnitude, quality if asked for, and for every other
    magnitude type the one with the highest version and latest creation time;
    nothing else gets in, whatever the order of elements, comments, escapes"""
    from seismostats.io.parser import (QuakeMLHandler, parse_quakeml,
                                       parse_quakeml_response)
    text = Render(case["style"]).document(case)
    opts = {"include_all_magnitudes": case["all"],
            "include_quality": case["quality"]}
    data = text.encode(case["enc"])
    if case["enc"] == "UTF-8":
        compare(parse_quakeml(text, **opts), case, "string")
    compare(read_file(data, opts), case, "file")
    compare(parse_quakeml_response(response(data, case["chunks"]), **opts),
            case, "response")
    out = []
    p = xml.sax.make_parser()
    p.setContentHandler(QuakeMLHandler(out, case["all"], case["quality"]))
    i = 0
    for k in range(len(data)):
        n = case["chunks"][-1 - k % len(case["chunks"])]
        p.feed(data[i:i + n])
        i += n
        if i >= len(data):
            break
    p.close()
    compare(out, case, "incremental")
    _nt(case, ctx)
    for e in case["events"]:
        if any("type" not in m for m in e["mags"]):
            ctx.label("magnitude without type")
        t = [m.get("type") for m in e["mags"]]
        if len(set(t)) < len(t):
            ctx.label("several of one type")
        if t.count("Mh") > 2:
            ctx.label("history of one type")


@st.composite
def _cut(draw):
    c = draw(_doc(nmax=2))
    c["at"] = draw(st.integers(0, 10000))
    c["tag"] = draw(st.sampled_from(["byte", "tag", "event", "event"]))
    return c


@PROP.facet(_cut, quick=500, shards=2)
def truncated(case, ctx):
    """a document that is cut off anywhere is refused, never read as a
    shorter list of events; an empty document has no events"""
    from seismostats.io.parser import (parse_quakeml, parse_quakeml_file,
                                       parse_quakeml_response)
    case = dict(case, enc="UTF-8")
    text = Render(case["style"]).document(case)
    opts = {"include_all_magnitudes": case["all"],
            "include_quality": case["quality"]}
    data = text.encode("utf-8")
    start, end = data.index(b"<q:quakeml"), data.rindex(b"</q:quakeml>") + 12
    at = start + 11 + (end - start - 12) * case["at"] // 10000
    if case["tag"] == "tag":
        at = data.index(b">", at - 1) + 1
    if case["tag"] == "event":          # within or after the last event
        a = data.rindex(b"</event>") + 8
        at = a + (end - a) * case["at"] // 10001
    if at >= end:
        ctx.discard("not cut")
    part = data[:at]
    calls = {
        "file": lambda: read_file(part, opts),
        "response": lambda: parse_quakeml_response(
            response(part, case["chunks"]), **opts)}
    try:
        s = part.decode("utf-8")
        calls["string"] = lambda: parse_quakeml(s, **opts)
    except UnicodeDecodeError:
        pass
    for name, fn in calls.items():
        try:
            out = fn()
        except xml.sax.SAXException:
            continue
        raise AssertionError(
            f"{name}: cut at byte {at} of {len(data)}, read as a document "
            f"with {len(out)} of {len(case['events'])} events")
    assert read_file(b"", opts) == []
    assert parse_quakeml("", **opts) == []
    assert parse_quakeml_response(response(b"", [1]), **opts) == []
    assert parse_quakeml_file is not None
    ctx.nt(part.count(b"</event>") > 0)
    ctx.label("cut after %d events" % part.count(b"</event>"))


@st.composite
def _big(draw):
    c = draw(_doc(nmax=2))
    c["at"] = draw(st.integers(0, 10000))
    c["enc"] = "UTF-8"
    return c


@PROP.facet(_big, quick=200, shards=2)
def large_files(case, ctx):
    """the same for documents larger than one read buffer, with the boundary
    anywhere, e.g. in the middle of a text"""
    opts = {"include_all_magnitudes": case["all"],
            "include_quality": case["quality"]}
    head = len(Render(case["style"]).document(case, 1).encode()) - 1
    first = Render(case["style"]).document(case, 1).encode()
    start = first.index(b"<q:quakeml")
    # a text with a space in it, if there is one
    marks = [start + 1 + (head - start - 2) * case["at"] // 10000]
    for e in case["events"]:
        t = e["type"]
        if t and " " in t:
            i = first.find(escape(t).encode())
            if i > 0:
                marks.append(i + t.index(" ") + case["at"] % 2)
                ctx.label("boundary at a space")
    for mark in marks[-2:]:
        data = Render(case["style"]).document(
            case, 1 + 65536 - mark).encode()
        assert len(data) > 65536
        compare(read_file(data, opts), case, "file")
    _nt(case, ctx)
