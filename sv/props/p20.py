"""P20  The FDSN client returns exactly the events the service has."""
import datetime as dt
import gzip
import http.server
import math
import os
import socket
import threading
import urllib.parse

from hypothesis import strategies as st

from ..core import Property
from .p19 import Render

PROP = Property(
    "P20",
    "A case is the content of an event service (a real HTTP server on the "
    "loopback interface that filters, pages and renders QuakeML), the limits "
    "and options of one or more queries and possibly a fault at one of the "
    "requests. Non-trivial: some but not all events match, or several batches "
    "are needed, or a fault was met.",
    ["the service is consistent: events do not change during a query",
     "limits are not within rounding of an event's value unless equal to it",
     "a body of no bytes with status 200 counts as no events, as do the "
     "statuses 204 and 404"])

T0 = dt.datetime(2020, 1, 1)
MT = ["ML", "Mw", "mb"]
ET = ["earthquake", "quarry blast", "explosion"]
KNOWN = {"starttime", "endtime", "minlatitude", "maxlatitude", "minlongitude",
         "maxlongitude", "minmagnitude", "maxmagnitude", "limit", "offset",
         "includeallmagnitudes", "eventtype", "orderby", "mindepth",
         "maxdepth", "magnitudetype", "catalog", "nodata"}


# ---------------------------------------------------------------- the service
def _time(text):
    text = text.removesuffix("Z")
    for f in ("%Y-%m-%dT%H:%M:%S.%f", "%Y-%m-%dT%H:%M:%S", "%Y-%m-%d"):
        try:
            return dt.datetime.strptime(text, f)
        except ValueError:
            pass
    raise ValueError(text)


def stamp(e):
    return T0 + dt.timedelta(microseconds=e["us"])


def select(events, q):
    """the events of the service for a query, in its order"""
    out = []
    for e in events:
        t = stamp(e)
        ok = True
        if "starttime" in q:
            ok &= t >= _time(q["starttime"])
        if "endtime" in q:
            ok &= t <= _time(q["endtime"])
        for k, v in (("latitude", e["lat"]), ("longitude", e["lon"]),
                     ("magnitude", e["mag"]), ("depth", e["dep"])):
            if "min" + k in q:
                ok &= v >= float(q["min" + k])
            if "max" + k in q:
                ok &= v <= float(q["max" + k])
        if "eventtype" in q:
            ok &= e["type"] == q["eventtype"]
        if "magnitudetype" in q:
            ok &= e["mt"] == q["magnitudetype"]
        if ok:
            out.append(e)
    order = q.get("orderby", "time")
    key = (lambda e: e["mag"]) if order.startswith("magn") \
        else (lambda e: e["us"])
    out.sort(key=lambda e: (key(e), e["n"]),
             reverse=not order.endswith("-asc"))
    a = int(q.get("offset", 1)) - 1
    n = int(q["limit"]) if "limit" in q else len(out)
    return out[a:a + n]


def secondary(e):
    return [(t, round(e["mag"] + 0.1 * (i + 1), 3))
            for i, t in enumerate(t for t in MT if t != e["mt"])][:e["more"]]


def document(events, all_mags, style):
    docs = []
    for e in events:
        mags = [{"id": f"smi:m/{e['n']}/p", "type": e["mt"], "info": {},
                 "mag": {"value": repr(e["mag"]), "uncertainty": "0.25"},
                 "order": range(8)}]
        if all_mags:
            mags += [{"id": f"smi:m/{e['n']}/{t}", "type": t, "info": {},
                      "mag": {"uncertainty": "0.5", "value": repr(v)},
                      "order": range(8)} for t, v in secondary(e)]
        o = {"id": f"smi:o/{e['n']}", "order": range(8),
             "time": {"value": stamp(e).isoformat() + "Z",
                      "uncertainty": "0.125"},
             "latitude": {"value": repr(e["lat"])},
             "longitude": {"value": repr(e["lon"])},
             "depth": {"value": repr(e["dep"])},
             "evaluationMode": "manual",
             "quality": {"azimuthalGap": "77", "usedPhaseCount": "12"}}
        docs.append({"id": f"smi:e/{e['n']}?a=1&b=2", "origins": [o],
                     "mags": mags, "pref_o": o["id"],
                     "pref_m": mags[0]["id"], "type": e["type"],
                     "order": range(30), "noise": [0, 2]})
    return Render(style).document({"events": docs, "enc": "UTF-8"})


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"

    def log_message(self, *a):
        pass

    def reply(self, status, body=b"", transfer="length", cut=None, mime=None):
        self.send_response(status)
        self.send_header("Connection", "close")
        self.send_header("Content-Type", mime or "application/xml")
        if transfer == "gzip" and "gzip" in self.headers.get(
                "Accept-Encoding", ""):
            body = gzip.compress(body)
            self.send_header("Content-Encoding", "gzip")
        if transfer == "chunked":
            self.send_header("Transfer-Encoding", "chunked")
        elif transfer != "close" and status != 204:
            self.send_header("Content-Length", str(len(body)))
        self.end_headers()
        part = body if cut is None else body[:1 + (len(body) - 2) * cut // 100]
        if transfer == "chunked":
            n = 700
            for i in range(0, len(part), n):
                p = part[i:i + n]
                self.wfile.write(b"%x\r\n" % len(p) + p + b"\r\n")
            if cut is None:
                self.wfile.write(b"0\r\n\r\n")
        else:
            self.wfile.write(part)
        self.close_connection = True

    def do_GET(self):
        s = self.server.state
        with s["lock"]:
            k = s["requests"]
            s["requests"] += 1
        try:
            q = dict(urllib.parse.parse_qsl(
                urllib.parse.urlsplit(self.path).query,
                keep_blank_values=True))
            s["queries"].append(q)
            f = s["fault"]
            cut = None
            if f and (k == f["at"] or (f["stays"] and k >= f["at"])):
                kind = f["kind"]
                if kind == "cut":
                    cut = f["cut"]
                elif kind == "reset":
                    s["met"] += 1
                    self.close_connection = True
                    self.connection.setsockopt(
                        socket.SOL_SOCKET, socket.SO_LINGER,
                        b"\1\0\0\0\0\0\0\0")
                    self.connection.close()
                    return
                else:
                    s["met"] += 1
                    return self.reply(kind, f["body"].encode(),
                                      mime="text/html")
            extra = set(q) - KNOWN
            if extra:
                s["bad"] = f"unknown parameters {sorted(extra)}"
                return self.reply(400, s["bad"].encode(), mime="text/plain")
            ev = select(s["events"], q)
            s["largest"] = max(s["largest"], len(ev))
            if not ev:
                if q.get("nodata") == "404":
                    return self.reply(404, b"Error 404: no data <available>",
                                      mime="text/plain")
                return self.reply(204)
            text = document(ev, q.get("includeallmagnitudes", "").lower()
                            == "true", s["style"])
            data = text.encode()
            if cut is not None:
                s["met"] += 1
            self.reply(200, data, s["transfer"], cut)
        except (BrokenPipeError, ConnectionError):
            pass
        except Exception as exc:
            s["bad"] = repr(exc)
            self.reply(400, repr(exc).encode(), mime="text/plain")


class Server(http.server.ThreadingHTTPServer):
    request_queue_size = 64
    daemon_threads = True

    def handle_error(self, *a):
        pass


_SERVER = {}


def server():
    pid = os.getpid()
    if pid not in _SERVER:
        os.environ["NO_PROXY"] = os.environ["no_proxy"] = "127.0.0.1"
        s = Server(("127.0.0.1", 0), Handler)
        threading.Thread(target=s.serve_forever, kwargs={
            "poll_interval": 0.05}, daemon=True).start()
        _SERVER[pid] = s
    return _SERVER[pid]


def start(case, fault=None):
    s = server()
    s.state = {"events": case["events"], "style": case["style"],
               "transfer": case["transfer"], "fault": fault, "requests": 0,
               "met": 0, "bad": None, "largest": 0, "queries": [],
               "lock": threading.Lock()}
    return s.state, f"http://127.0.0.1:{s.server_address[1]}/fdsnws/event/1/query"


# ------------------------------------------------------------------ the cases
@st.composite
def _events(draw, nmax):
    n = draw(st.one_of(st.integers(0, 4), st.integers(0, nmax),
                       st.sampled_from([nmax, 1, 8 if nmax >= 8 else 2])))
    # few random numbers for many events
    style = draw(st.integers(0, 10**6))
    r = Render(style).r
    slots = [40, 12][r(2)]
    out = []
    for i in range(n):
        out.append({
            "n": i, "us": r(slots) * 43200000000 + r(3) * 500000 + r(2) * 250001,
            "lat": (r(40) - 20) / 4, "lon": (r(40) - 20) / 4,
            "dep": (r(30) - 2) * 1000.0, "mag": (r(40) - 5) / 10,
            "mt": MT[r(3)], "type": ET[min(2, r(5))], "more": r(3)})
    return out


@st.composite
def _query(draw, batched=None):
    q = {}
    few = draw(st.integers(0, 3))

    def maybe(k, s, p=3):
        if draw(st.integers(0, p + few)) == 0:
            q[k] = draw(s)
    t = st.tuples(st.one_of(st.integers(0, 12), st.integers(0, 40)),
                  st.sampled_from([0, 0, 0, 500000, 750000, 1, 999999]),
                  st.sampled_from([None, None, 0, 2, -5.5, 13, -11.5]))
    if batched and draw(st.integers(0, 4)) == 4:
        return {"batch_size": draw(st.sampled_from([1, 2, 3, 4, 7, 50]))}
    if draw(st.integers(0, 4)) == 4:    # one limit in time
        q[draw(st.sampled_from(["start_time", "end_time"]))] = draw(t)
        if batched:
            q["batch_size"] = draw(st.sampled_from([1, 2, 3, 50]))
        return q
    if draw(st.integers(0, 3)) == 3:    # one limit, often zero
        k = draw(st.sampled_from([a + b for a in ("min_", "max_") for b in (
            "magnitude", "magnitude", "latitude", "longitude")]))
        q[k] = draw(st.sampled_from([0, 0.0, 0, 1, -0.25]))
        q["delta_m"] = draw(st.sampled_from([None, None, 0, 0.1]))
        if batched:
            q["batch_size"] = draw(st.sampled_from([1, 2, 3, 50]))
        return q
    maybe("start_time", t)
    maybe("end_time", t)
    for k in ("latitude", "longitude"):
        maybe("min_" + k, st.sampled_from([0, 0.0, -2.5, 1, -0.25, -90]), 5)
        maybe("max_" + k, st.sampled_from([0, 0.0, 2.5, -1, 3.25, 90]), 5)
    maybe("min_magnitude", st.sampled_from([0, 0.0, 1.0, 2, -0.5, 1.5]), 2)
    maybe("max_magnitude", st.sampled_from([0, 2.0, 3, 1.5, 0.0]), 4)
    if draw(st.booleans()):
        q["delta_m"] = draw(st.sampled_from([None, 0, 0.1, 0.5, 0.01, 1.0]))
    maybe("event_type", st.sampled_from(ET), 5)
    for k in ("all_magnitudes", "uncertainty", "ids", "quality"):
        maybe("include_" + k, st.booleans(), 1)
    if draw(st.integers(0, 3)) == 0:
        q["kwargs"] = draw(st.sampled_from([
            {"orderby": "time-asc"}, {"orderby": "magnitude"},
            {"mindepth": 0}, {"maxdepth": 5000, "magnitudetype": "ML"},
            {"catalog": "a & b/?=c"}, {"magnitudetype": "Mw"}]))
    # the status with which a service answers if it has no data
    nd = draw(st.sampled_from([None, None, 404, 204]))
    if nd:
        q["kwargs"] = dict(q.get("kwargs", {}), nodata=nd)
    if batched is None:
        batched = draw(st.booleans())
    if batched:
        q["batch_size"] = draw(st.sampled_from([1, 2, 3, 4, 7, 50, 1000]))
    return q


def _case(nmax=24, nq=3, batched=None):
    return st.fixed_dictionaries({
        "events": _events(nmax), "style": st.integers(0, 10**6),
        "transfer": st.sampled_from(["length", "gzip", "chunked", "close"]),
        "queries": st.lists(_query(batched), min_size=1, max_size=nq)})


def moment(t):
    """(the datetime to pass, the instant in UTC)"""
    half, us, off = t
    u = T0 + dt.timedelta(hours=12 * half, microseconds=us)
    if off is None:
        return u, u
    z = dt.timezone(dt.timedelta(hours=off))
    return u.replace(tzinfo=dt.timezone.utc).astimezone(z), u


def arguments(q):
    out = {k: v for k, v in q.items() if k not in (
        "kwargs", "start_time", "end_time")}
    for k in ("start_time", "end_time"):
        if k in q:
            out[k] = moment(q[k])[0]
    return out | q.get("kwargs", {})


def matching(events, q):
    """the events within the limits, by the documentation"""
    f = {}
    dm = q.get("delta_m", 0.1) or 0
    edge = q.get("min_magnitude")
    out = []
    for e in events:
        ok = True
        if "start_time" in q:
            ok &= stamp(e) >= moment(q["start_time"])[1]
        if "end_time" in q:
            ok &= stamp(e) <= moment(q["end_time"])[1]
        if edge is not None:
            d = e["mag"] - (edge - dm / 2)
            if d != 0 and abs(d) < 1e-9:
                return None
            ok &= d >= 0
        if q.get("max_magnitude") is not None:
            ok &= e["mag"] <= q["max_magnitude"]
        for k, v in (("latitude", e["lat"]), ("longitude", e["lon"])):
            ok &= v >= q.get("min_" + k, -math.inf)
            ok &= v <= q.get("max_" + k, math.inf)
        ok &= q.get("event_type", e["type"]) == e["type"]
        if ok:
            out.append(e)
    return select(out, f | {k: str(v) for k, v in
                            q.get("kwargs", {}).items()})


def compare(cat, want, q, what):
    import pandas as pd
    from seismostats import Catalog
    assert isinstance(cat, Catalog), f"{what}: a {type(cat).__name__}"
    got = list(zip(pd.to_datetime(cat["time"]), cat["magnitude"]))
    assert len(cat) == len(want), \
        f"{what}: {len(cat)} events instead of {len(want)} ({arguments(q)})"
    assert list(cat.index) == list(range(len(want))), f"{what}: row labels"
    for g, e in zip(got, want):
        assert g[0] == pd.Timestamp(stamp(e)) and g[1] == e["mag"], \
            f"{what}: {g} instead of {stamp(e)}, {e['mag']}"
    for k in ("start", "end"):
        v = getattr(cat, k + "time")
        if k + "_time" in q:
            assert pd.Timestamp(v) == pd.Timestamp(
                moment(q[k + "_time"])[0]), f"{what}: {k}time is {v}"
        else:
            assert v is None or pd.isna(v), f"{what}: {k}time is {v}"
    if not want:
        return
    cols = {"latitude": "lat", "longitude": "lon", "depth": "dep",
            "magnitude_type": "mt", "event_type": "type"}
    exp = {k: [e[v] for e in want] for k, v in cols.items()}
    exp["evaluationmode"] = ["manual"] * len(want)
    optional = {
        "include_uncertainty": {"time_uncertainty": 0.125,
                                "magnitude_uncertainty": 0.25},
        "include_quality": {"azimuthalgap": 77, "usedphasecount": 12}}
    for flag, d in optional.items():
        for k, v in d.items():
            if q.get(flag, False):
                exp[k] = [v] * len(want)
            else:
                assert k not in cat.columns, f"{what}: has {k}"
    if q.get("include_ids", False):
        exp["eventID"] = [f"smi:e/{e['n']}?a=1&b=2" for e in want]
        exp["originID"] = [f"smi:o/{e['n']}" for e in want]
        exp["magnitudeID"] = [f"smi:m/{e['n']}/p" for e in want]
    else:
        assert not {"eventID", "originID", "magnitudeID"} & set(cat.columns)
    if q.get("include_all_magnitudes", False):
        for t in MT:
            v = [dict(secondary(e)).get(t, None) for e in want]
            own = [e["mag"] if e["mt"] == t else x for e, x in zip(want, v)]
            if any(x is not None for x in v):
                c = cat[f"magnitude_{t}"]
                for a, x in zip(c, own):
                    assert (pd.isna(a) and x is None) or float(a) == x, \
                        f"{what}: magnitude_{t} {a}, expected {x}"
    for k, v in exp.items():
        assert k in cat.columns, f"{what}: no column {k}"
        for a, b in zip(cat[k], v):
            a = float(a) if isinstance(b, (int, float)) else a
            assert a == b, f"{what}: {k} is {a!r}, expected {b!r}"


def run(case, q, client):
    from seismostats import FDSNWSEventClient
    state, url = start(case)
    client = client or FDSNWSEventClient(url)
    want = matching(case["events"], q)
    try:
        cat = client.get_events(**arguments(q))
    except Exception as exc:
        raise AssertionError(
            f"{type(exc).__name__}: {exc} for {arguments(q)}"
            f"; service: {state['bad']}")
    assert state["bad"] is None, f"service: {state['bad']}"
    return cat, want, client, state


@PROP.facet(lambda: _case(batched=False), quick=500, shards=2)
def within_limits(case, ctx):
    """a query returns exactly the events of the service within the limits
    (magnitudes down to half a bin below the minimum; limits of 0, fractions
    of a second and time zones count), with the requested columns and the
    time span; queries with the same client do not influence each other"""
    client = None
    for i, q in enumerate(case["queries"]):
        if matching(case["events"], q) is None:
            ctx.discard("magnitude at the limit")
    for i, q in enumerate(case["queries"]):
        cat, want, client, _ = run(case, q, client)
        compare(cat, want, q, f"query {i}")
        ctx.nt(0 < len(want) < len(case["events"]))
        ctx.label("no event" if not want else "all" if
                  len(want) == len(case["events"]) else "some")
        for t in ("start_time", "end_time"):
            if t in q and q[t][2]:
                ctx.label("time zone")
            if t in q and q[t][1] and not q[t][2]:
                ctx.label("fraction of a second")


@PROP.facet(lambda: _case(nmax=30, nq=2, batched=True), quick=320, shards=4)
def batches(case, ctx):
    """downloading in batches of any size gives the same as in one request,
    whatever the number of events, with no batch larger than asked for and
    not many more requests than batches"""
    client = None
    for i, q in enumerate(case["queries"]):
        if matching(case["events"], q) is None:
            ctx.discard("magnitude at the limit")
    for i, q in enumerate(case["queries"]):
        cat, want, client, state = run(case, q, client)
        compare(cat, want, q, f"query {i} in batches of {q['batch_size']}")
        assert state["largest"] <= q["batch_size"], \
            f"a batch of {state['largest']} events"
        n = -(-len(want) // q["batch_size"])
        assert state["requests"] <= 3 * n + 20, \
            f"{state['requests']} requests for {n} batches"
        one = {k: v for k, v in q.items() if k != "batch_size"}
        cat1, _, client, _ = run(case, one, client)
        assert list(cat1.columns) == list(cat.columns), "columns"
        ctx.nt(n > 1)
        ctx.label(f"{min(n, 8)} batches")
        if want and len(want) % q["batch_size"] == 0:
            ctx.label("full last batch")


@st.composite
def _faulty(draw):
    c = draw(_case(nmax=16, nq=1))
    if draw(st.booleans()):             # no limits
        q = {"batch_size": draw(st.sampled_from([1, 2, 3, 5, 16]))}
        nd = draw(st.sampled_from([None, 404, 204]))
        if nd:
            q["kwargs"] = {"nodata": nd}
        c["queries"] = [q]
    c["fault"] = {
        "at": draw(st.integers(0, 30)), "stays": draw(st.booleans()),
        "kind": draw(st.sampled_from(
            ["cut", "cut", "reset", 500, 503, 413, 429, 400, 401, 403, 405,
             502])),
        "cut": draw(st.integers(0, 100)),
        "body": draw(st.sampled_from(
            ["", "Error 500: too many requests",
             "<html><body><h1>Service unavailable</h1></body></html>",
             "<?xml version='1.0'?><error/>"]))}
    return c


@PROP.facet(_faulty, quick=400, shards=4)
def faults(case, ctx):
    """if any request fails (error status with any body, broken connection,
    truncated answer), the result is an error or the complete catalogue,
    never a part of it"""
    from seismostats import FDSNWSEventClient
    q = case["queries"][0]
    want = matching(case["events"], q)
    if want is None:
        ctx.discard("magnitude at the limit")
    # one of the requests that are made
    state, url = start(case)
    FDSNWSEventClient(url).get_events(**arguments(q))
    f = dict(case["fault"])
    f["at"] %= state["requests"]
    state, url = start(case, f)
    try:
        cat = FDSNWSEventClient(url).get_events(**arguments(q))
    except Exception as exc:
        assert state["met"], \
            f"{type(exc).__name__} without a fault: {exc}; {state['bad']}"
        ctx.nt()
        ctx.label(f"refused: {f['kind']}")
        return
    compare(cat, want, q, f"fault {f['kind']} at request {f['at']} "
            f"({state['requests']} requests)")
    ctx.label("complete, fault met" if state["met"] else "no fault met")
