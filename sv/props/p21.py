"""P21  Rate grids keep their cells, times and statistics."""
import copy
import math
import pickle
import statistics as stt

from hypothesis import strategies as st

from ..core import Property

PROP = Property(
    "P21",
    "A case is one or several rate grids (plain or forecast, with or without "
    "extra columns, missing depths, time span, name) and a history of table "
    "operations, a concatenation or statistics of them. Non-trivial: at least "
    "two operations on a grid with rows, at least two grids with a common "
    "cell, or at least one cell with two realizations.",
    ["the reference for the table content is pandas.DataFrame; operations "
     "that pandas itself does not pass attributes through are left out",
     "the numbering of cells is only compared as a partition of the rows"])

BOUNDS = ["longitude_min", "longitude_max", "latitude_min", "latitude_max",
          "depth_min", "depth_max"]
REQ = BOUNDS + ["a", "b", "mc"]
DAYS = ["2020-01-01", "2020-01-05T12:30:00", "2021-06-01", "2019-12-31"]


@st.composite
def _grid(draw, nmin=0, nmax=7, forecast=None):
    n = draw(st.integers(nmin, nmax))
    depth = draw(st.sampled_from(["all", "all", "some", "none"]))
    v = st.sampled_from([0.1, 0.3, 1.0, -2.5, 7.7, 100.0, 0.0])
    g = {"n": n, "depth": depth,
         "cell": draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 1),
                                         st.integers(0, 1)),
                               min_size=n, max_size=n)),
         "v": draw(st.lists(st.tuples(v, v, v, v), min_size=n, max_size=n)),
         "gid": draw(st.lists(st.integers(0, 2), min_size=n, max_size=n)),
         "forecast": draw(st.booleans()) if forecast is None else forecast,
         "extra": draw(st.lists(st.sampled_from(
             ["number_events", "alpha", "remark", "p", "cell"]), unique=True)),
         "gap": draw(st.lists(st.sampled_from(
             ["a", "b", "mc", "alpha", "number_events"]), max_size=2)),
         "gaps": draw(st.lists(st.booleans(), min_size=n, max_size=n)),
         "index": draw(st.sampled_from(["range", "range", "shuffled", "same"])),
         "name": draw(st.sampled_from([None, "one", ""])),
         "start": draw(st.sampled_from([None, 0, 1, 2, 3])),
         "len": draw(st.sampled_from([None, 1, 10])),
         "text": draw(st.booleans()),
         "n_grids": draw(st.sampled_from([None, 3, 10]))}
    return g


def table(g):
    """the grid as a plain DataFrame"""
    import pandas as pd
    x0 = [9.0, 9.1, 10.2]
    rows = {c: [] for c in REQ}
    for k, ((i, j, d), v) in enumerate(zip(g["cell"], g["v"])):
        dmin, dmax = [(0.1, 10.3), (10.3, 20.0)][d]
        if g["depth"] == "none" or g["depth"] == "some" and d == 1:
            dmin = dmax = float("nan")
        for c, x in zip(REQ, (x0[i], x0[i] + 1, 45.3 + j, 46.3 + j, dmin,
                              dmax, v[0], v[1], v[2])):
            rows[c].append(x)
    if g["depth"] == "none" and g["text"]:
        rows["depth_min"] = rows["depth_max"] = [None] * g["n"]
    if g["forecast"]:
        rows["grid_id"] = list(g["gid"])
    for c in g["extra"]:
        rows[c] = [{"number_events": k + 1, "alpha": v[3], "p": v[1], "cell": 9 - k,
                    "remark": f"r{k}"}[c] for k, v in enumerate(g["v"])]
    for c in g["gap"]:
        if c in rows:
            rows[c] = [float("nan") if b else float(x)
                       for x, b in zip(rows[c], g["gaps"])]
    idx = {"range": range(g["n"]), "same": [5] * g["n"],
           "shuffled": [(k * 7 + 3) % 11 for k in range(g["n"])]}[g["index"]]
    return pd.DataFrame(rows, index=list(idx))


def span(g):
    import pandas as pd
    if g["start"] is None:
        return None, None
    s = pd.Timestamp(DAYS[g["start"]])
    return s, None if g["len"] is None else s + pd.Timedelta(days=g["len"])


def build(g, force=None):
    from seismostats import ForecastGRRateGrid, GRRateGrid
    s, e = span(g)
    if g["text"]:
        s, e = (None if x is None else x.isoformat() for x in (s, e))
    kw = {"name": g["name"], "starttime": s, "endtime": e}
    if g["forecast"]:
        return ForecastGRRateGrid(table(g), n_grids=g["n_grids"], **kw)
    return GRRateGrid(table(g), **kw)


def same_time(a, b, what):
    import pandas as pd
    if b is None:
        assert a is None or pd.isna(a), f"{what}: {a}"
    else:
        assert a == b, f"{what}: {a} instead of {b}"


def kind(cols):
    from seismostats import ForecastGRRateGrid, GRRateGrid
    import pandas as pd
    if not set(REQ) <= set(cols):
        return pd.DataFrame
    return ForecastGRRateGrid if "grid_id" in cols else GRRateGrid


# ------------------------------------------------------------------ histories
OPS = {
    "filter": lambda d, k: d[d["a"] > [0, 0.2, -1][k % 3]]
    if "a" in d else d,
    "query": lambda d, k: d.query("b < 1.5") if "b" in d else d,
    "iloc": lambda d, k: d.iloc[k % 3:],
    "take": lambda d, k: d.iloc[[i for i in range(len(d))
                                 if (i + k) % 3][::-1]],
    "mask": lambda d, k: d.loc[[(i + k) % 2 == 0 for i in range(len(d))]],
    "head": lambda d, k: d.head(k % 5),
    "tail": lambda d, k: d.tail(k % 5),
    "sort": lambda d, k: d.sort_values(
        list(d.columns)[k % 3], ascending=k % 2 == 0, kind="stable"),
    "sort_index": lambda d, k: d.sort_index(kind="stable"),
    "reset_index": lambda d, k: d.reset_index(drop=True),
    "copy": lambda d, k: d.copy(deep=k % 2 == 0),
    "copy_copy": lambda d, k: copy.copy(d) if k % 2 else copy.deepcopy(d),
    "pickle": lambda d, k: pickle.loads(pickle.dumps(d)),
    "assign": lambda d, k: d.assign(z=float(k)),
    "assign_id": lambda d, k: d.assign(grid_id=k % 4).iloc[0:],
    "drop_id": lambda d, k: d.drop(columns="grid_id", errors="ignore"),
    "drop": lambda d, k: d.drop(columns=list(d.columns)[k % len(d.columns)]),
    "cols": lambda d, k: d[[c for c in d.columns if c in REQ]],
    "cols_id": lambda d, k: d[[c for c in d.columns
                               if c in REQ + ["grid_id"]]],
    "reorder": lambda d, k: d[list(d.columns)[::-1]],
    "rename": lambda d, k: d.rename(columns={"p": "q"}),
    "fillna": lambda d, k: d.fillna({"a": 1.0, "mc": -1.0}),
    "dropna": lambda d, k: d.dropna(subset=[c for c in ("a", "b")
                                            if c in d]),
    "unique": lambda d, k: d.drop_duplicates(),
    "concat": lambda d, k: _concat(d, k),
    "set": lambda d, k: _set(d, k),
    "round": lambda d, k: d.round(k % 3),
    "strip": lambda d, k: _strip(d, k),
    "reindex": lambda d, k: d.reindex(columns=list(d.columns)[::-1]),
}


def _concat(d, k):
    import pandas as pd
    return pd.concat([d, d.iloc[:k % 3]])


def _set(d, k):
    d = d.copy()
    d["number_events"] = k
    if "mc" in d:
        d.loc[d["mc"] > 0.5, "mc"] = 0.5
    return d


def _strip(d, k):
    """strip of the grid; its definition for the DataFrame"""
    import pandas as pd
    if not set(REQ) <= set(d.columns):
        return d
    if type(d) is pd.DataFrame:
        keep = REQ + (["grid_id"] if "grid_id" in d.columns else [])
        return d[[c for c in d.columns if c in keep]]
    if k % 2:
        d = d.copy()
        assert d.strip(inplace=True) is None
        return d
    return d.strip()


@st.composite
def _history(draw):
    one = st.sampled_from(sorted(OPS) + ["strip", "assign_id"] * 2)
    return {"g": draw(_grid()), "ops": draw(st.lists(st.tuples(
        one, st.integers(0, 11)), min_size=1, max_size=7))}


@PROP.facet(_history, quick=500, shards=2)
def operations(case, ctx):
    """table operations on a grid give the table pandas gives, keep the class
    while the columns of a grid are there, and its name and time span; the
    original stays as it is"""
    import pandas as pd
    g = case["g"]
    grid, ref = build(g), table(g)
    s, e = span(g)
    want = {"name": g["name"], "starttime": s, "endtime": e}
    n_grids, was_forecast = g["n_grids"], g["forecast"]
    lost = False
    cur = grid
    for name, k in case["ops"]:
        if not len(ref.columns):
            break
        before = cur
        snap = pd.DataFrame(cur).copy()
        nxt, ref = OPS[name](cur, k), OPS[name](ref, k)
        pd.testing.assert_frame_equal(pd.DataFrame(before), snap)
        cur = nxt
        what = f"after {name} in {[o for o, _ in case['ops']]}"
        pd.testing.assert_frame_equal(
            pd.DataFrame(cur), ref, check_index_type=False,
            check_dtype=len(ref) > 0, obj=what)
        T = kind(ref.columns)
        if type(cur) is pd.DataFrame and T is not pd.DataFrame:
            # a DataFrame does not become a grid again
            assert lost, f"{what}: a DataFrame"
        elif T is pd.DataFrame:
            assert type(cur) is T, f"{what}: a {type(cur).__name__}"
            lost = True
        else:
            assert isinstance(cur, T), f"{what}: a {type(cur).__name__}"
            if name not in ("set", "assign"):
                assert type(cur) is T, f"{what}: a {type(cur).__name__}"
            assert cur.name == want["name"], f"{what}: name {cur.name!r}"
            for t in ("starttime", "endtime"):
                same_time(getattr(cur, t), want[t], f"{what}: {t}")
            if "grid_id" not in ref.columns:
                was_forecast = False
            elif was_forecast:
                assert cur.n_grids == n_grids, f"{what}: n_grids"
    ctx.nt(len(case["ops"]) > 1 and len(ref) > 0)
    ctx.label(type(cur).__name__)
    pd.testing.assert_frame_equal(pd.DataFrame(grid), table(g))
    same_time(grid.starttime, s, "starttime of the original")
    same_time(grid.endtime, e, "endtime of the original")


# -------------------------------------------------------------- concatenation
def key(row):
    """bounds of a cell, comparable with missing values"""
    return tuple("none" if x is None or x != x else x
                 for x in (row[c] for c in BOUNDS))


def check_cells(res, what):
    """rows have the same cell number where they have the same bounds"""
    ids = list(res.index.get_level_values("cell_id"))
    keys = [key(r) for r in pd_rows(res)]
    a, b = {}, {}
    for i, k in zip(ids, keys):
        assert a.setdefault(i, k) == k, \
            f"{what}: cells {a[i]} and {k} are both number {i}"
        assert b.setdefault(k, i) == i, \
            f"{what}: cell {k} has numbers {b[k]} and {i}"


def pd_rows(df):
    import pandas as pd
    d = pd.DataFrame(df).reset_index(drop=True)
    return [dict(zip(d.columns, r)) for r in zip(*[d[c] for c in d.columns])]


def check_rows(res, refs, what):
    got = pd_rows(res)
    want = [r for d in refs for r in pd_rows(d)]
    assert len(got) == len(want), f"{what}: {len(got)} of {len(want)} rows"
    for i, (x, y) in enumerate(zip(got, want)):
        for c in set(x) | set(y):
            u, v = x.get(c), y.get(c)
            u, v = (None if w is None or w != w else w for w in (u, v))
            assert u == v, f"{what}: row {i} {c}: {u!r} instead of {v!r}"


@st.composite
def _grids(draw):
    return {"g": draw(st.lists(_grid(nmin=1, nmax=5), min_size=1, max_size=4)),
            "forecast": draw(st.booleans()),
            "end": draw(st.booleans()), "complete": draw(st.integers(0, 4)),
            "pick": draw(st.integers(0, 5)),
            "how": draw(st.sampled_from(["plain", "indexed", "mixed"]))}


@PROP.facet(_grids, quick=350, shards=2)
def concatenation(case, ctx):
    """concatenated grids have all rows in order, labelled with the time span
    of their grid and a cell number that is the same exactly for the same
    cell (missing depths included); the whole spans the times of all"""
    import pandas as pd
    from seismostats import ForecastGRRateGrid, GRRateGrid
    gs = []
    for i, g in enumerate(case["g"]):
        g = dict(g, forecast=case["forecast"])
        if case["complete"]:
            g["start"] = i if g["start"] is None else g["start"]
            if case["complete"] > 2:
                g["len"] = g["len"] or 1
        gs.append(g)
    grids, refs = [build(g) for g in gs], [table(g) for g in gs]
    spans = [span(g) for g in gs]
    cls = ForecastGRRateGrid if case["forecast"] else GRRateGrid
    no_start = any(s is None for s, _ in spans)
    all_end = all(e is not None for _, e in spans)
    end = all_end
    ctx.label(f"{case['how']}, {len(gs)} grids")
    if case["how"] == "plain":
        if no_start:
            try:
                r = cls.concat(grids)
            except AttributeError:
                ctx.label("no start time")
                return
            raise AssertionError(f"no start time, but {type(r).__name__}")
        res = cls.concat(grids)
    else:
        if case["how"] == "mixed" and len(gs) > 1 and not no_start:
            part = [x.add_time_index(endtime=False) if i % 2 else x
                    for i, x in enumerate(grids)]
            try:
                cls.concat(part)
            except ValueError:
                ctx.label("mixed levels")
            else:
                raise AssertionError("mixed index levels were concatenated")
        end = case["end"]
        parts = []
        for x, (s, e) in zip(grids, spans):
            try:
                y = x.add_time_index(endtime=end) if not end \
                    else x.add_time_index()
            except AttributeError:
                assert s is None or end and e is None, \
                    f"no time index from {s} to {e}"
                ctx.label("time missing")
                return
            assert s is not None and not (end and e is None), \
                "time index without a time"
            assert type(y) is cls, f"time index of a {type(y).__name__}"
            check_rows(y, [table(gs[len(parts)])], "time index")
            check_cells(y, "time index")
            parts.append(y)
        snap = [pd.DataFrame(p).copy() for p in parts]
        if case["pick"] == 0 and len(parts) > 2:
            res = cls.concat([cls.concat(parts[:2])] + parts[2:])
        else:
            res = cls.concat(parts)
        for p, q in zip(parts, snap):
            pd.testing.assert_frame_equal(pd.DataFrame(p), q)
    what = f"concat of {len(gs)} grids"
    assert type(res) is cls, f"{what}: a {type(res).__name__}"
    names = ["starttime"] + ["endtime"] * end + ["cell_id"]
    assert list(res.index.names) == names, f"{what}: {res.index.names}"
    check_rows(res, refs, what)
    check_cells(res, what)
    for j, lev in enumerate(names[:-1]):
        got = list(res.index.get_level_values(lev))
        want = [sp[j] for sp, d in zip(spans, refs) for _ in range(len(d))]
        assert got == want, f"{what}: {lev} {got} instead of {want}"
    same_time(res.starttime, min(s for s, _ in spans), f"{what}: starttime")
    if end:
        same_time(res.endtime, max(e for _, e in spans), f"{what}: endtime")
    # parts of the result
    for sub, rows in ((res.iloc[::2], slice(None, None, 2)),
                      (res[res["a"] > 0.2], None)):
        ref = pd.concat(refs, ignore_index=True)
        ref = ref.iloc[rows] if rows else ref[ref["a"] > 0.2]
        if len(ref):
            check_rows(sub, [ref], f"{what}: part")
            check_cells(sub, f"{what}: part")
    for x, d, (s, e) in zip(grids, refs, spans):
        pd.testing.assert_frame_equal(pd.DataFrame(x), d)
        same_time(x.starttime, s, "starttime of an input")
        same_time(x.endtime, e, "endtime of an input")
    keys = [{key(r) for r in pd_rows(d)} for d in refs]
    ctx.nt(any(a & b for i, a in enumerate(keys) for b in keys[:i]))


# ----------------------------------------------------------------- statistics
def _vals(x):
    return [float(v) for v in x if v is not None and v == v]


FUNCS = {
    "mean": lambda v: math.fsum(v) / len(v) if v else None,
    "max": lambda v: max(v) if v else None,
    "min": lambda v: min(v) if v else None,
    "median": lambda v: stt.median(v) if v else None,
    "sum": lambda v: math.fsum(v),
    "count": len,
    "std": lambda v: stt.stdev(v) if len(v) > 1 else None,
}


def as_arg(name, call):
    """the function as text or as a callable of a Series"""
    return (lambda x: getattr(x, name)()) if call else name


@st.composite
def _stats(draw):
    c = draw(_grids())
    c["g"] = draw(st.lists(_grid(nmin=1, nmax=8, forecast=True), min_size=1,
                           max_size=3))
    c["index"] = draw(st.sampled_from(["none", "start", "both"]))
    c["agg"] = draw(st.sampled_from([None] + sorted(FUNCS)))
    c["extra"] = draw(st.lists(st.sampled_from(sorted(FUNCS)), max_size=3,
                               unique=True))
    c["call"] = draw(st.booleans())
    return c


@PROP.facet(_stats, quick=400, shards=2)
def statistics(case, ctx):
    """per time step and cell (missing depths included) there is one row with
    the cell's bounds, the chosen statistic of every number over the
    realizations and the extra statistics of a, b, mc, alpha and
    number_events; the grid itself stays as it is"""
    import pandas as pd
    from seismostats import ForecastGRRateGrid
    gs = [dict(g, start=i, len=g["len"] or 1)
          for i, g in enumerate(case["g"])]
    if case["index"] == "none":
        gs = gs[:1]
        fc = build(gs[0])
    else:
        fc = ForecastGRRateGrid.concat(
            [build(g).add_time_index(case["index"] == "both") for g in gs])
    snap = pd.DataFrame(fc).copy()
    rows = [dict(r, _t=i) for i, g in enumerate(gs)
            for r in pd_rows(table(g))]
    groups = {}
    for r in rows:
        groups.setdefault((r["_t"], key(r)), []).append(r)
    agg = case["agg"] or "mean"
    args = [as_arg(case["agg"], case["call"])] if case["agg"] else []
    kw = {"extra_stats": {"x" + s: as_arg(s, case["call"])
                          for s in case["extra"]}} if case["extra"] else {}
    what = f"{agg}, extra {case['extra']}, index {case['index']}"
    res = fc.calculate_statistics(*args, **kw)
    pd.testing.assert_frame_equal(pd.DataFrame(fc), snap)
    assert len(res) == len(groups), \
        f"{what}: {len(res)} rows for {len(groups)} cells and times"
    assert "grid_id" not in res.columns, f"{what}: has grid_id"
    got = pd_rows(res)
    if case["index"] == "none":
        assert list(res.index) == list(range(len(res))), f"{what}: row labels"
        times = [0] * len(got)
    else:
        names = ["starttime", "endtime", "cell_id"]
        if case["index"] == "start":
            names.remove("endtime")
        assert list(res.index.names) == names, f"{what}: {res.index.names}"
        at = {span(g)[0]: i for i, g in enumerate(gs)}
        times = [at[t] for t in res.index.get_level_values("starttime")]
        if case["index"] == "both":
            for t, e in zip(times, res.index.get_level_values("endtime")):
                assert e == span(gs[t])[1], f"{what}: endtime {e}"
    seen = set()
    for t, r in zip(times, got):
        k = (t, key({c: r.get(c) for c in BOUNDS}))
        assert k in groups and k not in seen, \
            f"{what}: a row for the cell {k}, there are {list(groups)}"
        seen.add(k)
        members = groups[k]
        for c in ("a", "b", "mc", "alpha", "number_events", "p"):
            v = _vals(m[c] for m in members if c in m)
            if not any(_vals([m.get(c)]) for m in rows):
                continue
            todo = [(c, agg)]
            if c != "p":
                todo += [(f"{c}_x{s}", s) for s in case["extra"]]
            for col, f in todo:
                w = FUNCS[f](v)
                assert col in r, f"{what}: no column {col}"
                x = r[col]
                if w is None:
                    assert x != x, f"{what}: {col} {x} of nothing"
                else:
                    assert abs(x - w) <= 1e-9 * max(1, abs(w), max(
                        [abs(y) for y in v], default=0)), \
                        f"{what}: {col} of {v} is {x}, expected {w}"
    ctx.nt(any(len(m) > 1 for m in groups.values()))
    ctx.label(f"{agg}, {case['index']}")
