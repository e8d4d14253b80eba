"""P16  Catalogues stay catalogues through table operations."""
import copy
import pickle

from hypothesis import strategies as st

from .. import gen
from ..core import Property

PROP = Property(
    "P16",
    "A case is a catalogue or a forecast catalogue with attributes, and a "
    "history of table operations and attribute changes. Non-trivial: at least "
    "three operations were applied and the result still has rows.",
    ["operations that pandas itself does not pass attributes through (rolling "
     "windows, groupby.apply, from_records) are left out; the reference for "
     "the table content is pandas.DataFrame itself"])

META = ["name", "mc", "a_value", "delta_m", "b_value", "starttime", "endtime",
        "bounding_polygon", "depth_min", "depth_max"]

COLS = ["longitude", "latitude", "depth", "time", "magnitude",
        "magnitude_type", "event_type", "w", "g", "eventID"]


def _attrs():
    return st.fixed_dictionaries({
        "name": st.sampled_from([None, "one", "two", ""]),
        "mc": st.sampled_from([None, 0, 1.5, -0.5]),
        "a_value": st.sampled_from([None, 0.0, 4.4]),
        "delta_m": st.sampled_from([None, 0, 0.1]),
        "b_value": st.sampled_from([None, 1.0]),
        "starttime": st.sampled_from([None, "2020-01-01"]),
        "endtime": st.sampled_from([None, "2022-05-06T07:08:09"]),
        "bounding_polygon": st.sampled_from([None, "POLYGON EMPTY"]),
        "depth_min": st.sampled_from([None, 0, -2.5]),
        "depth_max": st.sampled_from([None, 15.5])})


@st.composite
def _tab(draw, nmin=0):
    n = draw(st.integers(nmin, 7))
    cols = ["magnitude"] + draw(st.lists(st.sampled_from(
        [c for c in COLS if c != "magnitude"]), max_size=7, unique=True))
    return {"n": n, "cols": cols,
            "mag": draw(st.lists(st.one_of(gen.f(-1, 6, 1), st.none()),
                                 min_size=n, max_size=n)),
            "t": draw(st.lists(st.integers(0, 10**6), min_size=n,
                               max_size=n)),
            "g": draw(st.lists(st.integers(0, 2), min_size=n, max_size=n)),
            "cid": draw(st.lists(st.integers(0, 2), min_size=n, max_size=n)),
            "attrs": draw(_attrs()),
            "forecast": draw(st.booleans()),
            "ncat": draw(st.sampled_from([None, 10, 100]))}


OPS = {}


def op(*params):
    def deco(fn):
        OPS[fn.__name__] = (fn, params)
        return fn
    return deco


frac = st.integers(0, 100)
flag = st.booleans()
col = st.sampled_from(COLS + ["catalog_id"])


def _has(d, *c):
    return all(x in d.columns for x in c)


@op(gen.f(-1, 6, 1))
def filter_mag(d, m):
    return d[d["magnitude"] >= m] if _has(d, "magnitude") else d


@op(gen.f(-1, 6, 1))
def query_mag(d, m):
    return d.query(f"magnitude < {m}") if _has(d, "magnitude") else d


@op(frac, frac)
def iloc(d, a, b):
    n = len(d)
    return d.iloc[a * n // 100:max(1, b * n // 100)]


@op(frac)
def iloc_list(d, a):
    n = len(d)
    return d.iloc[[i for i in range(n) if (i * 37 + a) % 3][::-1]]


@op(frac)
def loc_rows(d, a):
    m = [(i + a) % 2 == 0 for i in range(len(d))]
    return d.loc[m]


@op(st.lists(col, min_size=1, max_size=6, unique=True), flag)
def select_cols(d, cs, keepmag):
    cs = [c for c in cs if c in d.columns]
    if keepmag and _has(d, "magnitude") and "magnitude" not in cs:
        cs.append("magnitude")
    return d[cs] if cs else d


@op(st.integers(0, 9))
def head(d, k):
    return d.head(k)


@op(st.integers(0, 9))
def tail(d, k):
    return d.tail(k)


@op(flag, flag)
def sort_mag(d, asc, inplace):
    if not _has(d, "magnitude"):
        return d
    if inplace:
        d = d.copy()
        d.sort_values("magnitude", ascending=asc, inplace=True, kind="stable")
        return d
    return d.sort_values("magnitude", ascending=asc, kind="stable")


@op(flag)
def sort_index(d, asc):
    return d.sort_index(ascending=asc, kind="stable")


@op(flag)
def reset_index(d, inplace):
    if inplace:
        d = d.copy()
        d.reset_index(drop=True, inplace=True)
        return d
    return d.reset_index(drop=True)


@op(flag)
def copy_(d, deep):
    return d.copy(deep=deep)


@op(flag)
def copy_module(d, deep):
    return copy.deepcopy(d) if deep else copy.copy(d)


@op()
def pickle_(d):
    return pickle.loads(pickle.dumps(d))


@op(col)
def drop_col(d, c):
    return d.drop(columns=c) if c in d.columns and len(d.columns) > 1 else d


@op(frac)
def drop_row(d, a):
    if len(d) == 0 or not d.index.is_unique:
        return d
    return d.drop(index=d.index[a * (len(d) - 1) // 100])


@op(flag)
def dropna(d, only):
    return d.dropna(subset=["magnitude"]) \
        if only and _has(d, "magnitude") else d.dropna()


@op()
def fillna(d):
    return d.fillna({"magnitude": -9.0})


@op()
def rename(d):
    return d.rename(columns={"w": "weight"})


@op(st.integers(0, 5))
def assign(d, k):
    return d.assign(extra=k)


@op()
def astype(d):
    return d.astype({"w": float}) if _has(d, "w") else d


@op()
def set_index(d):
    return d.set_index("g", drop=False) if _has(d, "g") else d


@op()
def drop_duplicates(d):
    return d.drop_duplicates("g") if _has(d, "g") else d


@op(st.integers(1, 9))
def nlargest(d, k):
    return d.nlargest(k, "magnitude") if _has(d, "magnitude") else d


@op()
def where(d):
    return d.where(d["magnitude"] > 1) if _has(d, "magnitude") else d


@op()
def reindex(d):
    import pandas as pd
    if not d.index.is_unique or not pd.api.types.is_integer_dtype(d.index):
        return d
    return d.reindex(list(d.index)[::-1] + [987])


@op()
def join(d):
    import pandas as pd
    if "joined" in d.columns or not d.index.is_unique:
        return d
    return d.join(pd.DataFrame({"joined": range(len(d))}, index=d.index))


@op(st.sampled_from(["left", "inner"]), flag)
def merge(d, how, fn):
    import pandas as pd
    if not _has(d, "g") or "merged" in d.columns or d.index.name == "g":
        return d
    o = pd.DataFrame({"g": [0, 1], "merged": [5.5, 6.5]})
    return pd.merge(d, o, on="g", how=how) if fn else \
        d.merge(o, on="g", how=how)


@op()
def get_group(d):
    if not _has(d, "g") or d.index.name == "g" or d["g"].isna().all():
        return d
    return next(x for _, x in d.groupby("g"))


@op()
def transform_mag(d):
    if not _has(d, "magnitude"):
        return d
    d = d.copy()
    d["magnitude"] = d["magnitude"] + 0.5
    return d


@op()
def loc_assign(d):
    if not _has(d, "magnitude") or not len(d):
        return d
    d = d.copy()
    d.loc[d["magnitude"] > 2, "magnitude"] = 2.0
    return d


@op()
def take(d):
    return d.take(list(range(0, len(d), 2)))


@op()
def sample(d):
    return d.sample(frac=1.0, random_state=3)


@op()
def eval_(d):
    return d.eval("ev = magnitude * 2") if _has(d, "magnitude") else d


@op()
def pipe(d):
    return d.pipe(lambda x: x.iloc[::-1])


@op(st.permutations(COLS[:5]), st.integers(1, 5))
def reindex_cols(d, cs, k):
    import pandas as pd
    had = "time" in d.columns
    r = d.reindex(columns=cs[:k])
    # a catalogue's times are times, also if all are missing
    if not had and "time" in r.columns and not _has(d, "mc") \
            and type(d) is pd.DataFrame and "magnitude" in r.columns:
        r["time"] = pd.to_datetime(r["time"])
    return r


@op(st.integers(0, 2))
def round_(d, k):
    return d.round(k)


@op(st.integers(-2, 2))
def shift(d, k):
    return d.shift(k)


@op(flag)
def fill_near(d, forward):
    return d.ffill() if forward else d.bfill()


@op()
def mask(d):
    return d.mask(d["magnitude"] > 2) if _has(d, "magnitude") else d


@op()
def replace(d):
    return d.replace({"magnitude": {1.0: 1.5}})


@op(flag)
def rename_axis(d, named):
    return d.rename_axis("event" if named else None)


@op()
def set_axis(d):
    return d.set_axis(range(5, 5 + len(d)), axis=0)


@op()
def infer_objects(d):
    return d.infer_objects()


@op(st.lists(col, min_size=1, max_size=6, unique=True))
def filter_cols(d, cs):
    return d.filter(items=cs) if set(cs) & set(d.columns) else d


@op(st.integers(1, 9))
def nsmallest(d, k):
    return d.nsmallest(k, "magnitude") if _has(d, "magnitude") else d


@op(st.integers(1, 2))
def group_head(d, k):
    return d.groupby("g").head(k) \
        if _has(d, "g") and d.index.name != "g" else d


@op()
def insert(d):
    if "inserted" in d.columns:
        return d
    d = d.copy()
    d.insert(0, "inserted", range(len(d)))
    return d


@op()
def pop(d):
    if not _has(d, "w"):
        return d
    d = d.copy()
    d.pop("w")
    return d


@op()
def update(d):
    import pandas as pd
    if not _has(d, "magnitude") or not d.index.is_unique or not len(d):
        return d
    d = d.copy()
    d.update(pd.DataFrame({"magnitude": [7.5]}, index=d.index[:1]))
    return d


@op()
def combine_first(d):
    if not d.index.is_unique:
        return d
    return d.combine_first(d.iloc[::-1])


@op()
def reindex_like(d):
    return d.reindex_like(d.iloc[::2]) if d.index.is_unique else d


@op(flag)
def select_types(d, numbers):
    return d.select_dtypes("number" if numbers else "datetime") \
        if len(d) else d


@op()
def squeeze(d):
    return d.squeeze() if min(d.shape) > 1 else d


@op(flag)
def align(d, first):
    return d.align(d.iloc[:2], join="left")[0 if first else 0] \
        if d.index.is_unique else d


# results that are no catalogue anymore (the history goes on with the input)
ASIDE = {
    "apply": lambda d: d.apply(lambda s: s),
    "isna": lambda d: d.isna(), "notna": lambda d: d.notna(),
    "transpose": lambda d: d.T, "describe": lambda d: d.describe(),
    "nunique": lambda d: d.nunique(),
    "isin": lambda d: d.isin([1.0, 0]),
    "corr": lambda d: d.select_dtypes("number").corr(),
    "count": lambda d: d.groupby("g").count() if _has(d, "g") else d.count(),
    "melt": lambda d: d.melt(),
    "rank": lambda d: d.rank(numeric_only=True),
    "rank all": lambda d: d[[c for c in ("magnitude", "time")
                             if c in d.columns]].rank(),
    "seconds": lambda d: d[[c for c in ("magnitude", "time")
                            if c in d.columns]].apply(
        lambda s: s.astype("int64") / 1e9 if s.dtype.kind == "M" else s),
    "duplicated": lambda d: d.duplicated(),
    "diff": lambda d: d[[c for c in ("magnitude", "time")
                         if c in d.columns]].diff(),
    "max": lambda d: d.max(numeric_only=True),
    "column": lambda d: d.iloc[:, 0], "row": lambda d: d.iloc[:1].squeeze(),
    "dict": lambda d: d.to_dict("list"),
    "groups": lambda d: d.groupby("g").size() if _has(d, "g") else len(d),
    "value_counts": lambda d: d["g"].value_counts() if _has(d, "g")
    else d.shape,
    "csv": lambda d: d.to_csv(),
    "csv format": lambda d: d.to_csv(float_format="%.2f", na_rep="-",
                                     date_format="%Y", index=False),
    "json": lambda d: d.to_json(orient="records"),
    "text": lambda d: d.to_string(float_format="%.1f") if len(d) else 0,
    "rows": lambda d: [tuple(r) for r in d.itertuples()],
    "concat_columns": lambda d: _cc(d),
    "pivot": lambda d: d.pivot_table(index="g", values="magnitude",
                                     aggfunc="count")
    if _has(d, "g", "magnitude") else None,
}


def _cc(d):
    import pandas as pd
    return pd.concat([d.reset_index(drop=True),
                      pd.DataFrame({"cc": range(len(d))})], axis=1)


@st.composite
def _step(draw):
    k = draw(st.sampled_from(
        ["op"] * 8 + ["set", "concat", "aside", "aside"]))
    if k == "op":
        name = draw(st.sampled_from(sorted(OPS)))
        return ["op", name] + [draw(p) for p in OPS[name][1]]
    if k == "set":
        a = draw(st.sampled_from(META + ["n_catalogs"]))
        return ["set", a, draw(st.sampled_from([None, 3, 0]))]
    if k == "aside":
        return ["aside", draw(st.sampled_from(sorted(ASIDE)))]
    return ["concat", draw(st.booleans()), draw(_tab())]


@st.composite
def _history(draw):
    return {"tab": draw(_tab(nmin=1)),
            "steps": draw(st.lists(_step(), min_size=2, max_size=10))}


def _frame(t):
    import pandas as pd
    n = t["n"]
    full = {"longitude": [0.5 + i for i in range(n)],
            "latitude": [10.25 - i for i in range(n)],
            "depth": [1.0 * i for i in range(n)],
            "time": pd.to_datetime("2020-01-01") + pd.to_timedelta(
                pd.Series(t["t"], dtype=float), unit="s"),
            "magnitude": pd.Series([float("nan") if v is None else v
                                    for v in t["mag"]], dtype=float),
            "magnitude_type": ["Ml", "Mw"] * (n // 2) + ["Ml"] * (n % 2),
            "event_type": ["earthquake"] * n,
            "w": [1 + i for i in range(n)], "g": t["g"],
            "eventID": [f"id{i}" for i in range(n)]}
    df = pd.DataFrame({c: full[c] for c in t["cols"]})
    if t["forecast"]:
        df["catalog_id"] = t["cid"]
    # the same types as a catalogue gives to empty columns
    return df


def _catalog(t):
    from seismostats import Catalog, ForecastCatalog
    if t["forecast"]:
        return ForecastCatalog(_frame(t), n_catalogs=t["ncat"], **t["attrs"])
    return Catalog(_frame(t), **t["attrs"])


def _expect_meta(t):
    import pandas as pd
    m = dict(t["attrs"])
    for k in ("starttime", "endtime"):
        m[k] = None if m[k] is None else pd.Timestamp(m[k])
    m["n_catalogs"] = t["ncat"] if t["forecast"] else None
    return m


def _same_table(cat, df, what):
    import pandas as pd
    pd.testing.assert_frame_equal(pd.DataFrame(cat), pd.DataFrame(df),
                                  check_dtype=len(df) > 0,
                                  check_index_type=len(df) > 0,
                                  check_column_type=False,
                                  check_flags=False, obj=what)


@PROP.facet(_history, quick=1500, shards=4)
def history(case, ctx):
    """after any history of table operations the content is what the same
    history gives for a plain table, the type follows from the columns
    (magnitude; catalog_id for forecasts) and all attributes are still those
    set last; when joining or concatenating, those of the first"""
    import pandas as pd
    from seismostats import Catalog, ForecastCatalog
    t = case["tab"]
    cat, df, meta = _catalog(t), _frame(t), _expect_meta(t)
    applied = 0
    for step in case["steps"]:
        kind = step[0]
        if not isinstance(cat, Catalog):
            break
        old, old_meta, old_df = cat, dict(meta), df
        what = f"{step}"
        if kind == "op":
            fn = OPS[step[1]][0]
            try:
                new = fn(df, *step[2:])
            except Exception as exc:
                ctx.discard(f"pandas: {step[1]} {type(exc).__name__}")
            df = new
            cat = fn(cat, *step[2:])
            applied += 1
            if cat is old:
                continue
        elif kind == "set":
            if step[1] == "n_catalogs" and type(cat) is not ForecastCatalog:
                continue
            cat = cat.copy()
            setattr(cat, step[1], step[2])
            meta[step[1]] = step[2]
        elif kind == "aside":
            try:
                b = ASIDE[step[1]](df)
            except Exception as exc:
                ctx.label(f"pandas: {step[1]} {type(exc).__name__}")
                continue
            a = ASIDE[step[1]](cat)
            if isinstance(b, pd.DataFrame):
                assert isinstance(a, pd.DataFrame), (what, type(a))
                _same_table(a, b, what)
            elif isinstance(b, pd.Series):
                pd.testing.assert_series_equal(a, b, obj=what)
            else:
                assert repr(a) == repr(b), what
            ctx.label("aside " + step[1])
            continue
        else:
            other = step[2]
            if not len(df) or not other["n"]:
                continue
            o = _catalog(other)
            o_df = _frame(other)
            if step[1]:
                df = pd.concat([df, o_df])
                cat = pd.concat([cat, o])
            else:
                df = pd.concat([df, o_df], ignore_index=True)
                cat = pd.concat([cat, o], ignore_index=True)
            applied += 1
        _same_table(cat, df, what)
        if "magnitude" not in df.columns:
            assert not isinstance(cat, Catalog), (what, type(cat))
        elif kind == "set":
            pass
        elif "catalog_id" in df.columns:
            assert type(cat) is ForecastCatalog, (what, type(cat))
        else:
            assert type(cat) is Catalog, (what, type(cat))
        if isinstance(cat, Catalog):
            if type(cat) is not ForecastCatalog:
                meta["n_catalogs"] = None
            _meta(cat, meta, what)
            # what follows on the copy does not reach the original
            _meta(old, old_meta, "the original after " + what)
            _same_table(old, old_df, "the original after " + what)
    ctx.nt(applied >= 3 and len(df) > 0)


def _meta(cat, meta, what):
    from seismostats import ForecastCatalog
    for k in META + (["n_catalogs"] if isinstance(cat, ForecastCatalog)
                     else []):
        g = getattr(cat, k)
        assert (g is None) == (meta[k] is None) and \
            (g is None or g == meta[k]), \
            f"{what}: {k} is {g!r}, expected {meta[k]!r}"


@st.composite
def _strip(draw):
    return {"tab": draw(_tab(nmin=1)),
            "via": draw(st.lists(st.sampled_from(
                ["head", "copy", "sort", "plain"]), max_size=3)),
            "inplace": draw(st.booleans())}


@PROP.facet(_strip, quick=200)
def standard_columns(case, ctx):
    """stripping leaves exactly the standard columns (with the catalogue
    number for forecasts) of whatever kind of catalogue it is by now, in their
    order, with all rows and attributes"""
    from seismostats import Catalog, ForecastCatalog
    t = dict(case["tab"])
    t["cols"] = [c for c in COLS if c in t["cols"] or c in
                 ("longitude", "latitude", "depth", "time", "magnitude",
                  "magnitude_type")]
    cat = _catalog(t)
    for v in case["via"]:
        if v == "plain":        # an ordinary catalogue with that column
            cat = Catalog(_frame(t), **t["attrs"])
        elif v == "head":
            cat = cat.head(5)
        elif v == "copy":
            cat = cat.copy()
        else:
            cat = cat.sort_values("magnitude", kind="stable")
    n = len(cat)
    want = [c for c in t["cols"] if c in COLS[:6]]
    if type(cat) is ForecastCatalog:
        want.append("catalog_id")
    if case["inplace"]:
        got = cat
        assert cat.strip(inplace=True) is None
    else:
        got = cat.strip()
    assert list(got.columns) == want, (list(got.columns), want)
    assert len(got) == n
    m = _expect_meta(t)
    m["n_catalogs"] = getattr(cat, "n_catalogs", None)
    _meta(got, m, "strip")
    ctx.nt(t["forecast"] and bool(case["via"]))


EXTRA = ["eventID", "originID", "magnitudeID", "magnitude_uncertainty",
         "depth_lowerUncertainty", "time_upperUncertainty",
         "latitude_confidenceLevel", "magnitude_Mw",
         "magnitude_Mw_magnitudeID", "magnitude_Mw_uncertainty",
         "eventID_old", "my_uncertainty_x", "IDs"]


@st.composite
def _own(draw):
    return {"tab": draw(_tab(nmin=1)),
            "extra": draw(st.lists(st.sampled_from(EXTRA), max_size=6,
                                   unique=True)),
            "how": draw(st.sampled_from(["bin", "bin", "bin_inplace",
                                         "drop_ids", "drop_uncertainties"])),
            "dm": draw(st.sampled_from([None, 0.1, 0.2, 0.5, 1.0]))}


@PROP.facet(_own, quick=300)
def own_methods(case, ctx):
    """binning changes nothing but the magnitudes and the binning of the new
    catalogue (or of itself, if asked for); dropping ids or uncertainties
    drops just those; class, other attributes and the original stay"""
    import pandas as pd
    from seismostats.utils import bin_to_precision
    t, how, dm = case["tab"], case["how"], case["dm"]
    df = _frame(t)
    for i, c in enumerate(case["extra"]):
        df[c] = [i + j / 4 for j in range(len(df))]
    if t["forecast"]:
        from seismostats import ForecastCatalog
        cat = ForecastCatalog(df.copy(), n_catalogs=t["ncat"], **t["attrs"])
    else:
        from seismostats import Catalog
        cat = Catalog(df.copy(), **t["attrs"])
    meta = _expect_meta(t)
    if how.startswith("bin"):
        used = dm if dm is not None else meta["delta_m"]
        if not used:
            ctx.discard("no binning")
        want = df.copy()
        want["magnitude"] = bin_to_precision(want["magnitude"], used)
        wmeta = dict(meta, delta_m=used)
        if how == "bin_inplace":
            assert cat.bin_magnitudes(dm, inplace=True) is None
            new = cat
        else:
            new = cat.bin_magnitudes(dm)
    else:
        ends = ("eventID", "originID", "magnitudeID") if how == "drop_ids" \
            else ("_uncertainty", "_lowerUncertainty", "_upperUncertainty",
                  "_confidenceLevel")
        want = df[[c for c in df.columns if not c.endswith(ends)]]
        new, wmeta = getattr(cat, how)(), meta
    assert type(new) is type(cat), type(new)
    _same_table(new, want, how)
    _meta(new, wmeta, how)
    if new is not cat:
        _same_table(cat, df, "the original after " + how)
        _meta(cat, meta, "the original after " + how)
    ctx.nt(len(want.columns) < len(df.columns) or how.startswith("bin"))
