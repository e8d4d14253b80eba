"""P31  Numbers count by their value, not by their type."""
import itertools
import re
import uuid

from hypothesis import strategies as st

from ..core import Property
from . import p26
from .p25 import D, _data

PROP = Property(
    "P31",
    "A case is a public function or method, generated data whose values are "
    "exact in all types used, and the types in which magnitudes, times, "
    "weights, bin width and completeness are given (once as doubles). "
    "Non-trivial: the function returned a result, and a type was another.",
    ["types are those of numpy and of Python that hold the value exactly"])

ARRAYS = ["f8", "f4", ">f8", "i8", "i4", "i2", "strided", "backwards",
          "readonly"]
SCALARS = ["float", "int", "f8", "f4", "i8", "i4"]
UNITS = ["m", "s", "ms", "us", "ns"]


def array(a, kind):
    import numpy as np
    if a.ndim > 1 and kind in ("strided", "backwards"):
        return np.asfortranarray(a)
    if kind == "strided":
        b = np.zeros((len(a), 3), a.dtype)
        b[:, 1] = a
        return b[:, 1]
    if kind == "backwards":
        return np.array(a[::-1])[::-1]
    if kind == "readonly":
        a = a.copy()
        a.flags.writeable = False
        return a
    b = a.astype(kind)
    return b if (b == a).all() else a


def scalar(v, kind):
    import numpy as np
    t = {"float": float, "int": int}.get(kind) or np.dtype(kind).type
    return t(v) if t(v) == v else v


def retyped(v, kind):
    """an option in another type"""
    import numpy as np
    if isinstance(v, bool):
        return v
    if isinstance(v, int):              # counts remain whole numbers
        return scalar(v, kind) if "i" in kind else v
    if type(v) in (float, np.float64):
        return scalar(v, kind)
    if isinstance(v, list) and v and all(
            type(x) in (int, float, np.float64) for x in v):
        return [retyped(x, kind) for x in v]
    return v


class Typed(D):
    def __init__(self, c, kinds=None):
        super().__init__(c)
        self.w = self.w * 4
        k = kinds or {}
        self.opt, self.ints = k.get("opt", "float"), k.get("ints", "i8")
        self.k_m, self.k_w = k.get("m", "f8"), k.get("w", "f8")
        self.unit = k.get("dt", "m")
        if kinds is None:
            self.dm, self.mc = float(self.dm), float(self.mc)
            return
        for k in ("m", "t", "w"):
            setattr(self, k, array(getattr(self, k), kinds[k]))
        self.dt = self.dt.astype(f"M8[{kinds['dt']}]")
        for k in ("dm", "mc"):
            setattr(self, k, scalar(getattr(self, k), kinds["s_" + k]))


@st.composite
def _case(draw, group, min_n):
    d = draw(_data(min_n))
    d["dm"] = draw(st.sampled_from([1.0, 0.5, 2.0, 0.25, 1.0]))
    return {"d": d, "f": draw(st.integers(0, 10**6)),
            "other": draw(st.integers(0, 2**12 - 1)),
            "kinds": {**{k: draw(st.sampled_from(ARRAYS))
                         for k in ("m", "t", "w")},
                      "dt": draw(st.sampled_from(UNITS)),
                      "s_dm": draw(st.sampled_from(SCALARS)),
                      "s_mc": draw(st.sampled_from(SCALARS)),
                      "opt": draw(st.sampled_from(SCALARS)),
                      "ints": draw(st.sampled_from(["i8", "i4", "i2"]))}}


# ------------------------------------------------- more than P26's functions
@p26.fn("types")
def years_of_change(d):
    """completeness that changes in years"""
    import numpy as np
    from seismostats.plots import plot_mags_in_time
    y = [1990 + d.j, 1996 + d.j]
    y = [[scalar(v, d.ints) for v in y], np.array(y, d.ints),
         [int(v) for v in y]][d.i % 3]
    return plot_mags_in_time, dict(
        times=d.dt, magnitudes=d.m, mc_change_times=y,
        mcs=[d.mc + d.dm, d.mc]), {}


@p26.fn("types")
def table(d):
    """completeness tables of whole numbers"""
    import numpy as np
    from seismostats.analysis import (estimate_b_kijko_smit,
                                      estimate_b_weichert)
    dm = 2.0
    m = array(np.array([dm * k for k in d.c["k"]]), d.k_m)
    lo = dm * d.c["mc"] - 1
    t = array(np.array([[lo, 2000.], [lo + 2, 1980.]]), d.k_w)
    years = (np.datetime64("1985", "Y") + np.array(d.c["gap"]) % 34).astype(
        "datetime64[D]").astype(f"M8[{d.unit}]")
    kw = dict(magnitudes=m, times=years, completeness_table=t,
              delta_m=scalar(dm, d.opt),
              last_year=scalar(2020, d.ints))
    if d.j % 2:
        return p26.keywords(estimate_b_kijko_smit), kw, {}
    return p26.keywords(estimate_b_weichert), dict(
        kw, mag_max=scalar(dm * (max(d.c["k"]) + 2) + 1, d.opt)), {}


@p26.fn("types")
def own_completeness(d):
    """one completeness per event or subset"""
    import numpy as np
    from seismostats.analysis import BPositiveBValueEstimator
    from seismostats.analysis.b_significant import (
        b_significant_1D, values_from_partitioning)
    from seismostats.plots import plot_b_series_constant_nm
    m = array(p26.varied(np.array(d.m, float), float(d.dm)), d.k_m)
    n = len(m)
    mc = array(np.array([float(d.mc) + float(d.dm) * (i % 3 == d.j % 3)
                         for i in range(n)]), d.k_w)
    t = np.arange(n) if d.i % 2 else np.arange(n)[::-1].astype(float)
    if d.j % 4 == 0:
        k = n // 2
        return values_from_partitioning, dict(
            list_magnitudes=[m[:k], m[k:], m], list_times=[t[:k], t[k:], t],
            list_mc=mc[:3] if d.i % 2 else [
                scalar(float(v), d.opt) for v in mc[:3]],
            delta_m=d.dm), {}
    if d.j % 4 == 1:
        m, mc, t = np.tile(m, 4), np.tile(mc, 4), np.arange(4 * n)
        return b_significant_1D, dict(magnitudes=m, mc=mc, delta_m=d.dm,
                                      times=t, n_m=4, min_num=2), {}
    return plot_b_series_constant_nm, dict(
        magnitudes=m, mc=mc, delta_m=d.dm, times=t, n_m=3, min_num=2,
        **({"method": BPositiveBValueEstimator} if d.i % 3 else {}),
        **({"x_variable": array(np.array(t[::-1], float), d.k_m)}
           if d.i % 2 else {})), {}


def full(d):
    """a catalogue with values missing"""
    import numpy as np
    import pandas as pd
    from seismostats import Catalog

    def part(a):
        if a.dtype.kind != "f":
            return a
        a = np.array(a)
        a[d.i] = np.nan
        return a
    c = Catalog(pd.DataFrame({
        "magnitude": d.m, "time": pd.to_datetime(d.dt),
        "longitude": part(d.w), "latitude": d.w * 2, "depth": part(d.t),
        "magnitude_type": "ML", "event_type": "earthquake",
        "magnitude_uncertainty": part(d.w), "usedphasecount": d.t}))
    for k in ("event", "origin", "magnitude"):
        c[k + "ID"] = [f"smi:{k}/{i}" for i in range(len(c))]
    return c


def missing(d):
    """doubles where values can be missing"""
    import numpy as np
    for k in ("w", "t"):
        a = getattr(d, k)
        if a.dtype.kind == "i":
            setattr(d, k, a.astype(np.float32))


@p26.fn("types")
def written(d):
    missing(d)
    return full(d).to_quakeml, {}, {}


@p26.fn("types")
def to_and_fro(d):
    from seismostats import Catalog
    missing(d)
    c = full(d)
    return lambda: Catalog.from_quakeml(
        c.to_quakeml(), include_uncertainties=True, include_quality=True,
        include_ids=True), {}, {}


@p26.fn("types")
def hazard_library(d):
    from seismostats import Catalog
    d.w = d.w[:]

    def call():
        o = full(d).dropna().to_openquake()
        return [o.data["magnitude"].tolist(), o.data["longitude"].tolist(),
                o.data["second"].tolist(), Catalog.from_openquake(o)]
    missing(d)
    return call, {}, {}


@p26.fn("types")
def by_hand(d):
    """rows and dictionaries of plain and other numbers"""
    from seismostats import Catalog
    rows = [{"magnitude": m, "time": str(t), "longitude": w, "latitude": w,
             "depth": t2} for m, t, w, t2 in zip(d.m, d.dt.astype("M8[s]"),
                                                 d.w, d.t)]
    return lambda: Catalog.from_dict(rows), {}, {}


@p26.fn("types")
def windows_of_events(d):
    import numpy as np
    import seismostats.analysis.declustering as dec
    w = [dec.GardnerKnopoffWindow, dec.GruenthalWindow,
         dec.UhrhammerWindow][d.j % 3]

    def call():
        x, t = w()(abs(d.m) % 8)
        return [np.array(x, float),
                [v.total_seconds() for v in np.atleast_1d(t)]]
    return call, {}, {}


@p26.fn("types")
def boxes(d):
    from shapely.geometry import Polygon
    from seismostats.utils import CoordinateTransformer
    from seismostats.utils.coordinates import bounding_box_to_polygon, \
        polygon_to_bounding_box
    a = [scalar(float(v), d.opt) for v in (5, 45, 6 + d.j, 46 + d.j)]

    def call():
        p = bounding_box_to_polygon(*a)
        t = CoordinateTransformer(2056, scalar(2600000., d.opt),
                                  scalar(1200000., d.opt))
        return [p, polygon_to_bounding_box(p), t.polygon_to_local_coords(p),
                t.polygon_from_local_coords(Polygon(
                    [(0, 0), (0, int(a[2])), (int(a[2]), 0)]))]
    return call, {}, {}


@p26.fn("types")
def forecasts(d):
    import pandas as pd
    from seismostats import ForecastGRRateGrid
    n = len(d.m) // 3 * 3
    g = {f"{x}_{e}": [float(i % 3 + (e == "max")) for i in range(n)]
         for x in ("longitude", "latitude", "depth") for e in ("min", "max")}
    f = ForecastGRRateGrid(pd.DataFrame({
        **g, "a": d.t[:n], "b": d.w[:n], "alpha": d.w[:n], "mc": d.m[:n],
        "grid_id": [i // 3 for i in range(n)]}))
    f.starttime = pd.Timestamp("2020-01-01")
    f.endtime = pd.Timestamp("2020-01-02")
    f.n_grids = scalar(n // 3, d.ints)
    return lambda: [f.calculate_statistics(),
                    f.calculate_statistics(agg_func="max")], {}, {}


SKIP = set()
NUMBER = re.compile(r"(?<=\d)\.0\b")


def run(group, case, ctx):
    names = sorted(set(p26.FN[group]) - SKIP)
    first = case["f"] % len(names)
    for i in {(first + k * (len(names) // 3)) % len(names)
              for k in range(min(3, len(names)))}:
        one(group, names[i], case, ctx)


def one(group, name, case, ctx):
    import matplotlib.pyplot as plt
    import numpy as np
    make, defaults = p26.FN[group][name]

    def call(kinds):
        old = uuid.uuid4
        ids = (uuid.UUID(int=i) for i in itertools.count())
        uuid.uuid4 = lambda: next(ids)
        np.random.seed(case["d"]["seed"] % 2**31)
        plt.close("all")
        try:
            d = Typed(case["d"], kinds)
            f, need, other = make(d)
            opts = {k: other[k] for i, k in enumerate(defaults)
                    if k in other and case["other"] >> i & 1}
            kw = {**need, **opts}
            if kinds is not None:
                kw = {k: retyped(v, kinds["opt"]) for k, v in kw.items()}
            return p26.fp(f(**kw)), None
        except Exception as exc:
            return None, f"{type(exc).__name__}: {exc}"
        finally:
            uuid.uuid4 = old
            plt.close("all")

    r1, e1 = call(None)
    kinds = dict(case["kinds"])
    r2, e2 = call(kinds)
    if e2 and "Big-endian" in e2:
        ctx.label("not supported by pandas")
        return
    assert (e1 is None) == (e2 is None), \
        f"{name}: {e1 or 'accepted'}; as {kinds} {e2 or 'accepted'}"
    assert near(r1, r2), \
        f"{name}: as {kinds}: {p26.where(r2, r1)}"
    ctx.label(name if e1 is None else f"{name} {e1[:99]}")
    ctx.nt(e1 is None)


def near(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) <= 1e-4 * max(1, abs(a), abs(b))
    if isinstance(a, str) and isinstance(b, str):
        return NUMBER.sub("", a) == NUMBER.sub("", b)
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(map(near, a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(near(a[k], b[k]) for k in a)
    return a == b


@PROP.facet(lambda: _case("analysis", 6), quick=900, shards=3)
def analysis(case, ctx):
    """estimators, completeness, significance, declustering"""
    run("analysis", case, ctx)


@PROP.facet(lambda: _case("utilities", 4), quick=240, shards=2)
def utilities(case, ctx):
    """binning, simulation, coordinates, catalogues, grids, QuakeML"""
    run("utilities", case, ctx)


@PROP.facet(lambda: _case("figures", 12), quick=240, shards=3)
def figures(case, ctx):
    """what is drawn"""
    run("figures", case, ctx)


@PROP.facet(lambda: _case("types", 6), quick=300, shards=2)
def types(case, ctx):
    """years, completeness tables, catalogues with missing values, OpenQuake,
    dictionaries, windows, boxes, forecasts"""
    run("types", case, ctx)
