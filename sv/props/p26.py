"""P26  Options left out have their documented values."""
import datetime
import itertools
import math
import uuid

from hypothesis import strategies as st

from .. import gen
from ..core import Property, reseed
from .p25 import D, _data

PROP = Property(
    "P26",
    "A case is a public function or method, generated data, and the options "
    "that are named, given by position or left out. Non-trivial: the function "
    "returned a result, and an option was left out in one of the calls.",
    ["the documented values are those of the signatures of the release that "
     "was examined",
     "random number generators are seeded, and identifiers that are made "
     "up are numbered, anew before each call"])


# ------------------------------------------------- what a call has produced
def fp(o, depth=0):
    """plain data that describes a result"""
    import numpy as np
    import pandas as pd
    if depth > 6:
        return "deep"
    if o is None or isinstance(o, (str, bool, bytes)):
        return o
    if isinstance(o, (datetime.timedelta, np.timedelta64)):
        return str(pd.Timedelta(o))
    if isinstance(o, (int, float, np.number, np.bool_)):
        v = float(o)
        return "nan" if math.isnan(v) else v
    if o is pd.NaT:
        return "NaT"
    if isinstance(o, (datetime.datetime, np.datetime64)):
        try:
            return pd.Timestamp(o).isoformat()
        except ValueError:
            return str(o)
    if isinstance(o, dict):
        return {str(k): fp(v, depth + 1) for k, v in o.items()}
    if isinstance(o, pd.DataFrame):
        return {"columns": [str(c) for c in o.columns],
                "index": [str(i) for i in o.index],
                "meta": {k: fp(getattr(o, k, None), depth + 1)
                         for k in getattr(o, "_metadata", [])},
                "type": type(o).__name__,
                "values": [fp(list(o[c]), depth + 1) for c in o.columns]}
    if isinstance(o, pd.Series):
        return fp(o.to_numpy(), depth + 1)
    if isinstance(o, (list, tuple, set)):
        return [fp(v, depth + 1) for v in o]
    if isinstance(o, np.ndarray):
        if o.dtype.kind in "mM" and o.ndim:
            return fp(list(o), depth + 1)
        return fp(o.tolist(), depth + 1)
    if hasattr(o, "wkt"):
        return o.wkt
    if hasattr(o, "get_lines"):
        return figure(o)
    if hasattr(o, "_is_estimated") or hasattr(o, "a_value"):
        names = [n for n in ("value", "std", "n", "mc", "delta_m", "dmc",
                             "magnitudes", "times", "weights", "idx")
                 if hasattr(o, n)]
        return {n: fp(getattr(o, n), depth + 1) for n in names}
    return repr(type(o))


def figure(ax):
    import numpy as np
    out = {"title": ax.get_title(), "grid": [
        ln.get_visible() for ln in ax.get_xgridlines()[:1]]}
    if not hasattr(ax, "projection"):
        out.update(xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(),
                   scale=ax.get_yscale())
    leg = ax.get_legend()
    out["legend"] = None if leg is None else [
        t.get_text() for t in leg.get_texts()]
    out["lines"] = [[fp(np.asarray(ln.get_xdata())),
                     fp(np.asarray(ln.get_ydata(), dtype=float)),
                     str(ln.get_color()), ln.get_linestyle(),
                     str(ln.get_marker()), fp(ln.get_markersize()),
                     str(ln.get_label())] for ln in ax.get_lines()]
    out["sets"] = []
    for c in ax.collections:
        d = {"type": type(c).__name__, "label": str(c.get_label())}
        try:
            d["xy"] = fp(np.asarray(c.get_offsets(), dtype=float))
            d["face"] = fp(c.get_facecolor())
            if hasattr(c, "get_sizes"):
                d["size"] = fp(c.get_sizes())
            d["paths"] = [fp(p.vertices) for p in c.get_paths()[:50]] \
                if d["type"] != "PathCollection" else None
            a = c.get_array()
            d["array"] = None if a is None else fp(np.asarray(a))
            d["cmap"] = c.get_cmap().name if a is not None else None
        except (AttributeError, TypeError):
            pass
        out["sets"].append(d)
    if hasattr(ax, "get_extent"):
        out["extent"] = fp(ax.get_extent())
    return out


def near(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(map(near, a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(near(a[k], b[k]) for k in a)
    return a == b


def where(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b or not near(a[k], b[k]):
                return where(a[k], b.get(k), f"{path}.{k}")
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not near(x, y):
                return where(x, y, f"{path}[{i}]")
    return f"{path}: {str(a)[:160]} / {str(b)[:160]}"


# ---------------------------------------------------------------- functions
FN = {}


def fn(group, **defaults):
    """f(d) returns (callable, names and values of the needed arguments,
    other values of options); the options are in the order of the
    signature"""
    def deco(f):
        FN.setdefault(group, {})[f.__name__] = (f, defaults)
        return f
    return deco


class Classic:
    """stands for the default methods"""
    b, a = "ClassicBValueEstimator", "ClassicAValueEstimator"


def resolve(v):
    import seismostats.analysis as an
    return getattr(an, v) if v in (Classic.b, Classic.a) else v


def cat(d, **kw):
    import pandas as pd
    from seismostats import Catalog
    return Catalog(pd.DataFrame({
        "magnitude": d.m, "time": pd.to_datetime(d.dt),
        "longitude": d.w + 7, "latitude": d.w * 2 + 46, "depth": d.w,
        "magnitude_type": "ML"}), **kw)


def B(d):
    from seismostats.analysis import UtsuBValueEstimator
    return UtsuBValueEstimator


def A(d):
    from seismostats.analysis import APositiveAValueEstimator
    return APositiveAValueEstimator


@fn("analysis", weights=None, b_parameter="b_value", return_std=False,
    method=Classic.b, return_n=False)
def b(d):
    from seismostats.analysis import estimate_b
    return estimate_b, dict(magnitudes=d.m, mc=d.mc, delta_m=d.dm), {
        "weights": d.w, "b_parameter": "beta", "return_std": True,
        "method": B(d), "return_n": True}


@fn("analysis", scaling_factor=None, m_ref=None, b_value=None,
    method=Classic.a)
def a(d):
    from seismostats.analysis import estimate_a
    return estimate_a, dict(magnitudes=d.m, mc=d.mc, delta_m=d.dm), {
        "scaling_factor": 2.5, "b_value": 1.1}


@fn("analysis", weights=None)
def b_classic(d):
    from seismostats.analysis import ClassicBValueEstimator, \
        UtsuBValueEstimator
    m = [ClassicBValueEstimator, UtsuBValueEstimator][d.j % 2]
    return calc(m()), dict(magnitudes=d.m, mc=d.mc, delta_m=d.dm), {
        "weights": d.w}


@fn("analysis", weights=None, times=None, dmc=None)
def b_positive(d):
    from seismostats.analysis import BPositiveBValueEstimator
    return calc(BPositiveBValueEstimator()), dict(
        magnitudes=d.m, mc=d.mc, delta_m=d.dm), {
            "weights": d.w, "times": d.t[::-1], "dmc": d.dm * d.j}


@fn("analysis", weights=None, times=None, dmc=None)
def b_more_positive(d):
    from seismostats.analysis import BMorePositiveBValueEstimator
    e = BMorePositiveBValueEstimator()

    def call(*args, **kw):
        # its standard deviation is from a bootstrap that is not seeded
        return e.calculate(*args, **kw), e.n, fp(e.magnitudes), fp(e.weights)
    return call, dict(magnitudes=d.m, mc=d.mc, delta_m=d.dm), {
            "weights": d.w, "times": d.t[::-1], "dmc": d.dm * d.j}


@fn("analysis", dmc=lambda d: d.dm)
def dmc_b(d):
    from seismostats.analysis import BMorePositiveBValueEstimator, \
        BPositiveBValueEstimator
    m = [BPositiveBValueEstimator, BMorePositiveBValueEstimator][d.j % 2]
    e = m()
    return keywords(lambda **kw: [e.calculate(**kw), e.n, e.magnitudes]), \
        dict(magnitudes=d.m, mc=d.mc, delta_m=d.dm, times=d.t), {}


@fn("analysis", dmc=lambda d: d.dm)
def dmc_a(d):
    from seismostats.analysis import AMorePositiveAValueEstimator, \
        APositiveAValueEstimator
    m = [APositiveAValueEstimator, AMorePositiveAValueEstimator][d.j % 2]
    return keywords(calc(m())), dict(
        magnitudes=d.m, mc=d.mc, delta_m=d.dm, times=d.t, b_value=1.2), {}


def calc(e):
    def call(*args, **kw):
        r = e.calculate(*args, **kw)
        return [r, e]
    return call


def keywords(f):
    def call(**kw):
        return f(**kw)
    call.keywords_only = True
    return call


@fn("analysis", n=100)
def p_lilliefors(d):
    from seismostats.analysis import ClassicBValueEstimator
    e = ClassicBValueEstimator()
    e.calculate(d.m, mc=d.mc, delta_m=d.dm)
    return e.p_lilliefors, {}, {"n": 7}


@fn("analysis", weights=None, b_parameter="b_value")
def shi_bolt(d):
    from seismostats.analysis import shi_bolt_confidence
    return shi_bolt_confidence, dict(magnitudes=d.m, b=0.8), {
        "weights": d.w, "b_parameter": "beta"}


@fn("analysis", delta_t=lambda d: __import__("numpy").timedelta64(60, "s"),
    return_idx=False)
def incomplete(d):
    import numpy as np
    from seismostats.analysis import make_more_incomplete
    t = np.datetime64("2020-01-01") + d.t.astype(int) * np.timedelta64(
        7, "s")
    return make_more_incomplete, dict(magnitudes=d.m, times=t), {
        "delta_t": np.timedelta64(20, "s"), "return_idx": True}


def periods(d):
    import numpy as np
    lo = gen.grid_value(d.c["mc"], 0.1, -0.05)
    m = np.array([gen.grid_value(k, 0.1) for k in d.c["k"]])
    table = np.array([[lo, 2000], [lo + 0.2, 1950]])
    years = (np.datetime64("2001", "Y") + np.array(d.c["gap"]) % 18).astype(
        "datetime64[D]") + 5
    return dict(magnitudes=m, times=years, completeness_table=table)


def last(d):
    return 2001 + max(g % 18 for g in d.c["gap"])


@fn("analysis", last_year=last, delta_m=0.1, b_parameter="b_value")
def kijko_smit(d):
    from seismostats.analysis import estimate_b_kijko_smit
    return keywords(estimate_b_kijko_smit), periods(d), {
        "last_year": 2019, "b_parameter": "beta"}


@fn("analysis", last_year=last, delta_m=0.1, b_parameter="b_value")
def weichert(d):
    from seismostats.analysis import estimate_b_weichert
    return keywords(lambda **kw: estimate_b_weichert(
        mag_max=gen.grid_value(max(d.c["k"]) + 2, 0.1, 0.05), **kw)), \
        periods(d), {"last_year": 2019, "b_parameter": "beta"}


@fn("analysis", correction_factor=0.2)
def maxc(d):
    from seismostats.analysis import estimate_mc_maxc
    f = estimate_mc_maxc
    kw = dict(magnitudes=d.m, fmd_bin=d.dm)
    if d.c["list"]:
        f, kw = cat(d).estimate_mc_maxc, dict(fmd_bin=d.dm)
    return f, kw, {"correction_factor": 0.5}


def _wide(d):
    """every bin of a range that is wide enough"""
    import numpy as np
    k = list(d.c["k"]) + list(range(d.c["mc"], d.c["mc"] + 14))
    return np.array([gen.grid_value(v, 0.1) for v in k])


@fn("analysis", mcs_test=None, stop_when_passed=True, b_method=Classic.b,
    stability_range=0.5, verbose=False)
def stability(d):
    from seismostats.analysis import estimate_mc_b_stability
    m = _wide(d)
    return estimate_mc_b_stability, dict(magnitudes=m, delta_m=0.1), {
        "mcs_test": sorted(set(m.round(6)))[:3], "stop_when_passed": False,
        "b_method": B(d), "stability_range": 0.3}


@fn("analysis", delta_m=0.1, mcs_test=None, stop_when_passed=True,
    b_method=Classic.b, stability_range=0.5, verbose=False)
def stability_of_catalog(d):
    d.m = _wide(d)
    d.w = d.t = d.m
    import numpy as np
    d.dt = np.datetime64("2020-01-01") + np.arange(len(d.m))
    return cat(d, delta_m=0.1).estimate_mc_b_stability, {}, {
        "mcs_test": sorted(set(d.m.round(6)))[:3], "stop_when_passed": False,
        "stability_range": 0.3}


@fn("analysis", mcs_test=None, p_value_pass=0.1, stop_when_passed=True,
    b_value=None, b_method=Classic.b)
def ks(d):
    from seismostats.analysis import estimate_mc_ks
    return keywords(lambda **kw: estimate_mc_ks(
        magnitudes=d.m, delta_m=d.dm, n=40, **kw)), {}, {
            "mcs_test": [d.mc, d.mc + d.dm], "p_value_pass": 0.5,
            "stop_when_passed": False, "b_value": 1.1, "b_method": B(d)}


@fn("analysis", delta_m=lambda d: d.dm, mcs_test=None,
    p_value_pass=0.1, stop_when_passed=True, b_value=None, b_method=Classic.b)
def ks_of_catalog(d):
    c = cat(d, delta_m=d.dm)
    return keywords(lambda **kw: c.estimate_mc_ks(n=40, **kw)), {}, {
        "mcs_test": [d.mc, d.mc + d.dm], "p_value_pass": 0.5,
        "stop_when_passed": False, "b_value": 1.1, "b_method": B(d)}


@fn("analysis", w=lambda d: __import__("numpy").eye(d.n, k=1),
    mean_v=lambda d: d.m.mean())
def morans(d):
    import numpy as np
    from seismostats.analysis.b_significant import est_morans_i
    return est_morans_i, dict(values=d.m), {
        "w": np.eye(d.n, k=2), "mean_v": 1.5}


@fn("analysis", method=Classic.b, list_scaling=None)
def partition(d):
    from seismostats.analysis.b_significant import values_from_partitioning
    k = d.n // 2
    return values_from_partitioning, dict(
        list_magnitudes=[d.m[:k], d.m[k:]], list_times=[d.t[:k], d.t[k:]],
        list_mc=[d.mc, d.mc + d.dm] if d.j % 2 else d.mc,
        delta_m=d.dm), {"method": B(d)}


@fn("analysis", offset=0)
def windows(d):
    from seismostats.analysis.b_significant import cut_constant_idx
    return cut_constant_idx, dict(values=d.m, n=3), {"offset": 2}


def varied(m, dm):
    """no window has a single value, and not all have the same"""
    import numpy as np
    i = np.arange(len(m))
    return (m + dm * (i % 2 + i // 12 % 3)).round(6)


@fn("analysis", min_num=2, method=Classic.b, x_variable=None,
    conservative=True)
def significant(d):
    import numpy as np
    from seismostats.analysis import b_significant_1D
    m = varied(np.tile(d.m, 4), d.dm)
    return b_significant_1D, dict(
        magnitudes=m, mc=d.mc, delta_m=d.dm, times=np.arange(len(m) * 1.0),
        n_m=4), {"min_num": 3, "x_variable": np.arange(len(m))[::-1],
                 "conservative": False, "method": B(d)}


@fn("analysis", delta_m=lambda d: d.dm, mc=lambda d: d.mc, weights=None,
    method=Classic.b)
def b_of_catalog(d):
    c = cat(d, mc=d.mc, delta_m=d.dm)
    return keywords(c.estimate_b), {}, {
        "mc": d.mc + d.dm, "weights": d.w, "method": B(d)}


@fn("analysis", mc=lambda d: d.mc, delta_m=lambda d: d.dm,
    scaling_factor=None, m_ref=None, b_value=lambda d: 1.2,
    method=Classic.a)
def a_of_catalog(d):
    c = cat(d, mc=d.mc, delta_m=d.dm, b_value=1.2)
    return c.estimate_a, {}, {"mc": d.mc + d.dm, "scaling_factor": 3,
                              "b_value": 0.9}


@fn("analysis", fs_time_prop=1.0, time_cutoff=None)
def decluster(d):
    import seismostats.analysis.declustering as dec
    w = [dec.GardnerKnopoffWindow, dec.GruenthalWindow,
         dec.UhrhammerWindow][d.j % 3]
    d.m = abs(d.m)

    def call(**kw):
        cut = {k: kw.pop(k) for k in ("time_cutoff",) if k in kw}
        return dec.GardnerKnopoffType1(w(**cut), **kw)(cat(d))
    return keywords(call), {}, {"fs_time_prop": 0.3, "time_cutoff": 5}


@fn("analysis", earth_rad=6371.227)
def great_circle(d):
    from seismostats.analysis.declustering.utils import haversine
    return haversine, dict(
        longitudes=d.w, latitudes=d.t / 40, target_longitude=d.u,
        target_latitude=d.u * 3), {
        "earth_rad": 1.0}


# ------------------------------------------------------ binning, coordinates
@fn("utilities", n=0)
def round_half_up(d):
    from seismostats.utils import normal_round
    return normal_round, dict(x=d.u * 10), {"n": 1}


@fn("utilities", tolerance=1e-15, check_larger_binning=True)
def binned(d):
    from seismostats.utils import binning_test
    return binning_test, dict(x=d.m[:d.j + 1], delta_x=d.dm), {
        "check_larger_binning": False}


@fn("utilities", weights=None, bin_position="center")
def fmd(d):
    from seismostats.utils import get_cum_fmd, get_fmd
    return [get_fmd, get_cum_fmd][d.j % 2], dict(
        magnitudes=d.m, fmd_bin=d.dm), {"weights": d.w,
                                        "bin_position": "left"}


@fn("utilities", mag_max=None)
def simulate(d):
    from seismostats.utils import simulate_magnitudes
    return simulate_magnitudes, dict(n=d.n, beta=2.0, mc=d.mc), {
        "mag_max": d.mc + 0.5}


@fn("utilities", mag_max=None, b_parameter="b_value")
def simulate_binned(d):
    from seismostats.utils import simulate_magnitudes_binned
    return simulate_magnitudes_binned, dict(n=d.n, b=1.3, mc=d.mc,
                                            delta_m=d.dm), {
        "mag_max": d.mc + 3 * d.dm, "b_parameter": "beta"}


@fn("utilities", ref_easting=0.0, ref_northing=0.0, ref_altitude=0.0,
    external_proj=4326, ref_proj=None)
def transformer(d):
    from seismostats.utils import CoordinateTransformer

    def call(*args, **kw):
        t = CoordinateTransformer(*args, **kw)
        e, n, h = t.to_local_coords(7 + d.w, 46 + d.w, d.t)
        return [e, n, h, t.from_local_coords(e, n, h),
                t.from_local_coords(e, n), t.to_local_coords(7.5, 46.5)]
    return call, dict(local_proj=2056), {
        "ref_easting": 2.6e6, "ref_northing": 1.2e6, "ref_altitude": 400.0}


@fn("utilities", altitude=None)
def to_local(d):
    from seismostats.utils import CoordinateTransformer
    t = CoordinateTransformer(2056, 2.6e6, 1.2e6, 100)
    return t.to_local_coords, dict(lon=7 + d.w, lat=46 + d.w), {
        "altitude": d.t}


@fn("utilities", altitude=None)
def from_local(d):
    from seismostats.utils import CoordinateTransformer
    t = CoordinateTransformer(2056, 2.6e6, 1.2e6, 100)
    return t.from_local_coords, dict(easting=d.t, northing=d.w), {
        "altitude": d.t}


@fn("utilities", delta_m=None, inplace=False)
def bin_catalog(d):
    c = cat(d, delta_m=d.dm * d.j)

    def call(*args, **kw):
        c = cat(d, delta_m=d.dm * d.j)
        return [c.bin_magnitudes(*args, **kw), c]
    del c
    return call, {}, {"delta_m": d.dm * 2, "inplace": True}


@fn("utilities", inplace=False)
def strip(d):
    def call(*args, **kw):
        c = cat(d)
        c["extra"] = 1
        return [c.strip(*args, **kw), c]
    return call, {}, {"inplace": True}


@fn("utilities", agencyID=" ", author=" ")
def quakeml(d):
    def call(*args, **kw):
        c = cat(d)
        for k in ("event", "origin", "magnitude"):
            c[k + "ID"] = [f"smi:{k}/{i}" for i in range(len(c))]
        return c.to_quakeml(*args, **kw)
    return call, {}, {"agencyID": "A", "author": "B & C"}


def _document(d):
    c = cat(d)
    for k in ("event", "origin", "magnitude"):
        c[k + "ID"] = [f"smi:{k}/{i}" for i in range(len(c))]
    c["time_uncertainty"] = d.t
    c["magnitude_ML"] = d.m
    c["magnitude_Mw"] = d.m + 0.5
    c["evaluationMode"] = "manual"
    return c.to_quakeml()


@fn("utilities", include_all_magnitudes=True, include_uncertainties=False,
    include_ids=False, include_quality=False)
def from_quakeml(d):
    from seismostats import Catalog
    text = _document(d)
    return keywords(lambda **kw: Catalog.from_quakeml(text, **kw)), {}, {
        "include_all_magnitudes": False, "include_uncertainties": True,
        "include_ids": True, "include_quality": True}


@fn("utilities", include_all_magnitudes=True, include_quality=True)
def parse(d):
    from seismostats.io import parser
    text = _document(d)
    return keywords(lambda **kw: parser.parse_quakeml(text, **kw)), {}, {
        "include_all_magnitudes": False, "include_quality": False}


@fn("utilities", include_uncertainties=True, include_ids=True)
def from_dict(d):
    from seismostats import Catalog
    from seismostats.io import parser
    data = parser.parse_quakeml(_document(d))
    return Catalog.from_dict, dict(data=data), {
        "include_uncertainties": False, "include_ids": False}


def _grid(t):
    import pandas as pd
    from seismostats import GRRateGrid
    g = {f"{x}_{e}": [float(i + (e == "max")) for i in range(3)]
         for x in ("longitude", "latitude", "depth") for e in ("min", "max")}
    return GRRateGrid(pd.DataFrame(
        {**g, "a": [1.0, 2.0, 4], "b": [1.0, 1.0, 0.9],
         "alpha": [0.0, 0.0, 1], "mc": [0.0, 0.0, 1]}),
        starttime=pd.Timestamp("2020-01-01"),
        endtime=pd.Timestamp("2020-01-02") if t else None)


@fn("utilities", endtime=True)
def time_index(d):
    def call(*args, **kw):
        return _grid(True).add_time_index(*args, **kw)
    return call, {}, {"endtime": False}


@fn("utilities", agg_func="mean")
def statistics(d):
    import pandas as pd
    from seismostats import ForecastGRRateGrid
    g = []
    for i in range(3):
        x = pd.DataFrame(_grid(True))
        x["a"] += i * i * d.u
        x["grid_id"] = i
        g.append(x)
    f = ForecastGRRateGrid(pd.concat(g, ignore_index=True))
    f.starttime = pd.Timestamp("2020-01-01")
    f.endtime = pd.Timestamp("2020-01-02")
    return keywords(f.calculate_statistics), {}, {"agg_func": "max"}


# ------------------------------------------------------------------- figures
FMD = dict(mc=None, fmd_bin=None, weights=None, b_value=None, ax=None,
           color=None, color_line=None, size=None, grid=False,
           bin_position="center", label=True, label_line=True)


def of_catalog(d, name, need, **kw):
    """the function, or the method of a catalogue"""
    from seismostats import plots
    if d.c["list"]:
        return getattr(cat(d, **kw), name), {}
    return getattr(plots, name), need


@fn("figures", **FMD)
def cum_fmd(d):
    f, need = of_catalog(d, "plot_cum_fmd", dict(magnitudes=d.m),
                         delta_m=d.dm)
    return f, need, {
        "mc": d.mc + d.dm, "b_value": 0.9, "color": "red",
        "fmd_bin": d.dm * 2, "grid": True, "bin_position": "left",
        "label": "a", "label_line": "b", "size": 9, "weights": d.w}


@fn("figures", weights=None, ax=None, color=None, size=None, grid=False,
    bin_position="center", label=True)
def one_fmd(d):
    f, need = of_catalog(d, "plot_fmd", dict(magnitudes=d.m))
    return f, {**need, "fmd_bin": d.dm}, {
        "color": "red", "size": 9, "grid": True, "bin_position": "left",
        "label": "x", "weights": d.w}


@fn("figures", mcs=None, delta_m=None, weights=None, normalize=True, ax=None,
    color=None)
def cum_count(d):
    f, need = of_catalog(d, "plot_cum_count", dict(times=d.dt,
                                                   magnitudes=d.m))
    return f, need, {"mcs": [d.mc, d.mc + d.dm], "delta_m": d.dm,
                     "normalize": False, "color": "red", "weights": d.w}


@fn("figures", mc_change_times=None, mcs=None, ax=None, dot_smallest=10,
    dot_largest=200, dot_interpolation_power=2, color_dots="blue",
    cmap="viridis", color_line="#eb4034")
def mags_in_time(d):
    f, need = of_catalog(d, "plot_mags_in_time", dict(times=d.dt,
                                                      magnitudes=d.m))
    return f, need, {
        "dot_smallest": 3, "dot_largest": 90, "dot_interpolation_power": 1,
        "color_dots": d.w, "cmap": "plasma"}


@fn("figures", smallest=10, largest=200, interpolation_power=1)
def dots(d):
    from seismostats.plots.basics import dot_size
    return dot_size, dict(magnitudes=d.m), {
        "smallest": 5, "largest": 60, "interpolation_power": 3}


@fn("figures", interpolation_power=1)
def dots_back(d):
    from seismostats.plots.basics import reverse_dot_size
    return reverse_dot_size, dict(sizes=d.t, min_mag=d.mc,
                                  max_mag=d.mc + 2), {
        "interpolation_power": 3}


@fn("figures", ax=None, resolution="10m", include_map=False, country=None,
    style="satellite", dot_smallest=10, dot_largest=200,
    dot_interpolation_power=2, dot_labels="auto", color_dots="blue",
    cmap="viridis", color_map=None)
def in_space(d):
    f, need = of_catalog(d, "plot_in_space", dict(
        longitudes=d.w + 7, latitudes=d.w * 2 + 46, magnitudes=d.m))
    return f, need, {
        "dot_smallest": 3, "dot_largest": 90, "dot_interpolation_power": 1,
        "dot_labels": 3, "color_dots": d.w, "cmap": "plasma"}


@fn("figures", b_method=Classic.b, confidence_interval=0.95, ax=None,
    color="blue", label=None)
def mc_vs_b(d):
    from seismostats.plots import plot_mc_vs_b
    mcs = [d.mc, d.mc + d.dm]
    f, need = plot_mc_vs_b, dict(magnitudes=d.m, mcs=mcs, delta_m=d.dm)
    if d.c["list"]:
        f, need = keywords(lambda **kw: cat(d, delta_m=d.dm).plot_mc_vs_b(
            mcs, **kw)), {}
    return f, need, {"confidence_interval": 0.5, "color": "red",
                     "label": "x", "b_method": B(d)}


@fn("figures", min_num=2, method=Classic.b, x_variable=None,
    plot_technique="right", confidence_level=0.95, ax=None, color="blue",
    label=None)
def series(d):
    from seismostats.plots import plot_b_series_constant_nm
    return plot_b_series_constant_nm, dict(
        magnitudes=d.m, delta_m=d.dm, mc=d.mc, times=d.dt, n_m=4), {
            "min_num": 3, "plot_technique": "left", "confidence_level": 0.6,
            "color": "red", "label": "x", "method": B(d)}


@fn("figures", n_ms=None, min_num=2, x_variable=None, conservative=True,
    method=Classic.b, p_threshold=0.05, ax=None, color="blue", label=None)
def significance(d):
    import numpy as np
    from seismostats.plots import plot_b_significant_1D
    k = -(-(15 * 17 + d.i) // d.n)
    m = np.tile(d.m, k)
    m = m[np.random.default_rng(d.c["seed"]).permutation(len(m))]
    m = varied(m, d.dm)
    return plot_b_significant_1D, dict(
        magnitudes=m, mc=d.mc, delta_m=d.dm,
        times=np.arange(len(m) * 1.0)), {
            "min_num": 3, "conservative": False, "p_threshold": 0.4,
            "n_ms": np.array([5, 16]), "color": "red", "label": "x"}


@fn("slow", n=10000)
def ks_n(d):
    from seismostats.analysis import estimate_mc_ks
    return keywords(lambda **kw: estimate_mc_ks(
        d.m, d.dm, mcs_test=[d.mc], **kw)), {}, {}


@fn("slow", n=10000)
def ks_n_of_catalog(d):
    c = cat(d, delta_m=d.dm)
    return keywords(lambda **kw: c.estimate_mc_ks(mcs_test=[d.mc], **kw)), \
        {}, {}


@fn("slow", n=10000, ks_ds=None, weights=None)
def ks_test(d):
    from seismostats.analysis.estimate_mc import ks_test_gr
    return keywords(lambda **kw: ks_test_gr(
        d.m, mc=d.mc, delta_m=d.dm, b_value=1.0, **kw)), {}, {}


# --------------------------------------------------------------------- check
def case_of(group, min_n):
    return lambda: st.fixed_dictionaries({
        "d": _data(min_n), "f": st.integers(0, 10**6),
        "set": st.integers(0, 2**12 - 1), "other": st.integers(0, 2**12 - 1)})


def run(group, case, ctx):
    names = sorted(FN[group])
    first = case["f"] % len(names)
    for i in {(first + k * (len(names) // 3)) % len(names)
              for k in range(min(3, len(names)))}:
        one(group, names[i], case, ctx)


def one(group, name, case, ctx):
    """left out, by name and by position"""
    import matplotlib.pyplot as plt
    make, defaults = FN[group][name]

    def call(how):
        ids = (uuid.UUID(int=i) for i in itertools.count())
        old, uuid.uuid4 = uuid.uuid4, lambda: next(ids)
        reseed(case["d"]["seed"])
        plt.close("all")
        opts = {}
        try:
            d = D(case["d"])
            f, need, other = make(d)
            for i, (k, v) in enumerate(defaults.items()):
                if k in other and case["other"] >> i & 1:
                    opts[k] = other[k]
                elif how in ("all", "position") \
                        or (how == "some" and case["set"] >> i & 1):
                    opts[k] = v(d) if callable(v) else resolve(v)
            if how == "position" and not getattr(f, "keywords_only", False):
                r = f(*need.values(), *opts.values())
            else:
                r = f(**need, **opts)
            return fp(r), None, len(opts)
        except Exception as exc:
            return None, type(exc), len(opts)
        finally:
            uuid.uuid4 = old
            plt.close("all")

    plain, err, given = call("none")
    for how in ("some", "all", "position"):
        r, e, _ = call(how)
        assert e is err, \
            f"{name} ({how}): {e} instead of {err} with options left out"
        assert near(plain, r), (
            f"{name}: options left out / {how} given: "
            f"{where(plain, r)}")
    ctx.label(name if err is None else f"{name} {err.__name__}")
    ctx.nt(err is None and given < len(defaults))


@PROP.facet(case_of("analysis", 6), quick=600, shards=3)
def analysis(case, ctx):
    """estimators, completeness, significance, declustering: the same result
    with an option left out and with its documented value, by name and by
    position, whatever the other options"""
    run("analysis", case, ctx)


@PROP.facet(case_of("utilities", 4), quick=240, shards=2)
def utilities(case, ctx):
    """binning, simulation, coordinates, catalogues, grids, QuakeML"""
    run("utilities", case, ctx)


@PROP.facet(case_of("figures", 12), quick=240, shards=3)
def figures(case, ctx):
    """everything that is drawn is the same"""
    run("figures", case, ctx)


@PROP.facet(case_of("slow", 6), quick=6, thorough=60, shards=2)
def slow(case, ctx):
    """the number of simulated samples of the completeness test"""
    run("slow", case, ctx)
