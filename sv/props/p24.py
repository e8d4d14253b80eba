"""P24  Functions leave their inputs alone; warnings change nothing."""
import math
import os

from hypothesis import strategies as st

from . import p26
from .. import gen
from ..core import Property, reseed

PROP = Property(
    "P24",
    "A case is one of the public functions, its arguments and how they are "
    "passed. Non-trivial: the function returned a result (no error) for more "
    "than two events.",
    ["the random number generators are seeded before each call",
     "columns may have any row labels"])


@st.composite
def _data(draw):
    n = draw(st.one_of(st.integers(0, 6), st.integers(3, 40),
                       st.sampled_from([30, 40])))
    dm = draw(st.sampled_from([0.1, 0.2, 0.5, 0.01]))
    few = draw(st.sampled_from([1, 6, 12, 25]))
    ks = draw(st.lists(st.integers(0, few), min_size=n, max_size=n))
    off = draw(st.integers(-5, 20))
    return {"n": n, "dm": dm, "k": [off + k for k in ks],
            "cut": off + draw(st.sampled_from([0, 0, 0, 1, 3, -2, 30])),
            "t": draw(st.lists(st.integers(0, 50000), min_size=n,
                               max_size=n, unique=draw(st.booleans()))),
            "sorted": draw(st.booleans()),
            "w": draw(st.lists(st.integers(1, 9), min_size=n, max_size=n)),
            "dmc": draw(st.sampled_from([None, None, 0, 0.05, 0.3])),
            "opt": draw(st.integers(0, 11)), "seed": draw(st.integers(0, 99))}


def arrays(d):
    """the arrays of a case, as numpy arrays"""
    import numpy as np
    m = np.array([gen.grid_value(k, d["dm"]) for k in d["k"]], dtype=float)
    t = sorted(d["t"]) if d["sorted"] else d["t"]
    years = np.array([-400 * v % 54000 for v in t], dtype="timedelta64[D]")
    return {"m": m, "w": np.array([v / 4 for v in d["w"]], dtype=float),
            "t": np.array([v / 10 for v in t], dtype=float),
            "dt": np.datetime64("2000-01-01T00:00:00") + np.array(
                [v * 7 for v in t], dtype="timedelta64[s]"),
            "hist": np.datetime64("2020-06-01") - years,
            "lat": np.array([46 + v % 7 / 10 for v in d["w"]], dtype=float),
            "lon": np.array([7 + v % 11 / 10 for v in d["t"]], dtype=float),
            "pairs": _pairs(d), "table": _table(d)}


def _pairs(d):
    """neighbours"""
    import numpy as np
    n = d["n"]
    w = np.array([[float((i * 7 + j * 7 + d["opt"]) % 3 == 0)
                   for j in range(n)] for i in range(n)]).reshape(n, n)
    if d["opt"] % 3 == 1:
        np.fill_diagonal(w, 0)
    return w if d["opt"] < 6 else np.triu(w)


def _table(d):
    """completeness"""
    import numpy as np
    k = min(d["k"], default=0) + [0, 1, -1][d["opt"] % 3]
    return np.array([[gen.grid_value(k, d["dm"], -d["dm"] / 2), 1990],
                     [gen.grid_value(k + 2, d["dm"], -d["dm"] / 2), 1880]])


FN = {}


def fn(*uses):
    def deco(f):
        FN[f.__name__] = (f, uses)
        return f
    return deco


def _mc(d):
    return gen.grid_value(d["cut"], d["dm"])


def _b_method(d):
    from seismostats.analysis import (
        BMorePositiveBValueEstimator, BPositiveBValueEstimator,
        ClassicBValueEstimator, UtsuBValueEstimator)
    return [ClassicBValueEstimator, UtsuBValueEstimator,
            BPositiveBValueEstimator, BMorePositiveBValueEstimator][
                d["opt"] % 4]


def _b_kw(d, a):
    kw = {}
    if d["opt"] % 4 > 1:
        if d["opt"] % 3:
            kw["times"] = a["t"]
        if d["dmc"] is not None:
            kw["dmc"] = d["dmc"]
    return kw


@fn("m", "t", "w")
def estimate_b(d, a):
    from seismostats.analysis import estimate_b as f
    r = f(a["m"], mc=_mc(d), delta_m=d["dm"],
          weights=a["w"] if d["opt"] > 5 else None, return_std=True,
          return_n=True, method=_b_method(d), **_b_kw(d, a))
    return r if d["opt"] % 4 < 3 else (r[0], r[2])  # a bootstrap


@fn("m", "t", "w")
def b_estimator(d, a):
    e = _b_method(d)()
    e.calculate(a["m"], mc=_mc(d), delta_m=d["dm"],
                weights=a["w"] if d["opt"] > 5 else None, **_b_kw(d, a))
    std = (e.std, e.std_beta) if d["opt"] % 4 < 3 else None  # a bootstrap
    return e.b_value, std, e.n, e.beta, e.magnitudes, e.weights


@fn("m", "t")
def estimate_a(d, a):
    from seismostats.analysis import (
        AMorePositiveAValueEstimator, APositiveAValueEstimator,
        ClassicAValueEstimator, estimate_a as f)
    m = [ClassicAValueEstimator, APositiveAValueEstimator,
         AMorePositiveAValueEstimator][d["opt"] % 3]
    kw = {"times": a["t"]} if d["opt"] % 3 else {}
    if d["opt"] % 3 and d["dmc"] is not None:
        kw["dmc"] = d["dmc"]
    return f(a["m"], mc=_mc(d), delta_m=d["dm"], b_value=1.0,
             m_ref=[None, 0.0][d["opt"] % 2], method=m, **kw)


@fn("m")
def mc_maxc(d, a):
    from seismostats.analysis import estimate_mc_maxc as f
    return f(a["m"], fmd_bin=d["dm"])


@fn("m")
def mc_b_stability(d, a):
    from seismostats.analysis import estimate_mc_b_stability as f
    return f(a["m"], delta_m=d["dm"], stop_when_passed=d["opt"] % 2 == 0)


@fn("m")
def mc_ks(d, a):
    from seismostats.analysis import estimate_mc_ks as f
    return f(a["m"], delta_m=d["dm"], n=20, stop_when_passed=d["opt"] % 2 == 0)


@fn("m", "w")
def ks_test(d, a):
    from seismostats.analysis.estimate_mc import ks_test_gr as f
    return f(a["m"], mc=_mc(d), delta_m=d["dm"], b_value=1.0, n=20,
             weights=a["w"] if d["opt"] % 2 else None)


@fn("m")
def lilliefors(d, a):
    from seismostats.analysis.lilliefors import ks_test_gr_lilliefors as f
    return f(a["m"], mc=_mc(d))


@fn("m", "w")
def shi_bolt(d, a):
    from seismostats.analysis import shi_bolt_confidence as f
    return f(a["m"], 1.1, weights=a["w"] if d["opt"] % 2 else None)


@fn("m")
def next_larger(d, a):
    from seismostats.analysis import find_next_larger as f
    return f(a["m"], d["dm"], d["dmc"])


@fn("m", "dt")
def more_incomplete(d, a):
    from seismostats.analysis import make_more_incomplete as f
    return f(a["m"], a["dt"], return_idx=d["opt"] % 2 == 0)


@fn("m")
def bin_(d, a):
    from seismostats.utils import bin_to_precision as f
    return f(a["m"], 0.2)


@fn("m")
def binning(d, a):
    from seismostats.utils import binning_test as f
    return f(a["m"], d["dm"], check_larger_binning=d["opt"] % 2 == 0)


@fn("m", "w")
def fmd(d, a):
    from seismostats.utils import get_fmd as f
    return f(a["m"], d["dm"], weights=a["w"] if d["opt"] % 2 else None,
             bin_position=["center", "left"][d["opt"] % 3 % 2])


@fn("m", "w")
def cum_fmd(d, a):
    from seismostats.utils import get_cum_fmd as f
    return f(a["m"], d["dm"], weights=a["w"] if d["opt"] % 2 else None)


@fn("m")
def dither(d, a):
    from seismostats.utils.simulate_distributions import dither_magnitudes
    return dither_magnitudes(a["m"], d["dm"], 1.0)


@fn("m", "t")
def b_significant(d, a):
    from seismostats.analysis import b_significant_1D as f
    return f(a["m"], _mc(d), d["dm"], a["t"], 2 + d["opt"] % 3,
             method=_b_method(dict(d, opt=d["opt"] % 3)),
             x_variable=a["t"] if d["opt"] > 5 else None)


@fn("m", "pairs")
def morans_i(d, a):
    from seismostats.analysis.b_significant import est_morans_i as f
    return f(a["m"], a["pairs"] if d["opt"] % 3 else None)


@fn("m")
def cut_idx(d, a):
    from seismostats.analysis.b_significant import cut_constant_idx as f
    return f(a["m"], 3 + d["opt"] % 3, d["opt"] % 3)


@fn("m", "t")
def partitioning(d, a):
    from seismostats.analysis.b_significant import \
        values_from_partitioning as f
    r = f([a["m"], a["m"]], [a["t"], a["t"]], [_mc(d), _mc(d)], d["dm"],
          method=_b_method(d))
    return r if d["opt"] % 4 < 3 else (r[0], r[2])  # a bootstrap


@fn("m", "hist", "table")
def kijko_smit(d, a):
    from seismostats.analysis import estimate_b_kijko_smit as f
    return f(a["m"], a["hist"], a["table"], last_year=2021, delta_m=d["dm"])


@fn("m", "hist", "table")
def weichert(d, a):
    from seismostats.analysis import estimate_b_weichert as f
    return f(a["m"], a["hist"], a["table"], mag_max=gen.grid_value(
        max(d["k"], default=0) + 3, d["dm"], d["dm"] / 2), last_year=2021,
        delta_m=d["dm"])


@fn("m", "dt", "lat", "lon")
def decluster(d, a):
    import pandas as pd
    from seismostats.analysis import (GardnerKnopoffType1,
                                      GardnerKnopoffWindow)
    cat = pd.DataFrame({"magnitude": list(a["m"]), "time": list(a["dt"]),
                        "latitude": list(a["lat"]),
                        "longitude": list(a["lon"])})
    return GardnerKnopoffType1(GardnerKnopoffWindow(), 0.5)(cat)


@fn("m")
def dot(d, a):
    from seismostats.plots import dot_size
    return dot_size(a["m"], smallest=5, largest=50, interpolation_power=2)


# ------------------------------------------------------------------- compare
def plain(x):
    """a result as nested lists"""
    import numpy as np
    if isinstance(x, (tuple, list)):
        return [plain(v) for v in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if hasattr(x, "to_numpy"):
        x = x.to_numpy()
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    return x


def equal(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(equal, a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a or b != b:
            return a != a and b != b
        return a == b or math.isfinite(a) and math.isfinite(b) and \
            abs(a - b) <= 1e-9 * max(1, abs(a))
    return type(a).__name__ == type(b).__name__ and (
        a == b or not isinstance(a, (str, bool, type(None), int, float)))


def call(name, d, a):
    """(result or error, warnings of the package)"""
    import warnings as wn
    reseed(d["seed"])
    with wn.catch_warnings(record=True) as rec:
        wn.simplefilter("always")
        try:
            r = plain(FN[name][0](d, a))
        except Exception as exc:
            r = {"error": type(exc).__name__}
    mine = [str(w.message) for w in rec if w.category is UserWarning and
            f"{os.sep}seismostats{os.sep}" in (w.filename or "")]
    return r, mine


def _case():
    return st.fixed_dictionaries({
        "fn": st.sampled_from(sorted(FN)), "d": _data()}).map(
            lambda c: dict(c, fn="kijko_smit") if c["fn"] == "weichert" and
            (c["d"]["opt"] % 4 or c["d"]["dm"] < 0.1
             or len(set(c["d"]["k"])) < 4) else c)  # slow


def wrap(a, how):
    import pandas as pd
    if how == "series" and a.ndim == 1:
        n = len(a)
        return pd.Series(a.copy(), index=[(k * 7 + 3) % 41 for k in range(n)])
    a = a.copy()
    a.flags.writeable = False
    return a


@PROP.facet(_case, quick=1100, shards=6)
def inputs_untouched(case, ctx):
    """called with arrays that must not be written to, every function gives
    the same as with ordinary ones, and leaves those as they are; called
    again, it gives the same again"""
    import numpy as np
    name, d = case["fn"], case["d"]
    base = arrays(d)
    used = FN[name][1]
    one = {k: base[k].copy() for k in used}
    r1, _ = call(name, d, one)
    for k in used:
        assert np.array_equal(one[k], base[k], equal_nan=k in "mwt"), \
            f"{name} changed its argument {k}: {base[k]} to {one[k]}"
    r2, _ = call(name, d, {k: wrap(base[k], "ro") for k in used})
    assert equal(r1, r2), f"{name}: {r1} first, then {r2} for {d}"
    ctx.nt("error" not in r1 if isinstance(r1, dict) else d["n"] > 2)
    ctx.label(name)


@PROP.facet(_case, quick=1100, shards=6)
def warnings_option(case, ctx):
    """switching warnings off silences those of the package and changes
    neither results nor errors; the option can be read and switched on
    again"""
    from seismostats.utils import get_option, set_option
    name, d = case["fn"], case["d"]
    base = arrays(d)
    used = FN[name][1]
    assert get_option("warnings") is True
    r1, w1 = call(name, d, {k: base[k].copy() for k in used})
    try:
        set_option("warnings", False)
        assert get_option("warnings") is False
        r2, w2 = call(name, d, {k: base[k].copy() for k in used})
    finally:
        set_option("warnings", True)
    assert get_option("warnings") is True
    assert not w2, f"{name} warns with warnings off: {w2[0]}"
    assert equal(r1, r2), f"{name}: {r1} with warnings, {r2} without, for {d}"
    r3, w3 = call(name, d, {k: base[k].copy() for k in used})
    assert equal(r1, r3), f"{name}: {r1} first, then {r3}"
    if d["opt"] % 4 < 3:  # else a bootstrap
        assert w3 == w1, f"{name}: {w1} first, then {w3}"
    ctx.nt(bool(w1))
    ctx.label(f"{name}{': warned' * bool(w1)}")


@PROP.facet(_case, quick=1100, shards=6)
def containers(case, ctx):
    """columns of a table with any row labels give the same results as
    arrays"""
    name, d = case["fn"], case["d"]
    base = arrays(d)
    used = FN[name][1]
    r1, _ = call(name, d, {k: base[k].copy() for k in used})
    r2, _ = call(name, d, {k: wrap(base[k], "series") for k in used})
    assert equal(r1, r2), f"{name}: {r1} for arrays, {r2} for columns, {d}"
    ctx.nt(not isinstance(r1, dict) and d["n"] > 2)
    ctx.label(name)


@PROP.facet(lambda: st.fixed_dictionaries({
    "m": st.one_of(gen.f(-3, 9), gen.f(-1, 8, 1)),
    "t": st.sampled_from(["ML", "Ml", "ml", "MLh", "MLhc", "Mw", "MW", "mww",
                          "Mwc", "Mw_converted"]),
    "step": gen.f(0, 2)}), quick=200)
def edwards(case, ctx):
    """local magnitudes are converted by the published relation, moment
    magnitudes stay as they are, converting twice is the same as once, larger
    magnitudes stay larger"""
    from seismostats.analysis import apply_edwards
    m, t = case["m"], case["t"]
    typ, v = apply_edwards(t, m)
    local = "l" in t.lower()
    want = 1.02 + 0.472 * m + 0.0491 * m * m if local else m
    assert abs(v - want) < 1e-9, f"{t} {m}: {v} instead of {want}"
    assert typ == ("Mw_converted" if local else t), f"{t}: {typ}"
    assert tuple(apply_edwards(typ, v)) == (typ, v), f"{t} {m}: twice"
    up = apply_edwards(t, m + case["step"])[1]
    assert up >= v - 1e-9, f"{t} {m}: {v}, {m + case['step']}: {up}"
    ctx.nt(local)


def _held(f, need, opts, d):
    """everything the call is given: arguments, the table a method belongs
    to, the columns"""
    import pandas as pd
    out = {"needed": need, "options": opts,
           "columns": {k: v for k, v in vars(d).items()
                       if hasattr(v, "dtype")}}
    own = getattr(f, "__self__", None)
    if isinstance(own, pd.DataFrame):
        out["table"] = pd.DataFrame(own)  # its estimates may be new
    for k, c in enumerate(getattr(f, "__closure__", None) or ()):
        own = c.cell_contents
        own = getattr(own, "__self__", own)
        if isinstance(own, (pd.DataFrame, list, dict)):
            out[f"held{k}"] = pd.DataFrame(own) \
                if isinstance(own, pd.DataFrame) else own
    return out


@PROP.facet(lambda: p26.case_of("figures", 8)().flatmap(
    lambda c: st.fixed_dictionaries({
        "c": st.just(c), "g": st.sampled_from(
            ["analysis", "analysis", "utilities", "figures"])})),
    quick=500, shards=4)
def arguments_untouched(case, ctx):
    """lists, dictionaries, arrays, tables: whatever options are given to a
    function, a method or a figure is the same after the call"""
    import matplotlib.pyplot as plt
    import numpy as np
    c, fns = case["c"], p26.FN[case["g"]]
    names = sorted(fns)
    name = names[c["f"] % len(names)]
    make, defaults = fns[name]
    reseed(c["d"]["seed"])
    plt.close("all")
    try:
        d = p26.D(c["d"])
        f, need, other = make(d)
        opts = {k: other[k] for i, k in enumerate(defaults)
                if k in other and c["other"] >> i & 1}
        if c["set"] & 1:
            need = {k: v.tolist() if isinstance(v, np.ndarray) and
                    v.dtype.kind == "f" and k in ("mcs", "n_ms") else v
                    for k, v in need.items()}
        held = _held(f, need, opts, d)
        before = p26.fp(held)
        err = None
        try:
            f(**need, **opts)
        except Exception as exc:
            err = type(exc)
        after = p26.fp(held)
        assert before == after, \
            f"{name}: changed its arguments: {p26.where(before, after)}"
    finally:
        plt.close("all")
    ctx.nt(err is None and bool(opts))
    ctx.label(name)


def _named(k):
    return [lambda x: x.max(), lambda x: x.quantile(0.9), "median", "std",
            "min"][k]


@PROP.facet(lambda: st.fixed_dictionaries({
    "a": st.lists(gen.f(-2, 6, 2), min_size=2, max_size=6),
    "cells": st.integers(1, 3), "agg": st.sampled_from(["mean", "median"]),
    "stats": st.dictionaries(st.sampled_from(["q90", "sd", "hi", "lo", "mid"]),
                             st.integers(0, 4), max_size=4)}), quick=60)
def statistics_untouched(case, ctx):
    """statistics of a forecast: the forecast and the dictionary of further
    statistics stay as they are, and the same call gives the same again"""
    import pandas as pd
    from seismostats import ForecastGRRateGrid
    rows = []
    for i, a in enumerate(case["a"]):
        for c in range(case["cells"]):
            rows.append({"longitude_min": c, "longitude_max": c + 1.0,
                         "latitude_min": 46.0, "latitude_max": 47.0,
                         "depth_min": 0.0, "depth_max": 9.0, "a": a + c,
                         "b": 1 + a / 9, "mc": 1.0, "number_events": 3 + c,
                         "grid_id": i})
    f = ForecastGRRateGrid(pd.DataFrame(rows))
    f.starttime, f.endtime = map(pd.Timestamp, ("2020-01-01", "2020-01-02"))
    stats = {k: _named(v) for k, v in case["stats"].items()}
    old, table = dict(stats), p26.fp(f)
    first = p26.fp(f.calculate_statistics(case["agg"], stats))
    assert list(stats.items()) == list(old.items()), \
        f"extra_stats changed from {list(old)} to {list(stats)}"
    assert p26.fp(f) == table, "the forecast has changed"
    again = p26.fp(f.calculate_statistics(case["agg"], extra_stats=stats))
    assert p26.near(first, again), p26.where(first, again)
    for k in old:
        assert {f"{c}_{k}" for c in ("a", "b", "mc")} <= \
            set(first["columns"]), f"no column for {k}: {first['columns']}"
    ctx.nt(len(stats) > 1)
