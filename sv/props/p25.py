"""P25  Requests that make no sense are refused; sensible ones are not."""
import math

from hypothesis import strategies as st

from .. import gen
from ..core import Property

PROP = Property(
    "P25",
    "A case is a valid call of a public function on generated data, and one "
    "way of spoiling it. Non-trivial: the valid call returned and the "
    "spoilt one was refused.",
    ["a refusal is any exception; its type is not judged",
     "only requests that the function's documentation or its own checks "
     "declare invalid are used"])


@st.composite
def _data(draw, min_n=4):
    n = draw(st.integers(min_n, 40))
    dm = draw(st.sampled_from([0.1, 0.2, 0.5, 0.01, 0.05, 1.0]))
    few = draw(st.sampled_from([4, 8, 15, 30]))
    ks = draw(st.lists(st.integers(0, few), min_size=n, max_size=n))
    off = draw(st.integers(-5, 30))
    # the lowest and another bin are there
    ks[0], ks[1] = 0, draw(st.integers(1, few))
    ks = draw(st.permutations(ks))
    return {"dm": dm, "k": [off + k for k in ks], "mc": off,
            "w": draw(st.lists(st.integers(0, 8), min_size=n, max_size=n)),
            "gap": draw(st.lists(st.integers(1, 50), min_size=n,
                                 max_size=n)),
            "u": draw(st.floats(0.01, 1.0)), "i": draw(st.integers(0, 999)),
            "j": draw(st.integers(1, 5)), "list": draw(st.booleans()),
            "seed": draw(st.integers(0, 2**31 - 1))}


class D:
    """the data of a case"""

    def __init__(self, c):
        import numpy as np
        self.c = c
        self.dm = c["dm"]
        self.n = len(c["k"])
        self.m = np.array([gen.grid_value(k, self.dm) for k in c["k"]])
        self.mc = gen.grid_value(c["mc"], self.dm)
        self.t = np.cumsum(np.array(c["gap"], dtype=float))
        self.dt = (np.datetime64("2000-01-01T00:00")
                   + self.t.astype(int) * np.timedelta64(3, "h"))
        self.w = np.array([v + 1 for v in c["w"]], dtype=float) / 4
        self.u, self.i, self.j = c["u"], c["i"] % self.n, c["j"]
        np.random.seed(c["seed"] % 2**31)

    def lst(self, a):
        return list(a) if self.c["list"] else a


def refused(f):
    try:
        r = f()
    except Exception as exc:
        return f"{type(exc).__name__}: {exc}"
    return None, r


def judge(ctx, valid, spoilt, what):
    import matplotlib.pyplot as plt
    try:
        valid()
    except Exception as exc:
        raise AssertionError(
            f"valid request refused: {type(exc).__name__}: {exc}") from exc
    finally:
        plt.close("all")
    r = refused(spoilt)
    plt.close("all")
    ctx.label(what)
    if isinstance(r, tuple):
        raise AssertionError(f"{what}: accepted, returned "
                             f"{str(r[1])[:200]}")
    ctx.nt()


HOW = {}


def how(group):
    def deco(f):
        HOW.setdefault(group, {})[f.__name__] = f
        return f
    return deco


def kinds(group):
    return st.sampled_from(sorted(HOW[group]))


def case_of(group, min_n=4):
    return lambda: st.fixed_dictionaries(
        {"d": _data(min_n), "how": kinds(group)})


def run(group, case, ctx):
    valid, spoilt = HOW[group][case["how"]](D(case["d"]))
    judge(ctx, valid, spoilt, case["how"])


# ------------------------------------------------------------ b and a values
def off_grid(d):
    """one magnitude above the completeness is moved between two grid values"""
    import numpy as np
    m = d.m.copy()
    i = int(np.flatnonzero(m > d.mc + d.dm / 4)[0]) if d.i % 2 \
        else int(np.argmax(m))
    m[i] -= d.dm * (0.2 + 0.6 * d.u)
    return m if len(set(m)) > 1 else off_grid_up(d, m, i)


def off_grid_up(d, m, i):
    m[i] += d.dm * 1.5
    return m


def methods_b():
    import seismostats.analysis as an
    return [an.ClassicBValueEstimator, an.UtsuBValueEstimator,
            an.BPositiveBValueEstimator, an.BMorePositiveBValueEstimator]


def kw_times(cls, d):
    return {"times": d.lst(d.t)} if "Positive" in cls.__name__ else {}


@how("values")
def b_parameter(d):
    from seismostats.analysis import estimate_b
    m = methods_b()[d.i % 4]
    kw = kw_times(m, d)
    return (lambda: estimate_b(d.m, d.mc, d.dm, method=m, b_parameter="beta",
                               **kw),
            lambda: estimate_b(d.m, d.mc, d.dm, method=m,
                               b_parameter=["b", "Beta", "", None][d.j % 4],
                               return_std=d.c["list"], **kw))


@how("values")
def b_off_grid(d):
    from seismostats.analysis import estimate_b
    m = methods_b()[d.j % 4]
    kw = kw_times(m, d)
    return (lambda: estimate_b(d.m, d.mc, d.dm, method=m, **kw),
            lambda: estimate_b(off_grid(d), d.mc, d.dm, method=m, **kw))


@how("values")
def b_negative_weight(d):
    from seismostats.analysis import estimate_b
    m = methods_b()[d.j % 4]
    kw = kw_times(m, d)
    w = d.w.copy()
    w[d.i] = -d.u
    return (lambda: estimate_b(d.m, d.mc, d.dm, method=m,
                               weights=d.lst(d.w), **kw),
            lambda: estimate_b(d.m, d.mc, d.dm, method=m, weights=d.lst(w),
                               **kw))


@how("values")
def b_weights_length(d):
    import numpy as np
    from seismostats.analysis import estimate_b
    m = methods_b()[d.j % 4]
    kw = kw_times(m, d)
    w = [d.w[:-1], np.append(d.w, 1.0), d.w[:1]][d.i % 3]
    return (lambda: estimate_b(d.m, d.mc, d.dm, method=m,
                               weights=d.lst(d.w), **kw),
            lambda: estimate_b(d.m, d.mc, d.dm, method=m, weights=d.lst(w),
                               **kw))


@how("values")
def b_dmc(d):
    from seismostats.analysis import estimate_b
    m = methods_b()[2 + d.i % 2]
    return (lambda: estimate_b(d.m, d.mc, d.dm, method=m, times=d.t,
                               dmc=[0, d.dm * d.j, None, d.u][d.j % 4]),
            lambda: estimate_b(d.m, d.mc, d.dm, method=m, times=d.t,
                               dmc=-d.u * [1, 1e-6][d.j % 2]))


@how("values")
def b_before(d):
    m = methods_b()[d.j % 4]
    e, done = m(), m()
    kw = kw_times(m, d)
    names = ["b_value", "beta", "std", "std_beta", "n", "value",
             "p_lilliefors"]
    a = names[d.i % 5]

    def valid():
        done.calculate(d.m, mc=d.mc, delta_m=d.dm, **kw)
        return getattr(done, a)

    return valid, lambda: getattr(e, a)


def methods_a():
    import seismostats.analysis as an
    return [an.ClassicAValueEstimator, an.APositiveAValueEstimator,
            an.AMorePositiveAValueEstimator]


@how("values")
def a_off_grid(d):
    from seismostats.analysis import estimate_a
    m = methods_a()[d.j % 3]
    kw = dict(kw_times(m, d), b_value=1.0)
    return (lambda: estimate_a(d.m, d.mc, d.dm, method=m, **kw),
            lambda: estimate_a(off_grid(d), d.mc, d.dm, method=m, **kw))


@how("values")
def a_reference(d):
    from seismostats.analysis import estimate_a
    m = methods_a()[d.i % 2]
    kw = kw_times(m, d)
    ref = [0, d.mc, d.mc - d.u, -3, 0.0][d.j - 1]
    return (lambda: estimate_a(d.m, d.mc, d.dm, method=m, m_ref=ref,
                               b_value=d.u, **kw),
            lambda: estimate_a(d.m, d.mc, d.dm, method=m, m_ref=ref, **kw))


@how("values")
def a_dmc(d):
    from seismostats.analysis import estimate_a
    m = methods_a()[1 + d.i % 2]
    return (lambda: estimate_a(d.m, d.mc, d.dm, method=m, times=d.t,
                               b_value=1.0,
                               dmc=[0, d.dm * d.j, None, d.u][d.j % 4]),
            lambda: estimate_a(d.m, d.mc, d.dm, method=m, times=d.t,
                               b_value=1.0, dmc=-d.u * [1, 1e-6][d.j % 2]))


@how("values")
def a_without_b(d):
    from seismostats.analysis import estimate_a
    m = methods_a()[2]
    return (lambda: estimate_a(d.m, d.mc, d.dm, method=m, times=d.t,
                               b_value=d.u),
            lambda: estimate_a(d.m, d.mc, d.dm, method=m, times=d.t))


@how("values")
def a_before(d):
    m = methods_a()[d.j % 3]
    e, done = m(), m()
    kw = dict(kw_times(m, d), b_value=1.0)
    a = ["a_value", "value"][d.i % 2]

    def valid():
        done.calculate(d.m, mc=d.mc, delta_m=d.dm, **kw)
        return getattr(done, a)

    return valid, lambda: getattr(e, a)


@PROP.facet(case_of("values"), quick=700)
def values(case, ctx):
    """b- and a-values: magnitudes off the grid, negative or missing weights,
    negative cutoffs, an unknown parameter name, a reference magnitude
    without b-value, results asked for before the calculation"""
    run("values", case, ctx)


# ----------------------------------------------------- completeness tables
def table(d):
    import numpy as np
    lo = gen.grid_value(d.c["mc"], d.dm, -d.dm / 2)
    step = gen.grid_value(d.j, d.dm)
    return np.array([[lo, 2000], [lo + step, 1950], [lo + 3 * step, 1900]])


def tabfn(d, **over):
    from seismostats.analysis import (estimate_b_kijko_smit,
                                      estimate_b_weichert)
    import numpy as np
    years = (np.datetime64("2001-01-01")
             + (np.array(d.c["gap"]) % 18).astype("timedelta64[Y]").astype(
                 "timedelta64[D]"))
    kw = {"magnitudes": d.m, "times": years, "completeness_table": table(d),
          "delta_m": d.dm, "last_year": 2020, "b_parameter": "beta"}
    f = estimate_b_kijko_smit
    if d.i % 2:
        f = estimate_b_weichert
        kw["mag_max"] = gen.grid_value(max(d.c["k"]) + 1, d.dm, d.dm / 2)
    kw.update(over)
    return lambda: f(**kw)


@how("tables")
def t_length(d):
    import numpy as np
    t = np.array(["2010-05-01"] * (d.n + (1 if d.j % 2 else -1)),
                 dtype="datetime64[D]")
    return tabfn(d), tabfn(d, times=t)


@how("tables")
def t_columns(d):
    import numpy as np
    c = table(d)
    bad = [c[:, :1], np.column_stack([c, c[:, :1]])][d.j % 2]
    return tabfn(d), tabfn(d, completeness_table=bad)


@how("tables")
def t_order(d):
    c = table(d)
    bad = [c[::-1], c[[0, 2, 1]], c[[1, 0, 2]]][d.j % 3]
    return tabfn(d), tabfn(d, completeness_table=bad)


@how("tables")
def t_width(d):
    return tabfn(d), tabfn(d, delta_m=[0, -d.dm, 0.0][d.j % 3])


@how("tables")
def t_parameter(d):
    return (tabfn(d, b_parameter="b_value"),
            tabfn(d, b_parameter=["b", "", "BETA", None][d.j % 4]))


@PROP.facet(case_of("tables"), quick=300)
def tables(case, ctx):
    """b-values for several periods: times that do not belong to the
    magnitudes, tables with the wrong columns or in descending order, bins
    without width, unknown parameter names"""
    run("tables", case, ctx)


# ------------------------------------------------------------- significance
@how("series")
def morans_few(d):
    from seismostats.analysis.b_significant import est_morans_i
    return (lambda: est_morans_i(d.lst(d.m)),
            lambda: est_morans_i(d.lst(d.m[:d.i % 2])))


def neighbours(d):
    import numpy as np
    r = np.random.default_rng(d.c["seed"])
    w = np.triu((r.random((d.n, d.n)) < 0.4).astype(float), 1)
    w[0, 1] = 1
    return [w, w.T.copy(), w + w.T][d.j % 3]


@how("series")
def morans_square(d):
    from seismostats.analysis.b_significant import est_morans_i
    w = neighbours(d)
    bad = w[:-1] if d.i % 2 else w[:, :-1]
    return (lambda: est_morans_i(d.m, w), lambda: est_morans_i(d.m, bad))


@how("series")
def morans_values(d):
    from seismostats.analysis.b_significant import est_morans_i
    w = neighbours(d)
    bad = w.copy()
    i, j = [int(v[d.i % len(v)]) for v in bad.nonzero()]
    bad[i, j] = [2, -1, 0.5, 3, 1.5][d.j - 1]
    if d.j % 3 == 2:
        bad[j, i] = bad[i, j]
    return (lambda: est_morans_i(d.m, w), lambda: est_morans_i(d.m, bad))


@how("series")
def morans_direction(d):
    from seismostats.analysis.b_significant import est_morans_i
    w = neighbours(d)
    bad = w.copy()
    # a single pair known in one direction only, another in the other
    bad[:] = 0
    bad[0, 1] = bad[d.n - 1, d.n - 2 if d.i % 2 else 0] = 1
    return (lambda: est_morans_i(d.m, w), lambda: est_morans_i(d.m, bad))


@how("series")
def transform_counts(d):
    import numpy as np
    from seismostats.analysis.b_significant import transform_n
    b = 0.5 + d.u
    n1 = 50 + d.i
    if d.c["list"]:
        n1s, n2s = np.array([n1, n1, n1]), np.array([n1, n1 + d.j, n1])
        bad = n2s.copy()
        bad[d.j % 3] -= d.j % 2 + (2 if d.j % 3 == 1 else 1) + d.j
        bs = np.array([b, b, b])
        return (lambda: transform_n(bs, 1.0, n1s, n2s),
                lambda: transform_n(bs, 1.0, n1s, bad))
    return (lambda: transform_n(b, 1.0, n1, n1 + (d.j - 1)),
            lambda: transform_n(b, 1.0, n1, n1 - d.j))


@how("series")
def window_offset(d):
    from seismostats.analysis.b_significant import cut_constant_idx
    n = 1 + d.i % 10
    return (lambda: cut_constant_idx(d.lst(d.m), n, n - 1),
            lambda: cut_constant_idx(d.lst(d.m), n, n - 1 + d.j))


def parts(d):
    import numpy as np
    k = d.n // 2
    return ([d.m[:k], d.m[k:]], [d.t[:k], d.t[k:]],
            [d.mc, d.mc] if d.c["list"] else np.array([d.mc, d.mc]))


@how("series")
def partition_times(d):
    from seismostats.analysis.b_significant import values_from_partitioning
    m, t, mc = parts(d)
    bad = [t[:1], t + [d.t]][d.j % 2]
    return (lambda: values_from_partitioning(m, t, mc, d.dm),
            lambda: values_from_partitioning(m, bad, mc, d.dm))


@how("series")
def partition_mc(d):
    import numpy as np
    from seismostats.analysis.b_significant import values_from_partitioning
    m, t, mc = parts(d)
    bad = [mc[:1], np.append(mc, d.mc), []][d.j % 3]
    return (lambda: values_from_partitioning(m, t, d.mc, d.dm),
            lambda: values_from_partitioning(m, t, bad, d.dm))


def one_d(d, **over):
    import numpy as np
    from seismostats.analysis import b_significant_1D
    m, t, n = np.tile(d.m, 4), np.arange(d.n * 4.0), d.n * 4
    kw = {"magnitudes": d.lst(m), "mc": d.mc, "delta_m": d.dm, "times": t,
          "n_m": 4, "min_num": 2, "x_variable": d.lst(t[::-1])}
    kw.update({k: v(n) for k, v in over.items()})
    return lambda: b_significant_1D(**kw)


@how("series")
def one_d_times(d):
    import numpy as np
    return (one_d(d), one_d(d, times=lambda n: np.arange(
        n + (d.j if d.i % 2 else -1))))


@how("series")
def one_d_minimum(d):
    return (one_d(d, min_num=lambda n: 4),
            one_d(d, min_num=lambda n: 4 + d.j))


@how("series")
def one_d_variable(d):
    import numpy as np
    return (one_d(d), one_d(d, x_variable=lambda n: np.arange(
        n + (d.j if d.i % 2 else -1))))


@PROP.facet(case_of("series", 12), quick=500)
def series(case, ctx):
    """b-values along a coordinate: neighbour matrices that are not square,
    not zeros and ones or not symmetric or triangular, fewer than two values,
    more events before than after a transformation, offsets beyond the
    window, lists of different length, a minimum above the window size"""
    run("series", case, ctx)


# ----------------------------------------------------- completeness magnitude
@how("completeness")
def ks_off_grid(d):
    from seismostats.analysis import estimate_mc_ks
    return (lambda: estimate_mc_ks(d.m, d.dm, mcs_test=[d.mc], n=10),
            lambda: estimate_mc_ks(off_grid(d), d.dm, mcs_test=[d.mc], n=10))


@how("completeness")
def stability_off_grid(d):
    from seismostats.analysis import estimate_mc_b_stability
    r = d.dm * 1.5
    m = _long(d)
    bad = m.copy()
    bad[d.i] += d.dm * (0.2 + 0.6 * d.u)
    return (lambda: estimate_mc_b_stability(m, d.dm, stability_range=r),
            lambda: estimate_mc_b_stability(bad, d.dm, stability_range=r))


def _long(d):
    """every bin of a longer range has an event"""
    import numpy as np
    k = list(d.c["k"]) + list(range(d.c["mc"], d.c["mc"] + 12))
    return np.array([gen.grid_value(v, d.dm) for v in k])


@how("completeness")
def stability_range(d):
    import numpy as np
    from seismostats.analysis import estimate_mc_b_stability
    m = _long(d)
    top = float(np.max(m))
    full = top - float(np.min(m))
    mcs = [float(np.min(m)) + gen.grid_value(k, d.dm) for k in range(2)]
    over = full + d.dm * (1 + d.j)
    if d.c["list"]:
        return (lambda: estimate_mc_b_stability(
                    m, d.dm, mcs_test=mcs, stability_range=3 * d.dm),
                lambda: estimate_mc_b_stability(
                    m, d.dm, mcs_test=mcs, stability_range=over))
    return (lambda: estimate_mc_b_stability(m, d.dm,
                                            stability_range=3 * d.dm),
            lambda: estimate_mc_b_stability(m, d.dm, stability_range=over))


@how("completeness")
def lilliefors_below(d):
    import numpy as np
    from seismostats.analysis import lilliefors as mod
    r = np.random.default_rng(d.c["seed"])
    y = d.mc + r.exponential(0.4, d.n)
    bad = y.copy()
    bad[d.i] = d.mc - d.u
    return (lambda: mod.ks_test_gr_lilliefors(y, d.mc),
            lambda: mod.ks_test_gr_lilliefors(bad, d.mc))


@PROP.facet(case_of("completeness", 8), quick=250)
def completeness(case, ctx):
    """completeness estimates: magnitudes off the grid, a stability range
    beyond the magnitudes, magnitudes below the completeness"""
    run("completeness", case, ctx)


# ------------------------------------------------------------------- binning
@how("bins")
def no_values(d):
    from seismostats.utils import bin_to_precision
    return (lambda: bin_to_precision(d.lst(d.m), d.dm),
            lambda: bin_to_precision(None, d.dm))


@how("bins")
def width(d):
    from seismostats.utils import bin_to_precision
    return (lambda: bin_to_precision(d.lst(d.m), d.dm),
            lambda: bin_to_precision(d.lst(d.m), -(d.j - 1) * d.dm))


@how("bins")
def empty_test(d):
    import numpy as np
    from seismostats.utils import binning_test
    return (lambda: binning_test(d.lst(d.m), d.dm),
            lambda: binning_test(d.lst(np.array([])), d.dm))


@how("bins")
def fmd_width(d):
    from seismostats.utils import get_cum_fmd, get_fmd
    # the cumulative count without width keeps the single magnitudes
    f, k = (get_fmd, d.j - 1) if d.i % 2 else (get_cum_fmd, d.j)
    return (lambda: f(d.lst(d.m), d.dm), lambda: f(d.lst(d.m), -k * d.dm))


@how("bins")
def fmd_position(d):
    from seismostats.utils import get_cum_fmd, get_fmd
    f = get_fmd if d.i % 2 else get_cum_fmd
    return (lambda: f(d.lst(d.m), d.dm,
                      bin_position=["left", "center"][d.j % 2]),
            lambda: f(d.lst(d.m), d.dm,
                      bin_position=["right", "Left", "", None][d.j % 4]))


@how("bins")
def simulate_parameter(d):
    from seismostats.utils import simulate_magnitudes_binned as sim
    return (lambda: sim(d.n, 1, d.mc, d.dm,
                        b_parameter=["beta", "b_value"][d.j % 2]),
            lambda: sim(d.n, 1, d.mc, d.dm,
                        b_parameter=["b", "Beta", "", None][d.j % 4]))


@how("bins")
def dither_off_grid(d):
    from seismostats.utils.simulate_distributions import dither_magnitudes
    return (lambda: dither_magnitudes(d.m, d.dm, 1.0),
            lambda: dither_magnitudes(off_grid(d), d.dm, 1.0))


@how("bins")
def option(d):
    from seismostats.utils import get_option, set_option

    def valid():
        set_option("warnings", d.c["list"])
        assert get_option("warnings") is d.c["list"]
        set_option("warnings", True)

    bad = ["warning", "Warnings", "", "seed"][d.j % 4]

    def spoilt():
        if d.i % 2:
            return get_option(bad)
        set_option(bad, True)
    return valid, spoilt


@PROP.facet(case_of("bins"), quick=300)
def bins(case, ctx):
    """binning and simulation: nothing to bin, widths that are not positive,
    unknown positions, parameters and options, magnitudes off the grid"""
    run("bins", case, ctx)


# ------------------------------------------------------ catalogues and plots
def cat(d, **kw):
    import pandas as pd
    from seismostats import Catalog
    return Catalog(pd.DataFrame({
        "magnitude": d.m, "time": pd.to_datetime(d.dt),
        "longitude": d.w + 7, "latitude": d.w + 46, "depth": d.w}), **kw)


def on_cat(d, name, need, **kw):
    """the method with the attributes it needs, and without one of them"""
    import numpy as np
    import pandas as pd
    val = {"mc": d.mc, "delta_m": d.dm}
    lost = need[d.i % len(need)]
    empty = [{}, {lost: None}, {lost: np.nan}][d.j % 3] \
        if name not in ("estimate_mc_ks",) else {}
    rest = {k: val[k] for k in need if k != lost}
    if d.c["list"]:     # given with the call
        return (lambda: getattr(cat(d), name)(**{k: val[k] for k in need},
                                              **kw),
                lambda: getattr(cat(d), name)(**rest, **kw))
    del pd
    if empty and empty[lost] is not None:
        empty = {}
    return (lambda: getattr(cat(d, **{k: val[k] for k in need}), name)(**kw),
            lambda: getattr(cat(d, **rest, **empty), name)(**kw))


@how("catalogues")
def cat_b(d):
    return on_cat(d, "estimate_b", ["mc", "delta_m"])


@how("catalogues")
def cat_a(d):
    return on_cat(d, "estimate_a", ["mc", "delta_m"])


@how("catalogues")
def cat_bin(d):
    return on_cat(d, "bin_magnitudes", ["delta_m"])


@how("catalogues")
def cat_ks(d):
    return on_cat(d, "estimate_mc_ks", ["delta_m"], mcs_test=[d.mc], n=10)


@how("catalogues")
def cat_stability(d):
    import numpy as np
    r = min(d.dm * 1.5, float(np.ptp(d.m)) * 0.9)
    return on_cat(d, "estimate_mc_b_stability", ["delta_m"],
                  mcs_test=[d.mc], stability_range=r)


def grid(d, **kw):
    import pandas as pd
    from seismostats import GRRateGrid
    b = {f"{x}_{e}": [float(i + (e == "max")) for i in range(2)]
         for x in ("longitude", "latitude", "depth") for e in ("min", "max")}
    return GRRateGrid(pd.DataFrame(
        {**b, "a": [1.0, 2.0], "b": [1.0, 1.0], "alpha": [0.0, 0.0],
         "mc": [0.0, 0.0]}), **kw)


@how("catalogues")
def grid_times(d):
    import pandas as pd
    t = {"starttime": pd.Timestamp("2020-01-01"),
         "endtime": pd.Timestamp("2020-01-02")}
    bad = [{"starttime": t["starttime"]}, {"endtime": t["endtime"]},
           {}][d.j % 3]
    return (lambda: grid(d, **t).add_time_index(),
            lambda: grid(d, **bad).add_time_index())


@how("catalogues")
def gk_columns(d):
    import seismostats.analysis.declustering as dec
    import pandas as pd
    lose = ["time", "magnitude", "longitude", "latitude"][d.j % 4]
    full = pd.DataFrame(cat(d))
    g = dec.GardnerKnopoffType1(dec.GardnerKnopoffWindow())
    return (lambda: g(full), lambda: g(full.drop(columns=lose)))


@PROP.facet(case_of("catalogues"), quick=300)
def catalogues(case, ctx):
    """catalogues and grids: no completeness or bin width, no times, no
    columns to decluster with"""
    run("catalogues", case, ctx)


@how("figures")
def series_minimum(d):
    from seismostats.plots import plot_b_series_constant_nm as f
    a = (d.m, d.dm, d.mc, d.dt)
    return (lambda: f(*a, n_m=4, min_num=2),
            lambda: f(*a, n_m=4, min_num=4 + d.j))


@how("figures")
def series_times(d):
    import numpy as np
    from seismostats.plots import plot_b_series_constant_nm as f
    bad = d.dt[:-1] if d.i % 2 else np.append(d.dt, d.dt[-1:])
    return (lambda: f(d.m, d.dm, d.mc, d.dt, n_m=4, min_num=2),
            lambda: f(d.m, d.dm, d.mc, bad, n_m=4, min_num=2))


@how("figures")
def series_variable(d):
    import numpy as np
    from seismostats.plots import plot_b_series_constant_nm as f
    x = np.arange(d.n + (d.j if d.i % 2 else -1))
    a = (d.m, d.dm, d.mc, d.dt)
    return (lambda: f(*a, n_m=4, min_num=2, x_variable=np.arange(d.n)),
            lambda: f(*a, n_m=4, min_num=2, x_variable=x))


@how("figures")
def series_technique(d):
    from seismostats.plots import plot_b_series_constant_nm as f
    a = (d.m, d.dm, d.mc, d.dt)
    return (lambda: f(*a, n_m=4, min_num=2, plot_technique=[
                "left", "midpoint", "right"][d.j % 3]),
            lambda: f(*a, n_m=4, min_num=2, plot_technique=[
                "centre", "Left", "", None][d.j % 4]))


@how("figures")
def significance_variable(d):
    import numpy as np
    from seismostats.plots import plot_b_significant_1D as f
    m, n = np.tile(d.m, 4), d.n * 4
    kw = {"delta_m": d.dm, "mc": d.mc, "times": np.arange(float(n)),
          "n_ms": np.array([4]), "min_num": 2}
    x = np.arange(n + (d.j if d.i % 2 else -1))
    return (lambda: f(m, x_variable=np.arange(n), **kw),
            lambda: f(m, x_variable=x, **kw))


@how("figures")
def significance_few(d):
    import numpy as np
    from seismostats.plots import plot_b_significant_1D as f
    m, t = np.tile(d.m, 4), np.arange(d.n * 4.0)
    few = 15 * d.j
    return (lambda: f(m, delta_m=d.dm, mc=d.mc, times=t,
                      n_ms=np.array([4]), min_num=2),
            lambda: f(m[:few], delta_m=d.dm, mc=d.mc, times=t[:few],
                      min_num=d.j))


@how("figures")
def count_colors(d):
    from seismostats.plots import plot_cum_count as f
    mcs = [d.mc, d.mc + d.dm]
    bad = [["r"], ["r", "g", "b"]][d.j % 2]
    return (lambda: f(d.dt, d.m, mcs=mcs, delta_m=d.dm, color=["r", "g"]),
            lambda: f(d.dt, d.m, mcs=mcs, delta_m=d.dm, color=bad))


@how("figures")
def dot_power(d):
    from seismostats.plots.basics import reverse_dot_size as f
    return (lambda: f(d.m, d.mc, d.mc + 1, d.j),
            lambda: f(d.m, d.mc, d.mc + 1, 0))


@PROP.facet(case_of("figures", 12), quick=200)
def figures(case, ctx):
    """figures: windows below the minimum, variables of another length,
    unknown techniques, too few events, colours that do not match, a power
    of zero"""
    run("figures", case, ctx)


assert math
