"""P27  Suspicious requests are warned about, ordinary ones are not."""
from hypothesis import strategies as st

from .. import gen
from ..core import Property

PROP = Property(
    "P27",
    "A case is a request for which at most a few of the documented reasons "
    "for a warning hold; which of them hold is computed from the data. "
    "Non-trivial: a reason holds, or the request is at the limit of one.",
    ["whether there is a warning is judged, not its wording",
     "warnings of other packages and numerical ones are not counted"])


def warned(f):
    """(result, whether the package has warned)"""
    import os
    import warnings as wn

    import matplotlib.pyplot as plt
    with wn.catch_warnings(record=True) as rec:
        wn.simplefilter("always")
        try:
            r = f()
        finally:
            plt.close("all")
    mine = [str(w.message) for w in rec if w.category is UserWarning
            and f"{os.sep}matplotlib{os.sep}" not in (w.filename or "")]
    return r, mine


def judge(ctx, what, f, reasons):
    """reasons: name -> holds"""
    r, mine = warned(f)
    hold = [k for k, v in reasons.items() if v]
    if hold:
        assert mine, f"{what}: no warning though {' and '.join(hold)}"
    else:
        assert not mine, f"{what}: warned without reason: {mine[0]}"
    for k in hold or ["nothing"]:
        ctx.label(f"{what}: {k}")
    return r


DM = [0.1, 0.2, 0.5, 0.01, 0.05, 0.25, 1.0]


@st.composite
def _mags(draw):
    dm = draw(st.sampled_from(DM))
    n = draw(st.integers(0, 25))
    few = draw(st.sampled_from([1, 3, 10]))
    return {"dm": dm, "k0": draw(st.integers(-20, 40)),
            "k": draw(st.lists(st.integers(-2, few), min_size=n,
                               max_size=n)),
            "low": draw(st.sampled_from([0, 0, 0, 1, 1, 2, 5, -12])),
            "gap": draw(st.lists(st.integers(1, 9), min_size=n, max_size=n)),
            "dmc": draw(st.one_of(st.none(), st.sampled_from(
                [0, 0.5, 0.9, 1, 1, 1.1, 2, 3]))),
            "which": draw(st.integers(0, 99)),
            "weights": draw(st.booleans()),
            "b": draw(st.booleans())}


@PROP.facet(_mags, quick=900, shards=2)
def estimators(case, ctx):
    """b- and a-value estimators warn when no event is complete, when the
    lowest complete bin is empty, when the magnitude difference is below the
    bin width, and when there are too few events for an a-value; not
    otherwise"""
    import numpy as np
    from seismostats import analysis as an
    names = ["ClassicBValueEstimator", "UtsuBValueEstimator",
             "BPositiveBValueEstimator", "BMorePositiveBValueEstimator",
             "ClassicAValueEstimator", "APositiveAValueEstimator",
             "AMorePositiveAValueEstimator"]
    name = names[case["which"] % len(names)]
    dm = case["dm"]
    m = np.array([gen.grid_value(case["k0"] + case["low"] + k, dm)
                  for k in case["k"]])
    mc = gen.grid_value(case["k0"], dm)
    k = [case["low"] + v for v in case["k"]]
    below = bool(k) and min(k) < 0
    k = [v for v in k if v >= 0]
    if below and k and min(k) > 0:
        ctx.discard("lowest bin empty, but events below mc")
    reasons = {"no event above mc": not k,
               "lowest bin empty": bool(k) and min(k) > 0}
    kw = {"magnitudes": m, "mc": mc, "delta_m": dm}
    t = np.cumsum(np.array(case["gap"], dtype=float))
    if "Positive" in name:
        step = 1 if case["dmc"] is None else case["dmc"]
        if case["dmc"] is not None:
            kw["dmc"] = dm * step
            reasons["dmc below delta_m"] = dm * step < dm
        if "AValue" in name:
            kw["times"] = t
            if name == "APositiveAValueEstimator":
                ok = any(b - a >= step - 0.5 for a, b in zip(k, k[1:]))
            else:
                ok = any(v - u >= step - 0.5
                         for i, u in enumerate(k) for v in k[i + 1:])
            if (step * 2) % 2 == 1:
                ctx.discard("difference on a rounding limit")
            reasons["no pair of events"] = bool(k) and not ok
    if "AValue" in name:
        if name != "ClassicAValueEstimator" or not case["b"]:
            kw["b_value"] = 1.0
        if name == "AMorePositiveAValueEstimator" and not k:
            reasons["no pair of events"] = True
    elif case["weights"]:
        kw["weights"] = np.ones(len(m))
    e = getattr(an, name)()
    judge(ctx, name, lambda: e.calculate(**kw), reasons)
    ctx.nt(any(reasons.values()) or case["dmc"] == 1)


@st.composite
def _table(draw):
    n = draw(st.integers(3, 25))
    return {"k0": draw(st.integers(5, 40)), "dm": 0.1,
            "k": draw(st.lists(st.integers(0, 12), min_size=n, max_size=n)),
            "below": draw(st.sampled_from([0, 0, 1, 1, 3])),
            "at": draw(st.integers(0, 99)),
            "rows": draw(st.sampled_from([1, 2, 3])),
            "year": draw(st.lists(st.integers(1961, 2019), min_size=n,
                                  max_size=n)),
            "w": draw(st.integers(0, 9))}


@PROP.facet(_table, quick=160, shards=2)
def below_the_table(case, ctx):
    """methods for unequal completeness warn when there are magnitudes below
    the completeness table, and only then"""
    import numpy as np
    from seismostats.analysis import (estimate_b_kijko_smit,
                                      estimate_b_weichert)
    k = [v + (i == 0) * 0 for i, v in enumerate(case["k"])]
    k += [0, 1, 2]
    years = case["year"] + [2005, 2006, 2007]
    if case["below"]:
        k[case["at"] % len(case["k"])] = -case["below"]
    m = np.array([gen.grid_value(case["k0"] + v, 0.1) for v in k])
    lo = gen.grid_value(case["k0"], 0.1, -0.05)
    table = np.array([[lo + 0.3 * r, 2000 - 20 * r]
                      for r in range(case["rows"])])
    times = np.array([f"{y}-06-01" for y in years], dtype="datetime64[s]")
    kw = dict(magnitudes=m, times=times, completeness_table=table,
              last_year=2020, delta_m=0.1)
    if case["w"] < 3:
        f, name = (lambda: estimate_b_weichert(mag_max=gen.grid_value(
            case["k0"] + max(k) + 2, 0.1, 0.05), **kw)), "weichert"
    else:
        f, name = (lambda: estimate_b_kijko_smit(**kw)), "kijko_smit"
    judge(ctx, name, f, {"magnitudes below the table": bool(case["below"])})
    ctx.nt(True)


@st.composite
def _comp(draw):
    return {"dm": draw(st.sampled_from([0.1, 0.2, 0.05])),
            "k0": draw(st.integers(-10, 30)),
            "n": draw(st.sampled_from([28, 29, 30, 30, 31, 32, 45])),
            "below": draw(st.integers(0, 8)),
            "off": draw(st.sampled_from([0, 0, 0, 0.3])),
            "bad": draw(st.sampled_from([0, 0, 0, 0.3])),
            "single": draw(st.sampled_from([0, 0, 0, 1])),
            "b": draw(st.booleans()), "given": draw(st.booleans()),
            "drop": draw(st.sampled_from([0, 0, 1, 2])),
            "empty": draw(st.sampled_from([0, 0, 0, 1])),
            "seed": draw(st.integers(0, 2**31 - 1))}


@PROP.facet(_comp, quick=400, shards=2)
def completeness(case, ctx):
    """the completeness methods warn when magnitudes or tested values are not
    binned, when fewer than 30 events are above a tested value, and when a
    sample is empty, has a single value or values below the completeness"""
    import numpy as np
    from seismostats.analysis import (estimate_mc_b_stability,
                                      estimate_mc_ks)
    dm = case["dm"]
    rng = np.random.default_rng(case["seed"])
    steps = len(np.arange(0, 0.5, dm))
    k = list(range(steps + 2))
    k += [int(v) for v in rng.integers(0, steps + 2, case["n"] - len(k))]
    k += [-1] * case["below"]
    rng.shuffle(k)
    mc = gen.grid_value(case["k0"], dm)
    m = np.array([gen.grid_value(case["k0"] + v, dm) for v in k])
    n = sum(v >= 0 for v in k)
    judge(ctx, "b_stability", lambda: estimate_mc_b_stability(
        m, dm, mcs_test=[mc], stability_range=steps * dm - dm / 2),
        {"fewer than 30 events": n < 30})

    from seismostats.analysis.estimate_mc import ks_test_gr
    if case["single"]:
        m = np.full(len(m), mc)
    if case["bad"]:
        m[-1] += case["bad"] * dm
    mcs = [mc] + [mc + (1 + case["off"]) * dm] * (not case["single"])
    np.random.seed(case["seed"])
    kw = {"b_value": 1.0} if case["b"] or case["bad"] else {}
    if case["given"]:
        kw["ks_ds_list"] = [np.array([0.1, 0.2])]
    if case["given"]:
        kw["ks_ds_list"] *= len(mcs)
    if not (case["off"] and case["single"]):
        judge(ctx, "ks", lambda: estimate_mc_ks(
            m, dm, mcs_test=mcs, n=3, **kw), {
                "magnitudes not binned": case["bad"],
                "tested value not binned": case["off"],
                "a single value": case["single"]})
    if case["bad"]:
        return
    if case["empty"]:
        m = m[:0]
    at = gen.grid_value(case["k0"] - 1 + case["drop"], dm)
    low = len(m) and min(case["k0"] + v for v in (
        [0] if case["single"] else k)) < case["k0"] - 1 + case["drop"]
    judge(ctx, "ks_test_gr", lambda: ks_test_gr(
        m, at, dm, 1.0, n=3, ks_ds=np.array([0.1, 0.2])), {
            "no sample": case["empty"], "values below mc": low,
            "a single value": case["single"] and not case["empty"]})
    ctx.nt(True)


@st.composite
def _series(draw):
    return {"n_m": draw(st.sampled_from([3, 4, 6, 10])),
            "windows": draw(st.sampled_from([2, 3, 5, 14, 15, 15, 16, 17])),
            "more": draw(st.sampled_from([-1, 0, 0, 1])),
            "below": draw(st.integers(0, 5)),
            "dm": draw(st.sampled_from([0.1, 0.2, 0.01])),
            "k0": draw(st.integers(-5, 30)),
            "other": draw(st.booleans()),
            "eye": draw(st.sampled_from([0, 0, 1, 2])),
            "at": draw(st.integers(0, 99))}


@PROP.facet(_series, quick=500, shards=2)
def variation(case, ctx):
    """the test for variation warns when there are fewer than 15 windows (or
    three), its plot when there are too few for a window size; Moran's I when
    the diagonal of the neighbour matrix is not zero"""
    import numpy as np
    from seismostats.analysis import b_significant_1D
    from seismostats.analysis.b_significant import est_morans_i
    from seismostats.plots import plot_b_significant_1D
    n_m, dm = case["n_m"], case["dm"]
    n = n_m * case["windows"] + case["more"]
    # every window has an event in the lowest bin
    k = [0 if i % 3 == 0 else 1 + i * 7 % 11 for i in range(n)]
    for _ in range(case["below"]):
        k.insert(case["at"] % n, -1)
    m = np.array([gen.grid_value(case["k0"] + v, dm) for v in k])
    mc = gen.grid_value(case["k0"], dm)
    t = np.arange(len(m)) * 1.0
    if case["other"] and n >= 15 * n_m:
        big = n // 15 + (case["at"] % 3)
        sizes = np.array([n_m, big])
        if big > n_m:
            m, t = m[m > mc - dm / 2], t[m > mc - dm / 2]
            judge(ctx, "plot", lambda: plot_b_significant_1D(
                m, mc, dm, t, n_ms=sizes), {
                    "a window size with fewer than 15 windows":
                    n / big < 15})
    else:
        judge(ctx, "b_significant_1D", lambda: b_significant_1D(
            m, mc, dm, t, n_m), {"fewer than 15 windows": n / n_m < 15})
    w = np.eye(n, k=1) if case["at"] % 2 else np.eye(n, k=-1)
    if case["at"] % 3 == 0:
        w = w + w.T
    for i in range(case["eye"]):
        w[(case["at"] + i) % n, (case["at"] + i) % n] = 1
    judge(ctx, "Moran's I", lambda: est_morans_i(
        np.sin(np.arange(n)), w), {"diagonal not zero": case["eye"]})
    ctx.nt(True)
