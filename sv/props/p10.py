"""P10  Synthetic magnitudes and dithering."""
import math

from hypothesis import strategies as st

from .. import gen
from ..core import Property

PROP = Property(
    "P10",
    "A case is (number of events, b-value(s), completeness, bin width, "
    "maximum magnitude) or a binned magnitude sample to dither. Non-trivial: "
    "at least 50 events are drawn, or at least two occupied bins are "
    "dithered.",
    ["distributional claims are judged with a Kolmogorov-Smirnov distance "
     "whose false-alarm probability is below 1e-7 per case; magnitudes "
     "between -5 and 9, b-values 0.3 to 2.5"])


def _phi(x, beta, lo, hi):
    """CDF of the (truncated) exponential."""
    p = -math.expm1(-beta * (x - lo))
    if hi is not None:
        p /= -math.expm1(-beta * (hi - lo))
    return min(max(p, 0.0), 1.0)


@st.composite
def _sim(draw):
    b = draw(gen.f(0.3, 2.5))
    mc = draw(st.one_of(st.sampled_from([0, -1, 1.0, 3.5]), gen.f(-5, 8)))
    dx = draw(st.sampled_from([0, 0, 0.1, 0.1, 0.01, 0.2, 0.5, 1.0]))
    mm = draw(st.one_of(st.none(), st.none(), gen.f(0.05, 4.0),
                        st.just("zero")))
    if dx:
        mc = gen.grid_value(round(mc / dx), dx)
    if mm == "zero":
        mc, mm = -abs(mc) - 0.5, 0.0
        if dx:
            mc = gen.grid_value(round(mc / dx) - 1, dx)
    elif mm is not None:
        mm = mc + mm
    return {"n": draw(st.sampled_from([0, 1, 2, 20, 300, 2000])), "b": b,
            "mc": mc, "dx": dx, "max": mm,
            "param": draw(st.sampled_from(["b_value", "beta"])),
            "npseed": draw(st.integers(0, 2**31 - 1))}


def _ks(x, lo, hi, beta, what):
    """distance between sample and truncated exponential"""
    import numpy as np
    x = np.sort(np.asarray(x, float))
    n = len(x)
    F = np.array([_phi(v, beta, lo, hi) for v in x])
    up = np.max(np.arange(1, n + 1) / n - F)
    dn = np.max(F - np.arange(n) / n)
    d = max(up, dn) * math.sqrt(n)
    # P(d > 3) = 2 exp(-18) ~ 3e-8
    assert d < 3.0, f"{what}: KS distance * sqrt(n) = {d} (n={n})"


@PROP.facet(_sim, quick=700, shards=2)
def simulate(case, ctx):
    """simulated magnitudes: n values, none below the completeness (minus
    half a bin) or above the maximum, and distributed as the (truncated)
    exponential with the given b-value; binned ones lie on the grid, with the
    bin probabilities of that exponential"""
    import numpy as np
    from seismostats.utils import (simulate_magnitudes,
                                   simulate_magnitudes_binned)
    n, mc, dx, mm = case["n"], case["mc"], case["dx"], case["max"]
    beta = case["b"] * math.log(10)
    np.random.seed(case["npseed"])
    x = np.asarray(simulate_magnitudes(n, beta, mc, mm))
    assert x.shape == (n,), x.shape
    eps = 1e-6
    assert np.all(np.isfinite(x))
    assert np.all(x >= mc - eps), (x.min(), mc)
    if mm is not None:
        assert np.all(x <= mm + eps), (x.max(), mm)
        ctx.label("truncated")
    if n >= 20:
        _ks(x, mc, mm, beta, "continuous")
    b = case["b"] if case["param"] == "b_value" else beta
    y = np.asarray(simulate_magnitudes_binned(
        n, b, mc, dx, mm, b_parameter=case["param"]))
    assert y.shape == (n,), y.shape
    if n == 0:
        return
    lo = mc - dx / 2
    assert np.all(y >= lo - eps)
    if dx > 0:
        assert np.all(np.round(y / dx) * dx >= mc - eps), "below mc"
        assert np.max(np.abs(y / dx - np.round(y / dx))) < 1e-6, "off grid"
        if mm is not None:
            assert np.all(y <= mm + dx / 2 + eps)
        if n >= 20:
            # compare the CDF at the upper edges of the bins
            k = np.round(y / dx)
            d = 0.0
            for v in np.unique(k):
                edge = (v + 0.5) * dx
                if mm is not None:
                    edge = min(edge, mm)
                d = max(d, abs(np.mean(k <= v)
                               - _phi(edge, beta, lo, mm)))
                edge = (v - 0.5) * dx
                d = max(d, abs(np.mean(k < v)
                               - _phi(max(edge, lo), beta, lo, mm)))
            assert d * math.sqrt(n) < 3, f"binned: {d * math.sqrt(n)}"
    else:
        if mm is not None:
            assert np.all(y <= mm + eps)
        if n >= 20:
            _ks(y, lo, mm, beta, "dx=0")
    ctx.nt(n >= 50)


@st.composite
def _sim_arr(draw):
    bs = draw(st.lists(gen.f(0.3, 2.5), min_size=1, max_size=4))
    return {"bs": bs, "n": draw(st.sampled_from([1, 50, 400])),
            "mc": draw(st.sampled_from([0, 1, 2.5, -0.5])),
            "dx": draw(st.sampled_from([0, 0.1, 0.5])),
            "param": draw(st.sampled_from(["b_value", "beta"])),
            "max": draw(st.one_of(st.none(), st.sampled_from([1.0, 3.0]))),
            "npseed": draw(st.integers(0, 2**31 - 1))}


@PROP.facet(_sim_arr, quick=200)
def one_b_per_event(case, ctx):
    """with an array of b-values, each magnitude follows its own b-value"""
    import numpy as np
    from seismostats.utils import simulate_magnitudes_binned
    f = 1.0 if case["param"] == "b_value" else math.log(10)
    arr = np.repeat([b * f for b in case["bs"]], case["n"])
    np.random.seed(case["npseed"])
    dx = case["dx"]
    lo = case["mc"] - dx / 2
    mm = None if case["max"] is None else case["mc"] + case["max"]
    y = np.asarray(simulate_magnitudes_binned(
        len(arr), arr, case["mc"], dx, mm, b_parameter=case["param"]))
    assert y.shape == arr.shape
    for i, b in enumerate(case["bs"]):
        part = y[i * case["n"]:(i + 1) * case["n"]]
        beta = b * math.log(10)
        if case["n"] < 20:
            continue
        if dx == 0:
            _ks(part, lo, mm, beta, f"b={b}")
        else:
            for t in np.unique(np.round(part / dx)):
                e = (t + 0.5) * dx
                e = e if mm is None else min(e, mm)
                d = abs(np.mean(np.round(part / dx) <= t)
                        - _phi(e, beta, lo, mm))
                assert d * math.sqrt(case["n"]) < 3, (b, t, d)
    ctx.nt(len(set(case["bs"])) > 1 and case["n"] >= 50)


@st.composite
def _dith(draw):
    b = draw(gen.binned_mags(max_size=60, max_bins=12))
    rep = draw(st.sampled_from([1, 1, 1, 30]))
    dx = b["dx"]
    # bin centres need not be multiples of the bin width
    off = draw(st.sampled_from([0, 0, "0.5", "0.25"]))
    return {**b, "rep": rep, "off": off, "b": draw(gen.f(0.4, 2.0)),
            "extra": draw(st.integers(0, 9)),
            "npseed": draw(st.integers(0, 2**31 - 1)), "dx": dx}


@PROP.facet(_dith, quick=600)
def dither(case, ctx):
    """dithering moves no event out of its bin: the bins hold exactly as many
    events as before, and inside a bin the magnitudes follow the exponential;
    input that is not binned is refused"""
    from fractions import Fraction as Fr
    import numpy as np
    from seismostats.utils.simulate_distributions import dither_magnitudes
    D = Fr(str(case["dx"]))
    o = D * Fr(case["off"]) if case["off"] else Fr(0)
    ks = [k for k in case["ks"]] * case["rep"]
    mags = [float(D * (case["k0"] + k) + o) for k in ks]
    x = np.array(mags)
    keep = x.copy()
    np.random.seed(case["npseed"])
    y = np.asarray(dither_magnitudes(x, float(D), case["b"]))
    assert np.array_equal(x, keep), "input changed"
    assert y.shape == x.shape, (y.shape, x.shape)
    assert np.all(np.isfinite(y))
    pos = [(Fr(float(v)) - o) / D - case["k0"] for v in y]
    want = {}
    for k in ks:
        want[k] = want.get(k, 0) + 1
    got, left = {}, dict(want)
    frac = {}
    for q in pos:
        k = math.floor(q + Fr(1, 2))
        # values on an edge (to rounding) may count for either bin
        d = abs((q + Fr(1, 2)) - round(q + Fr(1, 2)))
        if d < Fr(1, 10**4) and left.get(k, 0) == 0:
            k2 = round(q + Fr(1, 2)) - (1 if k == round(q + Fr(1, 2)) else 0)
            if left.get(k2, 0) > 0:
                k = k2
        got[k] = got.get(k, 0) + 1
        left[k] = left.get(k, 0) - 1
        frac.setdefault(k, []).append(float(q - k))
    assert got == want, f"events per bin changed: {want} -> {got}"
    beta = case["b"] * math.log(10) * float(D)
    for k, v in frac.items():
        if len(v) >= 20:
            _ks(v, -0.5, 0.5, beta, f"inside bin {k}")
    ctx.nt(len(want) > 1)
    if case["off"]:
        ctx.label("offset bins")
