"""P08  b-values with unequal completeness periods."""
import math

from hypothesis import strategies as st

from .. import gen, ref
from ..core import Property

PROP = Property(
    "P08",
    "A case is a completeness table (1-4 rows), events on the bin centres "
    "over several centuries, a last year and a maximum magnitude. "
    "Non-trivial: at least three complete events in two or more bins, and at "
    "least one incomplete event or two table rows.",
    ["table magnitudes are bin edges in ascending order with strictly "
     "descending years (AD); events lie on bin centres below the maximum "
     "magnitude; the last year is later than every table year; likelihood "
     "roots are judged for |beta| < 25"])


@st.composite
def _case(draw):
    dm = draw(st.sampled_from([0.1, 0.1, 0.2, 0.5, 0.25]))
    rows = draw(st.integers(1, 4))
    k = draw(st.integers(0, int(4 / dm)))
    ks, ys = [], []
    y = draw(st.integers(1950, 1990))
    for _ in range(rows):
        ks.append(k)
        ys.append(y)
        k += draw(st.integers(1, max(2, int(1 / dm))))
        y -= draw(st.integers(1, 300))
    top = max(ks) + draw(st.integers(1, 12))
    lo, hi = ks[0] - 2, top - 1
    ev = st.tuples(
        st.one_of(st.integers(lo, hi), st.integers(ks[0], min(hi, ks[0] + 3)),
                  st.integers(ks[-1], hi)),
        st.one_of(st.integers(ys[-1] - 20, 2019), st.integers(1990, 2019),
                  st.sampled_from(ys), st.sampled_from(ys).map(
                      lambda v: v - 1)),
        st.integers(0, 364))
    evs = gen.stretched(draw, {"ev": draw(st.lists(
        ev, min_size=1, max_size=40))}, ("ev",))["ev"]
    return {"dm": dm, "tab": [ks, ys], "top": top, "ev": evs,
            "last": draw(st.sampled_from([None, 2020, 2021, 2020.5])),
            "kind": draw(st.sampled_from(["dt64", "datetime"])),
            "perm": gen.perm(draw, len(evs))}


def _build(case, order=None):
    import datetime as dt
    import numpy as np
    dm = case["dm"]

    def edge(k):
        return gen.grid_value(k, dm, 1.95)

    def centre(k):
        return round(edge(k) + dm / 2, 6)
    ev = case["ev"] if order is None else [case["ev"][i] for i in order]
    m = np.array([centre(k) for k, _, _ in ev])
    d = [dt.datetime(y, 1, 1) + dt.timedelta(days=o) for _, y, o in ev]
    d = [v if v.year == y else dt.datetime(y, 12, 31)
         for v, (_, y, _) in zip(d, ev)]
    if case["kind"] == "dt64":
        d = np.array(d, dtype="datetime64[D]")
    tab = np.array([[edge(k), y] for k, y in zip(*case["tab"])])
    return m, d, tab, edge, centre


@PROP.facet(_case, quick=700, shards=2)
def kijko_smit(case, ctx):
    """b, its error, the rate and the a-value equal the Kijko & Smit (2012)
    expressions over the events inside their completeness periods, as b or
    beta, for any event order; a period without events does not matter"""
    from seismostats.analysis import estimate_b_kijko_smit
    m, d, tab, edge, centre = _build(case)
    ks, ys = case["tab"]
    subs = [[] for _ in ks]
    for k, y, _ in case["ev"]:
        r = next((i for i, cy in enumerate(ys) if y >= cy), None)
        if r is not None and k >= ks[r]:
            subs[r].append(k)
    n = sum(len(s) for s in subs)
    last = case["last"] or max(y for _, y, _ in case["ev"])
    if n == 0:
        ctx.discard("no complete event")
    if last <= max(ys):
        ctx.discard("no observation time")
    inv = sum(sum(centre(k) - edge(ks[i]) for k in s)
              for i, s in enumerate(subs)) / n
    beta = 1 / inv
    den = sum((last - y) * math.exp(-beta * (edge(k) - edge(ks[0])))
              for k, y in zip(ks, ys))
    rate = n / den
    a = math.log10(rate) + beta / ref.LN10 * edge(ks[0])
    kw = {"completeness_table": tab, "last_year": case["last"],
          "delta_m": case["dm"]}
    got = estimate_b_kijko_smit(m, d, **kw)
    want = (beta / ref.LN10, beta / ref.LN10 / math.sqrt(n), rate, a)
    for name, g, w in zip(("b", "std", "rate", "a"), got, want):
        gen.same(g, w, name, rtol=1e-7)
    gb = estimate_b_kijko_smit(m, d, b_parameter="beta", **kw)
    gen.same(gb[:2], [beta, beta / math.sqrt(n)], "beta", rtol=1e-7)
    gen.same(gb[2:], want[2:], "rate and a with beta", rtol=1e-7)
    m2, d2, *_ = _build(case, case["perm"])
    gen.same(estimate_b_kijko_smit(m2, d2, **kw), want, "permuted",
             rtol=1e-7)
    ctx.label("empty period" if any(not s for s in subs) else "all periods")
    ctx.nt(n > 2 and len({k for s in subs for k in s}) > 1
           and (n < len(m) or len(ks) > 1))


@PROP.facet(_case, quick=320, shards=4)
def weichert(case, ctx):
    """beta solves the Weichert (1980) likelihood equation over all bins up
    to the maximum magnitude; error, rate, its error and the a-value follow
    from it"""
    import numpy as np
    from scipy.optimize import brentq
    from seismostats.analysis import estimate_b_weichert
    m, d, tab, edge, centre = _build(case)
    ks, ys = case["tab"]
    last = case["last"] or max(y for _, y, _ in case["ev"])
    if last <= max(ys):
        ctx.discard("no observation time")
    bins = list(range(ks[0], case["top"]))
    start = {k: ys[max(i for i, e in enumerate(ks) if e <= k)] for k in bins}
    cnt = dict.fromkeys(bins, 0)
    for k, y, _ in case["ev"]:
        if k in cnt and y >= start[k]:
            cnt[k] += 1
    n = np.array([cnt[k] for k in bins], float)
    if (n > 0).sum() < 2:
        ctx.discard("fewer than two occupied bins")
    c = np.array([centre(k) for k in bins])
    T = np.array([last - start[k] for k in bins], float)
    N = n.sum()

    c0 = c.mean()

    def f(be):
        e = T * np.exp(-be * (c - c0))
        return (e * c).sum() / e.sum() - (n * c).sum() / N
    if f(-25.0) * f(25.0) >= 0:
        ctx.discard("root outside the judged range")
    beta = brentq(f, -25.0, 25.0, xtol=1e-13)
    e = np.exp(-beta * (c - c0))
    mult = e.sum() / (T * e).sum()
    rate = N * mult
    a = math.log10(rate) + beta / ref.LN10 * edge(ks[0])
    s0, s1, s2 = (T * e).sum(), (T * c * e).sum(), (T * c * c * e).sum()
    std = math.sqrt(s0 ** 2 / N / (s0 * s2 - s1 ** 2))
    kw = {"completeness_table": tab, "last_year": case["last"],
          "delta_m": case["dm"], "mag_max": edge(case["top"])}
    want = (beta / ref.LN10, std / ref.LN10, rate, rate / math.sqrt(N), a)
    got = estimate_b_weichert(m, d, **kw)
    names = ("b", "std", "rate", "std of rate", "a")
    for name, g, w in zip(names, got, want):
        gen.same(g, w, name, rtol=1e-5, atol=1e-6)
    gb = estimate_b_weichert(m, d, b_parameter="beta", **kw)
    for name, g, w in zip(names, gb, (beta, std, *want[2:])):
        gen.same(g, w, name + " (beta)", rtol=1e-5, atol=1e-6)
    m2, d2, *_ = _build(case, case["perm"])
    gen.same(estimate_b_weichert(m2, d2, **kw), got, "permuted", rtol=1e-6)
    ctx.label("empty bins" if (n == 0).any() else "all bins occupied")
    ctx.nt(N > 2 and (N < len(m) or len(ks) > 1))


@st.composite
def _single(draw):
    dm = draw(st.sampled_from([0.1, 0.2, 0.5]))
    n = draw(st.integers(2, 30))
    return {"dm": dm,
            "ks": draw(st.lists(st.integers(0, 15), min_size=n, max_size=n)),
            "y": draw(st.lists(st.integers(1900, 2010), min_size=n,
                               max_size=n))}


@PROP.facet(_single, quick=300)
def one_period(case, ctx):
    """with one completeness period the Kijko-Smit estimate is the Utsu
    estimate"""
    import numpy as np
    from seismostats.analysis import (UtsuBValueEstimator, estimate_b,
                                      estimate_b_kijko_smit)
    dm = case["dm"]
    m = np.array([gen.grid_value(k, dm, 2.0) for k in case["ks"]])
    t = np.array(["%d-03-01" % y for y in case["y"]], dtype="datetime64")
    got = estimate_b_kijko_smit(m, t, np.array([[2.0 - dm / 2, 1900]]),
                                last_year=2011, delta_m=dm)
    want = estimate_b(m, 2.0, dm, method=UtsuBValueEstimator)
    gen.same(got[0], want, "b", rtol=1e-7)
    gen.same(got[2], len(m) / 111, "rate", rtol=1e-7)
    ctx.nt(len(set(case["ks"])) > 1)
