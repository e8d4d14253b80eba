"""P06  Uncertainties of b-values."""
import math

from hypothesis import strategies as st

from .. import evt, gen, ref
from ..core import Property

PROP = Property(
    "P06",
    "A case is an event set (weighted or not) with an estimator and its "
    "uncertainty, or a sample and statistic for the bootstrap. Non-trivial: "
    "at least three selected values that are not all equal.",
    ["the Shi-Bolt formula is judged where N (the sum of weights) exceeds 1",
     "the bootstrap of b-more-positive draws from its own unseeded generator;"
     " the check substitutes a seeded one and compares two Monte-Carlo "
     "estimates within a factor of 1.8, on samples of 30 or more events"])


@PROP.facet(lambda: evt.events(max_size=30), quick=1500)
def shi_bolt(case, ctx):
    """std equals the Shi & Bolt (1982) expression of the values and weights
    actually used; std of beta is ln 10 times it; unit weights equal no
    weights; equal values give zero"""
    import numpy as np
    from seismostats.analysis import estimate_b, shi_bolt_confidence
    r = evt.Real(case)
    if r.degenerate():
        ctx.discard("mean excess about zero")
    for method in ("classic", "utsu", "positive"):
        want = r.ref_b(method)
        if want["w"] and not sum(want["w"]):
            ctx.discard("all weights zero")
        s = ref.shi_bolt(want["values"], want["b"], want["w"])
        if s is None or not math.isfinite(want["b"]):
            ctx.label("undefined")
            continue
        # a spread of rounding errors only is not compared relatively
        atol = 1e-9 * max(1.0, want["b"] ** 2)
        est = evt.method_class(method)()
        est.calculate(*r.args(), **r.kwargs(method))
        gen.same(est.std, s, f"{method} std", rtol=1e-6, atol=atol)
        gen.same(est.std_beta, s * ref.LN10, f"{method} std of beta",
                 rtol=1e-6, atol=atol * 3)
        b, s2 = estimate_b(*r.args(), method=evt.method_class(method),
                           return_std=True, **r.kwargs(method))
        gen.same(s2, s, "function std", rtol=1e-6, atol=atol)
        v = np.array([float(x) for x in want["values"]])
        w = None if want["w"] is None else np.array(want["w"])
        gen.same(shi_bolt_confidence(v, b=want["b"], weights=w), s,
                 "shi_bolt_confidence", rtol=1e-6, atol=atol)
        gen.same(shi_bolt_confidence(v, b=want["b"] * ref.LN10, weights=w,
                                     b_parameter="beta"), s * ref.LN10,
                 "shi_bolt_confidence beta", rtol=1e-6, atol=atol * 3)
        if w is None:
            gen.same(shi_bolt_confidence(v, b=want["b"],
                                         weights=np.ones(len(v))), s,
                     "unit weights", rtol=1e-6, atol=atol)
        ctx.label("judged " + method)
        ctx.nt(len(v) > 2 and s > 0)


@st.composite
def _boot(draw):
    return {"x": draw(st.lists(st.integers(-50, 50), min_size=2,
                               max_size=30)),
            "n": draw(st.sampled_from([20, 50, 100])),
            "seed": draw(st.integers(0, 10**6)),
            "c": draw(st.integers(-5, 5)),
            "mod": draw(st.integers(2, 5))}


@PROP.facet(_boot, quick=300)
def bootstrap(case, ctx):
    """the bootstrap resamples the sample with replacement n times at full
    length, disregards undefined results, is the (n-1) standard deviation of
    the statistic, and repeats exactly for the same random state"""
    import numpy as np
    from seismostats.analysis.bvalue.utils import bootstrap_std
    x = np.array(case["x"], float)
    calls, vals = [], []

    def stat(s):
        s = np.asarray(s)
        calls.append(s.copy())
        k = len(calls)
        v = float(np.mean(s)) * 2 + case["c"]
        if k % case["mod"] == 0:
            v = math.nan if k % 2 else math.inf
        vals.append(v)
        return v
    got = bootstrap_std(x, stat, n=case["n"], random_state=case["seed"])
    assert len(calls) == case["n"], "number of resamples"
    pool = set(x.tolist())
    for s in calls:
        assert s.shape == x.shape and set(s.tolist()) <= pool
    fin = [v for v in vals if math.isfinite(v)]
    gen.same(got, np.std(fin, ddof=1), "bootstrap std")
    calls2 = list(calls)
    calls.clear()
    vals.clear()
    again = bootstrap_std(x, stat, n=case["n"], random_state=case["seed"])
    assert got == again or (math.isnan(got) and math.isnan(again))
    assert all((a == b).all() for a, b in zip(calls2, calls))
    if len(pool) > 3:
        assert len({tuple(s) for s in calls2}) > 1, "always the same resample"
    ctx.nt(len(pool) > 2)


@st.composite
def _mp(draw):
    # a GR-like series with enough records for a stable bootstrap
    n = draw(st.integers(30, 45))
    dx = draw(st.sampled_from([0.1, 0.1, 0.2]))
    q = draw(st.lists(st.integers(0, 999), min_size=n, max_size=n))
    ks = [int(-math.log(1 - (v + 0.5) / 1000) * 4.34 * 0.1 / dx) for v in q]
    return {"dx": dx, "ks": ks, "w": draw(st.booleans()),
            "t": draw(st.one_of(st.none(), st.permutations(range(n)))),
            "dmc": draw(st.sampled_from([None, 1, 2, 3])),
            "seed": draw(st.integers(0, 10**6))}


@PROP.facet(_mp, quick=40, thorough=1200)
def more_positive_bootstrap(case, ctx):
    """the uncertainty of b-more-positive is the spread of b over resampled
    time-ordered events (same cutoff, weights following their events), and
    beta's uncertainty is ln 10 times it"""
    from fractions import Fraction as Fr
    import numpy as np
    from unittest import mock
    n = len(case["ks"])
    dm = Fr(str(case["dx"]))
    mags = [dm * k for k in case["ks"]]
    w = [0.5 + (i % 3) for i in range(n)] if case["w"] else None
    t = case["t"]
    order = list(range(n)) if t is None else sorted(range(n),
                                                    key=lambda i: t[i])
    # independent bootstrap on integers
    real = np.random.default_rng
    rng = real(case["seed"] + 77)
    kk = np.array([case["ks"][i] for i in order])
    ww = np.array([w[i] for i in order]) if w else np.ones(n)
    cut = case["dmc"] or 1
    bs = []
    for _ in range(250):
        idx = np.sort(rng.integers(0, n, n))
        m, q = kk[idx], ww[idx]
        larger = m[None, :] >= m[:, None] + cut
        larger = np.triu(larger, 1)
        has = larger.any(axis=1)
        if not has.any():
            continue
        j = larger.argmax(axis=1)[has]
        s = np.average(m[j] - m[has] - cut, weights=q[j])
        if s <= 0:
            continue
        bs.append(math.log(1 + 1 / s) / float(dm) / ref.LN10)
    if len(bs) < 200:
        ctx.discard("too few pairs")
    want = np.std(bs, ddof=1)
    if not want > 0 or max(bs) > 4 * np.median(bs):
        ctx.discard("heavy-tailed bootstrap distribution")
    est = evt.method_class("more_positive")()
    kw = {} if t is None else {"times": np.array(t)}
    if w:
        kw["weights"] = w
    if case["dmc"]:
        kw["dmc"] = float(dm * cut)
    est.calculate(np.array([float(m) for m in mags]), 0.0, float(dm), **kw)
    ctx.label("cutoff " + str(case["dmc"]))
    k = [case["seed"]]

    def seeded(seed=None):
        k[0] += 1
        return real(k[0] if seed is None else seed)
    with mock.patch.object(np.random, "default_rng", seeded):
        got = est.std
        gotb = est.std_beta
    assert want / 1.8 < got < want * 1.8, (
        f"bootstrap std {got}, independent bootstrap {want}")
    assert want / 1.8 < gotb / ref.LN10 < want * 1.8, (
        f"std of beta {gotb}, expected about {want * ref.LN10}")
    ctx.nt()


@st.composite
def _light(draw):
    n = draw(st.integers(40, 60))
    return {"dx": draw(st.sampled_from([0.1, 0.2, 1.0])),
            "step": draw(st.integers(2, 3)), "big": draw(st.integers(5, 9)),
            "cut": draw(st.booleans()),
            # mostly small events and events one step larger
            "ks": [v if i % 4 == 3 else i % 2 for i, v in enumerate(draw(
                st.lists(st.sampled_from([0, 1, 2, 2, 2]), min_size=n,
                         max_size=n)))],
            "t": draw(st.one_of(st.none(), st.permutations(range(n)))),
            "seed": draw(st.integers(0, 10**6))}


@PROP.facet(_light, quick=30, thorough=600)
def bootstrap_weights(case, ctx):
    """events with a negligible weight, and differences below the cutoff, do
    not matter for the uncertainty: if all others are the same step larger,
    it is 0"""
    import numpy as np
    from unittest import mock
    dm, step, cut = case["dx"], case["step"], case["cut"]
    if cut:                 # the others are too close to both
        step, big = step + 2, 2
    else:                   # ... are much larger, with a negligible weight
        big = case["big"]
    ks = [[0, step, big][k] for k in case["ks"]]
    if sum(a == 0 and b == step for a, b in zip(ks, ks[1:])) < 12:
        ctx.discard("too few pairs")
    n = len(ks)
    order = case["t"] or list(range(n))     # position in time
    mags = np.array([gen.grid_value(ks[p], dm) for p in order])
    w = None if cut else np.array([1e-9 if ks[p] == big else 1.0
                                   for p in order])
    kw = {"times": np.array(order)} if case["t"] else {}
    if cut:
        kw["dmc"] = gen.grid_value(step - 1, dm)
    est = evt.method_class("more_positive")()
    est.calculate(mags, 0.0, dm, weights=w, **kw)
    real, k = np.random.default_rng, [case["seed"]]

    def seeded(seed=None):
        k[0] += 1
        return real(k[0] if seed is None else seed)
    with mock.patch.object(np.random, "default_rng", seeded):
        got = est.std
    assert got < 1e-4 * est.b_value, (
        f"bootstrap std {got} of b {est.b_value} although all events "
        f"that count are {step} bins larger")
    ctx.label("cutoff" if cut else "weights")
    ctx.nt(big in ks)
