"""P11  Goodness-of-fit tests of the Gutenberg-Richter law."""
import math
from fractions import Fraction as Fr

from hypothesis import strategies as st

from .. import evt, gen, ref
from ..core import Property

PROP = Property(
    "P11",
    "A case is a magnitude sample with the parameters of a Gutenberg-Richter "
    "law and, optionally, weights and synthetic distances. Non-trivial: at "
    "least three different magnitudes.",
    ["comparisons of an observed with a synthetic distance closer than 1e-9 "
     "are not judged; random results are compared with an independent "
     "simulation with tolerances of more than 6 standard errors"])


@st.composite
def _ks(draw):
    b = draw(gen.binned_mags(min_size=1, max_size=40, max_bins=15,
                             dx=draw(st.sampled_from([0.1, 0.2, 0.5]))))
    n = len(b["ks"])
    return {**b, "drop": draw(st.sampled_from([0, 0, 0, 1, 2, -1])),
            "b": draw(gen.f(0.3, 2.5)),
            "w": draw(st.one_of(st.none(), st.lists(
                st.sampled_from([0.5, 1, 2, 0, 3.5]), min_size=n,
                max_size=n))),
            "ds": draw(st.lists(st.integers(1, 900), min_size=1,
                                max_size=20)),
            "list": draw(st.booleans()),
            "warn": draw(st.booleans())}


@PROP.facet(_ks, quick=900, shards=2)
def ks_given_distances(case, ctx):
    """the distance is the largest difference between the (weighted) empirical
    and the theoretical distribution over the bins; the p-value is the share
    of synthetic distances at least as large; a sample with a single value
    never passes"""
    import numpy as np
    from seismostats.analysis.estimate_mc import ks_test_gr
    from seismostats.utils import set_option
    set_option("warnings", case["warn"])
    D = Fr(str(case["dx"]))
    mc = D * (case["k0"] + min(case["ks"]) - case["drop"])
    m = [D * (case["k0"] + k) for k in case["ks"]]
    w = case["w"]
    keep = [i for i, v in enumerate(m) if v >= mc]
    m = [m[i] for i in keep]
    if w is not None:
        w = [w[i] for i in keep]
    ds = [d / 1000 + 0.00033 for d in case["ds"]]
    dsa = ds if case["list"] else np.array(ds)
    x = np.array([float(v) for v in m])
    kw = {} if w is None else {"weights": np.array(w, float)}
    out = ks_test_gr(x, float(mc), case["dx"], case["b"], ks_ds=dsa, **kw)
    if len(set(m)) <= 1:
        assert out[0] == 0 and out[1] == 1, out
        ctx.label("no or one value")
        return
    ww = [1.0] * len(m) if w is None else w
    tot = sum(ww)
    if tot == 0:
        ctx.discard("all weights zero")
    beta = case["b"] * ref.LN10
    d = 0.0
    for k in range(int((max(m) - mc) / D) + 1):
        e = sum(u for v, u in zip(m, ww) if v <= mc + k * D) / tot
        d = max(d, abs(e + math.expm1(-beta * float((k + 1) * D))))
    gen.same(out[1], d, "distance")
    if min(abs(v - d) for v in ds) < 1e-9:
        ctx.discard("distance on a tie")
    gen.same(out[0], sum(v >= d for v in ds) / len(ds), "p-value")
    gen.same(list(out[2]), ds, "distances")
    ctx.nt(len(set(m)) > 2)
    if w is not None:
        ctx.label("weighted")


@st.composite
def _sim(draw):
    return {"n": draw(st.sampled_from([5, 20, 60])),
            "b": draw(gen.f(0.5, 2.0)),
            "mc": draw(st.sampled_from([0, 1, 2, -1, 3])),
            "dx": draw(st.sampled_from([0.1, 0.2, 0.5])),
            "alt": draw(st.sampled_from([1.0, 1.0, 0.6, 1.6, 3.0])),
            "far": draw(st.sampled_from([0, 0, 60, 150])),
            "w": draw(st.booleans()),
            "npseed": draw(st.integers(0, 2**31 - 1))}


@PROP.facet(_sim, quick=60, thorough=1200, shards=2)
def ks_simulated(case, ctx):
    """without given distances, the synthetic distances are those of samples
    of the same size (and weights) from the given law, and the p-value is the share of them
    that is at least as large as the observed distance"""
    import numpy as np
    from seismostats.analysis.estimate_mc import ks_test_gr
    rng = np.random.default_rng(case["npseed"])
    n, b, mc, dx = case["n"], case["b"], case["mc"], case["dx"]
    beta = b * math.log(10)

    def sample(bb, size):
        # the discretised exponential: bin index is geometric
        u = rng.exponential(1 / (bb * math.log(10)), size)
        return np.floor(u / dx + 1e-12).astype(int)
    k = sample(b * case["alt"], n)
    k[0] += case["far"]  # much larger than the others
    w = rng.choice([0.5, 1.0, 2.0], n) if case["w"] else np.ones(n)
    kw = {"weights": w} if case["w"] else {}
    if len(set(k.tolist())) < 2:
        ctx.discard("single value")
    N = 600
    np.random.seed(case["npseed"])
    x = np.array([gen.grid_value(round(mc / dx) + int(v), dx) for v in k])
    p, d, ds = ks_test_gr(x, mc, dx, b, n=N, **kw)
    ds = np.asarray(ds, float)
    assert ds.shape == (N,), ds.shape

    def dist(k):
        j = np.arange(max(400, k.max() + 1))
        th = -np.expm1(-beta * (j + 1) * dx)
        emp = np.cumsum(np.bincount(k, w, minlength=len(j))) / w.sum()
        return np.max(np.abs(emp - th))
    do = dist(k)
    gen.same(d, do, "observed distance")
    gen.same(p, np.mean(ds >= d), "p-value vs returned distances")
    own = np.array([dist(sample(b, n)) for _ in range(N)])
    # two-sample KS between the distances; P(D > 3.2*sqrt(2/N)) < 3e-9
    grid = np.concatenate([ds, own])
    e = 1e-12
    dd = max(abs(np.mean(ds <= g + e) - np.mean(own <= g + e)) for g in grid)
    assert dd < 3.2 * math.sqrt(2 / N), f"synthetic distances differ: {dd}"
    ctx.label("p<0.1" if p < 0.1 else "p>=0.1")
    ctx.nt(len(set(k.tolist())) > 2)


@st.composite
def _lil(draw):
    n = draw(st.integers(4, 120))
    return {"n": n, "b": draw(gen.f(0.4, 2.0)),
            "mc": draw(st.sampled_from([0.0, 1.0, 2.5, -1.0])),
            "shift": draw(st.sampled_from([0, 4, -2])),
            "scale": draw(st.sampled_from([1, 2, 0.25])),
            "kind": draw(st.sampled_from(["exp", "exp", "uniform",
                                          "inc"])),
            "npseed": draw(st.integers(0, 2**31 - 1)),
            "low": draw(st.sampled_from([0, 0, 1, 3])),
            "perm": draw(st.integers(0, 1000))}


def _lill_d(y):
    """Lilliefors statistic of y against exponential with mean mean(y)"""
    import numpy as np
    y = np.sort(np.asarray(y, float))
    n = len(y)
    F = -np.expm1(-y / y.mean())
    i = np.arange(1, n + 1)
    return max(np.max(i / n - F), np.max(F - (i - 1) / n))


@PROP.facet(_lil, quick=300, shards=2)
def lilliefors(case, ctx):
    """the Lilliefors p-value depends only on the distance of the sample to
    the fitted exponential: it is in [0, 1], unchanged by reordering, by
    shifting magnitudes and completeness together and by rescaling, and
    decreases with the distance; magnitudes below the completeness are
    refused"""
    import numpy as np
    from seismostats.analysis import lilliefors as mod
    f = mod.ks_test_gr_lilliefors
    rng = np.random.default_rng(case["npseed"])
    n, mc = case["n"], case["mc"]

    def draw(kind):
        if kind == "exp":
            return rng.exponential(1 / (case["b"] * math.log(10)), n)
        if kind == "uniform":
            return rng.uniform(0, 2, n)
        return rng.beta(3, 3, n)
    y = draw(case["kind"])
    y[:case["low"]] = 0  # at the completeness itself
    p = f(y + mc, mc)
    assert 0 <= p <= 1, p
    tol = dict(rtol=1e-6, atol=1e-8)
    q = f(np.random.default_rng(case["perm"]).permutation(y + mc), mc)
    gen.same(q, p, "order", **tol)
    gen.same(f(y + mc + case["shift"], mc + case["shift"]), p, "shift", **tol)
    gen.same(f(y * case["scale"] + mc, mc), p, "scale", **tol)
    y2 = draw("exp" if case["perm"] % 2 else "uniform")
    p2, d, d2 = f(y2 + mc, mc), _lill_d(y), _lill_d(y2)
    if d < d2 - 1e-9:
        assert p >= p2 - 1e-9, f"distance {d} p {p}; distance {d2} p {p2}"
    elif d2 < d - 1e-9:
        assert p2 >= p - 1e-9, f"distance {d} p {p}; distance {d2} p {p2}"
    # absolute scale of the p-value (tabulated critical values at n -> large:
    # 1.094 for 5 %, 1.308 for 1 %; Lilliefors 1969)
    if n >= 40:
        z = d * math.sqrt(n)
        if z > 1.5:
            assert p < 0.012, (z, p)
        if z > 1.15:
            assert p < 0.05, (z, p)
        if z < 1.04:
            assert p > 0.05, (z, p)
    try:
        f(y + mc, mc + float(y.min()) + 0.1)
    except ValueError:
        pass
    else:
        raise AssertionError("magnitudes below mc accepted")
    ctx.label(case["kind"] + (" p<0.05" if p < 0.05 else " p>=0.05"))
    ctx.nt(n > 10)


@st.composite
def _plil(draw):
    b = draw(gen.binned_mags(min_size=6, max_size=80, max_bins=15,
                             dx=draw(st.sampled_from([0.1, 0.1, 0.5, 0]))
                             or None))
    return {**b, "method": draw(st.sampled_from(
        ["classic", "utsu", "positive", "more_positive"])),
        "cont": draw(st.integers(0, 3)) == 0,
        "dmc": draw(st.integers(1, 3)),
        "npseed": draw(st.integers(0, 2**31 - 1))}


@PROP.facet(_plil, quick=80, thorough=1500, shards=2)
def estimator_p(case, ctx):
    """the p-value offered by a b-value estimator is the Lilliefors p-value of
    the magnitudes it used (differences for the positive methods), averaged
    over dithers for binned data; it can be asked for whenever an estimate of
    two or more events exists"""
    import numpy as np
    from seismostats.analysis.lilliefors import ks_test_gr_lilliefors
    D = Fr(str(case["dx"]))
    rng = np.random.default_rng(case["npseed"])
    m = [D * (case["k0"] + k) for k in case["ks"]]
    method = case["method"]
    dx = case["dx"]
    if case["cont"]:
        m = [v + Fr(int(rng.integers(-499, 500)), 1000) * D for v in m]
        dx = 0
    mc = min(m)
    cls = evt.method_class(method)
    est = cls()
    x = np.array([float(v) for v in m])
    kw = {}
    if method == "positive":
        kw["times"] = np.arange(len(x))
    if method == "more_positive":
        kw["times"] = np.arange(len(x))
    if "positive" in method:
        dmc = case["dmc"] * D
        kw["dmc"] = float(dmc)
    b = est.calculate(x, mc=float(mc), delta_m=dx, **kw)
    if not (math.isfinite(b) and b > 0 and b < 20 and est.n >= 4):
        ctx.discard("no estimate")
    used = np.sort(np.asarray(est.magnitudes, float))
    lo = float(dmc) if "positive" in method else float(mc)
    N = 120
    p = est.p_lilliefors() if dx == 0 else est.p_lilliefors(n=N)
    assert 0 <= p <= 1, p
    if dx == 0:
        if used.min() < lo:
            ctx.discard("rounding below mc")
        gen.same(p, ks_test_gr_lilliefors(used, lo), "continuous p")
        ctx.label("continuous")
    else:
        beta = b * math.log(10)
        own = []
        for _ in range(N):
            u = rng.uniform(0, 1, len(used))
            y = -np.log1p(u * math.expm1(-beta * dx)) / beta
            own.append(ks_test_gr_lilliefors(
                np.maximum(used - dx / 2 + y, lo - dx / 2), lo - dx / 2))
        se = max(np.std(own), 0.004) * math.sqrt(2 / N)
        assert abs(np.mean(own) - p) < 7 * se + 1e-6, \
            f"p {p}, own dithering {np.mean(own)} +- {se}"
        ctx.label("binned")
    ctx.nt(len(set(used.tolist())) > 2)
