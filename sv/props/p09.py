"""P09  Completeness-magnitude estimates."""
import math
from fractions import Fraction as Fr

from hypothesis import strategies as st

from .. import evt, gen, ref
from ..core import Property

PROP = Property(
    "P09",
    "A case is a binned magnitude sample with candidate completeness values "
    "(given or automatic) and, for the KS method, the synthetic distances. "
    "Non-trivial: at least two candidates are compared, or the most populated "
    "bin is not the lowest one.",
    ["samples and candidates lie on the magnitude grid; decisions within "
     "1e-9 of a threshold are not judged"])


@st.composite
def _maxc(draw):
    b = draw(gen.binned_mags(max_size=50, max_bins=15))
    cont = draw(st.booleans())
    m = gen.mags_of(b)
    if cont:
        m = [v + draw(st.integers(-40, 40)) / 100 * b["dx"] for v in m]
    m = gen.stretched(draw, {"m": m}, ("m",), hi=1500)["m"]
    return {"m": m, "dx": b["dx"], "nan": draw(st.integers(0, 2)),
            "cf": draw(st.one_of(st.none(), st.sampled_from([0, 0.2, 0.1]),
                                 gen.f(-0.3, 0.5))),
            "perm": gen.perm(draw, len(m))}


@PROP.facet(_maxc, quick=800)
def maxc(case, ctx):
    """maximum curvature returns a most populated bin plus the correction
    (0.2 unless given), whatever the order of events and ignoring missing
    magnitudes"""
    import numpy as np
    from seismostats.analysis import estimate_mc_maxc
    dx, m = case["dx"], case["m"]
    D = Fr(str(dx))
    cnt = {}
    for v in m:
        k = math.floor(Fr(v) / D + Fr(1, 2) + Fr(1, 10**9))
        cnt[k] = cnt.get(k, 0) + 1
    top = max(cnt.values())
    best = [gen.grid_value(k, dx) for k, c in cnt.items() if c == top]
    kw = {} if case["cf"] is None else {"correction_factor": case["cf"]}
    cf = 0.2 if case["cf"] is None else case["cf"]
    x = np.array(m + [math.nan] * case["nan"])
    mc, info = estimate_mc_maxc(x, dx, **kw)
    assert any(gen.close(mc - cf, b) for b in best), (
        f"mc {mc} - {cf} is not a most populated bin {best}")
    gen.same(info["correction_factor"], cf, "correction_factor")
    mc2, _ = estimate_mc_maxc(np.array([m[i] for i in case["perm"]]), dx,
                              **kw)
    gen.same(mc2, mc, "order of events")
    ctx.nt(len(cnt) > 1 and min(cnt) not in [k for k in cnt
                                             if cnt[k] == top])


@st.composite
def _sample(draw, max_size=60):
    dx = draw(st.sampled_from([0.1, 0.1, 0.2, 0.05, 0.5, 0.25]))
    n = draw(st.integers(3, max_size))
    nb = draw(st.integers(2, 25))
    e = draw(st.sampled_from(["flat", "gr", "inc"]))
    s = {"flat": st.integers(0, nb),
         "gr": st.one_of(st.integers(0, 2), st.integers(0, 4),
                         st.integers(0, nb)),
         "inc": st.one_of(st.integers(0, nb), st.integers(3, 6),
                          st.integers(4, 8))}[e]
    ks = draw(st.lists(s, min_size=n, max_size=n))
    zero = draw(st.integers(0, 3)) == 0
    k0 = -draw(st.integers(0, 8)) if zero else draw(
        st.integers(int(-1 / dx), int(6 / dx)))
    return gen.stretched(draw, {"dx": dx, "k0": k0, "ks": ks}, ("ks",),
                         hi=300)


@st.composite
def _stab(draw):
    s = draw(_sample())
    s["range"] = draw(st.sampled_from([None, None, "1", "2", "3", "4"]))
    s["stop"] = draw(st.booleans())
    s["mcs"] = draw(st.one_of(st.none(), st.none(), st.lists(
        st.integers(-1, 20), min_size=1, max_size=6, unique=True)))
    s["method"] = draw(st.sampled_from(["classic", "classic", "utsu",
                                        "positive"]))
    s["dmc"] = draw(st.sampled_from([None, 1, 2]))
    s["noise"] = draw(st.booleans())
    return s


@PROP.facet(_stab, quick=700, shards=2)
def b_stability(case, ctx):
    """b-value stability: for each candidate the distance between b and the
    mean b over the stability range, in units of b's uncertainty, equals the
    definition; the result is the first passing candidate, or the best
    passing one when all are tested, or nothing when none passes"""
    import numpy as np
    from seismostats.analysis import estimate_mc_b_stability
    D = Fr(str(case["dx"]))
    rng = Fr(1, 2) if case["range"] is None else D * int(case["range"])
    steps = math.ceil(rng / D)
    mags = [D * (case["k0"] + k) for k in case["ks"]]
    lo, hi = min(mags), max(mags)
    method = case["method"]
    x = np.array([float(m) for m in mags])
    kw = {"b_method": evt.method_class(method),
          "stop_when_passed": case["stop"]}
    if case["range"] is not None:
        kw["stability_range"] = int(case["range"]) * float(D) \
            if case["noise"] else float(rng)
    dmc = None
    if method == "positive" and case["dmc"]:
        dmc = case["dmc"] * D
        kw["dmc"] = float(dmc)
    if case["mcs"] is None:
        nb = int((hi - lo) / D)
        cand = [lo + i * D for i in range(nb)]
        if len(cand) <= steps:
            try:
                out = estimate_mc_b_stability(x, float(D), **kw)
            except ValueError:
                ctx.label("range too small")
                return
            raise AssertionError(f"range too small, returned {out}")
        cand = cand[:len(cand) - steps + 1]
    else:
        cand = [D * (case["k0"] + k) for k in case["mcs"]]
        kw["mcs_test"] = [float(c) for c in cand]
        cand = [c for c in cand if c + rng <= hi]
        if not cand:
            try:
                out = estimate_mc_b_stability(x, float(D), **kw)
            except ValueError:
                ctx.label("range too small")
                return
            raise AssertionError(f"range too small, returned {out}")

    def b_of(mc):
        e = ref.estimate_b(method, mags, mc, D, dmc=dmc)
        return e["b"], e["values"]
    bs, diffs = [], []
    for mc in cand:
        b, sel = b_of(mc)
        bs.append(b)
        avg = sum(b_of(mc + i * D)[0] for i in range(steps)) / steps
        s = ref.shi_bolt(sel, b)
        if s is None or not s > 1e-12 or not math.isfinite(avg):
            ctx.discard("uncertainty undefined or zero")
        diffs.append(abs(avg - b) / s)
    if any(abs(d - 1) < 1e-9 for d in diffs):
        ctx.discard("on the threshold")
    passed = [i for i, d in enumerate(diffs) if d <= 1]
    if case["stop"]:
        best = passed[0] if passed else None
        tested = len(cand) if best is None else best + 1
    else:
        tested = len(cand)
        best = min(passed, key=lambda i: diffs[i]) if passed else None
        if passed and sorted(diffs)[1:] and \
                abs(sorted(diffs)[1] - sorted(diffs)[0]) < 1e-9:
            ctx.discard("two equally good candidates")
    got, info = estimate_mc_b_stability(x, float(D), **kw)
    if best is None:
        assert got is None, f"nothing passes, returned {got}"
        assert info["best_b_value"] is None
    else:
        assert got is not None, f"expected mc {float(cand[best])}, got None"
        gen.same(got, float(cand[best]), "mc")
        gen.same(info["best_b_value"], bs[best], "best b", rtol=1e-7)
    gen.same(info["mcs_tested"], [float(c) for c in cand[:tested]],
             "candidates")
    gen.same(info["b_values_tested"], bs[:tested], "b-values", rtol=1e-7)
    gen.same(info["diff_bs"], diffs[:tested], "differences", rtol=1e-6,
             atol=1e-7)
    ctx.label("passed" if best is not None else "none passed")
    if best is not None and cand[best] == 0:
        ctx.label("mc is zero")
    ctx.nt(tested > 1)


@st.composite
def _ks(draw):
    s = draw(_sample())
    s["mcs"] = draw(st.one_of(st.none(), st.lists(
        st.integers(-2, 15), min_size=1, max_size=6)))
    s["stop"] = draw(st.booleans())
    s["b"] = draw(st.one_of(st.none(), gen.f(0.4, 2.5)))
    s["method"] = draw(st.sampled_from(["classic", "utsu", "positive",
                                        "more_positive"]))
    s["dmc"] = draw(st.sampled_from([None, 1, 2]))
    s["p"] = draw(st.sampled_from([None, 0.1, 0.3, 0.55, 0.95]))
    s["ds"] = draw(st.lists(st.integers(1, 700), min_size=1, max_size=20))
    return s


@PROP.facet(_ks, quick=900, shards=2)
def ks(case, ctx):
    """KS method: every candidate's distance and p-value equal the
    definition for the events above it and its b-value; the smallest
    candidate reaching the required p-value is returned, none if there is
    none; candidates are tried in ascending order without repetition"""
    import numpy as np
    from seismostats.analysis import estimate_mc_ks
    D = Fr(str(case["dx"]))
    mags = [D * (case["k0"] + k) for k in case["ks"]]
    x = np.array([float(m) for m in mags])
    method = case["method"]
    ds = np.array(case["ds"]) / 1000 + 0.00033

    def dist_of(mc):
        return ds * float(1 if case["p"] is None else 1 + mc / D % 5 / 5)
    kw = {"stop_when_passed": case["stop"], "n": 7}
    dmc = None
    if case["b"] is None:
        kw["b_method"] = evt.method_class(method)
        if "positive" in method and case["dmc"]:
            dmc = case["dmc"] * D
            kw["dmc"] = float(dmc)
    else:
        kw["b_value"] = case["b"]
    if case["p"] is not None:
        kw["p_value_pass"] = case["p"]
    need = 0.1 if case["p"] is None else case["p"]
    lo, hi = min(mags), max(mags)
    auto = case["mcs"] is None
    if auto:
        nb = int((hi - lo) / D)
        cand = [lo + i * D for i in range(nb)]
        if not cand:
            ctx.discard("one bin only")
    else:
        cand = sorted({D * (case["k0"] + k) for k in case["mcs"]})
        cand = [c for c in cand if c <= hi]
        if not cand:
            ctx.discard("no events above any candidate")
        # in any order, along with their distances
        order = [c for c in (D * (case["k0"] + k) for k in case["mcs"])
                 if c <= hi]
        kw["mcs_test"] = [float(c) for c in order]
    exp = []
    for mc in cand:
        sel = [m for m in mags if m >= mc - D / 2]
        if case["b"] is not None:
            b = case["b"]
        else:
            b = ref.estimate_b(method, sel, mc, D, dmc=dmc)["b"]
        if len(set(sel)) == 1:
            exp.append((0.0, 1.0, b))
            continue
        if not (math.isfinite(b) and b > 0):
            ctx.discard("b-value undefined")
        beta = b * ref.LN10
        d, k, k1 = 0.0, 0, int((max(sel) - mc) / D)
        for k in range(k1 + 1):
            emp = sum(m <= mc + k * D for m in sel) / len(sel)
            th = 1 - math.exp(-beta * float((k + 1) * D))
            d = max(d, abs(emp - th))
        own = dist_of(mc)
        if np.min(np.abs(own - d)) < 1e-9:
            ctx.discard("distance on a tie")
        exp.append((float(np.mean(own >= d)), d, b))
    if any(abs(p - need) < 1e-12 and p != need for p, _, _ in exp):
        ctx.discard("p-value on a float tie")
    ok = [i for i, (p, _, _) in enumerate(exp) if p >= need]
    best = ok[0] if ok else None
    tested = best + 1 if (case["stop"] and ok) else len(cand)
    kw["ks_ds_list"] = [dist_of(c) for c in (cand if auto else order)]
    got, info = estimate_mc_ks(x, float(D), **kw)
    if best is None:
        assert got is None, f"nothing passes, returned {got}"
        assert info["best_b_value"] is None
    else:
        assert got is not None, f"expected {float(cand[best])}, got None"
        gen.same(got, float(cand[best]), "mc")
        gen.same(info["best_b_value"], exp[best][2], "best b", rtol=1e-7)
    tm = info["mcs_tested"]
    m = tested
    gen.same(tm, [float(c) for c in cand[:m]], "candidates")
    gen.same(info["p_values"], [e[0] for e in exp[:m]], "p-values")
    gen.same(info["ks_ds"], [e[1] for e in exp[:m]], "distances")
    gen.same(info["b_values_tested"], [e[2] for e in exp[:m]],
             "b-values", rtol=1e-7)
    ctx.label("passed" if ok else "none passed")
    ctx.nt(m > 1 and len(set(mags)) > 2)
