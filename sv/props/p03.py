"""P03  Classic and Utsu b-values."""
import math

from hypothesis import strategies as st

from .. import evt, gen
from ..core import Property

PROP = Property(
    "P03",
    "A case is an event set on a magnitude grid (or continuous), a "
    "completeness magnitude on or off the grid, optional weights and missing "
    "magnitudes. Non-trivial: at least two selected events with different "
    "magnitudes and a finite b-value.",
    ["magnitudes within [-2, 12]; completeness never exactly half a bin from "
     "a magnitude (float tie); weights are non-negative"])


@PROP.facet(lambda: evt.events(times="never"), quick=1600)
def closed_form(case, ctx):
    """b equals the closed-form maximum-likelihood (resp. Utsu) estimate of
    the events at or above completeness, computed independently"""
    r = evt.Real(case)
    if r.degenerate():
        ctx.discard("mean excess about zero")
    for method in ("classic", "utsu"):
        want = r.ref_b(method)
        if want["w"] and not sum(want["w"]):
            ctx.discard("all weights zero")
        est = evt.method_class(method)()
        got = est.calculate(*r.args(), **r.kwargs(method))
        gen.same(got, want["b"], f"{method} b-value")
        gen.same(est.b_value, want["b"], f"{method} .b_value")
        gen.same(est.beta, want["b"] * math.log(10), f"{method} .beta")
        assert list(est.idx) == want["idx"], (est.idx, want["idx"])
        gen.same(est.magnitudes, [float(v) for v in want["values"]], "mags")
        assert est.n == len(want["idx"])
        if r.w is None:
            assert est.weights is None
        else:
            gen.same(est.weights, want["w"], "weights")
        fin = math.isfinite(want["b"])
        ctx.nt(fin and len(set(want["values"])) > 1)
        ctx.label("finite" if fin else "not finite")
    if len(want["idx"]) < len(case["ks"]):
        ctx.label("some events excluded")
    if case["mcoff"]:
        ctx.label("mc off grid")


@st.composite
def _meta(draw):
    c = draw(evt.events(times="never", weights=False))
    n = len(c["ks"])
    return {"ev": c, "perm": gen.perm(draw, n),
            "junk": draw(st.lists(st.integers(1, 30), max_size=4)),
            "nans": draw(st.integers(0, 2)),
            "reps": gen.repeated(draw, st.integers(0, 4), n),
            "scale": draw(gen.f(0.01, 20)),
            "shift": draw(st.integers(-30, 30))}


@PROP.facet(_meta, quick=800)
def metamorphic(case, ctx):
    """b does not depend on event order, on events below completeness or on
    missing magnitudes; integer weights act like repeated events; scaling all
    weights or shifting magnitudes and completeness together changes
    nothing"""
    import numpy as np
    from seismostats.analysis import estimate_b
    c = case["ev"]
    r = evt.Real(c, kind="array")
    mags, mc, dm = r.args()
    unit = c["dx"] or 0.001
    if r.degenerate() or r.degenerate(case["reps"]):
        ctx.discard("mean excess about zero")
    for method in ("classic", "utsu"):
        m = evt.method_class(method)
        base = estimate_b(mags, mc, dm, method=m)
        p = case["perm"]
        gen.same(estimate_b(mags[p], mc, dm, method=m), base, "permuted")

        junk = [gen.grid_value(c["k0"] + c["mck"] - 1 - k, unit)
                for k in case["junk"]]
        ext = np.concatenate([junk, mags, [math.nan] * case["nans"]])
        gen.same(estimate_b(ext, mc, dm, method=m), base, "with junk")

        reps = np.array(case["reps"])
        sel = ~np.isnan(mags) & (mags >= mc - dm / 2)
        if (reps * sel).sum() > 0:
            gen.same(
                estimate_b(mags, mc, dm, weights=reps, method=m),
                estimate_b(np.repeat(mags, reps), mc, dm, method=m),
                "weights as repetition")
            gen.same(
                estimate_b(mags, mc, dm, weights=reps * case["scale"],
                           method=m),
                estimate_b(mags, mc, dm, weights=reps, method=m),
                "scaled weights")
        sh = evt.Real(dict(c, k0=c["k0"] + case["shift"]), kind="array")
        gen.same(estimate_b(*sh.args(), method=m), base, "shifted",
                 rtol=1e-7)
        ctx.nt(math.isfinite(base) and len(set(mags[sel])) > 1)


@st.composite
def _bad(draw):
    c = draw(evt.events(times="never", nan=False, min_size=2,
                        dxs=[0.1, 0.5, 0.01, 0.2]))
    return {"ev": c, "how": draw(st.sampled_from(
        ["neg", "len", "unbinned"])), "i": draw(st.integers(0, 100)),
        "d": draw(st.integers(5, 95)),
        "method": draw(st.sampled_from(evt.METHODS))}


@PROP.facet(_bad, quick=400)
def refuses(case, ctx):
    """negative weights, a wrong number of weights and magnitudes that are
    not on the stated grid are refused instead of giving a number"""
    import numpy as np
    from seismostats.analysis import estimate_b
    r = evt.Real(case["ev"], kind="array")
    mags, mc, dm = r.args()
    n = len(mags)
    i = case["i"] % n
    w = None
    if case["how"] == "neg":
        w = np.ones(n)
        w[i] = -0.5
    elif case["how"] == "len":
        w = np.ones(n + (1 if case["i"] % 2 else -1))
    else:
        mags = mags.copy()
        mags[i] += dm * case["d"] / 100
    try:
        b = estimate_b(mags, mc, dm, weights=w,
                       method=evt.method_class(case["method"]))
    except (ValueError, IndexError):
        ctx.label(case["how"])
        ctx.nt()
        return
    raise AssertionError(f"accepted ({case['how']}), returned {b}")
