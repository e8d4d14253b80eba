"""P07  a-values."""
import math

from hypothesis import strategies as st

from .. import evt, gen, ref
from ..core import Property

PROP = Property(
    "P07",
    "A case is an event set with times, optional reference magnitude, "
    "b-value, scaling factor and difference cutoff. Non-trivial: a finite "
    "a-value from at least two events (or pairs).",
    ["times are distinct; scaling factors are positive"])


@st.composite
def _case(draw):
    ev = draw(evt.events(max_size=30, times="always", weights=False))
    if ev["tkind"] == "strlist":
        ev["tkind"] = "dt64"
    return {"ev": ev, "scale": draw(st.one_of(st.none(), gen.f(0.01, 100))),
            "mref": draw(st.one_of(st.none(), st.integers(-30, 90).map(
                lambda k: k / 10))),
            "b": draw(gen.f(0.4, 2.5)),
            "perm": gen.perm(draw, len(ev["ks"])),
            "tscale": draw(st.integers(1, 5)),
            "tshift": draw(st.integers(0, 1000)),
            "tk": draw(st.sampled_from(evt.TKINDS[:5]))}


def _kw(r, method, case):
    kw = {"scaling_factor": case["scale"], "m_ref": case["mref"],
          "b_value": case["b"]}
    if method != "classic":
        kw["times"] = r.x_t
        if r.dmc is not None:
            kw["dmc"] = float(r.dmc)
    return kw


@PROP.facet(_case, quick=1500)
def model(case, ctx):
    """a equals the definition of each method (log10 of the count; of the
    positive-pair count over its share of time; of the scaled waiting-time
    count), moved to the reference magnitude along b and reduced by the log
    of the scaling factor"""
    import numpy as np
    from seismostats.analysis import estimate_a
    r = evt.Real(case["ev"])
    for method in ("classic", "positive", "more_positive"):
        want = ref.estimate_a(method, r.mags, r.mc, r.dm, r.t, r.dmc,
                              case["b"])
        a = ref.a_reference(want["a"], r.mc, case["scale"], case["mref"],
                            case["b"])
        cls = evt.a_class(method)
        est = cls()
        kw = _kw(r, method, case)
        before = np.array(r.x_mags).copy()
        got = est.calculate(*r.args(), **kw)
        gen.same(got, a, f"{method} a-value", rtol=1e-7, atol=1e-7)
        gen.same(est.a_value, a, f"{method} a_value", rtol=1e-7, atol=1e-7)
        gen.same(est.value, a, f"{method} value", rtol=1e-7, atol=1e-7)
        gen.same(estimate_a(*r.args(), method=cls, **kw), a,
                 f"{method} function", rtol=1e-7, atol=1e-7)
        assert [int(i) for i in est.idx] == want["idx"], (
            f"{method} idx {list(est.idx)}, expected {want['idx']}")
        gen.same(est.magnitudes,
                 [float(r.mags[i]) for i in want["idx"]], "magnitudes")
        if method != "classic" and want["idx"]:
            tt = np.array(r.x_t)
            assert list(np.array(est.times)) == [tt[i] for i in want["idx"]]
        assert np.array_equal(before, np.array(r.x_mags), equal_nan=True)
        fin = math.isfinite(a)
        ctx.label(method + (" finite" if fin else " not finite"))
        ctx.nt(fin and len(want["idx"]) > 1)


@PROP.facet(_case, quick=700)
def metamorphic(case, ctx):
    """event order, the unit, origin and representation of time are
    irrelevant; a moves by -b per magnitude unit of reference and by -log10
    of the scaling factor"""
    import numpy as np
    from seismostats.analysis import estimate_a
    c = case["ev"]
    r = evt.Real(c, kind="array")
    mags, mc, dm = r.args()
    o = evt.Real(dict(c, tkind=case["tk"], t=[
        case["tscale"] * v + case["tshift"] for v in c["t"]]), kind="array")
    for method in ("classic", "positive", "more_positive"):
        cls = evt.a_class(method)
        kw = _kw(r, method, dict(case, scale=None, mref=None))
        base = estimate_a(mags, mc, dm, method=cls, **kw)
        p = case["perm"]
        k2 = dict(kw)
        if method != "classic":
            k2["times"] = np.array(r.t)[p]
        gen.same(estimate_a(mags[p], mc, dm, method=cls, **k2), base,
                 f"{method} permuted", rtol=1e-7, atol=1e-7)
        k3 = _kw(o, method, dict(case, scale=None, mref=None))
        gen.same(estimate_a(mags, mc, dm, method=cls, **k3), base,
                 f"{method} other times", rtol=1e-7, atol=1e-7)
        s = case["scale"] or 3.7
        mr = case["mref"] if case["mref"] is not None else 1.3
        gen.same(estimate_a(mags, mc, dm, method=cls,
                            **dict(kw, scaling_factor=s, m_ref=mr)),
                 base - case["b"] * (mr - mc) - math.log10(s),
                 f"{method} reference", rtol=1e-7, atol=1e-7)
        ctx.nt(math.isfinite(base) and len(mags) > 2)


@PROP.facet(lambda: st.fixed_dictionaries({
    "ev": evt.events(min_size=2, max_size=8, times="always", weights=False,
                     nan=False, zero_dx=False),
    "how": st.sampled_from(["no b", "no b more", "unbinned", "dmc"])}),
    quick=200)
def refuses(case, ctx):
    """a reference magnitude without b-value, the waiting-time method without
    b-value, unbinned magnitudes and negative cutoffs are refused"""
    from seismostats.analysis import estimate_a
    r = evt.Real(case["ev"], kind="array")
    mags, mc, dm = r.args()
    mc = float(min(r.mags))
    how = case["how"]
    kw = {}
    m = "classic"
    if how == "no b":
        kw = {"m_ref": 1.0}
    elif how == "no b more":
        m, kw = "more_positive", {"times": r.x_t}
    elif how == "unbinned":
        mags = mags.copy()
        mags[0] += 0.37 * dm
    else:
        m, kw = "positive", {"times": r.x_t, "dmc": -0.1}
    try:
        a = estimate_a(mags, mc, dm, method=evt.a_class(m), **kw)
    except ValueError:
        ctx.nt()
        return
    raise AssertionError(f"accepted, returned {a}")
