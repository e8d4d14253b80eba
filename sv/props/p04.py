"""P04  b-positive and b-more-positive."""
import math

from hypothesis import strategies as st

from .. import evt, gen
from ..core import Property

PROP = Property(
    "P04",
    "A case is an event set with optional distinct times in any of six "
    "representations, weights, and a magnitude-difference cutoff. "
    "Non-trivial: at least two selected pairs and a finite b-value.",
    ["times are distinct; cutoffs avoid float ties; all-zero weights of the "
     "selected pairs are not judged"])


@PROP.facet(lambda: evt.events(max_size=45), quick=2000)
def pair_model(case, ctx):
    """the selected pairs are exactly those of the definition (consecutive
    in time; first later event larger by the cutoff), b is the
    maximum-likelihood estimate of their differences, and the reported
    indices, weights, times and counts all refer to the later event"""
    import numpy as np
    r = evt.Real(case)
    for method in ("positive", "more_positive"):
        want = r.ref_b(method)
        if want["w"] and not sum(want["w"]):
            ctx.discard("all weights zero")
        est = evt.method_class(method)()
        got = est.calculate(*r.args(), **r.kwargs(method))
        gen.same(got, want["b"], f"{method} b-value", rtol=1e-8)
        gen.same(est.b_value, want["b"], f"{method} b-value", rtol=1e-8)
        assert list(est.idx) == want["idx"], \
            f"{method}: idx {list(est.idx)}, expected {want['idx']}"
        gen.same(est.magnitudes, [float(v) for v in want["values"]],
                 f"{method} differences")
        assert est.n == len(want["idx"])
        gen.same(est.dmc, float(r.dm if r.dmc is None else r.dmc), "dmc")
        if r.w is not None:
            gen.same(est.weights, want["w"], f"{method} weights")
        if r.t is not None and want["idx"]:
            tt = np.array(r.x_t)
            assert list(np.array(est.times)) == [tt[i] for i in want["idx"]],\
                f"{method}: times do not belong to the selected events"
        fin = math.isfinite(want["b"])
        ctx.label(f"{method}: " + ("finite" if fin else "not finite"))
        ctx.nt(fin and len(want["idx"]) > 1)
    ctx.label("times " + str(case["tkind"]))


@st.composite
def _meta(draw):
    c = draw(evt.events(times="always", nan=False))
    return {"ev": c, "perm": gen.perm(draw, len(c["ks"])),
            "tk": draw(st.sampled_from(evt.TKINDS)),
            "shift": draw(st.integers(-20, 20)),
            "junk": draw(st.lists(st.tuples(
                st.integers(1, 20), st.integers(0, 19999)), max_size=4))}


@PROP.facet(_meta, quick=800)
def metamorphic(case, ctx):
    """with times given, event order is irrelevant; passing events already
    ordered without times is the same; the time representation, a common
    magnitude shift, and events below completeness are irrelevant"""
    import numpy as np
    from seismostats.analysis import estimate_b
    c = case["ev"]
    r = evt.Real(c, kind="array")
    for method in ("positive", "more_positive"):
        want = r.ref_b(method)
        if want["w"] and not sum(want["w"]):
            ctx.discard("all weights zero")
        kw = r.kwargs(method)
        cls = evt.method_class(method)
        mags, mc, dm = r.args()
        base = estimate_b(mags, mc, dm, method=cls, **kw)

        def sel(order, with_times=True):
            k = dict(kw)
            if "weights" in k:
                k["weights"] = np.asarray(k["weights"])[order]
            if with_times:
                k["times"] = np.array(r.t)[order]
            else:
                k.pop("times")
            return estimate_b(mags[order], mc, dm, method=cls, **k)
        gen.same(sel(case["perm"]), base, "permuted")
        order = [int(i) for i in np.argsort(r.t)]
        gen.same(sel(order, False), base, "ordered, no times")
        o = evt.Real(dict(c, tkind=case["tk"],
                          k0=c["k0"] + case["shift"]), kind="array")
        gen.same(estimate_b(*o.args(), method=cls, **o.kwargs(method)), base,
                 "shift / time kind", rtol=1e-7)
        unit = c["dx"] or 0.001
        junk = [gen.grid_value(c["k0"] + c["mck"] - 1 - k, unit)
                for k, _ in case["junk"]]
        jt = [t + 0.5 for _, t in case["junk"]]
        k = dict(kw, times=np.concatenate([jt, np.array(r.t, float)]))
        if "weights" in k:
            k["weights"] = np.concatenate([np.ones(len(jt)), k["weights"]])
        gen.same(estimate_b(np.concatenate([junk, mags]), mc, dm,
                            method=cls, **k), base, "junk below mc")
        ctx.nt(math.isfinite(base) and len(want["idx"]) > 1)


@st.composite
def _fnl(draw):
    dx = draw(st.sampled_from([0.1, 0.01, 0.5, 0.2]))
    return {"dx": dx,
            "ks": draw(st.lists(st.integers(0, 12), min_size=0,
                                max_size=25)),
            "j": draw(st.one_of(st.none(),
                                st.sampled_from([0, 1, 2, 3, 0.7])))}


@PROP.facet(_fnl, quick=500)
def next_larger(case, ctx):
    """each event is mapped to the first later event larger by the cutoff,
    zero when there is none"""
    import numpy as np
    from fractions import Fraction as Fr
    from seismostats.analysis.bvalue.utils import find_next_larger
    dx = Fr(str(case["dx"]))
    m = [dx * k for k in case["ks"]]
    dmc = dx if case["j"] is None else dx * Fr(str(case["j"]))
    got = find_next_larger(
        np.array([float(v) for v in m]), float(dx),
        None if case["j"] is None else float(dmc))
    want = [next((j for j in range(i + 1, len(m))
                  if m[j] - m[i] >= dmc - dx / 2), 0) for i in range(len(m))]
    assert list(got) == want, (list(got), want)
    ctx.nt(sum(v > 0 for v in want) > 1)


@st.composite
def _mmi(draw):
    n = draw(st.integers(1, 25))
    return {"ks": draw(st.lists(st.integers(0, 8), min_size=n, max_size=n)),
            "t": draw(st.lists(st.integers(0, 400), min_size=n, max_size=n,
                               unique=True)),
            "dt": draw(st.sampled_from([1, 10, 30, 60, 61, 200])),
            "default": draw(st.booleans())}


@PROP.facet(_mmi, quick=500)
def incompleteness_filter(case, ctx):
    """an event is dropped exactly when a strictly larger one happened less
    than the window before it; survivors come out in time order with the mask
    matching"""
    import numpy as np
    from seismostats.analysis.bvalue.utils import make_more_incomplete
    m = np.array(case["ks"]) / 10
    t = np.datetime64("2021-01-01T00:00:00") + np.array(
        case["t"]).astype("timedelta64[s]")
    dt = 60 if case["default"] else case["dt"]
    kw = {} if case["default"] else {"delta_t": np.timedelta64(dt, "s")}
    m0, t0 = m.copy(), t.copy()
    gm, gt, gi = make_more_incomplete(m, t, return_idx=True, **kw)
    gm2, gt2 = make_more_incomplete(m, t, **kw)
    assert (m == m0).all() and (t == t0).all(), "input modified"
    order = sorted(range(len(m)), key=lambda i: case["t"][i])
    keep = [not any(case["t"][i] - case["t"][j] < dt
                    and case["ks"][j] > case["ks"][i]
                    for j in order[:a]) for a, i in enumerate(order)]
    kept = [i for i, k in zip(order, keep) if k]
    assert list(gm) == list(m[kept]) == list(gm2), "magnitudes"
    assert list(gt) == list(t[kept]) == list(gt2), "times"
    gi = np.asarray(gi)
    if gi.dtype == bool:
        assert list(gi) == keep
    ctx.nt(0 < len(kept) < len(m))
