"""P05  Estimators are functions of their arguments."""
import math

from hypothesis import strategies as st

from .. import evt, gen
from ..core import Property

PROP = Property(
    "P05",
    "A case is a sequence of calculations (valid and refused ones) on one "
    "estimator object, or one event set evaluated through every entry point. "
    "Non-trivial: at least two successful calculations with different "
    "arguments, the last with a finite result.",
    ["an estimator that refused its input is only judged after its next "
     "successful calculation"])


@st.composite
def _history(draw):
    kind = draw(st.sampled_from(["b", "a"]))
    if kind == "b":
        m = draw(st.sampled_from(evt.METHODS))
        evs = evt.events(max_size=20)
    else:
        m = draw(st.sampled_from(["classic", "positive", "more_positive"]))
        evs = evt.events(max_size=20, times="always", weights=False)
    steps = draw(st.lists(st.fixed_dictionaries({
        "ev": evs,
        "bad": st.sampled_from([None, None, None, "neg", "len", "unbinned"]),
        "scale": st.one_of(st.none(), gen.f(0.1, 50)),
        "mref": st.one_of(st.none(), gen.f(-2, 8)),
        "b": gen.f(0.5, 2)}), min_size=2, max_size=5))
    return {"kind": kind, "method": m, "steps": steps}


def _snap(est):
    import numpy as np
    out = {}
    for k in ("b_value", "beta", "value", "n", "a_value", "idx", "magnitudes",
              "weights", "times", "mc", "delta_m", "dmc", "scaling_factor",
              "m_ref"):
        if not hasattr(type(est), k) and k not in vars(est):
            continue
        try:
            v = getattr(est, k)
        except AttributeError:
            v = "AttributeError"
        out[k] = None if v is None else np.array(v).copy()
    return out


def _equal(a, b):
    import numpy as np
    if a is None or b is None:
        return a is None and b is None
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind == "f":
        return np.array_equal(a, b, equal_nan=True) or np.allclose(
            a, b, rtol=1e-12, atol=0, equal_nan=True)
    return np.array_equal(a, b)


def _call(est, case, step):
    r = evt.Real(step["ev"])
    kw = r.kwargs(case["method"])
    if case["kind"] == "a":
        kw.pop("weights", None)
        kw["scaling_factor"] = step["scale"]
        kw["m_ref"] = step["mref"]
        kw["b_value"] = step["b"]
    mags, mc, dm = r.args()
    if step["bad"] == "neg" and case["kind"] == "b":
        kw["weights"] = [-1.0] * len(r.fm)
    elif step["bad"] == "len" and case["kind"] == "b":
        kw["weights"] = [1.0] * (len(r.fm) + 1)
    elif step["bad"] == "unbinned" and dm and len(r.fm) > 1 and \
            not step["ev"]["nan"]:
        mags = [*r.fm[:-1], r.fm[-1] + 0.37 * dm]
    return est.calculate(mags, mc, dm, **kw)


@PROP.facet(_history, quick=900)
def reuse(case, ctx):
    """an estimator used again gives exactly what a new one gives: nothing
    from earlier calculations (weights, times, cutoffs, results) leaks into
    later ones, also after a refused calculation"""
    cls = evt.method_class(case["method"]) if case["kind"] == "b" \
        else evt.a_class(case["method"])
    shared = cls()
    ok = 0
    for i, step in enumerate(case["steps"]):
        fresh = cls()
        try:
            want = _call(fresh, case, step)
        except (ValueError, IndexError, ZeroDivisionError) as exc:
            try:
                _call(shared, case, step)
            except type(exc):
                ctx.label("refused")
                continue
            raise AssertionError(f"step {i}: refused only when new") from exc
        got = _call(shared, case, step)
        gen.same(got, want, f"step {i} result", rtol=1e-12)
        a, b = _snap(shared), _snap(fresh)
        for k in b:
            assert _equal(a[k], b[k]), (
                f"step {i}: {k} is {a[k]} on the reused estimator, "
                f"{b[k]} on a new one")
        if case["kind"] == "b" and case["method"] != "more_positive":
            try:
                ws = fresh.std
            except ZeroDivisionError:
                continue
            gen.same(shared.std, ws, f"step {i} std", rtol=1e-12)
        ok += 1
        last = want
    ctx.label(case["kind"] + " " + case["method"])
    ctx.nt(ok > 1 and math.isfinite(last))


@st.composite
def _entry(draw):
    return {"ev": draw(evt.events(max_size=25)),
            "method": draw(st.sampled_from(evt.METHODS)),
            "par": draw(st.sampled_from(["b_value", "beta"])),
            "std": draw(st.booleans()), "n": draw(st.booleans())}


@PROP.facet(_entry, quick=900)
def entry_points(case, ctx):
    """the function form returns exactly the estimator's value, uncertainty
    and event count in the documented order, as beta when asked; asking for
    more outputs never changes or prevents the others; inputs are not
    modified"""
    import numpy as np
    from seismostats.analysis import estimate_b
    r = evt.Real(case["ev"])
    method = case["method"]
    w = r.ref_b(method)["w"]
    if w and not sum(w):
        ctx.discard("all weights zero")
    cls = evt.method_class(method)
    kw = r.kwargs(method)
    mags, mc, dm = r.args()
    before = [np.array(v).copy() for v in (mags, *kw.values())]
    est = cls()
    est.calculate(mags, mc, dm, **kw)
    fast = method != "more_positive"
    if not fast and case["std"]:
        case = dict(case, std=False)        # bootstrap, see P06
    out = estimate_b(mags, mc, dm, b_parameter=case["par"],
                     return_std=case["std"], return_n=case["n"],
                     method=cls, **kw)
    beta = case["par"] == "beta"
    want = [est.beta if beta else est.b_value]
    if case["std"]:
        want.append(est.std_beta if beta else est.std)
    if case["n"]:
        want.append(est.n)
    if len(want) == 1:
        assert np.ndim(out) == 0, f"expected a number, got {out!r}"
        out = (out,)
    assert len(out) == len(want), f"expected {len(want)} outputs: {out!r}"
    for i, (a, b) in enumerate(zip(out, want)):
        gen.same(a, b, f"output {i} of std={case['std']} n={case['n']}")
    gen.same(est.beta, est.b_value * math.log(10), "beta = b ln 10")
    gen.same(est.value, est.b_value, "value")
    for a, b in zip(before, (mags, *kw.values())):
        assert _equal(a, np.array(b)), "an input was modified"
    ctx.label(f"std={case['std']} n={case['n']}")
    ctx.nt(math.isfinite(est.b_value) and est.n > 1)


@PROP.facet(lambda: st.fixed_dictionaries({
    "kind": st.sampled_from(["b " + m for m in evt.METHODS] +
                            ["a classic", "a positive", "a more_positive"]),
    "attr": st.sampled_from(["value", "b_value", "beta", "std", "std_beta",
                             "n", "a_value"])}), quick=80)
def before_calculation(case, ctx):
    """asking for a result before any calculation is an error, not a
    number"""
    kind, m = case["kind"].split(" ", 1)
    est = (evt.method_class(m) if kind == "b" else evt.a_class(m))()
    if kind == "a" and case["attr"] not in ("value", "a_value"):
        ctx.discard("not an attribute of a-value estimators")
    if kind == "b" and case["attr"] == "a_value":
        ctx.discard("not an attribute of b-value estimators")
    try:
        v = getattr(est, case["attr"])
    except AttributeError:
        ctx.nt()
        return
    raise AssertionError(f"{case} gave {v!r} before any calculation")
