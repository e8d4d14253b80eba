"""P01  Binning to a precision."""
import math
from fractions import Fraction

from hypothesis import strategies as st

from .. import gen
from ..core import Property

PROP = Property(
    "P01",
    "A case is a bin width plus values placed on, near and between grid "
    "points (ties and 1-ulp neighbours included). Non-trivial: at least two "
    "distinct values that the rounding moves, or a grid test whose answer "
    "depends on a perturbed element.",
    ["bin widths are decimal numbers of at most 4 significant digits, not "
     "below 1e-7", "values up to 2e5 bins or 12 units from zero"])

_DX = [0.1, 0.1, 0.01, 0.2, 0.5, 0.05, 0.25, 1.0, 0.001, 0.3, 0.15, 2.0,
       0.0001, 1, 2, 10.0, 0.4, 0.025]


def _dxs():
    """common widths, and any decimal width from 1e-7 to 100"""
    return st.one_of(
        st.sampled_from(_DX), st.sampled_from(_DX),
        st.builds(lambda m, e: float(f"{m}e{e}"), st.one_of(
            st.sampled_from([1, 2, 5]), st.integers(1, 999)),
            st.integers(-7, -1)))


@st.composite
def _values(draw):
    dx = draw(_dxs())
    n = min(int(12 / dx) + 2, 200000)
    k = st.integers(-n, n)
    frac = st.one_of(
        st.just(0.0), st.just(0.5), st.just(-0.5),
        st.integers(-499, 499).map(lambda i: i / 1000),
        st.sampled_from([0.5 - 1e-10, -0.5 - 1e-10, 0.5 - 1e-9, -0.5 - 1e-9,
                         0.5 + 1e-10, 0.5 - 1e-7]),
        st.floats(-0.49, 0.49, allow_subnormal=False))
    pts = draw(st.lists(st.tuples(k, frac), min_size=1, max_size=12))
    kind = draw(st.sampled_from(["list", "array", "series"]))
    return {"dx": dx, "pts": pts, "kind": kind}


def _wrap(vals, kind):
    import numpy as np
    import pandas as pd
    if kind == "list":
        return list(vals)
    if kind == "array":
        return np.array(vals)
    return pd.Series(vals, index=[10 + 3 * i for i in range(len(vals))])


@PROP.facet(_values, quick=1500)
def nearest_multiple(case, ctx):
    """every value goes to the closest multiple, ties upwards; order and
    length kept; result representable on the grid; idempotent; monotone"""
    import numpy as np
    from seismostats.utils import bin_to_precision
    dx = case["dx"]
    F = Fraction(str(dx))
    vals = [float((k + Fraction(fr)) * F) for k, fr in case["pts"]]
    x = _wrap(vals, case["kind"])
    before = list(vals)
    out = bin_to_precision(x, dx)
    assert list(np.asarray(x)) == before, "input was modified"
    out = np.asarray(out, dtype=float)
    assert out.shape == (len(vals),), "length changed"
    moved = 0
    for v, r, (k, fr) in zip(vals, out, case["pts"]):
        q = Fraction(v) / F
        kk = round(Fraction(r) / F)
        target = float(kk * F)
        assert abs(r - target) <= 1e-9 * dx + 4e-16 * abs(target), (
            f"{r!r} is not a multiple of {dx} (from {v!r})")
        d = q - kk
        # within half a bin; a tie must go up
        slack = Fraction(1, 10**11 if abs(q) < 1000 else 10**8)
        assert abs(d) <= Fraction(1, 2) + slack, (
            f"{v!r} -> {r!r}: not the nearest multiple of {dx}")
        if fr in (0.5, -0.5) and abs(k) < 1000:
            ctx.label("tie")
            want = math.floor(k + fr + 0.5)
            assert kk == want, f"tie {v!r} -> {r!r} does not round up"
        if abs(d) > 1e-6:
            moved += 1
    again = np.asarray(bin_to_precision(out, dx), dtype=float)
    assert (again == out).all(), f"not idempotent: {out} -> {again}"
    o = np.argsort(vals, kind="stable")
    assert (np.diff(out[o]) >= 0).all(), "order not preserved"
    ctx.nt(moved >= 2)


@st.composite
def _shift(draw):
    dx = draw(_dxs())
    ks = draw(st.lists(st.tuples(
        st.integers(-200, 200), st.integers(-48, 48)),
        min_size=1, max_size=10))
    return {"dx": dx, "pts": ks, "shift": draw(st.integers(-300, 300))}


@PROP.facet(_shift, quick=500)
def translation(case, ctx):
    """shifting all values by whole bins shifts the result by whole bins"""
    import numpy as np
    from seismostats.utils import bin_to_precision
    F = Fraction(str(case["dx"]))
    v1 = [float((k + Fraction(p, 100)) * F) for k, p in case["pts"]]
    v2 = [float((k + case["shift"] + Fraction(p, 100)) * F)
          for k, p in case["pts"]]
    a = np.asarray(bin_to_precision(v1, case["dx"]), dtype=float)
    b = np.asarray(bin_to_precision(v2, case["dx"]), dtype=float)
    gen.same(b - a, [float(case["shift"] * F)] * len(a), "shift", atol=1e-8)
    ctx.nt(case["shift"] != 0 and any(p for _, p in case["pts"]))


@st.composite
def _ongrid(draw):
    dx = draw(_dxs())
    n = draw(st.integers(1, 12))
    hi = min(int(10 / dx) + 2, 10000)
    k0 = draw(st.integers(-hi // 2, hi))
    ks = draw(st.lists(st.integers(0, hi), min_size=n, max_size=n))
    off = draw(st.sampled_from([0, 0, 0, 0.5, 0.25, 0.1]))
    pert = draw(st.one_of(
        st.none(), st.tuples(st.integers(0, n - 1), st.integers(2, 98))))
    nan = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:    # the largest is next to zero
        k0, ks = draw(st.integers(-2, 0)), [-k for k in ks]
    return {"dx": dx, "k": [k0 + k for k in ks], "off": off, "pert": pert,
            "nan": nan, "larger": draw(st.booleans())}


@PROP.facet(_ongrid, quick=1500)
def grid_test(case, ctx):
    """the grid test accepts exactly the data lying on one (possibly offset)
    grid; with the larger-grid check it rejects data that also lie on the
    next power of ten"""
    import numpy as np
    from seismostats.utils import binning_test
    F = Fraction(str(case["dx"]))
    q = [Fraction(k) for k in case["k"]]
    if case["pert"]:
        i, p = case["pert"]
        q[i] += Fraction(p, 100)
    vals = [float((v + Fraction(str(case["off"]))) * F) for v in q]
    on = all((v - min(q)).denominator == 1 for v in q)
    big = Fraction(10) ** (math.floor(math.log10(case["dx"]) + 1e-9) + 1)
    onbig = all(((v - min(q)) * F / big).denominator == 1 for v in q)
    x = list(vals)
    if case["nan"]:
        x.insert(len(x) // 2, float("nan"))
    got = binning_test(np.array(x), case["dx"],
                       check_larger_binning=case["larger"])
    if case["larger"]:
        # perturbations that are themselves on the grid are handled by `on`
        want = on and not onbig
    else:
        want = on
    assert bool(got) == want, (
        f"binning_test({x}, {case['dx']}, larger={case['larger']}) = {got}, "
        f"expected {want}")
    ctx.label("on grid" if on else "off grid")
    ctx.label("on larger grid" if onbig else "not on larger grid")
    ctx.nt(len(set(q)) > 1)


@st.composite
def _zero(draw):
    p = draw(st.sampled_from([-1, -2, -3, 0]))
    ks = draw(st.lists(st.integers(0, 11 * 10 ** -p), min_size=2,
                       max_size=10, unique=True))
    cont = draw(st.booleans())
    fr = draw(st.lists(st.floats(0.1, 0.9), min_size=len(ks),
                       max_size=len(ks)))
    return {"p": p, "ks": ks, "cont": cont, "fr": fr}


@PROP.facet(_zero, quick=400)
def zero_width(case, ctx):
    """a bin width of zero asks whether the data are continuous: false for
    data binned to a power of ten, true for data with many digits"""
    from seismostats.utils import binning_test
    F = Fraction(10) ** case["p"]
    import numpy as np
    if case["cont"]:
        v = [float(k * F) + fr * float(F) * math.pi / 4
             for k, fr in zip(case["ks"], case["fr"])]
        # continuous = not on a grid of 1e-11 or coarser (exact arithmetic)
        d = [(Fraction(a) - Fraction(min(v))) * 10 ** 11 for a in v]
        if all(abs(a - round(a)) < Fraction(1, 50) for a in d):
            ctx.discard("looks binned")
        want = True
    else:
        v = [float(k * F) for k in case["ks"]]
        want = False
    got = binning_test(np.array(v), 0)
    assert bool(got) == want, f"binning_test({v}, 0) = {got}"
    ctx.label("continuous" if case["cont"] else "binned")
    ctx.nt()


@PROP.facet(lambda: st.sampled_from([0, 0.0, -0.1, 1e-13, -1]).flatmap(
    lambda d: st.fixed_dictionaries(
        {"dx": st.just(d), "v": st.lists(gen.f(-3, 9), min_size=1,
                                         max_size=4)})), quick=60)
def rejects_bad_width(case, ctx):
    """a non-positive width is refused, never silently rounded with"""
    from seismostats.utils import bin_to_precision
    try:
        bin_to_precision(case["v"], case["dx"])
    except ValueError:
        ctx.nt()
        return
    raise AssertionError(f"width {case['dx']} accepted")
