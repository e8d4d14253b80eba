"""P02  Frequency-magnitude distributions."""
import math
from fractions import Fraction

from hypothesis import strategies as st

from .. import gen
from ..core import Property

PROP = Property(
    "P02",
    "A case is a list of magnitudes (binned or continuous), a bin width, "
    "optional weights and a bin position. Non-trivial: at least two occupied "
    "bins.",
    ["magnitudes are finite; continuous magnitudes keep a relative distance "
     "of 1e-6 bin widths from bin edges"])


@st.composite
def _case(draw, zero=False):
    dx = 0 if zero else draw(st.sampled_from(
        [0.1, 0.1, 0.01, 0.2, 0.5, 0.05, 0.25, 1.0, 0.3]))
    if zero or draw(st.booleans()):
        u = 1000
    else:
        u = None
    n = draw(st.integers(1, 40))
    if u:           # continuous-looking, 3 decimals (may include duplicates)
        m = draw(st.lists(st.integers(-1000, 7000).map(lambda k: k / 1000),
                          min_size=n, max_size=n))
    else:
        b = draw(gen.binned_mags(min_size=n, max_size=n, dx=dx))
        m = gen.mags_of(b)
    w = None
    if draw(st.booleans()):
        w = draw(st.lists(st.one_of(st.just(0.0), st.just(1.0), gen.f(0, 5)),
                          min_size=n, max_size=n))
    c = gen.stretched(draw, {"m": m, "w": w}, ("m", "w"), hi=1500)
    return {"dx": dx, "m": c["m"], "w": c["w"],
            "perm": gen.perm(draw, len(c["m"])),
            "pos": draw(st.sampled_from(["center", "left"])),
            "kind": draw(st.sampled_from(["list", "array"]))}


def _bin_index(v, dx):
    q = Fraction(str(v)) / Fraction(str(dx))
    return math.floor(q + Fraction(1, 2))


def _call(fn, case, m, w):
    import numpy as np
    if case["kind"] == "array":
        m = np.array(m, dtype=float)
        w = None if w is None else np.array(w, dtype=float)
    kw = {"bin_position": case["pos"]}
    if w is not None:
        kw["weights"] = w
    return [np.asarray(a) for a in fn(m, case["dx"], **kw)]


@PROP.facet(_case, quick=1500)
def fmd(case, ctx):
    """bins are consecutive multiples of the width from the lowest to the
    highest occupied bin; each count is the number (weight) of events whose
    magnitude rounds into the bin, so nothing is lost or counted twice;
    cumulative counts are the sums from the right"""
    import numpy as np
    from seismostats.utils import get_cum_fmd, get_fmd
    dx, m, w = case["dx"], case["m"], case["w"]
    idx = [_bin_index(v, dx) for v in m]
    lo, hi = min(idx), max(idx)
    want = np.zeros(hi - lo + 1)
    for i, k in enumerate(idx):
        want[k - lo] += 1 if w is None else w[i]
    centers = np.array([gen.grid_value(k, dx) for k in range(lo, hi + 1)])
    pos = centers - (dx / 2 if case["pos"] == "left" else 0)

    bins, counts, binned = _call(get_fmd, case, m, w)
    gen.same(bins, pos, "bins")
    gen.same(counts, want, "counts")
    gen.same(binned, [gen.grid_value(k, dx) for k in idx], "binned")

    cbins, ccounts, cbinned = _call(get_cum_fmd, case, m, w)
    gen.same(cbins, pos, "cumulative bins")
    gen.same(ccounts, np.cumsum(want[::-1])[::-1], "cumulative counts")
    gen.same(cbinned, binned, "cumulative binned")

    p = case["perm"]
    b2, c2, m2 = _call(get_fmd, case, [m[i] for i in p],
                       None if w is None else [w[i] for i in p])
    gen.same(b2, pos, "bins after reordering")
    gen.same(c2, want, "counts after reordering")
    gen.same(m2, [binned[i] for i in p], "binned after reordering")
    ctx.label("weighted" if w else "unweighted")
    ctx.label(case["pos"])
    ctx.label("gap" if (want == 0).any() else "no gap")
    ctx.nt(len(set(idx)) > 1)


@PROP.facet(lambda: _case(zero=True), quick=500)
def cumulative_unbinned(case, ctx):
    """width zero: one point per distinct magnitude, its value the number
    (weight) of events at or above it"""
    import numpy as np
    from seismostats.utils import get_cum_fmd
    m, w = case["m"], case["w"]
    u = sorted(set(m))
    case = dict(case, pos="center")
    bins, c, binned = _call(get_cum_fmd, case, m, w)
    gen.same(bins, u, "bins")
    gen.same(c, [sum((1 if w is None else w[i]) for i, v in enumerate(m)
                     if v >= x) for x in u], "counts")
    gen.same(binned, m, "magnitudes")
    ctx.nt(len(u) > 1)
    assert np.asarray(c).shape == (len(u),)


@PROP.facet(lambda: st.fixed_dictionaries(
    {"dx": st.sampled_from([0, -0.1, -1]),
     "m": st.lists(gen.f(0, 5), min_size=1, max_size=3)}), quick=40)
def rejects(case, ctx):
    """a non-positive bin width is refused"""
    from seismostats.utils import get_fmd
    try:
        get_fmd(case["m"], case["dx"])
    except ValueError:
        ctx.nt()
        return
    raise AssertionError("accepted")
