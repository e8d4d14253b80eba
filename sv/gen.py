"""Generators shared by the property modules (plain data only)."""
from decimal import Decimal

from hypothesis import strategies as st

DXS = [0.1, 0.1, 0.1, 0.01, 0.2, 0.5, 0.05, 0.25, 1.0, 0.001]


def grid_value(k, dx, offset=0.0):
    """The double closest to k*dx + offset (exact decimal arithmetic)."""
    return float(Decimal(int(k)) * Decimal(str(dx)) + Decimal(str(offset)))


def grid(ks, dx, offset=0.0):
    return [grid_value(k, dx, offset) for k in ks]


def dxs():
    return st.sampled_from(DXS)


def f(lo, hi, digits=None):
    """floats in [lo, hi]; mostly short decimals, sometimes arbitrary."""
    if digits is None:
        return st.one_of(
            st.integers(int(lo * 1000), int(hi * 1000)).map(
                lambda k: k / 1000).filter(lambda v: lo <= v <= hi),
            st.floats(lo, hi, allow_nan=False, allow_subnormal=False))
    p = 10 ** digits
    return st.integers(int(round(lo * p)), int(round(hi * p))).map(
        lambda k: k / p)


@st.composite
def binned_mags(draw, min_size=1, max_size=60, dx=None, max_bins=40,
                lo_range=(-2.0, 6.0), allow_zero_dx=False):
    """dict(dx, k0, ks): magnitudes on the grid, GR-like or arbitrary."""
    if dx is None:
        dx = draw(dxs())
    k0 = draw(st.integers(int(lo_range[0] / dx), int(lo_range[1] / dx)))
    shape = draw(st.sampled_from(["flat", "gr", "few"]))
    if shape == "flat":
        e = st.integers(0, max_bins)
    elif shape == "gr":
        e = st.one_of(st.integers(0, 3), st.integers(0, 3),
                      st.integers(0, 8), st.integers(0, max_bins))
    else:
        e = st.integers(0, 2)
    ks = draw(st.lists(e, min_size=min_size, max_size=max_size))
    return {"dx": dx, "k0": k0, "ks": ks}


def mags_of(b):
    return grid([b["k0"] + k for k in b["ks"]], b["dx"])


def close(a, b, rtol=1e-9, atol=1e-9):
    """nan == nan, inf == inf, otherwise within tolerance."""
    import numpy as np
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(
        np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def same(a, b, what="", rtol=1e-9, atol=1e-9):
    assert close(a, b, rtol, atol), f"{what}: got {a!r}, expected {b!r}"


def stretched(draw, case, lists=(), unique=(), lo=80, hi=600, rate=24):
    """Now and then a large case: the listed values are resampled to a size
    no drawn list reaches (the small case decides what values occur).
    ``unique``: (key, largest value) of lists without repetitions. All lists
    keep one common length; a list that is None stays None."""
    big = draw(st.integers(0, rate))
    if big != rate:
        return case
    import random
    r = random.Random(draw(st.integers(0, 10 ** 6)))
    n = draw(st.integers(lo, hi))
    for k in lists:
        if case.get(k):
            case[k] = list(case[k]) + r.choices(
                case[k], k=max(0, n - len(case[k])))
    for k, top in unique:
        if case.get(k):
            v = list(case[k])
            have = set(v)
            while len(v) < n:
                x = r.randrange(top)
                if x not in have:
                    have.add(x)
                    v.append(x)
            if case[k] == sorted(case[k]) and len(case[k]) > 1:
                v.sort()
            case[k] = v
    return case


def perm(draw, n):
    """a permutation of range(n)"""
    if n <= 60:
        return draw(st.permutations(range(n)))
    import random
    p = list(range(n))
    random.Random(draw(st.integers(0, 10 ** 6))).shuffle(p)
    return p


def repeated(draw, elements, n, small=60):
    """n drawn values (beyond ``small`` resampled from the first ones)"""
    v = draw(st.lists(elements, min_size=min(n, small),
                      max_size=min(n, small)))
    if n > small:
        import random
        v = v + random.Random(draw(st.integers(0, 10 ** 6))).choices(
            v, k=n - small)
    return v
