"""P28  Rounding of the numbers given does not matter."""
import itertools
import uuid

from hypothesis import strategies as st

from .. import gen
from ..core import Property
from . import p26
from .p25 import D, _data

PROP = Property(
    "P28",
    "A case is a public function or method, generated data and options; "
    "magnitudes and completeness values are given once as the closest "
    "doubles, once with rounding errors. Non-trivial: the function returned a "
    "result, and a number was changed.",
    ["rounding errors are those of a product, a sum, or of a few units in the "
     "last place"])

# not judged: what is drawn or returned do not depend on magnitudes, or are
# texts; or values are compared that have no bins
SKIP = {"round_half_up", "great_circle", "to_local", "from_local",
        "transformer", "time_index", "statistics", "from_dict", "parse",
        "quakeml", "from_quakeml", "incomplete", "cum_count",
        "in_space", "decluster"}

# options without which the result depends on single values
SET = {"ks": ["mcs_test"], "ks_of_catalog": ["mcs_test"]}


def noisy(how, seed):
    """a function like grid_value with rounding errors"""
    import math
    real = gen.grid_value
    n = itertools.count(seed)

    def value(k, dx, offset=0.0):
        x = real(k, dx, offset)
        i = next(n) * 2654435761 >> 7
        if how == "product":
            return k * dx + offset
        if how == "sum":
            return (k + 7) * dx + (offset - 7 * dx)
        return math.nextafter(x, (math.inf, x, -math.inf)[i % 3])
    return value


@st.composite
def _case(draw, group, min_n):
    return {"d": draw(_data(min_n)), "f": draw(st.integers(0, 10**6)),
            "other": draw(st.integers(0, 2**12 - 1)),
            "how": draw(st.sampled_from(["product", "sum", "ulp"])),
            "seed": draw(st.integers(0, 99))}


def run(group, case, ctx):
    names = sorted(set(p26.FN[group]) - SKIP)
    first = case["f"] % len(names)
    for i in {(first + k * (len(names) // 3)) % len(names)
              for k in range(min(3, len(names)))}:
        one(group, names[i], case, ctx)


def one(group, name, case, ctx):
    import matplotlib.pyplot as plt
    import numpy as np
    make, defaults = p26.FN[group][name]

    def call(value):
        old = gen.grid_value, uuid.uuid4
        ids = (uuid.UUID(int=i) for i in itertools.count())
        uuid.uuid4 = lambda: next(ids)
        np.random.seed(case["d"]["seed"] % 2**31)
        plt.close("all")
        given = []

        def record(k, dx, offset=0.0):
            given.append(value(k, dx, offset))
            return given[-1]
        gen.grid_value = record
        try:
            d = D(case["d"])
            f, need, other = make(d)
            opts = {k: other[k] for i, k in enumerate(defaults)
                    if k in other and (case["other"] >> i & 1
                                       or k in SET.get(name, []))}
            if name == "cum_fmd":
                opts["fmd_bin"] = d.dm  # the bins of mc
            return p26.fp(f(**need, **opts)), None, given
        except Exception as exc:
            return None, f"{type(exc).__name__}: {exc}", given
        finally:
            gen.grid_value, uuid.uuid4 = old
            plt.close("all")

    r1, e1, g1 = call(gen.grid_value)
    r2, e2, g2 = call(noisy(case["how"], case["seed"]))
    assert (e1 is None) == (e2 is None), \
        f"{name}: {e1 or 'accepted'}, with rounding errors {e2 or 'accepted'}"
    text = str(r1)
    if group == "analysis" and ("nan" in text or "inf" in text):
        ctx.label(f"{name}: unlimited")
        return
    if isinstance(r1, dict) and "lines" in r1 and unlimited(case["d"]["dm"], r1, r2):
        ctx.label(f"{name}: unlimited")
        return
    if name.startswith(("ks", "stability")) and e1 is None:
        r1, r2 = comparable(name, case["d"]["dm"], r1, r2)
    assert near(r1, r2), \
        f"{name}: with rounding errors {p26.where(r2, r1)}"
    ctx.label(name if e1 is None else f"{name} error")
    ctx.nt(e1 is None and g1 != g2)


def comparable(name, dm, r1, r2):
    """distances may be equal to simulated ones, or to each other; then
    p-values and the choice may differ; what follows an unlimited estimate is
    not judged"""
    d = "ks_ds" if name[0] == "k" else "diff_bs"
    n = min(len(r[1][d]) for r in (r1, r2))
    for r in (r1, r2):
        for i, b in enumerate(r[1]["b_values_tested"]):
            if not isinstance(b, float) or abs(b) > 10 / dm:
                n = min(n, i)
    return ([r[1][k][:n] for k in ("mcs_tested", "b_values_tested", d)]
            for r in (r1, r2))


def unlimited(dm, *figs):
    """b-values of events that are all in one bin, up to rounding"""
    ys = [ln[1] for f in figs for ln in f["lines"]]
    return any(isinstance(y, float) and abs(y) > 10 / dm
               for v in ys for y in v) \
        or len({sum(y == "nan" for ln in f["lines"] for y in ln[1])
                for f in figs}) > 1


def near(a, b):
    if isinstance(a, float) and b == "nan":
        a, b = b, a
    if a == "nan" and isinstance(b, float):
        return abs(b) > 1e6  # no limit
    if isinstance(a, float) and isinstance(b, float):
        if abs(a) > 1e6 and abs(b) > 1e6:
            return True
        return a == b or abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(map(near, a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(near(a[k], b[k]) for k in a)
    if isinstance(a, str):
        return a.replace("-0.00", "0.00") == b.replace("-0.00", "0.00")
    return a == b


@PROP.facet(lambda: _case("analysis", 6), quick=900, shards=3)
def analysis(case, ctx):
    """estimators, completeness, significance"""
    run("analysis", case, ctx)


@PROP.facet(lambda: _case("utilities", 4), quick=240, shards=2)
def utilities(case, ctx):
    """binning, simulation, catalogues, QuakeML"""
    run("utilities", case, ctx)


@PROP.facet(lambda: _case("figures", 12), quick=240, shards=3)
def figures(case, ctx):
    """what is drawn"""
    run("figures", case, ctx)
