"""P32  Origins and units of scales do not matter."""
import itertools
import math
import re
import uuid

from hypothesis import strategies as st

from ..core import Property
from . import p26, p28
from .p25 import D, _data

PROP = Property(
    "P32",
    "A case is a public function or method, options, generated data, and the "
    "same data on a magnitude scale with another zero, or with times that are "
    "counted from another origin or in another unit. Non-trivial: the "
    "function returned a result for both.",
    ["a number in a result either stays or moves with the scale",
     "magnitudes are moved by whole bins"])

# not judged: they do not depend on magnitudes, or on their value
NOT_MAGS = {"round_half_up", "great_circle", "to_local", "from_local",
            "transformer", "time_index", "statistics", "decluster",
            "windows_of_events", "boxes", "forecasts", "quakeml", "binned"}
# bins of another width than the data's
COARSE = {"bin_catalog", "cum_fmd", "stability", "stability_of_catalog"}
TIMED = {"b_positive", "b_more_positive", "dmc_b", "dmc_a", "incomplete",
         "partition", "a", "a_of_catalog", "b", "b_of_catalog",
         "cum_count", "mags_in_time", "decluster", "strip", "bin_catalog",
         "from_quakeml", "from_dict", "parse", "series", "to_and_fro",
         "hazard_library"}
DATE = re.compile(r"^\d{4}-\d\d-\d\d([T ][\d:.]*Z?)?$")
NUMBER = re.compile(r"(?<![\w.])-?\d+\.?\d*(e-?\d+)?(?![\w])")


class Moved(D):
    def __init__(self, c, move):
        import numpy as np
        c = dict(c)
        s = move.get("bins", 0)
        if s:
            c["k"] = [k + s for k in c["k"]]
            c["mc"] += s
        super().__init__(c)
        self.t = (self.t + move.get("t0", 0)) * move.get("unit", 1)
        self.dt = self.dt + np.timedelta64(move.get("days", 0), "D")


@st.composite
def _mags(draw, group, min_n):
    d = draw(_data(min_n))
    zero = draw(st.sampled_from([0, 0, -1, -2, -3, 1, -7, 5]))
    d["k"] = [k - d["mc"] + zero for k in d["k"]]
    d["mc"] = zero
    return {"d": d, "f": draw(st.integers(0, 10**6)),
            "other": draw(st.integers(0, 2**12 - 1)),
            "by": draw(st.sampled_from([1, 2, -1, 3, 7, -4, 11])),
            "far": draw(st.sampled_from([1, -1, 2]))}


@st.composite
def _times(draw, group, min_n):
    return {"d": draw(_data(min_n)), "f": draw(st.integers(0, 10**6)),
            "other": draw(st.integers(0, 2**12 - 1)),
            "move": {"t0": draw(st.sampled_from([0, -1, -40, 1000, -2.5,
                                                 2.0**20])),
                     "unit": draw(st.sampled_from([1, 1, 2.0, 0.125, 1024])),
                     "days": draw(st.sampled_from([1, -11000, 365, 9000,
                                                   -20000]))}}


def call(name, make, defaults, case, move):
    import matplotlib.pyplot as plt
    import numpy as np
    old = uuid.uuid4
    ids = (uuid.UUID(int=i) for i in itertools.count())
    uuid.uuid4 = lambda: next(ids)
    np.random.seed(case["d"]["seed"] % 2**31)
    plt.close("all")
    try:
        d = Moved(case["d"], move)
        f, need, other = make(d)
        opts = {k: other[k] for i, k in enumerate(defaults)
                if k in other and case["other"] >> i & 1}
        if name == "cum_count":
            opts["delta_m"] = d.dm      # the values have bins
        if name == "morans":
            opts.pop("mean_v", None)
        return p26.fp(f(**need, **opts)), None, d
    except Exception as exc:
        return None, f"{type(exc).__name__}: {exc}", None
    finally:
        uuid.uuid4 = old
        plt.close("all")


RESULT = []


def one(group, name, case, ctx):
    make, defaults = p26.FN[group][name]

    def judge(first, then, steps, what):
        r1, e1, d1 = call(name, make, defaults, case, first)
        r2, e2, d2 = call(name, make, defaults, case, then)
        assert (e1 is None) == (e2 is None), \
            f"{name}: {e1 or 'accepted'}; {what}: {e2 or 'accepted'}"
        if e1 is None:
            RESULT[:] = r1 if isinstance(r1, list) else []
            if name.startswith(("ks", "stability")):
                r1, r2 = p28.comparable(name, case["d"]["dm"], r1,
                                        r2)
            if name in ("mc_vs_b", "series", "significance") \
                    and p28.unlimited(case["d"]["dm"], r1, r2):
                ctx.label(f"{name}: unlimited")
                return e1
            if name == "in_space":
                r1["legend"] = r2["legend"] = None
            bad = differ(r1, r2, steps(d1, d2))
            assert bad is None, f"{name}: {what}: {bad}"
        return e1
    if "by" in case:
        s = case["by"] if name not in COARSE else 60 * case["far"]

        def steps(d1, d2):
            out = [0, d2.mc - d1.mc]
            if name.startswith("stability"):
                out[1] = 0.1 * s
            if name in ("kijko_smit", "weichert"):
                out = [0, 0.1 * s]      # the a-value refers to magnitude 0
                b = RESULT[0]
                out += [b * out[1], b * out[1] / math.log(10)]
            return out
        e = judge({}, {"bins": s}, steps, f"{s} bins up")
    else:
        mv = dict(case["move"])
        if name == "incomplete":        # in seconds
            mv.update(t0=int(mv["t0"]), unit=1)

        def steps(d1, d2):
            return [0, (mv["unit"], mv["t0"] * mv["unit"]), mv["days"],
                    mv["days"] * 86400] + [mv["t0"] * 7] * (
                        name == "incomplete")
        e = judge({}, mv, steps, f"times moved {mv}")
    ctx.label(name if e is None else f"{name} {e[:40]}")
    ctx.nt(e is None)


def number(v):
    import pandas as pd
    if isinstance(v, str) and DATE.match(v):
        return pd.Timestamp(v.rstrip("Z")).timestamp()
    return v


def move(x, step):
    if isinstance(step, tuple):
        return x * step[0] + step[1]
    return x + step


def differ(a, b, steps, path=""):
    """where b is neither a nor a moved by a step"""
    if isinstance(a, dict) and isinstance(b, dict):
        if a.keys() != b.keys():
            return f"{path}: {list(a)} / {list(b)}"
        for k in a:
            r = differ(a[k], b[k], steps, f"{path}.{k}")
            if r:
                return r
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: {str(a)[:150]} / {str(b)[:150]}"
        if a and all(isinstance(number(v), float) for v in a + b):
            # a list moves as a whole
            for s in steps:
                if all(close(move(number(x), s), number(y))
                       for x, y in zip(a, b)):
                    return None
        for i, (x, y) in enumerate(zip(a, b)):
            r = differ(x, y, steps, f"{path}[{i}]")
            if r:
                return r
        return None
    x, y = number(a), number(b)
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        if any(close(move(x, s), y) for s in steps):
            return None
        return f"{path}: {a} / {b}"
    if isinstance(a, str) and isinstance(b, str):
        if NUMBER.sub("#", a) == NUMBER.sub("#", b):
            return None
        if {a, b} & {"nan"}:
            v = a if b == "nan" else b
            return None if isinstance(v, str) else f"{path}: {a} / {b}"
    if a == b:
        return None
    if "nan" in (a, b):                 # no limit
        v = b if a == "nan" else a
        if isinstance(v, float) and abs(v) > 1e6:
            return None
    return f"{path}: {str(a)[:150]} / {str(b)[:150]}"


def close(a, b):
    if math.isinf(a) or math.isinf(b):
        return a == b
    if abs(a) > 1e6 and abs(b) > 1e6 and abs(a) < 1e8:
        return True
    return abs(a - b) <= 1e-6 * max(1, min(abs(a), 1e4))


def run(group, names, case, ctx):
    names = sorted(names)
    first = case["f"] % len(names)
    for i in {(first + k * (len(names) // 3)) % len(names)
              for k in range(min(3, len(names)))}:
        one(group, names[i], case, ctx)


def _case(group, n):
    return _mags(group, n)


@PROP.facet(lambda: _mags("analysis", 6), quick=900, shards=3)
def analysis(case, ctx):
    """estimators, completeness, significance"""
    run("analysis", set(p26.FN["analysis"]) - NOT_MAGS, case, ctx)


@PROP.facet(lambda: _mags("utilities", 4), quick=240, shards=2)
def utilities(case, ctx):
    """binning, simulation, catalogues"""
    run("utilities", set(p26.FN["utilities"]) - NOT_MAGS, case, ctx)


@PROP.facet(lambda: _mags("figures", 12), quick=240, shards=3)
def figures(case, ctx):
    """what is drawn"""
    run("figures", set(p26.FN["figures"]) - NOT_MAGS, case, ctx)


@PROP.facet(lambda: _times(None, 6), quick=500, shards=3)
def times(case, ctx):
    """estimators that use times, declustering, catalogues, figures in time"""
    where = {n: g for g in p26.FN for n in p26.FN[g]}
    names = sorted(TIMED & set(where))
    first = case["f"] % len(names)
    for i in {(first + k * 7) % len(names) for k in range(3)}:
        one(where[names[i]], names[i], case, ctx)
