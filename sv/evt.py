"""Generated event sets (integers on a grid) and their realisations."""
import datetime as dt
from fractions import Fraction as Fr

from hypothesis import strategies as st

from . import gen

METHODS = ["classic", "utsu", "positive", "more_positive"]
TKINDS = ["int", "float", "dt64", "datetime", "series", "strlist"]


def method_class(name):
    from seismostats.analysis import (BMorePositiveBValueEstimator,
                                      BPositiveBValueEstimator,
                                      ClassicBValueEstimator,
                                      UtsuBValueEstimator)
    return {"classic": ClassicBValueEstimator, "utsu": UtsuBValueEstimator,
            "positive": BPositiveBValueEstimator,
            "more_positive": BMorePositiveBValueEstimator}[name]


def a_class(name):
    from seismostats.analysis import (AMorePositiveAValueEstimator,
                                      APositiveAValueEstimator,
                                      ClassicAValueEstimator)
    return {"classic": ClassicAValueEstimator,
            "positive": APositiveAValueEstimator,
            "more_positive": AMorePositiveAValueEstimator}[name]


@st.composite
def events(draw, min_size=1, max_size=40, zero_dx=True, times="maybe",
           weights=True, nan=True, dxs=None, big=400):
    """An event set on a magnitude grid; selection decisions never fall on a
    floating-point tie (offsets of mc and dmc avoid half bins)."""
    dx = draw(st.sampled_from(dxs or (gen.DXS + ([0, 0] if zero_dx else []))))
    unit = dx if dx else 0.001
    n = draw(st.integers(min_size, max_size))
    shape = draw(st.sampled_from(["flat", "gr", "gr", "few"]))
    e = {"flat": st.integers(0, 30),
         "gr": st.one_of(st.integers(0, 3), st.integers(0, 5),
                         st.integers(0, 25)),
         "few": st.integers(0, 2)}[shape]
    if dx == 0 and shape != "few":
        e = st.integers(0, 4000)
    ks = draw(st.lists(e, min_size=n, max_size=n))
    k0 = draw(st.integers(int(-1.5 / unit), int(7.5 / unit)))
    case = {"dx": dx, "k0": k0, "ks": ks}
    below = draw(st.sampled_from([0, 0, 1, 2, 5]))
    span = max(1, (max(ks) if ks else 1))
    case["mck"] = draw(st.sampled_from(
        [0, 0, 0, 1, 2, -1, -3])) if not below else draw(
        st.integers(0, span + (1 if below == 5 else 0)))
    case["mcoff"] = draw(st.sampled_from([0, 0, 0, 0, 0.3, -0.3]))
    case["dmcj"] = draw(st.one_of(
        st.none(), st.sampled_from([0, 1, 1, 2, 3, 5, 0.7, 1.7])
        if dx else st.sampled_from([0, 0.7, 3.5, 20.3])))
    case["w"] = None
    if weights and draw(st.booleans()):
        case["w"] = draw(st.lists(
            st.one_of(st.sampled_from([0.0, 1.0, 2.0, 0.5]),
                      gen.f(0.001, 3)), min_size=n, max_size=n))
    case["t"], case["tkind"] = None, None
    if times == "always" or (times == "maybe" and draw(st.booleans())):
        case["t"] = draw(st.lists(st.integers(0, 20000), min_size=n,
                                  max_size=n, unique=True))
        case["tkind"] = draw(st.sampled_from(TKINDS))
        if draw(st.integers(0, 3)) == 0:
            case["t"] = sorted(case["t"])
    case["nan"] = []
    if nan and draw(st.integers(0, 3)) == 0:
        case["nan"] = draw(st.lists(st.integers(0, n - 1), max_size=3,
                                    unique=True))
        if len(case["nan"]) >= n:
            case["nan"] = []
    case["kind"] = draw(st.sampled_from(["array", "list", "series"]))
    return gen.stretched(draw, case, ("ks", "w"), [("t", 20000)], hi=big) \
        if big and n else case


class Real:
    """Realisation of a case: exact values for the model, floats for the
    code."""

    def __init__(self, c, kind=None):
        import numpy as np
        import pandas as pd
        self.c = c
        self.dm = Fr(str(c["dx"]))
        unit = self.dm if self.dm else Fr(1, 1000)
        n = len(c["ks"])
        self.mags = [unit * (c["k0"] + k) for k in c["ks"]]
        self.fm = [float(m) for m in self.mags]
        for i in c["nan"]:
            self.mags[i] = None
            self.fm[i] = float("nan")
        off = Fr(str(c["mcoff"])) if c["mcoff"] else 0
        self.mc = unit * (c["k0"] + c["mck"] + off)
        self.dmc = None
        if c["dmcj"] is not None:
            self.dmc = unit * Fr(str(c["dmcj"]))
        self.w = c["w"]
        self.t = c["t"]
        kind = kind or c["kind"]
        index = [5 * i + 2 for i in range(n)][::-1]

        def wrap(v):
            if v is None:
                return None
            if kind == "list":
                return list(v)
            if kind == "series":
                return pd.Series(list(v), index=index, dtype=float)
            return np.array(v, dtype=float)
        self.x_mags = wrap(self.fm)
        self.x_w = wrap(self.w)
        self.x_t = self.times(c["tkind"], index)

    def times(self, kind, index):
        import numpy as np
        import pandas as pd
        t = self.t
        if t is None:
            return None
        base = dt.datetime(2020, 2, 28, 23, 0, 0)
        if kind == "int":
            return np.array(t)
        if kind == "float":
            return [float(v) / 7 for v in t]
        d = [base + dt.timedelta(seconds=37 * v) for v in t]
        if kind == "dt64":
            return np.array(d, dtype="datetime64[s]")
        if kind == "datetime":
            return d
        if kind == "series":
            return pd.Series(pd.to_datetime(d), index=index)
        return np.array(d, dtype="datetime64[ms]")

    def kwargs(self, method):
        kw = {}
        if self.x_w is not None:
            kw["weights"] = self.x_w
        if method in ("positive", "more_positive"):
            if self.x_t is not None:
                kw["times"] = self.x_t
            if self.dmc is not None:
                kw["dmc"] = float(self.dmc)
        return kw

    def degenerate(self, w=None):
        """off-grid completeness and a mean excess of about zero: the
        estimate is a ratio of rounding errors"""
        if not self.c["mcoff"]:
            return False
        w = w or self.w or [1] * len(self.mags)
        v = [(m - self.mc, Fr(a)) for m, a in zip(self.mags, w)
             if m is not None and m >= self.mc - self.dm / 2]
        unit = self.dm or Fr(1, 1000)
        tot = sum(a for _, a in v)
        return bool(tot) and sum(x * a for x, a in v) / tot <= unit / 1000

    def args(self):
        return self.x_mags, float(self.mc), self.c["dx"]

    def ref_b(self, method):
        from . import ref
        return ref.estimate_b(method, self.mags, self.mc, self.dm,
                              self.w, self.t, self.dmc)
