"""P12  Significance of b-value variations."""
import math
from fractions import Fraction as Fr

from hypothesis import strategies as st

from .. import evt, gen, ref
from ..core import Property

PROP = Property(
    "P12",
    "A case is a series of values with a neighbour relation, or a series of "
    "events (magnitude, time, position along the axis of interest, own "
    "completeness) with window length and estimation method. Non-trivial: "
    "at least three values, not all equal; at least three windows.",
    ["positions and times are all different; series whose window estimates "
     "are infinite or all equal are not judged"])


@st.composite
def _moran(draw):
    n = draw(st.one_of(*[st.integers(2, 12)] * 9, st.integers(40, 90)))
    v = draw(st.lists(st.one_of(
        gen.f(-3, 3), gen.f(-3, 3), st.integers(-3, 3), st.none()),
        min_size=n, max_size=n))
    form = draw(st.sampled_from(["none", "upper", "lower", "sym"]))
    pairs = draw(st.lists(st.tuples(st.integers(0, n - 1),
                                    st.integers(0, n - 1)), max_size=20))
    return {"v": v, "form": form, "pairs": [list(p) for p in pairs],
            "diag": draw(st.booleans()),
            "mean": draw(st.one_of(st.none(), gen.f(-1, 1))),
            "int": draw(st.booleans())}


@PROP.facet(_moran, quick=900, shards=2)
def morans_i(case, ctx):
    """Moran's I is the mean product of the deviations over neighbouring pairs
    of present values relative to their variance (n-1 normalisation), the
    same for triangular and symmetric neighbour matrices; it reports how many
    values and pairs took part"""
    import numpy as np
    from seismostats.analysis.b_significant import est_morans_i
    v = case["v"]
    n = len(v)
    x = np.array([math.nan if a is None else float(a) for a in v])
    ok = [i for i in range(n) if v[i] is not None]
    if case["form"] == "none":
        pairs = {(i, i + 1) for i in range(n - 1)}
        w = None
    else:
        pairs = {(min(p), max(p)) for p in case["pairs"] if p[0] != p[1]}
        w = np.zeros((n, n), dtype=int if case["int"] else float)
        for i, j in pairs:
            if case["form"] in ("upper", "sym"):
                w[i, j] = 1
            if case["form"] in ("lower", "sym"):
                w[j, i] = 1
        if case["diag"]:
            w[0, 0] = 1
    use = [(i, j) for i, j in pairs if i in ok and j in ok]
    if not ok:
        ctx.discard("no values")
    mu = case["mean"] if case["mean"] is not None else \
        sum(v[i] for i in ok) / len(ok)
    dev = {i: v[i] - mu for i in ok}
    var = sum(d * d for d in dev.values())
    keep_x, keep_w = x.copy(), None if w is None else w.copy()
    ac, nn, npairs = est_morans_i(x, w, mean_v=case["mean"])
    assert np.array_equal(x, keep_x, equal_nan=True), "values changed"
    assert w is None or np.array_equal(w, keep_w), "matrix changed"
    assert nn == len(ok), (nn, len(ok))
    assert npairs == len(use), (npairs, len(use))
    if not use or var < 1e-9:
        ctx.label("no pairs or no variance")
        return
    exp = (len(ok) - 1) / len(use) * sum(
        dev[i] * dev[j] for i, j in use) / var
    gen.same(ac, exp, "Moran's I")
    ctx.nt(len(ok) > 2)


@st.composite
def _tr(draw):
    m = draw(st.integers(1, 5))
    n1 = [draw(st.integers(1, 500)) for _ in range(m)]
    return {"b": [draw(gen.f(0.3, 2.5)) for _ in range(m)],
            "true": draw(gen.f(0.5, 2.0)), "n1": n1,
            "add": [draw(st.sampled_from([0, 0, 1, 50, 1000]))
                    for _ in range(m)],
            "scalar": draw(st.booleans())}


@PROP.facet(_tr, quick=400)
def transform(case, ctx):
    """transforming estimates to a larger sample size shrinks the deviation of
    the inverse from the true inverse by the root of the ratio of the sizes;
    same size: unchanged; a smaller size is refused"""
    import numpy as np
    from seismostats.analysis.b_significant import transform_n
    b, bt = np.array(case["b"]), case["true"]
    n1 = np.array(case["n1"])
    n2 = n1 + np.array(case["add"])
    f = np.sqrt(n1 / n2)
    den = 1 / bt + f * (1 / b - 1 / bt)
    if case["scalar"]:
        y = np.array([transform_n(float(b[i]), bt, int(n1[i]), int(n2[i]))
                      for i in range(len(b))])
    else:
        y = transform_n(b, bt, n1, n2)
    gen.same(y, 1 / den, "transformed b")
    try:
        transform_n(b, bt, n2 + 1, n2)
    except ValueError:
        pass
    else:
        raise AssertionError("n1 > n2 accepted")
    ctx.nt(any(a > 0 for a in case["add"]))


@st.composite
def _cut(draw):
    n = draw(st.integers(1, 9))
    return {"len": draw(st.integers(0, 40)), "n": n,
            "offset": draw(st.integers(0, n + 1))}


@PROP.facet(_cut, quick=500)
def cut(case, ctx):
    """cutting a series keeps every value once and in order; all pieces but
    the first (which has 'offset' values) and the last have n values"""
    import numpy as np
    from seismostats.analysis.b_significant import cut_constant_idx
    x = np.arange(case["len"]) * 3 + 1
    n, off = case["n"], case["offset"]
    try:
        idx, sub = cut_constant_idx(x, n, offset=off)
    except ValueError:
        assert off >= n, f"offset {off} < {n} refused"
        return
    assert off < n, "offset >= n accepted"
    assert np.array_equal(np.concatenate(sub), x), "values lost or reordered"
    starts = list(range(off, len(x), n))
    if off == 0:
        starts = starts[1:]
    assert list(idx) == starts, (list(idx), starts)
    sizes = [len(s) for s in sub]
    edges = [0] + starts + [len(x)]
    assert sizes == [b - a for a, b in zip(edges, edges[1:])]
    ctx.nt(len(sub) > 2)


METHODS = ["classic", "utsu", "positive", "more_positive", "a_classic",
           "a_positive", "a_more_positive"]


def _method(name):
    if name.startswith("a_"):
        return evt.a_class(name[2:])
    return evt.method_class(name)


def _estimate(name, mags, mc, D, times, dmc, b):
    """(value, std or None, n)"""
    if name.startswith("a_"):
        r = ref.estimate_a(name[2:], mags, mc, D, times, dmc, b)
        return r["a"], None, len(r["idx"])
    r = ref.estimate_b(name, mags, mc, D, None, times, dmc)
    s = math.nan
    if name == "more_positive":
        s = None                        # bootstrap, see P06
    elif r["values"]:
        s = ref.shi_bolt(r["values"], r["b"]) \
            if math.isfinite(r["b"]) else None
    return r["b"], s, len(r["idx"])


@st.composite
def _part(draw):
    dx = draw(st.sampled_from([0.1, 0.1, 0.2, 0.5]))
    sub = draw(st.lists(st.lists(st.tuples(
        st.integers(0, 12), st.integers(0, 5000)), max_size=12,
        unique_by=lambda p: p[1]), min_size=1, max_size=6))
    return {"dx": dx, "k0": draw(st.integers(-8, 50)),
            "sub": [[list(p) for p in s] for s in sub],
            "mc": draw(st.one_of(st.integers(-1, 4), st.lists(
                st.integers(-1, 5), min_size=len(sub),
                max_size=len(sub)))),
            "method": draw(st.sampled_from(METHODS)),
            "mcj": draw(st.sampled_from([0, 0, 0, 0.3, -0.3])),
            "dmc": draw(st.sampled_from([None, 1, 2, 3])),
            "scale": draw(st.one_of(st.none(), st.lists(
                st.sampled_from([1, 0.5, 2, 10]), min_size=len(sub),
                max_size=len(sub)))),
            "b": draw(gen.f(0.6, 1.6))}


@PROP.facet(_part, quick=700, shards=2)
def partition_values(case, ctx):
    """the estimate of each subset is that of the subset alone (events in time
    order, its own completeness and scaling), with its uncertainty and number
    of events; subsets without events give 'missing'"""
    import numpy as np
    from seismostats.analysis.b_significant import values_from_partitioning
    D = Fr(str(case["dx"]))
    name = case["method"]
    mags = [[D * (case["k0"] + k) for k, _ in s] for s in case["sub"]]
    times = [[t for _, t in s] for s in case["sub"]]
    one = isinstance(case["mc"], int)
    mcs = [case["mc"]] * len(mags) if one else case["mc"]
    mcs = [D * (case["k0"] + m + Fr(str(case["mcj"]))) for m in mcs]
    dmc = None if case["dmc"] is None else case["dmc"] * D
    kw = {}
    if "positive" in name and dmc is not None:
        kw["dmc"] = float(dmc)
    if name == "a_more_positive":
        kw["b_value"] = case["b"]
    if name.startswith("a_") and case["scale"] is not None:
        kw["list_scaling"] = case["scale"]
    v, s, n = values_from_partitioning(
        [np.array([float(m) for m in x]) for x in mags],
        [np.array(t, dtype=float) for t in times],
        float(mcs[0]) if one else [float(m) for m in mcs],
        case["dx"], method=_method(name), **kw)
    assert len(v) == len(s) == len(n) == len(mags)
    for i, m in enumerate(mags):
        b, sd, cnt = _estimate(name, m, mcs[i], D, times[i], dmc, case["b"])
        if name.startswith("a_") and case["scale"] is not None:
            b -= math.log10(case["scale"][i])
        gen.same(v[i], b, f"subset {i}", rtol=1e-8)
        assert n[i] == cnt, f"subset {i}: {n[i]} events, expected {cnt}"
        if name.startswith("a_"):
            assert math.isnan(s[i])
        elif sd is not None:
            gen.same(s[i], sd, f"std of subset {i}", rtol=1e-7)
    ctx.label(name)
    ctx.nt(sum(len(m) > 1 for m in mags) > 1)


def series(draw, min_n=6, max_n=70, methods=("classic", "classic", "utsu",
                                             "positive", "a_positive")):
    dx = draw(st.sampled_from([0.1, 0.1, 0.2, 0.5]))
    n = draw(st.integers(min_n, max_n))
    if max_n > 60 and draw(st.integers(0, 39)) == 39:
        n *= 4
    ks = gen.repeated(draw, st.one_of(st.integers(0, 4), st.integers(0, 9)),
                      n)
    mck = draw(st.one_of(st.integers(-1, 2), st.lists(
        st.integers(-1, 3), min_size=min(n, 60), max_size=min(n, 60))))
    if not isinstance(mck, int):
        mck = (mck * n)[:n]
    xs = draw(st.sampled_from([None, "perm", "perm", "rev"]))
    perm = None
    if xs == "perm":
        perm = gen.perm(draw, n)
    elif xs == "rev":
        perm = list(range(n))[::-1]
    return {"dx": dx, "k0": draw(st.integers(-8, 50)), "ks": ks,
            "mck": mck, "x": perm,
            "t": gen.perm(draw, n),
            "mcj": draw(st.sampled_from([0, 0, 0, 0.3, -0.3])),
            "method": draw(st.sampled_from(list(methods))),
            "dmc": draw(st.sampled_from([None, None, 1, 2])),
            "min_num": draw(st.sampled_from([2, 2, 1, 3]))}


class Series:
    """events of a case in the order of the dimension of interest"""

    def __init__(self, c):
        import numpy as np
        self.c = c
        self.D = D = Fr(str(c["dx"]))
        self.n = n = len(c["ks"])
        m = [D * (c["k0"] + k) for k in c["ks"]]
        one = isinstance(c["mck"], int)
        j = Fr(str(c.get("mcj", 0)))    # completeness inside a bin
        mcs = [D * (c["k0"] + k + j)
               for k in ([c["mck"]] * n if one else c["mck"])]
        self.mags = np.array([float(v) for v in m])
        self.mc = float(mcs[0]) if one else np.array([float(v) for v in mcs])
        self.times = np.array(c["t"], dtype=float)
        self.x = None if c["x"] is None else np.array(c["x"]) * 0.5 + 3
        order = range(n) if c["x"] is None else sorted(
            range(n), key=lambda i: c["x"][i])
        self.ev = [(m[i], mcs[i], c["t"][i],
                    i if c["x"] is None else c["x"][i] * 0.5 + 3)
                   for i in order if m[i] >= mcs[i] - D / 2]
        self.dmc = None if c["dmc"] is None else c["dmc"] * D
        self.kw = {"method": _method(c["method"])}
        if "positive" in c["method"] and self.dmc is not None:
            self.kw["dmc"] = float(self.dmc)

    def window(self, i, n_m):
        w = self.ev[i:i + n_m]
        return _estimate(self.c["method"], [e[0] for e in w],
                         max(e[1] for e in w), self.D, [e[2] for e in w],
                         self.dmc, None)

    def significance(self, n_m, min_num, conservative):
        """(p, mac, mu, std) or None if the result is not well defined"""
        from scipy.stats import norm
        nan4 = (math.nan,) * 4
        if len(self.ev) < 3 * n_m:
            return nan4
        acs, ns, nps = [], [], []
        for off in range(n_m):
            vals = []
            for i in range(off, len(self.ev) - n_m + 1, n_m):
                b, _, cnt = self.window(i, n_m)
                vals.append(b if cnt >= min_num else math.nan)
            good = [v for v in vals if not math.isnan(v)]
            if any(math.isinf(v) for v in good):
                return None
            if sum(not math.isnan(v) for v in vals) < 3:
                continue
            mu = sum(good) / len(good)
            var = sum((v - mu) ** 2 for v in good)
            if var < 1e-12 * (1 + mu * mu):
                return None
            pr = [(a, b) for a, b in zip(vals, vals[1:])
                  if not (math.isnan(a) or math.isnan(b))]
            ns.append(len(good))
            nps.append(len(pr))
            if pr:
                acs.append((len(good) - 1) / len(pr) * sum(
                    (a - mu) * (b - mu) for a, b in pr) / var)
            else:
                return None
        if not nps or not sum(nps) / len(nps) > 2:
            return nan4
        mnp = sum(nps) / len(nps)
        mac = sum(acs) / len(acs)
        mu = -1 / (sum(ns) / len(ns))
        sd = (mnp - 2) / (mnp * math.sqrt(mnp))
        if not conservative:
            sd *= 0.81
        return norm.sf((mac - mu) / sd), mac, mu, sd


@st.composite
def _sig(draw):
    c = series(draw)
    c["n_m"] = draw(st.integers(2, 9))
    c["cons"] = draw(st.booleans())
    return c


@st.composite
def _sig_mp(draw):
    c = series(draw, min_n=28, max_n=40, methods=("more_positive",))
    c["n_m"] = draw(st.integers(4, 6))
    c["min_num"] = draw(st.sampled_from([1, 2]))
    if isinstance(c["mck"], int):
        c["mck"] = min(c["mck"], 1)
    c["cons"] = draw(st.booleans())
    return c


@PROP.facet(_sig, quick=700, shards=3)
def significance(case, ctx):
    """the mean autocorrelation over all shifts of the partition into windows
    of constant event number, its expectation and deviation without variation,
    and the p-value follow from the events above their own completeness, in
    the order of the dimension of interest, with each window estimated at the
    largest completeness inside it; fewer than three windows give 'missing'"""
    import numpy as np
    from seismostats.analysis import b_significant_1D
    s = Series(case)
    n_m, mn = case["n_m"], case["min_num"]
    if n_m < mn:
        ctx.discard("n_m < min_num")
    exp = s.significance(n_m, mn, case["cons"])
    if exp is None:
        ctx.discard("undefined")
    kw = dict(s.kw)
    if s.x is not None:
        kw["x_variable"] = s.x
    keep = [np.copy(a) for a in (s.mags, s.times)]
    got = b_significant_1D(s.mags, s.mc, case["dx"], s.times, n_m,
                           min_num=mn, conservative=case["cons"], **kw)
    assert np.array_equal(keep[0], s.mags) and \
        np.array_equal(keep[1], s.times), "input changed"
    for g, e, nm in zip(got, exp, ("p", "mac", "mean", "std")):
        gen.same(g, e, nm, rtol=1e-6, atol=1e-7)
    ctx.label("mc per event" if not isinstance(case["mck"], int)
              else "one mc")
    ctx.nt(not math.isnan(exp[0]))


@PROP.facet(_sig_mp, quick=30, thorough=900, shards=3)
def significance_more_positive(case, ctx):
    """the same for the b-more-positive method (slow: its uncertainty is a
    bootstrap)"""
    significance(case, ctx)
