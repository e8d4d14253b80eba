"""P13  Plots draw the data they are given."""
import math
from fractions import Fraction as Fr

from hypothesis import strategies as st

from .. import evt, gen, ref
from ..core import Property
from . import p12

PROP = Property(
    "P13",
    "A case is an event set with plot options; the drawn artists are read "
    "back from the figure. Non-trivial: at least two different magnitudes "
    "are drawn.",
    ["the non-interactive Agg backend; colours, labels and styling are not "
     "judged",
     "maps are drawn without background tiles (no network) and for complete "
     "magnitudes"])


def _plt():
    import matplotlib.pyplot as plt
    plt.close("all")
    return plt


def _axes(case, plt):
    return plt.subplots()[1] if case.get("ax") else None


def _xy(art):
    import numpy as np
    return np.asarray(art.get_offsets().filled(np.nan)
                      if hasattr(art.get_offsets(), "filled")
                      else art.get_offsets(), float)


def _band(coll):
    """(x -> (lower, upper)) of a fill_between"""
    out = {}
    for p in coll.get_paths():
        for x, y in p.vertices:
            if math.isnan(x) or math.isnan(y):
                continue
            k = round(float(x), 6)
            lo, hi = out.get(k, (math.inf, -math.inf))
            out[k] = (min(lo, y), max(hi, y))
    return out


@st.composite
def _fmd(draw):
    b = draw(gen.binned_mags(max_size=40, max_bins=15,
                             dx=draw(st.sampled_from([0.1, 0.2, 0.5]))))
    n = len(b["ks"])
    if draw(st.integers(0, 29)) == 29:
        n = draw(st.integers(80, 400))
        b["ks"] = (b["ks"] * n)[:n]
    zero = draw(st.booleans())
    if zero:                            # the completeness is zero
        b["k0"] = -draw(st.integers(0, 6))
    return {**b, "zero": zero, "fac": draw(st.sampled_from([1, 1, 2, 0])),
            "nan": draw(st.lists(st.integers(0, n - 1), max_size=3,
                                 unique=True)),
            "w": gen.repeated(draw, st.sampled_from([1.0, 0.5, 2.0]), n)
            if draw(st.booleans()) else None,
            "pos": draw(st.sampled_from(["center", "left"])),
            "b": draw(st.one_of(st.none(), gen.f(0.5, 2), gen.f(0.5, 2))),
            "mc": draw(st.one_of(st.none(), st.integers(0, 3),
                                 st.integers(0, 3))),
            "mcj": draw(st.sampled_from([0, 0, 0.3, -0.3])),
            "ax": draw(st.booleans()),
            "label": draw(st.sampled_from([True, False, "x"]))}


@PROP.facet(_fmd, quick=500, shards=3)
def fmd(case, ctx):
    """the (cumulative) frequency-magnitude plots show one point per bin at
    the (weighted) number of events, disregarding missing magnitudes, and the
    Gutenberg-Richter line starts at the completeness with the number of
    events above it and the given slope"""
    import numpy as np
    from seismostats.plots import plot_cum_fmd, plot_fmd
    plt = _plt()
    D = Fr(str(case["dx"]))
    n = len(case["ks"])
    nan = set(case["nan"])
    if len(nan) >= n:
        ctx.discard("nothing left")
    m = [D * (case["k0"] + k) for k in case["ks"]]
    x = np.array([math.nan if i in nan else float(v)
                  for i, v in enumerate(m)])
    w = case["w"]
    kw = {} if w is None else {"weights": np.array(w)}
    F = D * case["fac"]
    lab = case["label"]
    half = F / 2 if case["pos"] == "left" else 0

    def bin_of(v):                      # index, half bins go up
        return math.floor(v / F + Fr(1, 2))
    ok = [i for i in range(n) if i not in nan]
    ww = [1.0] * n if w is None else w
    if F:
        cnt = {}
        for i in ok:
            cnt[bin_of(m[i])] = cnt.get(bin_of(m[i]), 0) + ww[i]
        ks = list(range(min(cnt), max(cnt) + 1))
        cum = [sum(c for j, c in cnt.items() if j >= k) for k in ks]
        xs = [float(k * F - half) for k in ks]
        ax = _axes(case, plt)
        r = plot_fmd(x, float(F), ax=ax, bin_position=case["pos"],
                     label=lab, **kw)
        assert ax is None or r is ax, "other axes returned"
        pts = _xy(r.collections[0])
        gen.same(pts[:, 0], xs, "fmd bins")
        gen.same(pts[:, 1], [cnt.get(k, 0) for k in ks], "fmd counts")
        if lab == "x":
            assert [t.get_text() for t in r.get_legend().get_texts()] == ["x"]
    else:
        vals = sorted({m[i] for i in ok})
        cum = [sum(ww[i] for i in ok if m[i] >= v) for v in vals]
        xs = [float(v) for v in vals]
    plt = _plt()
    ax = _axes(case, plt)
    args = {}
    mc = None
    if case["b"] is not None:
        args["b_value"] = case["b"]
        if case["mc"] is not None:
            unit = F if F else D
            lo = bin_of(min(m[i] for i in ok)) if F else \
                min(m[i] for i in ok) / D
            j = Fr(str(case["mcj"]))    # completeness inside a bin
            mc = unit * (lo + case["mc"] + j)
            if j:
                ctx.label("completeness inside a bin")
            elif case["zero"] and lo <= 0:
                mc = Fr(0)
                ctx.label("completeness zero")
            top = max(bin_of(m[i]) * F if F else m[i] for i in ok)
            if mc > top:
                mc = None
            else:
                args["mc"] = float(mc)
    r = plot_cum_fmd(x, fmd_bin=float(F) if F else None, ax=ax, label=lab,
                     bin_position=case["pos"], **args, **kw)
    assert ax is None or r is ax
    pts = _xy(r.collections[0])
    if not F:
        half = 0
    gen.same(pts[:, 0], xs, "cumulative bins")
    gen.same(pts[:, 1], cum, "cumulative counts")
    if case["b"] is not None and w is None:
        low = mc if mc is not None else min(
            bin_of(m[i]) * F if F else m[i] for i in ok)
        low -= F / 2                    # lower edge of its bin
        n_mc = sum(1 for i in ok
                   if (bin_of(m[i]) * F if F else m[i]) >= low)
        gx = [v for v in xs if v >= float(low - half) - 1e-9]
        gy = [n_mc * 10 ** (-case["b"] * (v - gx[0])) for v in gx]
        ln = r.get_lines()[0]
        gen.same(ln.get_xdata(), gx, "GR line x")
        gen.same(ln.get_ydata(), gy, "GR line y")
        ctx.label("GR line")
    else:
        assert w is not None or not r.get_lines()
    assert np.array_equal(np.isnan(x), [i in nan for i in range(n)])
    ctx.nt(len(xs) > 1)
    if nan and w is not None:
        ctx.label("weights and missing")


@st.composite
def _count(draw):
    n = draw(st.one_of(*[st.integers(1, 30)] * 25, st.integers(80, 400)))
    return {"ks": gen.repeated(draw, st.integers(0, 10), n),
            "t": gen.perm(draw, n),
            "kind": draw(st.sampled_from(["int", "dt64"])),
            "nan": draw(st.lists(st.integers(0, n - 1), max_size=2,
                                 unique=True)),
            "w": gen.repeated(draw, st.sampled_from(draw(st.sampled_from(
                [[1.0, 0.5, 2.0], [0.01, 0.002], [1e3, 0.25]]))), n)
            if draw(st.booleans()) else None,
            "mcs": draw(st.one_of(st.none(), st.lists(
                st.integers(0, 12), min_size=1, max_size=3))),
            "dm": draw(st.sampled_from([None, 0.1])),
            "mcj": draw(st.sampled_from([0, 0.3, -0.3])),
            "norm": draw(st.booleans()), "ax": draw(st.booleans())}


def _times(kind, t):
    import numpy as np
    if kind == "int":
        return np.array(t)
    return np.datetime64("2020-01-01T00:00:00") + \
        np.array(t) * np.timedelta64(3600, "s")


@PROP.facet(_count, quick=200)
def cumulative_count(case, ctx):
    """for every completeness, the cumulative (weighted) number of the events
    above it in time order, from the first to the last event of the
    catalogue, relative to its total if normalised"""
    import numpy as np
    from seismostats.plots import plot_cum_count
    plt = _plt()
    n = len(case["ks"])
    nan = set(case["nan"])
    if len(nan) == n:
        ctx.discard("nothing left")
    m = [1 + k / 10 for k in case["ks"]]
    x = np.array([math.nan if i in nan else v for i, v in enumerate(m)])
    t = _times(case["kind"], case["t"])
    ok = [i for i in range(n) if i not in nan]
    mcs = case["mcs"]
    kw = {}
    if case["w"]:
        kw["weights"] = np.array(case["w"])
    if mcs is not None:
        kw["mcs"] = [1 + (k - (0.3 if case["dm"] is None else case["mcj"]))
                     / 10 for k in mcs]
    else:
        mcs = [min(case["ks"][i] for i in ok)]
    ax = _axes(case, plt)
    r = plot_cum_count(t, x, delta_m=case["dm"], normalize=case["norm"],
                       ax=ax, **kw)
    assert ax is None or r is ax
    w = case["w"] or [1.0] * n
    exp = []
    for k in mcs:
        sel = sorted((i for i in ok if case["ks"][i] >= k),
                     key=lambda i: case["t"][i])
        if not sel:
            continue
        c = [0.0]
        for i in sel:
            c.append(c[-1] + w[i])
        c.append(c[-1])
        if case["norm"]:
            c = [v / c[-1] for v in c]
        tt = [0] + [case["t"][i] for i in sel] + [n - 1]
        exp.append((_times(case["kind"], tt), c))
    lines = r.get_lines()
    assert len(lines) == len(exp), (len(lines), len(exp))
    for ln, (tx, c) in zip(lines, exp):
        assert np.array_equal(np.asarray(ln.get_xdata()).astype(tx.dtype),
                              tx), "times"
        gen.same(ln.get_ydata(), c, "counts")
    ctx.nt(len(exp) > 0 and len(set(m)) > 1)


@st.composite
def _mt(draw):
    n = draw(st.integers(1, 20))
    y = draw(st.lists(st.integers(1950, 2010), min_size=1, max_size=4,
                      unique=True))
    return {"ks": draw(st.lists(st.integers(0, 30), min_size=n, max_size=n)),
            "t": draw(st.permutations(range(n))),
            "years": sorted(y), "mcs": draw(st.lists(
                st.integers(0, 50), min_size=len(y), max_size=len(y))),
            "asyear": draw(st.booleans()),
            "step": draw(st.booleans()), "power": draw(st.integers(1, 3)),
            "small": draw(st.sampled_from([1, 10, 20])),
            "large": draw(st.sampled_from([50, 200])),
            "repeat": draw(st.booleans())}


@PROP.facet(_mt, quick=150)
def mags_in_time(case, ctx):
    """one dot per event at its time and magnitude, growing with magnitude
    between the two sizes; the completeness steps are those given, up to the
    last event; lists passed in are left alone"""
    import datetime as dt
    import numpy as np
    from matplotlib.dates import date2num
    from seismostats.plots import plot_mags_in_time
    t = _times("dt64", case["t"])
    x = np.array([k / 10 for k in case["ks"]])
    years = list(case["years"]) if case["asyear"] else [
        dt.datetime(y, 1, 1) for y in case["years"]]
    mcs = [m / 10 for m in case["mcs"]]
    kw = {"mc_change_times": years, "mcs": mcs} if case["step"] else {}
    keep = list(years), list(mcs)
    for _ in range(2 if case["repeat"] else 1):
        _plt()
        r = plot_mags_in_time(t, x, dot_smallest=case["small"],
                              dot_largest=case["large"],
                              dot_interpolation_power=case["power"], **kw)
        pts = _xy(r.collections[0])
        gen.same(pts[:, 0], date2num(t), "times", rtol=1e-12)
        gen.same(pts[:, 1], x, "magnitudes")
        s = np.broadcast_to(r.collections[0].get_sizes(), x.shape)
        rng = x.max() - x.min()
        f = (x - x.min()) / rng if rng else 0 * x
        gen.same(s, case["small"] + (case["large"] - case["small"])
                 * f ** case["power"], "sizes")
        assert np.array_equal(x, [k / 10 for k in case["ks"]])
        if case["step"]:
            ln = r.get_lines()[0]
            ex = [date2num(dt.datetime(y, 1, 1)) for y in case["years"]]
            ex.append(date2num(t.max()))
            gen.same(date2num(ln.get_xdata()), ex, "change times",
                     rtol=1e-12)
            gen.same(ln.get_ydata(), keep[1] + keep[1][-1:], "mcs")
        assert (years, mcs) == keep, "lists of the caller changed"
    ctx.nt(len(set(case["ks"])) > 1)


@st.composite
def _dots(draw):
    return {"m": draw(st.lists(gen.f(-1, 8), min_size=1, max_size=15)),
            "small": draw(st.sampled_from([1, 10, 33])),
            "add": draw(st.sampled_from([1, 100, 190])),
            "p": draw(st.sampled_from([1, 2, 3, 0.5]))}


@PROP.facet(_dots, quick=300)
def dot_sizes(case, ctx):
    """dot sizes are a power interpolation between the two given sizes, and
    the inverse recovers the magnitudes"""
    import numpy as np
    from seismostats.plots import dot_size, reverse_dot_size
    m = np.array(case["m"])
    lo, hi = m.min(), m.max()
    if 0 < hi - lo < 1e-6:
        ctx.discard("range is rounding")
    a, b = case["small"], case["small"] + case["add"]
    s = dot_size(m, smallest=a, largest=b, interpolation_power=case["p"])
    f = np.zeros(len(m)) if hi == lo else (m - lo) / (hi - lo)
    gen.same(s, a + (b - a) * f ** case["p"], "sizes")
    back = reverse_dot_size(s, lo, hi, interpolation_power=case["p"])
    if hi == lo or case["p"] <= 1 or True:
        # the inverse amplifies rounding near the smallest size
        gen.same(back, m, "inverse", rtol=1e-4, atol=2e-3 * (hi - lo) + 1e-9)
    ctx.nt(hi > lo)


@st.composite
def _map(draw):
    n = draw(st.integers(1, 8))
    return {"lon": draw(st.lists(gen.f(-60, 60), min_size=n, max_size=n)),
            "lat": draw(st.lists(gen.f(-60, 60), min_size=n, max_size=n)),
            "ks": draw(st.lists(st.integers(0, draw(st.sampled_from([9, 50]))),
                                min_size=n, max_size=n)),
            "ax": draw(st.booleans()),
            "off": draw(st.sampled_from([0, 0.04, -1.25, 2.007])),
            "small": draw(st.sampled_from([10, 1, 40])),
            "add": draw(st.sampled_from([190, 30])),
            "p": draw(st.sampled_from([2, 1, 3, 0])),
            "labels": draw(st.sampled_from(["auto", "auto", None, 3, [0, 1, 2],
                                            [1.5, 2.5, 4.25]]))}


@PROP.facet(_map, quick=60, thorough=1000)
def in_space(case, ctx):
    """one dot per event at its coordinates, inside the extent of the map;
    its size is the one the legend shows for its magnitude"""
    import cartopy.crs as ccrs
    import numpy as np
    from seismostats.plots import plot_in_space
    plt = _plt()
    lon, lat = np.array(case["lon"]), np.array(case["lat"])
    if np.ptp(lon) < 1e-3 or np.ptp(lat) < 1e-3:
        ctx.discard("no extent")
    pc = ccrs.PlateCarree()
    ax = plt.subplot(projection=pc) if case["ax"] else None
    m = np.array(case["ks"]) / 10 + case["off"]
    small, large, p = case["small"], case["small"] + case["add"], case["p"]
    labels = case["labels"]
    if isinstance(labels, list) and case["ax"]:
        labels = np.array(labels)
    r = plot_in_space(lon, lat, m, ax=ax, dot_labels=labels,
                      dot_smallest=small, dot_largest=large,
                      dot_interpolation_power=p)
    assert ax is None or r is ax
    sc = [c for c in r.collections if hasattr(c, "get_sizes")
          and len(c.get_offsets()) == len(lon)][-1]
    pts = _xy(sc)
    gen.same(pts[:, 0], lon, "longitudes")
    gen.same(pts[:, 1], lat, "latitudes")
    e = r.get_extent(crs=pc)
    tol = 1e-6
    assert e[0] - tol <= lon.min() and e[1] + tol >= lon.max() \
        and e[2] - tol <= lat.min() and e[3] + tol >= lat.max(), e
    s = np.broadcast_to(sc.get_sizes(), m.shape)
    assert np.all(np.diff(s[np.argsort(m)]) >= -1e-9)
    rng = m.max() - m.min()
    f = (m - m.min()) / rng if rng else 0 * m
    gen.same(s, small + (large - small) * f ** p, "sizes")
    leg = r.get_legend()
    if labels is None or p == 0:
        assert leg is None
    elif rng:
        texts = [t.get_text() for t in leg.get_texts()]
        for h, t in zip(leg.legend_handles, texts, strict=True):
            v = float(t.replace("$\\mathdefault{", "").replace("}$", "")
                      .replace("\N{MINUS SIGN}", "-"))
            want = small + (large - small) * ((v - m.min()) / rng) ** p
            got = h.get_markersize() ** 2
            assert abs(got - want) < 0.005 * (large - small), \
                f"legend: {t} has size {got}, dots {want}"
        ctx.label(f"{len(texts)} in the legend")
    ctx.nt(len(set(case["ks"])) > 1)


@st.composite
def _mcb(draw):
    b = draw(gen.binned_mags(min_size=3, max_size=40, max_bins=12,
                             dx=draw(st.sampled_from([0.1, 0.2, 0.5]))))
    return {**b, "mcs": draw(st.lists(st.integers(0, 4), min_size=1,
                                      max_size=5, unique=True)),
            "mcj": draw(st.sampled_from([0, 0, 0.3, -0.3])),
            "ci": draw(st.sampled_from([0.95, 0.68, 0.5])),
            "method": draw(st.sampled_from(["classic", "utsu",
                                            "positive"])),
            "ax": draw(st.booleans())}


@PROP.facet(_mcb, quick=200)
def mc_vs_b(case, ctx):
    """the curve and its band are the b-values and their uncertainties at the
    given completeness values"""
    import numpy as np
    from scipy.stats import norm
    from seismostats.plots import plot_mc_vs_b
    plt = _plt()
    D = Fr(str(case["dx"]))
    m = [D * (case["k0"] + k) for k in case["ks"]]
    mcs = [D * (case["k0"] + min(case["ks"]) + k + Fr(str(case["mcj"])))
           for k in case["mcs"]]
    ax = _axes(case, plt)
    r = plot_mc_vs_b(np.array([float(v) for v in m]),
                     np.array([float(v) for v in mcs]), case["dx"],
                     b_method=evt.method_class(case["method"]),
                     confidence_interval=case["ci"], ax=ax)
    assert ax is None or r is ax
    exp = [ref.estimate_b(case["method"], m, mc, D) for mc in mcs]
    ln = r.get_lines()[0]
    gen.same(ln.get_xdata(), [float(v) for v in mcs], "mcs")
    gen.same(ln.get_ydata(), [e["b"] for e in exp], "b-values", rtol=1e-7)
    z = norm.ppf(0.5 + case["ci"] / 2)
    s = [ref.shi_bolt(e["values"], e["b"]) if e["values"]
         and math.isfinite(e["b"]) else None for e in exp]
    if all(v is not None for v in s):
        band = _band(r.collections[0])
        for mc, e, v in zip(mcs, exp, s):
            lo, hi = band[round(float(mc), 6)]
            gen.same([lo, hi], [e["b"] - z * v, e["b"] + z * v], "band",
                     rtol=1e-6, atol=1e-6)
        ctx.nt(len(mcs) > 1)


@st.composite
def _ser(draw):
    c = p12.series(draw, min_n=3, max_n=30,
                   methods=("classic", "utsu", "positive"))
    c["n_m"] = draw(st.integers(2, 8))
    c["tech"] = draw(st.sampled_from(["left", "midpoint", "right"]))
    c["ci"] = draw(st.sampled_from([0.95, 0.7]))
    return c


@PROP.facet(_ser, quick=200)
def b_series(case, ctx):
    """the running b-value is that of each window of constant event number
    (events above their own completeness, in the order of the dimension of
    interest), drawn at the window's left, middle or right event; windows
    with too few usable events are left out"""
    import numpy as np
    from scipy.stats import norm
    from seismostats.plots import plot_b_series_constant_nm
    plt = _plt()
    s = p12.Series(case)
    n_m = case["n_m"]
    if n_m < case["min_num"]:
        ctx.discard("n_m < min_num")
    N = len(s.ev)
    shift = {"left": 0, "midpoint": n_m // 2, "right": n_m - 1}[case["tech"]]
    exp, std = [math.nan] * N, [math.nan] * N
    for i in range(N - n_m + 1):
        b, sd, cnt = s.window(i, n_m)
        if cnt >= case["min_num"]:
            exp[i + shift], std[i + shift] = b, sd
    kw = dict(s.kw)
    if s.x is not None:
        kw["x_variable"] = s.x
    _ = plt
    r = plot_b_series_constant_nm(
        s.mags, case["dx"], s.mc, s.times, n_m, min_num=case["min_num"],
        plot_technique=case["tech"], confidence_level=case["ci"], **kw)
    ln = r.get_lines()[0]
    gen.same(ln.get_xdata(), [float(e[3]) for e in s.ev], "positions")
    gen.same(ln.get_ydata(), exp, "b-values", rtol=1e-7)
    z = norm.ppf(0.5 + case["ci"] / 2)
    band = _band(r.collections[0])
    # a band has an area only between two neighbouring windows
    for i in range(N - 1):
        if all(v is not None and math.isfinite(v)
               for v in std[i:i + 2] + exp[i:i + 2]):
            for j in (i, i + 1):
                lo, hi = band[round(float(s.ev[j][3]), 6)]
                gen.same([lo, hi], [exp[j] - z * std[j],
                                    exp[j] + z * std[j]],
                         "band", rtol=1e-6, atol=1e-6)
            ctx.label("band judged")
    ctx.nt(sum(not math.isnan(v) for v in exp) > 1)


@st.composite
def _sigp(draw):
    c = p12.series(draw, min_n=45, max_n=80,
                   methods=("classic", "utsu", "positive"))
    c["n_ms"] = draw(st.one_of(st.none(), st.lists(
        st.integers(2, 5), min_size=1, max_size=3, unique=True).map(sorted)))
    c["cons"] = draw(st.booleans())
    c["p"] = draw(st.sampled_from([0.05, 0.3]))
    c["as_list"] = draw(st.booleans())
    return c


@PROP.facet(_sigp, quick=300, thorough=3000, shards=6)
def b_significance(case, ctx):
    """the plotted mean autocorrelation and its band are those of the
    significance test for each window length; lengths that leave fewer than
    15 windows are left out"""
    import numpy as np
    from scipy.stats import norm
    from seismostats.plots import plot_b_significant_1D
    _plt()
    s = p12.Series(case)
    mn = case["min_num"]
    n_ms = case["n_ms"]
    if n_ms is not None:
        n_ms = [n for n in n_ms if n >= mn] or [mn + 1]
    if n_ms is None:
        if len(s.ev) / 15 <= mn:
            ctx.discard("too few events")
        n_ms = sorted({int(v) for v in np.linspace(
            15, len(s.ev) / 15, 10)})
    kw = dict(s.kw)
    if s.x is not None:
        kw["x_variable"] = s.x
    if case["n_ms"] is not None:
        kw["n_ms"] = list(n_ms) if case["as_list"] else np.array(n_ms)
    mc = s.mc
    if case["as_list"] and not isinstance(mc, float):
        mc = mc.tolist()
    exp = []
    for n_m in n_ms:
        if len(s.ev) / n_m < 15:
            exp.append((math.nan,) * 4)
            continue
        e = s.significance(n_m, mn, case["cons"])
        if e is None:
            ctx.discard("undefined")
        exp.append(e)
    r = plot_b_significant_1D(
        s.mags, mc, case["dx"], s.times, min_num=mn,
        conservative=case["cons"], p_threshold=case["p"], **kw)
    lines = r.get_lines()
    gen.same(lines[0].get_xdata(), n_ms, "n_m")
    gen.same(lines[0].get_ydata(), [e[1] for e in exp], "MAC", rtol=1e-6,
             atol=1e-7)
    gen.same(lines[1].get_ydata(), [e[2] for e in exp], "expected MAC",
             rtol=1e-6, atol=1e-7)
    if all(abs(e[0] - case["p"]) > 1e-6 for e in exp
           if not math.isnan(e[0])):
        sig = [(n, e[1]) for n, e in zip(n_ms, exp) if e[0] < case["p"]]
        red = lines[2:]
        assert bool(red) == bool(sig), (len(red), sig)
        if sig:
            gen.same(red[0].get_xdata(), [a for a, _ in sig], "significant")
            ctx.label("significant")
    z = norm.ppf(1 - case["p"] / 2)
    band = _band(r.collections[0])
    for i in range(len(n_ms) - 1):
        if not any(math.isnan(e[1]) for e in exp[i:i + 2]):
            for j in (i, i + 1):
                gen.same(band[round(float(n_ms[j]), 6)],
                         [exp[j][2] - z * exp[j][3],
                          exp[j][2] + z * exp[j][3]], "band", rtol=1e-6,
                         atol=1e-7)
                ctx.label("band judged")
    if s.x is not None:
        ctx.label("dimension of interest")
    ctx.nt(any(not math.isnan(e[1]) for e in exp))
