"""P29  The options of a plot do what they say."""
import functools
import math
import os
import re
import shutil
import tempfile

from hypothesis import strategies as st

from .. import evt, gen
from ..core import Property
from . import p26

PROP = Property(
    "P29",
    "A case is a plotting function or method, an event set and options; "
    "colours, labels, legend, axes, map section and map contents are read "
    "back from the figure. Non-trivial: the function drew something, with at "
    "least one option given.",
    ["the non-interactive Agg backend; texts of axis labels are judged by "
     "the quantity they name, shades of colours only by being lighter or "
     "darker than the colour given",
     "maps use a natural-earth file made by the check (offline); background "
     "tiles are judged by the source that is attached, never fetched"])

COLORS = ["red", "#0a8c3f", "0.4", (0.2, 0.4, 0.9), "C3", "k"]


def rgb(c):
    from matplotlib.colors import to_rgb
    return tuple(round(v, 6) for v in to_rgb(c))


def texts(ax):
    leg = ax.get_legend()
    return [] if leg is None else [t.get_text() for t in leg.get_texts()]


def swatches(ax):
    """colours in the legend"""
    out = []
    for h in ax.get_legend().legend_handles:
        c = h.get_color() if hasattr(h, "get_color") else h.get_facecolor()
        out.append(rgb(c[0] if getattr(c, "ndim", 1) == 2 else c))
    return out


def grid_on(ax, axis="x"):
    ln = getattr(ax, f"get_{axis}gridlines")()
    return bool(ln) and ln[0].get_visible()


def cycle(k):
    import matplotlib as mpl
    return rgb(mpl.rcParams["axes.prop_cycle"].by_key()["color"][k])


def start(case):
    """(axes to pass, axes that must not change, number of its artists)"""
    import matplotlib.pyplot as plt
    plt.close("all")
    other = plt.subplots()[1]
    other.plot([1, 2], [3, 4], color="k")
    ax = None
    if case["ax"]:
        ax = plt.subplots()[1]
        if case["ax"] == "used":
            ax.plot([1, 2], [1, 1], color="k", label="_old")
        if case["ax"] == "busy":
            ax.set_title("other data")
            ax.scatter([1, 2], [2, 3], color="C4", s=11)
            ax.bar([1, 2], [1, 2], color="C5", label="_bars")
            ax.fill_between([1, 2], [1, 1], [2, 2], color="C6")
            ax.plot([1, 2], [1, 1], color="C7", marker="x", label="_old")
            ax.set_prop_cycle(None)
        if case["ax"] == "behind":  # not the current axes
            plt.sca(other)
    return ax, other


class New:
    """what was added to the axes"""

    def __init__(self, ax):
        self.n = (0, 0, 0) if ax is None else (
            len(ax.get_lines()), len(ax.collections), len(ax.patches))

    def lines(self, ax):
        return ax.get_lines()[self.n[0]:]

    def collections(self, ax):
        return list(ax.collections)[self.n[1]:]


def finish(r, ax, other):
    assert (r is ax) if ax is not None else (
        r.figure is not other.figure and r.figure.axes == [r]), \
        "not drawn on the axes given, or not on new axes"
    assert len(other.get_lines()) == 1 and not other.collections, \
        "something was drawn on other axes"


AX = st.sampled_from([None, None, "new", "used", "behind", "busy", "busy"])


@st.composite
def _points(draw):
    b = draw(gen.binned_mags(min_size=2, max_size=30, max_bins=12,
                             dx=draw(st.sampled_from([0.1, 0.5]))))
    lab = st.sampled_from([None, True, False, "events"])
    return {**b, "ax": draw(AX), "cum": draw(st.booleans()),
            "color": draw(st.sampled_from([None] + COLORS)),
            "line": draw(st.sampled_from([None] * 4 + COLORS)),
            "b": draw(st.sampled_from([None, 0.8, 1.234, 2])),
            "size": draw(st.sampled_from([None, 7, 33.5])),
            "grid": draw(st.sampled_from([None, True, False])),
            "label": draw(lab), "label_line": draw(lab)}


def given(case, *names):
    return {k: case[k] for k in names if case[k] is not None}


@PROP.facet(_points, quick=500, shards=3)
def points(case, ctx):
    """frequency-magnitude plots: colour and size of the points, colour of
    the line (that of the points if not given), legend texts (given, default
    or none), grid, logarithmic counts, drawn on the axes given"""
    import matplotlib as mpl
    import numpy as np
    from seismostats.plots import plot_cum_fmd, plot_fmd
    m = np.array(gen.mags_of(case))
    ax, other = start(case)
    new = New(ax)
    kw = given(case, "color", "size", "grid", "label")
    if case["cum"]:
        if case["b"] is not None:
            kw["b_value"] = case["b"]
        if case["line"] is not None:
            kw["color_line"] = case["line"]
        kw.update(given(case, "label_line"))
        r = plot_cum_fmd(m, fmd_bin=case["dx"], ax=ax, **kw)
    else:
        r = plot_fmd(m, case["dx"], ax=ax, **kw)
    finish(r, ax, other)
    c = new.collections(r)
    assert len(c) == 1, "several sets of points"
    # axes with a curve in a colour given do not use up colours
    want = cycle(0) if case["color"] is None else rgb(case["color"])
    assert {rgb(v) for v in c[0].get_facecolor()} == {want}, "colour"
    size = mpl.rcParams["lines.markersize"] ** 2 \
        if case["size"] is None else case["size"]
    assert set(c[0].get_sizes()) == {size}, "size"
    lines = new.lines(r)
    line = case["cum"] and case["b"] is not None
    assert len(lines) == line, "number of lines"
    if line:
        w = want if case["line"] is None else rgb(case["line"])
        assert rgb(lines[0].get_color()) == w, "colour of the line"
    first = "cumulative" if case["cum"] else "non cumulative"
    leg = []
    if case["label"] is not False:
        leg.append(case["label"] if isinstance(case["label"], str)
                   else first)
    if line and case["label_line"] is not False:
        leg.append(case["label_line"] if isinstance(case["label_line"], str)
                   else f"GR fit, b={case['b']:.2f}")
    got = texts(r)
    assert sorted(got) == sorted(leg), f"legend {got}, expected {leg}"
    assert grid_on(r) == grid_on(r, "y") == bool(case["grid"]), "grid"
    assert r.get_yscale() == "log" and r.get_xscale() == "linear"
    assert "agnitude" in r.get_xlabel() and "N" in r.get_ylabel()
    ctx.label("cumulative" if case["cum"] else "counts")
    ctx.nt(bool(kw))


@st.composite
def _curves(draw):
    b = draw(gen.binned_mags(min_size=3, max_size=30, max_bins=9,
                             dx=draw(st.sampled_from([0.1, 0.5]))))
    n = len(b["ks"])
    return {**b, "ax": draw(AX),
            "kind": draw(st.sampled_from(["mcb", "series", "significance"])),
            "method": draw(st.sampled_from(["classic", "utsu", "positive"])),
            "w": draw(st.lists(st.sampled_from([1.0, 2.0, 0.5]), min_size=n,
                               max_size=n)),
            "kwargs": draw(st.booleans()), "list": draw(st.booleans()),
            "sig": draw(st.booleans()),
            "color": draw(st.sampled_from([None] + COLORS)),
            "label": draw(st.sampled_from([None, None, "run 1"]))}


def shade(c, base):
    """-1 darker, 0 the same, 1 lighter"""
    d = [a - b for a, b in zip(rgb(c), rgb(base))]
    if all(abs(v) < 3e-3 for v in d):
        return 0
    if all(v > -3e-3 for v in d):
        return 1
    return -1 if all(v < 3e-3 for v in d) else None


@PROP.facet(_curves, quick=250, shards=2)
def curves(case, ctx):
    """b-value curves: line in the colour given (blue if not), band in the
    same or a lighter shade and see-through, legend only with a label, further
    arguments reach the estimator, lists and arrays give the same picture"""
    import numpy as np
    from seismostats.plots import (plot_b_series_constant_nm,
                                   plot_b_significant_1D, plot_mc_vs_b)
    est = evt.method_class(case["method"])
    kw = given(case, "color", "label")
    color = case["color"] or "blue"
    dx, n = case["dx"], len(case["ks"])
    m = gen.mags_of(case)
    mc = gen.grid_value(case["k0"], dx)
    conv = list if case["list"] else np.array
    ax, other = start(case)
    new = New(ax)
    extra, exp = {}, None
    if case["kwargs"]:
        if case["method"] == "positive":
            extra["dmc"] = 2 * dx
        elif case["kind"] == "mcb":
            extra["weights"] = np.array(case["w"])
    if case["kind"] == "mcb":
        mcs = [mc, gen.grid_value(case["k0"] + 1, dx)]
        m = np.array(m)
        e = est()
        exp = [e.calculate(m, mc=v, delta_m=dx, **extra) for v in mcs]
        r = plot_mc_vs_b(m, conv(mcs), dx, b_method=est, ax=ax, **kw,
                         **extra)
        x = mcs
    elif case["kind"] == "series":
        n_m = 3
        exp = [math.nan] * (n_m - 1)
        for i in range(n - n_m + 1):
            e = est()
            v = e.calculate(np.array(m[i:i + n_m]), mc=mc, delta_m=dx,
                            **extra)
            exp.append(v if e.n >= 2 else math.nan)
        x = [2.0 * i + 1 for i in range(n)]
        r = plot_b_series_constant_nm(
            conv(m), dx, mc if case["sig"] else conv([mc] * n),
            conv([float(i) for i in range(n)]), n_m, method=est,
            x_variable=conv(x), ax=ax, **kw, **extra)
    else:
        from seismostats.analysis.b_significant import b_significant_1D
        k = -(-61 // n)
        m = [v for v in m for _ in range(k)]
        m = [m[(i * 7919 + i * i) % len(m)] for i in range(len(m))]
        for i in range(0, len(m), 2):  # no window has a single value
            m[i] = gen.grid_value(round(m[i] / dx) + 1, dx)
        p = 0.9999 if case["sig"] else 1e-9
        x = [3, 4]
        res = [b_significant_1D(np.array(m), mc, dx,
                                np.arange(len(m) * 1.0), v, method=est,
                                min_num=2, **extra) for v in x]
        exp = [v[1] for v in res]
        r = plot_b_significant_1D(
            conv(m), mc, dx, conv([float(i) for i in range(len(m))]),
            n_ms=conv(x), method=est, p_threshold=p, ax=ax, **kw, **extra)
    finish(r, ax, other)
    lines = new.lines(r)
    gen.same(lines[0].get_xdata(), x, "abscissa")
    gen.same(lines[0].get_ydata(), exp, "b-values", rtol=1e-7)
    assert rgb(lines[0].get_color()) == rgb(color), "colour"
    band = new.collections(r)
    assert len(band) == 1
    band = band[0]
    assert shade(band.get_facecolor()[0], color) in (0, 1), "shade of band"
    assert band.get_alpha() is not None and 0 < band.get_alpha() < 0.9
    if case["kind"] == "significance":
        assert shade(lines[1].get_color(), color) in (0, -1)
        assert lines[1].get_linestyle() == "--"
        red = [ln for ln in lines[2:]]
        sig = [a for a, v in zip(x, res) if v[0] < p]
        gen.same([a for ln in red for a in ln.get_xdata()], sig, "marked")
        for ln in red:
            assert rgb(ln.get_color()) == rgb("r") \
                and ln.get_linestyle() == "None" \
                and ln.get_marker() not in ("None", "", None)
            ctx.label("marked significant")
        assert "MAC" in r.get_ylabel() and r.get_xlabel()
    else:
        assert len(lines) == 1
        assert "b" in r.get_ylabel()
    leg = texts(r)
    assert leg == ([] if case["label"] is None else [case["label"]]), leg
    if leg:
        assert swatches(r) == [rgb(color)]
    ctx.label(case["kind"] + (" further arguments" if extra else ""))
    ctx.nt(bool(kw or extra) and any(
        not math.isnan(v) for v in exp))


@st.composite
def _time(draw):
    n = draw(st.integers(2, 20))
    k = draw(st.integers(1, 4))
    return {"ks": draw(st.lists(st.integers(0, 9), min_size=n, max_size=n)),
            "t": draw(st.permutations(range(n))), "ax": draw(AX),
            "mcs": draw(st.lists(st.integers(0, 11), min_size=k,
                                 max_size=k, unique=True)),
            "colors": draw(st.sampled_from([None, "one", "each"])),
            "pick": draw(st.permutations(COLORS)),
            "dots": draw(st.sampled_from([None, "one", "values"])),
            "cmap": draw(st.sampled_from([None, "plasma", "Greys"])),
            "given": draw(st.sampled_from(["both", "both", "times", "mcs"])),
            "line": draw(st.booleans())}


@PROP.facet(_time, quick=250, shards=2)
def in_time(case, ctx):
    """cumulative counts: one colour per completeness, the legend names the
    completeness of each; magnitudes in time: dots in the colour given or by
    value with the colour map given, steps of completeness in their colour
    and only if times and values are given"""
    import numpy as np
    import matplotlib as mpl
    from seismostats.plots import plot_cum_count, plot_mags_in_time
    n = len(case["ks"])
    m = np.array([1 + k / 10 for k in case["ks"]])
    t = np.datetime64("2020-01-01T00:00:00") + \
        np.array(case["t"]) * np.timedelta64(7200, "s")
    ax, other = start(case)
    new = New(ax)
    mcs = [1 + k / 10 for k in case["mcs"]]
    pick = case["pick"]
    kw = {}
    if case["colors"] == "one":
        kw["color"] = "#0a8c3f"
    elif case["colors"] == "each":
        kw["color"] = pick[:len(mcs)]
    r = plot_cum_count(t, m, mcs=mcs, delta_m=0.1, ax=ax, **kw)
    finish(r, ax, other)
    shown = [i for i, k in enumerate(case["mcs"]) if k <= max(case["ks"])]
    lines = new.lines(r)
    if case["colors"] == "each":
        want = [rgb(pick[i]) for i in shown]
    elif case["colors"] == "one":
        want = [rgb("#0a8c3f")] * len(shown)
    else:
        want = [cycle(i) for i in range(len(shown))]
    got = [rgb(ln.get_color()) for ln in lines]
    assert got == want, f"colours {got}, expected {want}"
    leg = texts(r)
    assert len(leg) == len(shown), leg
    for s, i in zip(leg, shown):
        v = re.findall(r"-?\d+\.?\d*", s)
        assert v and abs(float(v[-1]) - mcs[i]) < 0.0051, (s, mcs[i])
    if leg:
        assert swatches(r) == want
    assert "ime" in r.get_xlabel() and "umber" in r.get_ylabel()

    ax, other = start(case)
    new = New(ax)
    kw = {}
    if case["dots"] == "one":
        kw["color_dots"] = "#0a8c3f"
    elif case["dots"] == "values":
        kw["color_dots"] = np.array(case["ks"], float)
    if case["cmap"]:
        kw["cmap"] = case["cmap"]
    if case["given"] != "mcs":
        kw["mc_change_times"] = [2018, 2020]
    if case["given"] != "times":
        kw["mcs"] = [2.5, 1.5]
    if case["line"]:
        kw["color_line"] = "C3"
    r = plot_mags_in_time(t, m, ax=ax, **kw)
    finish(r, ax, other)
    dots(new.collections(r)[0], case["dots"], np.array(case["ks"], float),
         case["cmap"], "#0a8c3f")
    lines = new.lines(r)
    assert len(lines) == (case["given"] == "both"), "steps of completeness"
    for ln in lines:
        assert rgb(ln.get_color()) == rgb("C3" if case["line"]
                                          else "#eb4034")
        assert ln.get_drawstyle() == "steps-post"
    assert "ime" in r.get_xlabel() and "agnitude" in r.get_ylabel()
    ctx.nt(n > 1)
    _ = mpl


def dots(sc, kind, values, cmap, one, seen=slice(None)):
    """colours of dots"""
    import matplotlib as mpl
    import numpy as np
    if kind == "values":
        gen.same(np.asarray(sc.get_array())[seen], values[seen],
                 "values of the dots")
        sc.update_scalarmappable()
        values = values[seen]
        lo, hi = values.min(), values.max()
        f = (values - lo) / (hi - lo) if hi > lo else 0 * values
        want = mpl.colormaps[cmap or "viridis"](f)
        got = np.asarray(sc.get_facecolor())[seen]
        gen.same(got[:, :3], want[:, :3], "colours of the dots", atol=0.01)
    else:
        want = rgb("blue" if kind != "one" else one)
        assert {rgb(c) for c in sc.get_facecolor()} == {want}, \
            sc.get_facecolor()


# --------------------------------------------------------------------- maps
@functools.cache
def countries():
    """scratch natural-earth data: two countries (one with a bay)"""
    from multiprocessing.util import Finalize
    import geopandas
    from shapely.geometry import Polygon
    import cartopy
    d = tempfile.mkdtemp(prefix="sv-maps-")
    Finalize(None, shutil.rmtree, (d, True), exitpriority=1)
    shapes = {
        "10m": {"Aland": [(5, 45), (9, 45), (9, 48), (7, 46.5), (5, 48)],
                "Bland": [(20, -10), (21, -10), (21, 10), (20, 10)]},
        "50m": {"Aland": [(6, 45), (10, 45), (10, 48), (6, 48)],
                "Bland": [(20, -12), (23, -12), (23, 10), (20, 10)]}}
    folder = os.path.join(d, "shapefiles", "natural_earth", "cultural")
    os.makedirs(folder)
    for res, s in shapes.items():
        geopandas.GeoDataFrame(
            {"ADMIN": list(s), "NAME": list(s)[::-1]},
            geometry=[Polygon(v) for v in s.values()],
            crs="EPSG:4326").to_file(os.path.join(
                folder, f"ne_{res}_admin_0_countries.shp"))
    cartopy.config["data_dir"] = d
    cartopy.config["pre_existing_data_dir"] = d
    return shapes


@st.composite
def _map(draw):
    n = draw(st.integers(2, 9))
    co = draw(st.sampled_from([(4, 44), (-60, -50), (150, 30), (-9, 50)]))
    return {"lon": draw(st.lists(gen.f(0, 9), min_size=n, max_size=n)),
            "lat": draw(st.lists(gen.f(0, 9), min_size=n, max_size=n)),
            "at": list(co),
            "ks": draw(st.lists(st.integers(0, 40), min_size=n,
                                max_size=n)),
            "lack": draw(st.sampled_from([None, None, 0, 1, n - 1])),
            "ax": draw(st.sampled_from([None, "plate", "mercator"])),
            "window": draw(st.sampled_from([None, (0, 8, 40, 50),
                                            (100, 120, -10, 40)])),
            "map": draw(st.sampled_from([None, False, True, True])),
            "country": draw(st.sampled_from([None, "Aland",
                                             "Bland"])),
            "res": draw(st.sampled_from([None, "10m", "50m"])),
            "style": draw(st.sampled_from([None, "satellite", "street"])),
            "bg": draw(st.sampled_from([None, None, "gray", "magma"])),
            "dots": draw(st.sampled_from([None, "none", "one", "values"])),
            "cmap": draw(st.sampled_from([None, "plasma"])),
            "labels": draw(st.sampled_from(
                ["default", None, "list", "array", "locator", 4])),
            "list": draw(st.lists(st.integers(-4, 44), min_size=1,
                                  max_size=5, unique=True).map(sorted)),
            "method": draw(st.booleans())}


@PROP.facet(_map, quick=200, thorough=3000, shards=3)
def maps(case, ctx):
    """the section shows all events and no more than a margin beyond (or the
    country with the map switched on), and what the axes given showed before;
    the surroundings of the country are veiled; background of the style and
    resolution given, only if asked for; colours of dots; values in the legend
    are those asked for; method and function agree"""
    import cartopy.crs as ccrs
    import matplotlib as mpl
    import matplotlib.pyplot as plt
    import numpy as np
    from matplotlib.ticker import FixedLocator
    from seismostats import Catalog
    from seismostats.plots import plot_in_space
    shapes = countries()
    plt.close("all")
    pc = ccrs.PlateCarree()
    lon = np.array(case["lon"]) + case["at"][0]
    lat = np.array(case["lat"]) + case["at"][1]
    if np.ptp(lon) < 0.05 or np.ptp(lat) < 0.05:
        ctx.discard("no extent")
    m = np.array(case["ks"]) / 10
    if case["lack"] is not None:  # one without magnitude
        m[case["lack"]] = np.nan
    ax = before = None
    if case["ax"]:
        ax = plt.subplot(projection=pc if case["ax"] == "plate"
                         else ccrs.Mercator())
        if case["window"]:
            ax.set_extent(case["window"], crs=pc)
        before = ax.get_extent(crs=pc)
    kw = {}
    for k, v in (("include_map", case["map"]), ("country", case["country"]),
                 ("resolution", case["res"]), ("style", case["style"]),
                 ("color_map", case["bg"]), ("cmap", case["cmap"])):
        if v is not None:
            kw[k] = v
    if case["dots"] == "one":
        kw["color_dots"] = "#0a8c3f"
    elif case["dots"] == "values":
        kw["color_dots"] = np.array(case["ks"], float)
    elif case["dots"] == "none":
        kw["color_dots"] = None
    asked = [v / 10 for v in case["list"]]
    if case["labels"] != "default":
        kw["dot_labels"] = {"list": list(asked), "array": np.array(asked),
                            "locator": FixedLocator(asked)}.get(
                                case["labels"], case["labels"])
    old = mpl.rcParams["image.cmap"]
    try:
        if case["method"]:
            r = Catalog({"longitude": lon, "latitude": lat,
                         "magnitude": m}).plot_in_space(ax=ax, **kw)
        else:
            r = plot_in_space(lon, lat, m, ax=ax, **kw)
        if case["bg"] is not None:
            assert mpl.rcParams["image.cmap"] == case["bg"], \
                "colour map of the background"
        else:
            assert mpl.rcParams["image.cmap"] == old
    finally:
        mpl.rcParams["image.cmap"] = old
    assert ax is None or r is ax, "drawn elsewhere"
    # section of the map
    withmap = case["map"] is True
    if withmap and case["country"]:
        x, y = zip(*shapes[case["res"] or "10m"][case["country"]])
    else:
        x, y = lon, lat
    want = [min(x), max(x), min(y), max(y)]
    px, py = (want[1] - want[0]) / 4, (want[3] - want[2]) / 4
    far = [want[0] - px, want[1] + px, want[2] - py, want[3] + py]
    if before is not None:
        for e in (want, far):
            for i in (0, 2):
                e[i] = min(e[i], before[i])
                e[i + 1] = max(e[i + 1], before[i + 1])
    e = r.get_extent(crs=pc)
    tol = 1e-6
    for i, sign in enumerate([1, -1, 1, -1]):
        assert sign * (e[i] - want[i]) <= tol, \
            f"section {e} does not contain {want}"
        assert sign * (e[i] - far[i]) >= -tol, f"section {e} beyond {far}"
    # background
    fac = [f for f, *_ in r.img_factories]
    assert len(fac) == withmap, "background tiles"
    for f in fac:
        assert f.style == (case["style"] or "satellite"), f.style
        assert (f.desired_tile_form == "L") == (case["bg"] is not None)
    veil(r, shapes[case["res"] or "10m"][case["country"]]
         if withmap and case["country"] else None)
    # dots and legend
    sc = [c for c in r.collections if hasattr(c, "get_sizes")
          and len(c.get_offsets()) == len(lon)][-1]
    dots(sc, case["dots"], np.array(case["ks"], float), case["cmap"],
         "#0a8c3f", ~np.isnan(m))
    leg = r.get_legend()
    if case["labels"] is None:
        assert leg is None
    elif np.nanmax(m) > np.nanmin(m):
        v = [float(t.replace("$\\mathdefault{", "").replace("}$", "")
                   .replace("\N{MINUS SIGN}", "-")) for t in texts(r)]
        lo, hi = np.nanmin(m), np.nanmax(m)
        assert all(lo - 0.06 <= a <= hi + 0.06 for a in v), (v, lo, hi)
        assert v == sorted(v)
        if case["labels"] in ("list", "array", "locator"):
            inside = [a for a in asked if lo + 1e-6 < a < hi - 1e-6]
            edge = [a for a in asked if min(abs(a - lo), abs(a - hi)) <= 1e-6]
            got = [a for a in v if not any(abs(a - b) < 1e-6 for b in edge)]
            gen.same(got, inside, "values in the legend")
        assert leg.get_title().get_text() == "Magnitudes"
    ctx.label("country" if withmap and case["country"]
              else "map" if withmap else "blank")
    ctx.nt(bool(kw))


def veil(ax, country):
    """a light, see-through area around the country"""
    import cartopy.crs as ccrs
    from cartopy.mpl.feature_artist import FeatureArtist
    from shapely.geometry import Point, Polygon
    art = [a for a in ax.get_children() if isinstance(a, FeatureArtist)]
    if country is None:
        assert not art, "an area was drawn"
        return
    assert len(art) == 1, "the surroundings of the country are not marked"
    f = art[0]._feature
    geo = [f.crs, list(f.geometries())]
    p = Polygon(country)
    x0, y0, x1, y1 = p.bounds
    pc = ccrs.PlateCarree()

    def covered(x, y):
        a, b = geo[0].transform_point(x, y, pc)
        return any(g.contains(Point(a, b)) for g in geo[1])
    inside = p.buffer(-0.1)
    outside = Polygon([(x0, y0), (x1, y0), (x1, y1), (x0, y1)]).difference(
        p.buffer(0.1))
    for i in range(12):
        for j in range(12):
            x = x0 + (x1 - x0) * (i + .5) / 12
            y = y0 + (y1 - y0) * (j + .5) / 12
            if inside.contains(Point(x, y)):
                assert not covered(x, y), f"{x, y} in the country is veiled"
            elif outside.contains(Point(x, y)):
                assert covered(x, y), f"{x, y} outside is not veiled"
    kw = getattr(art[0], "_kwargs", {}) or {}
    if "facecolor" in kw:
        assert rgb(kw["facecolor"]) == rgb("white")
        assert kw.get("alpha") is None or kw["alpha"] < 1


# ----------------------------------------------------------------- catalogue
def options(n):
    import numpy as np
    w = np.arange(n) % 3 + 0.5
    common = {"color": ["red", "#123456"]}
    size = {"dot_smallest": [3, 20], "dot_largest": [70, 300],
            "dot_interpolation_power": [1, 3],
            "color_dots": ["red", w], "cmap": ["plasma", "Greys"]}
    return {
        "plot_cum_fmd": {
            **common, "mc": [1.2, 1.5], "fmd_bin": [0.1, 0.2, 0],
            "weights": [w], "b_value": [0.8, 1.3],
            "color_line": ["green"], "size": [5, 60], "grid": [True, False],
            "bin_position": ["left", "center"],
            "label": [True, False, "a"], "label_line": [True, False, "b"]},
        "plot_fmd": {
            **common, "weights": [w], "size": [5, 60],
            "grid": [True, False], "bin_position": ["left", "center"],
            "label": [True, False, "a"]},
        "plot_cum_count": {
            "color": ["red", ["red", "green"]], "mcs": [[1.1, 1.4]],
            "delta_m": [0.1, 0.2, 0], "weights": [w],
            "normalize": [True, False]},
        "plot_mags_in_time": {
            **size, "mc_change_times": [[1990, 2000]], "mcs": [[2.0, 1.5]],
            "color_line": ["green"]},
        "plot_mc_vs_b": {
            **common, "delta_m": [0.1, 0.2], "weights": [w],
            "b_method": ["utsu", "positive"], "label": ["a"],
            "confidence_interval": [0.5, 0.9]},
        "plot_in_space": {
            **size, "dot_labels": [None, 3, [1.2, 1.5], w],
            "resolution": ["10m", "50m"], "include_map": [True],
            "country": ["Aland", "Bland"], "style": ["street"],
            "color_map": ["gray"]}}


def moved(v, by):
    """levels of magnitudes that are lowered by a constant"""
    if isinstance(v, list):
        return [round(a - by, 9) for a in v]
    return round(v - by, 9) if isinstance(v, float) else v


@st.composite
def _method(draw):
    name = draw(st.sampled_from([
        "plot_cum_fmd", "plot_fmd", "plot_cum_count", "plot_mags_in_time",
        "plot_mc_vs_b", "plot_in_space"]))
    return {"name": name, "set": draw(st.integers(0, 2**13 - 1)),
            "pick": draw(st.integers(0, 5)), "position": draw(st.booleans()),
            "ks": draw(st.lists(st.integers(0, 9), min_size=4, max_size=15)),
            "seed": draw(st.integers(0, 9)), "ax": draw(st.booleans()),
            "dm": draw(st.sampled_from([None, 0.1, 0.2])),
            "mc": draw(st.sampled_from([None, 1.1, 1.4])),
            "shift": draw(st.sampled_from([0, 1.1, 1.4, 2.5])),
            "b": draw(st.sampled_from([None, 0.9]))}


@PROP.facet(_method, quick=350, shards=3)
def methods(case, ctx):
    """a method of a catalogue draws, for any subset of the options, exactly
    what the function draws for its columns, with the catalogue's bin width,
    completeness and b-value where they are not given"""
    import cartopy.crs as ccrs
    import matplotlib as mpl
    import matplotlib.pyplot as plt
    import numpy as np
    import pandas as pd
    from seismostats import Catalog, plots
    countries()
    n, name = len(case["ks"]), case["name"]
    rng = np.random.default_rng(case["seed"])
    step = 5 if name == "plot_mc_vs_b" else 10  # fits both bin widths
    sh = case["shift"]
    m = np.array([round(1 + k / step - sh, 9) for k in case["ks"]])
    t = pd.date_range("2001-02-03", periods=n, freq="37h").to_numpy()[
        rng.permutation(n)]
    lon, lat = rng.uniform(5, 9, n), rng.uniform(44, 48, n)
    opts = {}
    for i, (k, v) in enumerate(options(n)[name].items()):
        if case["set"] >> i & 1:
            opts[k] = v[case["pick"] % len(v)]
            if k in ("mc", "mcs", "dot_labels"):
                opts[k] = moved(opts[k], sh)
    if isinstance(opts.get("color"), list) and "mcs" not in opts:
        del opts["color"]
    if "weights" in opts and opts.get("b_method") == "positive":
        del opts["weights"]
    if "b_method" in opts:
        opts["b_method"] = evt.method_class(opts["b_method"])
    ref = dict(opts)
    if "country" in opts and not opts.get("include_map"):
        ctx.label("country without map")
    first = {"plot_fmd": ["fmd_bin"], "plot_mc_vs_b": ["mcs"]}.get(name, [])
    for k in first:
        opts[k] = ref[k] = 0.1 if k == "fmd_bin" else np.array(
            moved([1, 1.4], sh))
    has = {"plot_cum_fmd": [("fmd_bin", "dm"), ("mc", "mc"),
                            ("b_value", "b")],
           "plot_cum_count": [("delta_m", "dm")],
           "plot_mc_vs_b": [("delta_m", "dm")]}.get(name, [])
    mc = moved(case["mc"], sh)
    for k, a in has:
        if k not in ref:
            ref[k] = mc if a == "mc" else case[a]
    if name == "plot_mc_vs_b" and ref["delta_m"] is None:
        ctx.discard("no bin width")
    data = {"plot_cum_count": (t, m), "plot_mags_in_time": (t, m),
            "plot_in_space": (lon, lat, m)}.get(name, (m,))

    def axes():
        plt.close("all")
        if not case["ax"]:
            return None
        return plt.subplot(projection=ccrs.PlateCarree()) \
            if name == "plot_in_space" else plt.subplots()[1]

    def call(f, *a, **k):
        old = mpl.rcParams["image.cmap"]
        try:
            ax = axes()
            r = f(*a, ax=ax, **k)
            assert ax is None or r is ax, "drawn elsewhere"
            out = p26.fp(r)
            if name == "plot_in_space":
                out["tiles"] = [f"{v[0].style} {v[0].desired_tile_form}"
                                for v in r.img_factories]
                out["cmap"] = mpl.rcParams["image.cmap"]
                out["areas"] = [v.wkt for c in r.get_children()
                                if hasattr(c, "_feature") for v in
                                c._feature.geometries()]
                if r.get_legend():
                    out["keys"] = [p26.fp(h.get_markersize()) for h in
                                   r.get_legend().legend_handles]
            return out, None
        except AssertionError:
            raise
        except Exception as exc:
            return None, type(exc)
        finally:
            mpl.rcParams["image.cmap"] = old
    c = Catalog({"magnitude": m, "time": t, "longitude": lon,
                 "latitude": lat}, delta_m=case["dm"], mc=mc,
                b_value=case["b"])
    got, err = call(getattr(c, name), **opts)
    exp, err2 = call(getattr(plots, name), *data, **ref)
    assert err is err2, f"method {err}, function {err2}"
    assert p26.near(got, exp), f"{name}: {p26.where(got, exp)}"
    ctx.label(name + ("" if err is None else f" {err.__name__}"))
    ctx.nt(err is None and len(opts) > 0)
