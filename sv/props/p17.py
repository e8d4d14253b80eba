"""P17  Methods of a catalogue do what the functions do, and remember it."""
import math

from hypothesis import strategies as st

from .. import evt, gen
from ..core import Property

PROP = Property(
    "P17",
    "A case is a catalogue with any row labels, extra columns and attributes, "
    "and a call or a history of method calls. Non-trivial: the expected "
    "result is a number (or a drawing) from at least two events.",
    ["the reference are the plain functions on plain arrays (decided by the "
     "other properties) plus an explicit model of the attributes",
     "a column named dmc is left out (no estimator accepts one value per "
     "event)"])

LABELS = ["range", "filtered", "shuffled", "dup", "text", "reversed"]


def relabel(df, kind):
    import pandas as pd
    n = len(df)
    df.index = {
        "range": lambda: pd.RangeIndex(n),
        "filtered": lambda: pd.Index([3 * i + 2 for i in range(n)], dtype=int),
        "shuffled": lambda: pd.Index([(i * 7 + 3) % n if n % 7 else n - 1 - i
                                      for i in range(n)], dtype=int),
        "dup": lambda: pd.Index([i // 2 for i in range(n)], dtype=int),
        "text": lambda: pd.Index([f"ev{i}" for i in range(n)], dtype=object),
        "reversed": lambda: pd.Index(range(n)[::-1], dtype=int),
    }[kind]()
    return df


def run(fn, *a, **k):
    """('ok', value) or ('error', type)"""
    try:
        return "ok", fn(*a, **k)
    except Exception as e:              # noqa: BLE001 - compared by type
        return "error", type(e)


ATTRS = ["name", "mc", "a_value", "delta_m", "b_value", "starttime",
         "endtime", "bounding_polygon", "depth_min", "depth_max"]


def state(cat):
    return {a: getattr(cat, a) for a in ATTRS}


def eq(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return gen.close(a, b, 1e-12, 0)


def same_state(cat, exp, what):
    for a, v in exp.items():
        g = getattr(cat, a)
        assert eq(g, v), f"{what}: attribute {a} is {g!r}, expected {v!r}"


# --------------------------------------------------------------------------
@st.composite
def _est(draw):
    what = draw(st.sampled_from(["b", "b", "a"]))
    if what == "a":
        c = draw(evt.events(times="always", weights=False, max_size=25))
        c["tkind"] = "series"
        c["method"] = draw(st.sampled_from(["classic", "positive",
                                            "more_positive"]))
    else:
        c = draw(evt.events(times="maybe", max_size=25))
        c["method"] = draw(st.sampled_from(evt.METHODS))
        if c["t"]:
            c["tkind"] = "series"
    c["what"] = what
    c["kind"] = "array"
    if draw(st.integers(0, 3)) == 0:         # completeness is exactly 0
        c["k0"], c["mcoff"] = -c["mck"], 0
    c["index"] = draw(st.sampled_from(LABELS))
    c["mc_from"] = draw(st.sampled_from(["arg", "attr", "both", "attr",
                                         "none" if draw(st.integers(0, 4)) == 0
                                         else "attr"]))
    c["dm_from"] = draw(st.sampled_from(["arg", "attr", "both", "attr",
                                         "none" if draw(st.integers(0, 4)) == 0
                                         else "attr"]))
    c["w_from"] = draw(st.sampled_from(["arg", "col", "both", "col"]))
    c["t_from"] = draw(st.sampled_from(["time", "time", "arg", "both",
                                        "times", "time and times"]))
    c["attr_b"] = draw(st.sampled_from([None, 0.8, 1.2]))
    c["attr_a"] = draw(st.sampled_from([None, 3.0]))
    c["arg_b"] = draw(st.sampled_from([None, 1.0, 0.7]))
    c["scal"] = draw(st.sampled_from([None, 1, 10, 0.5]))
    c["m_ref"] = draw(st.sampled_from([None, None, 0, 3.5]))
    c["with_a_b"] = draw(st.booleans())
    return c


@PROP.facet(_est, quick=900, shards=3)
def estimates(case, ctx):
    """estimate_b and estimate_a give what the estimator gives for the
    magnitudes, weights and times of the catalogue and the completeness and
    bin width given (else those of the catalogue), whatever the row labels;
    only the b- or a-value of the catalogue is set, to the returned one"""
    import numpy as np
    import pandas as pd
    from seismostats import Catalog
    r = evt.Real(case)
    n = len(r.fm)
    mags = np.array(r.fm)
    mc, dm = float(r.mc), case["dx"]
    a_est = case["what"] == "a"
    cls = (evt.a_class if a_est else evt.method_class)(case["method"])
    df = {"magnitude": mags, "depth": np.arange(n) / 2}
    kw, ref_kw = {}, {}
    timed = case["method"] != "classic" and case["method"] != "utsu"
    if case["t"] is not None:
        t = pd.Series(r.x_t).reset_index(drop=True)
        wrong = t.iloc[::-1].reset_index(drop=True) + pd.Timedelta(1, "s")
        f = case["t_from"] if timed else "time"
        if f in ("time", "both", "time and times"):
            df["time"] = (t if f == "time" else wrong).to_numpy()
        if f in ("times", "time and times"):
            df["times"] = t.to_numpy()
        if f in ("arg", "both"):
            kw["times"] = t.to_numpy()
        if timed:
            ref_kw["times"] = t.to_numpy()
    if case["w"] is not None and not a_est:
        w = np.array(case["w"])
        f = case["w_from"]
        if f in ("col", "both"):
            df["weight"] = w if f == "col" else w[::-1] + 1
        if f in ("arg", "both"):
            kw["weights"] = w
        ref_kw["weights"] = w
    if timed and r.dmc is not None:
        kw["dmc"] = ref_kw["dmc"] = float(r.dmc)
    if a_est:
        for k in ("scaling_factor", "m_ref"):
            v = case["scal" if k[0] == "s" else k]
            if v is not None:
                kw[k] = ref_kw[k] = v
        if case["arg_b"] is not None:
            kw["b_value"] = ref_kw["b_value"] = case["arg_b"]
        elif case["method"] == "more_positive":
            ref_kw["b_value"] = None
    cat = Catalog(relabel(pd.DataFrame(df), case["index"]),
                  mc={"arg": None, "attr": mc, "both": mc + 1}.get(
                      case["mc_from"]),
                  delta_m={"arg": None, "attr": dm, "both": dm + 0.37}.get(
                      case["dm_from"]),
                  b_value=case["attr_b"], name="x", depth_min=0)
    cat.a_value = case["attr_a"]
    if case["mc_from"] in ("arg", "both"):
        kw["mc"] = mc
    if case["dm_from"] in ("arg", "both"):
        kw["delta_m"] = dm
    before, old = pd.DataFrame(cat).copy(), state(cat)
    fn = cat.estimate_a if a_est else cat.estimate_b
    if case["method"] != "classic" or case["with_a_b"]:
        kw["method"] = cls
    out, e = run(fn, **kw)
    pd.testing.assert_frame_equal(pd.DataFrame(cat), before)
    if "none" in (case["mc_from"], case["dm_from"]):
        assert out == "error" and e is ValueError, (out, e)
        same_state(cat, old, "refused")
        ctx.label("refused")
        return
    ref = cls()
    rout, rv = run(ref.calculate, mags.copy(), mc, dm, **ref_kw)
    assert out == rout, f"method: {out} {e}, function: {rout} {rv}"
    if out == "error":
        assert e is rv, (e, rv)
        same_state(cat, old, "failed")
        ctx.label("both failed")
        return
    assert type(e) is cls, type(e)
    same_state(cat, {**old, ("a_value" if a_est else "b_value"): rv},
               "estimated")
    gen.same(e.value, rv, "estimator's value")
    assert int(e.n) == int(ref.n)
    gen.same(e.magnitudes, ref.magnitudes, "magnitudes used")
    assert np.array_equal(e.idx, ref.idx), "indices used"
    if not a_est and case["method"] != "more_positive":   # (bootstrap)
        gen.same(e.std, ref.std, "std")
    ctx.nt(math.isfinite(rv) and ref.n > 1)
    ctx.label(case["what"] + " " + case["method"])
    if mc == 0 and case["mc_from"] == "attr":
        ctx.label("mc attribute 0")
    if dm == 0 and case["dm_from"] == "attr":
        ctx.label("delta_m attribute 0")


# --------------------------------------------------------------------------
STEPS = ["bin", "bin_inplace", "maxc", "stability", "ks", "b", "a", "filter",
         "set_mc", "set_dm", "set_b", "shuffle", "copy"]


@st.composite
def _flow(draw):
    n = draw(st.one_of(*[st.integers(5, 45)] * 20, st.integers(80, 300)))
    m = gen.repeated(draw, st.one_of(st.integers(0, 80),
                                     st.integers(0, 250)), n)
    steps = draw(st.lists(st.tuples(
        st.sampled_from(STEPS), st.sampled_from([None, 0.1, 0.2, 0.5]),
        st.integers(0, 20), st.booleans()), min_size=2, max_size=7))
    if draw(st.integers(0, 3)):              # mostly: a prepared catalogue
        steps = [("bin_inplace", draw(st.sampled_from([0.1, 0.2])), 0,
                  True)] + steps
    if draw(st.booleans()):
        steps.insert(1, ("maxc", 0.2, 0, False))
    return {"m": m, "m0": draw(st.sampled_from([-1.0, 0.0, 1.5])),
            "t": gen.perm(draw, n),
            "index": draw(st.sampled_from(LABELS)),
            "dm": draw(st.sampled_from([None, 0.1, 0.2])),
            "mc": draw(st.sampled_from([None, 0, 1.0])),
            "steps": [list(s) for s in steps]}


@PROP.facet(_flow, quick=500, shards=3)
def workflow(case, ctx):
    """along any history of binning, completeness, b- and a-value estimation,
    filtering and attribute changes every step uses the magnitudes and
    attributes at that point, returns what the function returns for them, and
    sets exactly the attributes it estimates"""
    import numpy as np
    import pandas as pd
    from seismostats import Catalog
    from seismostats.analysis import (ClassicAValueEstimator,
                                      ClassicBValueEstimator,
                                      estimate_mc_b_stability,
                                      estimate_mc_ks, estimate_mc_maxc)
    from seismostats.utils import bin_to_precision
    mags = case["m0"] + np.array(case["m"]) / 100 + 0.003
    t = np.datetime64("2021-03-04T00:00:00") + \
        np.array(case["t"]) * np.timedelta64(977, "s")
    cat = Catalog(relabel(pd.DataFrame({"magnitude": mags, "time": t}),
                          case["index"]),
                  delta_m=case["dm"], mc=case["mc"])
    exp = state(cat)
    done = 0
    trace = []
    for op, dm, k, flag in case["steps"]:
        trace.append((op, dm, k, flag))
        what = f"after {trace}"
        kw = {} if dm is None or not flag else {"delta_m": dm}
        used = kw.get("delta_m", exp["delta_m"])
        ok = None
        if op in ("bin", "bin_inplace"):
            prev = cat
            kept = pd.DataFrame(cat).copy()
            got, new = run(cat.bin_magnitudes, inplace=op != "bin", **kw)
            if used is None:
                assert got == "error" and new is ValueError, what
            else:
                assert got == "ok", (what, new)
                if op == "bin":
                    pd.testing.assert_frame_equal(pd.DataFrame(prev), kept)
                    same_state(prev, exp, "original " + what)
                    cat = new
                else:
                    assert new is None, what
                mags = bin_to_precision(mags, used)
                exp["delta_m"] = used
                done += 1
        elif op == "maxc":
            b = dm or 0.1
            c = [{}, {"correction_factor": 0.0},
                 {"correction_factor": 0.3}][k % 3]
            ok = run(estimate_mc_maxc, mags.copy(), fmd_bin=b, **c)
            got = run(cat.estimate_mc_maxc, fmd_bin=b, **c)
            key = "mc"
        elif op in ("stability", "ks"):
            fn, name = ((estimate_mc_b_stability, "estimate_mc_b_stability")
                        if op == "stability" else
                        (estimate_mc_ks, "estimate_mc_ks"))
            o = {"stop_when_passed": bool(k % 2)}
            if op == "stability":
                o["stability_range"] = [0.2, 0.5][k % 2]
            else:
                o["n"] = 25
                if k % 3 == 0:
                    o["b_value"] = 1.1
            if k > 12:
                o["mcs_test"] = [case["m0"] + j / 5 for j in range(3)]
            key = "mc"
            ro = dict(o)
            if op == "ks" and "b_value" not in o and \
                    exp["b_value"] is not None:
                ro["b_value"] = exp["b_value"]
            np.random.seed(5)
            ok = ("error", ValueError) if used is None else \
                run(fn, mags.copy(), used, **ro)
            np.random.seed(5)
            got = run(getattr(cat, name), **o, **kw)
        elif op in ("b", "a"):
            mkw = {"mc": case["m0"] + k / 10} if flag and k % 2 else {}
            mc = mkw.get("mc", exp["mc"])
            key = op + "_value"
            cls = ClassicBValueEstimator if op == "b" else \
                ClassicAValueEstimator
            ok = ("error", ValueError) if used is None or mc is None else \
                run(cls().calculate, mags.copy(), mc, used)
            got = run(getattr(cat, "estimate_" + op), **mkw, **kw)
            if got[0] == "ok":
                got = "ok", (got[1].value, {})
            if ok[0] == "ok":
                ok = "ok", (ok[1], {})
        elif op == "filter":
            keep = mags >= np.sort(mags)[min(k, len(mags) - 1) // 4]
            cat, mags = cat[keep], mags[keep]
        elif op == "set_mc":
            cat.mc = exp["mc"] = None if k < 4 else (k - 10) / 10
        elif op == "set_dm":
            cat.delta_m = exp["delta_m"] = dm
        elif op == "set_b":
            cat.b_value = exp["b_value"] = None if k < 6 else k / 10
        elif op == "shuffle":
            o = np.argsort([(i * 7 + k) % 11 for i in range(len(mags))],
                           kind="stable")
            cat, mags = cat.iloc[o], mags[o]
        elif op == "copy":
            old, cat = cat, cat.copy()
            old.mc, old.b_value = 77, 88
        if ok is not None:
            assert got[0] == ok[0], f"{what}: method {got}, function {ok}"
            if ok[0] == "error":
                assert got[1] is ok[1], (what, got, ok)
                ctx.label(op + " refused")
            else:
                (v, info), (rv, rinfo) = got[1], ok[1]
                assert eq(v, rv), f"{what}: {v}, function gives {rv}"
                assert set(info) == set(rinfo), (what, info, rinfo)
                for i in info:
                    if info[i] is not None or rinfo[i] is not None:
                        gen.same(info[i], rinfo[i], f"{what}: {i}")
                exp[key] = rv
                done += 1
                ctx.label(op)
        same_state(cat, exp, what)
        assert isinstance(cat, Catalog)
        gen.same(cat["magnitude"].to_numpy(), mags, what)
    ctx.nt(done > 1)


# --------------------------------------------------------------------------
def artists(ax):
    """everything drawn, as plain data"""
    import numpy as np
    from matplotlib.colors import to_hex
    out = []

    def num(v):
        v = np.asarray(v)
        if v.dtype.kind in "Mm":
            v = v.astype("datetime64[us]").astype(np.int64)
        return v.astype(float)
    for ln in ax.get_lines():
        out.append(("line", num(ln.get_xdata(orig=False)),
                    num(ln.get_ydata(orig=False)),
                    to_hex(ln.get_color())))
    for c in ax.collections:
        o = c.get_offsets()
        o = o.filled(np.nan) if hasattr(o, "filled") else o
        out.append(("points", num(o), num(c.get_sizes() if hasattr(
            c, "get_sizes") else []), "".join(
                to_hex(v, keep_alpha=True) for v in c.get_facecolor())))
        if type(c).__name__ != "PathCollection":
            out.append(("paths",) + tuple(
                num(p.vertices) for p in c.get_paths()))
    lg = ax.get_legend()
    out.append(("text", ax.get_xlabel(), ax.get_ylabel(), ax.get_title(),
                ax.get_xscale(), ax.get_yscale(),
                tuple(t.get_text() for t in lg.get_texts()) if lg else None))
    return out


def same_artists(a, b):
    import numpy as np
    assert len(a) == len(b), ([x[0] for x in a], [x[0] for x in b])
    for x, y in zip(a, b):
        assert len(x) == len(y) and x[0] == y[0], (x, y)
        for u, v in zip(x[1:], y[1:]):
            if isinstance(u, np.ndarray):
                gen.same(u, v, x[0], atol=1e-7)
            else:
                assert u == v, (x[0], u, v)


KINDS = ["fmd", "cum_fmd", "cum_count", "mags_in_time", "mc_vs_b", "space"]


@st.composite
def _plot(draw):
    kind = draw(st.sampled_from(KINDS[:-1] * 4 + ["cum_fmd"] * 5 + ["space"]))
    n = draw(st.integers(3, 25))
    return {"kind": kind, "m": draw(st.lists(st.integers(0, 15), min_size=n,
                                             max_size=n)),
            "k0": draw(st.integers(-8, 12)),
            "t": draw(st.permutations(range(n))),
            "index": draw(st.sampled_from(LABELS)),
            "nan": draw(st.lists(st.integers(0, n - 1), max_size=2,
                                 unique=True)) if kind in (
                "fmd", "cum_fmd", "cum_count") else [],
            "w": draw(st.one_of(st.none(), st.lists(
                st.sampled_from([1.0, 0.5, 2.0]), min_size=n, max_size=n))),
            "dm": draw(st.sampled_from([None, 0.1, 0.1, 0.2])),
            "arg_dm": draw(st.sampled_from([None, None, 0.1, 0.5])),
            "mc": draw(st.sampled_from([None, 0, 1, 1])),
            "arg_mc": draw(st.sampled_from([None, None, 0, 2])),
            "b": draw(st.sampled_from([None, 0.8, 1.3])),
            "arg_b": draw(st.sampled_from([None, None, 1.0])),
            "opt": draw(st.integers(0, 1000)), "ax": draw(st.booleans())}


@PROP.facet(_plot, quick=600, shards=4)
def plots(case, ctx):
    """plotting methods draw what the plotting functions draw for the plain
    data, with the catalogue's bin width, completeness and b-value where none
    is given; the catalogue is not changed"""
    import cartopy.crs as ccrs
    import matplotlib.pyplot as plt
    import numpy as np
    import pandas as pd
    import seismostats.plots as pl
    from seismostats import Catalog
    n, kind, o = len(case["m"]), case["kind"], case["opt"]
    mags = np.array([(case["k0"] + k) / 10 for k in case["m"]])
    base = (case["k0"] + min(case["m"])) / 10
    for i in case["nan"]:
        mags[i] = np.nan
    if np.isnan(mags).all():
        ctx.discard("nothing left")
    t = np.datetime64("2021-03-04T00:00:00", "ns") + \
        np.array(case["t"]) * np.timedelta64(97701, "s")
    lon = 5 + np.array(case["t"]) / 7
    lat = 45 - np.array(case["m"]) / 9
    df = pd.DataFrame({"magnitude": mags, "time": t, "longitude": lon,
                       "latitude": lat})
    mc = None if case["mc"] is None else \
        0 if case["mc"] == 0 and base <= 0 else round(base + .1, 1)
    cat = Catalog(relabel(df, case["index"]), delta_m=case["dm"], mc=mc,
                  b_value=case["b"])
    kw, ref_kw = {}, {}

    def opt(name, values):
        nonlocal o
        v = values[o % len(values)]
        o //= len(values)
        if v is not None:
            kw[name] = ref_kw[name] = v

    def default(name, arg, attr):
        if arg is not None:
            kw[name] = arg
        ref_kw[name] = arg if arg is not None else attr
    w = None if case["w"] is None else np.array(case["w"])
    fn, args, ref_args = "plot_" + kind, (), (mags,)
    if kind in ("fmd", "cum_fmd", "cum_count") and w is not None:
        kw["weights"] = ref_kw["weights"] = w
    if kind in ("fmd", "cum_fmd"):
        opt("bin_position", [None, "left", "center"])
        opt("label", [None, "some", False])
        opt("color", [None, "red"])
        opt("grid", [None, True])
        opt("size", [None, 7])
    if kind == "fmd":
        kw["fmd_bin"] = ref_kw["fmd_bin"] = case["arg_dm"] or 0.1
    elif kind == "cum_fmd":
        default("fmd_bin", case["arg_dm"], case["dm"])
        default("b_value", case["arg_b"], case["b"])
        default("mc", None if case["arg_mc"] is None else
                0 if case["arg_mc"] == 0 and base <= 0
                else round(base + .2, 1), mc)
        opt("label_line", [None, "line", False])
        opt("color_line", [None, "green"])
    elif kind == "cum_count":
        ref_args = (t, mags)
        default("delta_m", case["arg_dm"], case["dm"])
        opt("mcs", [None, [base + 0.17, base + 0.37]])
        opt("normalize", [None, False, True])
        opt("color", [None, "red"])
    elif kind == "mags_in_time":
        ref_args = (t, mags)
        opt("dot_smallest", [None, 3])
        opt("dot_largest", [None, 77])
        opt("dot_interpolation_power", [None, 3])
        opt("color_dots", [None, "red"])
        if o % 2:
            kw.update(mc_change_times=[2019, 2020], mcs=[1.0, 0.5])
            ref_kw.update(mc_change_times=[2019, 2020], mcs=[1.0, 0.5])
    elif kind == "mc_vs_b":
        from seismostats.analysis import UtsuBValueEstimator
        mcs = np.array([round(base + k / 10, 1) for k in range(3)])
        args = (mcs,)
        ref_args = (mags, mcs)
        default("delta_m", case["arg_dm"] and 0.1, case["dm"] and 0.1)
        if case["dm"]:
            cat.delta_m = 0.1
        opt("b_method", [None, UtsuBValueEstimator])
        opt("confidence_interval", [None, 0.7])
        opt("color", [None, "red"])
        opt("label", [None, "some"])
        if w is not None:
            kw["weights"] = ref_kw["weights"] = w
    else:
        fn = "plot_in_space"
        ref_args = (lon, lat, mags)
        if np.ptp(lat) < 1e-3:
            ctx.discard("no extent")
        opt("dot_smallest", [None, 3])
        opt("dot_labels", [None, "auto"])
        opt("color_dots", [None, "red"])

    def axes():
        plt.close("all")
        if not case["ax"]:
            return None
        if kind == "space":
            return plt.subplot(projection=ccrs.PlateCarree())
        return plt.subplots()[1]
    before, old = pd.DataFrame(cat).copy(), state(cat)
    np.random.seed(3)
    ax = axes()
    got = run(getattr(cat, fn), *args, ax=ax, **kw)
    if got[0] == "ok":
        assert ax is None or got[1] is ax, "drawn elsewhere"
        drawn = artists(got[1])
    pd.testing.assert_frame_equal(pd.DataFrame(cat), before)
    same_state(cat, old, fn)
    exp = run(getattr(pl, fn), *ref_args, ax=axes(), **ref_kw)
    assert got[0] == exp[0], f"method {got}, function {exp}"
    ctx.label(kind + ("" if got[0] == "ok" else " refused"))
    if got[0] == "error":
        assert got[1] is exp[1], (got, exp)
        return
    same_artists(drawn, artists(exp[1]))
    ctx.nt()


# --------------------------------------------------------------------------
NEEDS = {
    "strip": (["longitude", "latitude", "depth", "time", "magnitude",
               "magnitude_type"], {}),
    "bin_magnitudes": (["magnitude"], {"delta_m": 0.1}),
    "estimate_mc_maxc": (["magnitude"], {"fmd_bin": 0.1}),
    "estimate_mc_b_stability": (["magnitude"], {"delta_m": 0.1}),
    "estimate_mc_ks": (["magnitude"], {"delta_m": 0.1, "n": 5}),
    "estimate_b": (["magnitude"], {"mc": 1, "delta_m": 0.1}),
    "estimate_a": (["magnitude"], {"mc": 1, "delta_m": 0.1}),
    "plot_in_space": (["latitude", "longitude", "magnitude"], {}),
    "plot_cum_count": (["time", "magnitude"], {}),
    "plot_mags_in_time": (["time", "magnitude"], {}),
    "plot_cum_fmd": (["magnitude"], {"fmd_bin": 0.1}),
    "plot_fmd": (["magnitude"], {"fmd_bin": 0.1}),
    "plot_mc_vs_b": (["magnitude"], {"mcs": [1.0], "delta_m": 0.1}),
    "to_quakeml": (["longitude", "latitude", "depth", "time", "magnitude",
                    "magnitude_type"], {}),
}


@st.composite
def _missing(draw):
    calls = draw(st.lists(st.tuples(
        st.sampled_from(sorted(NEEDS)),
        st.lists(st.sampled_from(["longitude", "latitude", "depth", "time",
                                  "magnitude", "magnitude_type", "extra"]),
                 max_size=4, unique=True)), min_size=1, max_size=4))
    return {"calls": [[a, list(b)] for a, b in calls]}


@PROP.facet(_missing, quick=300, shards=2)
def requirements(case, ctx):
    """a method refuses with an AttributeError exactly if a column it needs is
    missing, whatever was called before; it then changes nothing"""
    import matplotlib.pyplot as plt
    import numpy as np
    import pandas as pd
    from seismostats import Catalog
    full = pd.DataFrame({
        "longitude": [1., 2, 3, 4], "latitude": [3., 4, 3, 5],
        "depth": [5., 6, 7, 8],
        "time": pd.to_datetime(["2020-01-01", "2020-01-02", "2020-01-05",
                                "2020-01-07"]),
        "magnitude": [1.0, 1.2, 2.4, 1.1], "magnitude_type": ["ML"] * 4,
        "extra": [1, 2, 3, 4]})
    plt.close("all")
    for name, drop in case["calls"]:
        need, kw = NEEDS[name]
        # a catalogue without magnitudes can only be made by removing them
        cat = Catalog(full, mc=1.0)
        for c in drop:
            del cat[c]
        lack = set(need) & set(drop)
        old, before = state(cat), pd.DataFrame(cat).copy()
        np.random.seed(1)
        got, e = run(getattr(cat, name), **kw)
        if lack:
            assert got == "error" and e is AttributeError, (
                f"{name} without {sorted(lack)}: {got} {e}")
            same_state(cat, old, name)
            pd.testing.assert_frame_equal(pd.DataFrame(cat), before)
            ctx.label("refused")
        else:
            assert got == "ok" or e is not AttributeError, (
                f"{name} with all of {need} (columns {list(cat.columns)}): "
                f"{e}")
            ctx.label("works" if got == "ok" else f"{name} {e.__name__}")
            ctx.nt(len(drop) > 0)
