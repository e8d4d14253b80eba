"""Reference models, written from the documentation and the cited papers in
plain Python (exact rational arithmetic for every selection decision)."""
import math
from fractions import Fraction as Fr

LN10 = math.log(10)


def mean(x, w=None):
    if w is None:
        return sum(x) / len(x) if len(x) else math.nan
    s = sum(w)
    return sum(a * b for a, b in zip(x, w)) / s if s else math.nan


def mle_b(mags, mc, dm, w=None):
    """Aki (1965) / Tinti & Mulargia (1987) for magnitudes >= mc."""
    if not len(mags):
        return math.nan
    s = float(mean([m - mc for m in mags], w))
    if math.isnan(s):
        return math.nan
    if s == 0:
        return math.inf
    if dm > 0:
        p = 1 + float(dm) / s
        return math.log(p) / float(dm) / LN10 if p > 0 else math.nan
    return 1 / s / LN10


def utsu_b(mags, mc, dm, w=None):
    if not len(mags):
        return math.nan
    s = float(mean([m - mc + dm / 2 for m in mags], w))
    if math.isnan(s):
        return math.nan
    return 1 / s / LN10 if s else math.inf


def above(mags, mc, dm):
    """indices of events at or above mc (None = missing magnitude)"""
    return [i for i, m in enumerate(mags)
            if m is not None and m >= mc - Fr(dm) / 2]


def pairs_positive(mags, order, dmc, dm):
    """[(i, j)] consecutive events in time with m_j - m_i >= dmc"""
    return [(i, j) for i, j in zip(order[:-1], order[1:])
            if mags[j] - mags[i] >= dmc - Fr(dm) / 2]


def pairs_more_positive(mags, order, dmc, dm):
    """[(i, j)] j is the first later event with m_j - m_i >= dmc"""
    out = []
    for a, i in enumerate(order):
        for j in order[a + 1:]:
            if mags[j] - mags[i] >= dmc - Fr(dm) / 2:
                out.append((i, j))
                break
    return out


def estimate_b(method, mags, mc, dm, w=None, times=None, dmc=None):
    """dict(b, idx, values, w) for a list of Fractions/None"""
    keep = above(mags, mc, dm)
    if method in ("classic", "utsu"):
        v = [mags[i] for i in keep]
        ww = None if w is None else [w[i] for i in keep]
        b = (mle_b if method == "classic" else utsu_b)(v, mc, dm, ww)
        return {"b": b, "idx": keep, "values": v, "w": ww}
    order = keep if times is None else sorted(keep, key=lambda i: times[i])
    dmc = dm if dmc is None else dmc
    if not keep:
        return {"b": math.nan, "idx": [], "values": [],
                "w": None if w is None else []}
    f = pairs_positive if method == "positive" else pairs_more_positive
    pr = f(mags, order, dmc, dm)
    v = [mags[j] - mags[i] for i, j in pr]
    ww = None if w is None else [w[j] for _, j in pr]
    return {"b": mle_b(v, dmc, dm, ww), "idx": [j for _, j in pr],
            "values": v, "w": ww}


def shi_bolt(values, b, w=None):
    """std of the b-value, Shi & Bolt (1982)"""
    values = [float(v) for v in values]
    n = len(values) if w is None else sum(w)
    if not len(values):
        return math.nan
    mu = mean(values, w)
    var = mean([(v - mu) ** 2 for v in values], w)
    if not n - 1 > 0:
        return None                     # undefined, not judged
    return LN10 * b * b * math.sqrt(var) / math.sqrt(n - 1)


def a_reference(a, mc, scaling=None, m_ref=None, b=None):
    if m_ref is not None:
        a = a - b * (m_ref - float(mc))
    if scaling is not None:
        a = a - math.log10(scaling)
    return a


def estimate_a(method, mags, mc, dm, times=None, dmc=None, b=None):
    """dict(a, idx); a before reference scaling"""
    keep = above(mags, mc, dm)
    if not keep:
        return {"a": math.nan, "idx": []}
    if method == "classic":
        return {"a": math.log10(len(keep)), "idx": keep}
    order = sorted(keep, key=lambda i: times[i])
    total = times[order[-1]] - times[order[0]]
    dmc = dm if dmc is None else dmc
    if method == "positive":
        pr = pairs_positive(mags, order, dmc, dm)
        if not pr:
            return {"a": math.nan, "idx": []}
        t = sum(times[j] - times[i] for i, j in pr)
        return {"a": math.log10(len(pr) / (float(t) / float(total))),
                "idx": [j for _, j in pr]}
    pr = pairs_more_positive(mags, order, dmc, dm)
    if not pr:
        return {"a": math.nan, "idx": []}
    nxt = dict(pr)
    tau = 0.0
    for i in order:
        dt = (times[nxt[i]] if i in nxt else times[order[-1]]) - times[i]
        tau += float(dt) * 10 ** (-b * float(mags[i] + dmc - mc))
    return {"a": math.log10(len(pr) / (tau / float(total))),
            "idx": [j for _, j in pr]}
