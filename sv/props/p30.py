"""P30  Calls leave no traces behind."""
import itertools
import json
import os
import select
import struct
import tempfile
import uuid

from hypothesis import strategies as st

from .. import gen
from ..core import Property
from . import p26
from .p25 import D, _data

PROP = Property(
    "P30",
    "A case is a sequence of calls of public functions and methods whose data "
    "are kept in the same arrays, changed in place between the calls (the "
    "same again, reordered, one value changed, another bin width, faulty). "
    "Each result is compared with that of a process in which nothing was "
    "called before. Non-trivial: at least two calls returned a result.",
    ["random number generators are seeded before each call",
     "the only state that lasts is the package's own options"])


def names():
    return sorted((g, n) for g in ("analysis", "utilities", "figures")
                  for n in p26.FN[g])


class Held(D):
    """data that live in the same arrays from one call to the next"""

    def __init__(self, c, old=None):
        super().__init__(c)
        for k in ("m", "t", "dt", "w"):
            a = getattr(old, k, None)
            if a is not None and a.shape == getattr(self, k).shape:
                a[...] = getattr(self, k)
                setattr(self, k, a)


def variant(c, step):
    """the data of the next call, related to those of the last"""
    c = {k: list(v) if isinstance(v, list) else v for k, v in c.items()}
    how, i, n = step["how"], step["i"], len(c["k"])
    if how == "reverse":
        c["k"] = c["k"][::-1]
    elif how == "swap":
        a, b = i % n, (i // 7) % n
        c["k"][a], c["k"][b] = c["k"][b], c["k"][a]
        c["w"][a], c["w"][b] = c["w"][b], c["w"][a]
    elif how == "one":
        c["k"][i % n] = max(c["mc"], c["k"][i % n] + i % 3 - 1)
    elif how == "gap":
        c["gap"][i % n] += 1 + i % 5
    elif how == "weights":
        c["w"] = c["w"][::-1]
    elif how == "dm":
        c["dm"] = [0.1, 0.2, 0.5][i % 3]
    elif how == "shift":
        s = i % 9 - 4
        c["k"] = [k + s for k in c["k"]]
        c["mc"] += s
    elif how == "mc":
        c["mc"] += i % 3 - 1
    elif how == "j":
        c["j"] = 1 + i % 5
    elif how == "seed":
        c["seed"] = i
    return c


def do(step, d, keep=None):
    """(result, error) of one call"""
    import matplotlib.pyplot as plt
    import numpy as np
    group, name = names()[step["f"] % len(names())]
    make, defaults = p26.FN[group][name]
    ids = (uuid.UUID(int=i) for i in itertools.count())
    old, uuid.uuid4 = uuid.uuid4, lambda: next(ids)
    plt.close("all")
    try:
        if step["bad"] == "m":
            d.m[0] += 0.37 * d.dm
        elif step["bad"] == "w":
            d.w[0] = -1
        np.random.seed(d.c["seed"] % 2**31)
        f, need, other = make(d)
        opts = {k: other[k] for i, k in enumerate(defaults)
                if k in other and step["other"] >> i & 1}
        r = f(**need, **opts)
        res = p26.fp(r)
        if keep is not None:
            keep.append(r)
        return res, None
    except Exception as exc:
        return None, type(exc).__name__
    finally:
        uuid.uuid4 = old
        plt.close("all")


# ------------------------------------------- a process that has done nothing
class Fresh:
    """forks a process for each question from one that never called
    anything"""

    def __init__(self):
        a, b = os.pipe(), os.pipe()
        self.pid = os.fork()
        if not self.pid:
            try:
                os.close(a[1])
                os.close(b[0])
                self.serve(a[0], b[1])
            finally:
                os._exit(0)
        os.close(a[0])
        os.close(b[1])
        self.w, self.r, self.k = a[1], b[0], 0

    @staticmethod
    def read(fd, n, patience=None):
        out = b""
        while len(out) < n:
            if patience and not select.select([fd], [], [], patience)[0]:
                raise TimeoutError
            part = os.read(fd, n - len(out))
            if not part:
                raise EOFError
            out += part
        return out

    @classmethod
    def serve(cls, r, w):
        import signal
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        while True:
            try:
                n, k = struct.unpack("<II", cls.read(r, 8))
                q = json.loads(cls.read(r, n))
            except EOFError:
                return
            pid = os.fork()
            if not pid:
                try:
                    signal.alarm(100)
                    from seismostats.utils import set_option
                    if not q["warn"]:
                        set_option("warnings", False)
                    ans = do(q["step"], Held(q["d"]))
                    s = json.dumps(ans).encode()
                    s = struct.pack("<II", len(s), k) + s
                    while s:
                        s = s[os.write(w, s):]
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, **q):
        self.k += 1
        s = json.dumps(q).encode()
        s = struct.pack("<II", len(s), self.k) + s
        while s:
            s = s[os.write(self.w, s):]
        while True:
            n, k = struct.unpack("<II", self.read(self.r, 8, 120))
            s = self.read(self.r, n, 120)
            if k == self.k:
                return json.loads(s)


_FRESH = None


def scribble(o, depth=0):
    """results belong to the caller, who may do anything with them"""
    import numpy as np
    import pandas as pd
    if depth > 3:
        return
    if isinstance(o, dict):
        for v in list(o.values()):
            scribble(v, depth + 1)
        o["scribble"] = 1
    elif isinstance(o, (list, tuple)):
        for v in o:
            scribble(v, depth + 1)
        if isinstance(o, list):
            o.append(4)
    elif isinstance(o, np.ndarray) and o.flags.writeable:
        if o.dtype.kind in "fiu":
            o[...] = 77
        elif o.dtype.kind == "b":
            o[...] = ~o
    elif isinstance(o, pd.DataFrame):
        for c in list(o.columns):
            if str(o[c].dtype) == "float64":
                o[c] = 77.0
        for k in getattr(o, "_metadata", []):
            try:
                setattr(o, k, None)
            except (AttributeError, TypeError):
                pass


HOW = ["same", "same", "reverse", "swap", "one", "gap", "weights", "dm",
       "shift", "mc", "j", "seed"]


@st.composite
def _history(draw):
    steps = []
    for k in range(draw(st.integers(2, 6))):
        stay = steps and draw(st.integers(0, 2))
        steps.append({
            "f": steps[-1]["f"] if stay else draw(st.integers(0, 10**4)),
            "how": draw(st.sampled_from(HOW)),
            "i": draw(st.integers(0, 10**4)),
            "back": draw(st.integers(0, 5)) == 0,
            "bad": draw(st.sampled_from([None] * 6 + ["m", "w"])),
            "other": draw(st.sampled_from([0, 0, 2**12 - 1]))
            if draw(st.booleans()) else draw(st.integers(0, 2**12 - 1))})
    return {"d": draw(_data(6)), "steps": steps,
            "warn": draw(st.booleans())}


@PROP.facet(_history, quick=420, shards=6)
def history(case, ctx):
    """every call of a sequence, successful or refused, returns what it
    returns in a process where it is the first: results do not depend on
    earlier calls, on other data that were in the same arrays, or on what was
    done with earlier results"""
    global _FRESH
    from seismostats.utils import set_option
    if _FRESH is None:
        _FRESH = Fresh()
    c, d, good = case["d"], None, 0
    earlier = [c]
    set_option("warnings", case["warn"])
    try:
        for i, step in enumerate(case["steps"]):
            c = earlier[0] if step["back"] else variant(c, step)
            earlier.append(c)
            d = Held(c, d)
            keep = []
            r, e = do(step, d, keep)
            want, we = _FRESH.ask(step=step, d=c, warn=case["warn"])
            r = json.loads(json.dumps(r))
            name = names()[step["f"] % len(names())][1]
            assert e == we, (f"call {i + 1} ({name}): {e or 'accepted'}; as "
                             f"the first call {we or 'accepted'}")
            assert p26.near(want, r), (
                f"call {i + 1} ({name}): as the first call / now: "
                f"{p26.where(want, r)}")
            for x in keep:
                scribble(x)
            good += e is None
            ctx.label(name)
    finally:
        set_option("warnings", True)
    ctx.nt(good > 1)


# -------------------------------------------------------------------- traces
def state():
    import decimal
    import gc
    import locale
    import logging
    import socket
    import sys
    import threading
    import warnings
    import matplotlib as mpl
    import matplotlib.pyplot as plt
    import numpy as np
    import pandas as pd
    from seismostats.utils import get_option
    s = {"numpy errors": str(np.geterr()),
         "numpy printing": str(np.get_printoptions()),
         "warning filters": [str(f) for f in warnings.filters],
         "interactive": plt.isinteractive(),
         "backend": mpl.get_backend(),
         "environment": dict(os.environ),
         "directory": os.getcwd(), "files": os.listdir("."),
         "locale": locale.setlocale(locale.LC_ALL),
         "decimal": str(decimal.getcontext()),
         "collector": gc.isenabled(),
         "recursion": sys.getrecursionlimit(),
         "logging": (logging.root.level, len(logging.root.handlers),
                     logging.root.manager.disable),
         "timeout": socket.getdefaulttimeout(),
         "threads": threading.active_count(),
         "open files": len(os.listdir("/proc/self/fd")),
         "streams": (id(sys.stdout), id(sys.stderr)),
         "option": get_option("warnings")}
    s.update({"rc " + k: str(v) for k, v in mpl.rcParams.items()})
    for k in ("mode.chained_assignment", "mode.copy_on_write",
              "display.max_rows", "display.max_columns", "display.width",
              "display.precision", "compute.use_numexpr",
              "mode.use_inf_as_na"):
        try:
            s["pandas " + k] = str(pd.get_option(k))
        except (KeyError, AttributeError):
            pass
    return s


class Guard:
    """what can be set back after a difference"""

    def __enter__(self):
        import warnings
        import locale
        import matplotlib as mpl
        import numpy as np
        self.w = list(warnings.filters)
        self.rc = dict(mpl.rcParams)
        self.err = np.geterr()
        self.env = dict(os.environ)
        self.loc = locale.setlocale(locale.LC_ALL)
        return self

    def __exit__(self, *_):
        import warnings
        import locale
        import matplotlib as mpl
        import numpy as np
        warnings.filters[:] = self.w
        np.seterr(**self.err)
        os.environ.clear()
        os.environ.update(self.env)
        locale.setlocale(locale.LC_ALL, self.loc)
        mpl.rcParams.update({k: v for k, v in self.rc.items()
                             if k != "backend" and mpl.rcParams[k] != v})


RANDOM = ("the stream of random numbers continues the same whatever the seed: "
          "it was reset")


@PROP.facet(lambda: st.fixed_dictionaries({
    "d": _data(6), "warn": st.booleans(),
    "step": st.fixed_dictionaries({
        "f": st.integers(0, 10**4),
        "bad": st.sampled_from([None] * 3 + ["m", "w"]),
        "other": st.one_of(st.sampled_from([0, 2**12 - 1]),
                           st.integers(0, 2**12 - 1))})}),
    quick=420, shards=4)
def traces(case, ctx):
    """a call, successful or refused, leaves the settings of the process as
    they were (numpy, pandas, matplotlib, warnings, environment, directory,
    files, locale, random stream), and the package's own options"""
    import numpy as np
    from seismostats.utils import set_option
    step = case["step"]
    name = names()[step["f"] % len(names())][1]
    back = os.getcwd()
    with tempfile.TemporaryDirectory() as tmp:
        os.chdir(tmp)
        try:
            set_option("warnings", case["warn"])
            # what is set once, when something is used for the first time,
            # is no trace of the call
            for last in (False, True):
                with Guard():
                    a = state()
                    r, e = do(step, Held(case["d"]))
                    one = str(np.random.get_state()[1:3])
                    b = state()
                diff = [k for k in a if a[k] != b[k]]
                if not diff:
                    break
            assert not diff, f"{name} changed: " + "; ".join(
                f"{k}: {str(a[k])[:80]} to {str(b[k])[:80]}"
                for k in diff[:3])
            do(step, Held(dict(case["d"], seed=case["d"]["seed"] + 1)))
            assert str(np.random.get_state()[1:3]) != one, f"{name}: {RANDOM}"
        finally:
            os.chdir(back)
            set_option("warnings", True)
    ctx.label(name + ("" if e is None else f" {e}"))
    ctx.nt(e is None)
