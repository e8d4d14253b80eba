"""Search harness shared by all checks.

A property is a list of *facets*.  A facet is a Hypothesis strategy producing a
plain JSON-able case, and a check(case, ctx) that raises when the code under
test does not do what the property says.  Cases are plain data, so that a
shrunk failure is written to a replay file and re-run without Hypothesis.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zipfile
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SV_REPO", "/repo")
WHEELS = "/opt/veriftools/wheels"
PYVENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

SHRINK_SECONDS = 30.0
CASE_SECONDS = 180
QUICK_BUDGET = float(os.environ.get("SV_QUICK_BUDGET", 420))
THOROUGH_BUDGET = float(os.environ.get("SV_THOROUGH_BUDGET", 840))


# --------------------------------------------------------------------------
# provisioning
# --------------------------------------------------------------------------
def _wheel(prefix):
    tag = f"cp{sys.version_info[0]}{sys.version_info[1]}"
    names = sorted(os.listdir(WHEELS)) if os.path.isdir(WHEELS) else []
    for n in names:
        if n.startswith(prefix + "-") and n.endswith(".whl") and (
                f"-{tag}-" in n or "-py3-" in n or "py2.py3" in n):
            return os.path.join(WHEELS, n)
    return None


def provision():
    """Makes hypothesis importable without touching /opt/venv."""
    target = os.path.join(VERIF, ".deps")
    if not os.path.isdir(os.path.join(target, "hypothesis")):
        wheels = [_wheel("hypothesis"), _wheel("sortedcontainers")]
        if all(wheels):
            try:
                os.makedirs(target, exist_ok=True)
                tmp = tempfile.mkdtemp(dir=target)
            except OSError:
                target = tmp = tempfile.mkdtemp()
            for w in wheels:
                with zipfile.ZipFile(w) as z:
                    z.extractall(tmp)
            if tmp != target:
                for n in os.listdir(tmp):
                    try:
                        os.rename(os.path.join(tmp, n),
                                  os.path.join(target, n))
                    except OSError:
                        pass        # another process was first
        else:                       # use the tooling venv's copy, by symlink
            target = tempfile.mkdtemp()
            for n in os.listdir(PYVENV):
                if n.startswith(("hypothesis", "_hypothesis",
                                 "sortedcontainers")):
                    os.symlink(os.path.join(PYVENV, n),
                               os.path.join(target, n))
    if target not in sys.path:
        sys.path.append(target)
    import hypothesis  # noqa: F401


def import_target():
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    import seismostats
    f = os.path.realpath(seismostats.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"seismostats imported from {f}, not {REPO}")


# --------------------------------------------------------------------------
# facets
# --------------------------------------------------------------------------
class Discard(Exception):
    """The case is outside the property's domain (counted, not judged)."""


class Ctx:
    def __init__(self):
        self.labels = {}
        self.nontrivial = False

    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    def discard(self, why="out of domain"):
        self.label("discarded: " + why)
        raise Discard(why)


class Facet:
    def __init__(self, name, strategy, check, quick, thorough, rule,
                 shards=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.shards = shards


class Property:
    def __init__(self, pid, rule, assumptions=()):
        self.pid = pid
        self.rule = rule
        self.assumptions = list(assumptions)
        self.facets = []

    def facet(self, strategy, quick=400, thorough=None, name=None, rule=None,
              shards=None):
        def deco(fn):
            self.facets.append(Facet(
                name or fn.__name__, strategy, fn, quick,
                thorough if thorough is not None else quick * 25,
                rule or " ".join((fn.__doc__ or "").split()), shards))
            return fn
        return deco

    def by_name(self, name):
        for f in self.facets:
            if f.name == name:
                return f
        raise KeyError(name)


def load(pid):
    mod = importlib.import_module(f"sv.props.{pid.lower()}")
    return mod.PROP


def _quiet():
    import numpy as np
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")


def _reset_target_state():
    """Global state of the package that a case may change."""
    try:
        from seismostats.utils import set_option
        set_option("warnings", True)
    except Exception:
        pass
    reseed(12345)


_RNG = {}


def reseed(n):
    """the global generator, and those asked for without a seed, start anew"""
    import random
    import numpy as np
    real = _RNG.setdefault("real", np.random.default_rng)
    _RNG["master"] = real(n)

    def default_rng(seed=None):
        return real(int(_RNG["master"].integers(2**62))
                    if seed is None else seed)
    np.random.default_rng = default_rng
    np.random.seed(n % 2**32)
    random.seed(n)


def key_of(case):
    return hashlib.sha1(
        json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()


class _Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise _Hang()


def run_case(facet, case, ctx):
    """Runs one case; raises on violation."""
    _reset_target_state()
    _quiet()
    try:
        facet.check(case, ctx)
    except Discard:
        return False
    return True


# --------------------------------------------------------------------------
# one worker: one facet, one shard
# --------------------------------------------------------------------------
def _short(case, limit=700):
    s = json.dumps(case, default=str)
    if len(s) <= limit:
        return case
    return s[:limit] + f"... ({len(s)} chars)"


def worker(pid, facet_name, seed, examples, budget, conn):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    out = {"facet": facet_name, "evaluations": 0, "judged": 0, "discarded": 0,
           "keys": [], "labels": {}, "samples": [], "failure": None,
           "error": None, "stopped_early": 0, "known": {}}
    t0 = time.monotonic()
    try:
        prop = load(pid)
        facet = prop.by_name(facet_name)
        strat = facet.strategy() if callable(facet.strategy) \
            else facet.strategy
        nontrivial = set()
        st = {"first_fail": None, "fails": {}, "last": None}
        signal.signal(signal.SIGALRM, _alarm)

        def body(case):
            now = time.monotonic()
            key = None
            if st["first_fail"] is not None:
                key = key_of(case)
                if now - st["first_fail"] > SHRINK_SECONDS \
                        and key not in st["fails"]:
                    return
            elif now - t0 > budget:
                out["stopped_early"] += 1
                return
            ctx = Ctx()
            out["evaluations"] += 1
            signal.alarm(CASE_SECONDS)
            try:
                judged = run_case(facet, case, ctx)
            except hypothesis.errors.HypothesisException:
                raise
            except _Hang:
                st["last"] = (case, f"did not return in {CASE_SECONDS} s, "
                              "where milliseconds are usual",
                              traceback.format_exc()[-4000:])
                raise
            except Exception as exc:
                signal.alarm(0)
                key = key or key_of(case)
                if st["first_fail"] is None:
                    st["first_fail"] = time.monotonic()
                st["fails"][key] = True
                st["last"] = (case, f"{type(exc).__name__}: {exc}"[:1500],
                              traceback.format_exc()[-4000:])
                raise
            finally:
                signal.alarm(0)
                for k, v in ctx.labels.items():
                    out["labels"][k] = out["labels"].get(k, 0) + v
            if not judged:
                out["discarded"] += 1
                return
            out["judged"] += 1
            if ctx.nontrivial:
                nontrivial.add(key_of(case)[:16])
                if len(out["samples"]) < 2 and out["evaluations"] > 5:
                    out["samples"].append(
                        {"facet": facet_name, "case": _short(case)})

        test = settings(
            max_examples=examples, deadline=None, database=None,
            derandomize=False, print_blob=False, report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.shrink),
        )(hypothesis.seed(seed)(given(strat)(body)))
        try:
            devnull = open(os.devnull, "w")
            old = sys.stdout, sys.stderr
            sys.stdout = sys.stderr = devnull
            try:
                test()
            finally:
                sys.stdout, sys.stderr = old
        except BaseException as exc:
            if st["last"] is None:
                out["error"] = "".join(traceback.format_exception(exc))[-4000:]
            else:
                case, msg, tb = st["last"]
                out["failure"] = {
                    "property": pid, "facet": facet_name, "seed": seed,
                    "examples": examples, "case": case, "message": msg,
                    "traceback": tb,
                    "history_dependent": "Flaky" in type(exc).__name__,
                }
        out["keys"] = sorted(nontrivial)
    except BaseException as exc:
        out["error"] = "".join(traceback.format_exception(exc))[-4000:]
    out["wall"] = time.monotonic() - t0
    conn.send_bytes(json.dumps(out, default=str).encode())
    conn.close()


# --------------------------------------------------------------------------
# known findings
# --------------------------------------------------------------------------
def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith("#"):
                    e = json.loads(line)
                    if e.get("property") == pid and e.get("status") == "known":
                        out.append(e)
    return out


def _facet_seed(seed, name, shard):
    return (int(seed) * 1000003 + zlib.crc32(name.encode()) + shard * 7919) \
        & 0x7FFFFFFF


def main(argv):
    t0 = time.monotonic()
    if "--setup" in argv:
        provision()
        import_target()
        print("setup ok")
        return 0
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = argv[argv.index("--facet") + 1] if "--facet" in argv else None
    try:
        provision()
        _quiet()
        import_target()
        prop = load(pid)
    except BaseException:
        traceback.print_exc()
        print(f"HARNESS-ERROR property={pid}: could not start")
        return 2

    if "--replay" in argv:
        return replay(prop, argv[argv.index("--replay") + 1])

    cpus = max(1, min(8, len(os.sched_getaffinity(0))))
    budget = QUICK_BUDGET if tier == "quick" else THOROUGH_BUDGET
    facets = [f for f in prop.facets if only is None or f.name == only]
    jobs = []
    for f in facets:
        n = f.quick if tier == "quick" else f.thorough
        shards = f.shards or 1
        if tier == "thorough":
            shards = max(1, min(cpus, n // 50))
        elif n >= 1000 and not f.shards:
            shards = 2
        for s in range(shards):
            jobs.append((f.name, _facet_seed(seed, f.name, s),
                         max(1, n // shards)))
    jobs.sort(key=lambda j: -j[2])
    results, errors = [], []
    ctx = mp.get_context("fork")
    pending, running = list(jobs), []
    end = t0 + budget + 40
    failed_facets = set()
    while pending or running:
        while pending and len(running) < cpus:
            name, sd, n = pending.pop(0)
            left = budget - (time.monotonic() - t0)
            if left <= 1:
                results.append({"facet": name, "evaluations": 0, "judged": 0,
                                "discarded": 0, "keys": [], "labels": {},
                                "samples": [], "failure": None, "error": None,
                                "stopped_early": n})
                continue
            r, w = ctx.Pipe(duplex=False)
            p = ctx.Process(target=worker, args=(pid, name, sd, n, left, w))
            p.start()
            w.close()
            running.append((p, r, name))
        still = []
        ready = mp.connection.wait([r for _, r, _ in running], timeout=1.0) \
            if running else []
        for p, r, name in running:
            if r in ready:
                try:
                    results.append(json.loads(r.recv_bytes()))
                    if results[-1]["failure"]:
                        failed_facets.add(name)
                except EOFError:
                    errors.append(f"{name}: worker died")
                p.join()
            elif time.monotonic() > end + 120:
                p.kill()
                p.join()
                errors.append(f"{name}: worker stopped after the deadline")
            else:
                still.append((p, r, name))
        running = still

    errors += [f"{r['facet']}: {r['error']}" for r in results if r["error"]]
    failures = [r["failure"] for r in results if r["failure"]]

    for e in known_findings(pid):
        try:
            f = prop.by_name(e["facet"])
            run_case(f, dict(e["case"], _known=True), Ctx())
        except Exception as exc:
            print(f"KNOWN-FINDING: property={pid} {e['what']} "
                  f"[{type(exc).__name__}]")

    per_facet, keys, samples = {}, set(), []
    for r in results:
        d = per_facet.setdefault(r["facet"], {
            "evaluations": 0, "judged": 0, "discarded": 0,
            "nontrivial": 0, "labels": {}, "not_run_time_budget": 0,
            "rule": prop.by_name(r["facet"]).rule})
        for k in ("evaluations", "judged", "discarded"):
            d[k] += r[k]
        new = {r["facet"] + ":" + k for k in r["keys"]} - keys
        d["nontrivial"] += len(new)
        d["not_run_time_budget"] += r["stopped_early"]
        keys |= new
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        if sum(s["facet"] == r["facet"] for s in samples) < 2:
            samples += r["samples"][:1]
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(keys),
            "rule": prop.rule,
            "samples": samples or [{"note": "no non-trivial case"}],
            "facets": per_facet,
            "repo": REPO,
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)

    if failures:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        seen = set()
        for fl in failures:
            if fl["facet"] in seen:
                continue
            seen.add(fl["facet"])
            path = os.path.join(
                VERIF, "replays",
                f"{pid}-{fl['facet']}-{key_of(fl['case'])[:10]}.json")
            with open(path, "w") as f:
                json.dump(fl, f, indent=1, default=str)
            print(f"--- {pid}/{fl['facet']}: {fl['message'][:600]}")
            print(f"    case: {json.dumps(fl['case'], default=str)[:600]}")
            print(f"VIOLATION property={pid} replay={path}")
        for e in errors:
            print("harness note:", e)
        return 1
    if errors:
        for e in errors:
            print(f"HARNESS-ERROR property={pid}: {e}")
        return 2
    n = evidence["coverage"]
    print(f"OK property={pid} tier={tier} seed={seed} "
          f"evaluations={n['evaluations']} "
          f"nontrivial={n['distinct_nontrivial']} "
          f"wall={evidence['wall_s']}s")
    return 0


def replay(prop, path):
    with open(path) as f:
        rec = json.load(f)
    facet = prop.by_name(rec["facet"])
    try:
        run_case(facet, rec["case"], Ctx())
    except Exception:
        traceback.print_exc()
        print(f"VIOLATION property={prop.pid} replay={path}")
        return 1
    print(f"OK replay property={prop.pid}: the recorded case passes")
    return 0
