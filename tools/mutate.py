"""Developer's tool: systematic mutation of the package under test.

usage: mutate.py coverage            lines covered per test and per facet
       mutate.py tests [--only RE]   runs the tests on each mutant
       mutate.py checks [--only RE]  runs the facets on the mutants that
                                     pass the tests
       mutate.py list                mutants that neither notices
       mutate.py make ID             writes the mutant, prints its directory
State is kept in /tmp/mut; nothing is changed in /repo or /verif.
A fork server holds the imported libraries; each mutant is a copy of the
package in which one source segment is replaced.
"""
import ast
import hashlib
import json
import os
import random
import re
import resource
import shutil
import signal
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SV_REPO", "/repo")
OUT = os.environ.get("MUT_OUT", "/tmp/mut")
PKG = "seismostats"
TEST_SECONDS = 90
CHECK_SECONDS = int(os.environ.get("MUT_SECONDS", 60))
JOBS = int(os.environ.get("MUT_JOBS", 8))


# ------------------------------------------------------------- mutants
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"],
       ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"],
       ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"],
       ast.FloorDiv: ["/"], ast.Mod: ["*"], ast.Pow: ["*"],
       ast.BitAnd: ["|"], ast.BitOr: ["&"]}
NAMES = {"min": "max", "max": "min", "nanmin": "nanmax", "nanmax": "nanmin",
         "floor": "ceil", "ceil": "floor", "round": "floor", "any": "all",
         "all": "any", "argmin": "argmax", "argmax": "argmin",
         "mean": "median", "median": "mean", "log10": "log", "log": "log10",
         "exp": "exp2", "sin": "cos", "cos": "sin", "isnan": "isfinite",
         "isna": "notna", "notna": "isna", "isnull": "notnull",
         "sum": "mean", "nansum": "sum", "cumsum": "cumprod",
         "floor_divide": "divide", "minimum": "maximum",
         "maximum": "minimum", "first": "last", "zeros": "ones",
         "ones": "zeros", "array": "atleast_1d", "cdf": "pdf", "ppf": "cdf",
         "gt": "ge", "lt": "le", "ge": "gt", "le": "lt",
         "iloc": "loc", "loc": "iloc", "lower": "upper", "upper": "lower",
         "startswith": "endswith", "append": "extend", "warn": "debug"}


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.split("\n")
        off = [0]
        for ln in self.lines:
            off.append(off[-1] + len(ln.encode()) + 1)
        self.off = off
        self.b = src.encode()
        self.out = []
        self.fn = []

    def span(self, n):
        return (self.off[n.lineno - 1] + n.col_offset,
                self.off[n.end_lineno - 1] + n.end_col_offset)

    def seg(self, n):
        a, z = self.span(n)
        return self.b[a:z].decode()

    def add(self, node, new, op):
        a, z = self.span(node)
        old = self.b[a:z].decode()
        if old == new:
            return
        self.out.append({"line": node.lineno, "a": a, "z": z, "old": old,
                         "new": new, "op": op,
                         "fn": ".".join(self.fn) or "<module>"})

    def raw(self, a, z, new, line, op):
        old = self.b[a:z].decode()
        if old != new:
            self.out.append({"line": line, "a": a, "z": z, "old": old,
                             "new": new, "op": op,
                             "fn": ".".join(self.fn) or "<module>"})

    def between(self, left, right, table, cls):
        a = self.span(left)[1]
        z = self.span(right)[0]
        return a, z

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        for d in n.decorator_list:
            pass
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)
        self.body(n.body)
        self.fn.pop()

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        self.body(n.body)
        self.fn.pop()

    def body(self, stmts):
        for s in stmts:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.stmt(s)
            self.visit(s)

    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise,
                          ast.Continue, ast.Break)):
            if isinstance(s, ast.Assign) and not self.fn:
                return
            self.add(s, "pass", "delete")
        if isinstance(s, ast.AugAssign):
            a, z = self.span(s.target)[1], self.span(s.value)[0]
            t = self.b[a:z].decode()
            sw = t.replace("+=", "-=") if "+=" in t else t.replace("-=", "+=")
            self.raw(a, z, sw, s.lineno, "augop")

    def generic_visit(self, n):
        for name, val in ast.iter_fields(n):
            if name in ("annotation", "returns"):
                continue
            if isinstance(val, list):
                if name in ("body", "orelse", "finalbody") \
                        and val and isinstance(val[0], ast.stmt):
                    self.body(val)
                else:
                    for v in val:
                        if isinstance(v, ast.AST):
                            self.visit(v)
            elif isinstance(val, ast.AST):
                self.visit(val)

    def visit_Module(self, n):
        self.body(n.body)

    def visit_Import(self, n):
        pass

    visit_ImportFrom = visit_Import

    def visit_If(self, n):
        self.add(n.test, "True", "cond")
        self.add(n.test, "False", "cond")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, self.seg(n.body), "ifexp")
        self.add(n, self.seg(n.orelse), "ifexp")
        self.generic_visit(n)

    def visit_Compare(self, n):
        left = n.left
        for op, right in zip(n.ops, n.comparators):
            a, z = self.span(left)[1], self.span(right)[0]
            t = self.b[a:z].decode()
            pat = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
                   ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is",
                   ast.IsNot: "is not", ast.In: "in",
                   ast.NotIn: "not in"}[type(op)]
            for new in CMP[type(op)]:
                if pat in t:
                    i = t.index(pat)
                    self.raw(a, z, t[:i] + new + t[i + len(pat):], n.lineno,
                             "compare")
            left = right
        self.generic_visit(n)

    def visit_BinOp(self, n):
        a, z = self.span(n.left)[1], self.span(n.right)[0]
        t = self.b[a:z].decode()
        pat = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/",
               ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
               ast.BitAnd: "&", ast.BitOr: "|"}.get(type(n.op))
        if pat and pat in t:
            i = t.index(pat)
            for new in BIN[type(n.op)]:
                self.raw(a, z, t[:i] + new + t[i + len(pat):], n.lineno,
                         "arith")
            if isinstance(n.op, (ast.Add, ast.Sub)):
                self.add(n, self.seg(n.left), "dropterm")
            if isinstance(n.op, (ast.BitAnd, ast.BitOr)):
                self.add(n, self.seg(n.left), "dropterm")
                self.add(n, self.seg(n.right), "dropterm")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for i in range(len(n.values) - 1):
            a, z = self.span(n.values[i])[1], self.span(n.values[i + 1])[0]
            t = self.b[a:z].decode()
            if re.search(r"\band\b", t):
                self.raw(a, z, re.sub(r"\band\b", "or", t), n.lineno, "bool")
            elif re.search(r"\bor\b", t):
                self.raw(a, z, re.sub(r"\bor\b", "and", t), n.lineno, "bool")
        for v in n.values:
            self.add(v, "True" if isinstance(n.op, ast.And) else "False",
                     "dropcond")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.add(n, self.seg(n.operand), "unary")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, str(not v), "const")
        elif isinstance(v, int):
            self.add(n, str(v + 1), "const")
            self.add(n, str(v - 1), "const")
        elif isinstance(v, float):
            self.add(n, repr(v * 1.01 if v else 0.01), "const")
            self.add(n, repr(v * 3.0 if v else 1.0), "const")
        elif isinstance(v, str) and v and "\n" not in v:
            s = self.seg(n)
            if s[:1] in "'\"" and s[:3] not in ('"""', "'''"):
                self.add(n, s[0] + "X" + s[1:], "str")

    def visit_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                self.visit(v.value)

    def visit_Raise(self, n):
        pass

    def visit_Return(self, n):
        if n.value is not None and not (isinstance(n.value, ast.Constant)
                                        and n.value.value is None):
            self.add(n.value, "None", "return")
        self.generic_visit(n)

    def visit_Call(self, n):
        f = n.func
        if (isinstance(f, ast.Name) and f.id == "print") or (
                isinstance(f, ast.Attribute) and f.attr == "warn"):
            return
        if isinstance(f, ast.Attribute) and f.attr in NAMES:
            z = self.span(f)[1]
            self.raw(z - len(f.attr), z, NAMES[f.attr], n.lineno, "name")
        elif isinstance(f, ast.Name) and f.id in NAMES:
            self.add(f, NAMES[f.id], "name")
        if isinstance(f, ast.Attribute):
            self.add(n, self.seg(f.value), "dropcall")
        if len(n.args) == 1 and not isinstance(n.args[0], ast.Starred):
            self.add(n, "(" + self.seg(n.args[0]) + ")", "unwrap")
        if len(n.args) >= 2 and not any(isinstance(x, ast.Starred)
                                        for x in n.args):
            x, y = n.args[0], n.args[1]
            a, z = self.span(x)[0], self.span(y)[1]
            mid = self.b[self.span(x)[1]:self.span(y)[0]].decode()
            self.raw(a, z, self.seg(y) + mid + self.seg(x), n.lineno,
                     "swapargs")
        parts = [(self.span(x), self.seg(x), x) for x in n.args] + \
            [(self.span(k.value), self.seg(k), k) for k in n.keywords]
        if n.keywords and len(parts) >= 1:
            for k in n.keywords:
                keep = [p[1] for p in parts if p[2] is not k]
                a = self.span(f)[1]
                z = self.span(n)[1]
                self.raw(a, z, "(" + ", ".join(keep) + ")", n.lineno,
                         "dropkw")
        self.generic_visit(n)

    def visit_keyword(self, n):
        self.visit(n.value)

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Slice):
            s = n.slice
            self.add(n, self.seg(n.value), "slice")
            for e in (s.lower, s.upper):
                if e is not None and not isinstance(e, ast.Constant):
                    self.add(e, "(" + self.seg(e) + ") + 1", "slice")
        self.generic_visit(n)

    def visit_comprehension(self, n):
        for i in n.ifs:
            self.add(i, "True", "compif")
        self.generic_visit(n)


def sources():
    for root, dirs, names in os.walk(os.path.join(REPO, PKG)):
        dirs[:] = sorted(d for d in dirs if d not in ("tests", "__pycache__"))
        for n in sorted(names):
            if n.endswith(".py"):
                yield os.path.relpath(os.path.join(root, n), REPO)


def mutants():
    out = []
    for path in sources():
        src = open(os.path.join(REPO, path)).read()
        f = Finder(src)
        f.visit(ast.parse(src))
        seen = set()
        for m in f.out:
            new = (f.b[:m["a"]] + m["new"].encode() + f.b[m["z"]:])
            h = hashlib.sha1(path.encode() + new).hexdigest()[:12]
            if h in seen:
                continue
            seen.add(h)
            try:
                compile(new, path, "exec")
            except (SyntaxError, ValueError):
                continue
            m.update(path=path, id=h)
            out.append(m)
    return out


# ------------------------------------------------------------ fork server
def warm():
    os.environ.update(MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
                      NUMBA_DISABLE_JIT="1", TZ="UTC", OMP_NUM_THREADS="1",
                      OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1")
    sys.dont_write_bytecode = True
    sys.path.insert(0, VERIF)
    from sv import core
    core.provision()
    import hypothesis  # noqa
    import hypothesis.strategies  # noqa
    import pytest  # noqa
    sys.path.insert(0, REPO)
    import importlib
    import pkgutil
    import seismostats
    stack = [seismostats]
    while stack:
        p = stack.pop()
        for m in pkgutil.iter_modules(p.__path__, p.__name__ + "."):
            if m.name.endswith(".tests"):
                continue
            mod = importlib.import_module(m.name)
            if m.ispkg:
                stack.append(mod)
    for pid in pids():
        core.load(pid)
    sys.path.remove(REPO)
    for m in [m for m in sys.modules
              if m == PKG or m.startswith(PKG + ".") or m == "sv"
              or m.startswith("sv.")]:
        del sys.modules[m]
    import gc
    gc.collect()
    gc.freeze()


def pids():
    return sorted("P" + f[1:3] for f in os.listdir(
        os.path.join(VERIF, "sv", "props")) if re.match(r"p\d\d\.py$", f))


def target(m):
    d = f"{OUT}/w/{m['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(os.path.join(REPO, PKG), os.path.join(d, PKG),
                    ignore=shutil.ignore_patterns("__pycache__"))
    for n in ("pyproject.toml",):
        if os.path.exists(os.path.join(REPO, n)):
            shutil.copy(os.path.join(REPO, n), d)
    p = os.path.join(d, m["path"])
    b = open(p, "rb").read()
    b = b[:m["a"]] + m["new"].encode() + b[m["z"]:]
    open(p, "wb").write(b)
    return d


def in_child(fn, seconds):
    """runs fn in a fork; returns (pid, pipe)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.setsid()
        try:
            os.close(r)
            dn = os.open(os.devnull, os.O_RDWR)
            if not os.environ.get("MUT_DEBUG"):
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            resource.setrlimit(resource.RLIMIT_DATA, (6 << 30, 6 << 30))
            res = fn()
            with os.fdopen(w, "wb") as f:
                f.write(json.dumps(res).encode())
        except BaseException as e:
            if os.environ.get("MUT_DEBUG"):
                import traceback
                traceback.print_exc()
            try:
                os.write(w, json.dumps({"err": repr(e)[:300]}).encode())
            except OSError:
                pass
        finally:
            os._exit(0)
    os.close(w)
    import fcntl
    fcntl.fcntl(r, 1031, 1 << 20)
    return pid, r, time.time() + seconds


def pool(jobs, make, done, seconds):
    """jobs: list; make(job)-> fn to run in the child; done(job, result)"""
    running = {}
    jobs = list(jobs)
    while jobs or running:
        while jobs and len(running) < JOBS:
            j = jobs.pop(0)
            fn = make(j)
            pid, r, end = in_child(fn, seconds)
            running[pid] = (j, r, end)
        time.sleep(0.02)
        for pid in list(running):
            j, r, end = running[pid]
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                data = b""
                while True:
                    c = os.read(r, 65536)
                    if not c:
                        break
                    data += c
                os.close(r)
                del running[pid]
                done(j, json.loads(data) if data else {"err": f"died {st}"})
            elif time.time() > end:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del running[pid]
                done(j, {"timeout": True})


class Cov:
    def __init__(self, root):
        self.root = os.path.realpath(root) + "/"
        self.mon = sys.monitoring
        self.tid = 4
        self.mon.use_tool_id(self.tid, "mut")
        self.lines = set()
        self.mon.register_callback(self.tid, self.mon.events.LINE, self.hit)
        self.mon.set_events(self.tid, self.mon.events.LINE)

    def hit(self, code, line):
        f = code.co_filename
        if f.startswith(self.root) and "/tests/" not in f:
            self.lines.add((f[len(self.root):], line))
        return self.mon.DISABLE

    def start(self):
        self.lines = set()
        self.mon.restart_events()

    def take(self):
        d = {}
        for f, ln in self.lines:
            d.setdefault(f, []).append(ln)
        return d


def run_tests(d, ids, cover=False):
    import pytest
    os.chdir(d)
    sys.path.insert(0, d)
    cov = Cov(d) if cover else None
    out = {}

    class Plug:
        @pytest.hookimpl(hookwrapper=True)
        def pytest_runtest_protocol(self, item, nextitem):
            if cov:
                cov.start()
            t = time.time()
            yield
            if cov:
                out[item.nodeid] = {"s": time.time() - t, "cov": cov.take()}

        def pytest_runtest_logreport(self, report):
            if report.failed:
                out.setdefault("failed", []).append(report.nodeid)

    rc = pytest.main(["-x", "-q", "-p", "no:cacheprovider", "-p",
                      "no:xdist", "-p", "no:randomly", "-p", "no:timeout",
                      "-p", "no:hypothesispytest", "--tb=no",
                      *(ids or [PKG])], plugins=[Plug()])
    return {"rc": int(rc), **out}


def cmd_coverage():
    warm()
    res = {}

    def base():
        return run_tests(REPO, None, cover=True)

    got = {}
    pool([0], lambda j: base, lambda j, r: got.update(r), 600)
    print("tests rc", got.get("rc"), len(got), got.get("err"))
    res["tests"] = {k: v for k, v in got.items() if isinstance(v, dict)}
    facets = []
    sys.path.insert(0, VERIF)
    for pid in pids():
        src = open(os.path.join(VERIF, "sv", "props", pid.lower() + ".py"))
        facets.append(pid)

    def mk(pid):
        def fn():
            from sv import core
            core._quiet()
            core.import_target()
            prop = core.load(pid)
            cov = Cov(REPO)
            out = {}
            for f in prop.facets:
                cov.start()
                t = time.time()
                r = run_facet(core, pid, f, max(5, f.quick // 20), 60)
                out[pid + "/" + f.name] = {
                    "s": (time.time() - t), "n": f.quick,
                    "err": r.get("error"), "cov": cov.take()}
            return out
        return fn

    res["facets"] = {}
    pool(pids(), mk, lambda j, r: (print(j, r.get("err")),
                                   res["facets"].update(r)), 900)
    json.dump(res, open(f"{OUT}/cov.json", "w"))


class Pipe:
    def send_bytes(self, b):
        self.b = b

    def close(self):
        pass


def run_facet(core, pid, f, n, budget, seed=1):
    c = Pipe()
    core.worker(pid, f.name, core._facet_seed(seed, f.name, 0), n, budget, c)
    return json.loads(c.b)


def load_db():
    try:
        return json.load(open(f"{OUT}/db.json"))
    except OSError:
        return {}


def save_db(db):
    json.dump(db, open(f"{OUT}/db.json.tmp", "w"), indent=0)
    os.rename(f"{OUT}/db.json.tmp", f"{OUT}/db.json")


def covering(cov, m):
    """tests/facets that run a line of the mutated span's statement"""
    ln = {m["line"]}
    hits = []
    for name, d in cov.items():
        if not isinstance(d, dict) or "cov" not in d:
            continue
        if ln & set(d["cov"].get(m["path"], ())):
            hits.append(name)
    return hits


def fn_covering(cov, m, fnlines):
    ln = fnlines.get((m["path"], m["fn"]), set())
    return [name for name, d in cov.items() if isinstance(d, dict)
            and ln & set(d.get("cov", {}).get(m["path"], ()))]


def fn_lines(ms):
    out = {}
    for path in sources():
        tree = ast.parse(open(os.path.join(REPO, path)).read())

        def rec(n, names):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    nm = names + [c.name]
                    if isinstance(c, ast.FunctionDef):
                        b = c.body[0].lineno
                        out[(path, ".".join(nm))] = set(
                            range(b, c.end_lineno + 1))
                    rec(c, nm)
                else:
                    rec(c, names)
        rec(tree, [])
    return out


def cmd_tests(only):
    cov = json.load(open(f"{OUT}/cov.json"))
    db = load_db()
    ms = [m for m in mutants() if not only or re.search(only, m["path"]
                                                        + ":" + m["fn"])]
    print(len(ms), "mutants")
    random.Random(1).shuffle(ms)
    fl = fn_lines(ms)
    warm()
    todo = [m for m in ms if m["id"] not in db]
    t0, k = time.time(), [0]

    def ids(m):
        h = set(fn_covering(cov["tests"], m, fl)) \
            or set(covering(cov["tests"], m))
        if m["fn"] == "<module>" or not (m["path"], m["fn"]) in fl:
            h = set(cov["tests"])
        return sorted(h, key=lambda x: cov["tests"][x]["s"])

    def mk(m):
        d = target(m)
        it = ids(m)
        if not it:
            return lambda: {"rc": 0, "n": 0}
        return lambda: run_tests(d, it)

    def done(m, r):
        shutil.rmtree(f"{OUT}/w/{m['id']}", ignore_errors=True)
        if r.get("rc") == 0:
            m["tests"] = "survived"
        elif "timeout" in r:
            m["tests"] = "timeout"
        else:
            m["tests"] = "killed"
        db[m["id"]] = m
        k[0] += 1
        if k[0] % 200 == 0:
            save_db(db)
            print(k[0], len(todo), round(time.time() - t0), flush=True)

    pool(todo, mk, done, TEST_SECONDS)
    save_db(db)
    from collections import Counter
    print(Counter(m["tests"] for m in db.values()))


def cmd_checks(only, redo):
    cov = json.load(open(f"{OUT}/cov.json"))
    db = load_db()
    cur = {m["id"] for m in mutants()}
    ms = [m for m in db.values() if m["tests"] == "survived"
          and m["id"] in cur
          and (not only or re.search(only, m["path"] + ":" + m["fn"]))
          and ("check" not in m or (redo and not m["check"].startswith("P")))]
    print(len(ms), "survivors")
    random.Random(2).shuffle(ms)
    fl = fn_lines(ms)
    warm()
    total = {n: sum(map(len, d["cov"].values()))
             for n, d in cov["facets"].items()}
    t0, k = time.time(), [0]

    def mk(m):
        d = target(m)
        hit = set(covering(cov["facets"], m))
        more = set(fn_covering(cov["facets"], m, fl)) - hit
        order = sorted(hit, key=lambda x: total[x]) \
            + sorted(more, key=lambda x: total[x])

        def fn():
            os.environ["SV_REPO"] = d
            from sv import core
            core.REPO = d
            core.CASE_SECONDS = 60
            core.SHRINK_SECONDS = 0
            core._quiet()
            core.import_target()
            errs = []
            end = time.time() + CHECK_SECONDS
            for name in order:
                left = end - time.time()
                if left < 2:
                    return {"undecided": name, "errs": errs}
                pid, f = name.split("/")
                try:
                    prop = core.load(pid)
                    fc = prop.by_name(f)
                except BaseException as e:
                    return {"caught": name + " (import) " + repr(e)[:100]}
                r = run_facet(core, pid, fc, fc.quick,
                              min(left, CHECK_SECONDS / 4))
                if r.get("failure"):
                    return {"caught": name,
                            "msg": r["failure"]["message"][:200]}
                if r.get("error"):
                    errs.append(name + ": " + r["error"][-200:])
            return {"missed": order, "errs": errs}
        return fn

    def done(m, r):
        shutil.rmtree(f"{OUT}/w/{m['id']}", ignore_errors=True)
        m["check"] = r.get("caught") or (
            "timeout" if "timeout" in r else
            "undecided" if "undecided" in r else
            "missed" if "missed" in r else "err " + str(r.get("err")))
        m["errs"] = r.get("errs")
        k[0] += 1
        if k[0] % 50 == 0:
            save_db(db)
            print(k[0], len(ms), round(time.time() - t0), flush=True)

    pool(ms, mk, done, CHECK_SECONDS + 60)
    save_db(db)
    from collections import Counter
    print(Counter(m["check"][:1] == "P" and "caught" or m["check"][:9]
                  for m in db.values() if "check" in m))


def cmd_list(only):
    db = load_db()
    ms = [m for m in db.values() if m["tests"] == "survived"
          and not m.get("check", "P").startswith("P")
          and (not only or re.search(only, m["path"] + ":" + m["fn"]))]
    ms.sort(key=lambda m: (m["path"], m["a"]))
    last = None
    for m in ms:
        if (m["path"], m["fn"]) != last:
            last = m["path"], m["fn"]
            print(f"== {m['path']} {m['fn']}")
        o = " ".join(m["old"].split())[:100]
        n = " ".join(m["new"].split())[:100]
        print(f"  {m['id'][:6]} {m['line']} {m['op']} {m['check'][:9]}: "
              f"{o!r} -> {n!r}" + (" ERR" if m.get("errs") else ""))
    print(len(ms))


def cmd_make(ids):
    for i in ids:
        for m in load_db().values():
            if m["id"].startswith(i):
                print(target(m))


if __name__ == "__main__":
    os.makedirs(OUT, exist_ok=True)
    a = sys.argv
    only = a[a.index("--only") + 1] if "--only" in a else None
    {"coverage": lambda: cmd_coverage(),
     "tests": lambda: cmd_tests(only),
     "checks": lambda: cmd_checks(only, "--redo" in a),
     "list": lambda: cmd_list(only),
     "make": lambda: cmd_make(a[2:]),
     "count": lambda: print(len(mutants()))}[a[1]]()
