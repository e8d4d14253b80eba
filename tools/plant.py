"""Developer's tool: confirms a planted bug and runs the property's check on it.

usage: plant.py DIR [--check] [--pids P01,P02]
DIR holds edit.py (PROPERTY, FILE, EDITS=[(old, new), ...] or several files as
{file: [(old, new)]}, NEEDS, BREAKS) and demo.py.  With a successful
confirmation, writes /verif/seeded/<name of DIR>/.
"""
import fcntl
import json
import os
import shutil
import subprocess
import sys
import tempfile

SEEDED = "/verif/seeded"
DEMO = ('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')


CATCH = "/verif/tools/catches.json"


def note(name, pid, facets):
    """keeps the catch table of DESIGN.md; the first result is kept, too"""
    with open(CATCH + ".lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        try:
            d = json.load(open(CATCH))
        except OSError:
            d = {}
        e = d.setdefault(name, {"first": bool(facets)})
        e[pid] = facets
        with open(CATCH, "w") as f:
            json.dump(d, f, indent=1, sort_keys=True)


def sh(cmd, cwd, timeout=600, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True,
                       text=True, timeout=timeout,
                       env=dict(os.environ, **(env or {})))
    return p.returncode, p.stdout + p.stderr


def main(src, check, pids):
    name = os.path.basename(os.path.abspath(src))
    ns = {}
    exec(open(os.path.join(src, "edit.py")).read(), ns)
    tmp = tempfile.mkdtemp(prefix=f"plant_{name}_", dir="/tmp")
    repo = os.path.join(tmp, "repo")
    shutil.copytree("/repo", repo, symlinks=True)
    try:
        work = os.path.join(tmp, "seed")
        os.makedirs(work)
        shutil.copy(os.path.join(src, "demo.py"), work)
        for f in os.listdir(src):
            if f not in ("edit.py", "demo.py", "__pycache__"):
                shutil.copy(os.path.join(src, f), work)
        with open(os.path.join(work, "demo.sh"), "w") as f:
            f.write(DEMO)
        os.chmod(os.path.join(work, "demo.sh"), 0o755)
        rc, out = sh(f"bash {work}/demo.sh", repo, 300)
        if rc:
            return print(f"{name}: demo fails on the clean tree\n{out[-1500:]}")
        for path, edits in ns["EDITS"].items():
            p = os.path.join(repo, path)
            s = open(p).read()
            for old, new in edits:
                if s.count(old) != 1:
                    return print(f"{name}: {s.count(old)} matches of\n{old}")
                s = s.replace(old, new)
            open(p, "w").write(s)
        rc, diff = sh("git diff", repo)
        with open(os.path.join(work, "patch.diff"), "w") as f:
            f.write(diff)
        # lines that exist in the original repository
        added = set()
        rc, full = sh("git diff c42a3e1 HEAD~0 -- seismostats", repo)
        added = {x[1:].strip() for x in full.splitlines()
                 if x.startswith("+") and not x.startswith("+++")}
        gone = [x[1:].strip() for x in diff.splitlines()
                if x.startswith("-") and not x.startswith("---")]
        if gone and all(g in added for g in gone):
            print(f"{name}: WARNING removes only lines of fix commits")
        rc, out = sh(f"bash {work}/demo.sh", repo, 300)
        if rc == 0:
            return print(f"{name}: demo passes with the change")
        msg = out.strip().splitlines()[-1][:150] if out.strip() else ""
        rc, out = sh("sed 's#cd /repo#cd {0}#' /opt/vp/test.sh > {1}/t.sh; "
                     "bash {1}/t.sh {1}/o.json | tail -3".format(repo, tmp),
                     repo, env={"PYTHONPATH": repo})
        res = [x for x in out.splitlines() if "passed" in x]
        base = json.load(open("/opt/vp/BASELINE.json"))
        got = json.load(open(f"{tmp}/o.json"))
        ok = "175 passed, 0 failed" in out
        print(f"{name}: demo ok ({msg}); tests: {res[-1:] if res else out[-300:]}")
        if not ok:
            return
        dst = os.path.join(SEEDED, name)
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        shutil.copytree(work, dst)
        with open(os.path.join(dst, "meta.json"), "w") as f:
            json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"],
                       "what_it_breaks": ns["BREAKS"]}, f, indent=1)
        if check:
            for pid in pids or [ns["PROPERTY"]]:
                rc, out = sh(f"/opt/venv/bin/python /verif/run.py {pid} "
                             "--tier quick", "/verif", 900,
                             {"SV_REPO": repo, "VERIF_SEED": "1"})
                v = [x for x in out.splitlines() if "VIOLATION" in x]
                print(f"{name}: {pid} rc={rc} "
                      + ("CAUGHT " + v[0] if v else "MISSED"))
                note(name, pid, [os.path.basename(x.split("replay=")[1])
                                 .split("-")[1] for x in v])
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    pids = [x[7:].split(",") for x in sys.argv if x.startswith("--pids=")]
    for d in a:
        main(d, "--check" in sys.argv, pids[0] if pids else None)
