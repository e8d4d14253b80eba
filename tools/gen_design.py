"""Writes DESIGN.md (see its head)."""
import ast
import glob
import json
import os
import re
import textwrap

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
ns = {"__file__": os.path.join(HERE, "meta.py")}
src = open(os.path.join(HERE, "meta.py")).read()
exec(compile(src, ns["__file__"], "exec"), ns)


def wrap(t, ind=""):
    return "\n".join(textwrap.wrap(" ".join(t.split()), 78,
                                   initial_indent=ind,
                                   subsequent_indent=" " * len(ind)))


def facets(pid):
    t = ast.parse(open(f"{ROOT}/sv/props/{pid.lower()}.py").read())
    for n in t.body:
        if isinstance(n, ast.FunctionDef) and any(
                "facet" in ast.dump(d) for d in n.decorator_list):
            yield n.name, " ".join((ast.get_docstring(n) or "").split())
    return


def prop_call(pid):
    t = ast.parse(open(f"{ROOT}/sv/props/{pid.lower()}.py").read())
    for n in t.body:
        if isinstance(n, ast.Assign) and n.targets[0].id == "PROP":
            a = [ast.literal_eval(x) for x in n.value.args]
            return a[1], (a[2] if len(a) > 2 else [])


props = [json.loads(x) for x in open(f"{ROOT}/properties.jsonl")]
man = {c["property"]: c for c in
       json.load(open(f"{ROOT}/MANIFEST.json"))["checks"]}
notes = {}
f = f"{HERE}/design_notes.md"
if os.path.exists(f):
    for part in re.split(r"(?m)^## ", open(f).read())[1:]:
        k, _, body = part.partition("\n")
        notes[k.strip()] = body.strip()
out = [open(f"{HERE}/design_head.md").read().rstrip(), "",
       notes.get("false alarms", "(none recorded)"), "",
       "## The properties", ""]
for p in props:
    pid = p["id"]
    rule, ass = prop_call(pid)
    out += [f"### {pid} {p['title']}", "", wrap(p["statement"]), ""]
    t = man[pid]["technique"].split("): ", 1)[-1]
    out += [wrap(f"Oracle: {t}."), "",
            wrap("Why tests cannot settle it: " + p["why_tests_cant"]), "", "Facets:", ""]
    for n, d in facets(pid):
        out.append(wrap(f"`{n}`: {d}", "* "))
    out += ["", wrap("Cases: " + rule), ""]
    out.append(wrap("Bounds: " + man[pid]["level_note"] + (
        " Assumes: " + "; ".join(ass) + "." if ass else "")))
    out.append("")
    fx = [x for x in ns["FINDINGS"] if x["property"] == pid]
    for x in fx:
        if x["status"] == "fixed":
            out.append(wrap(f"repaired ({x['commit']}): "
                            + x["what"].split(x["commit"], 1)[1].strip(),
                            "* "))
        else:
            out.append(wrap(f"known finding: {x['what']}", "* "))
    if fx:
        out.append("")
    if pid in notes:
        out += [notes[pid], ""]
out += ["## Planted bugs", "", wrap(
    "Each is in `seeded/<name>`, written from the statement of a property and "
    "the code without looking at the checks. All build and pass the 175 "
    "tests. 'at once' = caught by the check as it was when the bug was "
    "planted; otherwise the check was strengthened afterwards."), ""]
catch = {}
if os.path.exists(f"{HERE}/catches.json"):
    catch = json.load(open(f"{HERE}/catches.json"))
out += ["| planted bug | what it breaks | caught by | |",
        "|---|---|---|---|"]
for d in sorted(glob.glob(f"{ROOT}/seeded/*")):
    n = os.path.basename(d)
    m = json.load(open(d + "/meta.json"))
    c = catch.get(n, {})
    by = "; ".join(f"{k} ({', '.join(v)})" for k, v in sorted(c.items())
                   if k != "first" and v) or "**missed**"
    out.append(f"| {n} | {m['what_it_breaks']} | {by} | "
               + ("at once" if c.get("first") else "after strengthening")
               + " |")
out += ["", notes.get("end", "")]
with open(f"{ROOT}/DESIGN.md", "w") as fh:
    fh.write("\n".join(out).rstrip() + "\n")
