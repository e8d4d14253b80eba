"""Writes properties.jsonl and MANIFEST.json from the one list in meta.py."""
import json
import os

from meta import FINDINGS, META

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def anchors(a):
    files = sorted({w.split(":")[0] for w, _ in a})
    return {"files": files,
            "mechanism": [{"name": n, "where": w} for w, n in a]}


with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for m in META:
        assert len(m["title"]) <= 80, m["id"]
        f.write(json.dumps({
            "id": m["id"], "title": m["title"], "statement": m["statement"],
            "quantifier": {"over": m["over"], "text": m["quant"]},
            "why_tests_cant": m["why"],
            "anchors": anchors(m["anchors"])}, ensure_ascii=False) + "\n")

manifest = {
    "version": 1,
    "setup_cmd": f"{PY} /verif/run.py --setup",
    "checks": [{
        "property": m["id"],
        "quick_cmd": f"{PY} /verif/run.py {m['id']} --tier quick",
        "thorough_cmd": f"{PY} /verif/run.py {m['id']} --tier thorough",
        "technique": m["tech"],
        "level": "exploration",
        "level_note": m["note"],
    } for m in META],
    "not_applicable": [],
    "notes": "Every check is a Hypothesis search over generated cases against "
             "an explicit oracle (run.py, sv/core.py, sv/props/pNN.py); no "
             "hooks in /repo. Re-run a replay with: "
             f"{PY} /verif/run.py <id> --replay <file>.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write("\n")

with open(os.path.join(HERE, "known_findings.jsonl"), "w") as f:
    for e in FINDINGS:
        f.write(json.dumps(e, ensure_ascii=False) + "\n")
