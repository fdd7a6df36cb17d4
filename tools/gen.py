"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the checks present."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P  # noqa: E402

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": m} for m in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks, na = [], []
for p in P:
    if not os.path.exists(os.path.join(root, "checks", p["id"] + ".py")):
        na.append({"property": p["id"], "reason": "its check is not built yet"})
        continue
    cmd = f"/opt/venv/bin/python run.py {p['id']}"
    checks.append({
        "property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd + " --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p.get("technique") or (
            "runtime monitoring: generated workloads on the real code, reference-model monitors"),
        "level": "exploration",
        "level_note": "Held on the executions generated from VERIF_SEED, no more: " + p["note"]
        + ". Trusts numpy, the reference in /verif/lib and the tolerances stated in the check.",
    })
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1,
               "setup_cmd": "/opt/venv/bin/python -m compileall -q lib checks run.py",
               "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: the monitors observe through the public API, "
                        "wrapped callables and the files and processes the library makes."},
              f, indent=1)
print(len(checks), "checks,", len(na), "not claimed")
