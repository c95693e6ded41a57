"""Writes MANIFEST.json from properties.jsonl and tools/properties.py."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from properties import CHECKS  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} quick",
        "thorough_cmd": f"python3 check.py {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": c["technique"],
        "level": c.get("level", "exploration"),
        "level_note": c.get("note", "Holds on every execution observed; the workload samples inputs and histories, it does not enumerate them. "
                            "Trusts the reference model and rustc.") + (" Assumes: " + " ".join(c["assumptions"]) if c.get("assumptions") else ""),
    })
m = {"version": 1, "setup_cmd": "python3 -m py_compile check.py tools/*.py && cargo fetch --offline --manifest-path harness/Cargo.toml",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through the public API, user-supplied types and the allocator. See DESIGN.md."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
