#!/usr/bin/env python3
"""Write MANIFEST.json from the list of built checks."""
import json
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "harness"))
import checks  # noqa: E402

props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
out = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
       "notes": "No hooks: every check drives the public API of /repo's working tree and needs no instrumentation."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        out["checks"].append({
            "property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
            "evidence_file": f"evidence/{i}.json", "technique": checks.TECH.get(i, checks.TECH["*"]),
            "level": checks.CHECKS[i][1], "level_note": checks.NOTE.get(i, checks.NOTE["*"])})
    else:
        out["not_applicable"].append({"property": i, "reason": "check not built yet"})
(V / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
print(len(out["checks"]), "checks")
