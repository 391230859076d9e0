"""mkseed.py FILE...: make seeded/<id>/ from planted-bug descriptions.

A description file defines BUGS: dicts id, property, edits [(file, old, new)], demo (python text), needs, breaks."""
import json
import runpy
import subprocess
import sys
import tempfile
from pathlib import Path

V = Path(__file__).resolve().parent.parent
SH = """#!/bin/bash
# exit 0 when the property holds, nonzero otherwise
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
export NUMBA_CACHE_DIR=$w PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=$w PYTHONWARNINGS=ignore
/opt/venv/bin/python "$d/demo.py" "$w"
"""
for f in sys.argv[1:]:
    for b in runpy.run_path(f)["BUGS"]:
        with tempfile.TemporaryDirectory() as t:
            subprocess.run(f"git -C /repo archive HEAD src | tar x -C {t}; cd {t}; git init -q; git add -A; git -c user.name=x -c user.email=x@x commit -qm x", shell=True, check=True)
            for fn, old, new in b["edits"]:
                p = Path(t) / "src/pystrata" / fn
                s = p.read_text()
                assert s.count(old) == 1, (b["id"], fn, s.count(old), old)
                p.write_text(s.replace(old, new))
            diff = subprocess.run(["git", "-C", t, "diff"], capture_output=True, text=True, check=True).stdout
        d = V / "seeded" / b["id"]
        d.mkdir(parents=True, exist_ok=True)
        (d / "patch.diff").write_text(diff)
        (d / "demo.sh").write_text(SH)
        (d / "demo.py").write_text(b["demo"].lstrip("\n"))
        (d / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
        print(b["id"])
