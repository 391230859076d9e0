#!/usr/bin/env python3
"""check.py <property id>: decide one property (see DESIGN.md)."""
import importlib
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent / "harness"))
import vt  # noqa: E402
import checks  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    sys.exit(checks.run(pid))
