#!/usr/bin/env python3
"""Nothing has to be built: check that the tools are there and that the specifications parse."""
import subprocess
import sys
from pathlib import Path

spec = Path(__file__).resolve().parent.parent / "spec"
bad = 0
subprocess.check_call(["/opt/venv/bin/python", "-c", "import sys; sys.path.insert(0, '/repo/src'); import aspsim.simulator"])
mods = sorted(p.name for p in spec.glob("*.tla"))
r = subprocess.run(["tla-sany"] + mods, cwd=spec, capture_output=True, text=True)
if r.returncode or "*** Errors" in r.stdout:
    print(r.stdout[-4000:], r.stderr[-2000:])
    sys.exit(1)
print("ok", len(mods), "modules")
