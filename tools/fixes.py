#!/usr/bin/env python3
"""Writes known_findings.txt: the fix commits of /repo (hashes looked up by subject) and the open findings."""
import subprocess
from pathlib import Path

PROP = {
 "initial mic samples": "P01", "keep the buffer from": "P01", "get_values_from_selection": "P04", "StatePower passes": "P21",
 "RecordState stores": "P06", "SignalPowerRatio keeps": "P21", "SoundfieldPower reads": "P21", "PhaseCounter reaches": "P15",
 "Sequence in raise": "P09", "MLS uses": "P09", "multi-channel noise": "P08", "LinearTrajectory with": "P11",
 "CircularTrajectory with": "P11", "CombinedRegion.is_in_region": "P18", "CombinedRegion samples": "P18",
 "Rectangle and Disc in 3D": "P18", "equidistant_rectangle": "P22", "set the pyroomacoustics": "P14", "arrays without elements": "P13",
 "changing the setup's": "P14", "accept the documented reverb": "P19", "incomplete or unreadable": "P12", "a session with paths": "P12",
 "sessions are only reused": "P12", "a loaded session only": "P12", "load_from_path works": "P12", "accept folders given": "P19",
 "diagnostics exported": "P05", "load_audio_file": "P09", "config_path and session_path": "P19",
}
EXTRA = {}
extra = Path(__file__).with_name("fixes_more.py")
FINDINGS = []
if extra.exists():
    exec(extra.read_text())
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
out = ["# finding: property=<id> key=<key> <what fails>     (a defect that is recorded, not repaired)",
       "# fixed: property=<id> <commit> <what failed>         (repaired in /repo; suppresses nothing)"]
out += [f"finding: property={p} key={k} {t}" for p, k, t in FINDINGS]
for line in log:
    h, subj = line.split(" ", 1)
    if subj.startswith("fix: "):
        t = subj[5:]
        p = [v for k, v in PROP.items() if t.startswith(k)]
        assert len(p) == 1, t
        out.append(f"fixed: property={p[0]} {h} {t}")
Path(__file__).resolve().parent.parent.joinpath("known_findings.txt").write_text("\n".join(out) + "\n")
