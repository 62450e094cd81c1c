#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, vlib/props.py and the notes below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from vlib import props

HOOKS = ["b86bb98"]
import subprocess
full = lambda h: subprocess.run(["git", "-C", "/repo", "rev-parse", h], capture_output=True, text=True).stdout.strip()
NOTES = json.load(open(os.path.join(here, "tools", "notes.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for pid in ids:
    if pid in props.CHECKS:
        spec, note = NOTES[pid]
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 check.py {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {pid} thorough",
            "technique": f"TLA+ specification checked with TLC ({spec}), bound to the code by trace validation of recorded behaviours and replay of TLC-enumerated ones",
            "level": props.CHECKS[pid][1],
            "level_note": note})
    else:
        na.append({"property": pid, "reason": "no check yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "auto_palette_verif",
               "enable": "RUSTFLAGS='--cfg auto_palette_verif' (set by vlib/core.py when it builds the harness crate in /verif/harness, which has a path dependency on /repo)",
               "source_commits": [full(h) for h in HOOKS]},
     "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds the harness against /repo, model checks the specification of the property (with negative controls), executes cases on the real code and has TLC judge every recorded behaviour against the specification."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
