#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from props import PROPS
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + i,
                       "technique": "TLA+ specification; TLC design models; TLC trace validation of the real code" + (", scenarios generated by TLC" if any(r.get("scen") for r in p["runs"]) else ""),
                       "level": "model_checking",
                       "level_note": p.get("note", "Design theorems exhaustively on small parameters; every recorded call of the real code is decided by the specification at real parameters; inputs are generated, not exhaustive.")})
m = {"version": 1, "setup_cmd": "bin/setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the harness uses exported functions only", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in PROPS],
     "notes": "One runner (bin/check.py), configured per property in bin/props.py. Specification in specs/. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
