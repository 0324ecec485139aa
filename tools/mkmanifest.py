#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of checks and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from vlib import registry

props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        tech, note = registry.TECHNIQUE[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "none", "enable": "no hooks: the public interface is enough to observe every property", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Commits in /repo are repairs only (messages start with fix:). See DESIGN.md and known_findings.txt."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
