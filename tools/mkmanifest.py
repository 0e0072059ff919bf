#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = "TLA+: recorded runs of the code checked by TLC against the specification (trace validation)"
NOTE = "The specification decides every recorded run completely (each API call, marker segment, MCU and restart marker is one transition); what is not exhaustive is the choice of runs. Trusted: TLC, the harness that logs calls and bytes, the specification's reading of T.81/JFIF."
EXTRA = {}
checks = []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)["id"]
    t, n = EXTRA.get(p, ("", ""))
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p} --tier thorough",
                   "technique": TRACE + t, "level": "model_checking", "level_note": (n + " " if n else "") + NOTE})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup",
           "hooks": {"guard": "none", "enable": "no hooks: everything is observed through the public API", "source_commits": []},
           "checks": checks, "not_applicable": [],
           "notes": "Specification in spec/ (TLA+, checked with TLC); lib/props.py says what each check explores; DESIGN.md explains."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
