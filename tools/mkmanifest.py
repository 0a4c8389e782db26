#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a props/<id>.py is claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "tools")]
from manifest_notes import NOTES, NA
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "props", i + ".py")):
        conc = i.startswith("C")
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": NOTES.get(i, {}).get("technique") or ("TLA+ specification (TLC): linearizability-style trace validation of the real code run under a controlled scheduler" if conc
                else "TLA+ specification (TLC): model-generated and random behaviours replayed on the real code, recorded traces validated by TLC"),
            "level": "model_checking",
            "level_note": NOTES.get(i, {}).get("note") or "Every execution explored is decided by TLC against the specification; executions come from the specification (all transitions within the bounds) and from seeded generators. Trusts TLC, the driver's recording, the compiler and AddressSanitizer."})
    else:
        na.append({"property": i, "reason": NA.get(i, "Not built yet.")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "STDEX_VERIF (unused: the checks need no hooks in /repo)", "enable": "nothing to enable: drivers in /verif/harness include /repo/include directly", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "python3 check.py <id> [--tier thorough] [--replay FILE]; see DESIGN.md"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
