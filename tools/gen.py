#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py and checks_table.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
from props import P
from checks_table import TABLE, NOT_APPLICABLE
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if i in TABLE:
        t = TABLE[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": t.get("technique", "stateless model checking of the implementation: exhaustive enumeration of bounded executions against a reference model"),
            "level": t.get("level", "model_checking"),
            "level_note": t.get("note", "exhaustive within the bounds stated in DESIGN.md; the real compiled sources run under AddressSanitizer, every failing choice vector is re-executed before it is reported"),
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check for this property has been built yet, so nothing is claimed")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks: the checks compile the unmodified sources and control the environment by link-time interposition", "source_commits": []},
     "notes": "See DESIGN.md. Violations leave a replay file; python3 check.py ID --replay FILE re-executes it."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
