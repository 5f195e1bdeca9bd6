#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the rule table and the texts below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vpa.rules import TABLE
from dev.texts import TEXTS, NA
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in TABLE:
        tech, note = TEXTS[p]
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p} --tier quick", "thorough_cmd": f"python3 check.py {p} --tier thorough",
                       "technique": tech, "level": "other", "level_note": note})
    else:
        na.append({"property": p, "reason": NA.get(p, "the check for this property is not built yet")})
m = {"version": 1, "setup_cmd": "python3 -c 'from vpa import build; build.tool()'", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
