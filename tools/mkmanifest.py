#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/spec.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from spec import SPEC, LEVEL, A_TEXT
NOTE = {}
exec(open(os.path.join(H, "tools", "notes.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in SPEC:
        continue
    t, n = NOTE[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": t, "level": LEVEL.get(i, "exploration"), "level_note": n})
na = [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in SPEC]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks were added to /repo; harnesses compile /repo's sources with build files of their own. Genuine defects that were repaired are listed in known_findings.txt."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid;", len(checks), "checks,", len(na), "not applicable")
except ImportError:
    print("written (jsonschema not available)")
