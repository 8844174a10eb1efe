#!/usr/bin/env python3
"""writes MANIFEST.json from props.json and properties.jsonl"""
import json
P = json.load(open('props.json'))
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
checks = []
for i in ids:
    p = P['properties'].get(i)
    if not p: continue
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                   "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
na = [{"property": i, "reason": P["not_applicable"].get(i, "check not built yet")} for i in ids if i not in P['properties']]
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. No hooks in /repo; the fix: commits are listed in known_findings.json."}, open('MANIFEST.json', 'w'), indent=1)
