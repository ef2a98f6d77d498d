#!/usr/bin/env python3
"""Writes MANIFEST.json: CLAIMED lists the properties with a check, NA the others with the reason."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(here, 'tools', 'claims.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
checks = []
for p in props:
    if p in CLAIMED:
        tech, note = CLAIMED[p]
        checks.append({"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
                       "evidence_file": f"evidence/{p}.json", "technique": tech, "level": "other", "level_note": note})
na = [{"property": p, "reason": NA.get(p, "no check has been built for it yet")} for p in props if p not in CLAIMED]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "One analyser (checker/, Go, vendored golang.org/x/tools) decides every property from /repo's current source; see DESIGN.md. /repo has no hooks."}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not applicable')
