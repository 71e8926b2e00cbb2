#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
exec(open(os.path.join(here, 'tools', 'manifest_table.py')).read())
m = {"version": 1, "setup_cmd": "bash check.sh build", "checks": [], "not_applicable": []}
for p in props:
    i = p['id']
    if i in TABLE:
        level, tech, note = TABLE[i]
        m['checks'].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": tech, "level": level, "level_note": note})
    else:
        m['not_applicable'].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
