#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = json.load(open(os.path.join(V, 'tools', 'techniques.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')) and i in TECH:
        checks.append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i,
                           thorough_cmd='python3 run.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique=TECH[i]['technique'], level='exploration',
                           level_note=TECH[i]['note']))
    else:
        na.append(dict(property=i, reason=TECH.get(i, {}).get(
            'reason', 'runtime monitoring applies; its check is not finished yet')))
m = dict(version=1, setup_cmd='python3 -m vlib.build o3', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
