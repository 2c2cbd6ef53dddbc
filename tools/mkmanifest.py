#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl: a check for every property that has props/<id>.cpp."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'C25': 'random thread schedules under ThreadSanitizer; interleavings are sampled, not enumerated',
}
TECH = json.load(open(V + '/tools/technique.json'))
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    if os.path.exists(f'{V}/props/{i}.cpp'):
        checks.append({'property': i, 'quick_cmd': f'python3 run.py {i}', 'thorough_cmd': f'python3 run.py {i} --tier thorough',
                       'technique': TECH.get(i, 'property-based testing: generated cases against an independent reference model'),
                       'level': 'exploration', 'level_note': NOTE.get(i, 'generated-input search with shrinking, coverage feedback and libFuzzer (thorough); no claim about cases not generated')})
    else: na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
