#!/usr/bin/env python3
"""Write MANIFEST.json. CLAIMED maps a property to (level, note)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification (Verus) of the functions extracted from /repo on every run'
CLAIMED = json.load(open(V + '/tools/claims.json'))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    if p in CLAIMED['checks']:
        lv, note = CLAIMED['checks'][p]
        checks.append({'property': p, 'quick_cmd': f'python3 tools/check.py {p}',
                       'thorough_cmd': f'python3 tools/check.py {p} --tier thorough',
                       'technique': TECH, 'level': lv, 'level_note': note})
    else:
        na.append({'property': p, 'reason': CLAIMED['not_applicable'].get(p, 'contracts not written yet')})
json.dump({'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. No hooks in /repo: the contracts live in /verif/contracts and are woven into the code extracted from /repo on every run.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
