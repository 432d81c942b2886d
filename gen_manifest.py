"""writes MANIFEST.json from propconf.py and properties.jsonl"""
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
from propconf import PROPS
checks = []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    c = PROPS[p['id']]
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3-vt check.py %s' % p['id'],
        'thorough_cmd': 'python3-vt check.py %s --thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': c['technique'],
        'level': c['level'],
        'level_note': c['note'],
    })
json.dump({'version': 1, 'setup_cmd': 'python3-vt setup_check.py', 'checks': checks, 'not_applicable': [],
           'notes': 'no hooks in /repo; DESIGN.md describes the verifier, the contracts and the findings'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
