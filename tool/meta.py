#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vjs/checks/catalogue.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vjs.checks.catalogue import CLAIMED, NOT_APPLICABLE

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in CLAIMED + NOT_APPLICABLE:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        q['anchors'].setdefault('observe_at', [])
        q['anchors'].setdefault('hook_needed', None)
        f.write(json.dumps(q) + '\n')
m = {'version': 1, 'setup_cmd': 'bash tool/build.sh build', 'checks': [], 'not_applicable': []}
for p in CLAIMED:
    m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 run.py ' + p['id'], 'thorough_cmd': 'python3 run.py ' + p['id'] + ' thorough',
                        'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'other', 'level_note': p['level_note']})
for p in NOT_APPLICABLE:
    m['not_applicable'].append({'property': p['id'], 'reason': p['reason']})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
