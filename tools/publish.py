#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/catalogue.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from catalogue import PROPS, NA

V = os.path.dirname(HERE)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
checks = []
for p in PROPS:
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 run.py %s --tier quick' % p['id'],
        'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': 'deterministic simulation with fault injection: ' + p['technique'],
        'level': 'exploration',
        'level_note': p['note'],
    })
m = {'version': 1,
     'setup_cmd': 'python3 tools/setup.py',
     'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
     'notes': 'No hooks in /repo: every seam lies at a library boundary (PyTables, builtins.open and os, numpy and random '
              'seeds, the scheduler of the streams), see DESIGN.md. Each check imports nilmtk from /repo as it is at that moment.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(PROPS), 'claimed,', len(NA), 'not applicable')
