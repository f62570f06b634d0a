#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from catalog.py (kept in step by construction)."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V, V + '/props']
from catalog import CATALOG, NOT_APPLICABLE
from registry import PROPS

TECH = ('contract-based deductive verification: contracts on the functions extracted from /repo by clang, '
        'discharged by symbolic execution + induction + z3 (kvc); failing obligations replayed with executable contracts')
with open(V + '/properties.jsonl', 'w') as f:
    for c in CATALOG:
        d = dict(id=c['id'], title=c['title'], statement=c['statement'],
                 quantifier=dict(over=c['over'], text=c['qtext']), why_tests_cant=c['why'],
                 anchors=dict(files=c['files'], mechanism=[dict(name=n, where=w) for n, w in c['mech']]))
        assert len(c['title']) <= 80, c['title']
        f.write(json.dumps(d) + '\n')
checks = []
for c in CATALOG:
    if c['id'] in PROPS:
        checks.append(dict(property=c['id'], quick_cmd='python3-vt check.py %s --tier quick' % c['id'],
                           thorough_cmd='python3-vt check.py %s --tier thorough' % c['id'],
                           evidence_file='evidence/%s.json' % c['id'],
                           technique=TECH, level=c.get('level', 'proof'), level_note=c['note']))
na = [dict(property=k, reason=r) for k, r in NOT_APPLICABLE]
claimed = {c['property'] for c in checks} | {x['property'] for x in na}
for c in CATALOG:
    if c['id'] not in claimed:
        na.append(dict(property=c['id'], reason='contracts for this property are not finished yet; no check is claimed'))
m = dict(version=1, setup_cmd='python3-vt setup.py', checks=checks, not_applicable=na,
         notes='The extraction tool, the extracted code and the executable contracts are rebuilt from /repo on every '
               'run into /verif/build (ignored by git). No hooks in /repo are needed.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(CATALOG), 'properties,', len(checks), 'checks,', len(na), 'not applicable')
