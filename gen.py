#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from props import P, NA
with open('properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['q']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], state=p.get('state', []),
                         mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                         observe_at=p['obs'], hook_needed=None))) + '\n')
m = dict(version=1, setup_cmd='python3 run.py --setup', checks=[], not_applicable=[],
         notes='Every check is python3 run.py <id>: CBMC on /repo\'s current sources, counterexamples replayed on natively '
               'compiled real code. No hooks in /repo; stubs are put in with -D at compile time. See DESIGN.md.')
for p in P:
    if p['id'] in NA:
        m['not_applicable'].append(dict(property=p['id'], reason=NA[p['id']]))
    else:
        m['checks'].append(dict(property=p['id'], quick_cmd='python3 run.py %s quick' % p['id'],
            thorough_cmd='python3 run.py %s thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
            technique='bounded model checking of the real C code (CBMC/SAT), symbolic inputs, native replay',
            level='model_checking', level_note=p['note']))
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
