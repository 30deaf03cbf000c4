#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed) from one table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(),
                  mech=[dict(name=m.split(' @ ')[0], where=m.split(' @ ')[1]) for m in mech], observe=observe,
                  technique=technique, note=note, na=na))

exec(open(os.path.join(V, 'tools/table.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': p['mech'], 'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
        assert len(p['title']) <= 80, p['title']
bins = json.load(open(os.path.join(V, 'engine/bins.json')))
checks, na = [], []
for p in P:
    if p['technique']:
        assert p['id'] in bins, p['id']
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'],
                       'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                       'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': p['na']})
man = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
       'hooks': {'guard': 'none: /repo carries no hooks', 'enable': "the harnesses and the controlled scheduler enter the build through 'go build -overlay' (engine/build.py); /repo is not changed", 'source_commits': []},
       'checks': checks, 'not_applicable': na,
       'notes': 'Explicit-state, stateless model checking of the real code under a controlled scheduler with virtual time; see DESIGN.md.'}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
