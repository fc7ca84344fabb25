#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta.py and specs.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from meta import PROPS, NA, NOTES, HOOKS
from specs import SPECS
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['over_text']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mechanism']], state=[dict(name=a, meaning=b, where=c) for a, b, c in p.get('state', [])], observe_at=p['observe'], hook_needed=p.get('hook')))
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
checks = []; na = []
for p in PROPS:
    i = p['id']
    if i in SPECS:
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
                           technique='symbolic execution of the rustc LLVM IR of the real code (own engine), assertions decided by SMT (z3, cvc5; bit-vector and exact integer encodings)', level='model_checking', level_note=p.get('note', 'Bounded: ' + SPECS[i]['bounds'])))
    else: na.append(dict(property=i, reason=NA[i]))
m = dict(version=1, setup_cmd='bash engine/build.sh', hooks=HOOKS, checks=checks, not_applicable=na, notes=NOTES)
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
