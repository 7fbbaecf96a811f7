#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (statements) and checks.py (jobs)."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
import props, checks
with open(V + '/properties.jsonl', 'w') as f:
    for p in props.P: f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
m = dict(version=1, setup_cmd='python3 vf.py --setup', checks=[], not_applicable=[], notes='No hooks are needed: the harnesses use the public API of the headers in /repo/include. See DESIGN.md.')
for p in props.P:
    if p['id'] in checks.PROPS and not p.get('na'):
        i = p['id']
        m['checks'].append(dict(property=i, quick_cmd=f'python3 vf.py {i} --quick', thorough_cmd=f'python3 vf.py {i} --thorough', evidence_file=f'evidence/{i}.json',
            technique='symbolic execution of the clang IR of the real headers, path conditions and assertions decided by SMT (z3, cvc5 cross-check)', level='model_checking', level_note=p['note']))
    else: m['not_applicable'].append(dict(property=p['id'], reason=p.get('na', 'no check built yet')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
