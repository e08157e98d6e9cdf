#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from tools import props
NA = dict(props.NA)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
checks = []
TECH = ('Static analysis of the current source: abstract interpretation (finite kind/interval/equality domains, '
        'uninterpreted terms, trace partitioning; no solver, nothing is run)')
for p in props.PROPS:
    if p['id'] in NA:
        continue
    mod = importlib.import_module('checks.' + p['id'])
    tech = TECH
    if mod.check.struct:
        tech += '; plus structural rules over the syntax tree and class tables'
    n = len(mod.check.obls) + len(mod.check.struct)
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 /verif/check.py %s' % p['id'],
        'thorough_cmd': 'python3 /verif/check.py %s --thorough' % p['id'],
        'technique': tech, 'level': 'other',
        'level_note': p['note'] or ('%d obligations decided on every abstract path of the listed operations; container '
                                    'shapes k-limited (2 quick, 3 thorough), unmodelled operations reported as undecided '
                                    'in the evidence' % n)})
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import ast"',
           'checks': checks,
           'not_applicable': [{'property': k, 'reason': r} for k, r in props.NA],
           'notes': 'No hooks in /repo. See DESIGN.md.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(props.PROPS), 'properties', len(checks), 'checks')
