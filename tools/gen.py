#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props_*.py."""
import glob, importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
props, na = [], []
for p in sorted(glob.glob(os.path.join(HERE, 'props_*.py'))):
    m = importlib.import_module(os.path.basename(p)[:-3])
    props += m.P
    na += getattr(m, 'NA', [])
props.sort(key=lambda p: p['id'])
checks = []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']},
                            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
for p in props:
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    if not os.path.exists(os.path.join(V, 'rules', p['id'].lower() + '.py')):
        print('no rule yet for', p['id'])
        na.append({'property': p['id'], 'reason': 'no check yet'})
        continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                   'technique': p.get('technique', 'static analysis: path-sensitive dataflow (value numbering with variant sets and widened loops) over rustc MIR, matched against a specification table'),
                   'level': 'other', 'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': 'python3 sa/build.py', 'checks': checks, 'not_applicable': na,
           'notes': 'Static analysis only: a rustc driver dumps the MIR of /repo\'s current tree, sa/ interprets it abstractly, rules/ decide one property each. See DESIGN.md.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
