#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, props_*.py, the rules' docstrings, known_findings.json and seeded/."""
import ast, glob, importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
out = open(os.path.join(HERE, 'design_head.md')).read()
kf = json.load(open(os.path.join(V, 'known_findings.json')))['findings']
out = out.replace('@FIXES@', '\n'.join('- %s `%s` (%s): %s' % (k['property'], k['commit'], 'fixed', k['what']) for k in kf if k.get('status') == 'fixed'))
props = []
for p in sorted(glob.glob(os.path.join(HERE, 'props_*.py'))):
    props += importlib.import_module(os.path.basename(p)[:-3]).P
props.sort(key=lambda p: p['id'])
seeds = {}
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))
try:
    caught = json.load(open(os.path.join(HERE, 'caught.json')))
except FileNotFoundError:
    caught = {}
na = [p for p in props if p.get('na')]
out += '## 5. Property by property\n'
for p in props:
    out += '\n### %s %s\n\n%s\n\n' % (p['id'], p['title'], p['statement'])
    if p.get('na'):
        out += '*Not applicable*: %s\n' % p['na']
        continue
    f = os.path.join(V, 'rules', p['id'].lower() + '.py')
    if not os.path.exists(f):
        continue
    t = ast.parse(open(f).read())
    rule, ass = '', []
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'RULE':
            rule = ast.literal_eval(n.value)
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'ASSUMES':
            ass = ast.literal_eval(n.value)
    out += '- *Quantified over*: %s.\n- *Why tests cannot settle it*: %s\n' % (p['qtext'], p['why'])
    out += '- *How it is decided*: %s\n- *Rule*: `%s`.\n- *Anchors*: %s.\n' % (' '.join((ast.get_docstring(t) or '').split()), rule, '; '.join('%s (%s)' % (a, b) for a, b in p['mech']))
    out += '- *Scope and assumptions*: %s%s\n' % (p['note'], ' Assumed: ' + '; '.join(ass) + '.' if ass else '')
    try:
        e = json.load(open(os.path.join(V, 'evidence', p['id'] + '.json')))
        c = e['coverage']
        out += '- *Coverage on the current tree*: %d functions, %d paths, %d call sites, %d obligations; about %.0f s after the shared build.\n' % (c['functions_analysed'], c['paths'], c['call_sites'], c['obligations'], max(1, e['wall_s']))
    except (FileNotFoundError, KeyError):
        pass
out += '\n## 6. Planted bugs, and what catches them\n\n| bug | needs | caught by |\n|---|---|---|\n'
for pid in sorted(seeds):
    for sid, d in seeds[pid]:
        out += '| `%s` (%s) | %s | %s |\n' % (sid, d['property'], d['needs'].replace('|', '\\|'), ', '.join(caught.get(sid, [])) or '?')
n = 0
k = {'bug': 0, 'same': 0}
sys.path.insert(0, os.path.join(V, 'selftest'))
for p in sorted(glob.glob(os.path.join(V, 'selftest', 'muts_*.py'))):
    for m in importlib.import_module(os.path.basename(p)[:-3]).MUTS:
        k[m[1]] = k.get(m[1], 0) + 1
out += '\nBesides these, `selftest/muts_*.py` has %d one-edit bugs (each reported by the property it is listed under) and %d edits that keep the behaviour (on which every check is quiet).\n' % (k['bug'], k['same'])
open(os.path.join(V, 'DESIGN.md'), 'w').write(out)
print(len(out.splitlines()), 'lines')
