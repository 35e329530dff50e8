#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from meta/*.json-like python
descriptions (meta/props.py) and writes titles and bounds into harness/*/prop.json.
Run by hand after editing meta/props.py; no check runs it."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, 'meta'))
import props
out = open(os.path.join(here, 'properties.jsonl'), 'w')
checks, na = [], []
for p in props.PROPS:
    assert len(p['title']) <= 80, p['id']
    rec = {k: p[k] for k in ('id', 'title', 'statement')}
    rec['quantifier'] = {'over': p['over'], 'text': p['forall']}
    rec['why_tests_cant'] = p['why']
    rec['anchors'] = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
    out.write(json.dumps(rec) + '\n')
    if 'na' in p:
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    f = os.path.join(here, 'harness', p['id'], 'prop.json')
    if not os.path.exists(f):
        print('no harness', p['id']); na.append({'property': p['id'], 'reason': 'check not built yet'}); continue
    raw = json.load(open(f))
    raw['title'] = p['title']
    names = {h['name'] for h in raw['harnesses']}
    assert names == set(p['bounds']), (p['id'], names, set(p['bounds']))
    for h in raw['harnesses']:
        h['bounds'] = p['bounds'][h['name']]
    hs = raw.pop('harnesses')
    s = json.dumps(raw)[:-1] + ',"harnesses":[\n' + ',\n'.join(json.dumps(h) for h in hs) + ']}\n'
    json.loads(s)
    open(f, 'w').write(s)
    checks.append({'property': p['id'], 'quick_cmd': './check.sh ' + p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + p['id'],
        'technique': 'symbolic execution of the Go SSA of /repo, SMT (z3) verdict per assertion, native replay',
        'level': 'model_checking', 'level_note': p.get('note', '') or props.NOTE})
out.close()
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: harnesses are overlaid. See DESIGN.md.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

# ---- the per-property part of DESIGN.md ----
import how, glob
design = os.path.join(here, 'DESIGN.md')
d = open(design).read()
MARK = '<!-- generated by gen.py from here on -->\n'
d = d[:d.index(MARK)] if MARK in d else d.rstrip() + '\n\n'
bugs = {}
for f in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    b = json.load(open(f))
    bugs.setdefault(b['property'], []).append((os.path.basename(os.path.dirname(f)), b))
caught = json.load(open(os.path.join(here, 'meta', 'caught.json')))
o = [MARK, '## Properties and how each is decided\n']
for p in sorted(props.PROPS, key=lambda p: p['id']):
    o.append('### %s. %s\n' % (p['id'], p['title']))
    o.append(p['statement'] + '\n')
    o.append('*Decided by* symbolic execution and z3 over the code in %s. %s Beyond tests: %s\n' % (', '.join('`%s`' % f for f in p['files']), how.HOW[p['id']], p['why']))
    for n, b in p['bounds'].items():
        o.append('* `%s`: %s' % (n, b))
    if p.get('note'):
        o.append('\n' + p['note'])
    o.append('')
o.append('## Planted bugs and what catches them\n')
o.append('| bug | property | needs | caught by its check |\n|---|---|---|---|')
for pid in sorted(bugs):
    for n, b in bugs[pid]:
        o.append('| %s | %s | %s | %s |' % (n, pid, b['needs'].replace('|', '/'), caught.get(n, 'not tried')))
open(design, 'w').write(d + '\n'.join(o) + '\n')
