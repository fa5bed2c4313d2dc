#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and props/specs.py."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from tools.texts import TEXTS, NOT_APPLICABLE      # noqa
from props.specs import SPECS                      # noqa

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for t in TEXTS:
        f.write(json.dumps({
            'id': t['id'], 'title': t['title'], 'statement': t['statement'],
            'quantifier': {'over': t['over'], 'text': t['forall']}, 'why_tests_cant': t['why'],
            'anchors': {'files': t['files'], 'mechanism': [{'name': n, 'where': w} for n, w in t['mech']]}}) + '\n')

checks = []
for t in TEXTS:
    if t['id'] not in SPECS:
        assert t['id'] in NOT_APPLICABLE, t['id']
        continue
    s = SPECS[t['id']]
    note = ('Bounded: %s. Every path within the bounds is explored by the solver when the evidence says complete; '
            'counterexamples and path samples are re-run on the unmodified code. Trusts the symbolic interpreter in '
            'pysym and z3.' % s['bounds'])
    if s['assumptions']:
        note += ' Assumes: ' + '; '.join(s['assumptions']) + '.'
    checks.append({
        'property': t['id'], 'quick_cmd': 'python3-vt run.py %s' % t['id'],
        'thorough_cmd': 'python3-vt run.py %s --tier thorough' % t['id'],
        'technique': 'symbolic execution of the Python source, assertions decided by z3, replay on the real code',
        'level': 'model_checking', 'level_note': note})
assert set(SPECS) <= set(t['id'] for t in TEXTS), set(SPECS) - set(t['id'] for t in TEXTS)
man = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3; print(z3.get_version_string())"', 'checks': checks,
       'not_applicable': [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()],
       'notes': 'Checks import /repo at run time; nothing is built or cached. No hooks in /repo.'}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
import jsonschema                                   # noqa
jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for line in open(os.path.join(VERIF, 'properties.jsonl')):
    p = json.loads(line)
    jsonschema.validate(p, sch)
    n = p['statement'].count('. ') + 1
    assert n <= 3, (p['id'], n)
rows = ['## Per property\n']
for t in TEXTS:
    rows.append('### %s %s\n' % (t['id'], t['title']))
    rows.append(t['statement'] + '\n')
    if t['id'] not in SPECS:
        rows.append('Not applicable: %s\n' % NOT_APPLICABLE[t['id']])
        continue
    s = SPECS[t['id']]
    q = [k for k in s['tasks'] if k.get('tier') != 'thorough']
    h = sorted(set('props/%s.py: %s' % (k['module'], k['func']) for k in s['tasks']))
    rows.append('* Code executed symbolically: %s' % '; '.join(w for _, w in t['mech']))
    rows.append('* Harness (the oracle is in it): %s; %d tasks quick, %d thorough' % (
        ', '.join(h), len(q), len([k for k in s['tasks'] if k.get('tier') != 'quick'])))
    rows.append('* Symbolic: %s' % t['forall'])
    rows.append('* Bounds: %s' % s['bounds'])
    for a_ in s['assumptions']:
        rows.append('* Assumes: %s' % a_)
    rows.append('* Why tests cannot: %s\n' % t['why'])
seeded = os.path.join(VERIF, 'seeded')
rows.append('## Planted bugs\n')
rows.append('Kept in seeded/; the check of the named property was run against each (tools/hunt.py; results in '
            'tools/hunt.json).\n')
res = {}
if os.path.exists(os.path.join(VERIF, 'tools', 'hunt.json')):
    res = json.load(open(os.path.join(VERIF, 'tools', 'hunt.json')))
rows.append('| bug | property | breaks | caught |')
rows.append('|---|---|---|---|')
for i in sorted(os.listdir(seeded)):
    m = json.load(open(os.path.join(seeded, i, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], res.get(i, '?')))
with open(os.path.join(VERIF, 'DESIGN.md'), 'w') as f:
    f.write(open(os.path.join(VERIF, 'tools', 'design_head.md')).read() +
            open(os.path.join(VERIF, 'tools', 'design_notes.md')).read() + '\n'.join(rows) + '\n')
print(len(checks), 'checks')
