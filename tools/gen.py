#!/usr/bin/env python3
# Writes properties.jsonl, MANIFEST.json and harness/*/check.json from props.py.
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P

NOTE = ("Holds for all values within the stated bounds, up to the solver and the executor; every explored path is replayed natively "
        "and must agree. Numbers are integers or rationals decided exactly, so floating-point rounding, and inputs off the grid, are outside.")
props, checks, na = [], [], []
for p in P:
    anchors = dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']])
    if p['state']:
        anchors['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in p['state']]
    if p['observe']:
        anchors['observe_at'] = list(p['observe'])
    assert len(p['title']) <= 80, p['id']
    assert all(x == 'iter' or os.path.exists('/repo/' + x) for x in p['files']), (p['id'], [x for x in p['files'] if not os.path.exists('/repo/' + x)])
    anchors['files'] = [x for x in p['files'] if x != 'iter']
    props.append(dict(id=p['id'], title=p['title'], statement=p['statement'],
                      quantifier=dict(over=p['over'], text=p['quant']),
                      why_tests_cant=p['tests'], anchors=anchors))
    d = os.path.join(root, 'harness', p['id'])
    if p['na'] or not os.path.exists(os.path.join(d, 'h.go')):
        na.append(dict(property=p['id'], reason=p['na'] or 'no check built yet'))
        continue
    checks.append(dict(property=p['id'], quick_cmd='./check.sh %s quick' % p['id'],
                       thorough_cmd='./check.sh %s thorough' % p['id'],
                       technique=p['technique'], level='model_checking',
                       level_note=(p['note'] + ' ' if p['note'] else '') + NOTE))
    c = dict(title=p['title'], bounds=p['bounds'], assumptions=p['assumptions'])
    if p['main']:
        c['main'] = True
    c.update(p['extra'])
    with open(os.path.join(d, 'check.json'), 'w') as f:
        json.dump(c, f, indent=1); f.write('\n')
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for x in props:
        f.write(json.dumps(x) + '\n')
m = dict(version=1, setup_cmd='./check.sh --setup', checks=checks, not_applicable=na)
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
