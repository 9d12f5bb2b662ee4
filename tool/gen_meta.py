#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (properties below, methods in checks/registry.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'checks'), os.path.join(V, 'tool')]
sys.dont_write_bytecode = True
import registry
from props import PROPS, NA

props, na = [], []
for p in PROPS + NA:
    d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['for_all']), why_tests_cant=p['tests'],
             anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
    if p.get('observe'):
        d['anchors']['observe_at'] = p['observe']
    assert len(d['title']) <= 80, d['title']
    props.append(d)
with open(f'{V}/properties.jsonl', 'w') as f:
    for d in sorted(props, key=lambda d: d['id']):
        f.write(json.dumps(d) + '\n')
checks = []
for p in PROPS:
    m = registry.CHECKS.get(p['id'])
    if not m:
        na.append(dict(property=p['id'], reason='check under construction'))
        continue
    c = dict(property=p['id'], quick_cmd=f"python3 check.py {p['id']} quick", thorough_cmd=f"python3 check.py {p['id']} thorough", technique=m['technique'], level=m['level'],
             level_note=p['note'])
    checks.append(c)
for p in NA:
    na.append(dict(property=p['id'], reason=p['reason']))
with open(f'{V}/MANIFEST.json', 'w') as f:
    json.dump(dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na,
                   notes='No hooks: every check reads /repo source only. Properties and methods: tool/props.py and checks/registry.py, regenerated with tool/gen_meta.py.'), f, indent=1)
    f.write('\n')
print(len(props), 'properties,', len(checks), 'checks,', len(na), 'not applicable')
