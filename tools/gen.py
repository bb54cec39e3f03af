#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from tools/catalog.py and the
harnesses present in props/."""
import ast
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from catalog import P  # noqa: E402

TECH = 'bounded symbolic execution of the real Python source; z3 decides every assertion'


def harness_info(path):
    t = ast.parse(open(path).read())
    d = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', None) in ('BOUNDS', 'TECHNIQUE'):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    return d


checks, na, props = [], [], []
for p in P:
    assert len(p['title']) <= 80, p['id']
    props.append({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['text']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'],
                    'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                    'state': p['state'], 'observe_at': p['observe'], 'hook_needed': ''},
    })
    f = os.path.join(ROOT, 'props', p['id'] + '.py')
    if p['na']:
        na.append({'property': p['id'], 'reason': p['na']})
    elif not os.path.exists(f):
        na.append({'property': p['id'], 'reason': 'no check built yet'})
    else:
        i = harness_info(f)
        cmd = '/opt/venv/bin/python /verif/check.py %s' % p['id']
        checks.append({
            'property': p['id'],
            'quick_cmd': cmd + ' --tier quick',
            'thorough_cmd': cmd + ' --tier thorough',
            'technique': i.get('TECHNIQUE', TECH),
            'level': 'other',
            'level_note': 'For all values within the stated bounds, not beyond. ' + i['BOUNDS'],
        })

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1,
               'setup_cmd': '/opt/venv/bin/python /verif/check.py --help',
               'checks': checks, 'not_applicable': na}, f, indent=1)
    f.write('\n')
print('%d properties, %d checks, %d not applicable' % (len(props), len(checks), len(na)))
