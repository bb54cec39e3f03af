#!/opt/venv/bin/python
"""Writes DESIGN.md from the prose below, tools/catalog.py, props/*.py, seeded/
and the evidence of the last runs (only labels and wall times)."""
import ast
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from catalog import P  # noqa: E402
from design_text import HEAD, TAIL, ORACLE, MISSED  # noqa: E402


def consts(path):
    d = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '').isupper():
            try:
                d[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return d


def evidence(pid):
    try:
        return json.load(open(os.path.join(ROOT, 'evidence', pid + '.json')))
    except (OSError, ValueError):
        return None


out = [HEAD.strip(), '', '## 5. Property by property', '']
for p in P:
    i = p['id']
    if p['na']:
        continue
    f = os.path.join(ROOT, 'props', i + '.py')
    c, e = consts(f), evidence(i)
    out += ['### %s %s' % (i, p['title']), '',
            '*Claim.* ' + p['statement'], '',
            '*Oracle and method.* ' + ORACLE[i], '',
            '*Bounds.* ' + c['BOUNDS'], '']
    if c.get('ASSUMPTIONS'):
        out += ['*Assumed.* ' + '; '.join(c['ASSUMPTIONS']) + '.', '']
    cost = ''
    if e:
        cov = e['coverage']
        cost = ' Last %s run: %.0f s wall, %s paths, %s assertions, %s solver queries.' % (
            e.get('tier'), e['wall_s'], cov['paths'], cov['assertions_checked'], cov['solver_queries'])
    out += ['*Beyond the tests.* ' + p['why'] + '.' + cost, '']
out += ['### Not applicable', '']
for p in P:
    if p['na']:
        out += ['* %s %s: %s.' % (p['id'], p['title'], p['na'])]
out += ['', '## 6. Defects found in the repository', '',
        'Each was shown on the real code first, is repaired by one `fix:` commit and is listed in '
        '`known_findings.jsonl` as fixed; there is no unrepaired finding. The check of the property '
        'reports the violation again when the commit is reverted.', '',
        '| property | commit | what failed |', '|---|---|---|']
for l in open(os.path.join(ROOT, 'known_findings.jsonl')):
    if l.startswith('fixed: property='):
        pid, commit, what = l[len('fixed: property='):].rstrip().split(' ', 2)
        out.append('| %s | %s | %s |' % (pid, commit, what))
out += ['', '## 7. Planted changes and what catches them', '',
        'Every change of `seeded/` is caught (exit 1) by the quick check of its property.'
        ' "First missed" names those for which the check had to be strengthened.', '',
        '| change | check | manifests with | breaks | first missed |', '|---|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    out.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['needs'], m['what_it_breaks'], MISSED.get(i, '')))
out += ['', TAIL.strip(), '']
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))
print(len(out), 'lines')
