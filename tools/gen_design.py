#!/usr/bin/env python3
"""Write DESIGN.md from its parts, the checks and the planted bugs."""
import ast
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, 'tools', 'design')
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
more = {}
exec(open(os.path.join(D, 'more.py')).read(), more)
MORE = more['MORE']


def consts(id):
    tree = ast.parse(open(os.path.join(V, 'mc', 'checks', id.lower() + '.py')).read())
    c = {'doc': ast.get_docstring(tree)}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('LEVEL', 'TECHNIQUE', 'NOTE'):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    return c


out = [open(os.path.join(D, 'head.md')).read(), '## 3. The properties and how they are decided\n']
for p in props:
    c = consts(p['id'])
    oracle, why, cost = MORE[p['id']]
    doc = ' '.join(c['doc'].split())
    out.append(f"### {p['id']} {p['title']}\n\n*Explored* ({c['LEVEL']}): {doc}\n\n*Oracle*: {oracle}\n\n*Bounds*: {c['NOTE']}\n\n"
               f"*Beyond the tests*: {why}\n\n*Cost*: {cost}\n")
known = [x.split(' ', 1)[1] for x in open(os.path.join(V, 'KNOWN_FINDINGS.txt')) if x.startswith('fixed:')]
out.append('## 4. Defects found and repaired\n\nEvery one was found by the check of the property (or while building it), shown on the real code, '
           'and repaired by a `fix:` commit. Nothing is left as an open finding.\n\n| property | commit | what failed |\n|---|---|---|\n'
           + ''.join('| {} | {} | {} |\n'.format(*re.match(r'property=(\S+) (\S+) (.*)', k).groups()) for k in known))
res = {}
rf = os.path.join(V, 'tools', 'seed_results.json')
if os.path.exists(rf):
    res = json.load(open(rf))
rows = ''
for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
    rows += f"| {s} | {m['property']} | {m['needs']} | {res.get(s, '?')} |\n"
out.append(open(os.path.join(D, 'seeds.md')).read() + '\n| planted bug | property | needs | quick check |\n|---|---|---|---|\n' + rows)
out.append(open(os.path.join(D, 'tail.md')).read())
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
