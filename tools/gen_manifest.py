#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks present (their LEVEL, TECHNIQUE and NOTE)."""
import ast, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for line in open(os.path.join(here, 'properties.jsonl')):
    pid = json.loads(line)['id']
    path = os.path.join(here, 'mc', 'checks', pid.lower() + '.py')
    consts = {}
    if os.path.exists(path):
        for node in ast.parse(open(path).read()).body:
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) \
                    and node.targets[0].id in ('LEVEL', 'TECHNIQUE', 'NOTE'):
                consts[node.targets[0].id] = ast.literal_eval(node.value)
    if len(consts) == 3:
        checks.append({
            'property': pid,
            'quick_cmd': f'python3 mc/run.py {pid} --tier quick',
            'thorough_cmd': f'python3 mc/run.py {pid} --tier thorough',
            'technique': consts['TECHNIQUE'], 'level': consts['LEVEL'], 'level_note': consts['NOTE']})
    else:
        na.append({'property': pid, 'reason': 'The check is not built yet.'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the seam is an LD_PRELOAD library (mc/shim.c, compiled by every run) and forked real command lines. '
              'See DESIGN.md; known findings and repaired defects are in KNOWN_FINDINGS.txt.'}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not claimed')
