#!/usr/bin/env python3
"""
Make or re-test planted bugs in /verif/seeded.

  mkseed.py make SPEC.py ROBOT.py [id..]   write seeded/<id>/ from a spec file
  mkseed.py test [id..]                    demo / build / tests / check of each, in scratch copies
  mkseed.py demo [id..]                    the same without the check

SPEC.py defines SEEDS, a list of (id, property, [(file, old, new)..], needs, breaks, demo source).
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
PY = '/opt/venv/bin/python'
PYTEST = [
    'setpriv', '--inh-caps=-dac_override', '--bounding-set=-dac_override',
    PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=300']


def sh(cmd, cwd, timeout=1000, env=None):
    try:
        p = subprocess.run(
            cmd, cwd=cwd, capture_output=True, text=True, errors='replace', timeout=timeout,
            env={**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', **(env or {})})
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def make(spec_file, robot, only):
    ns = {}
    exec(open(spec_file).read(), ns)
    for id, prop, edits, needs, breaks, demo in ns['SEEDS']:
        if only and id not in only:
            continue
        wt = f'/tmp/mkseed-{id}'
        shutil.rmtree(wt, ignore_errors=True)
        subprocess.check_call(['git', 'clone', '-q', '--shared', '/repo', wt])
        bad = False
        for file, old, new in edits:
            p = os.path.join(wt, file)
            text = open(p).read()
            if text.count(old) != 1:
                print(id, 'EDIT DOES NOT APPLY', file, text.count(old), repr(old))
                bad = True
                continue
            open(p, 'w').write(text.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=wt, text=True)
        # lines changed must be original ones
        shutil.rmtree(wt)
        if bad:
            continue
        d = os.path.join(SEEDED, id)
        os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'w').write(diff)
        open(f'{d}/demo.sh', 'w').write(
            '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
            'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(f'{d}/demo.sh', 0o755)
        open(f'{d}/demo.py', 'w').write(
            'import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n'
            'from robot import *\n' + demo.lstrip('\n'))
        shutil.copy(robot, f'{d}/robot.py')
        json.dump(
            {'property': prop, 'needs': needs, 'what_it_breaks': breaks},
            open(f'{d}/meta.json', 'w'), indent=1)
        print('made', id)


def test(id, with_check=True, workers='4'):
    d = os.path.join(SEEDED, id)
    meta = json.load(open(f'{d}/meta.json'))
    wt = f'/tmp/mkseed-{id}'
    out = f'/tmp/mkseed-{id}-out'
    for x in (wt, out):
        shutil.rmtree(x, ignore_errors=True)
    result = [id, meta['property']]
    try:
        subprocess.check_call(['git', 'clone', '-q', '--shared', '/repo', wt])
        rc, text = sh(['bash', f'{d}/demo.sh'], wt, 300)
        if rc != 0:
            result.append(f'DEMO FAILS UNPATCHED {text[-600:]}')
        rc, text = sh(['git', 'apply', f'{d}/patch.diff'], wt)
        if rc != 0:
            return result + [f'PATCH FAILS {text}']
        rc, text = sh(PYTEST, wt)
        if rc != 0 or '154 passed' not in text:
            result.append(f'TESTS FAIL {text[-400:]}')
        rc, text = sh(['bash', f'{d}/demo.sh'], wt, 300)
        if rc == 0:
            result.append('DEMO PASSES PATCHED')
        else:
            result.append('demo ok: ' + text.strip().splitlines()[-1][:150] if text.strip() else 'demo ok')
        if with_check:
            start = time.time()
            rc, text = sh(
                ['bash', '-c', f'ulimit -v 8000000; exec python3 {VERIF}/mc/run.py {meta["property"]}'], VERIF, 900,
                {'MC_REPO': wt, 'MC_OUT': out, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick', 'MC_WORKERS': workers})
            v = [l for l in text.splitlines() if l.startswith('VIOLATION')]
            ok = rc == 1 and any(f'property={meta["property"]} ' in l for l in v)
            result.append(f'{"CAUGHT" if ok else "MISSED rc=%s" % rc} {time.time() - start:.0f}s {text.strip()[-250:] if not ok else ""}')
    finally:
        for x in (wt, out):
            subprocess.call(['chmod', '-R', 'u+rwX', x], stderr=subprocess.DEVNULL)
            shutil.rmtree(x, ignore_errors=True)
    return result


def record(result):
    file = os.path.join(VERIF, 'tools', 'seed_results.json')
    known = json.load(open(file)) if os.path.exists(file) else {}
    known[result[0]] = 'caught' if 'CAUGHT' in ' '.join(result) else 'missed'
    known = {k: v for k, v in known.items() if os.path.isdir(os.path.join(SEEDED, k))}
    with open(file, 'w') as f:
        json.dump(known, f, indent=1, sort_keys=True)
        f.write('\n')


def main():
    cmd, *args = sys.argv[1:]
    if cmd == 'make':
        return make(args[0], args[1], args[2:])
    ids = args or sorted(os.listdir(SEEDED))
    with concurrent.futures.ThreadPoolExecutor(3) as pool:
        for r in pool.map(lambda i: test(i, cmd == 'test'), ids):
            if cmd == 'test':
                record(r)
            print(' | '.join(r), flush=True)


main()
