"""C02: equal content id <=> equal content.

All assignments of a small content alphabet to a few file slots, all metadata
combinations; each saved in several irrelevant ways (which must agree), and all
pairs of different workspaces compared (which must differ)."""
import itertools
import json
import os
import subprocess
import sys
import zipfile

import fw
import lib

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of pairs of workspaces saved by the real code'
NOTE = ('All contents of a small slot and value alphabet are saved in every incidental variation; ids compared pairwise. '
        'Assumes SHA-512 does not collide.')

SLOTS = ['code:a', 'code:b', 'output:a', 'output:b']
VALUES = [None, b'', b'x', b'xx', b'1:x;1']
TS = '20200101T000000000000+0000'


def save_id(root, name, kind, ts, files, inputs, order, boxname='mk', mtime=None, mode=None, extra_dirs=False):
    from bead.box import Box
    from bead.workspace import Workspace
    from bead.ziparchive import ZipArchive
    os.makedirs(root, exist_ok=True)
    ws = Workspace(os.path.join(root, name))
    ws.create(kind)
    for slot, content in (sorted(files.items(), reverse=order < 0)):
        area, rel = slot.split(':', 1)
        p = os.path.join(ws.directory, rel) if area == 'code' else os.path.join(ws.directory, 'output', rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(content)
        if mode is not None:
            os.chmod(p, mode)
        if mtime is not None:
            os.utime(p, (mtime, mtime))
    if extra_dirs:
        os.makedirs(os.path.join(ws.directory, 'temp', 'tt'))
        with open(os.path.join(ws.directory, 'temp', 'tt', 'x'), 'w') as f:
            f.write(root)
    for nick, s in (sorted(inputs.items(), reverse=order < 0)):
        ws.add_input(nick, s[0], s[1], s[2])
    boxdir = os.path.join(root, 'box-' + boxname)
    os.makedirs(boxdir, exist_ok=True)
    path = Box(boxname, lib.fw_path(boxdir)).store(ws, ts)
    return ZipArchive(path).content_id, os.fspath(path)


VARIANTS = [
    dict(order=1),
    dict(order=-1, boxname='other', mtime=1_000_000_000, mode=0o600, _env={'BEAD_ZIP_COMPRESSION': 'off'}, _deep=True, extra_dirs=True),
]


def case_fn(w, case):
    name, kind, ts, files, inputs = case
    root = w.fresh()
    ids = []
    for n, v in enumerate(VARIANTS):
        v = dict(v)
        env = v.pop('_env', {'BEAD_ZIP_COMPRESSION': None})
        d = os.path.join(root, f'v{n}' + ('/x/yy/z z' if v.pop('_deep', False) else ''))
        o = w.fork(save_id, d, name, kind, ts, files, inputs, clock=lib.T0, env=env, **v)
        w.check(o.kind == 'ret', 'save fails', 'save-fails', outcome=o)
        ids.append(o.value[0])
        w.count('evaluations')
    w.check(len(set(ids)) == 1, 'the content id depends on something else than the content', 'unstable', ids=ids)
    w.distinct('nontrivial', case)
    w.sample({'files': files, 'name': name, 'kind': kind, 'ts': ts, 'inputs': inputs, 'id': ids[0][:16]})
    return ids[0]


# ------------------------------------------------------- irrelevant differences
RICH = {'code:a': b'A', 'code:b/c': b'BC', 'code:z': b'', 'output:a': b'A', 'output:q/r': b'R'}
RICH_IN = {'n1': ('k1', 'c1', TS), 'n2': ('k2', 'c2', TS), 'n0': ('k0', 'c0', TS)}


def rich_case(w, case):
    what, arg = case
    root = w.fresh()
    o = w.fork(save_id, os.path.join(root, 'base'), 'rich', 'k', TS, RICH, RICH_IN, 1, clock=lib.T0)
    w.check(o.kind == 'ret', 'save fails', 'save-fails', outcome=o)
    base, path = o.value
    w.count('evaluations')
    w.distinct('nontrivial', case)
    if what == 'var':
        kw = dict(arg)
        env = kw.pop('env', None)
        tz = kw.pop('tz', None)
        umask = kw.pop('umask', None)

        def run():
            if umask is not None:
                os.umask(umask)
            return save_id(os.path.join(root, 'other'), 'rich', 'k', TS, RICH, RICH_IN, **kw)
        o = w.fork(run, clock=kw.pop('clock', lib.T0 + lib.NS * 86400 * 300), env=env, tz=tz)
        w.check(o.kind == 'ret', 'save fails', 'save-fails', outcome=o)
        w.check(o.value[0] == base, f'the content id depends on {arg}', 'unstable-rich', a=base, b=o.value[0])
    elif what == 'hashseed':
        script = os.path.join(root, 's.py')
        with open(script, 'w') as f:
            f.write('import sys; sys.path[:0] = %r\n'
                    'from checks import c02\n'
                    'print(c02.save_id(%r, "rich", "k", c02.TS, c02.RICH, c02.RICH_IN, 1)[0])\n'
                    % ([os.path.dirname(os.path.dirname(os.path.abspath(__file__))), fw.REPO], os.path.join(root, 'hs')))
        env = dict(os.environ, PYTHONHASHSEED=str(arg))
        r = subprocess.run([sys.executable, '-s', script], env=env, capture_output=True, text=True, timeout=60)
        w.check(r.returncode == 0, 'save fails in a fresh process', 'save-fails', err=r.stderr[-800:])
        w.check(r.stdout.strip() == base, 'the content id depends on the process', 'hashseed', a=base, b=r.stdout)
    elif what == 'repack':
        order, comp, fname = arg
        with open(path, 'rb') as f:
            mems = lib.members(f.read())
        data = lib.pack([mems[i] for i in order], comp, comment=b'other', date=(1999, 5, 5, 1, 1, 2))
        p = os.path.join(root, fname)
        with open(p, 'wb') as f:
            f.write(data)
        o = w.fork(read_id, p)
        w.check(o.kind == 'ret' and o.value == base, 'the content id changes by repacking the members', 'repack',
                base=base, outcome=o)


def read_id(p):
    from bead.ziparchive import ZipArchive
    a = ZipArchive(lib.fw_path(p))
    a.validate()
    return a.content_id


def big():
    """large files that differ in one byte, or in length"""
    size = (17 << 20) + 3
    b = b'a' * size
    out = [b, b + b'a', b[:-1], b[:16 << 20]]
    for at in (0, (1 << 20), (2 << 20), (4 << 20), (8 << 20) - 1, 8 << 20, 10_000_000, (16 << 20) - 1, 16 << 20, size - 1):
        out.append(b[:at] + b'b' + b[at + 1:])
    return out


def main(ctx):
    cases = []
    nslots = 4
    for values in itertools.product(VALUES, repeat=nslots):
        files = {s: v for s, v in zip([SLOTS[0], SLOTS[2], SLOTS[1], SLOTS[3]], values) if v is not None}
        cases.append(('nm', 'k', TS, files, {}))
    f1 = {'code:a': b'x'}
    specs = [('k1', 'c1', TS), ('k2', 'c1', TS), ('k1', 'c2', TS), ('k1', 'c1', '20200101T000000000001+0000')]
    inputs = [{}] + [{n: s} for n in ('n1', 'n2') for s in specs] + [{'n1': s, 'n2': t} for s in specs for t in specs]
    for i in inputs:
        for name, kind, ts in itertools.product(
                ('nm', 'nm2'), ('k', 'kk'), ('20200101T000000000000+0100', '20200101T000000000001+0000')):
            if ctx.quick and (name, kind) == ('nm2', 'kk'):
                continue
            cases.append((name, kind, ts, f1, i))
    # near misses: the same bytes distributed otherwise, the same file under another name or in the other area
    for files in (
            {'code:ab': b'c'}, {'code:a': b'bc'}, {'code:a/b': b'c'}, {'code:a': b'', 'code:b': b'c'}, {'output:ab': b'c'},
            {'code:a': b'1', 'output:a': b'2'}, {'code:a': b'2', 'output:a': b'1'}, {'code:a': b'1', 'code:b': b'2'},
            {'code:a': b'2', 'code:b': b'1'}, {'code:A': b'1'}, {'code:a': b'1'}, {'code:a ': b'1'}, {'code: a': b'1'},
            {'code:\u00e9': b'1'}, {'code:e\u0301': b'1'}, {'code:data/a': b'1'}, {'output:data/a': b'1'}, {'code:code/a': b'1'},
            {'code:a': b'\n'}, {'code:a': b'\r\n'}, {'code:a': b'\r'}, {'code:a': b'\0'}, {'code:a': b'\0\0'}, {'code:a': b'"'},
            {'code:a': b'a' * 65536}, {'code:a': b'a' * 65537}, {'code:a': b'a' * (1 << 20)},
            {'code:a': b'a' * ((1 << 20) + 1)}, {'code:a': b'a' * (1 << 20) + b'b'}, {'code:a': b'b' + b'a' * (1 << 20)},
            {'output:\\a': b'1'}, {'output:%5Ca': b'1'}, *({'code:a': b} for b in big())):
        cases.append(('nm', 'near', TS, files, {}))
    # similar texts, in one field at a time
    for text in ('nm', 'NM', 'Nm', 'nm ', ' nm', 'n m', 'n.m', 'nm.', '.nm', 'n-m', 'n_m', 'nm0', 'nm1', 'nm01', 'nm.zip', 'n\u00e9', 'ne\u0301', 'n\u0435',
                 '1', '01', '1.0', '1e0', '0', 'null', 'true', '"nm"', "n'm", 'n,m', 'n:m', 'n\\m', '\u00e9', '\\u00e9', 'nm' * 30, 'nm' * 30 + '0'):
        cases += [(text, 'k', TS, f1, {}), ('nm', 'kind' + text, TS, f1, {}), ('nm', 'k', TS, f1, {text: specs[0]}),
                  ('nm', 'k', TS, f1, {'n1': ('kind' + text, 'c1', TS)}), ('nm', 'k', TS, f1, {'n1': ('k1', 'c' + text, TS)}),
                  ('nm', 'similar', TS, {'code:' + text: b'1'}, {}), ('nm', 'similar', TS, {'output:' + text: b'1'}, {}),
                  ('nm', 'similar', TS, {'code:d/' + text: b'1'}, {}), ('nm', 'similar', TS, {'code:c': text.encode()}, {})]
    seen = {}
    uniq = []
    for c in cases:
        k = repr((c[:3], sorted(c[3].items()), sorted(c[4].items())))
        if k not in seen:
            seen[k] = 1
            uniq.append(c)
    ids = ctx.pmap(case_fn, uniq, 'save')
    by_id = {}
    for c, i in zip(uniq, ids):
        if i is None:
            continue
        if i in by_id:
            ctx.violations.append((0, 'save', 0, 'collision', f'two different workspaces have the same content id: {c!r} and {by_id[i]!r}'[:1500],
                                   {'a': c, 'b': by_id[i]}, ''))
        by_id[i] = c
    ctx.coverage['pairs_compared'] = len(uniq) * (len(uniq) - 1) // 2
    rich = []
    for kw in (dict(order=-1), dict(order=1, mtime=0), dict(order=1, mtime=5_000_000_000), dict(order=1, mode=0o400),
               dict(order=1, mode=0o755), dict(order=1, boxname='b 2'), dict(order=1, extra_dirs=True),
               dict(order=1, umask=0o077), dict(order=1, umask=0), dict(order=1, tz='Asia/Tokyo'),
               dict(order=1, tz='America/New_York'), dict(order=1, env={'LC_ALL': 'C'}), dict(order=1, env={'USER': 'x', 'HOME': '/nonexistent'})):
        rich.append(('var', kw))
    for c in ('off', 'stored', 'deflated', 'bogus', '', None):
        rich.append(('var', dict(order=1, env={'BEAD_ZIP_COMPRESSION': c})))
    for s in range(1, 5 if ctx.quick else 20):
        rich.append(('hashseed', s))
    n = len(RICH) + 2
    perms = list(itertools.permutations(range(n)))
    if ctx.quick:   # permutations moving at most three members, and all rotations
        perms = [p for p in perms if sum(i != j for i, j in enumerate(p)) <= 3 or all((p[i] + 1) % n == p[(i + 1) % n] for i in range(n))]
    rng = perms
    for k, p in enumerate(rng):
        rich.append(('repack', (p, (zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED)[k % 2],
                                ('rich.zip', 'rich_20200101.zip', 'rich_20200101T000000000000+0000.zip')[k % 3])))
    ctx.pmap(rich_case, rich, 'irrelevant')
    ctx.coverage['rule'] = (
        f'all assignments of {len(VALUES)} contents to {nslots} file slots, all combinations of name, kind, freeze time and '
        f'{len(inputs)} input tables, near misses; each saved twice in irrelevantly different ways; all pairs of ids compared; '
        'irrelevant variations and member permutations of one rich bead')
    ctx.coverage['exhaustive'] = True
    ctx.assumptions = ['SHA-512 has no collisions on the explored contents']
