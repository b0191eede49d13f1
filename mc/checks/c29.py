"""C29: commands act on the innermost enclosing workspace.

Nested directories, each plain, a workspace, or a workspace with one part
missing or of a wrong type: commands are started from every directory in them,
also through links; effects are compared with the command given the workspace."""
import itertools
import json
import os

import fw
import lib
from fw import World, diff, restore, snap

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of nestings x current directories x commands on the real command line, against the definition and the explicit -w form'
NOTE = ('Nestings up to depth 3 of 14 sorts of directory (status from 8 places in each); all other commands on nestings of 6 sorts; starts up to 64 directories below. '
        'A chain of symbolic links counts as the thing it leads to; directories without permission are not judged.')

PARTS = {'input': 'd', 'output': 'd', 'temp': 'd', '.bead-meta/bead': 'f'}
KINDS = {'plain': None, 'ws': {}}
for _p in PARTS:
    KINDS['no-' + _p] = {_p: 'none'}
    KINDS['bad-' + _p] = {_p: 'wrong'}
KINDS.update({'linked-temp': {'temp': 'link'}, 'linked-meta': {'.bead-meta/bead': 'link'}, 'dangling-output': {'output': 'dangling'}, 'no-meta-dir': {'.bead-meta': 'none'}})
VALID = {'ws', 'linked-temp', 'linked-meta'}
SOME = ('plain', 'ws', 'no-.bead-meta/bead', 'no-temp', 'bad-output', 'linked-temp')
SUBS = ('', 'sub', 'sub/deep', 'input', 'input/x', 'output/o', 'temp', '.bead-meta')
PLACES = ('sub', 'temp', 'output/o', '', 'input/x')


def dirs(tree):
    return {k for k, v in tree.items() if v[0] == 'd'}


def level_tree(template, kind, n):
    """the tree of one level"""
    if kind == 'plain':
        t = {k: v for k, v in template.items() if k.split('/')[0] in ('', 'sub', 'code.py')}
        t['input'] = t['temp'] = t['output'] = t['output/o'] = ('d', 0o755, None)
        return t
    t = dict(template)
    meta = json.loads(t['.bead-meta/bead'][2])
    meta['kind'] = f'KIND-{n}'
    t['.bead-meta/bead'] = ('f', 0o644, lib.dumps(meta))
    t['input'] = t['input/x'] = ('d', 0o755, None)      # (nothing can be removed from a read only directory)
    for part, change in KINDS[kind].items():
        old = {k: v for k, v in t.items() if k == part or k.startswith(part + '/')}
        for k in old:
            del t[k]
        if change == 'wrong':
            t[part] = ('f', 0o644, b'x') if PARTS[part] == 'd' else ('d', 0o755, None)
        elif change == 'link':
            t.update({'sub/real' + k[len(part):]: v for k, v in old.items()})
            t[part] = ('l', 0, '../sub/real' if '/' in part else 'sub/real')
        elif change == 'dangling':
            t[part] = ('l', 0, 'nowhere')
    return t


def nest(template, kinds, place):
    """(tree, [path of each level])"""
    tree = {'': ('d', 0o755, None)}
    paths = []
    top = ''
    for n, kind in enumerate(kinds, 1):
        here = os.path.join(top, f'level{n}')
        paths.append(here)
        for k, v in level_tree(template, kind, n).items():
            tree[os.path.join(here, k) if k else here] = v
        top = os.path.normpath(os.path.join(here, place))
        if tree.get(top, ('-',))[0] != 'd':
            top = here
    return tree, paths


def setup(w):
    world = World(w.fresh())
    a1 = lib.make_bead(w, 'aa', 'KA', '20200101T000000000000+0000', out={'o': b'a1'})
    a2 = lib.make_bead(w, 'aa', 'KA', '20210101T000000000000+0000', out={'o': b'a2'})
    b = lib.make_bead(w, 'bb', 'KB', '20200201T000000000000+0000', out={'o': b'b'})
    world = World(w.fresh())
    box = world.path('box')
    lib.put(box, a1, a2, b)
    world.set_boxes([('box', box)])
    ws = world.path('ws')
    for argv in (('new', ws), ('input', 'add', 'x', 'aa', '-t', '2020-06-01', '-w', ws), ('input', 'add', 'y', 'bb', '-w', ws), ('input', 'unload', 'y', '-w', ws)):
        o = w.cli(world, *argv, clock=lib.T0)
        w.check(o.ok, f'{argv} fails', 'setup', outcome=o)
    lib.write_tree(ws, {'code.py': b'code', 'sub/deep/more.py': b'more', 'output/o/data': b'out', 'temp/t': b'tmp'})
    return snap(ws), snap(box)


def innermost(kinds, paths, start):
    """the level whose workspace encloses the directory"""
    for n in range(len(kinds), 0, -1):
        p = paths[n - 1]
        if kinds[n - 1] in VALID and (start == p or start.startswith(p + '/')):
            return n
    return None


def starts(tree, paths, subs):
    have = dirs(tree)
    for s in subs:
        p = os.path.normpath(os.path.join(paths[-1], s))
        if p in have:
            yield p


def _statuses(config, jobs):
    from checks.c28 import run
    out = []
    for cwd, logical, argv in jobs:
        os.environ['PWD'] = logical
        import contextlib
        import io
        o, e = io.StringIO(), io.StringIO()
        os.chdir(cwd)
        with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
            try:
                r = fw.run_cli(config, argv)
            except SystemExit as x:
                r = x.code
            except BaseException as x:
                r = f'{type(x).__name__}: {x}'
        out.append((r, o.getvalue(), e.getvalue()))
    return out


def judge_status(w, case):
    kinds, place = case
    tree, paths = nest(w.ctx.template, kinds, place)
    root = w.fresh()
    world = World(root)
    top = world.path('top')
    restore(top, tree)
    # another workspace, with links into the nest
    other = world.path('other')
    restore(other, w.ctx.template)
    jobs, want, label = [], [], []
    for k, p in enumerate(starts(tree, paths, SUBS)):
        n = innermost(kinds, paths, p)
        d = os.path.join(top, p)
        jobs.append((d, d, ['status', '-v']))
        want.append(n)
        label.append(f'{"/".join(kinds)} in {place!r}, from {p}')
        link = os.path.join(other, f'link{k}')
        os.symlink(d, link)
        jobs.append((link, link, ['status', '-v']))
        want.append(n)
        label.append(label[-1] + ' through a link in another workspace')
    # the explicit form means exactly that directory
    for n, p in enumerate(paths, 1):
        valid = n if kinds[n - 1] in VALID else None
        d = os.path.join(top, p)
        link = world.path(f'level-link{n}')
        os.symlink(d, link)
        for argv, cwd in ((['-w', d], other), (['-w', '.'], d), (['-w', link], d)):
            jobs.append((cwd, cwd, ['status', '-v', *argv]))
            want.append(valid)
            label.append(f'{"/".join(kinds)} in {place!r}, -w {p} as {os.path.basename(argv[1])}')
    before = snap(root, modes=True)
    o = w.fork(_statuses, world.config, jobs, env=dict(world.env), cwd=world.home, clock=lib.T0)
    w.check(o.kind == 'ret', f'status ends in {o.kind}', 'died', outcome=o)
    after = snap(root)
    w.check(before == after, f'{"/".join(kinds)}: status changes {diff(before, after)}', 'changes')
    for (r, out, err), n, text in zip(o.value, want, label):
        w.count('evaluations')
        w.distinct('nontrivial', text)
        lines = [x.split(':', 1)[1].strip() for x in out.splitlines() if x.startswith(('Bead Name:', 'Bead kind:'))]
        exp = [f'level{n}', f'KIND-{n}'] if n else []
        w.check(lines == exp, f'{text}: status describes {lines} instead of {exp}', 'status', out=out, err=err, result=r)
        w.check(n or r or err, f'{text}: no complaint', 'silent')
        w.check(n is None or not r, f'{text}: status fails with {r}', 'status-fails')
    w.sample({'nest': '/'.join(kinds), 'place': place, 'starts': len(jobs)})


DEEP = (5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 32, 33, 64)


def judge_deep(w, case):
    """directories far below the workspace"""
    kinds, depths = case
    tree, paths = nest(w.ctx.template, kinds, 'sub')
    world = World(w.fresh())
    top, box = world.path('top'), world.path('box')
    restore(top, tree)
    os.mkdir(box)
    world.set_boxes([('box', box)])
    jobs = []
    for d in depths:
        here = os.path.join(top, paths[-1], 'sub', *'d' * d)
        os.makedirs(here, exist_ok=True)
        jobs.append((here, here, ['status', '-v']))
    n = innermost(kinds, paths, paths[-1])
    if n:
        jobs.append((here, here, ['input', 'unload']))
        jobs.append((here, here, ['save']))
    o = w.fork(_statuses, world.config, jobs, env=dict(world.env), cwd=world.home, clock=lib.T0)
    w.check(o.kind == 'ret', f'status ends in {o.kind}', 'died', outcome=o)
    for (r, out, err), (_, _, argv), d in zip(o.value, jobs, (*depths, depths[-1], depths[-1])):
        text = f'{"/".join(kinds)}: {argv[0]} {d} directories below'
        w.count('evaluations')
        w.distinct('nontrivial', text)
        if argv[0] == 'status':
            lines = [x.split(':', 1)[1].strip() for x in out.splitlines() if x.startswith(('Bead Name:', 'Bead kind:'))]
            w.check(lines == ([f'level{n}', f'KIND-{n}'] if n else []), f'{text} describes {lines}', 'deep', out=out, err=err)
        w.check(bool(r or err) == (n is None) or argv[0] == 'input', f'{text} {"fails" if n else "succeeds"}: {r} {err}', 'deep-result', out=out)
    have = lib.zips(box)
    w.check([z.split('_')[0] for z in have] == ([f'level{n}'] if n else []), f'{"/".join(kinds)}: saved {have}', 'deep-save')
    w.check(n is None or not os.path.exists(os.path.join(top, paths[n - 1], 'input', 'x', 'o')), f'{"/".join(kinds)}: nothing is unloaded', 'deep-unload')


COMMANDS = {
    'save': ('save',), 'save to': ('save', 'box'), 'add': ('input', 'add', 'n', 'bb'), 'delete': ('input', 'delete', 'x'), 'rm': ('input', 'rm', 'y'), 'update': ('input', 'update', 'x'),
    'update all': ('input', 'update'), 'load': ('input', 'load', 'y'), 'load all': ('input', 'load'), 'unload': ('input', 'unload', 'x'), 'unload all': ('input', 'unload'),
    'discard': ('discard',), 'nuke': ('nuke',), 'web': ('web', 'heads'), 'discard force': ('discard', '--force'),
}


def judge(w, case):
    kinds, place, command = case
    ctx = w.ctx
    tree, paths = nest(ctx.template, kinds, place)
    world = World(w.fresh())
    top, box, other = world.path('top'), world.path('box'), world.path('other')
    world.set_boxes([('box', box)])
    restore(other, ctx.template)
    argv = COMMANDS[command]

    def run(cwd, argv, env=None):
        restore(top, tree)
        restore(box, ctx.box)
        o = w.fork(fw.run_cli, world.config, list(argv), cwd=cwd, env={**world.env, 'PWD': cwd}, clock=lib.T0)
        return o, {d: snap(world.path(d)) for d in ('top', 'box', 'other')}

    def same(a, b):
        # (archives contain the times of files)
        return {k: lib.members(v[2]) if k.endswith('.zip') else v for k, v in a.items()} == {k: lib.members(v[2]) if k.endswith('.zip') else v for k, v in b.items()}

    restore(top, tree)
    restore(box, ctx.box)
    before = {d: snap(world.path(d)) for d in ('top', 'box', 'other')}
    explicit = {}
    for k, p in enumerate(starts(tree, paths, ('', 'sub/deep', 'input/x') if ctx.quick else SUBS)):
        n = innermost(kinds, paths, p)
        if n is None and (command == 'web' or 'force' in command):
            continue
        for link in ((False, True) if k == 1 or not ctx.quick else (False,)):
            w.count('evaluations')
            cwd = os.path.join(top, p)
            if link:
                cwd = os.path.join(other, f'link{k}')
                if not os.path.islink(cwd):
                    os.symlink(os.path.join(top, p), cwd)
                    before['other'] = snap(other)
            text = f'{"/".join(kinds)} in {place!r}: {command} from {p}{" through a link" if link else ""}'
            w.distinct('nontrivial', text)
            o, got = run(cwd, argv)
            if n is None:
                w.check(o.failed, f'{text} does not refuse', 'accepts', outcome=o)
                w.check(got == before, f'{text} changes {diff(before["top"], got["top"]) + diff(before["box"], got["box"]) + diff(before["other"], got["other"])}', 'changes')
                continue
            if n not in explicit:
                ws = os.path.join(top, paths[n - 1])
                explicit[n] = run(world.home, (*argv, ws) if 'discard' in argv or 'nuke' in argv else (*argv, '-w', ws) if command != 'web' else argv)
            want = explicit[n][1]
            w.check(o.ok == explicit[n][0].ok and o.kind == explicit[n][0].kind, f'{text} {"succeeds" if o.ok else "fails"}, unlike with an explicit workspace', 'result', outcome=o, explicit=explicit[n][0])
            for d in got:
                if d == 'other':
                    w.check(got[d] == before[d], f'{text} changes another workspace: {diff(before[d], got[d])}', 'other')
                w.check(d == 'other' or (same(got[d], want[d]) if d == 'box' else got[d] == want[d]), f'{text} differs from its explicit form: {diff(want[d], got[d])}', 'effect', outcome=o)
            # the effect is where it belongs
            inside = paths[n - 1]
            stray = {k for k in set(got['top']) | set(before['top']) if got['top'].get(k) != before['top'].get(k) and not (k == inside or k.startswith(inside + '/'))}
            w.check(not stray, f'{text} changes {sorted(stray)[:5]}', 'stray')
            if command in ('discard', 'nuke', 'discard force'):
                w.check(o.ok and inside not in got['top'], f'{text} leaves the workspace', 'discard', outcome=o)
            elif 'save' in command:
                new = sorted(set(got['box']) - set(before['box']))
                w.check(o.ok and len(new) == 1 and new[0].startswith(f'level{n}_'), f'{text} saves {new}', 'save', outcome=o)
            elif command != 'web':
                deeper = any(k != inside and not k.startswith(inside + '/') for k in got['top'])
                w.check(got['top'] != before['top'] and (deeper or inside == paths[0]), f'{text} changes nothing', 'nothing', outcome=o)


def main(ctx):
    ctx.level = LEVEL
    ctx.template, ctx.box = ctx.setup(setup)
    cases = []
    for depth in (1, 2, 3):
        for j, kinds in enumerate(itertools.product(KINDS, repeat=depth)):
            places = PLACES if not ctx.quick else (PLACES[j % len(PLACES)],) if depth < 3 else (PLACES[j % 3],)
            if ctx.quick and depth == 3 and (kinds[2] not in ('plain', 'ws', 'bad-input') or kinds[1] in ('linked-temp', 'no-meta-dir', 'no-input', 'bad-temp')):
                continue
            cases += [(kinds, p) for p in (places if depth > 1 else places[:1])]
    ctx.pmap(judge_status, cases, 'status')
    cases = [(kinds, DEEP[i::4]) for depth in (1, 2) for kinds in itertools.product(SOME, repeat=depth) for i in range(4)]
    ctx.pmap(judge_deep, cases, 'deep')
    cases = []
    for depth in (1, 2, 3):
        some = SOME if depth < 3 or not ctx.quick else SOME[:3]
        for kinds in itertools.product(some, repeat=depth):
            if ctx.quick and depth == 3 and kinds[-1] == 'ws':
                continue
            places = PLACES[:1] if depth == 1 else PLACES[:1] if ctx.quick else PLACES[:3] if depth == 3 else PLACES
            cases += [(kinds, p, c) for p in places for c in COMMANDS]
    ctx.pmap(judge, cases, 'commands')
    ctx.coverage['rule'] = NOTE
