"""C04: unpacking stays inside its target directory.

Forged (otherwise consistent) archives with every member name of an alphabet of
escaping and colliding names in the code or data area, every input name of such
an alphabet, and pairs; every unpacking command is run on each and everything
around the workspace is compared. Runs unprivileged in scratch directories."""
import itertools
import os

from fw import World, snap, diff
import lib

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of archive member and input names, each unpacked by the real commands'
NOTE = ('All member names built from an alphabet of escapes up to a depth, all input names, and pairs of members; names outside the '
        'alphabet are represented by their shape. Run as an unprivileged user below a scratch directory.')

TS = '20200101T000000000000+0000'


def member_names(root):
    names = ['../' * k + t for k in range(1, 8) for t in ('v', 'new', 'vdir/v', 'vdir/new')]
    names += ['a/' + '../' * k + t for k in range(1, 6) for t in ('v', 'new')]
    names += ['..', '.', '', '/', '//', 'a/..', 'a/.', './v', 'a/./v', 'a//b', 'a/../b', '../code', '../code/x', '../x/v', '../other/o1',
              '../other', '../../code.py', '../../output/out', '../../temp/t', '../../.bead-meta/bead', '../../../ws2/code.py',
              '../../../box/' + 'keep.txt', '..\\v', '\\v', 'C:\\v', 'C:/v', '~/v', '$HOME/v', '.. /v', '../\u2024./v',
              root + '/v', '/' + root + '/v', root + '/new', '/../' + root + '/v', 'a' + '/..' * 9 + root + '/v',
              'input', 'output', 'temp', '.bead-meta', 'input/x', 'output/x', 'temp/x', '.bead-meta/bead', '.bead-meta/x', './input/x',
              'a/../input/x', 'a/../.bead-meta/bead', 'Input/x', 'x\0/../v', '-rf', '*', 'a\n/../../v']
    return list(dict.fromkeys(names))


def raw_names(root):
    """complete member names close to the archive's layout"""
    tails = ['v', 'vdir/v', 'new', 'x/v']
    names = [p + u * k + t for p in ('code', 'data', 'codex/', 'datax/', 'code.', 'data.', 'xcode/', 'meta/', 'meta', 'x/code/', 'Code/', 'code\\', './code/', '')
             for u in ('../',) for k in (1, 2, 3, 4, 6) for t in tails[:2]]
    names += [p + '/..' + '/..' * k + '/' + t for p in ('code', 'data', 'meta', 'code//', 'data/.') for k in range(4) for t in tails]
    names += [p + root + t for p in ('code', 'data', 'code/', 'data/', 'code//', 'data//', '', 'meta', '/') for t in ('/v', '/new')]
    return list(dict.fromkeys(names))


def input_names(root):
    names = ['..', '.', '', '/', '../..', '../../..', '../output', '../temp', '../code.py', '../../ws2', '../../vdir', '../../../vdir',
             root + '/vdir', '//' + root + '/vdir', 'a/../../output', './ok', 'ok/', 'ok/.', 'ok/sub', '../input/ok', 'a__b', '__loading__',
             '../.bead-meta', '..\\output', '-f', '~', '*', '.hidden', '. ', '.. ', '\n', 'ok\0x']
    return list(dict.fromkeys(names))


TEMPORARY = 'input/__*'


def world_with_victims(w):
    root = w.fresh()
    world = World(root)
    deep = world.path('d1', 'd2', 'd3')
    os.makedirs(deep)
    d = deep
    while True:
        with open(os.path.join(d, 'v'), 'w') as f:
            f.write('victim ' + d)
        os.mkdir(os.path.join(d, 'vdir'))
        with open(os.path.join(d, 'vdir', 'v'), 'w') as f:
            f.write('victim dir ' + d)
        if d == root:
            break
        d = os.path.dirname(d)
    box = os.path.join(deep, 'box')
    os.mkdir(box)
    with open(os.path.join(box, 'keep.txt'), 'w') as f:
        f.write('keep')
    world.set_boxes([('box', box)])
    world.box = box
    world.deep = deep
    return root, world


def new_ws(w, world, name, other=None):
    ws = os.path.join(world.deep, name)
    w.check(w.cli(world, 'new', ws, clock=lib.T0).ok, 'new fails', 'new')
    lib.write_tree(ws, {'code.py': b'own code', 'output/out': b'own output', 'temp/t': b'own temp', 'sub/own': b'x'})
    if other:
        o = w.cli(world, 'input', 'add', 'other', other, '-w', ws, clock=lib.T0)
        w.check(o.ok, 'input add fails', 'add', outcome=o)
    return ws


def outside(root, ws):
    """everything but the workspace"""
    t = snap(root)
    rel = os.path.relpath(ws, root)
    return {k: v for k, v in t.items() if k != rel and not k.startswith(rel + '/')}


def inside(ws, but):
    # (names with __ are never those of inputs: working space)
    t = {k: v for k, v in snap(ws).items() if TEMPORARY not in but or not (k.startswith('input/') and '__' in k.split('/')[1])}
    return {k: v for k, v in t.items() if k and not any(k == b or k.startswith(b + '/') for b in but)}


def guarded(w, root, ws, but, label, world, *argv, before=None, cwd=None):
    """run a command that may only change `but` of the workspace"""
    out0 = outside(root, ws)
    in0 = inside(ws, but) if os.path.isdir(ws) and argv[0] != 'discard' else None
    o = w.cli(world, *argv, clock=lib.T0, cwd=cwd)
    w.count('evaluations')
    w.check(o.kind in ('ret', 'exit', 'exc'), f'{argv} ends in {o.kind}', 'died', outcome=o)
    out1 = outside(root, ws)
    w.check(out0 == out1, f'{label}: {" ".join(argv[:2])} changed files outside of the workspace', f'outside:{argv[0]}:{argv[1] if argv[0] == "input" else ""}',
            diff=diff(out0, out1), argv=argv, outcome=o)
    if in0 is not None:
        in1 = inside(ws, but)
        w.check(in0 == in1, f'{label}: {" ".join(argv[:2])} changed unrelated parts of the workspace', f'inside:{argv[1]}',
                diff=diff(in0, in1), argv=argv, outcome=o)
    return o


def forged(ctx, mems=(), data=(), inputs=None, raw=()):
    info = ctx.base
    extra = [('code/' + n, b'evil code') for n in mems] + [('data/' + n, b'evil data') for n in data] + [(n, b'evil raw') for n in raw]
    meta = {} if inputs is None else {'inputs': {n: dict(kind=ctx.other.kind, content_id=ctx.other.cid, freeze_time=ctx.other.ts)
                                                  for n in inputs}}
    return lib.forge(info, meta=meta, members_first=extra)


def edit_checks(w, root, world, ref, label, review):
    ws = os.path.join(world.deep, 'edited')
    argv = ('edit',) + (('--review',) if review else ()) + (ref, ws)
    o = guarded(w, root, ws, (), label, world, *argv)
    if o.ok:
        t = snap(ws)
        bad = [k for k in t if k.split('/')[0] in ('input', 'temp', '.bead-meta') + (() if review else ('output',)) and '/' in k
               and k != '.bead-meta/bead']
        w.check(not bad, f'{label}: edit filled {bad}', 'edit-fills', files=bad)
        for d in ('input', 'output', 'temp', '.bead-meta'):
            w.check(t.get(d, ('',))[0] == 'd', f'{label}: edit left no directory {d}', 'edit-layout')
        w.count('accepted')
    else:
        w.count('refused')
    return ws, o


def member_case(w, case):
    names, area = case
    root, world = world_with_victims(w)
    names = [n.replace('<ROOT>', root) for n in names]
    try:
        info = forged(w.ctx, **{area: names})
    except (ValueError, UnicodeError):
        return
    label = f'{area} members {names!r}'
    lib.put(world.box, info, w.ctx.other)
    ref = os.path.join(world.box, info.file)
    ws2 = new_ws(w, world, 'ws2', w.ctx.other.name)
    ws = new_ws(w, world, 'ws', w.ctx.other.name)
    if area != 'data':
        edit_checks(w, root, world, ref, label, False)
        guarded(w, root, os.path.join(world.deep, 'edited'), (), label, world, 'discard', os.path.join(world.deep, 'edited'))
    if area != 'mems':
        edit_checks(w, root, world, ref, label, True)
        guarded(w, root, ws, ('input/x', TEMPORARY, '.bead-meta/bead'), label, world, 'input', 'add', 'x', ref, '-w', ws)
        guarded(w, root, ws, ('input/x', TEMPORARY, '.bead-meta/bead'), label, world,
                'input', 'delete', 'x', '-w', ws)
        guarded(w, root, ws, ('input/other', TEMPORARY, '.bead-meta/bead'), label, world,
                'input', 'update', 'other', ref, '-w', ws)
        guarded(w, root, ws, ('input/other', TEMPORARY, '.bead-meta/bead'), label, world, 'input', 'unload', 'other', '-w', ws)
    guarded(w, root, os.path.join(world.deep, 'edited'), (), label, world, 'discard', os.path.join(world.deep, 'edited'))
    w.distinct('nontrivial', [names, area])
    w.sample({'area': area, 'members': names})


def input_case(w, case):
    """an archive with the input names; load, unload and delete them after editing"""
    names, seq = case
    root, world = world_with_victims(w)
    names = [n.replace('<ROOT>', root) for n in names]
    info = forged(w.ctx, inputs=names)
    label = f'input names {names!r}'
    lib.put(world.box, info, w.ctx.other)
    new_ws(w, world, 'ws2')
    ws, o = edit_checks(w, root, world, os.path.join(world.box, info.file), label, False)
    if o.ok:
        lib.write_tree(ws, {'output/out': b'own output', 'temp/t': b'own temp'})
        for cmd in seq:
            for n in names:
                if n.startswith('-') or '\0' in n:
                    continue
                but = tuple({'input/' + os.path.normpath(n).lstrip('/')} if InputOk(n) else ()) + (
                    TEMPORARY, '.bead-meta/bead')
                guarded(w, root, ws, but, label, world, 'input', cmd, n, '-w', ws)
            guarded(w, root, ws, ('input', '.bead-meta/bead'), label, world, 'input', 'load', '-w', ws)
        guarded(w, root, ws, ('input', '.bead-meta/bead'), label, world, 'input', 'unload', '-w', ws)
    w.distinct('nontrivial', [names, seq])
    w.sample({'inputs': names, 'commands': seq})


def InputOk(n):
    return n not in ('', '.', '..') and '/' not in n


def arg_case(w, name):
    """the name as a command line argument on a good workspace, also with --workspace elsewhere"""
    root, world = world_with_victims(w)
    name = name.replace('<ROOT>', root)
    if '\0' in name:
        return
    lib.put(world.box, w.ctx.other)
    new_ws(w, world, 'ws2')
    ws = new_ws(w, world, 'ws', w.ctx.other.name)
    but = (TEMPORARY, '.bead-meta/bead') + (('input/' + name,) if InputOk(name) else ())
    for argv in (('input', 'unload', '--', name), ('input', 'delete', '--', name), ('input', 'load', '--', name),
                 ('input', 'add', '--', name, w.ctx.other.name), ('input', 'unload', '--', name),
                 ('input', 'update', '--', name), ('input', 'delete', '--', name)):
        guarded(w, root, ws, but, f'argument {name!r}', world, *argv, cwd=ws)
    w.distinct('nontrivial', ['arg', name])


def file_name_case(w, fname):
    """the default workspace name comes from the archive's name"""
    root, world = world_with_victims(w)
    lib.put(world.box, w.ctx.other)
    path = os.path.join(world.box, fname)
    with open(path, 'wb') as f:
        f.write(w.ctx.base.data)
    os.makedirs(os.path.join(world.deep, 'cwd'))
    cwd = os.path.join(world.deep, 'cwd')
    before = outside(root, cwd)
    for argv in (('edit', path), ('edit', os.path.relpath(path, cwd))):
        o = w.cli(world, *argv, cwd=cwd, clock=lib.T0)
        w.count('evaluations')
        after = outside(root, cwd)
        w.check(before == after, f'edit of {fname!r} changed files outside of the current directory', 'edit-default', diff=diff(before, after), outcome=o)
    w.distinct('nontrivial', ['file', fname])


FIELDS = ('freeze_name', 'kind', 'meta_version', 'freeze_time', 'unknown', 'input kind', 'input content_id', 'input freeze_time')


def field_case(w, case):
    """text of metadata that is nobody's file name: what is done must not depend on it"""
    field, text, fname = case
    root, world = world_with_victims(w)
    text = text.replace('<ROOT>', root)
    o = w.ctx.other
    spec = dict(kind=o.kind, content_id=o.cid, freeze_time=o.ts)
    if field.startswith('input '):
        spec[field[6:]] = text
        info = lib.forge(w.ctx.base, meta={'inputs': {'in': spec}})
    else:
        info = lib.forge(w.ctx.base, meta={field: text})
    info.file = fname
    lib.put(world.box, info, o)
    path = os.path.join(world.box, fname)
    cwd = os.path.join(world.deep, 'cwd')
    os.makedirs(cwd)
    name = fname.split('_')[0].removesuffix('.zip')
    ws = new_ws(w, world, 'ws', o.name)
    label = f'{field} {text!r}'
    for argv in (('edit', path), ('edit', name), ('edit', '--review', path)):
        guarded(w, root, os.path.join(cwd, name), (), label, world, *argv, cwd=cwd)
        made = os.path.join(cwd, name)
        if os.path.isdir(made):
            for c in (('input', 'load'), ('input', 'update'), ('input', 'unload'), ('input', 'delete', 'in')):
                guarded(w, root, made, ('input/in', TEMPORARY, '.bead-meta/bead'), label, world, *c, '-w', made)
            guarded(w, root, made, (), label, world, 'discard', made)
    but = ('input/x', 'input/other', TEMPORARY, '.bead-meta/bead')
    for c in (('add', 'x', path), ('update', 'x', path), ('unload', 'x'), ('load', 'x'), ('update', 'other', name), ('update',), ('delete', 'x')):
        guarded(w, root, ws, but, label, world, 'input', *c, '-w', ws)
    w.distinct('nontrivial', case)


def main(ctx):
    def bases(w):
        return (lib.make_bead(w, 'base', 'kind-b', TS, code={'own.py': b'1'}, out={'o1': b'1'}),
                lib.make_bead(w, 'other', 'kind-o', TS, out={'o1': b'1', 'sub/o2': b'2'}))
    ctx.base, ctx.other = ctx.setup(bases)
    mn, inn = member_names('<ROOT>'), input_names('<ROOT>')
    cases = [((n,), area) for n in mn for area in ('mems', 'data')]
    pairs = itertools.permutations(['a', 'a/../../v', '..', 'a/b', 'input/x', 'ok', '../other/o1', '.', 'a/../b'] if ctx.quick else mn[::2], 2)
    cases += [(p, area) for p in pairs for area in (('data',) if ctx.quick else ('mems', 'data'))]
    cases += [((n,), 'raw') for n in raw_names('<ROOT>')]
    ctx.pmap(member_case, cases, 'members')
    cases = [((n,), ('load', 'unload', 'delete')) for n in inn] + [((n,), ('delete',)) for n in inn] + [((n,), ('update', 'unload')) for n in inn]
    if not ctx.quick:
        cases += [(p, s) for p in itertools.permutations(inn, 2) for s in (('load', 'unload'), ('delete',))]
    else:
        cases += [(('ok', n), ('load', 'delete')) for n in inn if n != 'ok']
    ctx.pmap(input_case, cases, 'inputs')
    ctx.pmap(arg_case, inn, 'arguments')
    files = [p + s for p in ('.', '..', '...', ' ', '..\\..', '-', '~', 'a/..'.replace('/', '\\'), 'input')
             for s in ('_20200101T000000000000+0000.zip', '_20200101.zip', '.zip')]
    ctx.pmap(file_name_case, files, 'file names')
    texts = ['..', '.', '', '../v', '../../new', '<ROOT>/new', '../ws/output', 'new', 'a/b', 'vdir', 'base', '~', '/']
    names = ['base_20200101T000000000000+0000.zip', 'base.zip']
    ctx.pmap(field_case, [(f, t, n) for f in FIELDS for t in (texts if ctx.quick else texts + inn) for n in names], 'metadata')
    ctx.coverage['rule'] = ('every member name of the alphabet in both areas, names close to the areas, pairs of member names, every input name with every command '
                            'sequence, as metadata and as argument, every archive file name, paths in all other fields of metadata; distinct by names, area and commands')
    ctx.coverage['exhaustive'] = True
    ctx.assumptions = ['POSIX path syntax', 'the workspace itself contains no symbolic links under input/']
