"""C32: stored archives are immutable and commands touch only their own area.

All sequences of commands over two workspaces of the same name and two boxes, up
to a depth: complete snapshots of the user's files around every command."""
import os

import fw
import lib
from fw import World, diff, restore, snap

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state exploration of command sequences on the real command line (states are file system trees), checking the frame of every command'
NOTE = ('All sequences up to depth 3 over 22 commands (thorough: 38 commands, and depth 4 over the 22), states with the same files are explored once. '
        'Contents and permissions are compared, access and modification times are not.')

# name -> (argv, area, clock): the area is what the command may change
OPS = {}


def op(name, area, *argv, at=None, cwd='home', quick=True):
    OPS[name] = (argv, area, at, cwd, quick)


W1, W2 = 'one/a', 'two/a'
op('save 1 x', 'save:x:a', 'save', 'x', '-w', W1)
op('save 1 y', 'save:y:a', 'save', 'y', '-w', W1, quick=False)
op('save 2 x', 'save:x:a', 'save', 'x', '-w', W2)
op('save 2 y', 'save:y:a', 'save', 'y', '-w', W2)
op('save 1 x then', 'save:x:a', 'save', 'x', '-w', W1, at=lib.T0)
op('save 2 x then', 'save:x:a', 'save', 'x', '-w', W2, at=lib.T0)
op('save nowhere', 'nothing', 'save', '-w', W1, quick=False)
op('save unknown', 'nothing', 'save', 'z', '-w', W1, quick=False)
op('save not a workspace', 'nothing', 'save', 'x', '-w', 'one', quick=False)
op('add 1', 'input:' + W1, 'input', 'add', 'n', 'b', '-w', W1)
op('add 1 self', 'input:' + W1, 'input', 'add', 'n', 'a', '-w', W1)
op('add 2', 'input:' + W2, 'input', 'add', 'm', 'a', '-w', W2, quick=False)
op('add path', 'input:' + W2, 'input', 'add', 'p', 'x/b_20200101T000000000000+0000.zip', '-w', W2)
op('update 1', 'input:' + W1, 'input', 'update', '-w', W1)
op('update 2', 'input:' + W2, 'input', 'update', 'i', '-w', W2, quick=False)
op('update 1 prev', 'input:' + W1, 'input', 'update', 'i', '--prev', '-w', W1, quick=False)
op('load 1', 'input:' + W1, 'input', 'load', '-w', W1)
op('load 2', 'input:' + W2, 'input', 'load', 'i', '-w', W2, quick=False)
op('unload 1', 'input:' + W1, 'input', 'unload', '-w', W1)
op('unload 2', 'input:' + W2, 'input', 'unload', 'i', '-w', W2, quick=False)
op('delete 1', 'input:' + W1, 'input', 'delete', 'i', '-w', W1)
op('delete 2', 'input:' + W2, 'input', 'delete', 'i', '-w', W2, quick=False)
op('status 1', 'nothing', 'status', '-v', '-w', W1)
op('status 2', 'nothing', 'status', '-w', W2, quick=False)
op('edit', 'new:three/e', 'edit', 'a', 'three/e')
op('edit review', 'new:three/e', 'edit', '--review', 'b', 'three/e', quick=False)
op('edit here', 'new:b', 'edit', 'b', quick=False)
op('edit over', 'nothing', 'edit', 'b', W2)
op('new', 'new:three/a', 'new', 'three/a')
op('new over', 'nothing', 'new', W1, quick=False)
op('discard 1', 'gone:' + W1, 'discard', W1)
op('nuke 2', 'gone:' + W2, 'nuke', W2, quick=False)
op('discard e', 'gone:three/e', 'discard', 'three/e', quick=False)
op('index x', 'index:x', 'box', 'index', '--box', 'x')
op('index all', 'index', 'box', 'index', '--all', quick=False)
op('reindex x', 'index:x', 'box', 'reindex', '--box', 'x', quick=False)
op('reindex all', 'index', 'box', 'reindex', '--all')
op('forget y', 'config', 'box', 'forget', 'y')
op('add box y', 'config', 'box', 'add', 'y', 'y', quick=False)
op('list', 'nothing', 'box', 'list', quick=False)
op('web', 'nothing', 'web', 'color', '/', '..', 'b', quick=False)
op('web save', 'file:w.web', 'web', 'save', 'w.web')


def setup(w):
    mk = lib.make_bead
    b1 = mk(w, 'b', 'KB', '20200101T000000000000+0000', out={'o': b'b1', 'd/o': b'1'})
    b2 = mk(w, 'b', 'KB', '20210101T000000000000+0000', out={'o': b'b2'}, inputs={'i': b1})
    a = mk(w, 'a', 'KA', '20200601T000000000000+0000', out={'o': b'a'})
    world = World(w.fresh())
    root = world.root
    lib.put(world.path('x'), b1, a)
    lib.put(world.path('y'), b1, b2)
    lib.write_tree(world.path('y'), {'notes.txt': b'mine', 'sub/a_20200101.zip': a.data})
    # what is private stays so
    os.chmod(world.path('x', b1.file), 0o600)
    os.chmod(world.path('y', b2.file), 0o440)
    world.set_boxes([('x', world.path('x')), ('y', world.path('y'))])
    for ws, t in ((W1, '2020-06-01'), (W2, '2022')):
        for argv in (('new', ws), ('input', 'add', 'i', 'b', '-t', t, '-w', ws)):
            o = w.cli(world, *argv, cwd=root, clock=lib.T0)
            w.check(o.ok, f'{argv} fails', 'setup', outcome=o)
        lib.write_tree(world.path(ws), {'code': ws.encode(), 'sub/c': b'c', 'output/o': ws.encode(), 'temp/t': b't'})
    os.mkdir(world.path('three'))
    # links that lead out of the workspace
    os.symlink('../../two/a/sub', world.path(W1, 'linked'))
    os.symlink('../../../x', world.path(W1, 'temp', 'box'))
    os.symlink('../../x/' + a.file, world.path(W2, 'archive.zip'))
    o = w.cli(world, 'input', 'unload', '-w', W2, cwd=root, clock=lib.T0)
    w.check(o.ok, 'unload fails', 'setup', outcome=o)
    return rootless(snap(root), root)


def rootless(tree, root):
    return {k: ('f', v[1], v[2].replace(root.encode(), b'<ROOT>')) if k == 'config/env.json' else v for k, v in tree.items()}


def allowed(area, key):
    kind, _, arg = area.partition(':')
    if kind == 'nothing':
        return False
    if kind == 'input':
        return key in (arg + '/.bead-meta', arg + '/.bead-meta/bead', arg + '/input') or key.startswith(arg + '/input/')
    if kind in ('new', 'gone'):
        return key == arg or key.startswith(arg + '/')
    if kind == 'index':
        box, _, name = key.partition('/')
        return name.startswith('.index') and box in ([arg] if arg else ['x', 'y'])
    if kind == 'config':
        return key.startswith('config/')
    if kind == 'file':
        return key == arg
    if kind == 'save':
        box = arg.split(':')[0]
        return key.startswith(box + '/')
    raise AssertionError(area)


def changed(a, b):
    return [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


def step(w, tree, name, depth, path):
    """run a command in a state; -> the new state"""
    argv, area, at, cwd, _ = OPS[name]
    root = w.fresh()
    tree = {k: ('f', v[1], v[2].replace(b'<ROOT>', root.encode())) if k == 'config/env.json' else v for k, v in tree.items()}
    restore(root, tree)
    world = World(root)
    clock = at if at is not None else lib.T0 + depth * lib.NS
    o = w.cli(world, *argv, cwd=root, clock=(clock, 0))
    after = snap(root)
    w.count('transitions')
    w.count('traces_validated_against_impl')
    label = f'{name!r} after {list(path)}'
    diffs = changed(tree, after)
    w.check(o.kind in ('ret', 'exit', 'exc'), f'{label} ends in {o.kind}', 'died', outcome=o)
    stray = [k for k in diffs if not allowed(area, k)]
    w.check(not stray, f'{label} changes {diff({k: tree[k] for k in stray if k in tree}, {k: after[k] for k in stray if k in after})}', f'area:{name}', outcome=o)
    kind, _, arg = area.partition(':')
    if kind == 'save':
        box, ws = arg.split(':')
        real = [k for k in diffs if not k.startswith(box + '/.index')]
        if o.ok:
            stamp = lib.ts_of(clock // lib.NS, clock % lib.NS // 1000)
            w.check(real == [f'{box}/{ws}_{stamp}.zip'] and real[0] not in tree, f'{label} makes {diff(tree, after)}', 'save', outcome=o)
            meta = fw.json.loads(dict(lib.members(after[real[0]][2]))['meta/bead'])
            w.check(meta['freeze_time'] == stamp, f'{label}: frozen at {meta["freeze_time"]}', 'save')
        else:
            w.check(not real, f'{label} fails but changes {diff(tree, after)}', 'save-fails', outcome=o)
    elif kind == 'gone':
        w.check(arg not in after or not o.ok, f'{label} leaves {arg}', 'gone', outcome=o)
    after = rootless(after, root)
    # the kind of a new workspace is random
    meta = after.get('three/a/.bead-meta/bead')
    if meta:
        after['three/a/.bead-meta/bead'] = ('f', meta[1], b'{"inputs": {}, "kind": "NEW"}')
    return after, o.ok


def key_of(tree):
    k = {p: (v[0], v[1], lib.members(v[2]) if p.endswith('.zip') and v[0] == 'f' else None if p.split('/')[-1].startswith('.index') else v[2]) for p, v in tree.items()}
    return fw.hashlib.blake2b(repr(sorted(k.items())).encode(), digest_size=16).digest()


def expand(w, case):
    tree, path, ops, keep = case
    out = []
    for name in ops:
        try:
            after, ok = step(w, tree, name, len(path) + 1, path)
        except fw.Violation as v:
            w.violation(v.message, v.key, v.detail)
            continue
        k = key_of(after)
        w.distinct('states', k)
        w.distinct('effects', (name, ok, k == key_of(tree)))
        out.append((name, k, after if keep else None))
    if len(path) == 1:
        w.sample({'after': list(path), 'commands': len(ops), 'states': len({k for _, k, _ in out})})
    return out


def explore(ctx, ops, depth, seen):
    level = [(ctx.start, ())]
    seen.add(key_of(ctx.start))
    for d in range(depth):
        last = d == depth - 1
        size = max(1, len(ops) // (4 if len(level) < 30 else 1))
        cases = [(t, p, ops[i:i + size], not last) for t, p in level for i in range(0, len(ops), size)]
        results = ctx.pmap(expand, cases, f'depth {d + 1}')
        level = []
        for (t, p, _, _), r in zip(cases, results):
            for name, k, tree in r or ():
                if k not in seen:
                    seen.add(k)
                    if not last:
                        level.append((tree, p + (name,)))
    return len(seen)


def main(ctx):
    ctx.level = LEVEL
    ctx.start = ctx.setup(setup)
    some = [n for n, o in OPS.items() if o[4]]
    if ctx.quick:
        explore(ctx, some, 3, set())
    else:
        explore(ctx, list(OPS), 3, set())
        explore(ctx, some, 4, set())
    ctx.coverage['states'] = len(ctx.stats.keys['states'])
    ctx.coverage['commands'] = sorted(OPS) if not ctx.quick else some
    ctx.coverage['bound'] = NOTE
