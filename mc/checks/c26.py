"""C26: the box registry is a consistent persistent list.

The reachable states of the registry (three names, three directories in all
their spellings, the automatic box, directories coming and going) under all
commands, explored with real commands in lock step with a reference list."""
import json
import os

import fw
import lib
from fw import World, diff, restore, snap

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state exploration of all registry states under all commands on the real command line, in lock step with a reference model'
NOTE = ('Complete for 3 names x 3 directories in 8 spellings, 1 file, 1 missing directory, saves without a box, other commands; thorough: also directories that are '
        'deleted and made again and links that change. Concurrent changes are not covered.')

NAMES = ['a', 'A', 'home']
DIRS = {'d1': ['d1', '<ROOT>/d1', 'd1/', '<ROOT>/l1', 'd1/../d1', '<ROOT>/ll1'], 'd2': ['<ROOT>/d2', 'l2/'], 'bb': ['<HOME>/BeadBox', '<ROOT>/home/BeadBox']}
BAD = ['<ROOT>/file', '<ROOT>/missing', 'dangling']
OTHERS = [('box', 'list'), ('box', 'index', '--all'), ('box', 'reindex', '--all'), ('new', 'x'), ('edit', 'nosuch'), ('status', '-w', '<ROOT>/ws'),
          ('web', 'save', 'f.web'), ('discard', 'nosuch'), ('save', 'nosuch', '-w', '<ROOT>/ws'), ('version',)]


def operations(full):
    ops = [('add', n, f) for n in NAMES for fs in DIRS.values() for f in fs]
    ops += [('add', n, f) for n in ('a', 'home') for f in BAD]
    ops += [('forget', n) for n in NAMES + ['zz']]
    ops += [('save',)] + [('save', n) for n in NAMES]
    ops += [('other', o) for o in (OTHERS if full else OTHERS[1:3])]
    if full:
        ops += [('toggle', 'd2'), ('toggle', 'l1')]
    return ops


def step(state, op):
    """(boxes, existing directories, where l1 leads), accepted? by the statement"""
    boxes, exist, l1 = state
    if op[0] == 'add':
        where = next((d for d, fs in DIRS.items() if op[2] in fs), None)
        if op[2] in ('<ROOT>/l1', '<ROOT>/ll1'):
            where = l1
        if where is None or where not in exist or any(n == op[1] or d == where for n, d in boxes):
            return state, False
        return (boxes + ((op[1], where),), exist, l1), True
    if op[0] == 'forget':
        left = tuple(b for b in boxes if b[0] != op[1])
        return (left, exist, l1), None
    if op[0] == 'save':
        if len(op) == 1:
            if not boxes:
                return ((('home', 'bb'),), exist | {'bb'}, l1), True
            return state, len(boxes) == 1 and boxes[0][1] in exist
        return state, any(n == op[1] and d in exist for n, d in boxes)
    if op[0] == 'toggle':
        if op[1] == 'l1':
            return (boxes, exist, 'd2' if l1 == 'd1' else 'd1'), None
        return (boxes, exist ^ {'d2'}, l1), None
    return state, None


def make_world(w, ctx, state, config, mode):
    root = w.fresh()
    restore(root, ctx.image.tree)
    home = os.path.join(root, 'home')
    if mode == 'linked home':
        os.symlink('home', os.path.join(root, 'hl'))
        home = os.path.join(root, 'hl')
    world = World(root)
    fw.wipe(world.config)
    restore(world.config, config)
    for d in ('d1', 'd2'):
        if d in state[1]:
            os.mkdir(world.path(d))
    os.symlink(state[2], world.path('l1'))
    os.symlink('l1', world.path('ll1'))
    os.symlink('d2', world.path('l2'))
    os.symlink('nowhere', world.path('dangling'))
    with open(world.path('file'), 'w') as f:
        f.write('x')
    if 'bb' in state[1]:
        os.mkdir(os.path.join(root, 'home', 'BeadBox'))
    world.env['HOME'] = home
    world.where = {'d1': world.path('d1'), 'd2': world.path('d2'), 'bb': world.path('home', 'BeadBox')}
    return world, home


def registered(world):
    p = os.path.join(world.config, 'env.json')
    if not os.path.exists(p):
        return ()
    with open(p) as f:
        c = json.load(f)
    return tuple((b['name'], b['directory']) for b in c.get('boxes', ()))


def portable(tree, root):
    return {p: (k, m, c.replace(root.encode(), b'<ROOT>') if k == 'f' else c) for p, (k, m, c) in tree.items()}


def expand(w, node):
    state, config, mode, ops = node
    out = []
    for op in ops:
        world, home = make_world(w, w.ctx, state, config, mode)
        root = world.root
        fw.wipe(world.config)
        restore(world.config, {p: (k, m, c.replace(b'<ROOT>', root.encode()) if k == 'f' else c) for p, (k, m, c) in config.items()})
        new, accepted = step(state, op)
        label = f'{" ".join(map(str, op))} with boxes {state[0]}, {mode}'
        before = snap(root)

        def sub(a):
            return a.replace('<ROOT>', root).replace('<HOME>', home)
        o = None
        if op[0] == 'toggle':
            if op[1] == 'd2':
                fw.wipe(world.path('d2')) if 'd2' in state[1] else os.mkdir(world.path('d2'))
            else:
                os.unlink(world.path('l1'))
                os.symlink(new[2], world.path('l1'))
        else:
            argv = {'add': lambda: ['box', 'add', op[1], sub(op[2])], 'forget': lambda: ['box', 'forget', op[1]],
                    'save': lambda: ['save', *op[1:], '-w', world.path('ws')], 'other': lambda: [sub(a) for a in op[1]]}[op[0]]()
            o = w.cli(world, *argv, cwd=root, clock=lib.T0)
            w.check(o.kind in ('ret', 'exit'), f'{label} ends in {o.kind} {o.exc}', f'died {op[0]}', outcome=o)
        w.count('transitions')
        w.count('traces_validated_against_impl')
        want = tuple((n, world.where[d]) for n, d in new[0])
        got = registered(world)
        w.check(got == want, f'{label}: the boxes are {got} instead of {want}', f'boxes {op[0]}', outcome=o)
        after = snap(root)
        if op[0] == 'add' or op[0] == 'forget':
            changed = [p for p in set(before) | set(after) if before.get(p) != after.get(p) and not p.startswith('config')]
            w.check(not changed, f'{label} changes {changed}', f'files {op[0]}', outcome=o)
            if accepted is False:
                w.check('ERROR' in o.out + o.err or not o.ok, f'{label} is not reported', 'unreported', outcome=o)
        if op[0] == 'save':
            zips = sorted(p for p in after if p.endswith('.zip') and p not in before)
            if accepted:
                target = dict(new[0])[op[1] if len(op) > 1 else new[0][0][0]]
                rel = os.path.relpath(world.where[target], root)
                w.check(o.ok and len(zips) == 1 and os.path.dirname(zips[0]) == rel, f'{label} stores {zips}', 'stored', outcome=o)
            else:
                w.check(o.failed and before == after, f'{label} is not refused: {diff(before, after)}', 'save', outcome=o)
        # every later command sees the same list
        out.append((new, portable(snap(world.config), root)))
        if before.get('config/env.json') == after.get('config/env.json') and op[0] != 'forget':
            continue
        seen = w.cli(world, 'box', 'list', clock=lib.T0)
        lines = [x for x in seen.out.splitlines() if ': /' in x]
        w.check(seen.ok and lines == [f'{n}: {d}' for n, d in want], f'after {label} box list shows {lines}', 'list', outcome=seen)
    return out


def image(w):
    root = w.fresh()
    world = World(root)
    o = w.cli(world, 'new', world.path('ws'), clock=lib.T0)
    w.check(o.ok, 'new fails', 'setup', outcome=o)
    return lib.image_of(world, 'start', [])


def crowd_case(w, n):
    """many boxes"""
    world = World(w.fresh())
    root = world.root
    fw.wipe(world.config)
    for k in range(n):
        os.mkdir(world.path(f'd{k}'))
    want = []

    def run(what, *argv):
        o = w.cli(world, *argv, cwd=root, clock=lib.T0)
        w.check(o.kind in ('ret', 'exit'), f'{what} with {len(want)} boxes ends in {o.kind} {o.exc}', 'crowd-died', outcome=o)
        w.count('transitions')
        w.count('traces_validated_against_impl')
        got = registered(world)
        w.check(got == tuple(want), f'{what} with {len(want)} boxes: the boxes are {sorted(set(got) ^ set(want))} different or in another order', 'crowd', outcome=o)
        return o
    for k in range(n):
        want.append((f'b{k}', world.path(f'd{k}')))
        run('box add', 'box', 'add', f'b{k}', f'd{k}')
        if k % 8 == 7 or k == n - 1:
            for j in {0, k // 2, k}:
                o = run('adding a known name', 'box', 'add', f'b{j}', '.')
                w.check('ERROR' in o.out + o.err or not o.ok, 'a known name is accepted', 'crowd-unreported', outcome=o)
                o = run('adding a known directory', 'box', 'add', 'new', f'd{j}')
                w.check('ERROR' in o.out + o.err or not o.ok, 'a known directory is accepted', 'crowd-unreported', outcome=o)
    o = run('box list', 'box', 'list')
    w.check([x for x in o.out.splitlines() if ': /' in x] == [f'{a}: {b}' for a, b in want], f'box list of {n} boxes: {o.out[-300:]}', 'crowd-list')
    for k in list(range(0, n, 3)) + list(range(n - 1, 0, -3)):
        want[:] = [b for b in want if b[0] != f'b{k}']
        run(f'box forget b{k}', 'box', 'forget', f'b{k}')
    o = run('box list', 'box', 'list')
    w.check([x for x in o.out.splitlines() if ': /' in x] == [f'{a}: {b}' for a, b in want], f'box list of {len(want)} boxes: {o.out[-300:]}', 'crowd-list')


def main(ctx):
    ctx.level = LEVEL
    ctx.pmap(crowd_case, [10, 40, 130], 'crowd')
    full = not ctx.quick
    ctx.image = ctx.setup(image)
    ops = operations(full)
    total = 0
    for mode in ('plain', 'linked home') if full else ('plain',):
        start = ((), frozenset({'d1', 'd2'}), 'd1')
        seen = {start}
        frontier = [(start, {'': ('d', 0o755, None)})]
        while frontier:
            chunk = [(s, c, mode, ops[i::4]) for s, c in frontier for i in range(4)]
            res = ctx.pmap(expand, chunk, f'{mode} {len(seen)}')
            nxt = []
            for r in res:
                for s, c in r or ():
                    if s not in seen:
                        seen.add(s)
                        nxt.append((s, c))
                        if len(ctx.stats.samples['samples']) < 3 and len(s[0]) == 3:
                            ctx.stats.samples['samples'].append((0, {'state': repr(s)}))
            frontier = nxt
        total += len(seen)
    if ctx.quick:
        ctx.pmap(expand, [(((), frozenset({'d1', 'd2'}), 'd1'), {'': ('d', 0o755, None)}, 'linked home', ops)], 'linked home')
    ctx.stats.n['states'] = total
