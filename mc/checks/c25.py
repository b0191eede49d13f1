"""C25: discard removes the workspace and nothing else.

All workspaces with up to two (thorough: three) odd entries - links of all
kinds, files and directories with any permission, nested - at all places,
discarded in all ways; the whole surroundings are compared before and after."""
import itertools
import os

import fw
import lib
import scenes
from fw import World, diff, restore, snap

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of workspace trees x ways to discard on the real command line under an unprivileged user, with complete snapshots'
NOTE = 'Hard links, other file types and file systems, and directories of other users are not covered.'

PLACES = ['', 'src', 'input', 'input/x', 'input/x/d', 'output', 'output/deep/er', 'temp', '.bead-meta']
OUT = {
    'out': ('d', 0o755, None), 'out/f': ('f', 0o644, b'f'), 'out/ro': ('f', 0o444, b'ro'), 'out/no': ('f', 0, b'no'),
    'out/d': ('d', 0o755, None), 'out/d/f': ('f', 0o600, b'df'), 'out/rod': ('d', 0o555, None), 'out/rod/f': ('f', 0o400, b'x'),
    'out/nod': ('d', 0, None), 'out/link': ('l', 0, 'd'), 'out/dangling': ('l', 0, 'nowhere'), 'out/empty': ('d', 0o700, None),
    'ws2': ('d', 0o755, None), 'ws2/input': ('d', 0o555, None), 'ws2/output': ('d', 0o755, None), 'ws2/temp': ('d', 0o755, None),
    'ws2/.bead-meta': ('d', 0o755, None), 'ws2/.bead-meta/bead': ('f', 0o644, b'{"kind": "x", "inputs": {}}'), 'ws2/code': ('f', 0o644, b'2'),
}
# where a link leads, absolute ones start with @
LINKS = ['@out/f', '@out/ro', '@out/no', '@out/d', '@out/rod', '@out/nod', '@out/link', '@out/dangling', '@out', '@ws2', '@ws', '@', '@nowhere', '.', '..', '../..', 'n',
         'f', '@box', '@ws/input', '@ws/output', '@home']
FILES = [0o644, 0o444, 0o200, 0]
DIRS = [0o755, 0o555, 0o500, 0o300, 0o200, 0o100, 0o400, 0o600, 0]


def entries():
    """name -> [(relative path, kind, mode, content)]"""
    out = []
    for t in LINKS:
        out.append(('link', t, [('n', 'l', 0, t)]))
    for m in FILES:
        out.append(('file', m, [('n', 'f', m, b'n')]))
    for m in DIRS:
        out.append(('dir', m, [('n', 'd', m, None), ('n/f', 'f', 0o444, b'f'), ('n/s', 'd', 0o755, None), ('n/s/g', 'f', 0, b'g')]))
        out.append(('emptydir', m, [('n', 'd', m, None)]))
    for m in (0o755, 0o555, 0):
        for t in ('@out/f', '@out/rod', '@out', '@out/dangling', '..'):
            out.append(('dirlink', (m, t), [('n', 'd', m, None), ('n/l', 'l', 0, t), ('n/d', 'd', m, None), ('n/d/l', 'l', 0, t)]))
    return out


def place(tree, root, at, k, entry):
    """add an entry to the tree of the world"""
    if entry[0] == 'replace':
        part, target = entry[1]
        for q in [q for q in tree if q == f'ws/{part}' or q.startswith(f'ws/{part}/')]:
            del tree[q]
        tree[f'ws/{part}'] = ('l', 0, os.path.join(root, target))
        return
    base = 'ws' if not at else f'ws/{at}'
    parts = base.split('/')
    for i in range(1, len(parts) + 1):
        tree.setdefault('/'.join(parts[:i]), ('d', 0o755, None))
    for rel, kind, mode, content in entry[2]:
        if kind == 'l' and content[:1] == '@':
            content = os.path.join(root, content[1:]) if content[1:] else root
        elif kind == 'l' and content == 'n':
            content = f'n{k}'
        tree[f'{base}/n{k}{rel[1:]}'] = (kind, mode, content)


WAYS = [('outside', ('discard', '<ROOT>/ws'), 'home'), ('force', ('discard', '--force', '<ROOT>/ws'), 'home'), ('relative', ('discard', '../ws'), 'home'),
        ('top', ('discard',), 'ws'), ('below', ('discard',), 'ws/src'), ('output', ('discard',), 'ws/output'), ('link', ('discard', '<ROOT>/wslink'), 'home'),
        ('inlink', ('discard',), 'wslink'), ('neighbour', ('discard', '<ROOT>/ws'), 'ws2'), ('slash', ('discard', '<ROOT>/ws/'), 'home'),
        ('parent', ('discard', '..'), 'ws/src'), ('force inside', ('discard', '-f'), 'ws/temp')]


def judge(w, case):
    spec, ways, wsmode = case
    root = w.fresh()
    tree = dict(w.ctx.image.tree)
    tree.update(OUT)
    tree.setdefault('ws/src', ('d', 0o755, None))
    tree['wslink'] = ('l', 0, 'ws')
    if wsmode is not None:
        tree['ws'] = ('d', wsmode, None)
    for k, (at, entry) in enumerate(spec):
        place(tree, root, at, k, entry)
    want = {p: v for p, v in tree.items() if not (p == 'ws' or p.startswith('ws/'))}
    for name, argv, cwd in ways:
        restore(root, tree)
        world = World(root)
        world.set_boxes([('box', world.path('box'))])
        want['config/env.json'] = snap(world.config)['env.json']
        o = w.cli(world, *lib.fill(root, argv), cwd=os.path.join(root, cwd), clock=lib.T0)
        w.count('evaluations')
        what = f'discard ({name}) of a workspace with {[(at, e[:2]) for at, e in spec]}'
        after = snap(root)
        left = sorted(p for p in after if p == 'ws' or p.startswith('ws/'))
        rest = {p: v for p, v in after.items() if not (p == 'ws' or p.startswith('ws/'))}
        d = diff(want, rest)
        w.check(not d, f'{what} changes {d}', f'outside {spec and spec[0][1][0]}', outcome=o)
        w.check(not left, f'{what} leaves {left[:5]}', f'left {spec and spec[0][1][0]}', outcome=o)
        w.check(o.ok, f'{what} ends in {o.kind}', 'error', outcome=o)
    w.distinct('nontrivial', repr((spec, wsmode)))
    w.sample({'entries': repr([(at, e[:2]) for at, e in spec]), 'ways': [x[0] for x in ways]})


STAY = [x for x in WAYS if x[2] not in ('ws/output', 'ws/temp', 'ws/input')]     # where replaced parts do not lead elsewhere
PARTS = ['input', 'output', 'temp', '.bead-meta', '.bead-meta/bead']


def refuse(w, case):
    """directories that are no workspaces"""
    spec, breaks, how = case
    root = w.fresh()
    tree = dict(w.ctx.image.tree)
    tree.update(OUT)
    tree.setdefault('ws/src', ('d', 0o755, None))
    for part, what in breaks:
        p = f'ws/{part}'
        for q in [q for q in tree if q == p or q.startswith(p + '/')]:
            del tree[q]
        if what == 'file':
            tree[p] = ('f', 0o644, b'')
        elif what == 'dir':
            tree[p] = ('d', 0o755, None)
        elif what == 'dangling':
            tree[p] = ('l', 0, 'nowhere')
    for k, (at, entry) in enumerate(spec):
        place(tree, root, at, k, entry)
    restore(root, tree)
    world = World(root)
    world.set_boxes([('box', world.path('box'))])
    before = snap(root)
    argv, cwd = {'outside': (('discard', f'{root}/ws'), 'home'), 'inside': (('discard',), 'ws'), 'below': (('discard',), 'ws/src'),
                 'force': (('discard', '--force', f'{root}/ws'), 'home')}[how]
    o = w.cli(world, *argv, cwd=os.path.join(root, cwd), clock=lib.T0)
    w.count('evaluations')
    after = snap(root)
    what = f'discard ({how}) of a directory with {breaks}'
    if how == 'force':
        want = {p: v for p, v in before.items() if not (p == 'ws' or p.startswith('ws/'))}
        d = diff(want, after)
        w.check(o.ok and not d, f'{what}: {d}', 'force', outcome=o)
    else:
        w.check(o.failed, f'{what} is accepted', 'accepted', outcome=o)
        d = diff(before, after)
        w.check(not d, f'{what} is refused but changes {d}', 'refused', outcome=o)
    w.distinct('nontrivial', repr((spec, breaks)))


def alone(w, case):
    """nothing else is in the directories around the workspace"""
    depth, how, inside = case
    root = w.fresh()
    world = World(root)
    parent = '/'.join(['p'] * depth)
    ws = os.path.join(root, parent, 'ws')
    os.makedirs(os.path.dirname(ws))
    if inside:
        w.check(w.cli(world, 'new', os.path.join(root, 'p', 'outer'), clock=lib.T0).ok, 'new fails', 'setup')
        ws = os.path.join(root, 'p', 'outer', 'temp', 'ws')
    w.check(w.cli(world, 'new', ws, clock=lib.T0).ok, 'new fails', 'setup')
    rel = os.path.relpath(ws, root)
    os.makedirs(os.path.join(ws, 'src'))
    want = {k: v for k, v in snap(root).items() if k != rel and not k.startswith(rel + '/')}
    argv, cwd = {'outside': (('discard', ws), root), 'top': (('discard',), ws), 'below': (('discard',), os.path.join(ws, 'src')), 'parent': (('discard', 'ws'), os.path.dirname(ws)),
                 'force': (('discard', '-f', ws), root), 'nuke': (('nuke', ws), root)}[how]
    o = w.cli(world, *argv, cwd=cwd, clock=lib.T0)
    w.count('evaluations')
    w.check(o.ok, f'discard ({how}) {depth} deep fails', 'alone', outcome=o)
    d = diff(want, snap(root))
    w.check(not d, f'discard ({how}) of a workspace that is alone {depth} deep changes {d}', 'alone', outcome=o)
    w.distinct('nontrivial', repr(case))


def cases(ctx):
    full = not ctx.quick
    es = entries()
    for at in PLACES:
        for e in es:
            yield [(at, e)], WAYS if full else WAYS[:4] if at in ('', 'input') else WAYS[:1] + WAYS[4:5], None
    for part in ('input', 'output', 'temp'):
        for t in ('out', 'out/rod', 'ws2', 'ws2/input', 'box', 'home', 'out/d'):
            yield [('', ('replace', (part, t)))], STAY, None
            yield [('', ('replace', (part, t))), ('src', es[0])], WAYS[:1], None
    for e in (('.bead-meta', 'ws2/.bead-meta'), ('.bead-meta/bead', 'ws2/.bead-meta/bead'), ('src', 'ws2'), ('code.py', 'ws2/code')):
        yield [('', ('replace', e))], WAYS[:4] if e[0] == 'src' else STAY, None
    for m in (0o700, 0o500, 0o555, 0o755):
        for e in es[::4]:
            yield [('', e)], WAYS, m
    some = [e for e in es if e[0] in ('link', 'file') or e[1] in (0o755, 0o555, 0, 0o300)] if full else [
        e for e in es if e[:2] in (('link', '@out/ro'), ('link', '@out/rod'), ('link', '..'), ('link', '@out/nod'), ('dir', 0o555), ('dir', 0), ('emptydir', 0o300), ('file', 0),
                                   ('dirlink', (0, '@out')), ('link', '@ws2'))]
    places = PLACES if full else ['', 'input/x', 'output/deep/er']
    for a, b in itertools.combinations_with_replacement([(p, e) for p in places for e in some], 2):
        if full and (some.index(a[1]) + some.index(b[1])) % 3:
            continue
        yield [a, b], WAYS[:1], None


def refusals(ctx):
    kinds = ['none', 'dangling']
    link = ('link', '@out', [('n', 'l', 0, '@out')])
    for r in (1, 2):
        for parts in itertools.combinations(PARTS, r):
            for ks in itertools.product(*[kinds + (['dir'] if p.endswith('bead') else ['file']) for p in parts]):
                if '.bead-meta' in parts and '.bead-meta/bead' in parts:
                    continue
                for how in ('outside', 'inside', 'below', 'force'):
                    yield [('', link)], list(zip(parts, ks)), how


def setup(w):
    return scenes.input_scene(w)


def main(ctx):
    ctx.level = LEVEL
    ctx.image = ctx.setup(setup).image
    ctx.pmap(judge, cases(ctx), 'discard')
    ctx.pmap(alone, [(d, h, i) for d in (1, 2, 3) for h in ('outside', 'top', 'below', 'parent', 'force', 'nuke') for i in (False, True) if d == 1 or not i], 'alone')
    ctx.pmap(refuse, refusals(ctx), 'refuse')
    ctx.coverage['rule'] = 'all workspaces with up to two odd entries at all places x ways to discard; all directories with one or two parts of a workspace missing or of a wrong kind'
