"""C36: unavailable boxes do not block the others.

All assignments of states to three boxes and all commands that look for beads, as
an unprivileged user: everything must be as if the unavailable boxes were unknown."""
import itertools
import os

import fw
import lib
from fw import World, diff, restore, snap

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of box states x commands on the real command line, against the same command without the unavailable boxes'
NOTE = ('15 states of each of three boxes (quick: two of them in all states, and all three in 5), 16 commands; saving into 9 sorts of bad directory. '
        'A box whose index can be read but whose directory can not be listed is not judged.')

GOOD = ('ok', 'indexed')
STATES = ('ok', 'indexed', 'empty', 'empty indexed', 'missing', 'file', 'unreadable', 'unreadable indexed', 'list only', 'dangling', 'access only', 'below file', 'closed parent', 'closed index', 'odd index')
NAMES = ('one', 'two', 'three')


class Scene:
    pass


def setup(w):
    sc = Scene()
    mk = lib.make_bead
    sc.a = [mk(w, 'a', 'K', f'201{n}0101T000000000000+0000', out={'o': b'a%d' % n}) for n in (1, 2, 3)]
    order = (2, 3, 1)                         # the newest is not in the last box
    sc.u = [mk(w, f'u{n}', f'KU{n}', f'20200{n}01T000000000000+0000', out={'o': b'u%d' % n}) for n in (1, 2, 3)]
    common = mk(w, 'c', 'KC', '20150101T000000000000+0000', out={'o': b'common'})
    # the middle box has no copy of the common bead
    sc.boxes = [[sc.a[order[n] - 1], sc.u[n]] + ([common] if n != 1 else []) for n in range(3)]
    world = World(w.fresh())
    sc.tree = {}
    for n, have in enumerate(sc.boxes + [[]]):
        box = world.path('box')
        restore(box, {})
        lib.put(box, *have)
        sc.tree[n, 'ok'] = snap(box)
        world.set_boxes([('box', box)])
        w.check(w.cli(world, 'box', 'index', clock=lib.T0).ok, 'index fails', 'setup')
        sc.tree[n, 'indexed'] = snap(box)
    ws = world.path('ws')
    world.set_boxes([])
    restore(world.path('box'), {})
    lib.put(world.path('box'), sc.a[0], sc.a[1], common, *sc.u)
    cmds = [('new', ws)]
    for nick, i in (('x', sc.a[1]), ('y', common), ('z', sc.u[1]), ('l', sc.a[0])):
        cmds.append(('input', 'add', nick, os.path.join(world.path('box'), i.file), '-w', ws))
    cmds += [('input', 'unload', n, '-w', ws) for n in 'yz']
    for c in cmds:
        o = w.cli(world, *c, clock=lib.T0)
        w.check(o.ok, f'{c} fails', 'setup', outcome=o)
    lib.write_tree(ws, {'code': b'code', 'output/o': b'out'})
    sc.ws = snap(ws)
    return sc


COMMANDS = {
    'edit a': ('edit', 'a', 'edited'), 'edit old': ('edit', 'a', 'edited', '-t', '2012-06-01'), 'edit u1': ('edit', 'u1', 'edited'), 'edit u3': ('edit', 'u3', 'edited', '--review'),
    'add a': ('input', 'add', 'n', 'a', '-w', 'ws'), 'add u2': ('input', 'add', 'n', 'u2', '-w', 'ws'), 'add over': ('input', 'add', 'x', 'c', '-w', 'ws'),
    'update': ('input', 'update', '-w', 'ws'), 'update x': ('input', 'update', 'x', '-w', 'ws'), 'next': ('input', 'update', 'x', '--next', '-w', 'ws'), 'prev': ('input', 'update', 'x', '--prev', '-w', 'ws'),
    'load': ('input', 'load', '-w', 'ws'), 'load y': ('input', 'load', 'y', '-w', 'ws'), 'status': ('status', '-v', '-w', 'ws'), 'web': ('web', 'save', 'web.csv'), 'web color': ('web', 'color', '/', 'a', 'c', '..'),
}


def place(world, sc, n, state):
    d = world.path('boxes', NAMES[n])
    os.makedirs(world.path('boxes'), exist_ok=True)
    if state in GOOD:
        restore(d, sc.tree[n, state])
    elif state in ('empty', 'empty indexed'):
        restore(d, sc.tree[3, 'indexed' if 'indexed' in state else 'ok'])
    elif state == 'file':
        lib.write_tree(world.path('boxes'), {NAMES[n]: b'a file'})
    elif state in ('unreadable', 'unreadable indexed', 'list only', 'access only'):
        restore(d, sc.tree[n, 'indexed' if 'indexed' in state or state == 'list only' else 'ok'])
        os.chmod(d, {'list only': 0o444, 'access only': 0o311}.get(state, 0))
    elif state in ('closed index', 'odd index'):
        restore(d, sc.tree[n, 'indexed' if state == 'closed index' else 'ok'])
        if state == 'closed index':
            os.chmod(os.path.join(d, '.index.sqlite'), 0)
        else:
            os.mkdir(os.path.join(d, '.index.sqlite'))
    elif state == 'dangling':
        os.symlink('nowhere', d)
    elif state == 'below file':
        lib.write_tree(world.path('boxes'), {NAMES[n] + '.f': b'a file'})
        return world.path('boxes', NAMES[n] + '.f', 'box')
    elif state == 'closed parent':
        p = world.path('boxes', NAMES[n] + '.d')
        os.mkdir(p)
        restore(os.path.join(p, 'box'), sc.tree[n, 'ok'])
        os.chmod(p, 0)
        return os.path.join(p, 'box')
    return d


def make(w, sc, states):
    world = World(w.fresh())
    dirs = [place(world, sc, n, s) for n, s in enumerate(states)]
    restore(world.path('ws'), sc.ws)
    return world, dirs


def run(w, sc, world, boxes, name):
    """(result, output, trees of the user's files) with the known boxes"""
    world.set_boxes(boxes)
    root = world.root
    o = w.cli(world, *COMMANDS[name], cwd=root, clock=lib.T0)
    trees = {d: snap(world.path(d)) for d in ('ws', 'edited', 'home')}
    web = world.path('web.csv')
    files = {}
    for f in sorted(os.listdir(root)):
        if f.startswith('web'):
            with open(os.path.join(root, f), 'rb') as fh:
                files[f] = fh.read()
            os.unlink(os.path.join(root, f))
    restore(world.path('edited'), {})
    restore(world.path('ws'), sc.ws)
    return o, (o.kind, o.value if o.kind == 'exit' else None, o.exc, o.out.replace(root, ''), o.err.replace(root, '')), trees, files


def reference(w, states, name):
    """the same without the unavailable boxes"""
    sc = w.ctx.sc
    key = tuple(s if s in GOOD else None for s in states), name
    if not hasattr(w, 'memo'):
        w.memo = {}
    if key not in w.memo:
        raise KeyError(key)
    return w.memo[key]


def judge(w, case):
    """all the distributions of bad states over the places left by the good ones"""
    good, rest, names = case
    sc = w.ctx.sc
    w.memo = {}
    plain = tuple(s or 'missing' for s in good)
    world, dirs = make(w, sc, plain)
    for name in names:
        ref = run(w, sc, world, [(n, d) for n, d, s in zip(NAMES, dirs, good) if s], name)
        w.memo[name] = ref
    # what the reference run must be able to do
    have = [i for n, s in enumerate(good) if s for i in sc.boxes[n]]
    for name, want in (('edit a', 'a'), ('edit u1', 'u1'), ('edit u3', 'u3'), ('add a', 'a'), ('add u2', 'u2'), ('add over', 'c')):
        if name in w.memo:
            possible = any(i.name == want for i in have)
            w.check(w.memo[name][0].ok == possible, f'{name} with boxes {good} {"fails" if possible else "succeeds"}', 'reference', outcome=w.memo[name][0])
    for states in rest:
        world, dirs = make(w, sc, states)
        before = snap(world.path('boxes'))
        for name in names:
            w.count('evaluations')
            o, result, trees, files = run(w, sc, world, list(zip(NAMES, dirs)), name)
            ro, rresult, rtrees, rfiles = w.memo[name]
            label = f'{name} with boxes {states}'
            w.distinct('nontrivial', label)
            w.check(o.kind == ro.kind and o.ok == ro.ok, f'{label}: {o.kind} {o.exc} {o.message}', 'blocked', outcome=o, reference=ro)
            w.check(trees == rtrees, f'{label}: differs from not knowing the unavailable ones: {[diff(rtrees[d], trees[d]) for d in trees if trees[d] != rtrees[d]]}', 'effect', outcome=o, reference=ro)
            w.check(files == rfiles, f'{label}: writes something else than without the unavailable ones', 'file', outcome=o, got=files, reference=rfiles)
            w.check(result[3] == rresult[3], f'{label}: prints something else than without the unavailable ones', 'output', outcome=o, reference=ro)
        after = snap(world.path('boxes'))
        w.check(before == after, f'boxes {states} are changed: {diff(before, after)}', 'boxes')
    w.sample({'good': good, 'bad': len(rest), 'commands': len(names)})


# ----------------------------------------------------------------- indexing, saving
def judge_index(w, case):
    states, command = case
    sc = w.ctx.sc
    world, dirs = make(w, sc, states)
    world.set_boxes(list(zip(NAMES, dirs)))
    before = snap(world.path('boxes'))
    o = w.cli(world, 'box', command, '--all', clock=lib.T0)
    label = f'box {command} --all with {states}'
    w.count('evaluations')
    w.distinct('nontrivial', label)
    w.check(o.kind in ('ret', 'exit'), f'{label} ends in {o.kind} {o.exc} {o.message}', 'blocked', outcome=o)
    after = snap(world.path('boxes'))
    for n, s in enumerate(states):
        a, b = lib.subtree(after, NAMES[n]), lib.subtree(before, NAMES[n])
        if s in GOOD or s.startswith('empty'):
            w.check('.index.sqlite' in a, f'{label} does not index {NAMES[n]}', 'not-indexed', outcome=o)
            a, b = ({k: v for k, v in t.items() if not k.startswith('.index')} for t in (a, b))
            w.check(a == b, f'{label} changes {diff(b, a)}', 'changes')
        elif s in ('missing', 'file', 'dangling', 'unreadable', 'below file', 'closed parent'):
            w.check(a == b, f'{label} changes {diff(b, a)}', 'changes')
    lst = lib.listing(w, world)
    want = sorted(lib.info_tuple(i, NAMES[n]) for n, s in enumerate(states) if s in GOOD for i in sc.boxes[n])
    w.check(lst.kind == 'ret' and lst.value == want, f'{label}: afterwards {lst.value or lst.exc} is found', 'listing', outcome=lst)


BAD_SAVE = ('missing', 'file', 'dangling', 'below file', 'closed parent', 'unreadable', 'unreadable indexed', 'readonly', 'readonly indexed', 'list only')


def judge_save(w, case):
    states, target, named = case
    sc = w.ctx.sc
    world, dirs = make(w, sc, [s if 'readonly' not in s else 'indexed' if 'indexed' in s else 'ok' for s in states])
    for n, s in enumerate(states):
        if 'readonly' in s:
            os.chmod(dirs[n], 0o555)
    boxes = list(zip(NAMES, dirs))
    if not named:
        boxes = [boxes[target]]
    world.set_boxes(boxes)
    before = snap(world.root)
    o = w.cli(world, 'save', *([NAMES[target]] if named else []), '-w', world.path('ws'), clock=lib.T0)
    after = snap(world.root)
    label = f'save into box {target} of {states}, {"by name" if named else "as the only one"}'
    w.count('evaluations')
    w.distinct('nontrivial', label)
    if states[target] in BAD_SAVE:
        w.check(o.failed, f'{label} does not fail: {o.kind}', 'accepts', outcome=o)
        w.check(o.err or o.exc, f'{label} gives no error', 'silent', outcome=o)
        w.check(before == after, f'{label} changes {diff(before, after)}', 'changes')
        return
    w.check(o.ok, f'{label} fails', 'blocked', outcome=o)
    new = [k for k in after if k not in before and '.index' not in k]
    w.check(len(new) == 1 and new[0].startswith(f'boxes/{NAMES[target]}/ws_'), f'{label} makes {new}', 'save', outcome=o)
    if any(s == 'access only' for s in states):
        return
    lst = lib.listing(w, world)
    w.check(lst.kind == 'ret' and [t for t in lst.value if t[0] == 'ws' and t[4] == NAMES[target]], f'{label}: not found afterwards: {lst.value or lst.exc}', 'lost', outcome=lst)


def main(ctx):
    ctx.level = LEVEL
    ctx.sc = ctx.setup(setup)
    few = ('ok', 'indexed', 'missing', 'unreadable', 'file')
    all3 = set(itertools.product(few, repeat=3)) if ctx.quick else set(itertools.product(STATES, repeat=3))
    if ctx.quick:
        for n, (a, b, c) in enumerate(itertools.product(STATES, STATES, ('ok', 'missing'))):
            all3.add(((a, b, c), (c, a, b), (b, c, a))[n % 3])
    groups = {}
    for states in sorted(all3):
        good = tuple(s if s in GOOD else None for s in states)
        if None in good:
            groups.setdefault(good, []).append(states)
    names = list(COMMANDS)
    cases = []
    for good, rest in sorted(groups.items(), key=repr):
        size = 6
        for i in range(0, len(rest), size):
            cases.append((good, rest[i:i + size], names if not ctx.quick else names[len(cases) % 2::2]))
    ctx.pmap(judge, cases, 'commands')
    cases = [(s, c) for s in itertools.product(('ok', 'missing', 'file', 'unreadable', 'dangling', 'empty', 'below file', 'indexed', 'closed parent'), repeat=2 if ctx.quick else 3)
             for c in ('index', 'reindex')]
    cases = [(s if len(s) == 3 else s[:1] + ('ok',) + s[1:], c) for s, c in cases]
    ctx.pmap(judge_index, cases, 'index')
    cases = []
    targets = BAD_SAVE + ('ok', 'indexed', 'empty', 'empty indexed')
    for t, others, pos in itertools.product(targets, [('ok', 'missing'), ('unreadable', 'indexed'), ('file', 'dangling'), ('closed parent', 'below file')], range(3)):
        states = list(others)
        states.insert(pos, t)
        cases += [(tuple(states), pos, True)]
        if others[0] == 'ok':
            cases += [(tuple(states), pos, False)]
    ctx.pmap(judge_save, cases, 'save')
    ctx.coverage['rule'] = NOTE
