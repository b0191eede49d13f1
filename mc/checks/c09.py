"""C09: the box registry survives interruption.

`box add`, `box forget` and a `save` that creates the first box, killed at and
inside every changing call and run with every call failing, from several
registries; then the list must read as before or after, and be changeable."""
import errno
import os

from fw import ALLOCATING, ANYOP, Arm, C_SYNC, M_COUNT, M_CRASH, M_FAULT, MUTATING, World, op_lines, snap
import lib

LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive enumeration of crash points, torn writes and failing system calls of the real registry commands, recovery run after each'
NOTE = ('One crash or one failing call (or all calls of a class from one on) per execution; thorough: pairs of crashes. '
        'Process crash model, no power loss.')

CRASHMASK = MUTATING | C_SYNC
STARTS = {
    'none': [],
    'noconfig': [],
    'one': [('a', 'boxa')],
    'three': [('a', 'boxa'), ('b b', 'boxb'), ('\u00e9\u00fc', 'boxc')],
    'link': [('a', 'boxa'), ('b b', 'boxb')],
    'readonly': [('a', 'boxa')],
}
COMMANDS = {
    'add': ('box', 'add', 'new', '<ROOT>/boxn'),
    'forget-first': ('box', 'forget', 'a'),
    'forget-last': ('box', 'forget', '\u00e9\u00fc'),
    'save': ('save', '-w', '<ROOT>/ws'),
}
USED = {'none': ('add', 'save'), 'noconfig': ('add', 'save'), 'one': ('add', 'forget-first'), 'three': ('add', 'forget-first', 'forget-last'),
        'link': ('add', 'forget-first'), 'readonly': ('add', 'forget-first')}


def build(w, start, root=None):
    root = root or w.fresh()
    world = World(root)
    for d in ('boxa', 'boxb', 'boxc', 'boxn'):
        os.mkdir(world.path(d))
    ws = world.path('ws')
    lib.restore(ws, w.ctx.ws) if hasattr(w.ctx, 'ws') else None
    world.set_boxes([(n, world.path(d)) for n, d in STARTS[start]])
    env = os.path.join(world.config, 'env.json')
    if start in ('none', 'noconfig'):
        os.unlink(env)
    if start == 'noconfig':
        os.rmdir(world.config)
    if start == 'link':
        os.mkdir(world.path('real'))
        os.rename(env, world.path('real', 'e.json'))
        os.symlink(world.path('real', 'e.json'), env)
    if start == 'readonly':
        os.chmod(env, 0o400)
    return world


def after(root, start, command):
    boxes = [(n, os.path.join(root, d)) for n, d in STARTS[start]]
    if command == 'add':
        return boxes + [('new', os.path.join(root, 'boxn'))]
    if command == 'save':
        return [('home', os.path.join(root, 'home', 'BeadBox'))]
    gone = COMMANDS[command][2]
    return [b for b in boxes if b[0] != gone]


def _boxes(config):
    from bead_cli.environment import Environment
    return [(b.name, str(b.location)) for b in Environment.from_dir(config).get_boxes()]


def boxes(w, world):
    return w.fork(_boxes, world.config)


def arm(world, mode, **kw):
    return Arm(mode, (world.config, world.path('real'), world.path('home', 'BeadBox')), kw.pop('mask'), **kw)


def setup_ws(w):
    world = World(w.fresh())
    w.check(w.cli(world, 'new', world.path('ws'), clock=lib.T0).ok, 'new fails', 'setup')
    return snap(world.path('ws'))


def setup(w):
    points = {}
    for start in STARTS:
        for command in USED[start]:
            world = build(w, start)
            o = w.cli(world, *lib.fill(world.root, COMMANDS[command]), clock=lib.T0, arm=arm(world, M_COUNT, mask=CRASHMASK))
            w.check(o.ok, f'{start}: {command} fails', 'setup', outcome=o)
            got = boxes(w, world)
            w.check(got.value == after(world.root, start, command), f'{start}: {command} gives a wrong list', 'plain', got=got)
            writes = {n for n, op, _, _ in op_lines(o.log) if 'write' in op}
            n = o.count
            world = build(w, start)
            o = w.cli(world, *lib.fill(world.root, COMMANDS[command]), clock=lib.T0, arm=arm(world, M_COUNT, mask=ANYOP))
            points[start, command] = (n, writes, o.count)
    return points


def judge(w, world, start, command, label, o, usable=True):
    before = [(n, world.path(d)) for n, d in STARTS[start]]
    got = boxes(w, world)
    w.check(got.kind == 'ret', f'{label}: the box list can not be read', 'unreadable', outcome=o, reading=got)
    new = after(world.root, start, command)
    w.check(got.value in (before, new), f'{label}: the box list is neither the old nor the new one', 'list', outcome=o,
            got=got.value)
    if usable:
        # the list can be changed again
        os.makedirs(world.path('boxz'), exist_ok=True)
        o2 = w.cli(world, 'box', 'add', 'z', world.path('boxz'))
        got2 = boxes(w, world)
        w.check(o2.ok and got2.value == got.value + [('z', world.path('boxz'))], f'{label}: the box list can not be changed any more',
                'unusable', outcome=o2, got=got2)
    return 'after' if got.value == new else 'before'


def crash_case(w, c):
    start, command, crashes = c
    world = build(w, start)
    label = f'{start}: {command}'
    for run, (at, variant) in enumerate(crashes):
        # each attempt later than the one before: the time is in the archive's name
        o = w.cli(world, *lib.fill(world.root, COMMANDS[command]), clock=lib.T0 + 60 * lib.NS * run,
                  arm=arm(world, M_CRASH, mask=CRASHMASK, at=at, variant=variant))
        label += f' killed at {at}/{variant}'
        w.count(f'crash_{o.kind}')
    w.check(o.kind in ('crash', 'ret', 'exit'), f'{label}: ends in {o.kind}', 'died', outcome=o)
    w.count('evaluations')
    w.distinct('nontrivial', c)
    state = judge(w, world, start, command, label, o)
    w.count(f'list_{state}')
    w.sample({'crash': label, 'list': state})


def fault_case(w, c):
    start, command, at, err, sticky = c
    world = build(w, start)
    o = w.cli(world, *lib.fill(world.root, COMMANDS[command]), clock=lib.T0,
              arm=arm(world, M_FAULT, mask=ANYOP, at=at, err=err, sticky=1 if sticky else 0, stickymask=sticky))
    label = f'{start}: {command}: call {at} fails with {errno.errorcode[err]}{" for good" if sticky else ""}'
    w.count('evaluations')
    w.count('fault_ok' if o.ok else 'fault_failed')
    w.distinct('nontrivial', c)
    w.check(o.kind in ('ret', 'exit', 'exc'), f'{label}: ends in {o.kind}', 'died', outcome=o)
    state = judge(w, world, start, command, label, o)
    if o.ok and command != 'save':
        # reported as done
        said = any(word in o.out for word in ('Will remember', 'is forgotten'))
        w.check(said == (state == 'after'), f'{label}: reports {"success" if said else "failure"} but the list is the one {state}', 'report', outcome=o)


def main(ctx):
    ctx.ws = ctx.setup(setup_ws)
    ctx.points = ctx.setup(setup)
    cases, faults = [], []
    for (start, command), (n, writes, nf) in ctx.points.items():
        single = [(at, v) for at in range(1, n + 2) for v in range(4) if v == 0 or at in writes]
        cases += [(start, command, (x,)) for x in single]
        if not ctx.quick:
            cases += [(start, command, (x, y)) for x in single for y in [(at, v) for at in range(1, n + 3) for v in range(4)]]
        kinds = [(errno.EIO, 0), (errno.ENOSPC, ALLOCATING), (errno.EACCES, 0), (errno.EIO, ANYOP)]
        if not ctx.quick:
            kinds += [(errno.ESTALE, 0), (errno.EROFS, MUTATING), (errno.EMFILE, 0), (errno.ENOSPC, 0)]
        faults += [(start, command, at, err, sticky) for at in range(1, nf + 3) for err, sticky in kinds]
    ctx.pmap(crash_case, cases, name='crashes')
    ctx.pmap(fault_case, faults, name='faults')
    ctx.coverage['rule'] = ('box add, forget, implicit box creation from 6 registries: killed at every changing call and in every write, '
                            'and with every call failing; afterwards a box is added')
    ctx.coverage['points'] = {f'{s} {c}': (n, nf) for (s, c), (n, _, nf) in ctx.points.items()}
