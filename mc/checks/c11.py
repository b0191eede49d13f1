"""C11: loaded inputs and the input directory stay write protected.

Explores all workspace states under input commands (as an unprivileged user)
and every failing data operation of every input command; after each command
the modes below input/ are judged and further commands have to work."""
import errno
import os

from fw import (ALLOCATING, Arm, C_CREATE, C_DIR, C_LINK, C_MKDIR, C_OPEN, C_READ, C_RENAME, C_RMDIR, C_UNLINK, C_WRITE, M_COUNT,
                M_FAULT, op_lines, snap)
import inputs
import lib
import scenes

LEVEL = 'model_checking'
TECHNIQUE = ('explicit state exploration of the real input commands to a fixed point, plus exhaustive enumeration of failing system '
             'calls, judging the file modes after every command')
NOTE = ('Runs unprivileged. Failing calls: all that read, create, write, rename or remove; not stat and chmod themselves, without '
        'which nothing can be protected. One failure (or persistent failure of a class) per execution.')

DATAOPS = C_CREATE | C_WRITE | C_RENAME | C_UNLINK | C_MKDIR | C_RMDIR | C_LINK | C_OPEN | C_READ | C_DIR


def writable(tree, loaded):
    """writable paths among those that have to be protected"""
    bad = []
    for k, (kind, mode, _) in tree.items():
        if kind == 'l':
            continue
        if k == 'input' or (k.startswith('input/') and k.split('/')[1] in loaded):
            if mode & 0o200:
                bad.append(k)
    return sorted(bad)


def judge(w, st, world, state, op, state2, tree, new, o, label):
    bad = writable(new, {n for n, b, l in state2 if l})
    w.check(not bad, f'{label}: writable: {bad[:3]}', f'writable:{op[0]}', outcome=o, writable=bad)
    if state2 != state:
        w.check(o.ok, f'{label} fails for an unprivileged user', f'works:{op[0]}', outcome=o)
    w.count('traces_validated_against_impl')
    w.count('evaluations')
    w.sample({'state': state, 'command': op, 'next': state2})


def argv_of(world, name):
    return ['input', *scenes.COMMANDS[name], '-w', world.ws]


def setup(w):
    sc = scenes.input_scene(w)
    sc.points = {}
    for name in scenes.COMMANDS:
        world = lib.world_of(w, sc.image)
        o = w.cli(world, *argv_of(world, name), clock=lib.T0, arm=Arm(M_COUNT, (world.ws, world.path('box')), DATAOPS))
        sc.points[name] = o.count
    return sc


def fault_case(w, c):
    name, at, err, sticky = c
    sc = w.ctx.sc
    world = lib.world_of(w, sc.image)
    o = w.cli(world, *argv_of(world, name), clock=lib.T0,
              arm=Arm(M_FAULT, (world.ws, world.path('box')), DATAOPS, at=at, err=err, sticky=1 if sticky else 0, stickymask=sticky))
    label = f'{name}: call {at} fails with {errno.errorcode[err]}{" for good" if sticky else ""}'
    w.count('evaluations')
    w.count('fault_ok' if o.ok else 'fault_failed')
    w.distinct('nontrivial', c)
    judge_modes(w, world, label, o)
    again = ('unload',) if 'unload' not in name else ('update',)
    o2 = w.cli(world, 'input', *again, '-w', world.ws, clock=lib.T0)
    w.check(o2.ok, f'{label}; then input {again[0]} fails', 'then', outcome=o2, first=o)
    o3 = w.cli(world, 'input', 'load', '-w', world.ws, clock=lib.T0)
    w.check(o3.ok, f'{label}; then input load fails', 'then-load', outcome=o3, first=o)
    judge_modes(w, world, label + '; after further commands', o3)


def judge_modes(w, world, label, o):
    s = scenes.ws_state(w, world.ws, 'nxyz')
    w.check(s.kind == 'ret' and s.value[0], f'{label}: the workspace is broken', 'broken', outcome=s)
    bad = writable(snap(world.ws), {n for n, l in s.value[3].items() if l})
    w.check(not bad, f'{label}: writable: {bad[:3]}', 'fault-writable', outcome=o, writable=bad)


UMASKS = [0, 0o002, 0o022, 0o027, 0o077, 0o007, 0o037]
STEPS = [('input', 'add', 'p', 'aa'), ('input', 'add', 'q', 'bb'), ('input', 'update', 'p', '--prev'), ('input', 'unload', 'p'), ('input', 'load'),
         ('input', 'add', 'p', 'cc'), ('input', 'delete', 'q'), ('input', 'unload'), ('input', 'update')]


def umask_case(w, case):
    """a new and an edited workspace, made and used with these masks"""
    first, then, how = case
    st = w.ctx.st
    world = lib.world_of(w, st.image)
    world.ws = world.path('w2')
    o = w.cli(world, *(('new', world.ws) if how == 'new' else ('edit', 'cc', world.ws) if how == 'edit' else ('edit', '--review', 'cc', world.ws)), clock=lib.T0, umask=first)
    label = f'{how} with umask {first:o}'
    for n in range(len(STEPS) + 1):
        w.check(o.ok, f'{label} fails', 'umask-fails', outcome=o)
        w.count('evaluations')
        loaded = {d for d in os.listdir(os.path.join(world.ws, 'input'))}
        bad = writable(snap(world.ws), loaded)
        w.check(not bad, f'{label}: writable: {bad[:3]}', 'umask-writable', outcome=o)
        if n < len(STEPS):
            label = f'{STEPS[n]} with umask {then:o}, after {how} with {first:o}'
            o = w.cli(world, *STEPS[n], '-w', world.ws, clock=lib.T0, umask=then)
    w.distinct('nontrivial', case)


def main(ctx):
    st = ctx.setup(lambda w: inputs.setting(w, True, ('x', 'xy')))
    ops = inputs.operations(st.nicks, not ctx.quick)
    n, models, layers = inputs.explore(ctx, st, ops, judge)
    ctx.stats.n['states'] += n
    ctx.st = st
    ctx.pmap(umask_case, [(a, b, how) for a in UMASKS for b in UMASKS for how in ('new', 'edit', 'review')], name='umask')
    sc = ctx.sc = ctx.setup(setup)
    kinds = [(errno.EIO, 0)] if ctx.quick else [(errno.EIO, 0), (errno.ENOSPC, ALLOCATING), (errno.EACCES, 0), (errno.EIO, DATAOPS)]
    quick_names = ('add-new', 'add-over', 'update-all', 'load', 'unload', 'delete')
    cases = [(name, at, err, sticky) for name in sc.points if not ctx.quick or name in quick_names
             for at in range(1, sc.points[name] + 2) for err, sticky in kinds]
    ctx.pmap(fault_case, cases, name='faults')
    ctx.coverage['spaces'] = {'real states': n, 'model states': models, 'diameter': layers - 1, 'commands': len(ops)}
    ctx.coverage['points'] = sc.points
