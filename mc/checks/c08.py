"""C08: an input that counts as loaded is complete.

Every input command killed at every changing call or run with every call
failing (also on a workspace with the leftovers of a killed command); then the
files of every loaded input are compared with the recorded version, and
`bead input load` has to complete the others."""
import errno
import os

from fw import ALLOCATING, ANYOP, Arm, M_COUNT, M_CRASH, M_FAULT, MUTATING, op_lines, snap
import lib
import scenes
from checks.c07 import CRASHMASK

LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive enumeration of crash points, torn writes and failing system calls of the real input commands, with recovery'
NOTE = ('One crash or one failing call per execution, also starting from the leftovers of one crash; thorough: also every command '
        'after every crash. Process crash model, no power loss.')


def argv_of(world, name):
    return ['input', *scenes.COMMANDS[name], '-w', world.ws]


def setup(w):
    sc = scenes.input_scene(w)
    sc.images = {'': sc.image}
    # the leftovers of killed commands
    for tag, name, op in (('half-loaded', 'load', 'create'), ('half-unloaded', 'unload', 'unlink'), ('half-added', 'add-over', 'create')):
        world = lib.world_of(w, sc.image)
        o = w.cli(world, *argv_of(world, name), clock=lib.T0, arm=Arm(M_COUNT, (world.ws,), CRASHMASK))
        at = [n for n, o_, p, _ in op_lines(o.log) if o_ == op and '/input/' in p]
        if not at:
            continue
        world = lib.world_of(w, sc.image)
        o = w.cli(world, *argv_of(world, name), clock=lib.T0, arm=Arm(M_CRASH, (world.ws,), CRASHMASK, at=at[len(at) // 2]))
        sc.images[tag] = lib.image_of(world, tag, [('box', 'box')])
    sc.points, sc.writes, sc.fpoints, sc.alloc = {}, {}, {}, {}
    for tag, im in sc.images.items():
        for name in scenes.COMMANDS:
            world = lib.world_of(w, im)
            o = w.cli(world, *argv_of(world, name), clock=lib.T0, arm=Arm(M_COUNT, (world.ws,), CRASHMASK))
            sc.points[tag, name] = o.count
            sc.writes[tag, name] = {n for n, op, _, _ in op_lines(o.log) if 'write' in op}
            world = lib.world_of(w, im)
            o = w.cli(world, *argv_of(world, name), clock=lib.T0, arm=Arm(M_COUNT, (world.ws, world.path('box')), ANYOP))
            sc.fpoints[tag, name] = o.count
            sc.alloc[tag, name] = {n for n, op, _, _ in op_lines(o.log) if op in ('create', 'write', 'mkdir', 'link')}
    return sc


def check_loaded(w, sc, world, label, o, reload=True):
    s = scenes.ws_state(w, world.ws, 'nxyz')
    w.check(s.kind == 'ret' and s.value[0], f'{label}: the workspace is broken', 'broken', outcome=s)
    _, _, inputs, loaded = s.value
    missing = []
    for nick, is_loaded in loaded.items():
        if is_loaded and nick in inputs:
            got = lib.files_below(os.path.join(world.ws, 'input', nick))
            want = sc.outs[inputs[nick]['content_id']]
            w.check(got == want, f'{label}: {nick} counts as loaded with wrong files', 'incomplete', outcome=o,
                    got=sorted(got), want=sorted(want), differ=[k for k in set(got) & set(want) if got[k] != want[k]])
            w.count('loaded')
        elif is_loaded:
            w.check(False, f'{label}: {nick} counts as loaded without a reference', 'unreferenced', outcome=o)
        elif nick in inputs:
            missing.append(nick)
    if reload:
        leftover = set(os.listdir(os.path.join(world.ws, 'input'))) - set(inputs)
        if missing == ['y'] and not leftover:
            missing = []    # the input not loaded to begin with, and nothing in the way
        for nick in missing:
            o2 = w.cli(world, 'input', 'load', nick, '-w', world.ws, clock=lib.T0)
            w.count('completed')
            got = lib.files_below(os.path.join(world.ws, 'input', nick))
            w.check(o2.ok and got == sc.outs[inputs[nick]['content_id']], f'{label}: input load does not complete {nick}', 'reload',
                    outcome=o2, got=sorted(got))
        if missing:
            check_loaded(w, sc, world, label + ', loaded', o, False)
    return inputs, loaded


def crash_case(w, c):
    tag, name, at, variant = c
    sc = w.ctx.sc
    world = lib.world_of(w, sc.images[tag])
    o = w.cli(world, *argv_of(world, name), clock=lib.T0, arm=Arm(M_CRASH, (world.ws,), CRASHMASK, at=at, variant=variant))
    label = f'{tag} {name} killed at {at}/{variant}'.strip()
    w.count('evaluations')
    w.count(f'crash_{o.kind}')
    w.check(o.kind in ('crash', 'ret'), f'{label}: ends in {o.kind}', 'died', outcome=o)
    w.distinct('nontrivial', c)
    inputs, loaded = check_loaded(w, sc, world, label, o)
    w.sample({'crash': label, 'loaded': [n for n, v in loaded.items() if v]})


def fault_case(w, c):
    tag, name, at, err, sticky = c
    sc = w.ctx.sc
    world = lib.world_of(w, sc.images[tag])
    o = w.cli(world, *argv_of(world, name), clock=lib.T0,
              arm=Arm(M_FAULT, (world.ws, world.path('box')), ANYOP, at=at, err=err, sticky=1 if sticky else 0, stickymask=sticky))
    label = f'{tag} {name}: call {at} fails with {errno.errorcode[err]}{" for good" if sticky else ""}'.strip()
    w.count('evaluations')
    w.count('fault_ok' if o.ok else 'fault_failed')
    w.distinct('nontrivial', c)
    w.check(o.kind in ('ret', 'exit', 'exc'), f'{label}: ends in {o.kind}', 'died', outcome=o)
    check_loaded(w, sc, world, label, o)


def then_case(w, c):
    tag, name, at, name2 = c
    sc = w.ctx.sc
    world = lib.world_of(w, sc.images[tag])
    o = w.cli(world, *argv_of(world, name), clock=lib.T0, arm=Arm(M_CRASH, (world.ws,), CRASHMASK, at=at))
    o2 = w.cli(world, *argv_of(world, name2), clock=lib.T0)
    label = f'{name} killed at {at}, then {name2}'
    w.count('evaluations')
    w.distinct('nontrivial', c)
    w.check(o2.kind in ('ret', 'exit'), f'{label}: ends in {o2.kind}', 'then-died', outcome=o2)
    check_loaded(w, sc, world, label, o2)


def main(ctx):
    sc = ctx.sc = ctx.setup(setup)
    quick_names = ('load', 'add-over', 'update-all', 'unload', 'update-next')
    cases = [(tag, name, at, v) for tag, name in sc.points for at in range(1, sc.points[tag, name] + 2) for v in range(4)
             if (v == 0 or (at in sc.writes[tag, name] and not (ctx.quick and v != 2)))
             and not (ctx.quick and tag and (name not in quick_names or tag == 'half-added'))]
    ctx.pmap(crash_case, cases, name='crashes')
    kinds = [(errno.EIO, 0), (errno.ENOSPC, ALLOCATING)]
    if not ctx.quick:
        kinds += [(errno.EACCES, 0), (errno.ENOSPC, 0), (errno.EIO, ANYOP), (errno.EROFS, MUTATING)]
    cases = [(tag, name, at, err, sticky) for tag, name in sc.fpoints for at in range(1, sc.fpoints[tag, name] + 3) for err, sticky in kinds
             if not ctx.quick or ((not sticky or at in sc.alloc[tag, name])
                                  and (name in quick_names and (not tag or (name in ('load', 'unload') and tag != 'half-added'))))]
    ctx.pmap(fault_case, cases, name='faults')
    if not ctx.quick:
        cases = [('', name, at, name2) for name in scenes.COMMANDS for at in range(1, sc.points['', name] + 1) for name2 in scenes.COMMANDS]
        ctx.pmap(then_case, cases, name='after a crash')
    ctx.coverage['rule'] = ('14 input commands from a clean workspace and from the leftovers of 3 killed commands: killed at every changing '
                            'call and in every write, and (quick: 5 commands) with every call failing; load run afterwards')
    ctx.coverage['crash_points'] = {f'{t or "clean"} {n}': v for (t, n), v in sc.points.items()}
