"""C07: interrupted or failing commands never corrupt workspace metadata.

Every input command is killed at (and inside) every changing system call, and
run with every system call failing; `new` and `edit` are killed everywhere.
Afterwards the real code must read a state from before or after the command."""
import errno
import os

from fw import ALLOCATING, ANYOP, Arm, C_SYNC, M_COUNT, M_CRASH, M_FAULT, MUTATING, op_lines, snap
import lib
import scenes

LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive enumeration of crash points, torn writes and failing system calls of the real input, new and edit commands'
NOTE = ('One crash or one failing call (or all calls of a class from one on) per execution; thorough: also every command after every '
        'crash. Process crash model, no power loss.')

CRASHMASK = MUTATING | C_SYNC
CREATE = {
    'new': ('new', '<ROOT>/fresh'),
    'edit': ('edit', 'aa', '<ROOT>/fresh'),
    'edit-review': ('edit', '--review', 'aa', '<ROOT>/fresh'),
}


def argv_of(world, name):
    if name in CREATE:
        return lib.fill(world.root, CREATE[name])
    return ['input', *scenes.COMMANDS[name], '-w', world.ws]


def roots(world, name, fault):
    rs = (world.path('fresh'),) if name in CREATE else (world.ws,)
    return rs + ((world.path('box'), world.config) if fault else ())


def setup(w):
    sc = scenes.input_scene(w)
    sc.points, sc.writes, sc.fpoints, sc.alloc = {}, {}, {}, {}
    for name in (*scenes.COMMANDS, *CREATE):
        world = lib.world_of(w, sc.image)
        o = w.cli(world, *argv_of(world, name), clock=lib.T0, arm=Arm(M_COUNT, roots(world, name, False), CRASHMASK))
        w.check(o.ok, f'{name} fails', 'setup', outcome=o)
        sc.points[name] = o.count
        sc.writes[name] = {n for n, op, _, _ in op_lines(o.log) if 'write' in op}
        world = lib.world_of(w, sc.image)
        o = w.cli(world, *argv_of(world, name), clock=lib.T0, arm=Arm(M_COUNT, roots(world, name, True), ANYOP))
        sc.fpoints[name] = o.count
        sc.alloc[name] = {n for n, op, _, _ in op_lines(o.log) if op in ('create', 'write', 'mkdir', 'link')}
    return sc


def judge_inputs(w, sc, world, names, label, o):
    """the references must be those before or after any prefix of the commands"""
    s = scenes.ws_state(w, world.ws, 'nxyz')
    w.check(s.kind == 'ret', f'{label}: the workspace metadata can not be read', 'unreadable', outcome=o, state=s)
    valid, kind, inputs, loaded = s.value
    w.check(valid, f'{label}: the workspace is not valid any more', 'invalid', outcome=o)
    w.check(kind == sc.kind, f'{label}: the kind is changed', 'kind', outcome=o)
    allowed = [sc.before] + [sc.after[n] for n in names]
    for nick in set().union(inputs, *allowed):
        w.check(any(inputs.get(nick) == a.get(nick) for a in allowed), f'{label}: reference of {nick} is neither the old nor the new one',
                'reference', outcome=o, got=inputs.get(nick), allowed=[a.get(nick) for a in allowed])
    w.check(set(lib.ws_meta(world.ws)) == {'kind', 'inputs'}, f'{label}: metadata has other content', 'other')
    return inputs, loaded


def judge_create(w, sc, world, name, label, o, fault):
    ws = world.path('fresh')
    s = scenes.ws_state(w, ws)
    w.check(s.kind == 'ret', f'{label}: left a valid workspace with unreadable metadata', 'create-unreadable', outcome=o, state=s)
    valid, kind, inputs, loaded = s.value
    if valid:
        w.count('created')
        w.check(isinstance(kind, str) and kind, f'{label}: workspace without kind', 'create-kind', outcome=o)
        if name == 'new':
            w.check(inputs == {}, f'{label}: new workspace with inputs', 'create-inputs', outcome=o)
        else:
            # (an unreadable archive in the box is not considered by edit)
            w.check(kind == sc.a2.kind and inputs in ({'i': sc.a1.spec()},) + (({},) if fault else ()), f'{label}: edited workspace with wrong metadata', 'create-meta',
                    got=inputs)


def judge(w, sc, world, names, label, o, fault=False):
    w.check(snap(world.path('box')) == lib.subtree(sc.image.tree, 'box'), f'{label}: the box is changed', 'box', outcome=o)
    if names[0] in CREATE:
        judge_create(w, sc, world, names[0], label, o, fault)
    else:
        judge_inputs(w, sc, world, names, label, o)


def crash_case(w, c):
    name, at, variant = c
    sc = w.ctx.sc
    world = lib.world_of(w, sc.image)
    o = w.cli(world, *argv_of(world, name), clock=lib.T0,
              arm=Arm(M_CRASH, roots(world, name, False), CRASHMASK, at=at, variant=variant))
    label = f'{name} killed at {at}/{variant}'
    w.count('evaluations')
    w.count(f'crash_{o.kind}')
    w.distinct('nontrivial', c)
    w.check(o.kind in ('crash', 'ret'), f'{label}: ends in {o.kind}', 'died', outcome=o)
    judge(w, sc, world, [name], label, o)
    w.sample({'crash': label, 'references': sorted(lib.ws_inputs(world.ws))})


def fault_case(w, c):
    name, at, err, sticky = c
    sc = w.ctx.sc
    world = lib.world_of(w, sc.image)
    o = w.cli(world, *argv_of(world, name), clock=lib.T0,
              arm=Arm(M_FAULT, roots(world, name, True), ANYOP, at=at, err=err, sticky=1 if sticky else 0, stickymask=sticky))
    label = f'{name}: call {at} fails with {errno.errorcode[err]}{" for good" if sticky else ""}'
    w.count('evaluations')
    w.count('fault_ok' if o.ok else 'fault_failed')
    w.distinct('nontrivial', c)
    w.check(o.kind in ('ret', 'exit', 'exc'), f'{label}: ends in {o.kind}', 'died', outcome=o)
    judge(w, sc, world, [name], label, o, True)


def then_case(w, c):
    """a command after a crashed command"""
    name, at, name2 = c
    sc = w.ctx.sc
    world = lib.world_of(w, sc.image)
    o = w.cli(world, *argv_of(world, name), clock=lib.T0, arm=Arm(M_CRASH, roots(world, name, False), CRASHMASK, at=at))
    w.check(o.kind in ('crash', 'ret'), f'{name} ends in {o.kind}', 'died', outcome=o)
    # the state after the second command: what it gives from either state per input is allowed by judge()
    o2 = w.cli(world, *argv_of(world, name2), clock=lib.T0)
    label = f'{name} killed at {at}, then {name2}'
    w.count('evaluations')
    w.distinct('nontrivial', c)
    w.check(o2.kind in ('ret', 'exit'), f'{label}: ends in {o2.kind}', 'then-died', outcome=o2)
    s = scenes.ws_state(w, world.ws, 'nxyz')
    w.check(s.kind == 'ret' and s.value[0] and s.value[1] == sc.kind, f'{label}: the workspace is corrupt', 'then-corrupt', outcome=s)
    known = {i.cid: i.spec() for i in sc.infos}
    for nick, spec in s.value[2].items():
        w.check(known.get(spec['content_id']) == spec, f'{label}: reference of {nick} is mixed', 'then-mixed', got=spec)


def main(ctx):
    sc = ctx.sc = ctx.setup(setup)
    cases = [(name, at, v) for name in sc.points for at in range(1, sc.points[name] + 2) for v in range(4)
             if v == 0 or at in sc.writes[name]]
    ctx.pmap(crash_case, cases, name='crashes')
    kinds = [(errno.EIO, 0), (errno.ENOSPC, ALLOCATING)]
    if not ctx.quick:
        kinds += [(errno.EACCES, 0), (errno.ENOSPC, 0), (errno.EIO, ANYOP), (errno.EROFS, MUTATING), (errno.EMFILE, 0)]
    cases = [(name, at, err, sticky) for name in sc.fpoints for at in range(1, sc.fpoints[name] + 3) for err, sticky in kinds
             if not (ctx.quick and sticky) or at in sc.alloc[name]]
    ctx.pmap(fault_case, cases, name='faults')
    if not ctx.quick:
        cases = [(name, at, name2) for name in scenes.COMMANDS for at in range(1, sc.points[name] + 1) for name2 in scenes.COMMANDS]
        ctx.pmap(then_case, cases, name='after a crash')
    ctx.coverage['rule'] = ('14 input commands, new, edit and edit --review: killed at every changing call and in every write (3 prefixes), '
                            'and with every call failing')
    ctx.coverage['crash_points'] = sc.points
    ctx.coverage['fault_points'] = sc.fpoints
