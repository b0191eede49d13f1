"""C39: saving or looking at a workspace while its inputs change.

A real `save` or `status` and a real input command run in one workspace under a
scheduler that stops them before each of their file operations; all schedules
up to a number of preemptions are executed. The reader must show a state that
was there, and the writer's result must be what it is without the reader."""
import itertools
import json
import os
import re

import fw
from fw import diff, snap
import lib
import scenes
import sched

LEVEL = 'model_checking'
TECHNIQUE = 'stateless model checking of the real commands: exhaustive preemption-bounded enumeration of interleavings of their file operations'
NOTE = ('One reading and one changing command, preemption bound 1 (thorough: 2, and 1 with two readers); scheduling points are all file operations '
        'in the workspace and the box but reads. Two commands that change one workspace at the same time are not judged (there is no locking).')

READERS = {'save': ('save',), 'status': ('status', '-v')}
WRITERS = ('add-new', 'add-over', 'update-newest', 'update-unloaded', 'load', 'unload', 'delete', 'delete-unloaded', 'unload-all', 'update-all')
BLOCK = re.compile(r'^input/(\S+)\n\tStatus: +(\S.*)\n\tBead: +(\S+) # (\S+)\n\tKind: +(\S+)\n\tContent id: +(\S+)$', re.M)


def processes(world, commands):
    out = []
    for n, c in enumerate(commands):
        argv = READERS.get(c) or ('input', *scenes.COMMANDS[c])
        # (every process has its own clock)
        out.append((fw.run_cli, (world.config, [*argv, '-w', world.ws]),
                    {'cwd': world.home, 'env': dict(world.env), 'clock': lib.T0 + n * 1000_000}))
    return out


def execute(w, case):
    commands, order, preempt = case
    ctx = w.ctx
    sc = ctx.sc
    world = lib.world_of(w, sc.image)
    box = world.path('box')
    r = sched.run(w, (world.ws, box), processes(world, commands), order, preempt)
    label = f'{" | ".join(commands)}, order {order}, switches {preempt}'
    w.count('transitions', len(r.trace))
    w.count('schedules')
    w.count('traces_validated_against_impl')
    w.check(not r.stuck, f'{label}: {r.stuck}', 'stuck')
    where = {step: (t[2], t[3]) for step, t in enumerate(r.trace)}
    label += ' (' + ', '.join(f'before {where[s][0]} {os.path.basename(where[s][1])}' for s, _ in preempt if s in where) + ')'
    writer = commands[-1]
    for c, o in zip(commands, r.outcomes):
        w.check(o.ok, f'{label}: {c} fails: {o.kind} {o.exc} {o.message} {o.err[-200:]}', f'fails:{c}', outcome=o)
    # the writer is not disturbed
    after = snap(world.ws)
    w.check(after == ctx.alone[writer], f'{label}: {writer} leaves another workspace than it does alone', f'writer:{writer}',
            diff=diff(ctx.alone[writer], after))
    records = (sc.before, sc.after[writer])
    for c, o in zip(commands[:-1], r.outcomes):
        if c == 'status':
            got = {m[0]: dict(kind=m[4], content_id=m[5], freeze_time=m[3]) for m in BLOCK.findall(o.out)}
            w.check(got in records, f'{label}: status shows inputs that never were: {got}', 'status', outcome=o)
            w.check(all(m[1] in ('loaded', '**NOT LOADED**') for m in BLOCK.findall(o.out)), f'{label}: status shows an odd state', 'status-state', outcome=o)
    new = [f for f in lib.zips(box) if f not in [i.file for i in sc.infos]]
    saves = commands.count('save')
    w.check(len(new) == saves, f'{label}: saved archives: {new}', 'saved')
    for i in sc.infos:
        with open(os.path.join(box, i.file), 'rb') as f:
            w.check(f.read() == i.data, f'{label}: {i.file} is changed', 'archive')
    if new:
        lst, facts = lib.observe(w, world, [os.path.join(box, f) for f in new])
        for p, (valid, t) in facts.items():
            w.check(valid == 'valid', f'{label}: the saved bead is damaged: {t}', 'invalid')
            inputs = {n: dict(kind=k, content_id=c, freeze_time=ts) for n, k, c, ts in t[4]}
            w.check(inputs in records, f'{label}: a bead is saved with inputs that never were: {inputs}', 'inputs')
            w.check(t[:2] == ('ws', sc.kind), f'{label}: saved {t}', 'meta')
            with open(p, 'rb') as f:
                code, out = lib.code_and_output_of(f.read())
            w.check((code, out) == ctx.content, f'{label}: saved other files: {sorted(code)} {sorted(out)}', 'content')
            w.distinct('outcomes', (writer, 'saved', inputs == records[0]))
        w.check(isinstance(lst, list) and len(lst) == len(sc.infos) + saves, f'{label}: afterwards other beads are found', 'lost', found=lst)
    w.distinct('nontrivial', repr(case))
    if not preempt:
        w.sample({'run': label, 'operations': len(r.trace), 'trace': [f'{t[0]} {t[2]} {os.path.basename(t[3])}' for t in r.trace[:12]]})
    trace = [(p, cls, op, path.replace(world.root + '/', ''), arg, able)
             for p, cls, op, path, arg, able in r.trace]
    shared, known = ctx.shared.get(commands, (frozenset(), frozenset()))
    return sched.contended(trace), sched.paths(trace), sched.branches(trace, preempt, shared, known, True)


def explore(ctx, sets, bound):
    ctx.shared = {}
    base = [(c, o, ()) for c in sets for o in itertools.permutations(range(len(c)))]

    def learn(cases, results):
        grown = set()
        for case, res in zip(cases, results):
            if res:
                shared, known = ctx.shared.get(case[0], (frozenset(), frozenset()))
                if not res[0] <= shared:
                    grown.add(case[0])
                ctx.shared[case[0]] = (shared | res[0], known if case[2] else known | res[1])
        return grown

    learn(base, ctx.pmap(execute, base, name='no switches'))
    again, rounds = set(sets), 0
    while again and not ctx.violations:
        todo, grown = [c for c in base if c[0] in again], set()
        for depth in range(bound + 1):
            results = ctx.pmap(execute, todo, name=f'round {rounds}, {depth} switches')
            grown |= learn(todo, results)
            todo = [(*c[:2], p) for c, res in zip(todo, results) if res for p in res[2]]
        again = grown
        rounds += 1
    ctx.coverage.setdefault('explored', []).append({'sets of commands': len(sets), 'switches': bound})


def main(ctx):
    ctx.sc = ctx.setup(scenes.input_scene)

    def alone(w, writer):
        world = lib.world_of(w, ctx.sc.image)
        ctx_content = lib.code_and_output(world.ws)
        o = w.cli(world, 'input', *scenes.COMMANDS[writer], '-w', world.ws, clock=lib.T0)
        w.check(o.ok, f'{writer} fails', 'alone', outcome=o)
        return snap(world.ws), ctx_content
    results = ctx.pmap(alone, WRITERS, name='alone')
    ctx.alone = {c: r[0] for c, r in zip(WRITERS, results) if r}
    ctx.content = results[0][1]
    pairs = [(r, wr) for r in READERS for wr in WRITERS]
    if ctx.quick:
        explore(ctx, pairs, 1)
    else:
        explore(ctx, pairs, 2)
        explore(ctx, [('save', 'status', wr) for wr in WRITERS] + [('save', 'save', wr) for wr in ('update-newest', 'delete')], 1)
    ctx.stats.n['states'] += ctx.stats.n['schedules']
