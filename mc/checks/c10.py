"""C10: input commands follow the documented state machine.

Reachability over real workspaces: every command from every reachable state of
the inputs until no new state appears, each transition compared with a model."""
import os

from fw import World, diff
import crowd
import inputs
import lib

LEVEL = 'model_checking'
TECHNIQUE = 'explicit state exploration to a fixed point; every transition executed by the real commands and compared with a reference model'
NOTE = ('Closed state space: 2 (thorough 3) input names, 5 bead versions of 3 kinds in 2 boxes and outside, all commands; reached from '
        'the empty workspace without depth bound.')


def judge(w, st, world, state, op, state2, tree, new, o, label):
    problems = inputs.expect_problems(st, new, state2)
    if problems:
        w.check(False, f'{label}: {problems[0]}', f'transition:{op[0]}', problems=problems, outcome=o, expected=state2)
    w.count('traces_validated_against_impl')
    w.count('changed' if state2 != state else 'unchanged')
    w.sample({'state': state, 'command': op, 'next': state2})


def crowd_case(w, mode):
    """a workspace with many inputs among many beads"""
    c = w.ctx.crowd
    world = World(w.fresh())
    dirs = [('box', world.path('box')), ('box2', world.path('box2'))]
    for n, i in enumerate(c.all):
        lib.put(dirs[n % 2][1], i)
    world.set_boxes(dirs)
    if mode == 'indexed':
        w.check(w.cli(world, 'box', 'index', '--all', clock=lib.T0, timeout=200).ok, 'index fails', 'setup')
    ws = world.path('ws')
    nicks = {f'i{k:03}': k for k in range(len(c.old))}

    def judge(what, o, expected, loaded):
        w.count('transitions')
        w.count('traces_validated_against_impl')
        label = f'{mode}: {what} in a workspace with {len(nicks)} inputs'
        w.check(o.ok, f'{label} fails', 'crowd-fails', outcome=o)
        got = lib.ws_inputs(ws)
        bad = sorted(n for n in set(got) | set(expected) if n not in got or n not in expected or got[n] != expected[n].spec())
        w.check(not bad, f'{label}: {len(bad)} inputs are wrong: {bad[:5]}', 'crowd-meta', outcome=o)
        have = lib.files_below(os.path.join(ws, 'input'))
        want = {f'{n}/{p}': d for n in loaded for p, d in expected[n].out.items()}
        bad = sorted(p for p in set(have) | set(want) if have.get(p) != want.get(p))
        w.check(not bad, f'{label}: {len(bad)} files of inputs are wrong: {bad[:5]}', 'crowd-files', outcome=o)

    def cli(*argv):
        return w.cli(world, *argv, '-w', ws, clock=lib.T0 + 300 * 86400 * lib.NS, timeout=300)
    o = w.cli(world, 'edit', os.path.join(dirs[(len(c.all) - 1) % 2][1], c.big.file), ws, clock=lib.T0, timeout=100)
    ins = {n: c.old[k] for n, k in nicks.items()}
    judge('edit', o, ins, set())
    if mode == 'loaded':
        judge('input load', cli('input', 'load'), ins, set(nicks))
    if mode == 'indexed':
        judge('input load', cli('input', 'load'), ins, set(nicks))
        new = {n: c.new[k] or c.old[k] for n, k in nicks.items()}
        judge('input update', cli('input', 'update'), new, set(nicks))
        some = sorted(nicks)[::37]
        left = dict(new)
        for n in some:
            del left[n]
            judge(f'input delete {n}', cli('input', 'delete', n), left, set(left))
        judge('input unload', cli('input', 'unload'), left, set())
        v = {**left, 'v': c.v[-1]}
        judge('input add v', cli('input', 'add', 'v'), v, {'v'})
        v['v'] = c.v[-2]
        judge('input update v --prev', cli('input', 'update', 'v', '--prev'), v, {'v'})
        v['v'] = c.v[300]
        judge('input update v --time', cli('input', 'update', 'v', '--time', c.v[300].ts), v, {'v'})
        v['v'] = c.v[301]
        judge('input update v --next', cli('input', 'update', 'v', '--next'), v, {'v'})


def run(ctx, name, indexed, nicks, full):
    st = ctx.setup(lambda w: inputs.setting(w, indexed, nicks))
    n, models, layers = inputs.explore(ctx, st, inputs.operations(nicks, full), judge)
    ctx.stats.n['states'] += n
    ctx.coverage.setdefault('spaces', {})[name] = {'real states': n, 'model states': models, 'diameter': layers - 1, 'commands': len(ctx.ops)}


def main(ctx):
    ctx.crowd = ctx.setup(crowd.make)
    ctx.pmap(crowd_case, ['indexed', 'loaded'] if ctx.quick else ['loaded', 'indexed'], name='crowd')
    run(ctx, 'two inputs, one box indexed', True, ('x', 'xy'), not ctx.quick)
    if not ctx.quick:
        run(ctx, 'two inputs, no index', False, ('x', 'xy'), True)
        run(ctx, 'three inputs', False, ('x', 'xy', 'x-y'), False)
