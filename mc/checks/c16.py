"""C16: concurrent commands on a shared box lose nothing.

Two (thorough: also three) real processes run under a scheduler that stops them
before each file operation in the box; all schedules up to a number of
preemptions are executed."""
import itertools
import os

import fw
from fw import World
import lib
import sched

LEVEL = 'model_checking'
TECHNIQUE = 'stateless model checking of the real commands: exhaustive preemption-bounded enumeration of interleavings of their file operations and locks'
NOTE = ('Preemption bound 1 (thorough 2, and 1 with three processes); scheduling points are all file operations in the box directory but reads, '
        'unlocking, and the inner writes of files that no other process uses. Waiting for a lock is modelled as blocking.')


def setup(w):
    mk = lib.make_bead
    a = mk(w, 'a', 'K', '20200101T000000000000+0000', out={'o': b'A'})
    b = mk(w, 'b', 'KB', '20200103T000000000000+0000', out={'o': b'B'}, inputs={'i': a, 'j': a})
    late = mk(w, 'late', 'KL', '20200105T000000000000+0000', out={'o': b'L'}, inputs={'i': a, 'k': b})
    images = {}
    for name in ('plain', 'indexed', 'outdated', 'empty'):
        world = World(w.fresh())
        box = world.path('box')
        beads = {'plain': (a, b, late), 'empty': ()}.get(name, (a, b))
        lib.put(box, *beads)
        world.set_boxes([('box', box)])
        if name in ('indexed', 'outdated'):
            w.check(w.cli(world, 'box', 'index', clock=lib.T0).ok, 'index fails', 'setup')
        if name == 'outdated':
            lib.put(box, late)
            beads += (late,)
        for k in (1, 2):
            ws = world.path(f'ws{k}')
            w.check(w.cli(world, 'new', ws, clock=lib.T0).ok, 'new fails', 'setup')
            if beads:
                w.check(w.cli(world, 'input', 'add', 'a', '-w', ws, clock=lib.T0).ok, 'input add fails', 'setup')
            lib.write_tree(ws, {'x': b'%d' % k, 'output/o': b'W%d' % k * 6000})
        images[name] = lib.image_of(world, name, [('box', 'box')], beads=beads, indexed_beads=(a, b) if name in ('indexed', 'outdated') else (),
                                    saved={k: (f'ws{k}', lib.ws_meta(world.path(f'ws{k}'))['kind']) for k in (1, 2)})
    return images


def processes(world, commands):
    """what the scheduler starts"""
    out = []
    saves = 0
    for n, c in enumerate(commands):
        # (every process has its own clock: beads must not be saved later than others read them)
        kw = {'cwd': world.home, 'env': dict(world.env), 'clock': lib.T0 + (n * 1000_000 if c == 'save' else lib.NS)}
        if c == 'save':
            saves += 1
            argv = ['save', '-w', world.path(f'ws{saves}')]
        elif c == 'search':
            out.append((lib._listing, (world.config,), kw))
            continue
        elif c == 'edit':
            argv = ['edit', 'b', world.path('edited')]
        else:
            argv = ['box', c]
        out.append((fw.run_cli, (world.config, argv), kw))
    return out


def execute(w, case):
    ctx = w.ctx
    name, commands, order, preempt = case
    im = ctx.images[name]
    world = lib.world_of(w, im)
    box = world.path('box')
    r = sched.run(w, (box,), processes(world, commands), order, preempt)
    label = f'{" | ".join(commands)} on the {name} box, order {order}, switches {preempt}'
    w.count('transitions', len(r.trace))
    w.count('schedules')
    w.count('traces_validated_against_impl')
    w.check(not r.stuck, f'{label}: {r.stuck}', 'stuck', trace=[t[:4] for t in r.trace[-40:]])
    where = {step: (t[2], t[3]) for step, t in enumerate(r.trace)}
    label += ' (' + ', '.join(f'before {where[s][0]} {os.path.basename(where[s][1])}' for s, _ in preempt if s in where) + ')'
    for c, o in zip(commands, r.outcomes):
        w.check(o.kind == 'ret' and (c == 'search' or not o.value), f'{label}: {c} fails: {o.exc} {o.message} {o.err[-200:]}', f'fails:{c}',
                outcome=o)
        w.check(c == 'search' or 'Failed' not in o.out, f'{label}: {c} reports a failure: {o.out[-200:]}', f'fails:{c}', outcome=o)
    # the archives
    saves = commands.count('save')
    files = lib.zips(box)
    for i in im.beads:
        with open(os.path.join(box, i.file), 'rb') as f:
            w.check(f.read() == i.data, f'{label}: {i.file} is changed', 'archive')
    new = [f for f in files if f not in [i.file for i in im.beads]]
    w.check(len(new) == saves, f'{label}: new archives: {new}', 'lost-archive')
    truth = [lib.info_tuple(i, 'box') for i in im.beads]
    # not yet indexed beads may stay so
    optional = [lib.info_tuple(i, 'box') for i in im.beads if i not in im.indexed_beads]
    if not im.indexed_beads or 'index' in commands or 'reindex' in commands:
        optional = []
    facts = {}
    o = w.fork(lib._observe, world.config, [os.path.join(box, f) for f in new], cwd=world.home)
    w.check(o.kind == 'ret', f'{label}: observing fails', 'observe', outcome=o)
    listing, archives = o.value
    for p, (valid, t) in archives.items():
        w.check(valid == 'valid', f'{label}: {os.path.basename(p)} is invalid: {t}', 'invalid')
        facts[t[0]] = t
        truth.append((t[0], t[1], t[2], t[3], 'box', t[4]))
    w.check(sorted(facts.values()) == sorted(facts.values()) and sorted((t[0], t[1]) for t in facts.values()) == sorted(im.saved[k] for k in range(1, saves + 1)),
            f'{label}: saved {sorted(facts)}', 'saved')
    w.check(isinstance(listing, list) and sorted({*listing, *optional}) == sorted(truth) and len(listing) == len(set(listing)), f'{label}: afterwards the beads found are not those stored: {brief(listing)} instead of {brief(truth)}',
            'lost', found=listing)
    # what a search saw while the others ran
    for c, o in zip(commands, r.outcomes):
        if c == 'search':
            w.check(all(t in truth for t in o.value) and len(set(o.value)) == len(o.value),
                    f'{label}: the search reports beads that are not there: {brief(o.value)}', 'search-ghost', found=o.value)
            if 'reindex' not in commands:
                always = im.indexed_beads if im.indexed_beads or 'index' in commands else im.beads
                for i in always:
                    w.check(lib.info_tuple(i, 'box') in o.value, f'{label}: the search does not find {i.name}: {brief(o.value)}', 'search-lost')
            w.distinct('search results', repr((name, commands, sorted(t[0] for t in o.value))))
    if 'edit' in commands:
        w.check(os.path.isdir(world.path('edited')), f'{label}: nothing to edit', 'edit')
    w.distinct('final', repr((name, commands, sorted(os.listdir(box)))))
    if not preempt:
        w.sample({'run': label, 'operations': len(r.trace), 'trace': [f'{t[0]} {t[2]} {os.path.basename(t[3])}' for t in r.trace[:12]]})
    # (paths are the same in all runs but for the directory of the worker)
    trace = [(p, cls, op, path.replace(world.root + '/', ''), arg, able)
             for p, cls, op, path, arg, able in r.trace]
    shared, known = ctx.shared.get((name, commands), (frozenset(), frozenset()))
    return sched.contended(trace), sched.paths(trace), sched.branches(trace, preempt, shared, known, ctx.merge)


def brief(listing):
    return listing if isinstance(listing, str) else [f'{t[0]}' for t in listing]


PAIRS = [('save', 'save'), ('save', 'index'), ('save', 'reindex'), ('save', 'search'), ('index', 'index'), ('index', 'reindex'),
         ('index', 'search'), ('reindex', 'reindex'), ('reindex', 'search'), ('save', 'edit'), ('index', 'edit')]
ALL = [(b, p) for b in ('plain', 'indexed', 'outdated', 'empty') for p in PAIRS
       if not (b == 'empty' and 'edit' in p) and (b, p) != ('plain', ('index', 'edit'))]
SOME = [(b, p) for b, p in ALL if b in ('plain', 'indexed') and 'edit' not in p or (b, p) in (
    ('outdated', ('save', 'index')), ('outdated', ('index', 'search')), ('empty', ('save', 'index')), ('empty', ('save', 'reindex')))]


def explore(ctx, scenes, bound, merge):
    ctx.merge = merge
    ctx.shared = {}
    base = [(b, c, o, ()) for b, c in scenes for o in itertools.permutations(range(len(c)))]

    def learn(cases, results):
        """which files are contended; returns the scenes where there are more than known before"""
        grown = set()
        for case, res in zip(cases, results):
            if res:
                shared, known = ctx.shared.get(case[:2], (frozenset(), frozenset()))
                if not res[0] <= shared:
                    grown.add(case[:2])
                ctx.shared[case[:2]] = (shared | res[0], known if case[3] else known | res[1])
        return grown

    learn(base, ctx.pmap(execute, base, name='no switches'))
    again = set(scenes)
    rounds = 0
    while again and not ctx.violations:
        todo, grown = [c for c in base if c[:2] in again], set()
        for depth in range(bound + 1):
            results = ctx.pmap(execute, todo, name=f'round {rounds}, {depth} switches')
            if os.environ.get('MC_DEBUG'):
                print(rounds, depth, len(todo), len(again), flush=True)
            grown |= learn(todo, results)
            todo = [(*c[:3], p) for c, res in zip(todo, results) if res for p in res[2]]
        # where more turned out to be shared there are more places to switch
        again = grown
        rounds += 1
    ctx.coverage.setdefault('explored', []).append({'scenes': len(scenes), 'switches': bound, 'writes merged': merge})


def main(ctx):
    ctx.images = ctx.setup(setup)
    if ctx.quick:
        explore(ctx, SOME, 1, True)
    else:
        explore(ctx, ALL, 1, False)
        explore(ctx, DEEP, 2, True)
        explore(ctx, THREE, 1, True)
    ctx.stats.n['states'] += ctx.stats.n['schedules']


DEEP = [(b, p) for b, p in ALL if b == 'empty']
THREE = [(b, p) for b in ('empty', 'indexed') for p in (('save', 'save', 'search'), ('save', 'index', 'search'), ('save', 'save', 'index'),
                                                      ('save', 'index', 'reindex'))]
