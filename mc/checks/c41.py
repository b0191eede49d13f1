"""C41: index and reindex work on exactly the boxes they are told to.

All combinations of up to three known boxes in different states (never indexed,
indexed, index outdated, index damaged, directory missing, a file instead), and
every way to say which of them to index."""
import itertools
import os
import re

import crowd
import fw
from fw import World, snap
import lib

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of box states x designations on the real command line'
NOTE = ('index (not reindex) may fail for a box with a damaged index, if it says so: the output must differ from that for a good box. '
        'Index content is judged by what searches find.')

STATES = ('raw', 'fresh', 'old', 'corrupt', 'gone', 'file')
NAMES = ('box', 'box2', 'Box')
T = '2020{:02}01T000000000000+0000'


def setup(w):
    x = fw.Stats()
    x.beads = {}
    x.trees = {}
    for n, name in enumerate((*NAMES, 'u')):
        a, b, c = (lib.make_bead(w, f'{name}{v}', 'K' + v, T.format(v2 + 3 * n), out={'o': v.encode()}) for v, v2 in zip('abc', (1, 2, 3)))
        x.beads[name] = (a, b)
        world = World(w.fresh())
        box = world.path(name)
        world.set_boxes([(name, box)])
        for state in STATES:
            fw.wipe(box)
            if state == 'file':
                with open(box, 'w') as f:
                    f.write('no box')
            elif state != 'gone':
                lib.put(box, a, b)
                if state == 'old':
                    fw.wipe(os.path.join(box, b.file))
                    lib.put(box, c)
                if state in ('fresh', 'old'):
                    w.check(w.cli(world, 'box', 'index', clock=lib.T0).ok, 'index fails', 'setup')
                if state == 'old':
                    fw.wipe(os.path.join(box, c.file))
                    lib.put(box, b)
                if state == 'corrupt':
                    with open(os.path.join(box, lib.INDEX), 'wb') as f:
                        f.write(b'not a database' * 300)
            x.trees[name, state] = snap(box)
    return x


def designations(n):
    """[(arguments, designated boxes, or None for: to be refused)]"""
    out = [((), [NAMES[0]] if n == 1 else None), (('--all',), list(NAMES[:n]))]
    for b in NAMES[:n]:
        out.append((('--box', b), [b]))
        out.append((('--dir', '<ROOT>/' + b), [b]))
    out.append((('--dir', '../' + (NAMES[n - 1] if n else 'u')), [NAMES[n - 1] if n else 'u']))
    out.append((('--dir', '<ROOT>/u'), ['u']))
    out.append((('--box', 'u'), None))
    out.append((('--box', 'BOX'), None))
    out.append((('--box', 'bo'), None))
    out.append((('--box', '<ROOT>/u'), None))
    out.append((('--dir', '<ROOT>/none'), None))
    return out


def argv_of(verb, args):
    return ('box', verb, *args)


def run(w, known, states, argv):
    world = World(w.fresh())
    for b, s in states.items():
        fw.restore(world.path(b), w.ctx.x.trees[b, s])
    world.set_boxes([(b, world.path(b)) for b in NAMES[:len(known)]])
    before = snap(world.root)
    o = w.cli(world, *lib.fill(world.root, argv), clock=lib.T0)
    return o, (o.ok, o.out.replace(world.root, '<ROOT>'), o.err.replace(world.root, '<ROOT>')), world, before


def found(w, world, b):
    got = lib.box_listing(w, world.path(b), resolve='fresh', clock=lib.T0)
    return got.value if got.kind == 'ret' else None


def expected(x, b):
    return sorted([lib.info_tuple(i, 'b') + ((i.file, i.name, i.cid),) for i in x.beads[b]], key=repr)


def tally(w, o, world, boxes, done, label):
    """a total that is told (done/all, done of all) is right"""
    text = o.out + o.err
    for name, d in boxes:
        text = text.replace(f'"{name}"', ' ').replace(str(d), ' ')
    text = text.replace(world.root, ' ')
    told = re.findall(r'(\d+) ?(?:/|of|out of) ?(\d+)', text)
    if told:
        w.check([int(n) for n in told[-1]] == [done, len(boxes)], f'{label}: {done} of {len(boxes)} boxes are indexed, but it tells {told[-1]}', 'tally', outcome=o)
        w.count('totals')


def judge(w, case):
    known, ustate, verb, n = case
    x = w.ctx.x
    args, target = designations(len(known))[n]
    states = dict(zip(NAMES, known))
    states['u'] = ustate
    label = f'{" ".join(("box", verb, *args))} with {", ".join(f"{b} {s}" for b, s in states.items())}'
    w.count('evaluations')
    w.distinct('nontrivial', case)
    o, _, world, before = run(w, known, states, argv_of(verb, args))
    w.check(o.kind in ('ret', 'exit'), f'{label} ends in {o.kind}', 'died', outcome=o)
    after = snap(world.root)

    def untouched(boxes, why):
        mine = lambda tree: {k: v for k, v in tree.items() if k.split('/')[0] not in boxes}
        w.check(mine(before) == mine(after), f'{label}: {why} {fw.diff(mine(before), mine(after))}', 'other', outcome=o)
    if target is None or any(states[b] in ('gone', 'file') for b in target) and '--dir' in args:
        untouched((), 'refused, but changes')
        w.check((o.out + o.err).strip(), f'{label}: no complaint', 'silent', outcome=o)
        return
    untouched(target, 'changes what it was not told to:')
    for b in target:
        here = lambda tree: {k: v for k, v in tree.items() if k.split('/')[0] == b and not os.path.basename(k).startswith(lib.INDEX)}
        w.check(here(before) == here(after), f'{label}: changes {fw.diff(here(before), here(after))}', 'archives', outcome=o)
        if states[b] in ('gone', 'file') or states[b] == 'corrupt' and verb == 'index' and found(w, world, b) != expected(x, b):
            # what is told must differ from what is told when this box can be indexed
            good = dict(states, **{b: 'fresh'})
            told = [run(w, known, st, argv_of(verb, args))[1] for st in (states, good)]
            w.check(told[0] != told[1], f'{label}: says nothing about the failure with {b}', 'silent', outcome=o)
            continue
        w.check(lib.INDEX in lib.subtree(after, b), f'{label}: box {b} is not indexed', 'not-indexed', outcome=o)
        got, want = found(w, world, b), expected(x, b)
        w.check(got == want, f'{label}: the index of {b} is wrong', 'content', got=got, want=want, outcome=o)
    if args == ('--all',) and known and not (verb == 'index' and 'corrupt' in known):
        tally(w, o, world, [(b, world.path(b)) for b in target], sum(s not in ('gone', 'file') for s in known), label)
    if len(known) == 3:
        w.sample({'run': label, 'out': o.out[-200:]})


def crowd_case(w, case):
    """many boxes, one of which can not be indexed"""
    verb, n, gone = case
    i = w.ctx.crowd.v[0]
    world = World(w.fresh())
    boxes = [(f'b{k}', world.path(f'd{k}')) for k in range(n)]
    for _, d in boxes:
        lib.put(d, i)
    world.set_boxes(boxes)
    if gone is not None:
        fw.wipe(boxes[gone][1])
    for argv, target in ((('--box', f'b{n - 1}'), {n - 1}), (('--dir', boxes[n // 2][1]), {n // 2}), (('--all',), set(range(n)))):
        before = {k for k, (_, d) in enumerate(boxes) if os.path.exists(os.path.join(d, lib.INDEX))}
        o = w.cli(world, 'box', verb, *argv, clock=lib.T0, timeout=100)
        label = f'box {verb} {argv} with {n} boxes'
        w.check(o.kind in ('ret', 'exit'), f'{label} ends in {o.kind}', 'died', outcome=o)
        after = {k for k, (_, d) in enumerate(boxes) if os.path.exists(os.path.join(d, lib.INDEX))}
        w.check(after == (before | target) - {gone}, f'{label}: the indexed boxes are {sorted(after)}', 'crowd', outcome=o)
        if argv == ('--all',):
            tally(w, o, world, boxes, len(target - {gone}), label)
        for k in target - {gone}:
            got = lib.box_listing(w, boxes[k][1], resolve='fresh', clock=lib.T0)
            w.check(got.value == [lib.info_tuple(i, 'b') + ((i.file, i.name, i.cid),)], f'{label}: the index of box {k} is wrong', 'crowd-content')
        w.count('evaluations')


def main(ctx):
    ctx.level = LEVEL
    ctx.crowd = ctx.setup(lambda w: crowd.make(w, 1, 0))
    ctx.pmap(crowd_case, [(v, n, g) for v in ('index', 'reindex') for n, g in ((80, None), (80, 0), (80, 40), (80, 79), (12, 10))], 'crowd')
    ctx.x = ctx.setup(setup)
    cases = []
    for n in range(4):
        for known in itertools.product(STATES, repeat=n):
            if ctx.quick and n == 3 and len(set(known)) == 1 and known[0] in ('gone', 'file'):
                continue
            for ustate in (('raw',) if ctx.quick and n else STATES):
                for verb in ('index', 'reindex'):
                    cases += [(known, ustate, verb, d) for d in range(len(designations(n)))]
    if ctx.quick:
        # (three boxes: the last two in every pair of states)
        cases = [c for c in cases if len(c[0]) < 3 or c[0][0] in ('raw', 'old', 'gone', 'corrupt')]
    ctx.pmap(judge, cases, 'designations')
    ctx.coverage['rule'] = NOTE
