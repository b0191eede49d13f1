"""C15: an interrupted index update is recoverable.

index, reindex and save killed at every changing call (sqlite's included) and
inside every write, from several box states; searches right after, and after
one index or one reindex, are compared with the archives in the directory."""
import os

from fw import Arm, C_SYNC, M_COUNT, M_CRASH, MUTATING, World, op_lines
import lib

LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive enumeration of crash points and torn writes of the real indexing commands, real recovery run after each'
NOTE = ('Process crash model (no power loss): the process dies between two calls or inside a write. Thorough: also every pair of '
        'crashes of the command and of the recovering index run.')

MASK = MUTATING | C_SYNC


def setup(w):
    mk = lib.make_bead
    a = mk(w, 'a', 'K', '20200101T000000000000+0000')
    a2 = mk(w, 'a', 'K', '20200102T000000000000+0000', inputs={'i': a})
    b = mk(w, 'b', 'KB', '20200103T000000000000+0000', inputs={'i': a, 'j': a2})
    c = mk(w, 'c', 'KC', '20200104T000000000000+0000', inputs={f'input{k}': b for k in range(30)})
    images = []

    def image(name, argv, first, then, gone=(), wreck=None):
        world = World(w.fresh())
        box = world.path('box')
        lib.put(box, *first)
        world.set_boxes([('box', box)])
        ws = world.path('ws')
        w.check(w.cli(world, 'new', ws, clock=lib.T0).ok, 'new fails', 'setup')
        w.check(w.cli(world, 'input', 'add', 'a', '-w', ws, clock=lib.T0).ok if first else True, 'input add fails', 'setup')
        if then is not None:
            w.check(w.cli(world, 'box', 'index', clock=lib.T0).ok, 'index fails', 'setup')
            lib.put(box, *then)
            for i in gone:
                os.unlink(os.path.join(box, i.file))
        if wreck:
            with open(os.path.join(box, lib.INDEX), 'wb') as f:
                f.write(wreck)
        with open(os.path.join(box, 'damaged.zip'), 'wb') as f:
            f.write(a.data[:len(a.data) // 3])
        truth = [i for i in (*first, *(then or ())) if i not in gone]
        stale = [lib.info_tuple(i, 'box') for i in gone]
        images.append(lib.image_of(world, name, [('box', 'box')], argv=argv, truth=truth, wreck=bool(wreck), stale=stale, infos=(a, a2, b, c),
                                   old=[i for i in first if i in truth] if then is not None and not wreck else []))
    everything = (a, a2, b, c)
    image('first index', ('box', 'index'), everything, None)
    image('update index', ('box', 'index'), (a, a2), (b, c), (a2,))
    image('update index, nothing new', ('box', 'index'), (a, b), ())
    image('reindex', ('box', 'reindex'), everything, ())
    image('reindex outdated', ('box', 'reindex'), (a, a2), (b, c), (a,))
    image('reindex corrupt', ('box', 'reindex'), everything, None, wreck=b'no index' * 2000)
    image('reindex empty index', ('box', 'reindex'), (a, b), None, wreck=b'')
    image('save', ('save', '-w', '<ROOT>/ws'), (a, b), ())
    image('save, empty', ('save', '-w', '<ROOT>/ws'), (), ())
    for im in images:
        world = lib.world_of(w, im)
        o = run(w, world, im, Arm(M_COUNT, (world.path('box'),), MASK))
        w.check(o.ok, f'{im.name} fails', 'setup', outcome=o)
        im.points = o.count
        im.writes = {n for n, op, _, _ in op_lines(o.log) if 'write' in op}
        # the saved bead
        im.new = None
        if im.argv[0] == 'save':
            box = world.path('box')
            p = [os.path.join(box, f) for f in lib.zips(box) if f not in [i.file for i in im.infos] + ['damaged.zip']]
            got = w.fork(lib._archive_facts, p[0]).value
            im.new = (got[0], got[1], got[2], got[3], 'box', got[4])
    return images


def run(w, world, im, arm=None):
    return w.cli(world, *lib.fill(world.root, im.argv), clock=lib.T0, arm=arm)


def truth_of(w, world, im):
    """the beads in the directory right now"""
    box = world.path('box')
    out = [lib.info_tuple(i, 'box') for i in im.truth]
    for f in lib.zips(box):
        if f not in [i.file for i in im.infos] + ['damaged.zip']:
            got = w.fork(lib._archive_facts, os.path.join(box, f))
            w.check(got.kind == 'ret', f'{im.name}: invalid archive {f}', 'partial', outcome=got)
            w.check(got.value[0] == 'ws' and got.value[1] == im.new[1], f'{im.name}: wrong archive', 'wrong-archive')
            t = got.value
            out.append((t[0], t[1], t[2], t[3], 'box', t[4]))
    for i in im.truth:
        with open(os.path.join(box, i.file), 'rb') as f:
            w.check(f.read() == i.data, f'{im.name}: an archive is changed', 'archive')
    return sorted(out)



def judge(w, c):
    i, crashes = c
    im = w.ctx.images[i]
    label = im.name
    world = lib.world_of(w, im)
    box = world.path('box')
    o = run(w, world, im, Arm(M_CRASH, (box,), MASK, at=crashes[0][0], variant=crashes[0][1]))
    w.check(o.kind in ('crash', 'ret'), f'{label}: ends in {o.kind}', 'died', outcome=o)
    label += f' killed at {crashes[0][0]}/{crashes[0][1]}'
    w.count('evaluations')
    w.count(o.kind)
    for at, variant in crashes[1:]:
        search(w, world, im, label)
        o = w.cli(world, 'box', 'index', clock=lib.T0, arm=Arm(M_CRASH, (box,), MASK, at=at, variant=variant))
        w.check(o.kind in ('crash', 'ret'), f'{label}, index: ends in {o.kind}', 'died', outcome=o)
        label += f', index killed at {at}/{variant}'
    # (an index that was broken to begin with can go on failing until it is rebuilt)
    found = () if im.wreck else search(w, world, im, label)
    w.distinct('nontrivial', (im.name, crashes, repr(found)))
    tree = lib.snap(box)
    for command in ('index', 'reindex')[im.wreck:]:
        lib.restore(box, tree)
        o = w.cli(world, 'box', command, clock=lib.T0)
        w.check(o.ok and 'Failed' not in o.out, f'{label}: {command} fails', f'{command}-fails', outcome=o)
        lst = lib.listing(w, world)
        want = truth_of(w, world, im)
        w.check(lst.value == want, f'{label}: after {command} other beads are found than those in the box', f'{command}-recovers',
                found=lst.value, want=want, outcome=lst)
    w.sample({'crash': label, 'found': len(found), 'recovered': len(want), 'files': sorted(os.listdir(box))})


def search(w, world, im, label):
    lst = lib.listing(w, world)
    w.check(lst.kind == 'ret', f'{label}: searching fails', 'search', outcome=lst)
    truth = truth_of(w, world, im)
    for t in lst.value:
        w.check(t in truth or t in im.stale, f'{label}: finds a bead that is not there: {t[0]} {t[3]}', 'ghost', found=lst.value)
    w.check(len(set(lst.value)) == len(lst.value), f'{label}: a bead is found twice', 'twice')
    if im.argv[-1] == 'index' or im.argv[0] == 'save':
        for i in im.old:
            w.check(lib.info_tuple(i, 'box') in lst.value, f'{label}: a bead that was indexed is not found', 'lost')
    return lst.value


def main(ctx):
    ctx.images = ctx.setup(setup)
    cases = []
    for i, im in enumerate(ctx.images):
        single = [(at, v) for at in range(1, im.points + 2) for v in range(4)
                  if v == 0 or (at in im.writes and (not ctx.quick or (v == 2 and im.name in ('update index', 'save'))))]
        if ctx.quick and im.name in ('update index, nothing new', 'save, empty', 'reindex empty index'):
            continue
        cases += [(i, (x,)) for x in single]
        if not ctx.quick and im.name in ('first index', 'update index', 'reindex outdated', 'save'):
            cases += [(i, ((at, 0), (at2, 0))) for at in range(1, im.points + 1) for at2 in range(1, im.points + 3)]
    ctx.pmap(judge, cases, name='crashes')
    ctx.coverage['rule'] = ('first index, update, reindex (good, outdated, corrupt, empty index) and save killed at every changing call and '
                            'torn in every write; search, then index / reindex, compared with the directory')
    ctx.coverage['points'] = {im.name: im.points for im in ctx.images}
