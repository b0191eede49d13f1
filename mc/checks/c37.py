"""C37: a bead saved while its files change is still undamaged.

The real save command stops before each of its file operations (reads, looks
and listings included); at every such point another program does one thing -
thorough: at every pair of points two things - to a file or directory of the
workspace. Whatever save says must be true of what is stored afterwards."""
import json
import os
import shutil

import fw
from fw import C_READ, World, snap
import lib
import sched

LEVEL = 'model_checking'
TECHNIQUE = ('stateless model checking of the real save command against an environment process: exhaustive enumeration of the points at which files '
             'of the workspace are changed, with partial order reduction')
NOTE = ('One change at every point (quick: every point where save uses the changed file or a directory above it, which represents the points before '
        'it; thorough: every point, and two changes at every pair of the representative points). Each change is one atomic step of the other program.')

MASK = sched.MASK | C_READ
BIG = bytes(range(256)) * 100       # several times what is read at once
FILES = {'a.py': b'print(1)\n' * 3, 'lib/m.py': b'm' * 100, 'lib/n.py': b'n' * 50, 'z.txt': b'z' * 300, 'output/big': BIG,
         'output/d/e': b'e' * 10, 'output/empty': b'', 'temp/t': b'temporary', 'temp/d/u': b'u'}


def flip(data):
    return bytes(b ^ 0x5a for b in data)


def put(path, data):
    with open(path, 'wb') as f:
        f.write(data)


# name -> what the other program does to a file
def overwrite(p, old):
    with open(p, 'r+b') as f:
        f.write(flip(old))


def append(p, old):
    with open(p, 'ab') as f:
        f.write(b'more' * 10)


def empty(p, old):
    os.truncate(p, 0)


def halve(p, old):
    os.truncate(p, len(old) // 2)


def replace_shorter(p, old):
    put(p + '.new', b'S' * (len(old) // 3))
    os.rename(p + '.new', p)
    # (not seen under this name: the two calls are one step)


def replace_longer(p, old):
    put(p + '.new', b'L' * (len(old) + 9000))
    os.rename(p + '.new', p)


def replace_alike(p, old):
    put(p + '.new', flip(old))
    os.rename(p + '.new', p)


def remove(p, old):
    os.unlink(p)


def to_directory(p, old):
    os.unlink(p)
    os.mkdir(p)
    put(os.path.join(p, 'inner'), b'inner')


def to_link(p, old):
    os.unlink(p)
    os.symlink('nowhere', p)


def lock(p, old):
    os.chmod(p, 0)


def touch(p, old):
    os.utime(p, (1, 1))


# to a directory
def remove_tree(p, old):
    shutil.rmtree(p)


def move_away(p, old):
    os.rename(p, p + '-moved')


def add_file(p, old):
    put(os.path.join(p, 'added'), b'added' * 5)


def dir_to_file(p, old):
    shutil.rmtree(p)
    put(p, b'now a file')


ON_FILES = (overwrite, append, empty, halve, replace_shorter, replace_longer, replace_alike, remove, to_directory, to_link, lock, touch)
ON_DIRS = (remove_tree, move_away, add_file, dir_to_file)


def targets(full):
    files = ('a.py', 'lib/m.py', 'output/big', 'output/empty', 'temp/t') + (('z.txt', 'output/d/e') if full else ())
    dirs = ('lib', 'output/d') + (('temp/d',) if full else ())
    return [(f, t) for t in files for f in ON_FILES if not (f in (overwrite, empty, halve) and not FILES[t])] + [(f, t) for t in dirs for f in ON_DIRS]


def setup(w):
    a = lib.make_bead(w, 'a', 'K', '20200101T000000000000+0000', out={'o': b'A'})
    images = []
    for name in ('raw', 'indexed'):
        world = World(w.fresh())
        lib.put(world.path('box'), a)
        world.set_boxes([('box', world.path('box'))])
        if name == 'indexed':
            w.check(w.cli(world, 'box', 'index', clock=lib.T0).ok, 'index fails', 'setup')
        ws = world.path('ws')
        w.check(w.cli(world, 'new', ws, clock=lib.T0).ok, 'new fails', 'setup')
        w.check(w.cli(world, 'input', 'add', 'a', '-w', ws, clock=lib.T0).ok, 'input add fails', 'setup')
        lib.write_tree(ws, FILES)
        images.append(lib.image_of(world, name, [('box', 'box')], info=a, kind=lib.ws_meta(ws)['kind'], inputs=lib.ws_inputs(ws)))
    return images


def possible(rel, before, changes):
    """a predicate: can this be what save has read of the file? (None: absent)"""
    mine = [(f, t) for f, t in changes if rel == t or rel.startswith(t + '/') or (f in (to_directory, add_file, dir_to_file, move_away) and
                                                                              (t == rel or rel.startswith(t)))]
    if not mine:
        return lambda got: got == before
    if len(mine) > 1:
        return lambda got: True
    f, t = mine[0]
    if f is overwrite:
        new = flip(before)
        return lambda got: got is not None and len(got) == len(before) and all(x in (p, q) for x, p, q in zip(got, before, new))
    if f is append:
        return lambda got: got is not None and got.startswith(before) and (before + b'more' * 10).startswith(got)
    if f is empty or f is halve:
        return lambda got: got is not None and before.startswith(got) and (f is empty or len(got) >= len(before) // 2)
    if f in (replace_shorter, replace_longer, replace_alike):
        # a replaced file is read either before or after it was replaced
        new = {replace_shorter: b'S' * (len(before) // 3), replace_longer: b'L' * (len(before) + 9000), replace_alike: flip(before)}[f]
        return lambda got: got in (before, new)
    if f is touch or f is lock:
        return lambda got: got == before
    return lambda got: got in (before, None)


def extra_allowed(rel, changes):
    for f, t in changes:
        if f is to_directory and rel == t + '/inner' or f is add_file and rel == t + '/added' or f is dir_to_file and rel == t:
            return True
        if f is move_away and (rel == t + '-moved' or rel.startswith(t + '-moved/')):
            return True
    return False


def run(w, im, plan):
    world = lib.world_of(w, im)
    changes = []

    def step(f, t):
        def do():
            p = os.path.join(world.ws, t)
            try:
                f(p, FILES.get(t, b''))
            except OSError:
                pass       # what is to be changed is gone because of the first change
            changes.append((f, t))
        return do
    acts = {k: step(f, t) for k, f, t in plan}
    proc = (fw.run_cli, (world.config, ['save', '-w', world.ws]), {'cwd': world.home, 'env': dict(world.env), 'clock': lib.T0})
    trace, o, reached = sched.disturbed(w, (world.ws, world.path('box')), proc, MASK, acts)
    return world, trace, o, changes


def judge(w, c):
    i, plan = c
    im = w.ctx.images[i]
    world, trace, o, changes = run(w, im, [(k, *w.ctx.actions[n]) for k, n in plan])
    label = f'{im.name}: ' + ', '.join(
        f'{w.ctx.actions[n][0].__name__} {w.ctx.actions[n][1]} before call {k} '
        f'({trace[k][1] + " " + os.path.basename(trace[k][2]) if k < len(trace) else "not reached"})' for k, n in plan)
    w.count('schedules')
    w.count('transitions', len(trace))
    w.count('traces_validated_against_impl')
    what = '+'.join(f'{f.__name__}' for f, _ in changes)
    w.check(o.kind in ('ret', 'exit', 'exc'), f'{label}: save ends in {o.kind}', f'died:{o.kind}', outcome=o)
    box = world.path('box')
    new = [f for f in lib.zips(box) if f != im.info.file]
    with open(os.path.join(box, im.info.file), 'rb') as f:
        w.check(f.read() == im.info.data, f'{label}: another archive is changed', 'old')
    if not o.ok:
        w.count('failed')
        w.check(not new, f'{label}: save failed but left {new}', 'left', outcome=o)
        # what is not saved is not allowed to make save fail
        w.check(any(not t.startswith('temp/') for _, t in changes), f'{label}: save fails', 'temp', outcome=o)
        want = [lib.info_tuple(im.info, 'box')]
        lst, _ = lib.observe(w, world)
        w.check(lst == want, f'{label}: save failed but the box shows other beads', 'listing', got=lst)
        w.distinct('outcomes', (what, 'failed', o.exc))
        return
    w.count('succeeded')
    w.check(len(new) == 1, f'{label}: save succeeded but there are {len(new)} new archives', 'success-count', files=new)
    path = os.path.join(box, new[0])
    with open(path, 'rb') as f:
        data = f.read()
    mems = dict(lib.members(data))
    manifest = json.loads(mems['meta/manifest'])
    bad = [n for n in {*mems, *manifest} - {'meta/manifest'} if n not in mems or n not in manifest or lib.securehash(mems[n]) != manifest[n]]
    lst, facts = lib.observe(w, world, [path])
    verdict, got = facts[path]
    w.check(verdict == 'valid' and not bad, f'{label}: save succeeded, but the bead is damaged: {bad or got}', f'damaged:{what}')
    name, kind, cid, ts, inputs = got
    want = tuple(sorted((n, s['kind'], s['content_id'], s['freeze_time']) for n, s in im.inputs.items()))
    w.check((name, kind, inputs) == ('ws', im.kind, want), f'{label}: the saved bead has wrong metadata', 'meta', got=got)
    w.check(isinstance(lst, list) and sorted(lst) == sorted([lib.info_tuple(im.info, 'box'), (name, kind, cid, ts, 'box', inputs)]),
            f'{label}: the box shows other beads', 'listing-ok', got=lst)
    code, out = lib.code_and_output_of(data)
    stored = {**code, **{'output/' + k: v for k, v in out.items()}}
    for rel, before in FILES.items():
        if not rel.startswith('temp/'):
            w.check(possible(rel, before, changes)(stored.get(rel)), f'{label}: {rel} is saved with content it never had', f'content:{what}',
                    got=stored.get(rel, b'absent')[:100])
    odd = [r for r in stored if r not in FILES and not extra_allowed(r, changes)]
    w.check(not odd, f'{label}: files from nowhere: {odd}', 'odd')
    w.distinct('outcomes', (what, 'saved', tuple(sorted(stored))))
    w.distinct('nontrivial', repr(c))
    if len(plan) == 1 and plan[0][0] % 20 == 0:
        w.sample({'run': label, 'outcome': o.kind})


def concerned(op, path, ws, t):
    """might the operation notice a change of the target, or the other way round?"""
    p = os.path.join(ws, t)
    for q in path.split('->'):
        if q == p or q.startswith(p + '/') or p.startswith(q + '/'):
            return True
    return False


def main(ctx):
    ctx.images = ctx.setup(setup)
    ctx.actions = targets(not ctx.quick)

    def points(w, i):
        world, trace, o, _ = run(w, ctx.images[i], [])
        w.check(o.ok, 'save fails', 'plain', outcome=o)
        return [(op, os.path.relpath(path, world.root) if '->' not in path else path) for cls, op, path, arg in trace]
    traces = ctx.pmap(points, range(len(ctx.images)), name='undisturbed')

    def representative(i, n):
        t = ctx.actions[n][1]
        return [k for k, (op, path) in enumerate(traces[i]) if concerned(op, path, 'ws', t)]
    cases = []
    for i in range(1 if ctx.quick else len(ctx.images)):
        for n in range(len(ctx.actions)):
            for k in representative(i, n) if ctx.quick else range(len(traces[i])):
                cases.append((i, ((k, n),)))
    ctx.pmap(judge, cases, name='one change')
    if not ctx.quick:
        pairs = []
        acts = [n for n, (f, t) in enumerate(ctx.actions) if f in (overwrite, append, replace_shorter, remove, add_file, halve) and t in (
            'a.py', 'output/big', 'output/d', 'lib')]
        for n in acts:
            for m in acts:
                pairs += [(0, ((k, n), (l, m))) for k in representative(0, n) for l in representative(0, m) if k < l]
        ctx.pmap(judge, pairs, name='two changes')
    ctx.coverage['operations'] = {im.name: len(t) for im, t in zip(ctx.images, traces)}
    ctx.coverage['changes'] = len(ctx.actions)
    ctx.stats.n['states'] += ctx.stats.n['schedules']
