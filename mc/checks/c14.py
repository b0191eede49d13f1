"""C14: indexing converges to the directory content from any history.

Explores every state of (box directory, index file) reachable by putting,
replacing, renaming, removing and damaging archives, saving, indexing,
reindexing and breaking the index file; in every state `index` and `reindex`
are run (twice) and what they make searches find is compared with the files."""
import hashlib
import os
import sqlite3

from fw import World
import crowd
import lib

LEVEL = 'model_checking'
TECHNIQUE = 'explicit state exploration to a fixed point of directory and index states, real index/reindex/save/search executed in each'
NOTE = ('Closed state space over 3 (thorough 4) archive files with up to 3 contents each, and over files with names that are alike, and 7 kinds of broken index files. '
        'Replacing an already indexed file in place is judged only after reindex; a broken index only after reindex.')

# file -> possible contents
SLOTS_QUICK = {'a.zip': ('A', 'A2', 'bad'), 'a_20200101.zip': ('A',), '<SAVED>': ('W',)}
SLOTS_FULL = {'a.zip': ('A', 'A2', 'bad'), 'a_20200101.zip': ('A',), 'b.zip': ('B', 'junk'), '<SAVED>': ('W',)}
# names that are alike as patterns, in other cases or as prefixes
SLOTS_ALIKE = {'a_20200101.zip': ('A',), 'a-20200101.zip': ('A2',), '*.zip': ('B',), 'A_20200101.zip': ('A',)}
BROKEN = ('empty', 'garbage', 'cut', 'page', 'tables', 'other')


def setup(w):
    ctx = w.ctx
    mk = lib.make_bead
    a = mk(w, 'a', 'K', '20200101T000000000000+0000', out={'o': b'A'})
    a2 = mk(w, 'a', 'K', '20200102T000000000000+0000', out={'o': b'A2'}, inputs={'i': a})
    b = mk(w, 'b', 'KB', '20200103T000000000000+0000', out={'o': b'B'}, inputs={'i': a, 'j': a2})
    bad = lib.pack([(n, d + (b'!' if n.startswith('data/') else b'')) for n, d in lib.members(a.data)])
    world = World(w.fresh())
    box = world.path('box')
    os.mkdir(box)
    world.set_boxes([('box', box)])
    ws = world.path('ws')
    w.check(w.cli(world, 'new', ws, clock=lib.T0).ok, 'new fails', 'setup')
    lib.write_tree(ws, {'x': b'x', 'output/o': b'W'})
    lib.write_tree(box, {'sub/b.zip': b.data, '.sub/b.zip': b.data, 'b.zip.orig': b.data})     # (not in the box)
    image = lib.image_of(world, 'start', [('box', 'box')])
    w.check(w.cli(world, 'save', '-w', ws, clock=lib.T0).ok, 'save fails', 'setup')
    saved = lib.zips(box)[0]
    o = w.fork(lib._archive_facts, os.path.join(box, saved))
    name, kind, cid, ts, inputs = o.value
    with open(os.path.join(box, saved), 'rb') as f:
        wdata = f.read()
    contents = {'A': a.data, 'A2': a2.data, 'B': b.data, 'W': wdata, 'bad': bad, 'junk': b'not a zip'}
    facts = {'A': a, 'A2': a2, 'B': b, 'W': lib.Info(name=name, kind=kind, cid=cid, ts=ts, inputs={}, file=saved)}
    return image, saved, contents, facts


def bead_of(ctx, file, tag):
    """the tuple of the bead that a file with that content is, or None"""
    i = ctx.facts.get(tag)
    if i is None:
        return None
    name = file[:-4].split('_')[0]
    return (name,) + lib.info_tuple(i, 'box')[1:]


def break_index(path, how):
    data = open(path, 'rb').read() if os.path.exists(path) else None
    if how == 'tables':
        if data is None:
            return
        c = sqlite3.connect(path)
        try:
            for (n,) in c.execute("select name from sqlite_master where type='table' and name not like 'sqlite%'").fetchall()[:1]:
                c.execute(f'drop table "{n}"')
            c.commit()
        except sqlite3.Error:
            pass
        c.close()
        return
    if how == 'other':
        if os.path.exists(path):
            os.unlink(path)
        c = sqlite3.connect(path)
        c.execute('create table something (x)')
        c.execute("insert into something values ('else')")
        c.commit()
        c.close()
        return
    if how == 'empty':
        new = b''
    elif how == 'garbage':
        new = b'this is not a database ' * 400
    elif data is None:
        return
    elif how == 'cut':
        new = data[:len(data) // 2]
    else:
        new = data[:4096] + b'\xff' * 4096 + data[8192:]
    with open(path, 'wb') as f:
        f.write(new)


def index_key(path):
    if not os.path.exists(path):
        return 'none'
    try:
        c = sqlite3.connect(f'file:{path}?mode=ro', uri=True)
        try:
            return hashlib.blake2b('\n'.join(sorted(c.iterdump())).encode('utf-8', 'surrogatepass'), digest_size=12).hexdigest()
        finally:
            c.close()
    except sqlite3.Error:
        with open(path, 'rb') as f:
            return 'broken ' + hashlib.blake2b(f.read(), digest_size=12).hexdigest()


def place(w, node):
    ctx = w.ctx
    files, seen, index = node
    world = lib.world_of(w, ctx.image)
    box = world.path('box')
    for f, tag in files:
        with open(os.path.join(box, f), 'wb') as fh:
            fh.write(ctx.contents[tag])
    if index is not None:
        with open(os.path.join(box, lib.INDEX), 'wb') as fh:
            fh.write(index)
    return world, box


def _found(config):
    """listing, and where each bead resolves to"""
    from bead.box import search
    from bead_cli.environment import Environment
    boxes = Environment.from_dir(config).get_boxes()
    out = []
    for b in search(boxes).all():
        try:
            a = boxes[0].resolve(b)
            where = (os.path.basename(a.location), a.content_id)
        except Exception as e:
            where = f'{type(e).__name__}: {e}'
        out.append((lib.bead_tuple(b), where))
    return sorted(out, key=repr)


def judge(w, world, files, tainted, label):
    """beads found are exactly those of the files (files whose indexed content was replaced excepted)"""
    ctx = w.ctx
    o = w.fork(_found, world.config, cwd=world.home)
    w.check(o.kind == 'ret', f'{label}: searching fails', 'search', outcome=o)
    required, allowed = set(), set()
    for f, tag in files:
        t = bead_of(ctx, f, tag)
        if f in tainted:
            # replaced in place while indexed: anything it ever was may be found
            allowed |= {x for x in (bead_of(ctx, f, c) for c in ctx.slots[f]) if x}
        elif t:
            required.add(t)
    got = {t for t, _ in o.value}
    w.check(len(got) == len(o.value), f'{label}: a bead is found twice', 'twice', got=o.value)
    w.check(required <= got, f'{label}: not found: {[t[0] + "@" + t[3] for t in required - got]}', 'lost', got=o.value, files=files)
    w.check(got <= required | allowed, f'{label}: finds {[t[0] + "@" + t[3] for t in got - required - allowed]} that is not there', 'ghost',
            got=o.value, files=files)
    for t, where in o.value:
        if t in required:
            ok = {(f, t[2]) for f, tag in files if bead_of(ctx, f, tag) == t and f not in tainted}
            if isinstance(where, tuple):
                w.check(where[1] == t[2], f'{label}: {t[0]} resolves to another bead', 'resolve')
            elif not tainted:
                w.check(False, f'{label}: {t[0]} does not resolve: {where}', 'resolve')
            w.count('resolved')
    return o.value


def expand(w, node):
    """judge index and reindex in a state and return its successors"""
    ctx = w.ctx
    files, seen, index = node
    fd, sd = dict(files), dict(seen)
    label = f'box {dict(files)}, indexed as {dict(seen) if index is not None else "nothing"}'
    out = []

    def result(box, files, seen):
        path = os.path.join(box, lib.INDEX)
        data = open(path, 'rb').read() if os.path.exists(path) else None
        out.append(((tuple(sorted(files.items())), tuple(sorted(seen.items())), data), index_key(path)))

    # changes behind the back of the tool
    world, box = place(w, node)
    same = index_key(os.path.join(box, lib.INDEX))
    for f, tags in ctx.slots.items():
        for tag in tags + (None,):
            if fd.get(f) != tag:
                nf = {k: v for k, v in fd.items() if k != f}
                if tag:
                    nf[f] = tag
                out.append(((tuple(sorted(nf.items())), seen, index), same))
                w.count('transitions')
    out.append(((files, (), None), 'none'))
    w.count('transitions')
    if index is not None and files == seen:
        for how in BROKEN:
            world, box = place(w, node)
            break_index(os.path.join(box, lib.INDEX), how)
            blabel = f'box {dict(files)}, index broken ({how})'
            o = w.cli(world, 'box', 'index', clock=lib.T0)
            w.check(o.kind in ('ret', 'exit'), f'{blabel}: index ends in {o.kind}', 'broken-index', outcome=o)
            world, box = place(w, node)
            break_index(os.path.join(box, lib.INDEX), how)
            o = w.cli(world, 'box', 'reindex', clock=lib.T0)
            w.check(o.ok and 'Failed' not in o.out, f'{blabel}: reindex fails', 'broken-reindex', outcome=o)
            judge(w, world, files, {}, f'{blabel}: reindex')
            w.count('transitions', 2)
            w.count('broken_indexes')
    # the commands
    good = {f: t for f, t in sd.items() if t == '?' or ctx.facts.get(t)}
    for command in ('index', 'reindex', 'save'):
        world, box = place(w, node)
        if command == 'save':
            if ctx.saved in fd or ctx.saved not in ctx.slots:
                continue
            o = w.cli(world, 'save', '-w', world.ws, clock=lib.T0)
            w.check(o.ok, f'{label}: save fails', 'save', outcome=o)
            nf, ns = {**fd, ctx.saved: 'W'}, sd
            if index is not None:
                ns = {**sd, ctx.saved: 'W'}
            result(box, nf, ns)
            w.count('transitions')
            w.count('traces_validated_against_impl')
            continue
        o = w.cli(world, 'box', command, clock=lib.T0)
        w.count('transitions')
        w.count('traces_validated_against_impl')
        w.check(o.ok and 'Failed' not in o.out, f'{label}: {command} fails', f'{command}-fails', outcome=o)
        tainted = {}
        if command == 'index':
            tainted = {f: t for f, t in good.items() if f in fd and fd[f] != t}
        found = judge(w, world, files, tainted, f'{label}: {command}')
        ns = {f: ('?' if f in tainted else t) for f, t in fd.items()}
        result(box, fd, ns)
        o = w.cli(world, 'box', command, clock=lib.T0)
        w.check(o.ok, f'{label}: {command} fails the second time', f'{command}2', outcome=o)
        found2 = judge(w, world, files, tainted, f'{label}: {command} twice')
        w.check(tainted or {t for t, _ in found} == {t for t, _ in found2}, f'{label}: {command} again changes what is found', f'{command}-again')
        if command == 'index':
            o = w.cli(world, 'box', 'reindex', clock=lib.T0)
            judge(w, world, files, {}, f'{label}: index, reindex')
    w.sample({'state': label})
    few = {}
    for n, k in out:
        few.setdefault((n[0], n[1], k), n)
    return list(few.items())


def explore(ctx, slots, layer_name):
    ctx.slots = {ctx.saved if f == '<SAVED>' else f: t for f, t in slots.items()}
    start = ((), (), None)
    seen = {((), (), 'none')}
    frontier, layers = [start], 0
    while frontier and layers < 60:
        nxt = []
        for r in ctx.pmap(expand, frontier, name=f'{layer_name} {layers}'):
            for k, n in r or ():
                if k not in seen:
                    seen.add(k)
                    nxt.append(n)
        frontier, layers = nxt, layers + 1
        if os.environ.get('MC_DEBUG'):
            print(layers, len(seen), len(frontier), flush=True)
        if len(seen) > 60000:
            break
    ctx.stats.n['states'] += len(seen)
    ctx.coverage.setdefault('spaces', {})[layer_name] = {'closed': not frontier, 'depth': layers, 'states': len(seen), 'unexpanded': len(frontier)}


def _listed(config):
    from bead.box import search
    from bead_cli.environment import Environment
    return sorted(lib.bead_tuple(b) for b in search(Environment.from_dir(config).get_boxes()).all())


def crowd_case(w, case):
    """many archives coming and going between two updates of the index"""
    first, then, command = case
    c = w.ctx.crowd
    sets = {'all': c.all, 'none': [], 'some': c.all[::40], 'most': [i for n, i in enumerate(c.all) if n % 40], 'versions': c.v, 'names': c.all[len(c.v):]}
    world = World(w.fresh())
    box = world.path('box')
    os.mkdir(box)
    world.set_boxes([('box', box)])
    for step in (first, then):
        for f in lib.zips(box):
            os.unlink(os.path.join(box, f))
        lib.put(box, *sets[step])
        o = w.cli(world, 'box', command if step == then else 'index', clock=lib.T0, timeout=200)
        w.check(o.ok and 'Failed' not in o.out, f'indexing {len(sets[step])} archives fails', 'crowd-fails', outcome=o)
        o = w.fork(_listed, world.config, cwd=world.home, timeout=100)
        w.check(o.kind == 'ret', f'searching among {len(sets[step])} beads ends in {o.kind}', 'crowd-died', outcome=o)
        want = sorted(lib.info_tuple(i, 'box') for i in sets[step])
        w.check(o.value == want, f'{command}, first with {len(sets[first])}, then with {len(sets[then])} archives in the box: of {len(want)} beads '
                f'{len(set(want) - set(o.value))} are not found and {len(o.value)} are found', 'crowd')
        w.count('traces_validated_against_impl')
        w.count('transitions')


def main(ctx):
    ctx.crowd = ctx.setup(crowd.make)
    ways = [('all', s, 'index') for s in ('none', 'some', 'most', 'versions', 'names')] + [('some', 'all', 'index'), ('names', 'versions', 'index'), ('all', 'some', 'reindex')]
    ctx.pmap(crowd_case, ways, name='crowd')
    ctx.image, ctx.saved, ctx.contents, ctx.facts = ctx.setup(setup)
    explore(ctx, SLOTS_QUICK if ctx.quick else SLOTS_FULL, 'layer')
    explore(ctx, SLOTS_ALIKE if not ctx.quick else {f: SLOTS_ALIKE[f] for f in list(SLOTS_ALIKE)[:2]}, 'alike')
