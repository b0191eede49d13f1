"""C13: indexing a box never changes what is found in it.

All pairs of archive names over an alphabet of namings, all directory names of
an alphabet, beads with extreme metadata: every search and the archive each
bead resolves to are compared before and after indexing, in fresh processes."""
import itertools
import os

from fw import World
import crowd
import lib

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive differential exploration: the same box searched and resolved with and without index'
NOTE = ('All boxes of up to 2 (thorough 3) archives over the naming alphabet, all directories of the alphabet; names are valid Unicode. '
        'Copies of one bead under one name count as one.')

TS = '20200101T000000000000+0000'
FULL = '_20200101T000000000000+0000'
NAMES = ['b' + FULL, 'b', 'b_20200101', 'b_20200101T', 'b_20200101T0102', 'b_2020010', 'b_20200101T000000000000+0000 copy', 'b (1)', 'B' + FULL,
         '.b' + FULL, 'b[1]' + FULL, 'b*' + FULL, 'b?' + FULL, "b'q" + FULL, 'b"q' + FULL, 'b;--' + FULL, 'b%20' + FULL, 'b#1' + FULL,
         'b\u00e9' + FULL, 'be\u0301' + FULL, 'b\n' + FULL, ' b ' + FULL, '-b' + FULL, 'b_20200101_20200102', 'b\\' + FULL, '\U0001f600' + FULL,
         'b.zip', 'b' + FULL + '.zip', 'b_' + FULL, '_' + FULL, 'x' * 200 + FULL, '~' + FULL, '$HOME' + FULL, 'b\x01' + FULL]
DIRS = ['box', 'b x', 'b#x', 'b?x', 'b?mode=ro', 'b%x', 'b%20x', 'b%2', "b'x", 'b"x', 'b;x', 'b&x', 'b:x', 'file:x', ':memory:', 'b\u00e9', 'be\u0301',
        'b*x', 'b[x]', 'b\nx', '.hidden', 'x.zip', 'a/b/c', '-dash', '~', '\U0001f600', 'b\\x', '$HOME', 'x' * 150]


def setup(w):
    mk = lib.make_bead
    base = mk(w, 'base', 'K', TS, out={'o': b'base'})
    other = mk(w, 'base', 'K', '20200101T020000000000+0200', out={'o': b'other'}, inputs={'i': base})
    third = mk(w, 'base', 'K2', '20200101T000000000001+0000', out={'o': b'third'}, inputs={'i': base, 'j': other})
    odd = []
    for ts in ('00010101T000000000000+0000', '00010101T000000000000+1400', '00010101T000000000000-1200', '19691231T235959999999+0000',
               '19700101T000000000000+0000', '19700101T000000000000-0001', '20200229T235959999999+2359', '20200101T000000999999-0330',
               '20200101T000000000003+0000', '20181231T235959123457+0545', '15821015T000000000001+0000', '10000101T000000333333+0000'):
        odd.append(lib.forge(base, meta={'freeze_time': ts}))
    for kind in ('\u00e9\U0001f600', ' ', 'x' * 3000, "'; DROP TABLE beads; --", 'a\0b', '\n', '%', '_'):
        odd.append(lib.forge(base, meta={'kind': kind}))
    ref = dict(kind='K', content_id=base.cid, freeze_time=TS)
    for inputs in ({'a': ref, 'b': ref, 'A': ref}, {'\u00e9 \n\'"': ref}, {f'i{k}': ref for k in range(40)}, {'x': {**ref, 'extra': 1}},
                   {'x': {**ref, 'kind': ''}}, {'x': {**ref, 'content_id': ''}}, {'x': {**ref, 'freeze_time': '00010101T000000000000+1400'}}):
        odd.append(lib.forge(base, meta={'inputs': inputs}))
    odd.append(lib.forge(base, meta={'freeze_name': 'something else'}))
    odd.append(lib.forge(base, meta={'more': {'x': [1]}}))
    odd.append(lib.forge(base, code={}, out={}))
    odd.append(lib.forge(base, extra=[('unrelated.txt', b'x')]))
    for i, info in enumerate(odd):
        info.file = f'odd{i}' + FULL + '.zip'
    return [base, other, third], odd


def _look(boxdir, queries):
    """everything found by every query, and where each bead resolves to"""
    from bead.box import Box
    seen = {}
    for q in queries:
        box = Box('b', lib.fw_path(boxdir))
        s = box.search()
        for m, v in q:
            s = getattr(s, m)(v)
        try:
            beads = s.all()
        except Exception as e:
            seen[q] = f'{type(e).__name__}: {e}'
            continue
        res = set()
        for b in beads:
            t = lib.bead_tuple(b)
            if q:
                res.add(t)
                continue
            place = set()
            for x in (box, Box('b', lib.fw_path(boxdir))):
                try:
                    a = x.resolve(b)
                    with open(a.location, 'rb') as f:
                        place.add((lib.securehash(f.read()), str(a.name), a.content_id, a.freeze_time_str))
                except Exception as e:
                    place.add(f'{type(e).__name__}: {e}')
            res.add((t, frozenset(place)))
        seen[q] = res
    return seen


def look(w, boxdir, queries, label):
    o = w.fork(_look, boxdir, queries, cwd=w.dir)
    w.check(o.kind == 'ret', f'{label}: searching ends in {o.kind}', 'died', outcome=o)
    return o.value


def compare(w, label, a, b):
    for q in a:
        if a[q] != b[q]:
            x, y = a[q], b[q]
            if isinstance(x, set) and isinstance(y, set):
                w.check(False, f'{label}: query {q}: only without index {sorted(map(repr, x - y))[:2]}, only with index {sorted(map(repr, y - x))[:2]}',
                        'differs')
            w.check(False, f'{label}: query {q}: {x!r} without, {y!r} with index'[:500], 'differs')


def queries_for(infos, found):
    qs = {()}
    for t in found:
        qs.add((('by_name', t[0]),))
        qs.add((('by_kind', t[1]),))
        qs.add((('by_content_id', t[2]),))
        for m in ('at_time', 'newer_than', 'older_than', 'at_or_newer', 'at_or_older'):
            qs.add(((m, t[3]),))
        qs.add((('by_name', t[0]), ('at_time', t[3])))
    qs = {q for q in qs if all(v for _, v in q)}
    return sorted(qs)


def case(w, c):
    dirname, items, way = c
    files = [(w.ctx.beads[i], n) for i, n in items]
    world = World(w.fresh())
    box = world.path(*dirname.split('/'))
    os.makedirs(box)
    for info, name in files:
        with open(os.path.join(box, name), 'wb') as f:
            f.write(info.data)
    if way == 'around':
        # what is no archive of this box
        for p in ('sub/c.zip', '.hidden/c.zip', 'sub/deep/c.zip', 'c.ZIP', 'c.zip.bak', 'czip', 'dir.zip/c.zip'):
            lib.write_tree(box, {p: w.ctx.beads[2].data})
        os.mkdir(os.path.join(box, 'empty.zip'))
        os.symlink('nowhere', os.path.join(box, 'dangling.zip'))
        os.symlink('sub', os.path.join(box, 'linked'))
    label = f'{dirname!r} holding {[n for _, n in files]!r} ({way})'
    if way == 'link':
        os.symlink(box, world.path('link'))
        box = world.path('link')
    first = look(w, box, [()], label)[()]
    w.check(isinstance(first, set), f'{label}: {first}', 'error')
    qs = queries_for(files, [t for t, _ in first])
    before = look(w, box, qs, label)
    wanted = {(i.cid, i.ts, i.kind) for i, _ in files}
    w.check({(t[2], t[3], t[1]) for t, _ in first} == wanted, f'{label}: beads are not found without index', 'raw', got=repr(first)[:2000])
    for t, place in first:
        w.check(all(isinstance(p, tuple) for p in place), f'{label}: {t[0]!r} does not resolve: {place}', 'raw-resolve')
        hashes = {lib.securehash(i.data) for i, _ in files if i.cid == t[2]}
        w.check(all(p[0] in hashes and p[1] == t[0] and p[2] == t[2] for p in place), f'{label}: {t[0]!r} resolves to another archive', 'raw-wrong')
    if way == 'registered':
        o = w.cli(world, 'box', 'add', 'known', box, clock=lib.T0)
        w.check(o.ok, f'{label}: box add fails', 'add', outcome=o)
        o = w.cli(world, 'box', 'index', clock=lib.T0)
    else:
        arg = f'--dir={box}'
        o = w.cli(world, 'box', 'reindex' if way == 'reindex' else 'index', arg, clock=lib.T0)
    w.check(o.ok and os.path.exists(os.path.join(box, lib.INDEX)), f'{label}: indexing fails', 'index', outcome=o)
    after = look(w, box, qs, label)
    compare(w, label, before, after)
    w.count('evaluations')
    w.count('queries', len(qs))
    w.distinct('nontrivial', c)
    w.sample({'box': dirname, 'files': [n for _, n in files], 'queries': len(qs), 'beads': len(first)})


def _beads(boxdir):
    from bead.box import Box
    return sorted((str(b.name), b.kind, b.freeze_time_str) for b in Box('b', lib.fw_path(boxdir)).all_beads())


def saved_case(w, c):
    """beads saved later into raw and indexed boxes"""
    dirname, name = c
    world = World(w.fresh())
    ws = world.path('w', name)
    os.mkdir(world.path('w'))
    w.check(w.cli(world, 'new', ws, clock=lib.T0).ok, 'new fails', 'setup')
    found = []
    for sub, indexed in (('raw', False), ('indexed', True)):
        box = world.path(sub, *dirname.split('/'))
        os.makedirs(box)
        lib.put(box, w.ctx.beads[0])
        w.check(w.cli(world, 'box', 'add', sub, box, clock=lib.T0).ok, f'box add {box!r} fails', 'add')
        if indexed:
            w.check(w.cli(world, 'box', 'index', '--box', sub, clock=lib.T0).ok, 'index fails', 'index')
        o = w.cli(world, 'save', sub, '-w', ws, clock=lib.T0)
        w.check(o.ok, f'saving {name!r} into {dirname!r} fails', 'save', outcome=o)
        r = w.fork(_beads, box)
        w.check(r.kind == 'ret', 'searching fails', 'search', outcome=r)
        found.append(r.value)
    w.count('evaluations')
    w.distinct('nontrivial', c)
    w.check(found[0] == found[1] and len(found[0]) == 2, f'{name!r} saved into {dirname!r}: found without index {found[0]}, with index {found[1]}', 'saved')


def _crowd_look(boxdir, names, every):
    """all beads, those of the names, and where every n-th of them resolves to"""
    from bead.box import Box
    box = Box('b', lib.fw_path(boxdir))
    beads = box.search().all()
    where = {}
    for b in sorted(beads, key=lambda b: (b.freeze_time_str, b.content_id))[::every]:
        a = box.resolve(b)
        where[b.content_id] = (os.path.basename(a.location), str(a.name), a.content_id)
    return [sorted(map(lib.bead_tuple, beads)), where,
            {n: sorted(map(lib.bead_tuple, box.search().by_name(n).all())) for n in names},
            {n: lib.bead_tuple(box.search().by_name(n).newest()) for n in names}]


def crowd_case(w, way):
    """a box of many beads: all of them are found and resolved, indexed by every way"""
    c = w.ctx.crowd
    world = World(w.fresh())
    box = world.path('box')
    lib.put(box, *c.all)
    world.set_boxes([('box', box)])
    names = ['v', 'big'] + [i.name for i in c.old[::3]]
    if way == 'raw':
        names = names[::13]
    else:
        o = w.cli(world, 'box', way, clock=lib.T0, timeout=200)
        w.check(o.ok and os.path.exists(os.path.join(box, lib.INDEX)), 'indexing fails', 'index', outcome=o)
    o = w.fork(_crowd_look, box, names, 150 if way == 'raw' else 1, timeout=400)
    label = f'{way}: a box of {len(c.all)} beads'
    w.check(o.kind == 'ret', f'{label}: searching or resolving ends in {o.kind} {o.exc} {o.message}', 'crowd-died', outcome=o)
    beads, where, by_name, newest = o.value
    want = sorted(lib.info_tuple(i, 'b') for i in c.all)
    w.check(beads == want, f'{label}: {len(set(want) - set(beads))} are not found, {len(set(beads) - set(want))} are not there', 'crowd-all')
    for n in names:
        w.check(by_name[n] == [t for t in want if t[0] == n], f'{label}: {len(by_name[n])} found by name {n}', 'crowd-name')
        w.check(newest[n] == max((t for t in want if t[0] == n), key=lambda t: t[3]), f'{label}: newest of {n}: {newest[n]}', 'crowd-newest')
    for i in c.all:
        if i.cid in where:
            w.check(where[i.cid] == (i.file, i.name, i.cid), f'{label}: {i.name} at {i.ts} resolves to {where[i.cid]}', 'crowd-resolve')
    w.count('evaluations', len(where) + 2 * len(names))


def main(ctx):
    ctx.crowd = ctx.setup(crowd.make)
    ctx.pmap(crowd_case, ['raw', 'index', 'reindex'], name='crowd')
    beads, odd = ctx.setup(setup)
    ctx.beads = beads + odd
    cases = []
    z = '.zip'
    for n in NAMES:
        for way in ('index', 'reindex', 'registered'):
            cases.append(('box', ((0, n + z),), way))
    for a, b in itertools.combinations(NAMES, 2):
        cases.append(('box', ((0, a + z), (1, b + z)), 'index'))
    for a, b in itertools.combinations(NAMES[:12] if ctx.quick else NAMES, 2):
        cases.append(('box', ((2, a + z), (2, b + z)), 'index'))
    for d in DIRS:
        for way in ('index', 'reindex', 'registered', 'link', 'around'):
            cases.append((d, ((0, NAMES[0] + z), (1 if way == 'around' else 2, 'c' + z)), way))
    for k, info in enumerate(odd):
        for way in ('index', 'reindex'):
            cases.append(('box', ((0, NAMES[0] + z), (3 + k, info.file)), way))
    if not ctx.quick:
        for a, b, c in itertools.combinations(NAMES[:20], 3):
            cases.append(('box', ((0, a + z), (1, b + z), (2, c + z)), 'index'))
        for (i, a), (j, b) in itertools.combinations(list(enumerate(odd)), 2):
            cases.append(('box', ((3 + i, a.file), (3 + j, b.file)), 'index'))
        for d in DIRS:
            for n in NAMES:
                cases.append((d, ((0, n + z),), 'index'))
    ctx.pmap(case, cases, name='boxes')
    saved = [(d, 'name') for d in DIRS] + [('box', n) for n in ('b', 'b[1]', 'b*', "b'q", 'b%20', 'b\u00e9', 'b_20200101', 'b#1', '.b', '-b', 'b.zip', 'B C')]
    ctx.pmap(saved_case, saved, name='saved later')
    ctx.coverage['rule'] = ('all single archives and pairs of archives over 34 namings, 29 directory names, 31 beads with extreme metadata; '
                            'all searches by name, kind, id and time and all resolutions compared before and after index/reindex')
