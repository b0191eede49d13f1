"""C17: junk in a box never hides or blocks the good beads.

Every junk file of a catalogue - every cut, every metadata field missing or of
every wrong type, structural damage of zip files, directories, links, odd
names - is put beside good beads, one at a time and all together (thorough: in
all pairs of a part), with and without an index; the good beads must be found,
resolved, loaded, edited and indexed as if it was not there."""
import itertools
import json
import os
import stat
import struct

from fw import World, snap
import lib

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive exploration: every junk file of an enumerated catalogue, alone and in combinations, on the real search, resolve, load, edit and index code'
NOTE = ('Good beads replaced in place by junk while indexed are out of scope; damaged copies of a newer version of a name may be '
        'selected instead of the good ones (they are reported, C31), so these are not among the junk.')

GOOD_TS = {'a': '20200601T000000000000+0000', 'b': '20200602T000000000000+0000'}
OLD = '20190101T000000000000+0000'


def patched(data, sig, offset, fmt, value, nth=0):
    """data with a field of the nth zip record of a kind changed"""
    at = -1
    for _ in range(nth + 1):
        at = data.index(sig, at + 1)
    b = bytearray(data)
    struct.pack_into(fmt, b, at + offset, value)
    return bytes(b)


LOCAL, CENTRAL, END = b'PK\x03\x04', b'PK\x01\x02', b'PK\x05\x06'


def catalogue(w, a, b, old, full):
    """[(label, file name, content)] - content is bytes, or a (kind, ...) tuple"""
    out = []
    pos = len(old.data)
    nocomment = old.data.index(END) + 22

    def junk(label, content, names=('junk.zip', f'a_{OLD}.zip')):
        for n in names if full else names[:1]:
            out.append((f'{label} as {n}', n, content))

    both = ('junk.zip', f'a_{OLD}.zip', 'a.zip')
    junk('empty file', b'', both)
    junk('text', b'hello\n', both)
    junk('zero bytes', b'\0' * 5000)
    junk('only an end record', END + b'\0' * 18)
    junk('zip without files', lib.pack([]))
    junk('zip that is not a bead', lib.pack([('x', b'1'), ('code/y', b'2')]))
    for cut in sorted({*range(0, nocomment, 7 if full else 97), *range(nocomment - 24, nocomment)}):
        junk(f'cut at {cut}', old.data[:cut], both[1:2])
    step = 5 if full else 61
    for k in range(0, nocomment, step):
        junk(f'byte {k} changed', old.data[:k] + bytes([old.data[k] ^ 0xff]) + old.data[k + 1:], both[1:2])
    # structure
    n = len(lib.members(old.data))
    for i in range(n):
        for what, sig, offset, fmt, value in (
                ('encrypted', CENTRAL, 8, '<H', 1), ('encrypted locally', LOCAL, 6, '<H', 1), ('unknown compression', CENTRAL, 10, '<H', 97),
                ('bzip2', CENTRAL, 10, '<H', 12), ('lzma', CENTRAL, 10, '<H', 14), ('stored', CENTRAL, 10, '<H', 0),
                ('wrong crc', CENTRAL, 16, '<I', 1), ('huge', CENTRAL, 24, '<I', 0xfffffff0), ('zip64 size', CENTRAL, 24, '<I', 0xffffffff),
                ('huge compressed', CENTRAL, 20, '<I', 0xfffffff0), ('wrong offset', CENTRAL, 42, '<I', 0x7fffffff), ('offset 0', CENTRAL, 42, '<I', 1),
                ('long name', CENTRAL, 28, '<H', 0xffff), ('newer version', CENTRAL, 6, '<H', 999), ('utf-8 flag', CENTRAL, 8, '<H', 0x800),
                ('patched data', CENTRAL, 8, '<H', 0x20), ('strong encryption', CENTRAL, 8, '<H', 0x40)):
            if full or i in (n - 1, n - 2):
                junk(f'{what} member {i}', patched(old.data, sig, offset, fmt, value, i), both[1:2])
    for what, offset, fmt, value in (('entries', 10, '<H', 0xffff), ('directory size', 12, '<I', 0xffffffff), ('directory size 0', 12, '<I', 0),
                                     ('directory offset', 16, '<I', 0xffffffff), ('disk', 4, '<H', 7), ('comment length', 20, '<H', 0xffff)):
        junk(f'wrong {what}', patched(old.data, END, offset, fmt, value), both[1:2])
    mems = lib.members(old.data)
    for i, (name, data) in enumerate(mems):
        junk(f'without {name}', lib.pack(mems[:i] + mems[i + 1:]), both[:2])
        junk(f'{name} empty', lib.pack(mems[:i] + [(name, b'')] + mems[i + 1:]))
        junk(f'{name} binary', lib.pack(mems[:i] + [(name, b'\xff\xfe\0')] + mems[i + 1:]))
    for name in ('/etc/passwd', '../x', 'code/../../x', 'code//x', 'code/\udcff'[:5] + '\u00ff', 'data/\\x', 'code/input/x', 'meta/../meta/bead'):
        junk(f'member {name}', lib.forge(old, extra=[(name, b'x')]).data)
    # metadata
    for what, text in (('empty', b''), ('null', b'null'), ('list', b'[]'), ('string', b'"x"'), ('number', b'1'), ('true', b'true'), ('empty object', b'{}'),
                       ('nan', b'NaN'), ('deep', b'[' * 100000), ('deep object', b'{"kind":' * 50000), ('long number', b'1' * 10000),
                       ('not utf-8', b'{"kind": "\xff"}'), ('bom', b'\xef\xbb\xbf{}'), ('utf-16', '{}'.encode('utf-16')), ('cut', b'{"kind": "x", "inp')):
        junk(f'meta/bead {what}', lib.forge(old, meta_bytes=text).data, both[:2])
        junk(f'meta/manifest {what}', lib.forge(old, manifest_bytes=text).data, both[:2])
    values = (None, 0, -1, 1.5, 1e308, True, '', 'x', [], ['x'], {}, {'x': 'y'}, 'x' * 100000, '\0', '\ud800', 10 ** 30)
    meta = json.loads(dict(mems)['meta/bead'])
    for key in sorted(meta):
        for v in values:
            junk(f'meta {key} is {str(v)[:12]!r} {type(v).__name__}', lib.forge(old, meta={key: v}).data, both[1:2])
        junk(f'meta without {key}', lib.forge(old, meta=lambda m: {k: v for k, v in m.items() if k != key}).data, both[1:2])
    ref = a.spec()
    for v in values:
        junk(f'input is {str(v)[:12]!r} {type(v).__name__}', lib.forge(old, meta={'inputs': {'i': v}}).data, both[1:2])
        for key in sorted(ref):
            junk(f'input {key} is {str(v)[:12]!r} {type(v).__name__}', lib.forge(old, meta={'inputs': {'i': {**ref, key: v}}}).data, both[1:2])
    for key in sorted(ref):
        junk(f'input without {key}', lib.forge(old, meta={'inputs': {'i': {k: v for k, v in ref.items() if k != key}}}).data, both[1:2])
    for nick in ('', '/', '..', 'a/b', '\0', '\ud800', 'x' * 3000):
        junk(f'input called {nick[:5]!r}', lib.forge(old, meta={'inputs': {nick: ref}}).data, both[1:2])
    for ts in ('20201301T000000000000+0000', '20200101T000000000000', '2020', '20200101T000000000000+9999', '00000101T000000000000+0000',
               '20200101t000000000000+0000', '20200101T000000000000+0000x', '\u0662\u0660200101T000000000000+0000'):
        junk(f'freeze time {ts}', lib.forge(old, meta={'freeze_time': ts}).data, both[1:2])
    # damaged copies of the good ones (which one comes first depends on the names)
    for g in (a, b):
        gm = lib.members(g.data)
        broken = [(f'copy of {g.name} with wrong {name}', lib.pack(gm[:i] + [(name, data + b'!')] + gm[i + 1:]))
                  for i, (name, data) in enumerate(gm) if not name.startswith('meta/')]
        broken += [(f'copy of {g.name} without {name}', lib.pack(gm[:i] + gm[i + 1:])) for i, (name, data) in enumerate(gm)
                   if not name.startswith('meta/')]
        broken += [(f'copy of {g.name} with an extra file', lib.pack(gm + [('code/extra', b'x')]))]
        for k, (label, data) in enumerate(broken):
            for name in [f'{g.name}_2010010{d}.zip' for d in range(1, 7)][:6 if full or k < 2 else 1]:
                out.append((f'{label} as {name}', name, data))
    # things that are not files
    out += [('dangling link', 'link.zip', ('link', 'nowhere')), ('link loop', 'loop.zip', ('link', 'loop.zip')), ('link to a directory', 'up.zip', ('link', '..')),
            ('link to the box', f'a_{OLD}.zip', ('link', '.')), ('directory', 'dir.zip', ('dir',)), ('directory with beads', 'sub', ('dir', a.file, a.data)),
            ('directory called like a bead', f'a_{OLD}.zip', ('dir', 'x', b'x')), ('unreadable file', f'a_{OLD}.zip', ('mode', 0, old.data)),
            ('unreadable directory', 'locked.zip', ('lockeddir',)), ('link to an absolute place', 'abs.zip', ('link', '/nonexistent/x.zip')),
            ('named pipe', 'pipe.zip', ('fifo',)), ('named pipe called like a bead', f'a_{OLD}.zip', ('fifo',)), ('device', 'null.zip', ('link', '/dev/null')),
            ('endless device', f'a_{OLD}.zip', ('link', '/dev/zero'))]
    # odd names, with and without proper content
    for name in ('.zip', '_.zip', ' .zip', '_20200101.zip', '.hidden.zip', 'a.ZIP', 'a.zip~', 'a.zip.part', 'a_20200601T000000000000+0000.tmp', '*.zip',
                 '[.zip', 'x\ny.zip', "';.zip", b'\xff\xfe.zip', b'a_\xff.zip', 'x' * 251 + '.zip', '..zip', '....zip', '-.zip', '~.zip', '%s%n.zip', '\u202e.zip',
                 'notes.txt', '.index.sqlite-old', 'a_20200601T000000000000+0000.zip.zip', 'README'):
        out.append((f'text called {name!r}', name, b'junk'))
        out.append((f'bead called {name!r}', name, old.data))
    for name in ('.index.sqlite-journal', '.index.sqlite-wal', '.index.sqlite-shm'):
        out.append((f'text called {name}', name, b'not sqlite'))
    return out


def place(box, name, content):
    p = os.path.join(os.fsencode(box), os.fsencode(name))
    if isinstance(content, bytes):
        with open(p, 'wb') as f:
            f.write(content)
    elif content[0] == 'link':
        os.symlink(content[1], p)
    elif content[0] == 'fifo':
        os.mkfifo(p)
    elif content[0] == 'mode':
        with open(p, 'wb') as f:
            f.write(content[2])
        os.chmod(p, content[1])
    else:
        os.mkdir(p)
        if content[1:]:
            with open(os.path.join(p, os.fsencode(content[1])), 'wb') as f:
                f.write(content[2])
        if content[0] == 'lockeddir':
            os.chmod(p, 0)


def setup(w, full):
    mk = lib.make_bead
    a = mk(w, 'a', 'K', GOOD_TS['a'], out={'o': b'A', 'd/p': b'AA' * 50})
    b = mk(w, 'b', 'KB', GOOD_TS['b'], out={'o': b'B'}, inputs={'i': a})
    old = mk(w, 'a', 'KO', OLD, out={'o': b'O'}, inputs={'i': b})
    world = World(w.fresh())
    box = world.path('box')
    lib.put(box, a, b)
    world.set_boxes([('box', box)])
    ws = world.path('ws')
    w.check(w.cli(world, 'new', ws, clock=lib.T0).ok, 'new fails', 'setup')
    w.check(w.cli(world, 'input', 'add', 'x', 'a', '-w', ws, clock=lib.T0).ok, 'add fails', 'setup')
    w.check(w.cli(world, 'input', 'unload', 'x', '-w', ws, clock=lib.T0).ok, 'unload fails', 'setup')
    images = {'raw': lib.image_of(world, 'raw', [('box', 'box')])}
    w.check(w.cli(world, 'box', 'index', clock=lib.T0).ok, 'index fails', 'setup')
    images['indexed'] = lib.image_of(world, 'indexed', [('box', 'box')])
    return images, (a, b), catalogue(w, a, b, old, full)


def _look(config, goods):
    """problems of finding the good beads"""
    from bead.box import search
    from bead_cli.environment import Environment
    problems, n = [], 0

    def attempt(what, f):
        try:
            return f()
        except Exception as e:
            problems.append(f'{what}: {type(e).__name__}: {e}')

    for name, kind, cid, ts, file, tup in goods:
        for fresh in (False, True):
            queries = {'all': lambda s: s.all(), 'name': lambda s: s.by_name(name).all(), 'kind': lambda s: s.by_kind(kind).all(),
                       'content id': lambda s: s.by_content_id(cid).all(), 'time': lambda s: s.at_time(ts).all(),
                       'newest': lambda s: [s.by_name(name).newest()], 'unique': lambda s: s.unique().all()}
            for q, f in queries.items():
                boxes = Environment.from_dir(config).get_boxes()
                found = attempt(f'search by {q}', lambda: f(search(boxes)))
                if found is None:
                    continue
                n += 1
                hits = [x for x in found if lib.bead_tuple(x) == tup]
                if not hits:
                    problems.append(f'search by {q} does not find {name}: {[(x.name, x.freeze_time_str) for x in found]}')
                    continue
                if q in ('all', 'name', 'newest'):
                    if fresh:
                        boxes = Environment.from_dir(config).get_boxes()
                    a = attempt(f'resolve {name} found by {q}', lambda: boxes[0].resolve(hits[0]))
                    if a is not None:
                        attempt(f'{name} found by {q} resolves to a damaged archive', a.validate)
                        if a.content_id != cid:
                            problems.append(f'{name} resolves to something else')
                        n += 1
    return problems, n


def judge(w, case):
    mode, picks = case
    ctx = w.ctx
    items = [ctx.junk[k] for k in picks]
    label = f'{mode} box with ' + (' and '.join(j[0] for j in items) if len(items) < 4 else f'{len(items)} junk files')
    goods = [(g.name, g.kind, g.cid, g.ts, g.file, lib.info_tuple(g, 'box')) for g in ctx.goods]
    world = lib.world_of(w, ctx.images[mode])
    box = world.path('box')
    skipped = 0
    for _, name, content in items:
        if not os.path.lexists(os.path.join(os.fsencode(box), os.fsencode(name))):
            place(box, name, content)
        else:
            skipped += 1
    w.check(not skipped or len(picks) > 1, f'{label}: not placed', 'setup')
    before = snap(box, skip=(lib.INDEX,))
    w.count('evaluations')
    w.distinct('nontrivial', case)

    def look(when):
        o = w.fork(_look, world.config, goods, cwd=world.home, clock=lib.T0)
        w.check(o.kind == 'ret', f'{label}{when}: searching ends in {o.kind}', 'look', outcome=o)
        problems, n = o.value
        w.check(not problems, f'{label}{when}: {problems[:2]}', 'hidden', problems=problems)
        w.count('searches', n)

    def run(*argv):
        o = w.cli(world, *argv, clock=lib.T0)
        w.check(o.ok and 'Failed' not in o.out, f'{label}: {" ".join(map(str, argv[:3]))} fails', f'fails:{argv[0]}:{argv[1]}', outcome=o)
        w.count('commands')

    look('')
    if len(picks) > 1 or not ctx.quick:
        commands = ('index', 'reindex')
    else:
        commands = ('index',) if mode == 'raw' else ('reindex',)
    if len(picks) > 1 or not ctx.quick:
        # the good beads can be used
        run('input', 'load', '-w', world.ws)
        run('input', 'add', 'y', 'b', '-w', world.ws)
        run('input', 'update', 'x', '-w', world.ws)
        run('edit', 'b', world.path('edited'))
        run('status', '-w', world.ws)
        with open(os.path.join(world.ws, 'input', 'x', 'd', 'p'), 'rb') as f:
            w.check(f.read() == b'AA' * 50, f'{label}: wrong data is loaded', 'loaded')
    for c in commands:
        run('box', c)
        look(f', then box {c}')
    after = snap(box, skip=(lib.INDEX,))
    # leftovers of sqlite belong to the index
    mine = {k: v for k, v in after.items() if not k.startswith(lib.INDEX)}
    w.check(mine == {k: v for k, v in before.items() if not k.startswith(lib.INDEX)}, f'{label}: files in the box are changed', 'changed',
            diff=lib.diff(before, after))
    w.sample({'junk': label})


def main(ctx):
    ctx.images, ctx.goods, ctx.junk = ctx.setup(setup, not ctx.quick)
    n = len(ctx.junk)
    singles = [(mode, (k,)) for mode in ('raw', 'indexed') for k in range(n)]
    # everything together, in as many boxes as needed for files of the same name
    by_name = {}
    for k, j in enumerate(ctx.junk):
        by_name.setdefault(j[1], []).append(k)
    piles = []
    for row in itertools.zip_longest(*by_name.values()):
        piles.append(tuple(k for k in row if k is not None))
    big = [(mode, p) for mode in ('raw', 'indexed') for p in piles if len(p) > 1]
    cases = singles + big
    if not ctx.quick:
        some = [k for k in range(n) if not ctx.junk[k][0].startswith(('cut at', 'byte', 'input ', 'meta '))][::3]
        cases += [(mode, p) for mode in ('raw', 'indexed') for p in itertools.combinations(some, 2) if ctx.junk[p[0]][1] != ctx.junk[p[1]][1]]
    ctx.pmap(judge, cases, name='junk')
    ctx.coverage['rule'] = 'every junk file of the catalogue alone, and with one file of every other name of the catalogue, in raw and indexed boxes'
    ctx.coverage['catalogue'] = n
