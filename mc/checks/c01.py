"""C01: save -> edit --review / input add reproduces every file.

Exhaustive over a bounded alphabet of file items: every single item in every
area under every compression setting, and every pair of items."""
import itertools
import os

from fw import World, snap, diff
import lib

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of workspaces, each executed on the real commands'
NOTE = ('Every item of a file alphabet alone and paired, times compression and inputs, is really saved, edited and loaded; '
        'the alphabet stands for all names, sizes, modes, times and links.')

BLOCK = 1024 ** 2
BIG = [(2, 0), (4, 1), (5, -1), (8, 0), (10, 1), (16, 0), (16, 1), (33, 5), (65, 3)]


def contents():
    noise = bytes((i * 2654435761 >> 7) & 255 for i in range(70000))
    zipped = lib.pack([('code/x', b'inner'), ('meta/bead', b'{}'), ('meta/manifest', b'{}')], 0)
    return {
        'empty': b'', 'byte': b'\0', 'text': b'line 1\r\nline 2\n', 'utf': 'árvíz'.encode('utf-16'),
        'noise': noise, '64k+1': noise[:65537], '64k': noise[:65536], '8k': noise[:8192],
        'block-1': b'\xff' * (BLOCK - 1), 'block': b'ab' * (BLOCK // 2), 'block+1': b'\0' * (BLOCK + 1),
        **{f'{m}M{x:+}': (b'0123456789abcdef!' * (m * BLOCK // 17 + 2))[:m * BLOCK + x] for m, x in BIG},
        'zip': zipped, 'eocd': b'PK\x05\x06' + b'\0' * 18,
    }


CONTENT = contents()

# name, content key, mode, mtime, link target kind
NAMES = [
    'a.txt', 'sub/deep/er/x', 'x y z', ' lead', 'trail ', '-dash', 'a\\b', 'a:b', 'q?*[1]', "quo'te\"", 'new\nline', 'tab\t',
    '.hidden', '.git/config', '..dots', '...', 'a..b', 'ő/ű', 'e\u0301', '日本', '🙂', 'n' * 255, 'd' * 100 + '/' + 'e' * 200,
    'input.txt', 'inputs/x', 'Input/x', 'src/input/x', 'src/output/x', 'src/temp/x', 'src/.bead-meta/bead',
    'code/x', 'data/x', 'meta/bead', 'meta/manifest', 'code/code/x', '.bead-meta2/bead', 'output2/x', 'temp.d/t',
    'x.zip', '__pycache__/m.pyc', 'CON', 'A/a', 'a/A', '%41', 'bead', '~', '$HOME', '#x#', 'con\x7f',
]
ITEMS = [dict(name=n) for n in NAMES]
ITEMS += [dict(name='c/' + k, content=k) for k in CONTENT if 'M' not in k]
ITEMS += [dict(name=f'mode{m:o}', mode=m) for m in (0o400, 0o444, 0o600, 0o755, 0o777, 0o4755)]
ITEMS += [dict(name=f'mtime{t}', mtime=t) for t in (0, 1, 315532799, 315532800, 4354819199, 4354819200, 7258118400)]
ITEMS += [dict(name='rodir/f', dirmode=0o555)]
ITEMS += [dict(name='lnk-' + k, link=k) for k in ('in', 'out', 'dir', 'outdir', 'chain', 'rel')]
# may be refused (then nothing is claimed), but if accepted must be restored
ITEMS += [dict(name='unreadable', mode=0, may_refuse=True), dict(name='\udcff\udcfe', may_refuse=True)]

# crowds of names in one workspace: all short ones, and what files are usually called that others want to skip
_ALPHABET = '.#~_- aA0$@+,=%!'
SHORT = [''.join(x) for k in (1, 2) for x in itertools.product(_ALPHABET, repeat=k)] + [''.join(x) for x in itertools.product(_ALPHABET[:8], repeat=3)]
PREFIXES = ['', '.', '..', '.#', '#', '~', '~$', '_', '__', '-', '@', '.~', '._', '.nfs', 'tmp', '$']
STEMS = ['a', 'input', 'output', 'temp', 'bead', 'bead-meta', 'core', 'CVS', 'git', 'gitignore', 'svn', 'hg', 'DS_Store', 'Thumbs.db', 'lock', 'index', 'index.sqlite', 'cache',
         'pycache', 'pytest_cache', 'ipynb_checkpoints', 'venv', 'env', 'node_modules', 'Makefile', 'README', 'desktop.ini', 'fuse_hidden', 'Trash-1000', 'lost+found',
         'code', 'data', 'meta', 'manifest', 'loading', 'unloading', 'INPUT', 'Temp']
SUFFIXES = ['', '~', '.', '..', '.tmp', '.swp', '.bak', '.orig', '.rej', '.pyc', '.o', '.so', '.zip', '.lock', '.sqlite', '.sqlite-journal', '.log', '.part', '.1', '#', ' ', '_', '__', '-', '.ipynb',
            '.exe', '.lnk', '.gz']
OWN = {'.', '..', 'input', 'output', 'temp', '.bead-meta'}
CROWDS = [dict(name='short', crowd=[n for n in SHORT if n not in OWN])]
CROWDS += [dict(name=f'affixes {p}', crowd=[n for n in (p + s + e for s in STEMS for e in SUFFIXES) if n not in OWN]) for p in PREFIXES]

CORE = ['a.txt', 'sub/deep/er/x', 'a\\b', 'new\nline', '.hidden', 'e\u0301', 'n' * 255, 'input.txt', 'src/input/x', 'src/output/x',
        'src/.bead-meta/bead', 'code/x', 'data/x', 'meta/bead', 'meta/manifest', 'Input/x', 'A/a', 'a/A', 'c/empty', 'c/block+1', 'c/zip',
        'mode400', 'mode755', 'mtime0', 'rodir/f']

# alone only
LARGE = [dict(name='large', content=f'{m}M{x:+}') for m, x in BIG]
DEEP = [dict(name='/'.join(['d'] * n + ['f'])) for n in (8, 10, 16, 20, 32, 33, 50, 64, 100, 128, 200)]
DEEP += [dict(name='/'.join(['p' * n] * k + ['f'])) for n, k in ((30, 8), (30, 9), (50, 20), (100, 10), (100, 11), (200, 5), (240, 12), (255, 13))]

COMPRESSION = [None, 'off', 'stored', 'deflated', 'bogus', '']


def place(ws, area, item, k):
    """create the item; returns its expected {path below area: bytes}"""
    base = ws if area == 'code' else os.path.join(ws, 'output')
    content = CONTENT[item.get('content', 'text')] + (b'' if 'content' in item else b'%d' % k)
    if 'crowd' in item:
        r = {}
        for n in item['crowd']:
            r[item['at'].format(n)] = f'{k} {n}'.encode()
        lib.write_tree(base, r)
        return r
    p = os.path.join(base, item['name'])
    if os.path.lexists(p):
        return None
    os.makedirs(os.path.dirname(p), exist_ok=True)
    link = item.get('link')
    outside = os.path.join(os.path.dirname(ws), f'outside{k}')
    if link:
        if link == 'dir' or link == 'outdir':
            d = os.path.join(base, f'realdir{k}') if link == 'dir' else outside
            os.makedirs(os.path.join(d, 'n'))
            for rel, c in (('f1', content), ('n/f2', b'2')):
                with open(os.path.join(d, rel), 'wb') as f:
                    f.write(c)
            os.symlink(d, p)
            r = {item['name'] + '/f1': content, item['name'] + '/n/f2': b'2'}
            if link == 'dir':
                r.update({f'realdir{k}/f1': content, f'realdir{k}/n/f2': b'2'})
            return r
        target = outside if link == 'out' else os.path.join(base, f'real{k}')
        with open(target, 'wb') as f:
            f.write(content)
        r = {item['name']: content}
        if link != 'out':
            r[f'real{k}'] = content
        if link == 'chain':
            os.symlink(target, p + '2')
            r[item['name'] + '2'] = content
            target = p + '2'
        os.symlink(os.path.relpath(target, os.path.dirname(p)) if link == 'rel' else target, p)
        return r
    with open(p, 'wb') as f:
        f.write(content)
    if 'mode' in item:
        os.chmod(p, item['mode'])
    if 'mtime' in item:
        os.utime(p, (item['mtime'], item['mtime']))
    if 'dirmode' in item:
        os.chmod(os.path.dirname(p), item['dirmode'])
    return {item['name']: content}


def case_fn(w, case):
    placed, compression, ninputs, loaded = case
    root = w.fresh()
    world = World(root)
    box = world.path('box')
    os.mkdir(box)
    world.set_boxes([('box', box)])
    ws = world.path('work', 'sample-bead')
    os.mkdir(world.path('work'))
    o = w.cli(world, 'new', ws, clock=lib.T0)
    w.check(o.ok, 'new fails', 'new', outcome=o)
    ref = w.ctx.ref
    lib.put(box, *ref[:ninputs])
    for n in range(ninputs):
        o = w.cli(world, 'input', 'add', f'in{n}', ref[n].name, cwd=ws, clock=lib.T0)
        w.check(o.ok, 'input add fails', 'input-add', outcome=o)
        if not loaded:
            w.cli(world, 'input', 'unload', f'in{n}', cwd=ws, clock=lib.T0)
    with open(os.path.join(ws, 'temp', 'scratch'), 'w') as f:
        f.write('temporary')
    with open(os.path.join(ws, '.bead-meta', 'other'), 'w') as f:
        f.write('own')
    code, out = {}, {}
    may_refuse = False
    for k, (area, item) in enumerate(placed):
        r = place(ws, area, item, k)
        if r is None:
            w.count('skipped_name_clash')
            return
        (code if area == 'code' else out).update(r)
        may_refuse |= item.get('may_refuse', False)
    meta0 = lib.ws_meta(ws)
    before = snap(ws)
    env = dict(world.env)
    world.env['BEAD_ZIP_COMPRESSION'] = compression
    o = w.cli(world, 'save', 'box', cwd=ws, clock=lib.T0 + 5 * lib.NS)
    world.env = env
    after = snap(ws)
    w.check(before == after, 'saving changed the workspace', 'save-changes-ws', diff=diff(before, after))
    w.count('evaluations')
    placed = [(a, {x: y for x, y in i.items() if x != 'crowd'}) for a, i in placed]
    w.distinct('nontrivial', [(a, sorted(i.items())) for a, i in placed] + [compression, ninputs, loaded])
    if not o.ok:
        w.check(may_refuse and o.kind in ('exit', 'exc', 'ret'), 'save fails on a plain workspace', 'save-fails', outcome=o)
        w.count('refused')
        return
    new = [f for f in os.listdir(box) if f not in {i.file for i in ref[:ninputs]}]
    w.check(len(new) == 1, f'save made {new}', 'save-files')
    # edit --review
    back = world.path('back')
    o = w.cli(world, 'edit', '--review', 'sample-bead', back, clock=lib.T0 + 9 * lib.NS)
    w.check(o.ok, 'edit --review of a saved bead fails', 'edit-fails', outcome=o)
    gcode, gout = lib.code_and_output(back)
    w.check(gcode == code, 'code differs after edit', 'code-differs', **delta(code, gcode))
    w.check(gout == out, 'output differs after edit --review', 'output-differs', **delta(out, gout))
    meta1 = lib.ws_meta(back)
    w.check(meta1['kind'] == meta0['kind'], 'kind differs after edit', 'kind-differs')
    w.check(meta1['inputs'] == meta0['inputs'], 'inputs differ after edit', 'inputs-differ', a=meta0, b=meta1)
    w.check(os.listdir(os.path.join(back, 'input')) == [] and os.listdir(os.path.join(back, 'temp')) == []
            and os.listdir(os.path.join(back, '.bead-meta')) == ['bead'],
            'input, temp or metadata files are carried over', 'carried-over')
    # load
    user = world.path('user')
    w.check(w.cli(world, 'new', user, clock=lib.T0).ok, 'new fails', 'new')
    o = w.cli(world, 'input', 'add', 'x', 'sample-bead', cwd=user, clock=lib.T0 + 9 * lib.NS)
    w.check(o.ok, 'input add of a saved bead fails', 'add-fails', outcome=o)
    w.check(os.path.isdir(os.path.join(user, 'input', 'x')), 'input add loads nothing', 'not-loaded', outcome=o)
    got = lib.files_below(os.path.join(user, 'input', 'x'))
    w.check(got == out, 'loaded files differ from the output', 'loaded-differs', **delta(out, got))
    w.sample({'items': [(a, i) for a, i in placed], 'compression': compression, 'inputs': ninputs,
              'files': len(code) + len(out)})


def delta(want, got):
    return {'missing': sorted(set(want) - set(got))[:9], 'extra': sorted(set(got) - set(want))[:9],
            'changed': [k for k in want if k in got and want[k] != got[k]][:9]}


def main(ctx):
    ctx.ref = ctx.setup(lambda w: [
        lib.make_bead(w, 'ref-a', 'kind-a', '20200101T000000000000+0000', out={'ra': b'A', 'd/rb': b'B'}),
        lib.make_bead(w, 'ref-b', 'kind-b', '20200102T000000000000+0000', out={})])
    cases = [((), None, 0, False), ((), 'off', 2, True)]
    for item in ITEMS:
        for area in ('code', 'output'):
            for comp in (COMPRESSION if not ctx.quick else COMPRESSION[:3]):
                cases.append((((area, item),), comp, 0, False))
    large = []
    for k, item in enumerate(LARGE if not ctx.quick else LARGE[:-1]):
        for area in ('code', 'output'):
            for comp in (COMPRESSION[:3] if not ctx.quick else (COMPRESSION[k % 3],)):
                large.append((((area, item),), comp, 0, False))
    cases = large[::-1] + cases
    for item in DEEP:
        cases += [(((area, item),), None, 0, False) for area in ('code', 'output')]
        cases.append(((('code', item), ('output', item)), 'off', 0, False))
    for n, loaded in ((1, True), (1, False), (2, True), (2, False)):
        for comp in COMPRESSION:
            cases.append(((('code', ITEMS[0]), ('output', ITEMS[1])), comp, n, loaded))
    k = 0
    # files in the area, in a directory, and in directories of these names
    for crowd in CROWDS:
        for at in ('{}', 'sub/{}', '{}/f', 'code/{}/x'):
            if ctx.quick and at[0] != '{' and crowd['name'] not in ('short', 'affixes ', 'affixes .'):
                continue
            cases.append(((('code', {**crowd, 'at': at}), ('output', {**crowd, 'at': at})), COMPRESSION[len(cases) % 3], 0, False))
    # the same item in both areas, and every pair of items
    for item in ITEMS:
        cases.append(((('code', item), ('output', item)), None, 1, True))
    pairs = [i for i in ITEMS if i['name'] in CORE or 'link' in i] if ctx.quick else ITEMS
    for a, b in itertools.combinations(pairs, 2):
        k += 1
        areas = (('code', 'code'), ('output', 'output'), ('code', 'output'), ('output', 'code'))
        for ar in (areas[:3:2] if ctx.quick else areas):
            cases.append((((ar[0], a), (ar[1], b)), COMPRESSION[k % 3], k % 2, True))
    ctx.pmap(case_fn, cases, 'roundtrip')
    ctx.coverage['rule'] = (
        f'{len(ITEMS)} file items (names, contents, modes, times, links): every item alone in both areas with each '
        'compression setting; every item in both areas together; files of up to 33 (thorough: 65) MiB and up to 200 directories deep; '
        + (f'every pair of {len(pairs)} core items' if ctx.quick else 'every pair in all four area combinations')
        + '. A case is distinct by its items, areas, compression and inputs; each is a full save, edit --review, input add.')
    ctx.coverage['crowds'] = f'{len(SHORT)} short names and {sum(len(c["crowd"]) for c in CROWDS[1:])} combinations of prefix, stem and suffix, many in a workspace'
    ctx.coverage['exhaustive'] = True
    ctx.assumptions = ['local file system without hard limits below 255 byte names', 'the alphabet of items stands for all names and sizes']
