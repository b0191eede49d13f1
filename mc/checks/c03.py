"""C03: no damage to an archive goes unnoticed.

Every single-bit flip, truncation, byte deletion and insertion of small
archives, every member-level edit and every pair of member-level edits; each
damaged file is checked by the real code. Damaged files of every outcome class
are then offered to `bead edit` and `bead input add`."""
import itertools
import os
import zipfile

import fw
from fw import World, snap, diff
import lib

LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of byte and member level damage, each judged by the real validation'
NOTE = ('All single-bit flips, truncations, one-byte deletions/insertions and all single and double member edits of the base archives; '
        'other multi-byte damage is covered only as far as these compose. Assumes SHA-512 does not collide.')

BATCH = 250
# external attributes (and the system they are for) of added members
ATTRIBUTES = [('directory', 0o40755 << 16 | 0x10, 3), ('dos directory', 0x10, 0), ('hidden', 0x02, 0), ('volume label', 0x08, 0), ('symlink', 0o120777 << 16, 3),
              ('socket', 0o140644 << 16, 3), ('no mode', 0, 3), ('executable', 0o100755 << 16, 3)]


def byte_damage(data, ops):
    """the damaged versions of data for a list of (op, position, argument)"""
    for op, pos, arg in ops:
        if op == 'flip':
            b = bytearray(data)
            b[pos] ^= 1 << arg
            yield bytes(b)
        elif op == 'cut':
            yield data[:pos]
        elif op == 'del':
            yield data[:pos] + data[pos + 1:]
        elif op == 'ins':
            yield data[:pos] + bytes([arg]) + data[pos:]
        elif op == 'set':
            yield data[:pos] + bytes([arg]) + data[pos + 1:]
        elif op == 'zero':
            yield data[:pos] + b'\0' * min(arg, len(data) - pos) + data[pos + arg:]
        elif op == 'move':
            yield data[:pos] + data[pos + arg:]
        elif op == 'pre':
            yield bytes([arg]) * pos + data


def judge(path, base):
    """(verdict, text): the real check of one damaged file"""
    from bead.exceptions import InvalidArchive
    from bead.ziparchive import ZipArchive
    try:
        a = ZipArchive(path)
        a.validate()
    except InvalidArchive:
        return 'invalid', ''
    except Exception as e:
        return 'error', f'{type(e).__name__}: {e}'
    try:
        cid = a.content_id
        if cid != base['cid']:
            return 'other-id', ''
        if a.meta != base['meta']:
            return 'undetected', 'metadata changed'
        d = path + '.d'
        from bead.tech.fs import Path
        a.unpack_code_to(Path(d) / 'c')
        a.unpack_data_to(Path(d) / 'd')
        code, out = lib.files_below(d + '/c'), lib.files_below(d + '/d')
        fw.wipe(d)
        if code != base['code'] or out != base['out']:
            return 'undetected', f'files changed: {sorted(code)} {sorted(out)}'
        return 'unchanged', ''
    except Exception as e:
        return 'error', f'after a successful check: {type(e).__name__}: {e}'


def judge_all(root, datas, base):
    res = []
    path = os.path.join(root, 'bead_20200101T000000000000+0000.zip')
    from bead import zipopener
    for data in datas:
        with open(path, 'wb') as f:
            f.write(data)
        res.append(judge(path, base))
        zipopener.close_all()
    return res


def run_batch(w, root, base, datas, labels):
    o = w.fork(judge_all, root, datas, base, clock=lib.T0, timeout=120)
    if o.kind != 'ret':
        w.check(len(datas) > 1, f'checking a damaged archive ends in {o.kind}', 'died', damage=labels, outcome=o)
        for d, lab in zip(datas, labels):
            run_batch(w, root, base, [d], [lab])
        return []
    for (verdict, text), d, lab in zip(o.value, datas, labels):
        w.count('evaluations')
        w.count('verdict_' + verdict)
        if verdict in ('error', 'undetected'):
            w.violation(f'damage {lab} of archive {base["name"]}: {verdict} {text}',
                        f'{verdict}:{text.split(":")[0]}', {'damage': lab})
        else:
            w.distinct('nontrivial', [base['name'], verdict, lab])
    return [v for v, _ in o.value]


def byte_case(w, case):
    b, ops = case
    base = w.ctx.bases[b]
    root = w.fresh()
    run_batch(w, root, base, list(byte_damage(base['data'], ops)), list(ops))
    w.sample({'archive': base['name'], 'damage': ops[0]})


# ------------------------------------------------------------- member edits
def member_edits(base, other):
    """[(label, function on the member list)] applicable to any member list of this archive"""
    edits = []
    names = [n for n, _ in base['members']]

    def rep(n, new):
        return lambda ms: [(m, new(d) if m == n else d) for m, d in ms]

    for n in names:
        edits.append((f'remove {n}', lambda ms, n=n: [m for m in ms if m[0] != n]))
        edits.append((f'empty {n}', rep(n, lambda d: b'')))
        edits.append((f'append to {n}', rep(n, lambda d: d + b'\n')))
        edits.append((f'truncate {n}', rep(n, lambda d: d[:-1])))
        edits.append((f'first byte of {n}', rep(n, lambda d: bytes([d[0] ^ 1]) + d[1:] if d else b'\1')))
        edits.append((f'duplicate {n} after', lambda ms, n=n: ms + [(n, b'changed')]))
        edits.append((f'duplicate {n} before', lambda ms, n=n: [(n, b'changed')] + ms))
        edits.append((f'same twice {n}', lambda ms, n=n: ms + [m for m in ms if m[0] == n]))
        for to in ('code/zz', 'data/zz', 'meta/zz', 'other', n + 'x', n.upper(), 'code/sub/' + os.path.basename(n)):
            edits.append((f'rename {n} to {to}', lambda ms, n=n, to=to: [(to if m == n else m, d) for m, d in ms]))
        if n in dict(other['members']):
            edits.append((f'{n} of another bead', rep(n, lambda d, n=n: dict(other['members'])[n])))
    for a, b in itertools.combinations(names, 2):
        edits.append((f'swap {a} {b}', lambda ms, a=a, b=b: [
            (m, dict(ms).get(b, d) if m == a else dict(ms).get(a, d) if m == b else d) for m, d in ms]))
        edits.append((f'exchange names {a} {b}', lambda ms, a=a, b=b: [(b if m == a else a if m == b else m, d) for m, d in ms]))
    for n in ('code/added', 'data/added', 'code/sub/added', 'code/', 'data/', 'code/dir/', 'meta/added', 'added', 'codex', 'data2/x',
              'code//x', 'Code/x', 'input/x', ''):
        edits.append((f'add {n!r}', lambda ms, n=n: ms + [(n, b'new')]))
        edits.append((f'add empty {n!r}', lambda ms, n=n: [(n, b'')] + ms))
    # entries that claim to be something else than plain files
    for n in ('code/added', 'data/added', 'data/sub/added'):
        for what, attr, system in ATTRIBUTES:
            edits.append((f'add {n!r} as {what}', lambda ms, n=n, a=attr, s=system: ms + [(n, lib.Data(b'new', a, s))]))
    return edits


def member_case(w, case):
    b, combo = case
    base, other = w.ctx.bases[b], w.ctx.bases[1 - b]
    edits = member_edits(base, other)
    root = w.fresh()
    datas, labels = [], []
    for ij in combo:
        ms = base['members']
        for i in ij:
            ms = edits[i][1](ms)
        for comp in ((zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED) if len(ij) == 1 else (zipfile.ZIP_STORED,)):
            datas.append(lib.pack(ms, comp))
            labels.append(' and '.join(edits[i][0] for i in ij))
    run_batch(w, root, base, datas, labels)
    w.sample({'archive': base['name'], 'damage': labels[0]})


# ------------------------------------------------------------- big files
SIZES = [4096, 65536, 65537, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3 << 20, (16 << 20) + 5]
STRIDE = 251


def big_content(size):
    return bytes(range(STRIDE)) * (size // STRIDE) + b'.' * (size % STRIDE)


def big_case(w, case):
    size, compression, target = case
    content = big_content(size)
    info = lib.make_bead(w, 'big', 'kind', '20200101T000000000000+0000', code={'c': content}, out={'big': content, 'small': b's'})
    import json
    ms = lib.members(info.data)
    base = dict(name='big', data=info.data, cid=info.cid, meta=json.loads(dict(ms)['meta/bead']), code=info.code, out=info.out, members=ms)
    root = w.fresh()
    changed = {}
    # one byte changed at and around all places where reading could stop or continue
    for edge in sorted({0, 1, 4096, 8192, 65536, 131072, 1 << 20, 2 << 20, 8 << 20, 10_000_000, 16 << 20, size // 2, size}):
        for at in (edge - 1, edge):
            if 0 <= at < size:
                changed[f'byte {at} of {size}'] = content[:at] + bytes([content[at] ^ 1]) + content[at + 1:]
    changed['cut'] = content[:-1]
    changed['longer'] = content + b'.'
    changed['half'] = content[:size // 2]
    changed['other'] = content[::-1]
    changed['zeros'] = bytes(size)
    changed['rotated'] = content[4096:] + content[:4096] if size > 4096 else content[1:] + content[:1]
    for label, new in changed.items():
        if new == content:
            continue
        data = lib.pack([(m, new if m == target else d) for m, d in ms], compression)
        run_batch(w, root, base, [data], [f'{target}: {label}'])
    w.sample({'archive': 'big', 'size': size})


# ------------------------------------------------------------- many files
MANY = 260      # of each kind


def many_files(w):
    import json
    names = [f'd{n % 7}/{n}' if n % 3 else f'{n}' for n in range(MANY)]
    info = lib.make_bead(w, 'many', 'kind', '20200101T000000000000+0000', code={n: b'code ' + n.encode() for n in names}, out={n: b'data ' + n.encode() for n in names})
    ms = lib.members(info.data)
    return dict(name='many', data=info.data, cid=info.cid, meta=json.loads(dict(ms)['meta/bead']), code=info.code, out=info.out, members=ms)


def many_case(w, nth):
    base = w.ctx.many
    ms = base['members']
    datas, labels = [], []
    for n in range(nth, len(ms), 16):
        name, d = ms[n]
        for label, new in ((f'{name} changed', ms[:n] + [(name, d + b'!')] + ms[n + 1:]), (f'{name} removed', ms[:n] + ms[n + 1:]),
                           (f'{name} last and changed', ms[:n] + ms[n + 1:] + [(name, d[:-1])]), (f'file added before {name}', ms[:n] + [('data/zz', b'z')] + ms[n:]),
                           (f'{name} renamed', ms[:n] + [(name + 'x', d)] + ms[n + 1:]), (f'{name} exchanged with the next', ms[:n] + [(name, ms[n - 1][1]), (ms[n - 1][0], d)] + [m for m in ms[n + 1:] if m[0] != ms[n - 1][0]])):
            datas.append(lib.pack(new, zipfile.ZIP_STORED))
            labels.append(label)
    run_batch(w, w.fresh(), base, datas, labels)


# ------------------------------------------------------------- command line
def cli_case(w, case):
    b, label, how = case
    base, info = w.ctx.bases[b], w.ctx.infos[b]
    data = w.ctx.cli_damage[b][label]
    root = w.fresh()
    world = World(root)
    box = world.path('box')
    lib.put(box, info)
    lib.put(box, w.ctx.infos[2])
    world.set_boxes([('box', box)])
    if how == 'indexed':
        w.check(w.cli(world, 'box', 'index', clock=lib.T0).ok, 'box index fails', 'index')
    path = os.path.join(box, info.file)
    ws = world.path('ws')
    w.check(w.cli(world, 'new', ws, clock=lib.T0).ok, 'new fails', 'new')
    w.check(w.cli(world, 'input', 'add', 'old', w.ctx.infos[2].name, cwd=ws, clock=lib.T0).ok, 'add fails', 'add')
    with open(path, 'wb') as f:
        f.write(data)
    verdict = w.fork(judge, path, base, clock=lib.T0).value
    if verdict is None or verdict[0] not in ('invalid', 'error'):
        w.count('cli_not_damaged')
        return
    ref = path if how == 'path' else info.name
    wide = snap(root)
    for argv in (('edit', ref, world.path('out')), ('edit', '--review', ref, world.path('out2')),
                 ('input', 'add', 'new', ref, '-w', ws), ('input', 'update', 'old', ref, '-w', ws)):
        o = w.cli(world, *argv, clock=lib.T0)
        w.count('evaluations')
        after = snap(root)
        w.check(after == wide, f'{argv[:2]} of a damaged archive ({label}) changed files', f'cli-changed:{argv[0]}',
                diff=diff(wide, after), outcome=o)
        w.check(o.kind in ('ret', 'exit', 'exc'), f'{argv} ends in {o.kind}', 'cli-died')
        if argv[0] == 'edit':
            w.check(not o.ok, 'edit of a damaged archive succeeds', 'cli-success', outcome=o)
        if how == 'path':
            w.check(o.kind != 'exc', f'{argv[:2]} of a damaged archive ends in {o.exc}', f'cli-exc:{argv[0]}', outcome=o)
            w.check('damage' in (o.out + o.err).lower(), f'{argv[:2]} does not tell about the damage', 'cli-silent', outcome=o)
    w.distinct('nontrivial', ['cli', b, label, how])


def make_bases(w):
    a = lib.make_bead(w, 'bead', 'kind-a', '20200101T000000000000+0000', code={'c1': b'code one\n', 'd/c2': b''},
                      out={'o1': b'output one\n' * 3, 'o2': b'x'})
    b = lib.make_bead(w, 'bead', 'kind-b', '20200102T000000000000+0100', code={'c1': b'Code one\n'}, out={'o1': b'Output\n'},
                      inputs={'in': a}, env={'BEAD_ZIP_COMPRESSION': 'stored'})
    c = lib.make_bead(w, 'good', 'kind-c', '20200103T000000000000+0000')
    return [a, b, c]


def main(ctx):
    ctx.infos = ctx.setup(make_bases)
    import json
    ctx.bases = []
    for i in ctx.infos[:2]:
        ms = lib.members(i.data)
        ctx.bases.append(dict(name=i.file, data=i.data, cid=i.cid, meta=json.loads(dict(ms)['meta/bead']),
                              code=i.code, out=i.out, members=ms))
    cases = []
    for b, base in enumerate(ctx.bases):
        n = len(base['data'])
        ops = [('cut', i, 0) for i in range(n)] + [('del', i, 0) for i in range(n)]
        ops += [('pre', i, v) for i in (1, 2, 100) for v in (0, 255)]
        if ctx.quick:
            ops += [('flip', i, k) for i in range(n) for k in ((0, 7) if b else range(8))]
            ops += [('ins', i, 0) for i in range(n)]
        else:
            ops += [('set', i, v) for i in range(n) for v in range(256) if base['data'][i] != v]
            ops += [('ins', i, v) for i in range(n + 1) for v in (0, 1, 0x50, 0xff)]
            ops += [('zero', i, k) for i in range(n) for k in (2, 4, 8, 16, 64, 512)]
            ops += [('move', i, k) for i in range(n) for k in (2, 4, 16, 64)]
        for i in range(0, len(ops), BATCH):
            cases.append((b, ops[i:i + BATCH]))
    ctx.pmap(byte_case, cases, 'bytes')
    cases = []
    for b, base in enumerate(ctx.bases):
        n = len(member_edits(base, ctx.bases[1 - b]))
        singles = [(i,) for i in range(n)]
        pairs = list(itertools.permutations(range(n), 2)) if not ctx.quick else \
            list(itertools.combinations(range(n), 2)) if b == 1 else []
        combos = singles + pairs
        for i in range(0, len(combos), 100):
            cases.append((b, combos[i:i + 100]))
    ctx.pmap(member_case, cases, 'members')
    ctx.many = ctx.setup(many_files)
    ctx.pmap(many_case, range(16), 'many files')
    ctx.pmap(big_case, [(n, c, t) for n in reversed(SIZES) for t in ('code/c', 'data/big') for c in ((zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED) if not ctx.quick else (zipfile.ZIP_STORED,))], 'big')
    # damage offered to the command line
    ctx.cli_damage = {}
    cases = []
    for b, base in enumerate(ctx.bases):
        d = {}
        data = base['data']
        for label, fn in member_edits(base, ctx.bases[1 - b]):
            if ctx.quick and ' as ' in label and not label.endswith('directory'):
                continue
            d['member: ' + label] = lib.pack(fn(base['members']))
        step = max(1, len(data) // (24 if ctx.quick else 200))
        for i in range(0, len(data), step):
            d[f'cut {i}'] = data[:i]
            d[f'flip {i}'] = data[:i] + bytes([data[i] ^ 0x10]) + data[i + 1:]
        ctx.cli_damage[b] = d
        for label in d:
            for how in ('path', 'raw', 'indexed'):
                if ctx.quick and (b == 1 or (label.startswith('member: re') and ' to ' in label)):
                    continue
                cases.append((b, label, how))
    ctx.pmap(cli_case, cases, 'cli')
    ctx.coverage['rule'] = (
        'two base archives; every bit flip (second archive in quick: lowest and highest bit; thorough: every other byte value), '
        'truncation, one byte deletion and insertion; files of 4 KiB to 16 MiB changed at and around all block boundaries; every member edit and every pair of member edits; '
        'distinct by archive, damage and verdict')
    ctx.coverage['exhaustive'] = True
    ctx.assumptions = ['SHA-512 does not collide', 'damage happens before, not while an archive is being read']
