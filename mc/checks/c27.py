"""C27: reuse of open archives is invisible.

All sequences of reads, validations, unpackings, interrupted reads and floods
of other archives in one process, the facts compared with what was stored and
the open files counted; and commands over many archives with few file handles."""
import gc
import itertools
import os
import resource

import fw
import lib
from fw import World
from lib import Info
from checks.c23 import batches

LEVEL = 'model_checking'
TECHNIQUE = 'explicit exploration of all access histories up to a depth on the real cache in one process, compared with the stored facts, counting open descriptors after every step'
NOTE = 'States: (history prefix); 3 archives under observation, two of which have the same file name, size, time and CRC of manifest in different directories, floods of 8, 9, 10, 11 others around the size of the cache, depth 4 (thorough 5). Archives do not change on disk.'
BOUND = 24      # far above the size of the cache, far below the number of archives opened

OPS = ['read0', 'read1', 'read2', 'old0', 'old1', 'valid0', 'unpack1', 'part0', 'bad', 'gone', 'flood8', 'flood9', 'flood10', 'flood11', 'keep30']


# other versions of bead0: of the same time, and of another
TWINS = {1: 'bead0_20200101.zip', 2: 'bead0.zip'}


def archives(w):
    base = lib.make_bead(w, 'base', 'K', '20200101T000000000000+0000')
    infos = []
    for n in range(60):
        out = {'f': b'%d ' % n * 3000, 'same': b'same'}
        # the first two are of the same time, the first and the third of the same name, and so on
        t = n // 2 if n < 10 else n
        i = lib.forge(base, meta={'kind': f'K{n % 3}', 'freeze_time': lib.ts_of(1_600_000_000 + t, t), 'inputs': {}}, out=out)
        name = 'bead0' if n in TWINS else f'bead{n}'
        infos.append(Info(**{**i.__dict__, 'name': name, 'file': TWINS.get(n) or f'{name}_{i.ts}.zip'}))
    return infos


def alike(infos):
    """the same, but the first two have the same file name and archives as similar as can be"""
    first, second = infos[:2]
    man = [dict(lib.members(i.data))['meta/manifest'] for i in (first, second)]
    spaced = man[0] + b' ' * (64 + len(man[1]) - len(man[0]))
    second = lib.forge(second, manifest_bytes=lib.collide(man[1], lib.zlib.crc32(spaced)))
    first = lib.forge(first, manifest_bytes=spaced)
    return [first, Info(**{**second.__dict__, 'file': 'sub/' + first.file})] + infos[2:]


def facts(a):
    return (str(a.name), a.kind, a.content_id, a.freeze_time_str, tuple(a.inputs))


def open_zips():
    gc.collect(0)
    n = 0
    for fd in os.listdir('/proc/self/fd'):
        try:
            n += os.readlink(f'/proc/self/fd/{fd}').endswith('.zip')
        except OSError:
            pass
    return n


def _histories(d, files, out_files, histories):
    from bead.tech.fs import Path
    from bead.ziparchive import ZipArchive
    gc.enable()
    gc.unfreeze()
    paths = [Path(os.path.join(d, f)) for f in files]
    with open(os.path.join(d, 'bad.zip'), 'wb') as f:
        f.write(b'PK\x05\x06 not a zip file')
    results = []
    other = itertools.cycle(range(10, 60))
    seq = 0
    for h in histories:
        old = [ZipArchive(paths[i]) for i in range(3)]
        streams = {}
        got = []
        for op in h:
            try:
                if op[:4] == 'read':
                    r = facts(ZipArchive(paths[int(op[4:])]))
                elif op[:3] == 'old':
                    r = facts(old[int(op[3:])])
                elif op[:5] == 'valid':
                    r = old[int(op[5:])].validate()
                elif op[:6] == 'unpack':
                    seq += 1
                    to = os.path.join(d, f'u{seq}')
                    old[int(op[6:])].unpack_data_to(Path(to))
                    r = lib.files_below(to)
                elif op[:4] == 'part':
                    i = int(op[4:])
                    if i not in streams:
                        z = getattr(old[i], 'zipfile', None)
                        streams[i] = z.open('data/f') if z is not None else None
                    r = streams[i].read(1000) if streams[i] is not None else None
                elif op == 'bad':
                    try:
                        ZipArchive(os.path.join(d, 'bad.zip'))
                        r = 'opened'
                    except Exception as e:
                        r = type(e).__name__
                elif op == 'gone':
                    try:
                        ZipArchive(os.path.join(d, 'gone.zip'))
                        r = 'opened'
                    except Exception as e:
                        r = type(e).__name__
                elif op == 'keep30':
                    # as a search does: all of them in memory, used afterwards
                    ks = [next(other) for _ in range(30)]
                    kept = [(k, ZipArchive(paths[k])) for k in ks]
                    n = open_zips()
                    r = [(k, facts(a)) for k, a in kept]
                    got.append((r, max(n, open_zips())))
                    kept = None
                    continue
                else:
                    r = []
                    for _ in range(int(op[5:])):
                        k = next(other)
                        r.append((k, facts(ZipArchive(paths[k]))))
            except Exception as e:
                r = f'{type(e).__name__}: {e}'
            got.append((r, open_zips()))
        results.append(got)
    return results


def judge(w, histories):
    infos = w.ctx.alike
    d = w.fresh()
    lib.put(d, *infos)
    for i in infos:
        os.utime(os.path.join(d, i.file), (lib.T0 // lib.NS,) * 2)
    o = w.fork(_histories, d, [i.file for i in infos], None, histories)
    w.check(o.kind == 'ret', f'reading ends in {o.kind}', 'died', outcome=o)
    want = [(i.name, i.kind, i.cid, i.ts, ()) for i in infos]
    for h, got in zip(histories, o.value):
        pos = 0
        for n, (op, (r, fds)) in enumerate(zip(h, got)):
            w.count('transitions')
            what = f'{op} after {h[:n]}'
            w.check(fds <= BOUND, f'{what}: {fds} archives are open', 'open')
            w.distinct('states', h[:n + 1])
            if op[:4] == 'read' or op[:3] == 'old':
                e = want[int(op[-1])]
            elif op[:5] == 'valid':
                e = None
            elif op[:6] == 'unpack':
                e = infos[int(op[-1])].out
            elif op[:4] == 'part':
                e = infos[0].out['f'][pos:pos + 1000]
                pos += 1000
                if r is None:
                    continue
            elif op in ('bad', 'gone'):
                e = 'InvalidArchive'
            else:
                e = [(k, want[k]) for k, _ in r] if isinstance(r, list) else 'facts'
            w.check(r == e, f'{what}: {str(r)[:200]} instead of {str(e)[:200]}', f'facts {op[:4]}')
        w.count('traces_validated_against_impl')
    w.sample({'history': histories[-1]})


def limited(config, argv, limit):
    resource.setrlimit(resource.RLIMIT_NOFILE, (limit, limit))
    return fw.run_cli(config, argv)


def commands(w, case):
    indexed, limit = case
    infos = w.ctx.infos
    world = World(w.fresh())
    lib.put(world.path('box'), *infos)
    world.set_boxes([('box', world.path('box'))])
    for argv in (['box', 'index', '--all'] if indexed else None, ['web', 'save', world.path('all.web')], ['web', 'color', 'heads', 'save', world.path('h.web')],
                 ['new', world.path('ws')], ['input', 'add', 'x', 'bead59', '-w', world.path('ws')], ['input', 'update', '-w', world.path('ws')],
                 ['status', '-v', '-w', world.path('ws')], ['save', '-w', world.path('ws')], ['edit', 'bead30', world.path('e30')], ['box', 'reindex', '--all'] if indexed else None):
        if not argv:
            continue
        o = w.fork(limited, world.config, argv, limit, cwd=world.cwd, env=dict(world.env), clock=lib.T0 + lib.NS)
        w.count('transitions')
        w.check(o.ok, f'{" ".join(argv[:3])} with {len(infos)} archives and {limit} file handles fails', 'limit', outcome=o)
    o = lib.listing(w, world)
    w.check(o.kind == 'ret' and len(o.value) == len(infos) + 1, 'beads are missing', 'listing', outcome=o)


def main(ctx):
    ctx.level = LEVEL
    ctx.infos = ctx.setup(archives)
    ctx.alike = alike(ctx.infos)
    depth = 4 if ctx.quick else 5
    deep = list(itertools.product(OPS, repeat=depth))
    # a process of its own for the short ones: from an empty cache
    short = [[h] for k in (1, 2) for h in itertools.product(OPS, repeat=k)]
    ctx.pmap(judge, list(batches(deep, 100)) + short, 'histories')
    long = [[tuple(f'read{(i * s) % 3}' if i % 4 else 'flood%d' % (7 + (i // 4) % 5) for i in range(200))] for s in (1, 2)]
    ctx.pmap(judge, long, 'long')
    ctx.pmap(commands, [(i, n) for i in (False, True) for n in (32, 40)], 'limits')
    ctx.stats.n['states'] = len(ctx.stats.keys.pop('states', ()))
