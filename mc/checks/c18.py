"""C18: a found bead resolves to its own archive or fails loudly.

All sequences of changes (removing, replacing in both ways, renaming, swapping,
damaging archives, indexing) between finding beads and resolving them, resolved
through the box object that found them, a new one and a new process."""
import itertools
import os

import fw
from fw import World
import lib

LEVEL = 'model_checking'
TECHNIQUE = 'bounded exhaustive enumeration of change histories between search and resolve on the real code, against the known content of every bead'
NOTE = ('All sequences of 1 (thorough 2) changes to two boxes of 6 archives holding versions, copies, and equal content under other names. A file that is '
        'damaged after it was found may resolve, but must then fail when its content is used.')

TS = ['20200101T000000000000+0000', '20200102T000000000000+0000', '20200103T000000000000+0000']


def setup(w):
    mk = lib.make_bead
    # the same sizes: offsets in the zip files are the same
    a1 = mk(w, 'a', 'K', TS[0], out={'o': b'A1' * 30}, code={'c': b'1'})
    a2 = mk(w, 'a', 'K', TS[1], out={'o': b'A2' * 30}, code={'c': b'2'})
    b = mk(w, 'b', 'K', TS[2], out={'o': b'B!' * 30}, code={'c': b'3'}, inputs={'i': a1})
    bad = lib.pack([(n, d[:-1] + b'?' if n.startswith('data/') else d) for n, d in lib.members(a1.data)])
    # not distinguished from A1 by name, kind, freeze time, or inputs
    twin = lib.forge(a1, out={'o': b'AX' * 30})
    contents = {'twin': twin.data, 'A1': a1.data, 'A2': a2.data, 'B': b.data, 'bad': bad, 'junk': b'not a zip'}
    infos = {'A1': a1, 'A2': a2, 'B': b}
    images = {}
    for mode in ('raw', 'indexed', 'mixed'):
        world = World(w.fresh())
        for f, tag in START.items():
            p = world.path(f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as fh:
                fh.write(contents[tag])
        boxes = [('one', 'box'), ('two', 'box2')]
        world.set_boxes([(n, world.path(d)) for n, d in boxes])
        if mode != 'raw':
            w.check(w.cli(world, 'box', 'index', *(() if mode == 'indexed' else ('--box', 'one')), clock=lib.T0).ok, 'index fails', 'setup')
        images[mode] = lib.image_of(world, mode, boxes)
    return images, contents, infos


START = {'box/a_20200101.zip': 'A1', 'box/a_20200102.zip': 'A2', 'box/b.zip': 'A1', 'box/c.zip': 'B', 'box2/a_20200101.zip': 'A1', 'box2/b.zip': 'B'}
FILES = sorted(START)


def alphabet(full):
    ops = []
    for f in FILES if full else FILES[:3] + FILES[4:5]:
        ops.append(('remove', f))
        for tag in ('A1', 'A2', 'B', 'twin', 'bad', 'junk'):
            if tag != START[f]:
                ops += [('replace', f, tag), ('overwrite', f, tag)]
        ops.append(('dir', f))
    ops += [('rename', f, g) for f in FILES[:2] for g in ('box/a_20200109.zip', 'box/z.zip', 'box2/a_20200109.zip', 'box/a_20200102.zip', 'box/c.zip') if f != g]
    ops += [('swap', f, g) for f, g in itertools.combinations(FILES[:4], 2)] + [('swap', 'box/a_20200101.zip', 'box2/b.zip')]
    ops += [('copy', 'box/a_20200101.zip', g) for g in ('box/a_20190101.zip', 'box2/z.zip', 'box/A.zip')]
    ops += [('gone', 'box'), ('index',), ('reindex',), ('unindex', 'box'), ('touch', 'box/a_20200101.zip')]
    return ops


def apply(root, config, ops, contents):
    """the changes; returns the files that were touched in any way"""
    touched = set()
    for op, *args in ops:
        paths = [os.path.join(root, a) for a in args if '/' in a]
        touched.update(a for a in args if '/' in a)
        if op not in ('index', 'reindex', 'unindex', 'gone') and not os.path.isfile(paths[0]):
            continue
        if op == 'remove':
            os.unlink(paths[0])
        elif op == 'replace':
            with open(paths[0] + '.new', 'wb') as f:
                f.write(contents[args[1]])
            os.replace(paths[0] + '.new', paths[0])
        elif op == 'overwrite':
            with open(paths[0], 'wb') as f:
                f.write(contents[args[1]])
        elif op == 'dir':
            os.unlink(paths[0])
            os.mkdir(paths[0])
        elif op == 'rename':
            if not os.path.isdir(paths[1]):
                os.replace(paths[0], paths[1])
        elif op == 'swap':
            if os.path.isfile(paths[1]):
                os.rename(paths[0], paths[0] + '.x')
                os.rename(paths[1], paths[0])
                os.rename(paths[0] + '.x', paths[1])
        elif op == 'copy':
            with open(paths[0], 'rb') as f, open(paths[1], 'wb') as g:
                g.write(f.read())
        elif op == 'touch':
            os.utime(paths[0], (1, 1))
            touched.discard(args[0])
        elif op == 'gone':
            if os.path.isdir(os.path.join(root, 'box')):
                os.rename(os.path.join(root, 'box'), os.path.join(root, 'moved'))
            touched.update(f for f in FILES if f.startswith('box/'))
        elif op == 'unindex':
            p = os.path.join(root, 'box', lib.INDEX)
            if os.path.exists(p):
                os.unlink(p)
        else:
            if os.path.isdir(os.path.join(root, 'box')):
                fw.run_cli(config, ['box', op])
    return touched


def _use(boxes, bead, target):
    """what resolving a bead gives: an error or the facts of the archive"""
    from bead.box import resolve
    try:
        a = resolve(boxes, bead)
    except Exception as e:
        return ('error', f'{type(e).__name__}: {e}')
    facts = (str(a.name), a.content_id, os.path.relpath(str(a.location), os.getcwd()))
    try:
        a.unpack_data_to(lib.fw_path(target + '/data'))
        a.unpack_code_to(lib.fw_path(target + '/code'))
        a.validate()
        return ('usable', facts, lib.files_below(target + '/data'), lib.files_below(target + '/code'))
    except Exception as e:
        return ('unusable', facts, f'{type(e).__name__}: {e}')


def _same_process(root, config, ops, contents, again, use_first):
    from bead.box import search
    from bead_cli.environment import Environment
    os.chdir(root)
    boxes = Environment.from_dir(config).get_boxes()
    beads = search(boxes).all()
    if use_first:
        for k, b in enumerate(beads):
            _use(boxes, b, os.path.join(root, f'pre{k}'))
    touched = apply(root, config, ops, contents)
    out = []
    for k, b in enumerate(beads):
        res = [_use(boxes, b, os.path.join(root, f'u{k}'))]
        new = Environment.from_dir(config).get_boxes()
        res.append(_use(new, b, os.path.join(root, f'v{k}')))
        out.append((lib.bead_tuple(b), res))
    return beads, out, touched


def _new_process(root, config, beads):
    from bead_cli.environment import Environment
    os.chdir(root)
    return [_use(Environment.from_dir(config).get_boxes(), b, os.path.join(root, f'w{k}')) for k, b in enumerate(beads)]


def judge(w, case):
    ctx = w.ctx
    mode, ops, use_first = case
    world = lib.world_of(w, ctx.images[mode])
    label = f'{mode} boxes, {"used, " if use_first else ""}{ops}'
    o = w.fork(_same_process, world.root, world.config, ops, ctx.contents, True, use_first, clock=lib.T0)
    w.check(o.kind == 'ret', f'{label}: ends in {o.kind}: {o.message}', 'died', outcome=o)
    beads, found, touched = o.value
    p = w.fork(_new_process, world.root, world.config, beads, clock=lib.T0)
    w.check(p.kind == 'ret', f'{label}: ends in {p.kind}: {p.message}', 'died', outcome=p)
    w.count('transitions', len(ops) + 3 * len(beads))
    w.count('states')
    w.count('traces_validated_against_impl')
    by_cid = {i.cid: i for i in ctx.infos.values()}
    # everything is found to begin with
    want = set()
    for f, tag in START.items():
        name = 'a' if '/a_' in f else os.path.basename(f)[:-4]
        want.add((name, ctx.infos[tag].cid, 'one' if f.startswith('box/') else 'two'))
    w.check({(t[0], t[2], t[4]) for t, _ in found} == want and len(found) == len(want), f'{label}: not everything is found', 'search', found=found)
    for (t, results), fresh in zip(found, p.value):
        name, kind, cid, ts, box, _ = t
        d = 'box/' if box == 'one' else 'box2/'
        own = [f for f, tag in START.items() if f.startswith(d) and ctx.infos[tag].cid == cid and (name == 'a') == ('/a_' in f)
               and (name == 'a' or os.path.basename(f)[:-4] == name)]
        for how, r in zip(('by the same box', 'by a new box', 'by a new process'), results + [fresh]):
            what = f'{label}: {name}@{ts[:8]} of {box} resolved {how}'
            w.count(r[0])
            if r[0] == 'error':
                w.check(any(f in touched for f in own) or (('unindex', 'box') in ops and how == 'by the same box'), f'{what} fails although its archive is unchanged: {r[1]}', 'unresolved')
                continue
            facts = r[1]
            w.check(facts[:2] == (name, cid), f'{what} gives another bead: {facts}', 'wrong-bead')
            w.check(facts[2].startswith(d) or (d == 'box/' and facts[2].startswith('moved/')), f'{what} gives an archive of another box: {facts}', 'wrong-box')
            if r[0] == 'usable':
                w.check(r[2] == by_cid[cid].out and r[3] == by_cid[cid].code, f'{what} gives other files', 'wrong-files', got=r[2:])
            else:
                w.check(any(f in touched for f in own) or any(op[0] in ('copy', 'swap', 'rename') for op in ops),
                        f'{what} can not be used although its archive is unchanged: {r[2]}', 'unusable')
    w.sample({'history': label, 'beads': len(found)})


def main(ctx):
    ctx.images, ctx.contents, ctx.infos = ctx.setup(setup)
    ops = alphabet(not ctx.quick)
    cases = [(mode, s, u) for mode in ctx.images for s in [(), *((x,) for x in ops)] for u in (False, True)]
    if ctx.quick:
        some = [x for x in ops if x[0] not in ('overwrite', 'dir', 'touch')][::3]
        cases += [(mode, s, True) for mode in ('raw', 'indexed') for s in itertools.permutations(some, 2)]
    else:
        cases += [(mode, s, True) for mode in ctx.images for s in itertools.permutations(ops, 2)]
    ctx.pmap(judge, cases, name='histories')
    ctx.coverage['operations'] = len(ops)
    ctx.coverage['depth'] = '2 (for a third of the operations)' if ctx.quick else 2
