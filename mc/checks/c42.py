"""C42: data is shared with the released version of the tool.

Two tools on the same data: the one under test, and the version this repository
was at first (kept unchanged in ref/base). All histories of commands up to a
depth, every command run by either of them: it makes no difference which of
them ran a command, and each can read and continue what the other left."""
import hashlib
import json
import os
import sqlite3
import sys

import fw
from fw import World, snap
import lib

LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of the histories of two implementations sharing data (the tool under test and the frozen first version), '
             'every command by either of them, states merged when equal')
NOTE = ('The histories avoid what the first version did wrong. How files are laid out inside (spaces in JSON, order of archive members, bytes of the index) may differ, as long as '
        'both read them the same and content ids agree.')

BASE = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'ref', 'base')
TS = {'a1': '20200101T000000000000+0000', 'a2': '20200201T000000000000+0000', 'b1': '20200301T000000000000+0000'}
R = '<ROOT>'


def _as_base():
    for name in list(sys.modules):
        if name.split('.')[0] in ('bead', 'bead_cli', 'tracelog'):
            del sys.modules[name]
    sys.path.insert(0, BASE)
    sys.dont_write_bytecode = True
    import bead
    assert os.path.dirname(bead.__file__) == os.path.join(BASE, 'bead'), bead.__file__


def by(actor, fn, *args):
    if actor == 'base':
        _as_base()
    return fn(*args)


ACTORS = ('base', 'new')


def act(w, world, actor, argv, now, cwd=None):
    return w.fork(by, actor, fw.run_cli, world.config, lib.fill(world.root, argv), cwd=cwd or world.root, env={**world.env, 'PWD': world.root, 'HOME': world.root}, clock=(now, 0), tz='UTC')


def now_at(depth):
    return lib.T0 + depth * 3600 * lib.NS


ENV = 'config/env.json'


def freeze(world):
    """the state, wherever it is"""
    tree = snap(world.root)
    if ENV in tree:
        t, m, data = tree[ENV]
        tree[ENV] = (t, m, data.replace(world.root.encode(), R.encode()))
    return tree


def thaw(root, tree):
    if ENV in tree:
        t, m, data = tree[ENV]
        tree = {**tree, ENV: (t, m, data.replace(R.encode(), root.encode()))}
    fw.restore(root, tree)
    return World(root)


# what may be done
def write(path, text):
    def do(world, depth):
        p = world.path(path)
        if os.path.isdir(os.path.dirname(p)):
            with open(p, 'w') as f:
                f.write(f'{text} {depth}')
    return do


def copy_in(i):
    def do(world, depth):
        if os.path.isdir(world.path('one')):
            lib.put(world.path('one'), i)
    return do


def remove(i):
    def do(world, depth):
        p = world.path('one', i.file)
        if os.path.exists(p):
            os.unlink(p)
    return do


def operations(x):
    ops = {
        'save wa': ('save', 'one', '-w', R + '/wa'),
        'save wb': ('save', 'one', '-w', R + '/wb'),
        'index': ('box', 'index', '--box', 'one'),
        'reindex': ('box', 'reindex', '--box', 'one'),
        'add': ('input', 'add', 'n', 'aa', '-w', R + '/wb'),
        'add old': ('input', 'add', 'x', 'aa', '--time', '2020-01-15', '-w', R + '/wb'),
        'add own': ('input', 'add', 'w', 'wa', '-w', R + '/wb'),
        'update': ('input', 'update', '-w', R + '/wb'),
        'prev': ('input', 'update', 'x', '--prev', '-w', R + '/wb'),
        'unload': ('input', 'unload', '-w', R + '/wb'),
        'load': ('input', 'load', '-w', R + '/wb'),
        'delete': ('input', 'delete', 'x', '-w', R + '/wb'),
        'edit': ('edit', 'wa', R + '/e'),
        'review': ('edit', 'wb', R + '/e', '--review'),
        'save edited': ('save', 'one', '-w', R + '/e'),
        'discard': ('discard', R + '/e'),
        'box add': ('box', 'add', 'two', R + '/two'),
        'box forget': ('box', 'forget', 'two'),
        'web save': ('web', 'color', 'save', R + '/g.web', 'dot', R + '/g.dot'),
        'web load': ('web', 'load', R + '/g.web', 'heads', 'color', 'save', R + '/h.web'),
        'status': ('status', '-v', '-w', R + '/wb'),
        'list': ('box', 'list'),
        'write wa': write('wa/output/o', 'out'),
        'write wb': write('wb/code.py', 'code'),
        'copy in': copy_in(x.b['b1']),
        'remove': remove(x.b['a2']),
    }
    return ops


QUICK_LAST = ('save wb', 'index', 'add own', 'update', 'load', 'review', 'web save', 'status')


def setup(w, actor):
    """the starting state, made by one of the tools alone"""
    world = World(w.fresh())
    x = w.ctx.x
    for d in ('one', 'two'):
        os.mkdir(world.path(d))
    k = 0

    def run(*argv):
        nonlocal k
        k += 1
        o = act(w, world, actor, argv, now_at(-100 + k))
        w.check(o.ok, f'{argv} fails with {actor}', 'setup', outcome=o)

    def kind(ws, kind):
        p = world.path(ws, '.bead-meta/bead')
        with open(p) as f:
            text = f.read()
        old = json.loads(text)['kind']
        with open(p, 'w') as f:
            f.write(text.replace(old, kind))
    run('box', 'add', 'one', R + '/one')
    versions = {}
    for n, (name, ts) in enumerate((('aa', 'a1'), ('aa', 'a2'), ('wa', None), ('wb', None))):
        ws = 'mk/aa' if name == 'aa' else name
        os.makedirs(world.path('mk'), exist_ok=True)
        if ts != 'a2':
            run('new', R + '/' + ws)
            kind(ws, 'K-' + name)
        lib.write_tree(world.path(ws), {'code.py': b'#' + name.encode(), 'deep/\xc3\xa9 x'.encode().decode('latin-1'): b'', 'output/o': (ts or name).encode() * 3000, 'output/d/e': b''})
        if name == 'aa':
            k += 30
            run('save', '-w', R + '/' + ws)
    run('input', 'add', 'x', 'aa', '-w', R + '/wb')
    run('save', '-w', R + '/wb')
    fw.wipe(world.path('mk'))
    return freeze(world), k


def index_rows(data):
    p = f'/dev/shm/c42-{os.getpid()}.sqlite'
    with open(p, 'wb') as f:
        f.write(data)
    try:
        con = sqlite3.connect(p)
        tables = [r[0] for r in con.execute("SELECT name FROM sqlite_master WHERE type='table' ORDER BY name")]
        return repr([(t, sorted(con.execute(f'SELECT * FROM "{t}"').fetchall(), key=repr)) for t in tables])
    finally:
        con.close()
        os.unlink(p)


def view(tree):
    """what must be the same whoever did it"""
    out = {}
    for k, v in tree.items():
        name = os.path.basename(k)
        if name.startswith(lib.INDEX):
            out[os.path.join(os.path.dirname(k), lib.INDEX)] = 'index'
        elif v[0] == 'f' and name.endswith('.zip'):
            out[k] = [(n, json.loads(d)) if n.startswith('meta/') else (n, d) for n, d in sorted(lib.members(v[2]))]
        elif v[0] == 'f' and (name.endswith('.web') or name == 'env.json' or k.endswith('.bead-meta/bead')):
            out[k] = json.loads(v[2])
            if isinstance(out[k], list):
                out[k] = sorted(out[k], key=repr)
        elif name.endswith('.dot'):
            out[k] = 'dot'
        else:
            out[k] = v
    return out


def key(tree):
    h = hashlib.sha1()
    for k, v in sorted(tree.items()):
        if os.path.basename(k) == lib.INDEX:
            v = index_rows(v[2])
        elif v[0] == 'f' and k.endswith('.zip'):
            v = repr(lib.members(v[2]))
        h.update(repr((k, v)).encode())
    return h.hexdigest()


def facts(config):
    from bead.box import search
    from bead_cli.environment import Environment
    boxes = Environment.from_dir(config).get_boxes()
    out = []
    for b in search(boxes).all():
        out.append(lib.bead_tuple(b))
        from bead.box import resolve
        try:
            a = resolve(boxes, b)
            a.validate()
            out[-1] += (os.path.basename(str(a.location)), a.content_id, tuple(sorted(a.manifest.items())))
        except Exception as e:
            out[-1] += (type(e).__name__,)
    return sorted(out, key=repr)


def seen(w, world, actor):
    o = w.fork(by, actor, facts, world.config, cwd=world.root, env=dict(world.env), clock=(now_at(50), 0), tz='UTC')
    w.check(o.kind == 'ret', f'{actor}: searching fails', 'search', outcome=o)
    return o.value


def expand(w, state):
    tree, history, depth, names = state
    x = w.ctx.x
    out = []
    root = w.fresh()
    for name in names:
        op = x.ops[name]
        got = {}
        for actor in ACTORS:
            world = thaw(root, tree)
            if callable(op):
                op(world, depth)
                got['new'] = (None, freeze(world), None)
                continue
            o = act(w, world, actor, op, now_at(depth))
            w.count('transitions')
            w.count('traces_validated_against_impl')
            after = freeze(world)
            reads = [seen(w, world, a) for a in ACTORS] if after != tree and name.split()[0] not in ('web', 'unload', 'load', 'write', 'discard') else None
            got[actor] = (o, after, reads)
        label = ', '.join(f'{n} ({a})' for n, a in history + [(name, '')]).replace(' ()', '')
        w.distinct('nontrivial', label)
        if 'base' in got:
            (bo, bt, br), (no, nt, nr) = got['base'], got['new']
            w.check(bo.ok == no.ok, f'{label}: {"fails" if bo.ok else "works"} with the new version, unlike with the first one', f'result:{name}', base=bo, new=no)
            vb, vn = view(bt), view(nt)
            other = sorted(k for k in set(vb) | set(vn) if vb.get(k) != vn.get(k))
            w.check(not other, f'{label}: the new version leaves another state than the first: {other[:6]}', f'state:{name}',
                    base={k: repr(vb.get(k))[:300] for k in other[:3]}, new={k: repr(vn.get(k))[:300] for k in other[:3]})
            for r, who in ((br, 'first'), (nr, 'new')):
                if r:
                    w.check(r[0] == r[1], f'{label}: after the {who} version did it the two find different beads', f'found:{name}', base=r[0], new=r[1])
            w.check(not (br and nr) or br == nr, f'{label}: different beads are found when the new version did it', f'found-other:{name}', base=br, new=nr)
            if name in ('status', 'list'):
                w.check(bo.out == no.out, f'{label}: reports differ', f'report:{name}', base=bo.out, new=no.out)
        for actor, (o, after, _) in got.items():
            if after != tree:
                out.append((key(after), after, history + [(name, actor)], depth + 1))
    w.count('states')
    if len(history) <= 1:
        w.sample({'history': [f'{n} by {a}' for n, a in history], 'operations': len(names)})
    return out


def main(ctx):
    ctx.level = LEVEL
    ctx.x = fw.Stats()
    ctx.x.b = ctx.setup(lambda w: {n: lib.make_bead(w, n[0] * 2, 'K-' + n[0] * 2, TS[n], code={'c.py': n.encode()}, out={'o': n.encode()}) for n in TS})
    first = ctx.setup(lambda w: {a: setup(w, a) for a in ACTORS})
    beads = [k for k in first['base'][0] if k.startswith('one/aa_2')]
    ctx.x.b['a2'].file = os.path.basename(sorted(beads)[-1])
    ctx.x.ops = operations(ctx.x)

    def same_start(w, case):
        b, n = (view(first[a][0]) for a in ACTORS)
        other = sorted(k for k in set(b) | set(n) if b.get(k) != n.get(k))
        w.check(not other, f'setting up: the new version leaves another state: {other[:6]}', 'setup',
                base={k: repr(b.get(k))[:300] for k in other[:3]}, new={k: repr(n.get(k))[:300] for k in other[:3]})
        w.count('evaluations')
    ctx.pmap(same_start, [0], 'setup')
    frontier, known = [], set()
    names = list(ctx.x.ops)
    for a in ACTORS:
        k = key(first[a][0])
        if k not in known:
            known.add(k)
            frontier.append((first[a][0], [('setup', a)], 0, names))
    levels = []
    for depth in range(3 if ctx.quick else 4):
        levels.append(len(frontier))
        results = ctx.pmap(expand, frontier, f'depth {depth}')
        frontier = []
        for r in results:
            for k, tree, history, d in r or ():
                if k not in known:
                    known.add(k)
                    frontier.append((tree, history, d, names if d < (2 if ctx.quick else 3) else QUICK_LAST))
    ctx.coverage['states per depth'] = levels
    ctx.coverage['rule'] = NOTE
    ctx.stats.n['evaluations'] = ctx.stats.n['transitions']
