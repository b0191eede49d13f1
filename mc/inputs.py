"""Exhaustive exploration of workspace states under input commands.

States are real directory trees reached by real commands; every state is paired
with the state of a reference model and every command is executed from every
state until no new state appears. The frontier is explored layer by layer."""
import hashlib
import json
import os

import fw
from fw import World, diff, restore, snap
import lib
import scenes

T_EARLY = '2020-06-01'


class Setting:
    pass


def setting(w, indexed=False, nicks=('x', 'xy'), split=True):
    st = Setting()
    mk = lib.make_bead
    out = scenes.out_files
    st.a1 = mk(w, 'aa', 'KA', '20200101T000000000000+0000', out=out(b'a1'))
    st.a3 = mk(w, 'cc', 'KA', '20210101T000000000000+0200', out=out(b'a3'), inputs={'i': st.a1})
    st.b1 = mk(w, 'bb', 'KB', '20200201T000000000000+0000', out=out(b'b1'))
    st.b2 = mk(w, 'aa', 'KB', '20210201T000000000000-0100', out=out(b'b2'))
    # of the same kind and time as a1, but different and not in any box
    st.d1 = mk(w, 'dd', 'KA', '20200101T010000000000+0100', out={})
    st.e1 = mk(w, 'ee', 'KE', '20200301T000000000000+0000', out=out(b'e1'))
    st.stored = {'a1': st.a1, 'a3': st.a3, 'b1': st.b1, 'b2': st.b2}
    st.beads = {**st.stored, 'd1': st.d1, 'e1': st.e1}
    st.by_cid = {i.cid: n for n, i in st.beads.items()}
    st.nicks = nicks
    root = w.fresh()
    world = World(root)
    lib.put(world.path('box'), st.a1, st.b2)
    lib.put(world.path('box2'), st.a3, st.b1)
    lib.put(world.path('elsewhere'), st.d1, st.e1)
    # a damaged bead that is the newest of its name and kind, if it counted
    os.makedirs(world.path('elsewhere'), exist_ok=True)
    with open(world.path('elsewhere', 'damaged_20230101T000000000000+0000.zip'), 'wb') as f:
        f.write(damaged(st.a1))
    world.set_boxes([('box', world.path('box')), ('box2', world.path('box2'))])
    if indexed:
        w.check(w.cli(world, 'box', 'index', '--box', 'box', clock=lib.T0).ok, 'index fails', 'setup')
    ws = world.path('ws')
    w.check(w.cli(world, 'new', ws, clock=lib.T0).ok, 'new fails', 'setup')
    lib.write_tree(ws, {'code.py': b'code', 'sub/x': b'x', 'output/o': b'o', 'temp/t': b't'})
    st.image = lib.image_of(world, 'start', [('box', 'box'), ('box2', 'box2')])
    st.kind = lib.ws_meta(ws)['kind']
    st.start_tree = snap(ws)
    st.rest = {k: v for k, v in st.image.tree.items() if not (k == 'ws' or k.startswith('ws/') or k.startswith('config') or k == 'home')}
    return st


def damaged(info):
    """a well-formed zip file with one output file changed"""
    return lib.pack([(n, d + b'!' if n.startswith('data/') and n.endswith('same') else d) for n, d in lib.members(info.data)])


# ------------------------------------------------------------------ the model
# state: tuple of (nick, bead, loaded) sorted by nick
def newest(st, pred, until=None):
    c = [(lib.micros(i.ts), n) for n, i in st.stored.items() if pred(i) and (until is None or lib.micros(i.ts) <= until)]
    return max(c)[1] if c else None


EARLY = lib.micros('20200601T000000000000+0000')


def select(st, ref, time=None):
    """the bead `add nick ref` takes"""
    if ref in ('<D1>', '<E1>'):
        return ref[1:3].lower()
    if ref == '<BAD>':
        return None
    return newest(st, lambda i: i.name == ref, EARLY if time else None)


def step(st, state, op):
    """the state after the command by the documentation"""
    s = {n: (b, l) for n, b, l in state}

    def by_kind(b, time=False, offset=0):
        kind, t = st.beads[b].kind, lib.micros(st.beads[b].ts)
        same = [(lib.micros(i.ts), n) for n, i in st.stored.items() if i.kind == kind]
        if offset == 1:
            c = [x for x in same if x[0] > t]
            return min(c)[1] if c else None
        if offset == -1:
            c = [x for x in same if x[0] < t]
            return max(c)[1] if c else None
        c = [x for x in same if not time or x[0] <= EARLY]
        return max(c)[1] if c else None

    cmd, *args = op
    time = '--time' in args
    if time:
        args = args[:args.index('--time')]
    offset = 1 if '--next' in args else -1 if '--prev' in args else 0
    args = [a for a in args if a not in ('--next', '--prev')]
    if cmd == 'add':
        n, ref = args
        b = select(st, ref, time)
        if b:
            s[n] = (b, True)
    elif cmd == 'update':
        if not args:
            for n in s:
                b = by_kind(s[n][0], time)
                if b:
                    s[n] = (b, True)
        else:
            n = args[0]
            if n in s and not (offset and (len(args) > 1 or time)):
                b = by_kind(s[n][0], time, offset) if len(args) == 1 else select(st, args[1], time)
                if b:
                    s[n] = (b, True)
    elif cmd == 'load':
        for n in args or list(s):
            if n in s and s[n][0] in st.stored:
                s[n] = (s[n][0], True)
    elif cmd == 'unload':
        for n in args or list(s):
            if n in s:
                s[n] = (s[n][0], False)
    elif cmd in ('delete', 'rm'):
        s.pop(args[0], None)
    return tuple((n, b, l) for n, (b, l) in sorted(s.items()))


def nick_ops(n):
    return [('add', n, 'aa'), ('add', n, '<D1>'), ('add', n, 'bb'), ('add', n, 'aa', '--time', T_EARLY), ('add', n, 'nosuch'),
            ('add', n, '<BAD>'), ('add', n, '<E1>'), ('update', n), ('update', n, '--next'), ('update', n, '--prev'), ('update', n, '--time', T_EARLY),
            ('update', n, 'bb'), ('update', n, '<D1>'), ('update', n, 'aa', '--time', T_EARLY), ('update', n, '<BAD>'),
            ('update', n, 'bb', '--next'), ('update', n, '--prev', '--time', T_EARLY), ('load', n), ('unload', n), ('delete', n)]


FEW = {('add', 'aa'), ('add', '<D1>'), ('update',), ('update', '--prev'), ('load',), ('unload',), ('delete',)}
ALL_OPS = [('update',), ('update', '--time', T_EARLY), ('load',), ('unload',)]


def operations(nicks, full):
    ops = list(ALL_OPS)
    for k, n in enumerate(nicks):
        for op in nick_ops(n):
            if full or k == 0 or (op[0],) + op[2:] in FEW:
                ops.append(op)
    return ops


# ------------------------------------------------------------- the real thing
def expect_problems(st, tree, state):
    """differences between a workspace tree and the model state"""
    problems = []
    meta = json.loads(tree['.bead-meta/bead'][2])
    want = {'kind': st.kind, 'inputs': {n: st.beads[b].spec() for n, b, _ in state}}
    if meta != want:
        problems.append(f'metadata is {meta}')
    files = {k: v[2] for k, v in tree.items() if k.startswith('input/') and v[0] != 'd'}
    wanted = {f'input/{n}/{p}': d for n, b, l in state if l for p, d in st.beads[b].out.items()}
    for k in sorted(set(files) | set(wanted)):
        if files.get(k) != wanted.get(k):
            problems.append(f'{k}: {files.get(k, b"absent")[:20]!r} instead of {wanted.get(k, b"absent")[:20]!r}')
    dirs = {k.split('/')[1] for k in tree if k.startswith('input/')}
    loaded = {n for n, b, l in state if l}
    if dirs != loaded:
        problems.append(f'loaded directories: {sorted(dirs)} instead of {sorted(loaded)}')
    for k in sorted(set(tree) | set(st.start_tree)):
        if k.startswith('input/') or k == '.bead-meta/bead':
            continue
        if tree.get(k) != st.start_tree.get(k) and k != 'input':
            problems.append(f'{k} is changed')
    return problems


def tree_key(tree):
    h = hashlib.blake2b(digest_size=12)
    for k in sorted(tree):
        h.update(repr((k, tree[k])).encode())
    return h.digest()


def expand(w, node):
    """run all operations from one state; [(op, model state, tree)]"""
    ctx = w.ctx
    st = ctx.st
    state, tree = node
    results = []
    world = lib.world_of(w, st.image)
    paths = {'<D1>': world.path('elsewhere', st.d1.file), '<E1>': world.path('elsewhere', st.e1.file), '<BAD>': world.path('elsewhere', 'damaged_20230101T000000000000+0000.zip')}
    for op in ctx.ops:
        restore(world.ws, tree)
        o = w.cli(world, 'input', *[paths.get(a, a) for a in op], '-w', world.ws, clock=lib.T0)
        w.count('transitions')
        label = f'{" ".join(op)} in {state}'
        w.check(o.kind in ('ret', 'exit'), f'{label} ends in {o.kind} {o.exc}', f'died:{op[0]}', outcome=o)
        new = snap(world.ws)
        state2 = step(st, state, op)
        ctx.judge(w, st, world, state, op, state2, tree, new, o, label)
        results.append((state2, new))
    rest = {k: v for k, v in snap(world.root).items() if not (k == 'ws' or k.startswith('ws/') or k.startswith('config') or k == 'home')}
    w.check(rest == st.rest, 'files outside of the workspace are changed', 'outside', diff=diff(st.rest, rest), state=state)
    keys = set()
    few = []
    for s, t in results:
        k = tree_key(t)
        if k not in keys:
            keys.add(k)
            few.append((s, t, k))
    return few


def explore(ctx, st, ops, judge, max_states=100000):
    ctx.st, ctx.ops, ctx.judge = st, ops, judge
    seen = {tree_key(st.start_tree)}
    frontier = [((), st.start_tree)]
    models = {()}
    layers = 0
    while frontier:
        res = ctx.pmap(expand, frontier, name=f'layer {layers}')
        layers += 1
        nxt = []
        for r in res:
            for s, t, k in r or ():
                if k not in seen:
                    seen.add(k)
                    models.add(s)
                    nxt.append((s, t))
        if len(seen) > max_states:
            raise RuntimeError('too many states')
        frontier = nxt
    return len(seen), len(models), layers
