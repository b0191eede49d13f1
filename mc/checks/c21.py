"""C21: version selection picks the right version.

Every subset of a pool of versions (time zones, microsecond neighbours, shared
names and kinds) in two boxes, with and without index: every edit, input add,
update, --next, --prev with every boundary time is compared with the definition."""
import itertools
import json
import os

from fw import World, restore, snap
import crowd
import lib

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of box contents x commands x boundary times on the real commands, against a reference selection'
NOTE = ('All subsets of 6 versions over 2 names and 2 kinds; quick: one distribution over the boxes, raw and indexed; thorough: all distributions of '
        'up to 4 versions and all subsets in four distributions, with mixed boxes. Versions with equal freeze time are not judged.')

POOL = {
    # name, kind, time: neither the order of the texts nor that of the names is that of the moments
    'p': ('a', 'K', '20200601T120000000000+0000'),
    'q': ('a', 'K', '20200601T150000000001+0300'),        # a microsecond after p
    'r': ('b', 'K', '20200601T010000500000-1130'),        # half a second later, other name, same kind
    's': ('a', 'K2', '20200601T123000000000+0000'),       # same name, other kind
    't': ('a', 'K', '20200602T003000000000+1400'),        # earliest of all
    'u': ('b', 'K2', '20191231T235959999999-1200'),
}


def setup(w):
    mk = lib.make_bead
    infos = {k: mk(w, n, kind, ts, code={'which': k.encode()}, out={'o': k.encode()}) for k, (n, kind, ts) in POOL.items()}
    noise = [mk(w, 'ab', 'KX', '20210101T000000000000+0000', code={'which': b'noise'}), mk(w, 'A', 'KY', '20210101T000000000000+0000'),
             mk(w, 'a_20200601', 'KZ', '20210102T000000000000+0000')]
    world = World(w.fresh())
    trees = {}
    for k, i in infos.items():
        d = world.path(f'el-{k}')
        lib.put(d, i)
        ws = world.path('ws')
        if os.path.isdir(ws):
            restore(ws, {})
        w.check(w.cli(world, 'new', ws, clock=lib.T0).ok, 'new fails', 'setup')
        o = w.cli(world, 'input', 'add', 'x', os.path.join(d, i.file), '-w', ws, clock=lib.T0)
        w.check(o.ok and lib.ws_inputs(ws) == {'x': i.spec()}, 'input add fails', 'setup', outcome=o)
        trees[k] = snap(ws)
        restore(ws, {})
    return infos, noise, trees


def expected(have, infos, name=None, kind=None, until=None, after=None, before=None):
    c = []
    for k in have:
        i = infos[k]
        t = lib.micros(i.ts)
        if (name is None or i.name == name) and (kind is None or i.kind == kind) and (until is None or t <= until) \
                and (after is None or t > after) and (before is None or t < before):
            c.append((t, k))
    if not c:
        return None
    return (min(c) if after is not None else max(c))[1]


def shifted(us):
    return lib.ts_of(us // 10 ** 6, us % 10 ** 6)


def times(have, infos, full):
    """[(argument, moment)]"""
    out = [(None, None)]
    for k in sorted(POOL):
        t = lib.micros(infos[k].ts)
        out += [(infos[k].ts, t), (shifted(t - 1), t - 1)]
        if full:
            out += [(shifted(t + 1), t + 1), (lib.ts_of(t // 10 ** 6, t % 10 ** 6, '-0930'), t)]
    out += [('2020-06-01', lib.micros('20200601T000000000000+0000')), ('2020', lib.micros('20200101T000000000000+0000')), ('2019', lib.micros('20190101T000000000000+0000'))]
    return out if full else out[:1] + out[1::2][:6] + out[2::4] + out[-2:]


def judge(w, case):
    ctx = w.ctx
    infos = ctx.infos
    have, where, mode = case
    world = World(w.fresh())
    for d in ('one', 'two'):
        lib.put(world.path(d), *[infos[k] for k, b in zip(have, where) if b == (d == 'two')])
    lib.put(world.path('two'), *ctx.noise)
    world.set_boxes([('one', world.path('one')), ('two', world.path('two'))])
    if mode != 'raw':
        o = w.cli(world, 'box', 'index', *(() if mode == 'indexed' else ('--box', 'two')), clock=lib.T0)
        w.check(o.ok, 'index fails', 'setup', outcome=o)
    ws = world.path('ws')
    label = f'{mode} boxes with {[infos[k].name + "/" + infos[k].kind + "@" + infos[k].ts for k in have]}'
    stored = snap(world.path('one')), snap(world.path('two'))
    full = not ctx.quick

    def run(what, want, argv, check):
        w.count('evaluations')
        o = w.cli(world, *argv, clock=lib.T0)
        w.check(o.kind in ('ret', 'exit'), f'{label}: {what} ends in {o.kind} {o.exc}', 'died', outcome=o)
        w.check(o.ok == (want is not None) or argv[0] == 'input', f'{label}: {what} ' + ('fails' if want else 'succeeds'), 'success', outcome=o)
        check(o)

    def pick(meta_input):
        for k in POOL:
            if infos[k].spec() == meta_input:
                return k
        return repr(meta_input)

    for arg, t in times(have, infos, full):
        targ = ('--time', arg) if arg else ()
        for name in ('a', 'b') if full or arg is None else ('a',):
            want = expected(have, infos, name=name, until=t)
            target = world.path('edited')

            def check_edit(o):
                got = None
                if os.path.exists(target):
                    with open(os.path.join(target, 'which'), 'rb') as f:
                        got = f.read().decode()
                    w.check(got != want or lib.ws_meta(target)['kind'] == infos[want].kind, f'{label}: edit takes a wrong kind', 'edit-kind')
                    restore(target, {})
                w.check(got == want, f'{label}: edit {name} {arg or ""} takes {got} instead of {want}', 'edit', outcome=o)
                w.distinct('nontrivial', (have, where, mode, 'edit', name, arg))
            run(f'edit {name} {arg}', want, ('edit', name, target, *targ), check_edit)

            restore(ws, ctx.trees['p'])

            def check_add(o):
                got = lib.ws_inputs(ws)
                exp = {'x': infos['p'].spec(), **({'y': infos[want].spec()} if want else {})}
                w.check(got == exp, f'{label}: input add y {name} {arg or ""} takes {pick(got.get("y"))} instead of {want}', 'add', outcome=o)
                w.check(want or snap(ws) == ctx.trees['p'], f'{label}: a failed input add changes the workspace', 'add-changes', outcome=o)
                w.check(want is None or lib.files_below(os.path.join(ws, 'input', 'y')) == infos[want].out, f'{label}: input add loads something else', 'add-data')
                w.distinct('nontrivial', (have, where, mode, 'add', name, arg))
            run(f'input add y {name} {arg}', want, ('input', 'add', 'y', name, *targ, '-w', ws), check_add)

    for cur in sorted(POOL) if full else ('p', 'q', 'r', 's', 't'):
        kind, ct = infos[cur].kind, lib.micros(infos[cur].ts)
        variants = [((), expected(have, infos, kind=kind)), (('--next',), expected(have, infos, kind=kind, after=ct)),
                    (('--prev',), expected(have, infos, kind=kind, before=ct))]
        ts = times(have, infos, full)[1:]
        if not full:
            ts = [(infos[cur].ts, ct), (shifted(ct - 1), ct - 1)]
        variants += [(('--time', a), expected(have, infos, kind=kind, until=t)) for a, t in ts]
        for args, want in variants:
            restore(ws, ctx.trees[cur])

            def check_update(o):
                got = lib.ws_inputs(ws)
                exp = {'x': infos[want or cur].spec()}
                w.check(got == exp, f'{label}: updating {cur} {" ".join(args)} takes {pick(got.get("x"))} instead of {want}', 'update', outcome=o)
                w.check(want or snap(ws) == ctx.trees[cur], f'{label}: a failed update changes the workspace', 'update-changes', outcome=o)
                w.check(want is None or lib.files_below(os.path.join(ws, 'input', 'x')) == infos[want].out, f'{label}: update loads something else', 'update-data')
                w.check(want or not o.ok or o.out or o.err, f'{label}: updating {cur} {" ".join(args)} does not tell that there is nothing', 'silent')
                w.distinct('nontrivial', (have, where, mode, 'update', cur, args))
            run(f'input update of {cur} {" ".join(args)}', want, ('input', 'update', 'x', *args, '-w', ws), check_update)
    after = [snap(world.path(d)) for d in ('one', 'two')]
    for b, a in zip(stored, after):
        w.check({k: v for k, v in a.items() if not k.startswith('.index')} == {k: v for k, v in b.items() if not k.startswith('.index')},
                f'{label}: the box is changed', 'box')
    w.sample({'boxes': label, 'distribution': where})


def crowd_case(w, case):
    """one of many versions"""
    mode, positions = case
    c = w.ctx.crowd
    world = World(w.fresh())
    dirs = [('one', world.path('one')), ('two', world.path('two'))]
    for n, i in enumerate(c.all):
        lib.put(dirs[n % 3 == 0][1], i)
    world.set_boxes(dirs)
    if mode == 'indexed':
        w.check(w.cli(world, 'box', 'index', '--all', clock=lib.T0, timeout=200).ok, 'index fails', 'setup')
    ws, target = world.path('ws'), world.path('edited')
    w.check(w.cli(world, 'new', ws, clock=lib.T0).ok, 'new fails', 'setup')
    clock = lib.T0 + 365 * 86400 * lib.NS
    for k in positions:
        label = f'{mode} boxes with {len(c.v)} versions'
        for arg, want in (((), len(c.v) - 1), (('--time', c.v[k].ts), k), (('--time', shifted(lib.micros(c.v[k].ts) - 1)), k - 1)):
            o = w.cli(world, 'edit', 'v', target, *arg, clock=clock, timeout=100)
            got = None
            if os.path.exists(target):
                with open(os.path.join(target, 'which'), 'rb') as f:
                    got = f.read().decode()
                restore(target, {})
            w.check(got == (f'v{want}' if want >= 0 else None), f'{label}: edit v {" ".join(arg)} takes {got} instead of v{want}', 'crowd-edit', outcome=o)
            w.count('evaluations')
        box = dirs[c.all.index(c.v[k]) % 3 == 0][1]
        for args, want in (((), len(c.v) - 1), (('--next',), k + 1), (('--prev',), k - 1), (('--time', c.v[k // 2].ts), k // 2)):
            o = w.cli(world, 'input', 'add', 'x', os.path.join(box, c.v[k].file), '-w', ws, clock=clock)
            w.check(o.ok and lib.ws_inputs(ws) == {'x': c.v[k].spec()}, f'{label}: input add of an archive fails', 'crowd-add', outcome=o)
            o = w.cli(world, 'input', 'update', 'x', *args, '-w', ws, clock=clock, timeout=100)
            got = lib.ws_inputs(ws)
            exp = want if 0 <= want < len(c.v) else k
            w.check(got == {'x': c.v[exp].spec()}, f'{label}: updating version {k} {" ".join(args)} takes {[i.ts for i in c.v if i.spec() == got.get("x")]} instead of {c.v[exp].ts}',
                    'crowd-update', outcome=o)
            w.check(w.cli(world, 'input', 'delete', 'x', '-w', ws, clock=clock).ok, 'input delete fails', 'setup')
            w.count('evaluations')


def main(ctx):
    ctx.crowd = ctx.setup(crowd.make)
    n = len(ctx.crowd.v)
    ks = [0, 1, 99, 100, 255, 256, 257, 499, 500, 511, 512, n - 2, n - 1]
    ctx.pmap(crowd_case, [('indexed', ks[j::3]) for j in range(3)] + [('raw', [k]) for k in ((0, 256, 500, n - 1) if ctx.quick else ks)], name='crowd')
    ctx.infos, ctx.noise, ctx.trees = ctx.setup(setup)
    keys = tuple(POOL)
    cases = []
    for n in range(len(keys) + 1):
        for have in itertools.combinations(keys, n):
            alternating = tuple(j % 2 for j in range(n))
            if ctx.quick:
                if 'u' in have and n not in (1, 2, 6):
                    continue
                cases += [(have, alternating, m) for m in ('raw', 'indexed')]
            else:
                ds = {alternating, tuple(1 - x for x in alternating), (0,) * n, (1,) * n}
                if n <= 4:
                    ds |= set(itertools.product((0, 1), repeat=n))
                cases += [(have, d, m) for d in sorted(ds) for m in ('raw', 'indexed', 'mixed')]
    ctx.pmap(judge, cases, name='selections')
    ctx.coverage['rule'] = 'all subsets of the pool x distributions x index modes x (edit, add, update, --next, --prev) x boundary times'
