"""C40: how a command is spelled does not change what it does.

Every command in its plainest form, and in every combination of the ways to say
the same: forms of options and their places, the workspace named in many forms
or entered, beads by name or archive, times in equal forms, boxes by name or
directory, aliases, all inputs at once or one by one. All must leave the same
behind. And every command line derived from these that is incomplete, or has an
unknown or contradicting part, must be refused and change nothing."""
import itertools
import json
import os
import re

import fw
from fw import World, snap
import lib

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of the spellings of every command on the real command line, compared with the plainest one; and of malformed command lines derived by a grammar'
NOTE = ('quick: any two aspects of the spelling vary at a time; thorough: all. Options between optional arguments may be refused (a limit of argparse), with no effect. '
        'Abbreviated options, and repeated ones, are not judged.')

TS = {'a1': '20200101T000000000000+0000', 'a2': '20200201T000000000000+0000', 'a3': '20200301T000000000000+0000', 'b1': '20200401T000000000000+0000'}
TIME = '2020-02-15'


def setup(w):
    mk = lib.make_bead
    x = fw.Stats()
    x.b = {}
    for n in TS:
        # each with the ones before it as inputs
        x.b[n] = mk(w, n[0] * 2, 'K' + n[0].upper(), TS[n], code={'c.py': n.encode()}, out={'o': n.encode() * 9, f'd/{n}': b''}, inputs={f'in-{m}': i for m, i in x.b.items()})
    world = World(w.fresh())
    one, two = world.path('one'), world.path('two')
    lib.put(one, x.b['a1'], x.b['a3'])
    lib.put(two, x.b['a2'], x.b['b1'])
    world.set_boxes([('one', one), ('two', two)])
    w.check(w.cli(world, 'box', 'index', '--box', 'two', clock=lib.T0).ok, 'index fails', 'setup')
    ws = world.path('ws')
    for argv in (('new', ws), ('input', 'add', 'x', 'aa', '--time', '2020-02-15', '-w', ws), ('input', 'add', 'y', 'bb', '-w', ws),
                 ('input', 'add', 'z', 'aa', '--time', '2020-01-15', '-w', ws), ('input', 'unload', 'y', '-w', ws), ('input', 'unload', 'z', '-w', ws),
                 ('new', world.path('other')), ('input', 'add', 'x', 'aa', '--time', '2020-01-15', '-w', world.path('other'))):
        o = w.cli(world, *argv, clock=lib.T0)
        w.check(o.ok, f'{argv} fails', 'setup', outcome=o)
    lib.write_tree(ws, {'sub/deep/er.py': b'1', 'output/o/p': b'2'})
    lib.write_tree(world.path('other'), {'sub/s': b'3'})
    for link, to in (('link', 'ws'), ('up', '.'), ('home/near', '../ws'), ('onelink', 'one'), ('alias.zip', os.path.join('two', x.b['a2'].file)), ('threelink', 'three')):
        os.symlink(to, world.path(link))
    for d in ('home/work', 'three', 'four'):
        os.makedirs(world.path(d))
    lib.put(world.path('three'), x.b['a2'])
    x.kinds = {'KA', 'KB'} | {lib.ws_meta(world.path(d))['kind'] for d in ('ws', 'other')}
    x.image = lib.image_of(world, 'all', [('one', 'one'), ('two', 'two')])
    x.single = lib.image_of(world, 'single', [('two', 'two')])
    x.old = {k for k in x.image.tree}
    return x


R = '<ROOT>'
# (started in, arguments)
WS = [('home', ('-w', R + '/ws')), ('home', ('-w' + R + '/ws',)), ('home', ('--workspace', R + '/ws')), ('home', (f'--workspace={R}/ws',)),
      ('home', ('-w', '../ws')), ('', ('-w', 'ws')), ('', ('-w', './ws/')), ('home', ('-w', R + '/ws/sub/..')), ('home', ('-w', R + '/link')), ('home', ('-w', 'near')),
      ('', ('-w', 'up/link')), ('ws', ()), ('ws/sub/deep', ()), ('ws/input/x', ()), ('ws/output/o', ()), ('ws/temp', ()), ('link/sub', ()), ('up/ws', ()),
      ('other', ('-w', '../ws')), ('other/sub', ('-w', R + '/ws')), ('ws', ('-w', '.')), ('ws/sub', ('-w', '..')), ('ws/input', ('-w', R + '/ws')), ('link', ('-w', '../ws')), ('two', ('-w', '../ws'))]
# (the same directory as a plain argument)
DIRS = [(cwd, a[-1] if a[0] in ('-w', '--workspace') else None) for cwd, a in WS if a and a[0] in ('-w', '--workspace')]


def times(t):
    secs = lib.T0 // lib.NS - lib.micros(t) // 1_000_000
    d, r = divmod(secs, 86400)
    iso = f'{t[:4]}-{t[4:6]}-{t[6:8]}'
    vals = [iso, t[:8], t, f'{t[:15]}+0000', f'{iso}T00:00:00+0000', f'{iso}T00:00:00.000000+0000', f'{iso}T05:30:00+0530', f'{t[:8]}T000000-0000',
            f'-{d}d-{r}S', f'-{d // 7}w-{d % 7}d-{r // 3600}H-{r % 3600 // 60}M-{r % 60}S', f'-{d + 10}d+10d-{r + 60}S1M']
    out = []
    for v in vals:
        out += [(f'--time={v}',), (f'-t{v}',)]
        if not v.startswith('-'):
            out += [('--time', v), ('-t', v)]
    return out


TIMES = times('20200215T000000000000+0000')
A2 = [R + '/two/{a2}', '<HERE>/two/{a2}', R + '/up/two/{a2}', R + '/./two/../two/{a2}']


def families(x):
    """name -> (heads, [[alternatives of one argument]], [[alternatives of one option]], [places], image, cuts)

    The first of all alternatives make the plainest form."""
    f = {a: i.file for a, i in x.b.items()}
    a2 = [p.format(**f) for p in A2]
    home = [('home', ())]

    def inp(*names):
        return [('input', n) for n in names]
    F = {}
    F['add'] = (inp('add'), [['n'], ['aa', *a2]], [TIMES], WS, 'image', 1)
    F['add same name'] = (inp('add'), [['aa'], [None, 'aa']], [TIMES], WS, 'image', 1)
    F['replace'] = (inp('add'), [['x'], ['bb', R + '/two/' + f['b1'], '<HERE>/two/' + f['b1']]], [], WS, 'image', 1)
    F['delete'] = (inp('delete', 'rm'), [['x']], [], WS, 'image', 1)
    F['load'] = (inp('load'), [['z']], [], WS, 'image', 1)
    F['unload'] = (inp('unload'), [['x']], [], WS, 'image', 1)
    F['update'] = (inp('update'), [['z']], [], WS, 'image', 1)
    F['update to'] = (inp('update'), [['z'], [None, 'aa', *a2]], [TIMES], WS, 'image', 0)
    F['next'] = (inp('update'), [['x']], [[('--next',), ('-N',)]], WS, 'image', 0)
    F['prev'] = (inp('update'), [['x']], [[('--prev',), ('--previous',), ('-P',)]], WS, 'image', 0)
    F['load all'] = (inp('load'), [], [], WS, 'image', 0)
    F['unload all'] = (inp('unload'), [], [], WS, 'image', 0)
    F['update all'] = (inp('update'), [], [[(), *times('99991231T000000000000+0000')[:8]]], WS, 'image', 0)
    F['update all to'] = (inp('update'), [], [TIMES], WS, 'image', 0)
    F['save'] = ([('save',)], [['one']], [], WS, 'image', 0)
    F['save to the only'] = ([('save',)], [[None, 'two']], [], WS, 'single', 0)
    F['status'] = ([('status',)], [], [[('-v',), ('--verbose',)]], WS, 'image', 0)
    F['discard'] = ([('discard',), ('nuke',)], [[('dir', n) for n in range(len(DIRS))]], [[(), ('-f',), ('--force',)]], home, 'image', 0)
    F['edit'] = ([('edit',)], [['aa', *a2, ], [R + '/home/aa', None, 'aa', './aa', '../home/aa/', R + '/up/home/work/../aa', R + '/near/../home/aa']],
                 [TIMES, [('--review',)]], home, 'image', 1)
    F['edit there'] = ([('edit',)], [a2[:2], [R + '/home/aa', '../home/aa']], [], [('home', ()), ('two', ()), ('ws', ()), ('other', ())], 'image', 2)
    F['new'] = ([('new',)], [[R + '/home/fresh', 'fresh', './fresh', 'fresh/', '../home/fresh', R + '/up/home/fresh']], [], home, 'image', 1)
    # (other places to start from do not matter)
    F['box add'] = ([('box', 'add')], [['three'], [R + '/three', '../three', R + '/three/', R + '/threelink', '../up/three', R + '/one/../three']], [], home, 'image', 2)
    for verb in ('index', 'reindex'):
        F[f'{verb} one'] = ([('box', verb)], [], [[('--box', 'two'), ('--box=two',), ('--dir', R + '/two'), (f'--dir={R}/two',), ('--dir', '../two'), ('--dir', R + '/up/two/'),
                                                  (), ('--all',)]], home, 'single', 0)
        F[f'{verb} raw'] = ([('box', verb)], [], [[('--box', 'one'), ('--box=one',), ('--dir', R + '/one'), (f'--dir={R}/one',), ('--dir', '../onelink')]], home, 'image', 0)
    F['forget'] = ([('box', 'forget')], [['one']], [], [('home', ()), ('ws', ()), ('two', ())], 'image', 1)
    # ways to name files, and the same in one or more steps: C35
    F['web'] = ([('web',)], [['heads'], ['/'], ['aa'], ['..'], ['/'], ['save'], [R + '/home/g', 'g', './g', '../home/g', R + '/up/home/g']], [], home, 'image', 0)
    return F


def orders(npos, nopt):
    """where the options go: for each option the number of arguments before it, and the order of options"""
    for perm in itertools.permutations(range(nopt)):
        for at in itertools.combinations_with_replacement(range(npos + 1), nopt):
            yield tuple(zip(perm, at))


def build(head, args, opts, order):
    out = list(head)
    for n in range(len(args) + 1):
        for o, at in order:
            if at == n:
                out += opts[o]
        if n < len(args):
            out.append(args[n])
    return out


def normal(x, tree):
    """a tree without what differs in every run"""
    out = {}
    for k, v in tree.items():
        if os.path.basename(k).startswith(lib.INDEX):
            if k.endswith(lib.INDEX):
                out[k] = 'index'
            continue
        if v[0] == 'f' and k.endswith('.zip') and k not in x.old:
            mems = dict(lib.members(v[2]))
            meta = json.loads(mems.pop('meta/bead'))
            meta['freeze_time'] = None
            mems = {n: d for n, d in mems.items() if not n.startswith('meta/')}
            out[re.sub(r'_20(?!20)\d{6}T\d{12}[-+]\d{4}', '_NOW', k)] = (sorted(mems.items()), repr(sorted(meta.items())))
        elif v[0] == 'f' and k.endswith('.bead-meta/bead'):
            meta = json.loads(v[2])
            if meta.get('kind') not in x.kinds:
                meta['kind'] = 'FRESH'
            if 'freeze_time' in meta:
                meta['freeze_time'] = None
            out[k] = (v[0], v[1], repr(sorted((a, repr(sorted(b.items())) if isinstance(b, dict) else b) for a, b in meta.items())))
        else:
            out[k] = v
    return out


def cids(x, lst):
    known = {b.cid for b in x.b.values()}
    return lst if isinstance(lst, str) else sorted((t[0], t[1] if t[1] in x.kinds else '', t[2] if t[2] in known else 'NEW', *t[5:]) for t in lst)


def execute(w, image, lines):
    """runs command lines [(cwd, argv)] -> (outcomes, normalised state)"""
    x = w.ctx.x
    world = lib.world_of(w, getattr(x, image))
    outcomes = []
    for cwd, argv in lines:
        here = os.path.join(world.root, cwd) if cwd else world.root
        rel = os.path.relpath(world.root, os.path.realpath(here))
        if os.path.basename(here) == 'two':
            # (just the name of the file)
            argv = [a.replace('<HERE>/two/', '') for a in argv]
        argv = [a.replace(R, world.root).replace('<HERE>', rel) for a in argv]
        outcomes.append(w.fork(fw.run_cli, world.config, argv, cwd=here, env={**world.env, 'PWD': here}, clock=lib.T0))
    tree = snap(world.root)
    lst = None
    if any(a[0] in ('save', 'box') for _, a in lines):
        # (raw boxes are seen as they are)
        lst, _ = lib.observe(w, world)
        lst = cids(x, lst)
    return outcomes, normal(x, tree), lst


def spellings(fam, quick):
    heads, args, opts, places, image, _ = fam
    every = [heads, *args, *opts, places]
    sizes = [len(d) for d in every]
    for choice in itertools.product(*map(range, sizes)):
        if quick and sum(1 for c in choice if c) > 2:
            continue
        yield choice


def line(fam, choice, order=None):
    """-> (cwd, argv) or None"""
    heads, args, opts, places, image, _ = fam
    head = heads[choice[0]]
    a = [v[c] for v, c in zip(args, choice[1:])]
    o = [v[c] for v, c in zip(opts, choice[1 + len(args):])]
    cwd, wopt = places[choice[-1]]
    if a and isinstance(a[0], tuple):
        cwd, a[0] = DIRS[a[0][1]]
    a = [v for v in a if v is not None]
    o = [tuple(v) for v in o if v] + ([wopt] if wopt else [])
    if order is None:
        return cwd, build(head, a, o, [(n, len(a)) for n in range(len(o))]), len(a), len(o)
    return cwd, build(head, a, o, order)


def judge(w, case):
    name, choices = case
    x = w.ctx.x
    fam = w.ctx.families[name]
    mandatory = fam[5]
    first = line(fam, (0,) * (1 + len(fam[1]) + len(fam[2]) + 1))
    image = fam[4]
    ref_o, ref_tree, ref_lst = execute(w, image, [first[:2]])
    ref_o = ref_o[0]
    w.check(ref_o.ok, f'{name}: {first[1]} fails', 'plain', outcome=ref_o)
    if name not in ('status',):
        start = normal(x, getattr(x, image).tree)
        changed = {k for k in set(start) | set(ref_tree) if start.get(k) != ref_tree.get(k) and k != 'config/env.json'}
        w.check(changed or name in ('forget', 'box add') or name.startswith(('index', 'reindex')), f'{name}: {first[1]} changes nothing', 'plain-nothing', outcome=ref_o)
    for choice in choices:
        cwd, argv, na, no = line(fam, choice)
        varied = sum(1 for c in choice if c)
        todo = list(orders(na, no)) if varied <= 1 or not w.ctx.quick else [tuple((n, na) for n in range(no)), tuple((n, 0) for n in range(no))]
        seen = set()
        for order in todo:
            argv = line(fam, choice, order)[1]
            if tuple(argv) in seen:
                continue
            seen.add(tuple(argv))
            o, tree, lst = execute(w, image, [(cwd, argv)])
            o = o[0]
            label = f'{name}: {" ".join(argv)} in /{cwd}'
            w.count('evaluations')
            w.distinct('nontrivial', (name, choice, order))
            between = any(mandatory <= at < na for _, at in order) or (mandatory == 0 and na and any(0 < at < na for _, at in order))
            if between and not o.ok:
                start = x.refused(w, image)
                w.check(tree == start[0], f'{label}: refused, but changes {sorted(k for k in set(tree) | set(start[0]) if tree.get(k) != start[0].get(k))[:6]}', 'refused-changes', outcome=o)
                w.count('refused')
                continue
            w.check(o.ok, f'{label}: fails, unlike {" ".join(first[1])}', f'fails:{name}', outcome=o)
            other = sorted(k for k in set(tree) | set(ref_tree) if tree.get(k) != ref_tree.get(k))
            w.check(not other, f'{label}: differs from {" ".join(first[1])} in {other[:6]}', f'effect:{name}', outcome=o,
                    got={k: repr(tree.get(k))[:200] for k in other[:3]}, want={k: repr(ref_tree.get(k))[:200] for k in other[:3]})
            w.check(lst == ref_lst, f'{label}: beads found differ from those after {" ".join(first[1])}', f'found:{name}', got=lst, want=ref_lst)
            if name == 'status':
                w.check(o.out == ref_o.out, f'{label}: shows something else than {" ".join(first[1])}', 'status', got=o.out, want=ref_o.out)
    w.sample({'command': name, 'plain': ' '.join(first[1]), 'last': label})


# ------------------------------------------------------- all = one after another
W = ('-w', R + '/ws')
SEQUENCES = {
    'load': [('home', ('input', 'load', *W))],
    'unload': [('home', ('input', 'unload', *W))],
    'update': [('home', ('input', 'update', *W))],
    'update to': [('home', ('input', 'update', '--time', TIME, *W))],
}


def judge_all(w, case):
    name, order = case
    all_lines = SEQUENCES[name]
    _, want, _ = execute(w, 'image', all_lines)
    cwd, argv = all_lines[0]
    lines = [(cwd, (*argv[:2], n, *argv[2:])) for n in order]
    outs, got, _ = execute(w, 'image', lines)
    w.count('evaluations')
    w.distinct('nontrivial', case)
    # (an update to before the first version fails for a single input)
    w.check(name == 'update to' or all(o.ok for o in outs), f'{name} one by one fails', 'one-fails', outcome=outs)
    other = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
    w.check(not other, f'input {name} of {", ".join(order)} differs from {" ".join(argv)} in {other[:6]}', f'all:{name}',
            got={k: repr(got.get(k))[:200] for k in other[:3]}, want={k: repr(want.get(k))[:200] for k in other[:3]})


# --------------------------------------------------------------- malformed lines
# command -> (arguments that are fine, least number, {flags}, {options: good value}, option for the workspace)
OPTW = {'-w': R + '/ws', '--workspace': R + '/ws'}
OPTT = {'-t': TIME, '--time': TIME}
GRAMMAR = {
    ('new',): ((R + '/home/fresh',), 1, (), {}),
    ('edit',): (('aa', R + '/home/fresh'), 1, ('--review',), OPTT),
    ('save',): (('one',), 0, (), OPTW),
    ('status',): ((), 0, ('-v', '--verbose'), OPTW),
    ('discard',): ((R + '/ws',), 0, ('-f', '--force'), {}),
    ('nuke',): ((R + '/ws',), 0, ('-f', '--force'), {}),
    ('version',): ((), 0, (), {}),
    ('input', 'add'): (('n', 'aa'), 1, (), {**OPTT, **OPTW}),
    ('input', 'delete'): (('x',), 1, (), OPTW),
    ('input', 'rm'): (('x',), 1, (), OPTW),
    ('input', 'update'): (('x', 'aa'), 0, ('-N', '--next', '-P', '--prev', '--previous'), {**OPTT, **OPTW}),
    ('input', 'load'): (('z',), 0, (), OPTW),
    ('input', 'unload'): (('x',), 0, (), OPTW),
    ('box', 'add'): (('three', R + '/three'), 2, (), {}),
    ('box', 'list'): ((), 0, (), {}),
    ('box', 'forget'): (('one',), 1, (), {}),
    ('box', 'index'): ((), 0, ('--all',), {'--box': 'one', '--dir': R + '/one'}),
    ('box', 'reindex'): ((), 0, ('--all',), {'--box': 'one', '--dir': R + '/one'}),
}
BADTIMES = (' ', 'yesterday', '2020-13', '2020-02-30', '20', '2020-2-1', '2020-01-01T25:00:00+0000', '2020-01-01 ', '1x', '5', '2020-01-01T00:00:00', '20200101T000000', '-', '10m', '1y', '2020-01-01+1d')


def malformed():
    """[(why, argv)]"""
    out = []
    options = sorted({o for g in GRAMMAR.values() for o in (*g[2], *g[3])} | {'--nonsense', '-x', '--no-review', '--box-name', '-r', '--kind'})
    for head, (args, least, flags, opts) in GRAMMAR.items():
        good = []
        for n in range(least, len(args) + 1):
            good.append((*head, *args[:n]))
            for o, v in opts.items():
                if len(o) > 2:
                    good.append((*head, *args[:n], o, v))
        for n in range(least):
            for o, v in [(None, None), *opts.items()]:
                out.append(('too few arguments', (*head, *args[:n], *((o, v) if o else ()))))
        for extra in (R + '/home/more', 'more', '', ' '):
            for o, v in [(None, None), *opts.items()]:
                out.append(('too many arguments', (*head, *args, extra, *((o, v) if o else ()))))
                out.append(('too many arguments', (*head, *((o, v) if o else ()), *args, extra)))
        for g in good:
            for o in options:
                if o in flags or o in opts or any(k.startswith(o) for k in (*flags, *opts)):
                    continue
                for at in range(len(head), len(g) + 1):
                    if at > len(head) and g[at - 1] in opts:
                        continue
                    out.append((f'unknown option {o}', (*g[:at], o, *g[at:])))
                    if not o.startswith('--') or o in ('--time', '--workspace', '--box', '--dir', '--nonsense'):
                        out.append((f'unknown option {o} with value', (*g[:at], o, TIME, *g[at:])))
            for o in opts:
                out.append((f'option {o} without value', (*g, o)))
            for o in flags:
                if o.startswith('--'):
                    out.append((f'flag {o} with value', (*g, o + '=1')))
            for o in OPTT:
                if o in opts:
                    for t in BADTIMES:
                        out.append((f'time {t!r}', (*g, f'{o}={t}' if o.startswith('--') else f'{o}{t}')))
    for verb in ('index', 'reindex'):
        excl = [('--all',), ('--box', 'one'), ('--dir', R + '/one')]
        for a, b in itertools.permutations(excl, 2):
            out.append(('contradicting options', ('box', verb, *a, *b)))
        out.append(('unknown box', ('box', verb, '--box', 'three')))
        out.append(('unknown box', ('box', verb, '--box', '')))
        out.append(('no directory', ('box', verb, '--dir', R + '/nowhere')))
        out.append(('no directory', ('box', verb, '--dir', R + '/alias.zip')))
        out.append(('several boxes', ('box', verb)))
    for off in ('-N', '--next', '-P', '--prev', '--previous'):
        out.append(('offset of all', ('input', 'update', off)))
        out.append(('offset and bead', ('input', 'update', 'x', 'aa', off)))
        out.append(('offset and archive', ('input', 'update', 'x', R + '/alias.zip', off)))
        out.append(('offset and time', ('input', 'update', 'x', off, '--time', TIME)))
        out.append(('offset and time', ('input', 'update', 'x', '-t', '2020-01-15', off)))
    out.append(('several boxes', ('save',)))
    for n in ('nobox', '', R + '/one', 'ONE', 'one '):
        out.append(('unknown box', ('save', n)))
    for g in ('input', 'box'):
        for v in ((), ('frob',), ('', ), ('ADD', 'n', 'aa'), ('-w', R + '/ws'), ('addd', 'n', 'aa'), ('list' if g == 'input' else 'load',)):
            out.append(('not a command', (g, *v)))
    for v in ((), ('',), ('SAVE', 'one'), ('saved', 'one'), ('add', 'n', 'aa'), ('index',), ('-w', R + '/ws', 'save', 'one'), ('--review', 'edit', 'aa'), ('--', ), ('inputs', 'add', 'n', 'aa')):
        out.append(('not a command', v))
    out += [('unknown input', ('input', v, 'w')) for v in ('load', 'update', 'delete', 'rm')]
    out += [('unknown bead', ('input', 'add', 'n', 'nobead')), ('unknown bead', ('edit', 'nobead')), ('unknown bead', ('input', 'update', 'x', 'nobead'))]
    return list(dict.fromkeys(out))


# reported, but ended as if done: nothing says what the exit status of these should be
LENIENT = {'unknown box', 'several boxes', 'no directory'}


def judge_bad(w, case):
    x = w.ctx.x
    world = lib.world_of(w, x.image)
    before = snap(world.root)
    for why, argv in case:
        line = [a.replace(R, world.root) for a in argv]
        here = world.path('ws')
        o = w.fork(fw.run_cli, world.config, line, cwd=here, env={**world.env, 'PWD': here}, clock=lib.T0)
        w.count('evaluations')
        w.distinct('nontrivial', argv)
        label = f'{why}: {" ".join(map(repr, argv))}'
        w.check(o.failed or (argv[:1] == ('box',) and why in LENIENT), f'{label}: is accepted', f'accepted:{why}', outcome=o)
        w.check((o.out + o.err).strip() or o.message, f'{label}: nothing is said', 'silent', outcome=o)
        after = snap(world.root)
        w.check(after == before, f'{label}: changes {fw.diff(before, after)}', f'changes:{why}', outcome=o)
    w.sample({'malformed': ' '.join(map(repr, argv)), 'why': why})


def main(ctx):
    ctx.level = LEVEL
    ctx.x = ctx.setup(setup)
    def refused(w, image):
        if image not in w.__dict__.setdefault('starts', {}):
            world = lib.world_of(w, getattr(ctx.x, image))
            w.starts[image] = (normal(ctx.x, snap(world.root)),)
        return w.starts[image]
    ctx.x.refused = refused
    ctx.families = families(ctx.x)
    cases = []
    for name, fam in ctx.families.items():
        todo = list(spellings(fam, ctx.quick))
        cases += [(name, todo[i:i + 12]) for i in range(0, len(todo), 12)]
    ctx.pmap(judge, cases, 'spellings')
    perms = [p for n in (3,) for p in itertools.permutations('xyz', n)]
    ctx.pmap(judge_all, [(s, p) for s in SEQUENCES for p in perms], 'one by one')
    bad = malformed()
    ctx.pmap(judge_bad, [bad[i:i + 10] for i in range(0, len(bad), 10)], 'malformed')
    ctx.coverage['families'] = {n: len(list(spellings(f, ctx.quick))) for n, f in ctx.families.items()}
    ctx.coverage['malformed'] = len(bad)
    ctx.coverage['rule'] = NOTE
