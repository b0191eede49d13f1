"""C33: status tells the truth about the inputs.

All distributions of exact, older, newer, renamed and unrelated versions of an
input over two boxes, with varied versions of two other inputs, raw and indexed,
all loaded states: the printed text is read and compared with a reference."""
import itertools
import os
import re

import crowd
import fw
import lib
from fw import World, diff, restore, snap

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of box contents x loaded states x index modes on the real status command, against a reference'
NOTE = ('All subsets of 7 versions in each of two boxes (quick: 128 x 9, thorough 128 x 64), a third box, three inputs with all loaded states, four index modes, with and without -v, one name under two kinds. '
        'Which of two versions with equal freeze time in one box is shown is not judged.')

# of the first input: recorded is `exact`; neither texts nor names are in the order of the moments
POOL = {
    'exact': ('a', 'K', '20200601T120000000000+0000'),
    'older': ('a', 'K', '20200601T230000000000+1200'),            # an hour before
    'just older': ('b', 'K', '20200601T085959999999-0300'),       # a microsecond before, renamed
    'newer': ('a', 'K', '20200601T100000000001-0200'),            # a microsecond after
    'twin': ('tw', 'K', '20200601T120000000000+0000'),            # of the same moment
    'other kind': ('a', 'KO', '20200601T110000000000+0000'),
}
OTHER = {'exact': ('y', 'KY', '20210101T000000000000+0000'), 'newer': ('y', 'KY', '20210601T000000000000+0000'), 'older': ('y', 'KY', '20201231T000000000000+0000')}
ITEMS = ('exact', 'older', 'just older', 'newer', 'other kind', 'exact renamed', 'twin')
YSETS = ((), ('exact',), ('newer',), ('exact', 'newer'), ('older',), ('older', 'exact'))
NICKS = ('first', 'a b', 'zz')
MODES = ((), (0,), (1,), (0, 1, 2))


class Scene:
    pass


def setup(w):
    sc = Scene()
    mk = lib.make_bead
    sc.x = {k: mk(w, n, kind, ts, out={'o': k.encode()}) for k, (n, kind, ts) in POOL.items()}
    for k, new in (('exact', 'c'), ('older', 'aa')):
        i = sc.x[k]
        sc.x[k + ' renamed'] = lib.Info(**{**i.__dict__, 'name': new, 'file': f'{new}_{i.ts}.zip'})
    sc.y = {k: mk(w, n, kind, ts, out={} if k == 'exact' else {'o': k.encode()}) for k, (n, kind, ts) in OTHER.items()}
    sc.z = mk(w, 'z', 'K', '20191231T235900000000+0000', out={'o': b'z'})        # same kind as the first, older than all
    world = World(w.fresh())
    ws = world.path('ws')
    world.set_boxes([('b', world.path('box'))])
    lib.put(world.path('box'), sc.x['exact'], sc.y['exact'], sc.z)
    w.check(w.cli(world, 'new', ws, clock=lib.T0).ok, 'new fails', 'setup')
    for nick, i in zip(NICKS, (sc.x['exact'], sc.y['exact'], sc.z)):
        o = w.cli(world, 'input', 'add', nick, os.path.join(world.path('box'), i.file), '-w', ws, clock=lib.T0)
        w.check(o.ok and lib.ws_inputs(ws)[nick] == i.spec(), 'input add fails', 'setup', outcome=o)
    full = snap(ws)
    sc.ws = {}
    for loaded in itertools.product((False, True), repeat=3):
        restore(ws, full)
        for nick, l in zip(NICKS, loaded):
            if not l:
                w.check(w.cli(world, 'input', 'unload', nick, '-w', ws, clock=lib.T0).ok, 'unload fails', 'setup')
        sc.ws[loaded] = snap(ws)
    sc.kind = lib.ws_meta(ws)['kind']
    return sc


def read(text):
    """the sections of the printed text: [(nick, {key: value}, [(mark, box, time)])]"""
    out = []
    head = {}
    for line in text.splitlines():
        if line.startswith('input/'):
            out.append((line[len('input/'):], {}, []))
            continue
        m = re.match(r'\s+([*~]) -r (.*) # (\S+)( \(kind match\))?$', line)
        if m:
            out[-1][2].append((m.group(1), m.group(2), m.group(3)))
            continue
        key, colon, value = line.partition(':')
        if colon:
            (out[-1][1] if out and line[:1].isspace() else head)[key.strip()] = value.strip()
    return head, out


def expect(info, boxes):
    """(names of the bead, {box: possible (mark, box, time)})"""
    names = {i.name for _, have in boxes for i in have if i.cid == info.cid}
    lines = {}
    for name, have in boxes:
        best = [i for i in have if i.kind == info.kind and lib.micros(i.ts) <= lib.micros(info.ts)]
        if best:
            last = max(lib.micros(i.ts) for i in best)
            lines[name] = {('*' if i.cid == info.cid else '~', name, i.ts) for i in best if lib.micros(i.ts) == last}
    return names, lines


def _status(config, jobs):
    from checks.c29 import _statuses
    return _statuses(config, jobs)


def judge(w, case):
    sets, loaded, mode = case
    sc = w.ctx.sc
    world = World(w.fresh())
    names = ('one', 'two x', 'three')
    boxes = []
    for name, (xs, ys, z) in zip(names, sets):
        have = [sc.x[k] for k in xs] + [sc.y[k] for k in ys] + ([sc.z] if z else [])
        lib.put(world.path(name), *have)
        boxes.append((name, have))
    world.set_boxes([(n, world.path(n)) for n in names])
    for b in mode:
        o = w.cli(world, 'box', 'index', '--box', names[b], clock=lib.T0)
        w.check(o.ok, 'index fails', 'setup', outcome=o)
    ws = world.path('ws')
    restore(ws, sc.ws[loaded])
    before = snap(world.root)
    o = w.fork(_status, world.config, [(ws, ws, ['status']), (world.home, world.home, ['status', '-v', '-w', ws])], env=dict(world.env), clock=lib.T0)
    w.check(o.kind == 'ret', f'status ends in {o.kind}', 'died', outcome=o)
    after = snap(world.root)
    label = f'{dict((n, s) for n, s in zip(names, sets))}, loaded {loaded}, indexed {mode}'
    w.check(before == after, f'{label}: status changes {diff(before, after)}', 'changes')
    for verbose, (r, out, err) in enumerate(o.value):
        w.count('evaluations')
        w.distinct('nontrivial', (label, verbose))
        w.check(not r, f'{label}: status fails: {r} {err[-300:]}', 'fails')
        head, got = read(out)
        w.check(head.get('Bead Name') == 'ws' and (head.get('Bead kind') == sc.kind or not verbose), f'{label}: status describes {head}', 'head', out=out)
        w.check(sorted(n for n, _, _ in got) == sorted(NICKS), f'{label}: status lists {[n for n, _, _ in got]}', 'inputs', out=out)
        for nick, facts, lines in got:
            k = NICKS.index(nick)
            info = (sc.x['exact'], sc.y['exact'], sc.z)[k]
            exp_names, exp_lines = expect(info, boxes)
            is_loaded = 'NOT' not in facts.get('Status', 'NOT') and 'loaded' in facts.get('Status', '')
            w.check(is_loaded == loaded[k], f'{label}: status of {nick}: {facts.get("Status")!r}', 'loaded', out=out)
            name, _, time = facts.get('Bead', '').partition(' # ')
            w.check(time == info.ts, f'{label}: time of {nick}: {time!r}', 'time', out=out)
            w.check(name in exp_names or (not exp_names and 'MISSING' in name), f'{label}: bead of {nick}: {name!r} instead of one of {sorted(exp_names)}', 'name', out=out)
            w.check(sorted(b for _, b, _ in lines) == sorted(exp_lines) and all(x in exp_lines[x[1]] for x in lines), f'{label}: boxes of {nick}: {lines} instead of {exp_lines}', 'boxes', out=out)
            if verbose:
                w.check(facts.get('Kind') == info.kind and facts.get('Content id') == info.cid, f'{label}: {nick} is shown as {facts}', 'verbose', out=out)
    w.sample({'boxes': label})


def crowd_case(w, mode):
    """many inputs, many versions, some of the boxes without them"""
    c = w.ctx.crowd
    world = World(w.fresh())
    boxes = [('one', c.all[1::2]), ('two x', c.all[2::3]), ('three', c.v[:100])]
    for name, have in boxes:
        lib.put(world.path(name), *have)
    world.set_boxes([(n, world.path(n)) for n, _ in boxes])
    if mode == 'indexed':
        w.check(w.cli(world, 'box', 'index', '--all', clock=lib.T0, timeout=200).ok, 'index fails', 'setup')
    ws = world.path('ws')
    lib.put(world.path('elsewhere'), c.big)
    w.check(w.cli(world, 'edit', os.path.join(world.path('elsewhere'), c.big.file), ws, clock=lib.T0).ok, 'edit fails', 'setup')
    nicks = {f'i{k:03}': i for k, i in enumerate(c.old)}
    keep = sorted(nicks)
    if mode == 'raw':
        keep = keep[::60]
        meta = lib.ws_meta(ws)
        meta['inputs'] = {n: s for n, s in meta['inputs'].items() if n in keep}
        with open(os.path.join(ws, '.bead-meta', 'bead'), 'wb') as f:
            f.write(lib.dumps(meta))
    loaded = [n for n in keep[::50] if any(nicks[n] in have for _, have in boxes)]
    for n in loaded:
        w.check(w.cli(world, 'input', 'load', n, '-w', ws, clock=lib.T0, timeout=100).ok, 'load fails', 'setup')
    o = w.cli(world, 'status', '-w', ws, clock=lib.T0, timeout=300)
    label = f'{mode}: status of {len(keep)} inputs with {len(c.all)} beads in boxes'
    w.check(o.ok, f'{label} fails', 'crowd-fails', outcome=o)
    head, got = read(o.out)
    w.check(sorted(n for n, _, _ in got) == keep, f'{label} lists {len(got)} inputs', 'crowd-inputs')
    for nick, facts, lines in got:
        info = nicks[nick]
        exp_names, exp_lines = expect(info, boxes)
        name, _, time = facts.get('Bead', '').partition(' # ')
        is_loaded = 'NOT' not in facts.get('Status', 'NOT') and 'loaded' in facts.get('Status', '')
        w.check(time == info.ts and (name in exp_names or (not exp_names and 'MISSING' in name)) and is_loaded == (nick in loaded)
                and sorted(b for _, b, _ in lines) == sorted(exp_lines) and all(x in exp_lines[x[1]] for x in lines),
                f'{label}: {nick}: {facts} {lines} instead of {sorted(exp_names)} {exp_lines}', 'crowd', loaded=loaded)
    w.count('evaluations')


def main(ctx):
    ctx.level = LEVEL
    ctx.crowd = ctx.setup(crowd.make)
    ctx.pmap(crowd_case, ['indexed', 'raw'], 'crowd')
    ctx.sc = ctx.setup(setup)
    subsets = [tuple(x for x, b in zip(ITEMS, bits) if b) for bits in itertools.product((0, 1), repeat=len(ITEMS))]
    few = [(), ('exact',), ('older',), ('newer',), ('exact renamed',), ('just older', 'newer'), ('older', 'exact'), ('other kind', 'exact renamed'), ('older renamed', 'just older')]
    all_loaded = list(itertools.product((False, True), repeat=3))
    cases = []
    j = 0
    for a in subsets:
        for b in few if ctx.quick else [s for s in subsets if len(s) < 4]:
            for mode in (MODES[j % 4],) if ctx.quick else (MODES[j % 4], MODES[(j + 1) % 4]):
                j += 1
                third = few[(j // 3) % len(few)]
                sets = ((a, YSETS[j % 6], j % 2 == 0), (b, YSETS[(j // 6) % 6], j % 3 == 0), (third if j % 5 == 0 else (), YSETS[(j // 7) % 6], j % 7 == 0))
                cases.append((sets, all_loaded[j % 8], mode))
    ctx.pmap(judge, cases, 'boxes')
    # every combination of what the boxes have of the other inputs
    cases = []
    for ya, yb, za, zb, l, m in itertools.product(YSETS, YSETS, (False, True), (False, True), all_loaded, MODES if not ctx.quick else (MODES[0], MODES[3])):
        j += 1
        if not ctx.quick or j % 3 == 0:
            cases.append((((few[j % 9], ya, za), (few[(j // 9) % 9], yb, zb), ((), (), False)), l, m))
    ctx.pmap(judge, cases, 'others')
    ctx.coverage['rule'] = NOTE
