"""C31: a bad replacement never harms an input.

All assignments of good / damaged / missing to the versions of two inputs, in one
or two boxes with or without a (then outdated) index: every input command must
leave each input as it was or make it the selected good version."""
import itertools
import os
import re

import fw
import lib
from fw import World, diff, restore, snap

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of bead states x workspace states x input commands on the real command line, against a reference of what may happen to each input'
NOTE = ('Four versions, each good, damaged in one of 9 ways, or missing; three distributions over two boxes, raw and indexed; two recorded versions x four loaded states; 18 commands, '
        'and 15 sorts of bad files given by path. With several copies of the selected version of which only some are good either result is accepted.')

X, Y = 'firstin', 'secondin'
T = {'a1': '20200101T000000000000+0000', 'b1': '20200201T000000000000+0000', 'a2': '20210101T000000000000+0000', 'b2': '20210201T000000000000+0000'}
MID = '2020-06-01'
FORMS = ('data', 'truncated', 'extra', 'closed', 'code', 'text', 'nometa', 'empty', 'swap')
HIDDEN = ('truncated', 'closed', 'text', 'nometa', 'empty')      # a raw box can not see these


class Scene:
    pass


def bad_bytes(info, form, other):
    ms = lib.members(info.data)
    if form == 'data':
        return lib.pack([(n, d + b'!' if n.startswith('data/') else d) for n, d in ms])
    if form == 'code':
        return lib.pack([(n, d + b'!' if n.startswith('code/') else d) for n, d in ms])
    if form == 'extra':
        return lib.pack(ms + [('data/extra', b'evil')])
    if form == 'truncated':
        return info.data[:len(info.data) // 2]
    if form == 'text':
        return b'this is not a bead'
    if form == 'empty':
        return b''
    if form == 'nometa':
        return lib.pack([m for m in ms if m[0] != 'meta/bead'])
    if form == 'swap':
        return other.data
    return info.data


def setup(w):
    sc = Scene()
    mk = lib.make_bead
    sc.infos = {v: mk(w, v[0] * 2, 'K' + v[0], ts, out={'o': v.encode(), 'd/' + v: v.encode() * 3000, 'same': v.encode()}) for v, ts in T.items()}
    sc.swap = {v: mk(w, v[0] * 2, 'K' + v[0], ts, out={'o': b'SWAPPED'}) for v, ts in T.items()}
    world = World(w.fresh())
    box = world.path('box')
    lib.put(box, *sc.infos.values())
    world.set_boxes([('box', box)])
    ws = world.path('ws')
    sc.ws = {}
    for rec, lx, ly in itertools.product(('a1', 'a2'), (True, False), (True, False)):
        restore(ws, {})
        cmds = [('new', ws), ('input', 'add', X, 'aa', '-w', ws, *(('-t', MID) if rec == 'a1' else ())), ('input', 'add', Y, 'bb', '-t', MID, '-w', ws)]
        cmds += [('input', 'unload', n, '-w', ws) for n, l in ((X, lx), (Y, ly)) if not l]
        for c in cmds:
            o = w.cli(world, *c, clock=lib.T0)
            w.check(o.ok, f'{c} fails', 'setup', outcome=o)
        lib.write_tree(ws, {'code.py': b'code', 'output/o': b'mine', 'temp/t': b'tmp'})
        w.check(lib.ws_inputs(ws) == {X: sc.infos[rec].spec(), Y: sc.infos['b1'].spec()}, 'wrong references', 'setup')
        sc.ws[rec, lx, ly] = snap(ws)
    # indexes of boxes with all / some good versions
    sc.box = {}
    for vs in (('a1', 'a2', 'b1', 'b2'), ('a1', 'a2'), ('b1', 'b2')):
        restore(box, {})
        lib.put(box, *[sc.infos[v] for v in vs])
        sc.box[vs, False] = snap(box)
        w.check(w.cli(world, 'box', 'index', clock=lib.T0).ok, 'index fails', 'setup')
        sc.box[vs, True] = snap(box)
    return sc


ALLV = ('a1', 'a2', 'b1', 'b2')
LAYOUTS = {'one': ((ALLV, True), (None, False)), 'split': ((('a1', 'a2'), True), (('b1', 'b2'), True)), 'copies': ((ALLV, True), (ALLV, False)), 'copies after': ((ALLV, False), (ALLV, True))}


def boxes_of(sc, layout, states, indexed):
    """[(tree, {version: state})] of the boxes"""
    out = []
    for vs, affected in LAYOUTS[layout]:
        if vs is None:
            continue
        tree = dict(sc.box[vs, indexed])
        have = {}
        for v in vs:
            have[v] = states[v] if affected else 'good'
            f = sc.infos[v].file
            if have[v] == 'gone':
                del tree[f]
            elif have[v] != 'good':
                tree[f] = ('f', 0 if have[v] == 'closed' else 0o644, bad_bytes(sc.infos[v], have[v], sc.swap[v]))
        out.append((tree, have))
    return out


def visible(state, indexed):
    return indexed or state not in HIDDEN + ('gone',)


def select(boxes, indexed, letter, cond, oldest=False):
    """states of the copies of the selected version, and the version"""
    found = {v for _, have in boxes for v, s in have.items() if v[0] == letter and visible(s, indexed) and cond(v)}
    if not found:
        return None, ['gone']
    v = (min if oldest else max)(found, key=lambda v: T[v])
    return v, [have[v] for _, have in boxes if v in have and visible(have[v], indexed)]


def load_select(boxes, indexed, v):
    return v, [have[v] for _, have in boxes if v in have and visible(have[v], indexed)] or ['gone']


COMMANDS = ['add n aa', 'add x aa', 'add x bb', 'add n aa -t', 'add x aa -t', 'add n PATH', 'add x PATH', 'update x', 'update x -t', 'update x --next', 'update x --prev', 'update x bb', 'update x PATH', 'update y',
            'update', 'update -t', 'load x', 'load']
OLD = '20200601'


def plan(cmd, boxes, indexed, rec):
    """(argv, {nick: (version, states)}): what is selected for the inputs"""
    word, *rest = cmd.split()
    argv = ['input', word]
    sel = {}
    for r in rest:
        argv += {'x': [X], 'y': [Y], 'n': ['newin'], '-t': ['-t', MID]}.get(r, [r])
    before_mid = (lambda v: T[v] < OLD) if '-t' in rest else (lambda v: True)
    if word == 'load':
        for nick, v in ((X, rec), (Y, 'b1')):
            if not rest or nick == X:
                sel[nick] = load_select(boxes, indexed, v)
        return argv, sel
    nick = {'x': X, 'y': Y, 'n': 'newin'}.get(rest[0]) if rest else None
    if 'PATH' in rest:
        sel[nick] = ('a2', [boxes[0][1]['a2']])
    elif word == 'add' or 'bb' in rest:
        sel[nick] = select(boxes, indexed, 'b' if 'bb' in rest else 'a', before_mid)
    elif '--next' in rest:
        sel[nick] = select(boxes, indexed, 'a', lambda v: T[v] > T[rec], oldest=True)
    elif '--prev' in rest:
        sel[nick] = select(boxes, indexed, 'a', lambda v: T[v] < T[rec])
    else:
        for n, letter in ((X, 'a'), (Y, 'b')):
            if nick in (None, n):
                sel[n] = select(boxes, indexed, letter, before_mid)
    return argv, sel


def judge(w, case):
    states, layout, indexed, wskey, commands = case
    sc = w.ctx.sc
    states = dict(zip(ALLV, states))
    rec, lx, ly = wskey
    boxes = boxes_of(sc, layout, states, indexed)
    world = World(w.fresh())
    dirs = [world.path(f'box{n}') for n in range(len(boxes))]
    for d, (tree, _) in zip(dirs, boxes):
        restore(d, tree)
    world.set_boxes([(f'box{n}', d) for n, d in enumerate(dirs)])
    ws = world.path('ws')
    base = sc.ws[wskey]
    current = {X: rec, Y: 'b1'}
    was_loaded = {X: lx, Y: ly}
    stored = [snap(d) for d in dirs]
    for cmd in commands:
        argv, sel = plan(cmd, boxes, indexed, rec)
        if 'PATH' in argv and sel[list(sel)[0]][1] in (['gone'], ['closed'], ['swap']):
            continue
        argv = [os.path.join(dirs[0], sc.infos['a2'].file) if a == 'PATH' else a for a in argv]
        restore(ws, base)
        o = w.cli(world, *argv, '-w', ws, clock=lib.T0)
        w.count('evaluations')
        label = f'{cmd} with {states} in {layout}{", indexed" if indexed else ""}, recorded {rec}, loaded {lx} {ly}'
        w.distinct('nontrivial', label)
        judge_result(w, sc, label, o, ws, base, sel, current, was_loaded, cmd.startswith('load'))
    w.sample({'states': states, 'layout': layout, 'indexed': indexed, 'commands': commands})
    for d, s in zip(dirs, stored):
        now = snap(d)
        w.check({k: v for k, v in now.items() if not k.startswith('.index')} == {k: v for k, v in s.items() if not k.startswith('.index')}, 'the box is changed: ' + str(diff(s, now)), 'box')


def judge_result(w, sc, label, o, ws, base, sel, current, was_loaded, loading):
    w.check(o.kind in ('ret', 'exit', 'exc'), f'{label} ends in {o.kind}', 'died', outcome=o)
    after = snap(ws)
    meta = ('.bead-meta', '.bead-meta/bead')
    same = {k: v for k, v in after.items() if not k.startswith('input/') and k not in meta}
    w.check(same == {k: v for k, v in base.items() if not k.startswith('input/') and k not in meta}, f'{label} changes {diff(base, after)}', 'other')
    refs = lib.ws_inputs(ws)
    w.check(lib.ws_meta(ws)['kind'] == fw.json.loads(base['.bead-meta/bead'][2])['kind'], f'{label} changes the kind', 'kind')
    old = fw.json.loads(base['.bead-meta/bead'][2])['inputs']
    left = {k.split('/')[1] for k in after if k.startswith('input/')} | set(refs)
    w.check(left <= {X, Y, *sel}, f'{label} leaves {sorted(left)} in the workspace', 'leftover')
    for nick in sorted({X, Y, *sel}):
        sub = lib.subtree(after, 'input/' + nick)
        unchanged = refs.get(nick) == old.get(nick) and sub == lib.subtree(base, 'input/' + nick)
        if nick not in sel:
            w.check(unchanged, f'{label} changes input {nick}: {diff(base, after)}', 'harm-other', outcome=o)
            continue
        v, states = sel[nick]
        loaded = was_loaded.get(nick, False)
        nothing_to_do = loaded and (loading or current.get(nick) == v)
        done = v and refs.get(nick) == sc.infos[v].spec() and {k: x[2] for k, x in sub.items() if x[0] == 'f'} == sc.infos[v].out and not any(x[0] in 'lo' for x in sub.values())
        told = o.failed or o.err or 'DAMAGED' in o.out or re.search(rf'\b{nick}\b', o.out)
        if nothing_to_do:
            w.check(unchanged or done, f'{label} changes input {nick}, which is at that version: {diff(base, after)}', 'harm', outcome=o)
        elif all(s == 'good' for s in states):
            w.check(done, f'{label} does not load {v} as {nick}: {refs.get(nick)} {sorted(sub)}', 'not-done', outcome=o)
        elif 'good' in states:
            w.check(done or unchanged and told, f'{label} harms input {nick}: {diff(base, after)}', 'harm', outcome=o)
        else:
            w.check(unchanged, f'{label} harms input {nick}: {diff(base, after)}', 'harm', outcome=o)
            w.check(told and (len(sel) == 1 or re.search(rf'\b{nick}\b', o.err + o.out)), f'{label} does not tell about {nick}', 'silent', outcome=o)


# ------------------------------------------------------------- files by path
def bad_files(sc):
    i = sc.infos['a2']
    ms = lib.members(i.data)
    out = {form: bad_bytes(i, form, None) for form in FORMS if form not in ('closed', 'swap')}

    def meta(f):
        return lib.forge(i, meta=f).data
    out['no kind'] = meta(lambda m: {k: v for k, v in m.items() if k != 'kind'})
    out['no time'] = meta(lambda m: {k: v for k, v in m.items() if k != 'freeze_time'})
    out['no inputs'] = meta(lambda m: {k: v for k, v in m.items() if k != 'inputs'})
    out['no version'] = meta(lambda m: {k: v for k, v in m.items() if k != 'meta_version'})
    out['other version'] = meta({'meta_version': 'x'})
    out['bad time'] = meta({'freeze_time': 'yesterday'})
    out['late time'] = meta({'freeze_time': '20990101T000000000000+0000'})
    out['bad inputs'] = meta({'inputs': {'x': {}}})
    out['list meta'] = lib.forge(i, meta_bytes=b'[]').data
    out['no manifest'] = lib.pack([m for m in ms if m[0] != 'meta/manifest'])
    out['bad manifest'] = lib.pack([(n, b'{' if n == 'meta/manifest' else d) for n, d in ms])
    out['climbing'] = lib.forge(i, out={'../../escaped': b'evil', 'o': b'o'}).data
    out['lost data'] = lib.pack([m for m in ms if m[0] != 'data/o'])
    return out


def judge_path(w, case):
    form, wskey, cmd, name = case
    sc = w.ctx.sc
    world = World(w.fresh())
    world.set_boxes([])
    ws = world.path('ws')
    base = sc.ws[wskey]
    restore(ws, base)
    path = world.path(name)
    with open(path, 'wb') as f:
        f.write(w.ctx.bad[form])
    rec, lx, ly = wskey
    before = snap(world.root)
    nick = {'x': X, 'n': 'newin'}[cmd[1]]
    o = w.cli(world, 'input', cmd[0], nick, path, '-w', ws, clock=lib.T0)
    w.count('evaluations')
    label = f'input {cmd[0]} {nick} of a file with {form} named {name}, recorded {rec}, loaded {lx} {ly}'
    w.distinct('nontrivial', label)
    after = snap(world.root)
    w.check(o.kind in ('ret', 'exit', 'exc'), f'{label} ends in {o.kind}', 'died', outcome=o)
    # (a loaded input of the same content id is not replaced)
    w.check(before == after, f'{label} changes {diff(before, after)}', 'harm', outcome=o)
    w.check(o.failed or o.err or 'DAMAGED' in o.out or (cmd == ('update', 'x') and rec == 'a2' and lx), f'{label} does not complain', 'silent', outcome=o)


def main(ctx):
    ctx.level = LEVEL
    sc = ctx.sc = ctx.setup(setup)
    ctx.bad = bad_files(sc)
    cases = []
    keys = sorted(sc.ws)
    j = 0
    for n, states in enumerate(itertools.product(('good', 'bad', 'gone'), repeat=4)):
        for indexed in (False, True):
            for layout in LAYOUTS:
                if layout in ('copies', 'copies after') and (ctx.quick and n % 3):
                    continue
                for m, key in enumerate(keys):
                    if ctx.quick and (m + n + indexed) % 8:
                        continue
                    forms = [f for f in FORMS if f != 'swap' or indexed]
                    if 'bad' not in states:
                        forms = forms[:1]
                    elif ctx.quick:
                        j += 1
                        forms = [forms[j % len(forms)]]
                    elif layout != 'one':
                        j += 1
                        forms = [forms[j % len(forms)], forms[(j + 4) % len(forms)]]
                    for f in forms:
                        cases.append((tuple(f if s == 'bad' else s for s in states), layout, indexed, key, tuple(COMMANDS if not ctx.quick or layout == 'one' else COMMANDS[j % 2::2])))
    ctx.pmap(judge, cases, 'boxes')
    names = ('aa_20210101.zip', 'aa.zip', 'bead', 'a b.txt')
    cases = [(f, k, c, names[n % 4]) for n, (f, k, c) in enumerate(itertools.product(sorted(ctx.bad), keys, (('add', 'n'), ('add', 'x'), ('update', 'x'))))]
    ctx.pmap(judge_path, cases, 'paths')
    ctx.coverage['rule'] = NOTE
