"""C38: archives may come, go and change while a command runs.

Real commands stop before each of their file operations in the boxes; at every
such point another program (synchronisation, another user, a failing disk) does
one thing to an archive - thorough: at every pair of points two things. What
the command leaves behind must be right for some archive that was there, and
archives that are none of its business must not make it fail."""
import os

import fw
from fw import C_READ, World, snap
import lib
import sched

LEVEL = 'model_checking'
TECHNIQUE = ('stateless model checking of the real commands against an environment process: exhaustive enumeration of the points at which '
             'archives are added, removed, renamed, replaced or damaged, with partial order reduction')
NOTE = ('One change at every point (quick: every point where the command uses the changed file or a directory above it, which represents the points '
        'before it; thorough: every point, and two changes at every pair of representative points). Each change is one atomic step. Files '
        'replaced under their name while indexed are not looked for by the index afterwards.')

MASK = sched.MASK | C_READ
TS = {'a1': '20200101T000000000000+0000', 'a2': '20200201T000000000000+0000', 'a3': '20200301T000000000000+0000',
      'b1': '20200401T000000000000+0000', 'b2': '20200501T000000000000+0000', 'c1': '20200601T000000000000+0000'}


def outs(tag):
    return {'o': tag * 20, f'only-{tag.decode()}': tag, 'd/p': tag * 30000}


def setup(w):
    mk = lib.make_bead
    x = fw.Stats()
    b1 = mk(w, 'b', 'KB', TS['b1'], code={'b.py': b'b1'}, out=outs(b'b1'))
    x.beads = {
        'a1': mk(w, 'a', 'KA', TS['a1'], code={'a.py': b'a1'}, out=outs(b'a1')),
        'a2': mk(w, 'a', 'KA', TS['a2'], code={'a.py': b'a2', 'deep/er': b'a2' * 10}, out=outs(b'a2'), inputs={'i': b1}),
        'a3': mk(w, 'a', 'KA', TS['a3'], code={'a.py': b'a3'}, out=outs(b'a3')),
        'b1': b1,
        'b2': mk(w, 'b', 'KB', TS['b2'], code={'b.py': b'b2'}, out=outs(b'b2')),
        'c1': mk(w, 'c', 'KC', TS['c1'], code={'c.py': b'c1'}, out=outs(b'c1'))}
    images = {}
    stored = ('a1', 'a2', 'b1')
    for mode in ('raw', 'indexed'):
        world = World(w.fresh())
        box = world.path('box')
        lib.put(box, *(x.beads[n] for n in stored))
        world.set_boxes([('box', box)])
        if mode == 'indexed':
            w.check(w.cli(world, 'box', 'index', clock=lib.T0).ok, 'index fails', 'setup')
        ws = world.path('ws')
        for argv in (('new', ws), ('input', 'add', 'x', 'a', '--time', '2020-01-15', '-w', ws), ('input', 'add', 'y', 'a', '--time', '2020-01-15', '-w', ws),
                     ('input', 'unload', 'y', '-w', ws)):
            o = w.cli(world, *argv, clock=lib.T0)
            w.check(o.ok, f'{argv[0]} {argv[1]} fails', 'setup', outcome=o)
        lib.write_tree(ws, {'mine.py': b'mine', 'output/o': b'mine' * 100})
        want = {n: x.beads['a1'].spec() for n in 'xy'}
        w.check(lib.ws_inputs(ws) == want, 'wrong inputs', 'setup')
        images[mode] = lib.image_of(world, mode, [('box', 'box')], kind=lib.ws_meta(ws)['kind'])
    x.images = images
    x.stored = stored
    return x


COMMANDS = {
    'edit': (('edit', 'a', '<ROOT>/edited', '--review'), 'a'),
    'load': (('input', 'load', 'y', '-w', '<ROOT>/ws'), 'a1'),
    'add': (('input', 'add', 'n', 'b', '-w', '<ROOT>/ws'), 'b'),
    'update': (('input', 'update', 'x', '-w', '<ROOT>/ws'), 'a'),
    'save': (('save', '-w', '<ROOT>/ws'), ''),
    'status': (('status', '-v', '-w', '<ROOT>/ws'), ''),
    'index': (('box', 'index'), ''),
    'reindex': (('box', 'reindex'), ''),
    'search': (None, ''),
}


def put(p, data):
    with open(p, 'wb') as f:
        f.write(data)


def over(p, data):
    put(p + '.new', data)
    os.rename(p + '.new', p)


def named(bead, name):
    """the bead, when its file has another name"""
    return lib.Info(**{**bead.__dict__, 'name': name})


def actions(x):
    """[(label, bead of the file or None, function(box), beads that appear)]"""
    out = []
    for n in x.stored:
        i = x.beads[n]
        newer = x.beads['a3' if n[0] == 'a' else 'b2']

        def act(label, f, appear=(), n=n, i=i):
            out.append((f'{label} {n}', n, lambda box: f(os.path.join(box, i.file)), appear))
        act('remove', os.unlink)
        act('rename', lambda p: os.rename(p, os.path.join(os.path.dirname(p), os.path.basename(p).split('_')[0] + '.zip')), (n,))
        act('rename to another bead', lambda p: os.rename(p, os.path.join(os.path.dirname(p), 'q.zip')), (named(i, 'q'),))
        act('replace by another version', lambda p, d=newer.data: over(p, d), (newer,))
        act('replace by another bead', lambda p, d=x.beads['c1'].data: over(p, d), (named(x.beads['c1'], n[0]),))
        act('replace by junk', lambda p: over(p, b'junk' * 100))
        act('replace by itself', lambda p, d=i.data: over(p, d), (n,))
        act('damage', lambda p, d=i.data: damage(p, d))
        act('cut', lambda p, d=i.data: os.truncate(p, len(d) // 2))
        act('empty', lambda p: os.truncate(p, 0))
        act('close', lambda p: os.chmod(p, 0))
    for n in ('a3', 'b2', 'c1'):
        out.append((f'add {n}', None, lambda box, i=x.beads[n]: over(os.path.join(box, i.file), i.data), (n,)))
    out.append(('add junk', None, lambda box: over(os.path.join(box, 'a_20200701.zip'), b'junk'), ()))
    out.append(('add directory', None, lambda box: os.mkdir(os.path.join(box, 'd.zip')), ()))
    return out


def damage(p, data):
    with open(p, 'r+b') as f:
        for at in range(60, len(data) - 600, 200):
            f.seek(at)
            f.write(bytes([data[at] ^ 0xff]))


def path_of(x, act):
    return x.beads[act[1]].file if act[1] else ''


def execute(w, c):
    mode, command, plan = c
    x = w.ctx.x
    world = lib.world_of(w, x.images[mode])
    box = world.path('box')
    done = []

    def step(act):
        def do():
            try:
                act[2](box)
            except OSError:
                pass
            done.append(act)
        return do
    argv, _ = COMMANDS[command]
    kw = {'cwd': world.home, 'env': dict(world.env), 'clock': lib.T0}
    proc = (fw.run_cli, (world.config, lib.fill(world.root, argv)), kw) if argv else (lib._listing, (world.config,), kw)
    trace, o, reached = sched.disturbed(w, (box,), proc, MASK, {k: step(w.ctx.actions[n]) for k, n in plan})
    return world, trace, o, done


def dir_of(tree, top):
    return {k: v[2] for k, v in lib.subtree(tree, top).items() if v[0] == 'f'}


def judge(w, c):
    mode, command, plan = c
    x = w.ctx.x
    world, trace, o, done = execute(w, c)
    box = world.path('box')
    label = f'{command}, {mode} box: ' + ', '.join(
        f'{w.ctx.actions[n][0]} before call {k} ({trace[k][1] + " " + os.path.basename(trace[k][2]) if k < len(trace) else "not reached"})'
        for k, n in plan)
    what = '+'.join(a[0] for a in done)
    w.count('schedules')
    w.count('transitions', len(trace))
    w.count('traces_validated_against_impl')
    w.distinct('nontrivial', repr((c, o.kind)))
    w.check(o.kind in ('ret', 'exit', 'exc'), f'{label}: ends in {o.kind}', f'died:{command}', outcome=o)
    touched = {a[1] for a in done if a[1] and not a[0].startswith('replace by itself')}
    seen = {n: x.beads[n] for n in x.stored}
    for a in done:
        for b in a[3]:
            if isinstance(b, str):
                seen[b] = x.beads[b]
            else:
                # another one under an old file name
                seen[{TS['a3']: 'a3', TS['b2']: 'b2'}.get(b.ts, f'{b.name} {b.ts}')] = b
    ws = world.ws
    tree = snap(ws)
    meta = lib.ws_meta(ws)
    specs = {n: s for n, s in lib.ws_inputs(ws).items()}

    def needed(prefix):
        """is the command independent of what was done?"""
        for n, a in enumerate(done):
            # (a newer bead, that comes and goes)
            if a[0].startswith('replace by another version') and a[1][0] == prefix[0] and any(b[1] == a[1] for b in done[n + 1:]):
                return False
        return not any(a[1] and a[1].startswith(prefix) and a[0] != f'replace by itself {a[1]}' for a in done)

    def complete(nick):
        """the input, if loaded, is that of its record"""
        d = lib.subtree(tree, f'input/{nick}')
        if not d:
            return None
        version = [b for b in seen.values() if b.spec() == specs.get(nick)]
        w.check(version, f'{label}: input {nick} is loaded, and recorded as {specs.get(nick)}', f'record:{command}', outcome=o)
        got = dir_of(tree, f'input/{nick}')
        w.check(got == version[0].out, f'{label}: input {nick} is loaded incompletely', f'incomplete:{command}', outcome=o,
                got=sorted((k, len(v)) for k, v in got.items()))
        w.check(not any(v[1] & 0o222 for v in d.values()), f'{label}: input {nick} is writable', f'writable:{command}')
        return version[0]

    odd = [k for k in tree if k.startswith('input/') and k.count('/') == 1 and k.split('/')[1] not in specs]
    w.check(not odd, f'{label}: left behind in input: {odd}', f'leftover:{command}', outcome=o)
    w.check(not tree['input'][1] & 0o222, f'{label}: the input directory is writable', f'writable:{command}')
    versions = {n: complete(n) for n in specs}
    changed = {'add': 'n', 'update': 'x', 'load': 'y'}.get(command)
    for n in 'xy':
        if n != changed:
            w.check(specs.get(n) == x.beads['a1'].spec() and bool(versions[n]) == (n == 'x'), f'{label}: input {n} is changed', f'other:{command}')
    w.check(set(specs) <= {'x', 'y', changed or 'x'} and meta['kind'] == x.images[mode].kind, f'{label}: metadata is changed', f'meta:{command}')
    w.check(dir_of(tree, 'output') == {'o': b'mine' * 100} and tree['mine.py'][2] == b'mine', f'{label}: the workspace is changed', f'ws:{command}')
    report = (o.out + o.err + o.message)[-300:]
    if command == 'edit':
        edited = world.path('edited')
        if o.ok:
            code, out = lib.code_and_output(edited)
            got = lib.ws_meta(edited)
            hits = [b for b in seen.values() if (b.code, b.out, b.kind, b.inputs) == (code, out, got['kind'], got['inputs']) and b.name == 'a']
            w.check(len(hits) == 1, f'{label}: what can be edited was never stored', 'edit-what', code=sorted(code), out=sorted(out))
            if needed('a2') and not any(b.name == 'a' and b.ts > TS['a2'] for b in seen.values()):
                w.check(hits[0] is x.beads['a2'], f'{label}: not the newest version to edit', 'edit-version')
        else:
            w.check(not os.path.exists(edited) or touched, f'{label}: a failed edit leaves a workspace', 'edit-left')
        if needed('a2'):
            w.check(o.ok, f'{label}: edit fails: {report}', 'edit-fails', outcome=o)
    elif command == 'load':
        w.check(specs.get('y') == x.beads['a1'].spec(), f'{label}: load changes the record', 'load-record')
        if needed('a1'):
            w.check(o.ok and versions['y'], f'{label}: not loaded: {report}', 'load-fails', outcome=o)
    elif command == 'add':
        if 'n' in specs:
            hits = [b for b in seen.values() if b.spec() == specs['n'] and b.name == 'b']
            w.check(len(hits) == 1, f'{label}: adds {specs["n"]}', 'add-what')
        if needed('b'):
            w.check(o.ok and versions.get('n') in (x.beads['b1'], seen.get('b2', x.beads['b1'])),
                    f'{label}: not added: {report}', 'add-fails', outcome=o)
    elif command == 'update':
        hits = [b for b in seen.values() if b.spec() == specs['x'] and b.kind == 'KA']
        w.check(hits, f'{label}: updates to {specs["x"]}', 'update-what')
        if needed('a2'):
            w.check(o.ok and versions['x'] in (x.beads['a2'], seen.get('a3', x.beads['a2'])), f'{label}: not updated: {report}', 'update-fails', outcome=o)
    elif command == 'search':
        w.check(o.kind == 'ret', f'{label}: searching fails: {report}', 'search-fails', outcome=o)
        found(w, x, world, o.value, touched, seen, label, 'search', exact=False)
    elif command != 'save':
        w.check(o.ok and 'Failed' not in o.out, f'{label}: fails: {report}', f'fails:{command}', outcome=o)
    if command == 'save':
        w.check(o.ok, f'{label}: save fails: {report}', 'save-fails', outcome=o)
        known = {b.file for b in x.beads.values()} | {'q.zip', 'a.zip', 'b.zip', 'a_20200701.zip', 'd.zip'}
        new = [f for f in lib.zips(box) if f not in known]
        w.check(len(new) == 1, f'{label}: saved archives: {new}', 'save-count')
        lst, facts = lib.observe(w, world, [os.path.join(box, new[0])])
        ok, got = facts[os.path.join(box, new[0])]
        w.check(ok == 'valid' and got[0] == 'ws' and isinstance(lst, list) and sum(t[2] == got[2] for t in lst) == 1,
                f'{label}: the saved bead is not found', 'save-lost', got=got)
    elif command in ('index', 'reindex'):
        lst, _ = lib.observe(w, world)
        found(w, x, world, lst, touched, seen, label, command, exact=False)
        # files that come and go are noticed by the next run
        again = w.cli(world, 'box', 'index', clock=lib.T0)
        w.check(again.ok, f'{label}: then index fails', 'index-again', outcome=again)
        lst, _ = lib.observe(w, world)
        found(w, x, world, lst, touched, seen, label + ', then box index', 'again',
              exact=not any(a[0].split()[0] in ('replace', 'damage', 'cut', 'empty', 'close') for a in done))
    w.distinct('outcomes', (command, mode, what, o.kind, sorted((n, v and v.ts) for n, v in versions.items())))
    if len(plan) == 1 and plan[0][0] % 25 == 0:
        w.sample({'run': label, 'outcome': o.kind, 'report': report[-120:]})


def found(w, x, world, lst, touched, seen, label, key, exact):
    w.check(isinstance(lst, list), f'{label}: {lst}', f'{key}-fails')
    ids = [t[2] for t in lst]
    for n in x.stored:
        if n not in touched:
            w.check(ids.count(x.beads[n].cid) == 1 and lib.info_tuple(x.beads[n], 'box') in lst, f'{label}: {n} is not found', f'{key}-lost', found=lst)
    # (the bead c renamed q is a bead q; one replaced by another bead takes its name from the file)
    cids = {b.cid for b in x.beads.values()}
    w.check(all(i in cids for i in ids), f'{label}: finds something that was never stored', f'{key}-ghost', found=lst)
    if exact:
        box = world.path('box')
        by_content = {b.data: b for b in x.beads.values()}
        there = []
        for f in lib.zips(box):
            p = os.path.join(box, f)
            if os.path.isfile(p):
                with open(p, 'rb') as fh:
                    b = by_content.get(fh.read())
                if b:
                    there.append((f.split('_')[0].replace('.zip', ''), b.cid))
        w.check(sorted(there) == sorted((t[0], t[2]) for t in lst), f'{label}: finds other beads than those stored', f'{key}-other', found=lst, there=there)


def concerned(op, path, box, target):
    p = os.path.join(box, target) if target else box
    for q in path.split('->'):
        if q == p or q.startswith(p + '/') or p.startswith(q + '/'):
            return True
    return False


def main(ctx):
    ctx.x = ctx.setup(setup)
    ctx.actions = actions(ctx.x)
    scenes = [(m, c) for m in ('raw', 'indexed') for c in COMMANDS]

    def points(w, s):
        world, trace, o, _ = execute(w, (*s, ()))
        w.check(o.ok if s[1] != 'search' else o.kind == 'ret', f'{s[1]} fails', 'plain', outcome=o)
        return [(op, os.path.relpath(path, world.root) if '->' not in path else path) for cls, op, path, arg in trace]
    traces = dict(zip(scenes, ctx.pmap(points, scenes, name='undisturbed')))

    def representative(s, n):
        t = path_of(ctx.x, ctx.actions[n])
        if not t:
            # something new in the directory: noticed where it is listed
            return [k for k, (op, path) in enumerate(traces[s]) if path == 'box' or op in ('rename', 'create')]
        return [k for k, (op, path) in enumerate(traces[s]) if concerned(op, path, 'box', t)]
    cases = []
    for s in scenes:
        for n in range(len(ctx.actions)):
            reps = representative(s, n)
            if ctx.quick:
                # (several reads in a row: before the first and the last)
                keep = [k for j, k in enumerate(reps) if not (0 < j < len(reps) - 1 and traces[s][k] == traces[s][reps[j - 1]] == traces[s][reps[j + 1]])]
                reps = keep
            cases += [(*s, ((k, n),)) for k in (reps if ctx.quick else range(len(traces[s])))]
    ctx.pmap(judge, cases, name='one change')
    if not ctx.quick:
        pairs = []
        first = [n for n, a in enumerate(ctx.actions) if a[0].split()[0] in ('remove', 'rename', 'replace') and a[0].split()[:-1] in (
            ['remove'], ['rename'], ['replace', 'by', 'another', 'version']) or a[0] in ('add a3', 'add b2')]
        # (replacing a file in place, by renaming another archive to the same name, is not judged)
        def same_target(n, m):
            a, b = ctx.actions[n][0], ctx.actions[m][0]
            return n != m and {a, b} == {'rename a1', 'rename a2'}
        for s in scenes:
            for n in first:
                for m in (m for m in first if not same_target(n, m)):
                    pairs += [(*s, ((k, n), (l, m))) for k in thin(representative(s, n), traces[s]) for l in thin(representative(s, m), traces[s]) if k < l]
        ctx.pmap(judge, pairs, name='two changes')
    ctx.coverage['operations'] = {f'{c}, {m}': len(t) for (m, c), t in traces.items()}
    ctx.coverage['changes'] = len(ctx.actions)
    ctx.stats.n['states'] += ctx.stats.n['schedules']


def thin(reps, trace):
    return [k for j, k in enumerate(reps) if not (0 < j and trace[k] == trace[reps[j - 1]])]
