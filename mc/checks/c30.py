"""C30: new and edit never overwrite anything.

All combinations of what is at the target, how the target is given, the state of
the bead and the options: the whole file system of the user before and after."""
import itertools
import json
import os

import fw
import lib
import scenes
from fw import World, diff, restore, snap

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of targets x spellings x bead states x options x index on the real command line, comparing complete trees'
NOTE = ('19 states of the target x 7 spellings x 18 states of the bead x 4 options x raw and indexed box; kinds of all new workspaces made under a frozen clock '
        'at the same places are compared. A dangling link as target and missing parents of the target are not judged.')

WS_DIRS = ('input', 'output', 'temp', '.bead-meta')
D = ('d', 0o755, None)


def F(x):
    return ('f', 0o644, x)


FOUND = {
    # what is already there
    'nothing': None,
    'file': {'': F(b'precious')},
    'empty file': {'': F(b'')},
    'readonly file': {'': ('f', 0o444, b'precious')},
    'empty directory': {'': D},
    'readonly directory': {'': ('d', 0o555, None)},
    'directory': {'': D, 'a': F(b'1'), 'd': D, 'd/b': F(b'2')},
    'directory like a workspace': {'': D, 'input': D, 'output': D, 'output/o': F(b'old')},
    'closed directory': {'': ('d', 0o300, None), 'a': F(b'1')},
    'hidden files only': {'': D, '.git': D, '.git/config': F(b'precious'), '.keep': F(b'')},
    'empty directories only': {'': D, 'a': D, 'a/b': D},
    'metadata of a workspace only': {'': D, '.bead-meta': D, '.bead-meta/bead': F(b'{"kind": "mine", "inputs": {}}')},
    'empty directories of a workspace': {'': D, 'input': D, 'output': D, 'temp': D},
    'workspace': 'workspace',
    'link to file': ('elsewhere', {'': F(b'precious')}),
    'link to empty directory': ('elsewhere', {'': D}),
    'link to directory': ('elsewhere', {'': D, 'a': F(b'1')}),
    'link to workspace': ('elsewhere', 'workspace'),
    'link to link': ('elsewhere', {'': D}, 'hop'),
}
BEADS = {'good': 'good', 'inputs': 'inputs', 'versions': 'versions', 'other name': 'other', 'no data': 'nodata'}
BAD = ('missing', 'missing path', 'too old', 'bad code', 'bad data', 'bad meta', 'extra code', 'extra data', 'lost code', 'climbing', 'over meta', 'over output', 'truncated', 'future')
SPELLINGS = ('default', 'plain', 'dot', 'absolute', 'below', 'slash', 'up')
OPTIONS = ('', 'review', 'time', 'review time')


class Scene:
    pass


def setup(w):
    sc = Scene()
    mk = lib.make_bead
    a = mk(w, 'aa', 'KA', '20190101T000000000000+0000', out={'in': b'in'})
    g = sc.good = mk(w, 'good', 'KG', '20200101T000000000000+0000', code={'c.py': b'code', 'd/e/f': b'deep', 'empty': b''}, out={'o': b'out', 'p/q': b'r'})
    sc.inputs = mk(w, 'inputs', 'KI', '20200102T000000000000+0000', inputs={'x': a, 'y': g})
    v1 = mk(w, 'versions', 'KV1', '20200103T000000000000+0000', code={'v': b'1'}, out={'v': b'1'}, inputs={'x': a})
    v2 = mk(w, 'versions', 'KV2', '20210103T000000000000+0000', code={'v': b'2', 'w': b''}, out={'v': b'2'})
    sc.versions = {False: v2, True: v1}
    sc.other = mk(w, 'other', 'KO', '20200104T000000000000+0000', code={})
    sc.nodata = mk(w, 'nodata', 'KN', '20200105T000000000000+0000', out={})
    world = World(w.fresh())
    box = world.path('box')
    lib.put(box, a, g, sc.inputs, v1, v2, sc.other, sc.nodata)
    files = {}

    def damage(name, **kw):
        i = lib.forge(mk(w, name, 'K-' + name, '20200201T000000000000+0000', code={'c.py': b'code', 'd/e': b'e'}, out={'o': b'out'}), **kw)
        files[name] = i
        lib.put(box, i)

    def swap(name, member, data=b'evil'):
        i = mk(w, name, 'K-' + name, '20200201T000000000000+0000', code={'c.py': b'code', 'd/e': b'e'}, out={'o': b'out'})
        i.data = lib.pack([(n, data if n == member else d) for n, d in lib.members(i.data)])
        files[name] = i
        lib.put(box, i)
    swap('bad code', 'code/d/e')
    swap('bad data', 'data/o')
    damage('bad meta', meta=lambda m: {k: v for k, v in m.items() if k != 'inputs'})
    damage('extra code', extra=[('code/more', b'evil')])
    damage('extra data', extra=[('data/more', b'evil')])
    i = mk(w, 'lost code', 'K', '20200201T000000000000+0000', code={'c.py': b'code', 'd/e': b'e'})
    i.data = lib.pack([m for m in lib.members(i.data) if m[0] != 'code/d/e'])
    files['lost code'] = i
    lib.put(box, i)
    damage('climbing', code={'../../climbed': b'evil', 'c.py': b'code'})
    damage('over meta', code={'.bead-meta/bead': b'{}', 'c.py': b'code'})
    damage('over output', code={'output/o': b'evil', 'c.py': b'code'})
    damage('future', meta={'freeze_time': '20990101T000000000000+0000'})
    i = mk(w, 'truncated', 'K', '20200201T000000000000+0000')
    lib.put(box, i)
    world.set_boxes([('box', box)])
    sc.boxes = {}
    w.check(w.cli(world, 'box', 'index', clock=lib.T0).ok, 'index fails', 'setup')
    i.data = i.data[:len(i.data) // 2]
    lib.put(box, i)
    files['truncated'] = i
    sc.boxes[True] = snap(box)
    sc.boxes[False] = {k: v for k, v in sc.boxes[True].items() if not k.startswith('.index')}
    sc.files = files
    ws = world.path('ws')
    w.check(w.cli(world, 'new', ws, clock=lib.T0).ok, 'new fails', 'setup')
    w.check(w.cli(world, 'input', 'add', 'good', '-w', ws, clock=lib.T0).ok, 'input add fails', 'setup')
    lib.write_tree(ws, {'mine': b'mine', 'output/o': b'mine'})
    sc.workspace = snap(ws)
    return sc


def prepare(world, sc, found, target):
    """put what is found at the target"""
    what = FOUND[found]
    os.makedirs(os.path.dirname(target), exist_ok=True)
    if what is None:
        return
    where = target
    if isinstance(what, tuple):
        where = world.path('elsewhere')
        os.symlink(where if len(what) < 3 else world.path('hop'), target)
        if len(what) == 3:
            os.symlink(where, world.path('hop'))
        what = what[1]
    restore(where, sc.workspace if what == 'workspace' else what)


def spell(world, spelling, name):
    """(word or None, absolute path)"""
    cwd = world.path('cwd')
    path = {'default': name, 'plain': name, 'dot': './' + name, 'absolute': os.path.join(cwd, name), 'below': 'sub/' + name, 'slash': name + '/', 'up': '../cwd/../' + name}[spelling]
    return None if spelling == 'default' else path, os.path.normpath(os.path.join(cwd, path))


def judge_new(w, case):
    found, spelling, name, valid = case
    sc = w.ctx.sc
    world = World(w.fresh())
    world.set_boxes([])
    os.makedirs(world.path('cwd', 'sub'))
    word, target = spell(world, spelling, name)
    prepare(world, sc, found, target)
    before = snap(world.root)
    o = w.cli(world, 'new', '--', word, cwd=world.path('cwd'), clock=(lib.T0, 0))
    after = snap(world.root)
    label = f'new {word!r} where there is {found}'
    w.count('evaluations')
    w.distinct('nontrivial', label)
    if found != 'nothing' or not valid:
        w.check(o.failed, f'{label} does not fail', 'accepts', outcome=o)
        w.check(before == after, f'{label} changes {diff(before, after)}', 'changes')
        return None
    w.check(o.ok, f'{label} fails', 'refused', outcome=o)
    rel = os.path.relpath(target, world.root)
    rest = {k: v for k, v in after.items() if k != rel and not k.startswith(rel + '/')}
    w.check(rest == before, f'{label} changes {diff(before, rest)}', 'changes')
    made = lib.subtree(after, rel)
    w.check({k: v[0] for k, v in made.items()} == {'': 'd', **{d: 'd' for d in WS_DIRS}, '.bead-meta/bead': 'f'}, f'{label} makes {sorted(made)}', 'layout')
    valid, kind, inputs, loaded = scenes.ws_state(w, target).value
    w.check(valid and inputs == {} and not any(loaded.values()), f'{label} makes a workspace with inputs {inputs} {loaded}', 'inputs')
    w.check(isinstance(kind, str) and kind, f'{label} gives kind {kind!r}', 'kind')
    return kind


def judge_edit(w, case):
    found, spelling, bead, option, indexed, by_path = case
    sc = w.ctx.sc
    world = World(w.fresh())
    os.makedirs(world.path('cwd', 'sub'))
    box = world.path('box')
    restore(box, sc.boxes[indexed])
    world.set_boxes([('box', box)])
    time = 'time' in option
    info, name = None, bead
    if bead in BEADS:
        info = getattr(sc, BEADS[bead])
        info = info[time] if isinstance(info, dict) else info
        name = info.name
    ref = {'missing': 'nosuch', 'missing path': os.path.join(box, 'nosuch_20200101.zip'), 'too old': 'good'}.get(bead, name)
    if bead == 'too old':
        name = 'good'
    if by_path:
        i = info or sc.files.get(bead)
        if i is None:
            return
        if bead == 'versions':
            info = sc.versions[False]
            i = info
        ref = os.path.join(box, i.file)
    word, target = spell(world, spelling, name if spelling == 'default' else 'target')
    prepare(world, sc, found, target)
    argv = ['edit', ref] + ([word] if word else []) + (['--review'] if 'review' in option else [])
    argv += ['-t', '2018-01-01'] if bead == 'too old' else ['-t', '2020-06-01'] if time else []
    before = snap(world.root)
    o = w.cli(world, *argv, cwd=world.path('cwd'), clock=lib.T0)
    after = snap(world.root)
    argv = [a.replace(world.root, '') for a in argv]
    label = f'{" ".join(argv)} where there is {found} ({bead}{", indexed" if indexed else ""})'
    w.count('evaluations')
    w.distinct('nontrivial', label)
    if found != 'nothing' or info is None:
        w.check(o.failed, f'{label} does not fail', 'accepts', outcome=o)
        w.check(before == after, f'{label} changes {diff(before, after)}', 'changes')
        return
    w.check(o.ok, f'{label} fails', 'refused', outcome=o)
    rel = os.path.relpath(target, world.root)
    rest = {k: v for k, v in after.items() if k != rel and not k.startswith(rel + '/')}
    w.check(rest == before, f'{label} changes {diff(before, rest)}', 'changes')
    made = lib.subtree(after, rel)
    want = dict(info.code)
    want.update({'output/' + k: v for k, v in info.out.items()} if 'review' in option else {})
    files = {k: v[2] for k, v in made.items() if v[0] == 'f'}
    files.pop('.bead-meta/bead', None)
    w.check(files == want, f'{label} makes {diff({k: F(v) for k, v in want.items()}, {k: F(v) for k, v in files.items()})}', 'files')
    dirs = {'', *WS_DIRS}
    for k in want:
        while '/' in k:
            k = k.rpartition('/')[0]
            dirs.add(k)
    w.check({k for k, v in made.items() if v[0] == 'd'} == dirs and not any(v[0] in 'lo' for v in made.values()), f'{label} makes {sorted(made)}', 'layout')
    valid, kind, inputs, loaded = scenes.ws_state(w, target, ['x', 'y']).value
    w.check(valid and kind == info.kind, f'{label} gives kind {kind!r}', 'kind')
    w.check(inputs == info.inputs_spec(), f'{label} gives inputs {inputs}', 'inputs')
    w.check(not any(loaded.values()), f'{label} has loaded inputs {loaded}', 'loaded')
    w.sample({'run': label, 'made': sorted(made)})


def _spec(self):
    return {n: dict(kind=s['kind'], content_id=s['content_id'], freeze_time=s['freeze_time']) for n, s in self.inputs.items()}


lib.Info.inputs_spec = _spec


def main(ctx):
    ctx.level = LEVEL
    ctx.sc = ctx.setup(setup)
    names = [('x', True), ('.x', True), ('x y', True), ('é', True), ('-x', True), ('x_20200101', True), ('a:b', False), ('a\\b', False)]
    cases = [(f, s, n, v) for f in FOUND for s in SPELLINGS[1:] for n, v in (names if f in ('nothing', 'directory', 'file') or not ctx.quick else names[:1])]
    cases = [c for c in cases if not (c[1] == 'slash' and 'file' in c[0])]
    cases += [('nothing', 'plain', 'x', True)] * (300 if ctx.quick else 2000)
    kinds = [k for k in ctx.pmap(judge_new, cases, 'new') if k]
    if len(set(kinds)) != len(kinds):
        dup = next(k for k in kinds if kinds.count(k) > 1)
        ctx.violations.append((0, 'new', 0, 'kind-reused', f'two new workspaces have the kind {dup}', None, ''))
    full = not ctx.quick
    cases = []
    for j, (f, b) in enumerate(itertools.product(FOUND, list(BEADS) + list(BAD))):
        for s, o, i, p in itertools.product(SPELLINGS, OPTIONS, (False, True), (False, True)):
            if s == 'slash' and 'file' in f:
                continue
            few = f == 'nothing' or b == 'good'
            if full or few and (s in ('default', 'plain', 'below') or o == '') or (s in ('default', 'plain') and o in ('', 'review') and not p and i == bool(j % 2)):
                cases.append((f, s, b, o, i, p))
    ctx.pmap(judge_edit, cases, 'edit')
    ctx.coverage['rule'] = NOTE
