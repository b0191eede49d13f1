"""C46: the surroundings make no difference.

Every command under every order in which directories may be listed (permutations
of short listings, rotations and reversals of long ones), in time zones around
the world, with umasks, and as real processes with different hash seeds: the
effect, the exit status and what is shown must be those of the plain surroundings."""
import copy
import itertools
import json
import os
import re
import subprocess
import sys

import fw
import lib
from checks import c34, c40, c44, c45

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of the orders of directory listings, time zones, umasks and hash seeds under every command, compared with a plain run'
NOTE = ('All directories are listed by the same rule in one run: a permutation of up to four entries, for more also rotated and reversed. Order of lines shown, and permissions '
        '(under another umask) are not compared. Versions with the very same freeze time are not used.')

ZONES = ['UTC', 'America/New_York', 'Asia/Kolkata', 'Pacific/Kiritimati', 'Pacific/Marquesas', 'Europe/London', 'Australia/Lord_Howe', 'Etc/GMT+12']
UMASKS = [0, 0o002, 0o027, 0o077]


def arranged(names, k, key=lambda n: n):
    names = sorted(names, key=key)
    if len(names) <= 4:
        ps = list(itertools.permutations(names))
        return list(ps[k % len(ps)])
    r = k % len(names)
    names = names[r:] + names[:r]
    return names[::-1] if k // len(names) % 2 or k % 2 else names


class Scan:
    def __init__(self, entries):
        self.entries = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.entries)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    def close(self):
        pass


def ordered(argv, k, umask):
    real_listdir, real_scandir = os.listdir, os.scandir

    def listdir(path=None):
        return arranged(real_listdir(path), k)

    def scandir(path=None):
        with real_scandir(path) as it:
            return Scan(arranged(it, k, lambda e: e.name))
    if k is not None:
        os.listdir, os.scandir = listdir, scandir
    if umask is not None:
        os.umask(umask)
    c44.program(argv)


WORLDS = {'image': c44.COMMANDS, 'named': {n: (a, '') for n, a in c45.NAMED.items()}, 'messy': {}}
for _name, (_argv, _sort) in c44.COMMANDS.items():
    WORLDS['messy'][_name] = (_argv, _sort)
WORLDS['messy'].update({
    'edit old': (('edit', '--time', '2020-02-15', 'aa', 'fresh'), ''),
    'edit mid': (('edit', '--time', '2020-01-15', 'aa', 'fresh'), ''),
    'edit at': (('edit', '--time', '2020-02-01', 'aa', 'fresh'), ''),
    'update at': (('input', 'update', 'x', '--time', '2020-03-01', *c44.W), ''),
    'status -v': (('status', '-v', *c44.W), ''),
    'update next': (('input', 'update', 'z', '--next', *c44.W), ''),
    'update time': (('input', 'update', 'x', '--time', '2020-01-15', *c44.W), ''),
    'web': (('web', 'color', 'heads', 'save', 'graph.web'), ''),
    'web sources': (('web', '/', 'in-a1', '..', '/', 'color', 'save', 'graph.web'), ''),
    'web sinks': (('web', '/', '..', 'bb', '/', 'color', 'dot', 'graph.dot'), ''),
    'box reindex all': (('box', 'reindex', '--all'), ''),
})


def run(w, x, where, name, k=None, umask=None):
    world = c44.start(w, x, where)
    o = w.fork(ordered, lib.fill(world.root, WORLDS[where][name][0]), k, umask, cwd=world.home, env={**world.env, 'PWD': world.home}, clock=lib.T0)
    return seen(w, x, world, o)


def seen(w, x, world, o):
    found, _ = lib.observe(w, world)
    # (after the state, as it might change access rights)
    return tree_of(x, world), c44.status(o), shown(o.out, world), shown(o.err, world), c40.cids(x, found), o


def shown(text, world):
    text = text.replace(world.root, c44.R)
    text = re.sub(r'_20(?!20)\d{6}T\d{12}[-+]\d{4}', '_NOW', text)
    text = re.sub(r'Loaded bead \d+', 'Loaded bead', text)
    # (any of its copies)
    text = re.sub(r'<ROOT>/[^/\n]+/[^/\n]+\.zip', 'ARCHIVE', text)
    return sorted(line.rstrip() for line in re.split('[\r\n]+', text))


def plain(v):
    if isinstance(v, dict):
        return sorted((k, plain(a)) for k, a in v.items())
    if isinstance(v, list):
        return sorted((plain(a) for a in v), key=repr)
    return v


def tree_of(x, world):
    tree = c44.state(x, world)
    for k, v in list(tree.items()):
        if k.endswith(('.web', '/gráf')) and v[0] == 'f':
            tree[k] = (v[0], v[1], repr(plain(json.loads(v[2]))))
        elif k.endswith('.dot') and v[0] == 'f':
            problem, drawings = c34.read_dot([v[2].decode('utf-8')])
            tree[k] = (v[0], v[1], problem or repr([(sorted(tables.items()), edges) for tables, edges in map(c34.understood, drawings)]))
    return tree


def setup(w):
    x = c44.setup(w)
    w.ctx.x = x
    return x


def messy_setup(w):
    x = w.ctx.x
    # the same beads again, damaged ones and junk
    tree = dict(x.image.tree)
    a1, a3, b1 = (x.b[n] for n in ('a1', 'a3', 'b1'))
    f = lambda d: ('f', 0o644, d)   # noqa
    def data(i):
        return next(v[2] for k, v in x.image.tree.items() if os.path.basename(k) == i.file)
    tree[f'two/{a1.file}'] = f(data(a1))
    tree[f'one/{b1.file}'] = f(data(b1))
    tree['one/aa-copy_20200301T000000000000+0000.zip'] = f(data(a3))
    d = data(a3)
    tree['one/aa_20200901T000000000000+0000.zip'] = f(d[:len(d) // 2])
    tree['one/0junk.zip'] = f(b'x')
    tree['two/README'] = f(b'y')
    tree['one/sub'] = ('d', 0o755, None)
    tree['one/sub/' + a3.file] = f(d)
    x.messy = copy.copy(x.image)
    x.messy.tree = tree
    x.old |= set(tree)
    x.plain = {}
    for where, commands in WORLDS.items():
        for name in commands:
            got = run(w, x, where, name)
            o = got[-1]
            w.check(o.kind == 'exit', f'{name} ends in {o.kind}', 'setup', outcome=o)
            x.plain[where, name] = got[:-1]
    return x


def same(w, x, where, name, label, got, modes=True):
    w.count('evaluations')
    w.distinct('nontrivial', label)
    tree, st, out, err, found, o = got
    tree0, st0, out0, err0, found0 = x.plain[where, name]
    w.check(st == st0, f'{label}: exit status {st} instead of {st0}', 'status', outcome=o)
    if not modes:
        tree, tree0 = ({k: v if v == 'index' or len(v) < 3 else (v[0], v[2]) for k, v in t.items()} for t in (tree, tree0))
    differ = sorted(k for k in set(tree) | set(tree0) if tree.get(k) != tree0.get(k))
    w.check(not differ, f'{label}: has another effect on {differ[:6]}', f'effect:{name}', outcome=o, got=[repr(tree.get(k))[:900] for k in differ[:2]], want=[repr(tree0.get(k))[:900] for k in differ[:2]])
    w.check(found == found0, f'{label}: other beads are found', 'found', outcome=o, got=found, want=found0)
    for a, b in ((out, out0), (err, err0)):
        w.check(a == b, f'{label}: shows something else', f'shown:{name}', outcome=o, got=[i for i in a if i not in b], want=[i for i in b if i not in a])
    w.sample({'surroundings': label, 'status': st})


def judge(w, c):
    where, name, k, umask = c
    x = w.ctx.x
    what = f'listing order {k}' if k is not None else f'umask {umask:03o}'
    same(w, x, where, name, f'{name} ({where}) with {what}', run(w, x, where, name, k, umask), umask is None)


def process(w, c):
    where, name, hashseed, tz = c
    x = w.ctx.x
    world = c44.start(w, x, where)
    env = {**os.environ, **{k: v for k, v in world.env.items() if v}, 'PYTHONPATH': fw.REPO, 'PWD': world.home, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONIOENCODING': 'utf-8', 'PYTHONHASHSEED': str(hashseed), 'TZ': tz}
    code = 'import sys\nsys.argv[0] = "bead"\nfrom bead_cli.main import main\nmain()'
    p = subprocess.run([sys.executable, '-c', code, *lib.fill(world.root, WORLDS[where][name][0])], cwd=world.home, env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=100)
    o = fw.Outcome()
    o.kind, o.value, o.out, o.err = 'exit', p.returncode, p.stdout, p.stderr
    same(w, x, where, name, f'{name} ({where}) with hash seed {hashseed} in {tz}', seen(w, x, world, o))


def main(ctx):
    ctx.x = ctx.setup(setup)
    ctx.x = ctx.setup(c45.named_setup)
    ctx.x = ctx.setup(messy_setup)
    orders = range(12 if ctx.quick else 48)
    names = [(where, n) for where, commands in WORLDS.items() for n in commands]
    short = [(where, n) for where, n in names if where != 'image']
    some = short if ctx.quick else names
    ctx.pmap(judge, [(*n, k, None) for n in some for k in orders], name='listing orders')
    ctx.pmap(judge, [(*n, None, u) for n in some for u in UMASKS], name='umasks')
    seeds = 1 if ctx.quick else 4
    ctx.pmap(process, [(*n, h * len(ZONES) + i + 1, tz) for n in some for h in range(seeds) for i, tz in enumerate(ZONES)], name='processes')
    ctx.coverage['rule'] = (f'{len(some)} commands in {len(WORLDS)} worlds x {len(orders)} listing orders, {len(UMASKS)} umasks, '
                            f'and as processes in {len(ZONES)} time zones x {seeds} hash seeds each')
