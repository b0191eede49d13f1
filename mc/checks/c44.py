"""C44: Ctrl-C at any moment is harmless, and the exit status tells the truth.

The program itself (`main`) runs every command, with Ctrl-C at every file system
call and at every line of the code; status 0 must mean that all was done, and
what is left must be usable. And real processes: status of done and refused commands."""
import json
import os
import signal
import subprocess
import sys

import fw
from fw import ANYOP, Arm, World, C_SYNC, M_COUNT, M_INT, MUTATING, snap
import lib
from checks import c40

LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive enumeration of the moments of a Ctrl-C (system calls and source lines of the real program) for every command, with the command repeated after it'
NOTE = ('One SIGINT per execution, delivered at a file system call or raised at a line of a module of bead. quick: at changing calls, and the first and the last time a line '
        'is executed; thorough: at all calls, every time. Not inside the standard library.')

R = '<ROOT>'
W = ('-w', R + '/ws')
# name -> (arguments, sort)
COMMANDS = {
    'save': (('save', 'one', *W), 'ws'),
    'save indexed': (('save', 'two', *W), 'ws'),
    'input add': (('input', 'add', 'n', 'aa', *W), 'ws'),
    'input add over': (('input', 'add', 'x', 'bb', *W), 'ws'),
    'input delete': (('input', 'delete', 'x', *W), 'ws'),
    'input load': (('input', 'load', 'z', *W), 'ws'),
    'input load all': (('input', 'load', *W), 'ws'),
    'input unload': (('input', 'unload', 'x', *W), 'ws'),
    'input update': (('input', 'update', 'x', *W), 'ws'),
    'input update prev': (('input', 'update', 'x', '--prev', *W), 'ws'),
    'input update all': (('input', 'update', *W), 'ws'),
    'new': (('new', 'fresh'), 'create'),
    'edit': (('edit', 'aa', 'fresh'), 'create'),
    'edit review': (('edit', '--review', 'bb', 'fresh'), 'create'),
    'discard': (('discard', '-f', R + '/ws'), 'discard'),
    'discard clean': (('discard', R + '/other'), 'discard'),
    'box add': (('box', 'add', 'three', R + '/three'), 'box'),
    'box forget': (('box', 'forget', 'one'), 'box'),
    'box index new': (('box', 'index', '--box', 'one'), 'index'),
    'box index': (('box', 'index', '--box', 'two'), 'index'),
    'box index all': (('box', 'index', '--all'), 'index'),
    'box reindex': (('box', 'reindex', '--box', 'two'), 'index'),
    'web save': (('web', 'save', 'graph.web'), 'web'),
    'web dot': (('web', '/', 'in-a1', '..', '/', 'color', 'dot', 'graph.dot'), 'web'),
    'status': (('status', *W), 'look'),
    'box list': (('box', 'list'), 'look'),
    'version': (('version',), 'look'),
}
QUICK_LINES = ('save indexed', 'input add over', 'input delete', 'input update all', 'edit', 'discard', 'box add', 'box reindex')


def program(argv):
    """what the console script does"""
    signal.signal(signal.SIGINT, signal.default_int_handler)
    sys.argv = ['bead', *argv]
    from bead_cli import main
    main.main()


def traced(argv, at):
    """the same, interrupted at a line; without: returns the lines executed"""
    top = os.path.realpath(fw.REPO)
    tops = tuple(os.path.join(top, d) + os.sep for d in ('bead', 'bead_cli'))
    ours = {}
    lines = []
    count = 0

    def local(frame, event, arg):
        nonlocal count
        if event == 'line':
            count += 1
            if at is None:
                lines.append((frame.f_code.co_filename, frame.f_lineno))
            elif count == at:
                sys.settrace(None)
                raise KeyboardInterrupt
        return local

    def trace(frame, event, arg):
        f = frame.f_code.co_filename
        if f not in ours:
            ours[f] = os.path.realpath(f).startswith(tops)
        return local if ours[f] else None
    sys.settrace(trace)
    try:
        program(argv)
    except SystemExit as e:
        sys.settrace(None)
        if at is None:
            return e.code, lines
        raise
    finally:
        sys.settrace(None)


def start(w, x, image='image'):
    world = lib.world_of(w, getattr(x, image))
    world.env['XDG_CONFIG_HOME'] = world.path('xdg')
    # where the program looks for its configuration
    place = world.path('xdg', x.config)
    os.makedirs(os.path.dirname(place))
    os.symlink(world.config, place)
    return world


def find_config(w, x):
    """where the program keeps the box list, below the configuration directory of the user"""
    world = lib.world_of(w, x.image)
    world.env['XDG_CONFIG_HOME'] = world.path('xdg')
    os.mkdir(world.path('xdg'))
    o = run(w, world, ('box', 'add', 'three', R + '/three'))
    got = [os.path.relpath(d, world.path('xdg')) for d, _, files in os.walk(world.path('xdg')) if files]
    w.check(status(o) == 0 and len(got) == 1, 'the box list is not kept in the configuration directory of the user', 'config', outcome=o, got=got)
    return got[0]


def run(w, world, argv, at=None, line=None, count=False, clock=lib.T0):
    argv = lib.fill(world.root, argv)
    kw = dict(cwd=world.home, env={**world.env, 'PWD': world.home}, clock=clock)
    if line is not None or count == 'lines':
        return w.fork(traced, argv, line, **kw)
    arm = Arm(M_COUNT if count else M_INT, (world.root,), ANYOP, at=at or 0) if (at or count) else None
    return w.fork(program, argv, arm=arm, **kw)


def status(o):
    """the exit status a shell would see"""
    if o.kind == 'exit':
        if o.value is None:
            return 0
        return o.value & 255 if isinstance(o.value, int) else 1
    if o.kind == 'ret':
        return 0
    if o.kind == 'exc':
        return 130 if o.exc == 'KeyboardInterrupt' else 1
    return None


def state(x, world):
    root = os.fsencode(world.root)
    tree = c40.normal(x, snap(world.root))
    # (the same wherever the world is)
    return {k: (v[0], v[1], v[2].replace(root, R.encode())) if v[0] == 'f' and isinstance(v[2], bytes) else v for k, v in tree.items() if not k.startswith(('home/error_', 'xdg'))}


def setup(w):
    x = c40.setup(w)
    w.ctx.x = x
    x.config = find_config(w, x)
    x.before = state(x, start(w, x))
    x.want, x.shown, x.points, x.changing, x.lines, x.where, x.found = {}, {}, {}, {}, {}, {}, {}
    known = {i.file: i for i in x.b.values()}
    for name, (argv, sort) in COMMANDS.items():
        world = start(w, x)
        o = run(w, world, argv, count=True)
        w.check(status(o) == 0, f'{name} fails', 'setup', outcome=o)
        x.points[name] = [n for n, op, _, _ in fw.op_lines(o.log)]
        x.changing[name] = [n for n, op, _, _ in fw.op_lines(o.log) if op not in ('open', 'read', 'opendir', 'stat', 'access', 'readlink')]
        x.want[name] = state(x, world)
        x.shown[name] = o.out.replace(world.root, R)
        w.check((x.want[name] != x.before) == (sort != 'look'), f'{name} has a wrong effect', 'setup', outcome=o) if sort != 'index' else None
        x.found[name] = beads_found(w, x, world)
        world = start(w, x)
        o = run(w, world, argv, count='lines')
        w.check(o.kind == 'ret' and o.value[0] in (0, None) and o.value[1], f'{name} fails when traced', 'setup', outcome=o)
        seen = {}
        for n, where in enumerate(o.value[1], 1):
            seen.setdefault(where, []).append(n)
        x.lines[name], x.where[name] = len(o.value[1]), seen
    x.outs = {i.cid: i.out for i in known.values()}
    # (reading the command line: once)
    common = set(x.where['version'])
    for name in COMMANDS:
        where = x.where.pop(name)
        if name != 'save indexed':
            where = {k: v for k, v in where.items() if k not in common}
        x.lines[name] = (x.lines[name], sorted({n for v in where.values() for n in (v[0], v[-1])}))
    del x.where
    return x


def beads_found(w, x, world):
    lst, _ = lib.observe(w, world)
    return c40.cids(x, lst)


def inputs_of(world, ws):
    path = world.path(ws, '.bead-meta', 'bead')
    with open(path, 'rb') as f:
        return json.loads(f.read())['inputs']


def judge(w, c):
    name, at, line = c
    x = w.ctx.x
    argv, sort = COMMANDS[name]
    world = start(w, x)
    o = run(w, world, argv, at, line)
    label = f'{name}: Ctrl-C at {"call" if at else "line"} {at or line}'
    w.count('evaluations')
    w.count('interrupted' if status(o) else 'completed')
    w.distinct('nontrivial', c)
    st = status(o)
    w.check(st is not None, f'{label}: ends in {o.kind}', 'died', outcome=o)
    got = state(x, world)
    before, want = x.before, x.want[name]
    differ = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
    if st == 0:
        w.check(not differ, f'{label}: claims success, but these are not as they should be: {differ[:6]}', f'success:{name}', outcome=o)
        w.check(o.out.replace(world.root, R) == x.shown[name], f'{label}: claims success, but shows something else', f'shown:{name}', outcome=o)
        found = beads_found(w, x, world)
        w.check(found == x.found[name], f'{label}: claims success, but other beads are found', f'found:{name}', outcome=o, found=found, want=x.found[name])
        return
    w.check(o.err.strip() or o.kind == 'exc', f'{label}: stops without a word', 'silent', outcome=o)
    harm(w, x, world, name, label, o, got)
    again(w, x, world, name, label, o, got)
    w.sample({'interrupt': label, 'status': st, 'differs from the finished': differ[:4]})


def harm(w, x, world, name, label, o, got):
    """nothing is lost or half done"""
    sort = COMMANDS[name][1]
    before, want = x.before, x.want[name]
    target = {'discard': 'ws', 'discard clean': 'other'}.get(name)
    for k in sorted(set(before) | set(want) | set(got)):
        v = got.get(k)
        if v in (before.get(k), want.get(k)):
            continue
        top = k.split('/')[0]
        if os.path.basename(k).startswith(lib.INDEX):
            continue    # judged by what is found
        if target and (k == target or k.startswith(target + '/')):
            # half of it may be gone, write permission given
            w.check(v is None or (v[0], v[2:]) == (before[k][0], before[k][2:]), f'{label}: {k} is changed', 'discard', outcome=o)
            continue
        if k.startswith('home/fresh') and sort == 'create' or k.startswith('home/graph') and sort == 'web':
            continue
        if k.startswith('ws/input'):
            continue    # below
        if k not in before and k not in want and not k.endswith('.zip'):
            continue    # left over
        if v is not None and v[0] == 'd' and before.get(k, ('',))[0] == 'd':
            continue
        if k == 'ws/.bead-meta/bead' and sort == 'ws':
            continue    # below
        w.check(False, f'{label}: {k} is neither as before nor as after', f'harm:{name}', outcome=o, got=repr(v)[:300], before=repr(before.get(k))[:300], after=repr(want.get(k))[:300])
    for ws in ('ws', 'other'):
        if ws == target:
            continue
        refs = inputs_of(world, ws)
        old, new = json.loads(x.image.tree[f'{ws}/.bead-meta/bead'][2])['inputs'], x.refs[name] if ws == 'ws' else {}
        for nick in set(refs) | set(old):
            w.check(refs.get(nick) in (old.get(nick), new.get(nick)), f'{label}: reference of {nick} is neither the old nor the new one', 'reference', outcome=o)
            d = world.path(ws, 'input', nick)
            if os.path.isdir(d):
                w.check(nick in refs, f'{label}: {nick} counts as loaded without a reference', 'unreferenced', outcome=o)
                files = lib.files_below(d)
                w.check(files == x.outs[refs[nick]['content_id']], f'{label}: {nick} counts as loaded with wrong files', 'incomplete', outcome=o, got=sorted(files))
            if nick in old and nick not in refs:
                w.check(name == 'input delete', f'{label}: input {nick} is lost', 'lost', outcome=o)
    boxes = boxes_of(world)
    if sort != 'box':
        w.check(boxes == ['one', 'two'], f'{label}: the box list is changed', 'boxes', outcome=o)
    # the beads are found, except in a box that was just to be indexed again
    files = [world.path(b, f) for b in ('one', 'two') if b in boxes for f in lib.zips(world.path(b))]
    lst, facts = lib.observe(w, world, files)
    w.check(isinstance(lst, list), f'{label}: searching fails: {lst}', 'search', outcome=o)
    tuples = {p: facts[p][1] for p in files}
    there = {(*t[:4], os.path.basename(os.path.dirname(p))) for p, t in tuples.items()}
    w.check(all(v == 'valid' for v, _ in facts.values()), f'{label}: an invalid archive', 'archive', outcome=o, got=facts)
    found = [t[:5] for t in lst if t[4] in ('one', 'two')]
    w.check(set(found) <= there, f'{label}: finds beads that are not there', 'ghost', outcome=o, found=found)
    w.check(len(found) == len(set(found)), f'{label}: finds a bead twice', 'twice', outcome=o)
    old = {(n, i.kind, i.cid, i.ts, b) for b, names in (('one', ('a1', 'a3')), ('two', ('a2', 'b1'))) if b in boxes for i in [x.b[a] for a in names] for n in [i.name]}
    if name not in ('box reindex', 'box index new', 'box index all'):
        w.check(old <= set(found), f'{label}: a bead is not found any more', 'hidden', outcome=o, missing=sorted(old - set(found)))


def boxes_of(world):
    with open(os.path.join(world.config, 'env.json')) as f:
        return [b['name'] for b in json.load(f)['boxes']]


def again(w, x, world, name, label, o, got):
    """the command can be given again"""
    argv, sort = COMMANDS[name]
    want = x.want[name]
    o2 = run(w, world, argv, clock=lib.T0 + 3600 * lib.NS)
    st = status(o2)
    w.check(st is not None and o2.kind == 'exit', f'{label}, again: ends in {o2.kind}', 'again-died', outcome=o2)
    after = state(x, world)
    if st == 0 and name.startswith('save'):
        box = argv[1]
        fresh = [f for f in lib.zips(world.path(box)) if '_NOW' in c40_name(f)]
        stored = [k for k in want if k.startswith(box + '/') and '_NOW' in k]
        mine = {k: v for k, v in after.items() if '_NOW' in k}
        w.check(1 <= len(fresh) <= 2 and mine == {k: want[k] for k in stored}, f'{label}, again: the bead is not saved', 'again-save', outcome=o2, fresh=fresh)
        lst, _ = lib.observe(w, world)
        mine = [t for t in lst if t[0] == 'ws' and t[4] == box]
        # (the one stored before the interruption needs indexing first)
        w.check(1 <= len(mine) <= len(fresh), f'{label}, again: {len(fresh)} beads saved, {len(mine)} found', 'again-found', outcome=o2)
        w.count('repeated')
        return
    # (what is left over may stay)
    differ = sorted(k for k in want if after.get(k) != want.get(k) and not (k == 'ws/input' and k in after))
    extra = sorted(k for k in after if k not in want and (k in x.before or k.endswith('.zip')))
    if st == 0:
        w.check(not differ and not extra, f'{label}, again: done, but these are not as they should be: {(differ + extra)[:6]}', f'again:{name}', outcome=o2)
        w.count('repeated')
    else:
        # it was done already, or a started directory is in the way
        w.check(o2.err.strip() or o2.out.strip(), f'{label}, again: refused without a word', 'again-silent', outcome=o2)
        done = all(got.get(k) == want.get(k) for k in set(got) | set(want) if k.startswith(('config', 'ws/.bead-meta', 'three')))
        w.check(sort == 'create' and any(k.startswith('home/fresh') for k in got) or sort == 'discard' or sort in ('ws', 'box') and done,
                f'{label}, again: refused', f'again-refused:{name}', outcome=o2)
        w.count('refused again')
    if sort == 'index':
        lst, _ = lib.observe(w, world)
        want = sorted(lib.info_tuple(x.b[a], b) for b, names in (('one', ('a1', 'a3')), ('two', ('a2', 'b1'))) for a in names)
        w.check(lst == want, f'{label}, again: other beads are found than those in the box', 'again-index', outcome=o2, found=lst)


def c40_name(f):
    import re
    return re.sub(r'_20(?!20)\d{6}T\d{12}[-+]\d{4}', '_NOW', f)


# ------------------------------------------------------------ real processes
DONE = [argv for argv, _ in COMMANDS.values()] + [
    ('input', 'unload', 'z', *W), ('input', 'load', 'x', *W), ('box', 'index'), ('web', 'save', 'g', 'load', 'g'), ('nuke', '-f', R + '/ws'), 
    ('status', '-v', *W), ('web', 'color', 'heads', 'save', '/dev/null')]
REFUSED = [
    ('new', R + '/ws'), ('new', 'work'), ('edit', 'nosuch'), ('edit', 'aa', 'work'), ('edit', 'aa', '--time', '2019-01-01'), ('save', 'nosuch', *W), ('save', *W), ('save', 'one'),
    ('save', 'one', '-w', R + '/one'), ('status', '-w', R + '/nosuch', 'x'), ('discard', R + '/one'), ('discard', R + '/nosuch'), ('discard',), ('input', 'add', 'x', 'nosuch', *W),
    ('input', 'add', 'nosuch', *W), ('input', 'add', 'n', 'aa'), ('input', 'delete', 'nosuch', *W), ('input', 'load', 'nosuch', *W),
    ('input', 'update', 'nosuch', *W), ('input', 'update', 'x', 'nosuch', *W), ('input', 'load'), ('input', 'unload'), ('input', 'update'), ('input', 'delete', 'x'),
    ('input', 'add', 'n', 'aa', '--time', '2019-01-01', *W), ('input', 'add', 'n', 'aa', '--time', 'then', *W),
    ('web', 'nosuch'), ('web', 'load', 'nosuch'), ('web', 'load'), ('web', 'save', R + '/nosuch/g'), ('nosuch',), ('box', 'nosuch'), ('input', 'nosuch'), ('--nosuch',), ('save', '--nosuch')]
# told about, with whatever status
WARNED = [
    ('box', 'add', 'one', R + '/three'), ('box', 'add', 'three', R + '/nosuch'), ('box', 'add', 'three', R + '/one'), ('box', 'forget', 'nosuch'), ('box', 'index', '--box', 'nosuch'),
    ('box', 'index', '--dir', R + '/nosuch'), ('box', 'reindex', '--box', 'nosuch'), ('input', 'unload', 'nosuch', *W), ('--help',), ('box',), ('box', '--help'), ('web',)]


def process(w, c):
    n, argv, good, removed = c
    x = w.ctx.x
    world = start(w, x)
    argv = lib.fill(world.root, argv)
    home = world.home
    if removed:
        home = world.path('home', 'gone')
        os.mkdir(home)
    before = snap(world.root)
    code = 'import sys, os\n' + ('os.rmdir(os.getcwd())\n' if removed else '') + 'from bead_cli.main import main\nmain()'
    env = {**os.environ, **{k: v for k, v in world.env.items() if v}, 'PYTHONPATH': fw.REPO, 'PWD': home, 'PYTHONDONTWRITEBYTECODE': '1'}
    p = subprocess.run([sys.executable, '-c', code, *argv], cwd=home, env=env, capture_output=True, text=True, timeout=100, stdin=subprocess.DEVNULL)
    label = f'bead {" ".join(argv)}{" in a removed directory" if removed else ""}'
    w.count('evaluations')
    w.distinct('nontrivial', c)
    detail = dict(status=p.returncode, out=p.stdout[-600:], err=p.stderr[-600:])
    if removed:
        del before['home/gone']
    after = snap(world.root)
    if good:
        w.check(p.returncode == 0, f'{label}: exit status {p.returncode}', 'status-done', **detail)
    else:
        w.check(p.returncode != 0 or good is None, f'{label}: is not possible, but exit status 0', 'status-refused', **detail)
        w.check(p.stderr.strip() or p.stdout.strip(), f'{label}: fails without a word', 'status-silent', **detail)
        differ = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k) and not k.startswith('home/error_') and not k.endswith('.xmeta'))
        w.check(not differ, f'{label}: refused, but changes {differ[:6]}', 'status-changes', **detail)
    w.sample({'process': label, 'status': p.returncode, 'says': (p.stderr or p.stdout)[-120:]})


def refs_setup(w):
    x = w.ctx.x
    x.refs = {}
    for name, (argv, sort) in COMMANDS.items():
        world = start(w, x)
        run(w, world, argv)
        x.refs[name] = inputs_of(world, 'ws') if os.path.isdir(world.path('ws')) else {}
    return x


# ------------------------------------------------------------ the very first save
FIRST = ('save', *W)


def first_setup(w):
    """a workspace of a user without boxes: the first save makes one"""
    x = w.ctx.x
    world = World(w.fresh())
    ws = world.path('ws')
    w.check(w.cli(world, 'new', ws, clock=lib.T0).ok, 'new fails', 'setup')
    lib.write_tree(ws, {'code.py': b'print(1)', 'sub/more.py': b'', 'output/o': b'1' * 3000, 'output/sub/p': b'2'})
    x.kinds = x.kinds | {lib.ws_meta(ws)['kind']}
    w.check(not os.path.exists(os.path.join(world.config, 'env.json')), 'there are boxes', 'setup')
    x.first = lib.image_of(world, 'first', None)
    x.old = set(x.old) | set(x.first.tree)
    world = start(w, x, 'first')
    o = run(w, world, FIRST, count=True)
    w.check(status(o) == 0, 'the first save fails', 'setup', outcome=o)
    x.first_calls = [n for n, op, _, _ in fw.op_lines(o.log)]
    x.first_found = first_found(w, world)
    w.check(len(x.first_found[0]) == 1, 'the first save is not found', 'setup', found=x.first_found)
    x.first_box = sorted({os.path.relpath(os.path.dirname(p), world.root) for p in x.first_found[2]})
    with open(x.first_found[2][0], 'rb') as f:
        x.first_content = lib.code_and_output_of(f.read())
    w.check([sorted(d) for d in x.first_content] == [['code.py', 'sub/more.py'], ['o', 'sub/p']], 'the first save stores something else', 'setup', got=x.first_content)
    world = start(w, x, 'first')
    o = run(w, world, FIRST, count='lines')
    w.check(o.kind == 'ret' and o.value[0] in (0, None), 'the first save fails when traced', 'setup', outcome=o)
    seen = {}
    for n, where in enumerate(o.value[1], 1):
        seen.setdefault(where, []).append(n)
    x.first_total = len(o.value[1])
    x.first_lines = sorted({n for v in seen.values() for n in (v[0], v[-1])})
    return x


def first_found(w, world):
    """what is found, the facts of the archives, the archives"""
    paths = [os.path.join(d, f) for d, _, files in os.walk(world.root) for f in files if f.endswith('.zip')]
    lst, facts = lib.observe(w, world, paths)
    w.check(isinstance(lst, list), f'searching fails: {lst}', 'search')
    return [t[:2] for t in lst], facts, sorted(paths)


def first_judge(w, c):
    at, line = c
    x = w.ctx.x
    world = start(w, x, 'first')
    o = run(w, world, FIRST, at, line)
    first_after(w, x, world, f'first save: Ctrl-C at {"call" if at else "line"} {at or line}', o, c)


def first_after(w, x, world, label, o, c):
    w.count('evaluations')
    w.count('first save')
    w.distinct('nontrivial', ('first', *c))
    st = status(o)
    w.check(st is not None, f'{label}: ends in {o.kind}', 'first-died', outcome=o)
    before = {k: v for k, v in x.first.tree.items() if k.startswith('ws')}

    def unharmed(o, label):
        after = {k: v for k, v in snap(world.root).items() if k.startswith('ws')}
        differ = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        w.check(not differ, f'{label}: the workspace is changed: {differ[:6]}', 'first-ws', outcome=o)
        found, facts, paths = first_found(w, world)
        w.check(all(v == 'valid' for v, _ in facts.values()), f'{label}: an invalid archive', 'first-archive', outcome=o, got=facts)
        w.check(len(found) <= len(paths) and set(found) <= set(x.first_found[0]), f'{label}: other beads are found', 'first-found', outcome=o, found=found)
        for p in paths:
            with open(p, 'rb') as f:
                w.check(lib.code_and_output_of(f.read()) == x.first_content, f'{label}: stores something else', 'first-content', outcome=o)
        return found, paths
    found, paths = unharmed(o, label)
    if st == 0:
        w.check(len(found) == len(paths) == 1, f'{label}: claims success, but there are {len(paths)} beads and {len(found)} are found', 'first-success', outcome=o)
        return
    o2 = run(w, world, FIRST, clock=lib.T0 + 3600 * lib.NS)
    w.check(status(o2) == 0, f'{label}, again: fails', 'first-again', outcome=o2)
    found2, paths2 = unharmed(o2, f'{label}, again')
    w.check(len(paths2) == len(paths) + 1 and len(found2) >= 1, f'{label}, again: not saved', 'first-again', outcome=o2)
    w.check(sorted({os.path.relpath(os.path.dirname(p), world.root) for p in paths2}) == x.first_box, f'{label}, again: saved elsewhere', 'first-again', outcome=o2)
    w.sample({'first': label, 'status': st, 'found': len(found)})


def main(ctx):
    ctx.x = ctx.setup(setup)
    ctx.x = ctx.setup(refs_setup)
    ctx.x = ctx.setup(first_setup)
    x = ctx.x
    cases = [(n, argv, True, False) for n, argv in enumerate(DONE)] + [(n, argv, False, False) for n, argv in enumerate(REFUSED)] + [(n, argv, None, False) for n, argv in enumerate(WARNED)]
    cases += [(n, argv, False, True) for n, argv in enumerate([('status',), ('new', 'x'), ('edit', 'aa'), ('box', 'list'), ('save',)])]
    ctx.pmap(process, cases, name='exit status')
    ctx.pmap(judge, [(name, at, None) for name in COMMANDS for at in (x.changing if ctx.quick else x.points)[name]], name='calls')
    cases = []
    for name in COMMANDS:
        total, some = x.lines[name]
        if not ctx.quick:
            cases += [(name, None, n) for n in range(1, total + 1)]
        elif name in QUICK_LINES:
            cases += [(name, None, n) for n in some]
    ctx.pmap(judge, cases, name='lines')
    ctx.pmap(first_judge, [(at, None) for at in x.first_calls] + [(None, n) for n in (x.first_lines if ctx.quick else range(1, x.first_total + 1))], name='first save')
    ctx.coverage['rule'] = (f'{len(COMMANDS)} commands interrupted at every file system call (quick: every changing one), and at every line of bead executed (quick: the first time and the last); also the first save without any box; '
                            f'exit status and effects of {len(DONE)} possible and {len(REFUSED) + len(WARNED)} impossible commands as real processes')
    ctx.coverage['calls'] = {n: len((x.changing if ctx.quick else x.points)[n]) for n in COMMANDS}
    ctx.coverage['lines'] = {n: len(v[1]) if ctx.quick else v[0] for n, v in x.lines.items()}
