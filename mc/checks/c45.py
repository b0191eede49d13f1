"""C45: output that can not be shown harms nothing.

Every command with its output failing from each write on (full disk, closed pipe,
terminal gone; stdout, stderr or both); real processes with closed, full and
broken outputs, buffered or not; and every command with names that the encoding
of the terminal lacks. What is left is judged like after a Ctrl-C (C44), success
must mean that all was done, and encodings must make no difference."""
import errno
import io
import os
import re
import subprocess
import sys

import fw
from fw import World
import lib
from checks import c40, c44
from checks.c44 import R, W

LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive enumeration of the write from which on the output of every command fails, and of the kinds of unusable outputs and encodings'
NOTE = ('Output stays broken once it fails. The text of names that can not be shown is not judged, only that it is there and the rest is unchanged. '
        'File names must be readable in the encoding of the file system (UTF-8).')

BROKEN = [errno.EPIPE, errno.ENOSPC, errno.EIO]
STREAMS = ['out', 'err', 'both']


class Output(io.RawIOBase):
    """a file descriptor that fails from a write on"""
    def __init__(self, fd, count, at, err):
        self.fd, self.count, self.at, self.err = fd, count, at, err

    def writable(self):
        return True

    def fileno(self):
        return self.fd

    def write(self, b):
        self.count[0] += 1
        if self.at and self.count[0] >= self.at:
            raise OSError(self.err, os.strerror(self.err))
        os.write(self.fd, b)
        return len(b)


def printing(argv, streams, at, err):
    """the program with outputs failing from a write on -> exits; else (status, number of writes)"""
    count = [0]
    outs = {}
    for name, fd in (('out', 1), ('err', 2)):
        if streams in (name, 'both'):
            outs[name] = io.TextIOWrapper(Output(fd, count, at, err), encoding='utf-8', errors='strict' if fd == 1 else 'backslashreplace', line_buffering=True, write_through=True)
        else:
            outs[name] = io.TextIOWrapper(io.FileIO(fd, 'w', closefd=False), encoding='utf-8', errors='backslashreplace', write_through=True)
    sys.stdout, sys.stderr = outs['out'], outs['err']
    try:
        c44.program(argv)
    except SystemExit as e:
        if not at:
            return e.code, count[0]
        raise


def setup(w):
    x = c44.setup(w)
    x.writes = {}
    for name, (argv, sort) in c44.COMMANDS.items():
        for streams in STREAMS:
            world = c44.start(w, x)
            o = go(w, world, argv, streams, 0, 0)
            w.check(o.kind == 'ret' and o.value[0] in (0, None), f'{name} fails', 'setup', outcome=o)
            x.writes[name, streams] = o.value[1]
    return x


def go(w, world, argv, *args):
    return w.fork(printing, lib.fill(world.root, argv), *args, cwd=world.home, env={**world.env, 'PWD': world.home}, clock=lib.T0)


def judge(w, c):
    name, streams, at, err = c
    x = w.ctx.x
    argv, sort = c44.COMMANDS[name]
    world = c44.start(w, x)
    o = go(w, world, argv, streams, at, err)
    after(w, x, world, name, f'{name}: std{streams} fails with {errno.errorcode[err]} from write {at} on', o, c44.status(o), c)


def after(w, x, world, name, label, o, st, c, outcome=True):
    w.count('evaluations')
    w.count('failed' if st else 'completed')
    w.distinct('nontrivial', c)
    w.check(st is not None, f'{label}: ends in {o.kind}', 'died', outcome=o)
    got = c44.state(x, world)
    want = x.want[name]
    if st == 0:
        differ = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
        w.check(not differ, f'{label}: claims success, but these are not as they should be: {differ[:6]}', f'success:{name}', outcome=o)
        found = c44.beads_found(w, x, world)
        w.check(found == x.found[name], f'{label}: claims success, but other beads are found', f'found:{name}', outcome=o, found=found, want=x.found[name])
    else:
        c44.harm(w, x, world, name, label, o, got)
        c44.again(w, x, world, name, label, o, got)
    w.sample({'output': label, 'status': st})


# ------------------------------------------------------------ refused commands, first save
def refused_setup(w):
    """the writes of the commands that are refused"""
    x = w.ctx.x
    x.refused = {}
    for n, argv in enumerate(c44.REFUSED):
        for streams in STREAMS:
            world = c44.start(w, x)
            o = go(w, world, argv, streams, 10**6, errno.EIO)
            w.check(c44.status(o) not in (0, None), f'bead {" ".join(argv)}: is not refused', 'setup', outcome=o)
            o = w.fork(counted, lib.fill(world.root, argv), streams, cwd=world.home, env={**world.env, 'PWD': world.home}, clock=lib.T0)
            w.check(o.kind == 'ret', f'bead {" ".join(argv)}: ends in {o.kind}', 'setup', outcome=o)
            x.refused[n, streams] = o.value
    for streams in STREAMS:
        world = c44.start(w, x, 'first')
        o = go(w, world, c44.FIRST, streams, 0, 0)
        w.check(o.kind == 'ret' and o.value[0] in (0, None), 'the first save fails', 'setup', outcome=o)
        x.first_writes[streams] = o.value[1]
    return x


def counted(argv, streams):
    try:
        return printing(argv, streams, 0, 0)[1]
    except Exception as e:
        return 20    # (a crash shows a traceback)


def refused(w, c):
    n, streams, at, err = c
    x = w.ctx.x
    argv = c44.REFUSED[n]
    world = c44.start(w, x)
    o = go(w, world, argv, streams, at, err)
    label = f'bead {" ".join(argv)}: std{streams} fails with {errno.errorcode[err]} from write {at} on'
    w.count('evaluations')
    w.count('refused')
    w.distinct('nontrivial', ('refused', *c))
    st = c44.status(o)
    w.check(st is not None, f'{label}: ends in {o.kind}', 'died', outcome=o)
    w.check(st != 0, f'{label}: is not possible, but exit status 0', 'refused-status', outcome=o)
    got = c44.state(x, world)
    differ = sorted(k for k in set(got) | set(x.before) if got.get(k) != x.before.get(k))
    w.check(not differ, f'{label}: refused, but changes {differ[:6]}', 'refused-changes', outcome=o)


def first(w, c):
    streams, at, err = c
    x = w.ctx.x
    world = c44.start(w, x, 'first')
    o = go(w, world, c44.FIRST, streams, at, err)
    c44.first_after(w, x, world, f'first save: std{streams} fails with {errno.errorcode[err]} from write {at} on', o, c)


# ------------------------------------------------------------ real processes
def process(w, c):
    name, streams, kind, how = c
    x = w.ctx.x
    argv, sort = c44.COMMANDS[name]
    world = c44.start(w, x)
    env = {**os.environ, **{k: v for k, v in world.env.items() if v}, 'PYTHONPATH': fw.REPO, 'PWD': world.home, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONIOENCODING': 'utf-8'}
    if how == 'unbuffered':
        env['PYTHONUNBUFFERED'] = '1'
    code = 'import sys\nfrom bead_cli.main import main\nmain()'
    fds = [f for f in (1, 2) if streams in ({1: 'out', 2: 'err'}[f], 'both')]
    shown = os.path.join(world.home, 'error_shown')
    ends = []

    def output(f):
        if f not in fds or kind == 'closed':
            return os.open(f'{shown}{f}', os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        if kind == 'full':
            return os.open('/dev/full', os.O_WRONLY)
        a, b = os.pipe()
        os.close(a)
        return b
    try:
        ends = [output(1), output(2)]
        cmd = [sys.executable, '-c', code, *lib.fill(world.root, argv)]
        if kind == 'closed':
            cmd = ['/bin/sh', '-c', 'exec "$@" ' + ' '.join(f'{f}>&-' for f in fds), 'sh', *cmd]
        p = subprocess.run(cmd, cwd=world.home, env=env, stdin=subprocess.DEVNULL, stdout=ends[0], stderr=ends[1], timeout=100)
    finally:
        for f in ends:
            os.close(f)
    o = fw.Outcome()
    o.kind, o.value = 'exit', p.returncode
    if p.returncode < 0:
        o.kind = 'kill'
    for f, a in ((1, 'out'), (2, 'err')):
        try:
            with open(f'{shown}{f}', errors='replace') as file:
                setattr(o, a, file.read())
        except FileNotFoundError:
            setattr(o, a, '')
    label = f'{name}: std{streams} is {kind}, {how}'
    # (real time)
    st = p.returncode if p.returncode >= 0 else None
    after(w, x, world, name, label, o, st, c)


# ------------------------------------------------------------ encodings
ENCODINGS = ['ascii', 'ascii:surrogateescape', 'latin-1', 'cp1252', 'koi8-r', 'shift_jis']
V = ('-w', R + '/wéß')
NAMED = {
    'save': ('save', 'één', *V),
    'save indexed': ('save', '二', *V),
    'input add': ('input', 'add', 'ново', 'áá', *V),
    'input delete': ('input', 'delete', 'ñ', *V),
    'input load': ('input', 'load', 'ŷ', *V),
    'input load all': ('input', 'load', *V),
    'input unload': ('input', 'unload', 'ñ', *V),
    'input unload all': ('input', 'unload', *V),
    'input update': ('input', 'update', 'ñ', *V),
    'input update prev': ('input', 'update', 'ñ', '--prev', *V),
    'input update all': ('input', 'update', *V),
    'input map': ('input', 'update', 'ñ', 'ЖЖ', *V),
    'new': ('new', 'öß→'),
    'edit': ('edit', 'áá', 'ű'),
    'edit plain': ('edit', 'ЖЖ'),
    'edit review': ('edit', '--review', 'ЖЖ', 'ű'),
    'discard': ('discard', '-f', R + '/wéß'),
    'box add': ('box', 'add', '三', R + '/trois é'),
    'box forget': ('box', 'forget', 'één'),
    'box list': ('box', 'list'),
    'box index': ('box', 'index', '--box', 'één'),
    'box index all': ('box', 'index', '--all'),
    'box index dir': ('box', 'index', '--dir', R + '/één'),
    'box reindex': ('box', 'reindex', '--box', '二'),
    'box reindex all': ('box', 'reindex', '--all'),
    'status': ('status', *V),
    'status -v': ('status', '-v', *V),
    'web save': ('web', 'save', 'gráf'),
    'web dot': ('web', 'color', '/', 'áá', '..', '/', 'dot', 'gráf.dot'),
    'no bead': ('edit', 'ő'),
    'no input': ('input', 'load', 'ő', *V),
    'no input bead': ('input', 'add', 'ő', 'ő', *V),
    'in the way': ('new', R + '/wéß'),
    'no workspace': ('status', '-w', R + '/één'),
    'no box': ('save', 'ő', *V),
    'box again': ('box', 'add', 'één', R + '/trois é'),
    'no box dir': ('box', 'add', 'ő', R + '/ő'),
    'no such box': ('box', 'forget', 'ő'),
    'no box index': ('box', 'index', '--box', 'ő'),
    'no command': ('ő',),
}


def encoded(argv, encoding):
    encoding, _, errors = encoding.partition(':')
    for name, fd, errors in (('stdout', 1, errors or 'strict'), ('stderr', 2, 'backslashreplace')):
        setattr(sys, name, io.TextIOWrapper(io.BufferedWriter(io.FileIO(fd, 'w', closefd=False)), encoding=encoding, errors=errors))
    try:
        c44.program(argv)
    finally:
        sys.stdout.flush()
        sys.stderr.flush()


# languages of real processes, with plain names
LOCALES = {
    'C, not coerced': dict(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0'),
    'POSIX': dict(LC_ALL='POSIX'),
    'no': dict(LC_ALL='', LANG='', LC_CTYPE=''),
    'unknown': dict(LC_ALL='xx_XX.ISO-8859-1', PYTHONUTF8='0'),
    'C.UTF-8': dict(LC_ALL='C.UTF-8'),
    'latin-1 output': dict(LC_ALL='C.UTF-8', PYTHONIOENCODING='latin-1'),
    'ascii output': dict(LC_ALL='C', PYTHONIOENCODING='ascii:surrogateescape'),
}


def locale_case(w, c):
    name, locale = c
    x = w.ctx.x
    argv, sort = c44.COMMANDS[name]
    world = c44.start(w, x)
    env = {**os.environ, **{k: v for k, v in world.env.items() if v}, 'PYTHONPATH': fw.REPO, 'PWD': world.home, 'PYTHONDONTWRITEBYTECODE': '1', **LOCALES[locale]}
    p = subprocess.run([sys.executable, '-c', 'from bead_cli.main import main\nmain()', *lib.fill(world.root, argv)], cwd=world.home, env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=100)
    o = fw.Outcome()
    o.kind, o.value = 'exit', p.returncode
    o.out, o.err = (t.decode('latin-1') for t in (p.stdout, p.stderr))
    label = f'{name} with {locale} locale'
    w.check(p.returncode == 0, f'{label}: exit status {p.returncode}', 'locale-status', outcome=o)
    after(w, x, world, name, label, o, p.returncode, c)


def named_setup(w):
    x = w.ctx.x
    mk = lib.make_bead
    a = [mk(w, 'áá', 'Kind', ts, out={'ö': ts.encode(), 'd/я': b'1'}, code={'ü.py': ts.encode()}) for ts in list(c40.TS.values())[:3]]
    b = mk(w, 'ЖЖ', 'Kind', c40.TS['b1'], out={'o': b'1'}, inputs={'áá': a[0], 'вход': a[1]})
    world = World(w.fresh())
    one, two = world.path('één'), world.path('二')
    lib.put(one, a[0], a[2])
    lib.put(two, a[1], b)
    os.mkdir(world.path('trois é'))
    world.set_boxes([('één', one), ('二', two)])
    w.check(w.cli(world, 'box', 'index', '--box', '二', clock=lib.T0).ok, 'index fails', 'setup')
    ws = world.path('wéß')
    for argv in (('new', ws), ('input', 'add', 'ñ', 'áá', '--time', '2020-02-15', '-w', ws), ('input', 'add', 'ŷ', 'ЖЖ', '-w', ws), ('input', 'unload', 'ŷ', '-w', ws)):
        w.check(w.cli(world, *argv, clock=lib.T0).ok, f'{argv} fails', 'setup')
    lib.write_tree(ws, {'ß.txt': b'1', 'output/é/ñ': b'2'})
    x.kinds = x.kinds | {'Kind', lib.ws_meta(ws)['kind']}
    x.named = lib.image_of(world, 'named', [('één', 'één'), ('二', '二')])
    x.old = set(x.old) | set(x.named.tree)
    x.plain = {}
    for name in NAMED:
        got, st, text, o = encoded_run(w, x, name, 'utf-8')
        w.check(o.kind == 'exit' and ('no ' in name or name in ('in the way', 'box again') or not st), f'{name} fails', 'setup', outcome=o)
        w.check('Traceback' not in o.err, f'{name} crashes', 'setup', outcome=o)
        x.plain[name] = got, st, text
    w.check('áá'.encode() in x.plain['web dot'][0]['home/gráf.dot'][2], 'the drawing lacks a bead', 'setup')
    return x


def encoded_run(w, x, name, encoding):
    world = c44.start(w, x, 'named')
    o = w.fork(encoded, lib.fill(world.root, NAMED[name]), encoding, cwd=world.home, env={**world.env, 'PWD': world.home}, clock=lib.T0)
    return c44.state(x, world), c44.status(o), [s.replace(world.root, R) for s in (o.out, o.err)], o


def unshown(text, encoding):
    """a pattern of the text with anything at characters that the encoding lacks"""
    parts = []
    for ch in text:
        try:
            ch.encode(encoding)
            parts.append(re.escape(ch))
        except UnicodeEncodeError:
            parts.append('\0')
    return re.sub('\0+', r'[^\\n]*?', ''.join(parts).replace('\\\0', '\0'))


def encoding_case(w, c):
    name, encoding = c
    x = w.ctx.x
    want, st, text = x.plain[name]
    got, st2, text2, o = encoded_run(w, x, name, encoding)
    label = f'{name} with {encoding} output'
    w.count('evaluations')
    w.distinct('nontrivial', c)
    w.check(st2 == st, f'{label}: exit status {st2} instead of {st}', 'encoding-status', outcome=o)
    differ = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
    w.check(not differ, f'{label}: has another effect on {differ[:6]}', 'encoding-effect', outcome=o)
    if encoding.startswith('ascii'):
        # (output is read back as UTF-8)
        for a, b in zip(text, text2):
            w.check(re.fullmatch(unshown(a, 'ascii'), b), f'{label}: shows something else', 'encoding-shown', outcome=o, want=a, got=b)
    w.sample({'encoding': label, 'status': st2, 'shown': text2[0][:200]})


def main(ctx):
    ctx.x = ctx.setup(setup)
    ctx.x = ctx.setup(c44.refs_setup)
    ctx.x = ctx.setup(c44.first_setup)
    ctx.x.first_writes = {}
    ctx.x = ctx.setup(refused_setup)
    x = ctx.x
    errs = BROKEN if not ctx.quick else BROKEN[:1]
    ctx.pmap(refused, [(n, s, at, e) for (n, s), total in x.refused.items() for at in range(1, total + 1) for e in errs], name='refused')
    ctx.pmap(first, [(s, at, e) for s, total in x.first_writes.items() for at in range(1, total + 1) for e in errs], name='first save')
    cases = [(name, s, at, e) for name in c44.COMMANDS for s in STREAMS for at in range(1, x.writes[name, s] + 1) for e in (BROKEN if not ctx.quick else BROKEN[:1])]
    ctx.pmap(judge, cases, name='failing output')
    hows = ['buffered', 'unbuffered']
    kinds = ['closed', 'full', 'broken']
    some = [n for n, (_, sort) in c44.COMMANDS.items()]
    ctx.pmap(process, [(n, s, k, h) for n in some for s in (STREAMS if not ctx.quick else STREAMS[::2]) for k in kinds for h in hows], name='processes')
    ctx.pmap(locale_case, [(n, l) for n in c44.COMMANDS for l in LOCALES], name='locales')
    ctx.x = ctx.setup(named_setup)
    ctx.pmap(encoding_case, [(n, e) for n in NAMED for e in ENCODINGS], name='encodings')
    ctx.coverage['rule'] = (f'{len(c44.COMMANDS)} commands x std(out, err, both) x the write from which it fails x {3 if not ctx.quick else 1} errnos; the same for {len(c44.REFUSED)} refused commands and the first save without any box; '
                            f'{len(some)} commands as processes with closed/full/broken outputs, buffered or not; {len(NAMED)} commands with non-ASCII names x {len(ENCODINGS)} encodings; {len(c44.COMMANDS)} commands x {len(LOCALES)} locales')
    ctx.coverage['writes'] = {f'{n} {s}': v for (n, s), v in x.writes.items()}
