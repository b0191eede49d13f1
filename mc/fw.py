"""Model checking framework: workers, forked executions, fault injection, evidence."""
import collections
import ctypes
import hashlib
import io
import json
import mmap
import os
import pickle
import resource
import selectors
import signal
import socket
import stat
import struct
import sys
import time
import traceback

REPO = os.environ['MC_REPO']
VERIF = os.environ['MC_VERIF']
SCRATCH = os.environ['MC_SCRATCH']
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
DEBUG = bool(os.environ.get('MC_DEBUG'))
NOBODY = 65534
CASE_TIMEOUT = 150
MEMORY = 3 << 30

# ------------------------------------------------------------------ the seam
shim = ctypes.CDLL(os.environ['MC_SHIM'])
shim.mc_arm.argtypes = [
    ctypes.c_int, ctypes.c_char_p, ctypes.c_uint, ctypes.c_long, ctypes.c_int,
    ctypes.c_int, ctypes.c_int, ctypes.c_uint, ctypes.c_void_p, ctypes.c_long,
    ctypes.c_int, ctypes.c_int]
shim.mc_arm.restype = None
shim.mc_disarm.restype = None
shim.mc_count.restype = ctypes.c_long
shim.mc_fired.restype = ctypes.c_int
shim.mc_clock.argtypes = [ctypes.c_int, ctypes.c_longlong, ctypes.c_longlong]
shim.mc_clock.restype = None
shim.mc_clock_now.restype = ctypes.c_longlong

M_OFF, M_COUNT, M_CRASH, M_FAULT, M_SCHED, M_INT = range(6)
(C_CREATE, C_WRITE, C_RENAME, C_UNLINK, C_MKDIR, C_RMDIR, C_CHMOD, C_TRUNC,
 C_LINK, C_SYNC, C_UTIME, C_OPEN, C_READ, C_STAT, C_DIR, C_LOCK, C_SLEEP) = (1 << i for i in range(17))
MUTATING = C_CREATE | C_WRITE | C_RENAME | C_UNLINK | C_MKDIR | C_RMDIR | C_CHMOD | C_TRUNC | C_LINK
ALLOCATING = C_CREATE | C_WRITE | C_MKDIR | C_LINK
ANYOP = MUTATING | C_SYNC | C_OPEN | C_READ | C_DIR | C_STAT


class Violation(Exception):
    def __init__(self, message, key='', detail=None):
        Exception.__init__(self, message)
        self.message = message
        self.key = key or message
        self.detail = detail


class Stop(Exception):
    pass


class Outcome:
    """What became of one forked execution."""
    kind = ''       # ret, exit, exc, crash, kill, hang
    value = None
    exc = ''        # exception type name
    message = ''
    tb = ''
    out = ''
    err = ''
    count = 0
    fired = False
    log = ''

    @property
    def ok(self):
        return self.kind == 'ret' and not self.value

    @property
    def failed(self):
        return not self.ok and self.kind in ('ret', 'exit', 'exc')

    @property
    def internal_error(self):
        """ended by an exception that no user would call a report"""
        return self.kind == 'exc'

    def brief(self):
        d = {'kind': self.kind, 'value': repr(self.value)[:200]}
        if self.exc:
            d['exc'] = f'{self.exc}: {self.message}'[:500]
            d['tb'] = self.tb[-1500:]
        if self.out:
            d['out'] = self.out[-800:]
        if self.err:
            d['err'] = self.err[-800:]
        return d

    def __repr__(self):
        return f'Outcome({self.brief()})'


class Arm:
    """How the seam is armed during one forked execution."""
    def __init__(self, mode, roots, mask, at=0, variant=0, err=0, sticky=0, stickymask=0,
                 sin=-1, sout=-1):
        self.mode, self.roots, self.mask, self.at = mode, roots, mask, at
        self.variant, self.err, self.sticky, self.stickymask = variant, err, sticky, stickymask
        self.sin, self.sout = sin, sout


LOGCAP = 1 << 20


class Stats:
    def __init__(self):
        self.n = collections.Counter()
        self.keys = collections.defaultdict(set)
        self.samples = collections.defaultdict(list)

    def merge(self, other):
        self.n.update(other.n)
        for k, v in other.keys.items():
            self.keys[k] |= v
        for k, v in other.samples.items():
            self.samples[k] = sorted(self.samples[k] + v, key=lambda iv: iv[0])[:6]


class Worker:
    """Runs cases in an unprivileged process with a scratch directory of its own."""

    def __init__(self, ctx, number):
        self.ctx = ctx
        self.number = number
        self.dir = os.path.join(SCRATCH, f'w{number}')
        self.stats = Stats()
        self.violations = []
        self.index = 0
        self.clock = None
        self._seq = 0
        self.log = mmap.mmap(-1, LOGCAP)
        self.logaddr = ctypes.addressof(ctypes.c_char.from_buffer(self.log))

    # -- statistics
    def count(self, name, n=1):
        self.stats.n[name] += n

    def distinct(self, name, key):
        if not isinstance(key, (bytes, str)):
            key = repr(key)
        if isinstance(key, str):
            key = key.encode('utf-8', 'surrogateescape')
        self.stats.keys[name].add(hashlib.blake2b(key, digest_size=8).digest())

    def sample(self, obj, name='samples'):
        if len(self.stats.samples[name]) < 3:
            self.stats.samples[name].append((self.index, obj))

    def violation(self, message, key='', detail=None):
        self.violations.append((self.index, key or message, message, detail))

    def check(self, cond, message, key='', **detail):
        if not cond:
            raise Violation(message, key, detail)

    # -- scratch space
    def fresh(self, name='c'):
        """A new empty directory; everything made before is removed."""
        wipe_children(self.dir)
        d = os.path.join(self.dir, name)
        os.mkdir(d)
        return d

    def sub(self, name='x'):
        self._seq += 1
        d = os.path.join(self.dir, f'{name}{self._seq}')
        os.mkdir(d)
        return d

    # -- executions
    def fork(self, fn, *args, cwd=None, env=None, arm=None, clock=None, tz=None,
             timeout=60, stdin=None, **kwargs):
        """Run fn(*args, **kwargs) in a forked child; returns the Outcome."""
        child = self.start(fn, *args, cwd=cwd, env=env, arm=arm, clock=clock, tz=tz,
                           timeout=timeout, log=True, **kwargs)
        return self.wait(child)

    def start(self, fn, *args, cwd=None, env=None, arm=None, clock=None, tz=None,
              timeout=60, log=False, **kwargs):
        res = os.memfd_create('res')
        out = os.memfd_create('out')
        err = os.memfd_create('err')
        if arm and log:
            struct.pack_into('q', self.log, 0, 0)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                self._child(fn, args, kwargs, cwd, env, arm, clock, tz, timeout, log, res, out, err)
            except BaseException:
                code = 99
            os._exit(code)
        return (pid, res, out, err, arm, log)

    def _child(self, fn, args, kwargs, cwd, env, arm, clock, tz, timeout, log, res, out, err):
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.setitimer(signal.ITIMER_REAL, timeout)
        os.dup2(out, 1)
        os.dup2(err, 2)
        nul = os.open('/dev/null', os.O_RDONLY)
        os.dup2(nul, 0)
        sys.stdout = io.TextIOWrapper(io.FileIO(1, 'w', closefd=False), encoding='utf-8',
                                      errors='backslashreplace', write_through=True)
        sys.stderr = io.TextIOWrapper(io.FileIO(2, 'w', closefd=False), encoding='utf-8',
                                      errors='backslashreplace', write_through=True)
        if env:
            for k, v in env.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
        if tz:
            os.environ['TZ'] = tz
            time.tzset()
        if cwd:
            os.chdir(cwd)
        clock = clock if clock is not None else self.clock
        if clock is not None:
            now, step = clock if isinstance(clock, tuple) else (clock, 1000)
            shim.mc_clock(1, now, step)
        if arm:
            shim.mc_arm(
                arm.mode, os.fsencode(arm.roots if isinstance(arm.roots, (str, bytes)) else '\n'.join(arm.roots)),
                arm.mask, arm.at, arm.variant, arm.err, arm.sticky, arm.stickymask,
                self.logaddr if log else None, LOGCAP if log else 0, arm.sin, arm.sout)
        try:
            value = fn(*args, **kwargs)
            shim.mc_disarm()
            result = ('ret', value, '', '', '')
        except SystemExit as e:
            shim.mc_disarm()
            result = ('exit', e.code, '', '', '')
        except BaseException as e:
            shim.mc_disarm()
            result = ('exc', None, type(e).__name__, str(e), traceback.format_exc())
        result = result + (shim.mc_count(), shim.mc_fired())
        try:
            data = pickle.dumps(result)
        except Exception:
            data = pickle.dumps(('ret', repr(result[1]), '', '', '') + result[5:])
        os.write(res, data)

    def wait(self, child):
        pid, res, out, err, arm, log = child
        while True:
            try:
                _, status = os.waitpid(pid, 0)
                break
            except InterruptedError:
                continue
        o = Outcome()
        size = os.fstat(res).st_size
        if size:
            data = os.pread(res, size, 0)
            try:
                o.kind, o.value, o.exc, o.message, o.tb, o.count, o.fired = pickle.loads(data)
            except Exception:
                o.kind = 'kill'
        elif os.WIFEXITED(status) and os.WEXITSTATUS(status) == 77:
            o.kind = 'crash'
            o.fired = True
        elif os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM:
            o.kind = 'hang'
        else:
            o.kind = 'kill'
            o.value = status
        o.out = os.pread(out, os.fstat(out).st_size, 0).decode('utf-8', 'replace')
        o.err = os.pread(err, os.fstat(err).st_size, 0).decode('utf-8', 'replace')
        for fd in (res, out, err):
            os.close(fd)
        if arm and log:
            n = struct.unpack_from('q', self.log, 0)[0]
            o.log = self.log[8:8 + n].decode('utf-8', 'replace')
        return o

    def cli(self, world, *argv, cwd=None, **kw):
        """Run one bead command line in a forked process."""
        return self.fork(run_cli, world.config, [os.fspath(a) for a in argv], kw.pop('umask', None),
                         cwd=cwd or world.cwd, env=dict(world.env), **kw)


def preload():
    """Import the code under test once, before forking."""
    import gc
    import importlib
    import zipfile, zlib, sqlite3, tempfile, shutil, glob, encodings.idna, encodings.cp437  # noqa
    for name in ('bead_cli.main', 'bead.box', 'bead.box_index', 'bead.workspace', 'bead.ziparchive'):
        m = importlib.import_module(name)
        if not os.path.realpath(m.__file__).startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError(f'{name} is imported from {m.__file__}')
    warm_up()
    gc.collect()
    gc.freeze()


def warm_up():
    """One harmless command, so that the caches of the standard library are filled before forking."""
    import contextlib
    d = os.path.join(SCRATCH, 'warm')
    cwd = os.getcwd()
    try:
        os.mkdir(d)
        os.chdir(d)
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            run_cli(os.path.join(d, 'config'), ['box', 'list'])
    except BaseException:
        pass
    finally:
        os.chdir(cwd)
        wipe(d)


def run_cli(config_dir, argv, umask=None):
    from bead_cli.main import run
    if umask is not None:
        os.umask(umask)
    return run(config_dir, argv)


class World:
    """A user's private surroundings: home, configuration, boxes, workspaces."""

    def __init__(self, root):
        self.root = root
        self.home = os.path.join(root, 'home')
        self.config = os.path.join(root, 'config')
        self.cwd = self.home
        self.env = {'HOME': self.home, 'XDG_CONFIG_HOME': self.config, 'BEAD_ZIP_COMPRESSION': None}
        os.makedirs(self.home, exist_ok=True)
        os.makedirs(self.config, exist_ok=True)

    def path(self, *parts):
        return os.path.join(self.root, *parts)

    def set_boxes(self, boxes):
        """[(name, directory)] as `bead box add` would record them"""
        with open(os.path.join(self.config, 'env.json'), 'w') as f:
            json.dump({'boxes': [{'name': n, 'directory': d} for n, d in boxes]}, f)


# ------------------------------------------------------------ directory trees
def wipe_children(path):
    for name in os.listdir(path):
        wipe(os.path.join(path, name))


def wipe(path):
    try:
        st = os.lstat(path)
    except FileNotFoundError:
        return
    if stat.S_ISDIR(st.st_mode):
        if st.st_mode & 0o700 != 0o700:
            os.chmod(path, 0o700)
        for name in os.listdir(path):
            wipe(os.path.join(path, name))
        os.rmdir(path)
    else:
        os.unlink(path)


def snap(path, modes=True, skip=()):
    """The tree below path as a dict: relative path -> (type, mode, content)."""
    tree = {}

    def walk(p, rel):
        st = os.lstat(p)
        m = stat.S_IMODE(st.st_mode) if modes else 0
        if stat.S_ISLNK(st.st_mode):
            tree[rel] = ('l', 0, os.readlink(p))
        elif stat.S_ISDIR(st.st_mode):
            tree[rel] = ('d', m, None)
            if st.st_mode & 0o500 != 0o500:
                os.chmod(p, 0o700)
                names = os.listdir(p)
                for name in sorted(names):
                    if name not in skip:
                        walk(os.path.join(p, name), os.path.join(rel, name) if rel else name)
                os.chmod(p, stat.S_IMODE(st.st_mode))
                return
            for name in sorted(os.listdir(p)):
                if name not in skip:
                    walk(os.path.join(p, name), os.path.join(rel, name) if rel else name)
        elif stat.S_ISREG(st.st_mode):
            if st.st_mode & 0o400:
                with open(p, 'rb') as f:
                    tree[rel] = ('f', m, f.read())
            else:
                os.chmod(p, 0o600)
                with open(p, 'rb') as f:
                    tree[rel] = ('f', m, f.read())
                os.chmod(p, stat.S_IMODE(st.st_mode))
        else:
            tree[rel] = ('o', m, None)
    if os.path.lexists(path):
        walk(path, '')
    return tree


def restore(path, tree):
    """Make path exactly the tree."""
    wipe(path)
    dirs = []
    for rel, (kind, mode, content) in sorted(tree.items()):
        p = os.path.join(path, rel) if rel else path
        if kind == 'd':
            os.mkdir(p, 0o700)
            dirs.append((p, mode))
        elif kind == 'f':
            with open(p, 'wb') as f:
                f.write(content)
            os.chmod(p, mode)
        elif kind == 'l':
            os.symlink(content, p)
    for p, mode in reversed(dirs):
        if mode != 0o700:
            os.chmod(p, mode)


def diff(a, b, limit=8):
    """Readable differences of two trees."""
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            def show(v):
                if v is None:
                    return 'absent'
                kind, mode, content = v
                c = '' if content is None else repr(content[:60])
                return f'{kind} {mode:o} {c}'
            out.append(f'{k or "."}: {show(a.get(k))} -> {show(b.get(k))}')
    return out[:limit] + (['...'] if len(out) > limit else [])


# -------------------------------------------------------------------- context
class Known:
    """Known findings: lines  `finding: property=<id> key=<key> <what fails>`."""

    def __init__(self, pid):
        self.findings = {}
        path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    line = line.strip()
                    if not line.startswith('finding: '):
                        continue
                    words = line.split(' ', 3)
                    if len(words) < 4 or words[1] != f'property={pid}':
                        continue
                    self.findings[words[2].split('=', 1)[1]] = words[3]


class Ctx:
    def __init__(self, pid, replay=None):
        self.pid = pid
        self.tier = TIER
        self.quick = TIER == 'quick'
        self.seed = SEED
        self.started = time.time()
        self.stats = Stats()
        self.violations = []      # (stage, index, key, message, detail, case)
        self.level = 'model_checking'
        self.coverage = {}
        self.assumptions = []
        self.nworkers = int(os.environ.get('MC_WORKERS', '8'))
        self.known = Known(pid)
        self.replay = None
        self.stage = 0
        self.privileged = None
        if replay:
            with open(replay) as f:
                self.replay = json.load(f)

    # -- running cases on unprivileged workers
    def _become_worker(self, number):
        d = os.path.join(SCRATCH, f'w{number}')
        if not os.path.isdir(d):
            os.mkdir(d)
        if os.getuid() == 0:
            os.chown(d, NOBODY, NOBODY)
            try:
                os.setgroups([])
                os.setgid(NOBODY)
                os.setuid(NOBODY)
            except OSError:
                pass
        os.umask(0o022)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        # code that reads without end must not end the sandbox
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
        w = Worker(self, number)
        os.chdir(d)
        return w

    def pmap(self, fn, cases, name='', stop_after=20, workers=None):
        """fn(worker, case) for every case; returns the list of results.

        A Violation (or any other exception) raised by fn is reported for that
        case. Cases are handed out in order to whichever worker is free."""
        cases = list(cases)
        stage = self.stage
        self.stage += 1
        only = None
        if self.replay is not None and self.replay.get('stage') == stage:
            only = self.replay.get('index')
        results = [None] * len(cases)
        nw = max(1, min(workers or self.nworkers, len(cases)))
        sel = selectors.DefaultSelector()
        order = list(range(len(cases))) if only is None else [only]
        order.reverse()
        conns = {}
        pids = []
        sys.stdout.flush()
        for i in range(nw):
            a, b = socket.socketpair()
            pid = os.fork()
            if pid == 0:
                a.close()
                for c in conns.values():
                    c['sock'].close()
                code = 0
                try:
                    self._worker_loop(i, b, fn, cases)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                os._exit(code)
            b.close()
            conns[a.fileno()] = {'sock': a, 'buf': bytearray(), 'n': i}
            sel.register(a, selectors.EVENT_READ, a.fileno())
            pids.append(pid)
        nviol = 0
        live = set(conns)
        lost = None
        running = {}
        while live:
            for key, _ in sel.select():
                c = conns[key.data]
                data = c['sock'].recv(1 << 20)
                if not data:
                    sel.unregister(c['sock'])
                    live.discard(key.data)
                    if not c.get('done'):
                        lost = running.get(key.data)
                    continue
                c['buf'] += data
                while len(c['buf']) >= 8:
                    n = struct.unpack_from('q', c['buf'], 0)[0]
                    if len(c['buf']) < 8 + n:
                        break
                    msg = pickle.loads(bytes(c['buf'][8:8 + n]))
                    del c['buf'][:8 + n]
                    if msg[0] == 'done':
                        _, index, result, viols = msg
                        results[index] = result
                        for v in viols:
                            if v[1] not in self.known.findings:
                                nviol += 1
                            self.violations.append((stage, name) + v + (repr(cases[v[0]])[:4000],))
                    elif msg[0] == 'stats':
                        self.stats.merge(msg[1])
                        c['done'] = True
                    if msg[0] in ('done', 'ready'):
                        if order and nviol < stop_after:
                            index = order.pop()
                            running[key.data] = index
                            c['sock'].sendall(struct.pack('q', index))
                        else:
                            c['sock'].sendall(struct.pack('q', -1))
        sel.close()
        for pid in pids:
            os.waitpid(pid, 0)
        for c in conns.values():
            c['sock'].close()
        if lost is not None:
            raise RuntimeError(f'a worker died on case {lost}: {cases[lost]!r}'[:2000])
        if nviol >= stop_after:
            raise Stop
        if only is not None:
            raise Stop
        return results

    def _worker_loop(self, number, sock, fn, cases):
        w = self._become_worker(number)

        def send(msg):
            data = pickle.dumps(msg)
            sock.sendall(struct.pack('q', len(data)) + data)

        class CaseTimeout(BaseException):
            pass

        def on_alarm(_s, _f):
            raise CaseTimeout()
        signal.signal(signal.SIGALRM, on_alarm)
        send(('ready',))
        while True:
            data = b''
            while len(data) < 8:
                got = sock.recv(8 - len(data))
                if not got:
                    return
                data += got
            index = struct.unpack('q', data)[0]
            if index < 0:
                break
            w.index = index
            w.violations = []
            result = None
            signal.alarm(CASE_TIMEOUT)
            try:
                result = fn(w, cases[index])
            except Violation as v:
                w.violation(v.message, v.key, v.detail)
            except CaseTimeout:
                w.violation('the case did not end', 'hang', traceback.format_exc()[-3000:])
            except Exception as e:
                w.violation(f'unexpected {type(e).__name__}: {e}'[:400], f'exc:{type(e).__name__}',
                            traceback.format_exc()[-3000:])
            finally:
                signal.alarm(0)
            send(('done', index, result, w.violations))
        try:
            wipe_children(w.dir)
        except OSError:
            pass
        send(('stats', w.stats))

    def setup(self, fn, *args):
        """Run fn(worker, *args) once on an unprivileged worker; returns its result."""
        replay, self.replay = self.replay, None
        try:
            before = len(self.violations)
            r = self.pmap(lambda w, _: fn(w, *args), [0], name='setup', workers=1)[0]
        finally:
            self.replay = replay
        if len(self.violations) > before:
            raise Stop
        return r

    # -- reporting
    def finish(self):
        pid = self.pid
        known, new = {}, []
        for v in self.violations:
            if v[3] in self.known.findings:
                known.setdefault(v[3], v)
            else:
                new.append(v)
        for key in sorted(known):
            print(f'KNOWN-FINDING: property={pid} {self.known.findings[key]}')
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        new.sort(key=lambda v: (v[0], v[2]))
        seen = set()
        outdir = os.environ.get('MC_OUT') or VERIF
        for v in new:
            stage, name, index, key, message, detail, case = v
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 5:
                break
            path = os.path.join(outdir, 'replays', f'{pid}-{len(seen)}.json')
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'w') as f:
                json.dump({
                    'property': pid, 'tier': self.tier, 'stage': stage, 'stage_name': name,
                    'index': index, 'key': key, 'message': message,
                    'case': case, 'detail': jsonable(detail),
                    'rerun': f'python3 mc/run.py {pid} --tier {self.tier} --replay {path}',
                }, f, indent=1, default=repr)
            print(f'  {message}'.replace('\n', ' ')[:600])
            print(f'VIOLATION property={pid} replay={path}')
        cov = {}
        n = self.stats.n
        for k in ('evaluations', 'states', 'transitions', 'traces_validated_against_impl'):
            if k in n:
                cov[k] = n[k]
        if 'nontrivial' in self.stats.keys:
            cov['distinct_nontrivial'] = len(self.stats.keys['nontrivial'])
        for k, v in n.items():
            cov.setdefault(k, v)
        for k, v in self.stats.keys.items():
            if k != 'nontrivial':
                cov.setdefault(f'distinct_{k}', len(v))
        cov['samples'] = [jsonable(s) for _, s in self.stats.samples.get('samples', [])][:6]
        cov.update(self.coverage)
        if not new and self.replay is None:
            need = {
                'exploration': ('evaluations', 'distinct_nontrivial', 'rule', 'samples'),
                'fault_enumeration': ('evaluations', 'distinct_nontrivial', 'rule', 'samples'),
                'model_checking': ('states', 'transitions', 'traces_validated_against_impl', 'samples'),
            }.get(self.level, ())
            for k in need:
                if not cov.get(k):
                    print(f'check {pid}: nothing covered ({k})', file=sys.stderr)
                    return 2
        evidence = {
            'property': pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
            'coverage': cov, 'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.started, 2),
            'violations': len(new),
        }
        path = os.path.join(outdir, 'evidence', f'{pid}.json')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if self.replay is None:
            with open(path, 'w') as f:
                json.dump(evidence, f, indent=1, default=repr)
                f.write('\n')
        brief = {k: v for k, v in cov.items() if isinstance(v, (int, float, bool))}
        print(f'{pid} {self.tier}: {"VIOLATED" if new else "held"} {brief} in {evidence["wall_s"]} s')
        return 1 if new else 0


def jsonable(x, depth=0):
    if depth > 8:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k)[:200]: jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    if isinstance(x, (set, frozenset)):
        return sorted((jsonable(v, depth + 1) for v in list(x)[:60]), key=repr)
    if isinstance(x, bytes):
        return repr(x[:200])
    if isinstance(x, Outcome):
        return x.brief()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x if not isinstance(x, str) else x[:4000]
    return repr(x)[:500]


# ------------------------------------------------- fault and crash enumeration
def count_ops(w, run, roots, mask):
    """Execute run(arm) once, counting; returns (Outcome, number of points)."""
    o = run(Arm(M_COUNT, roots, mask))
    return o, o.count


def op_lines(log):
    """[(number, op, path, arg)] of a seam log"""
    out = []
    for line in log.splitlines():
        head, _, rest = line.partition(' ')
        op, _, rest = rest.partition(' ')
        path, _, arg = rest.rpartition(' ')
        try:
            out.append((int(head), op, path, int(arg)))
        except ValueError:
            pass
    return out
