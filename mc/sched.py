"""Controlled interleaving of real processes.

Every process stops before each of its file operations in the shared directory
and goes on when told to, so that exactly one of them runs at a time and the
schedule decides everything. Schedules are enumerated by the number of
preemptions (switches away from a process that could go on)."""
import os
import select

import fw
from fw import (Arm, C_CHMOD, C_CREATE, C_DIR, C_LINK, C_LOCK, C_MKDIR, C_OPEN, C_RENAME, C_RMDIR, C_SLEEP, C_STAT, C_SYNC,
                C_TRUNC, C_UNLINK, C_WRITE, M_SCHED)

MASK = (C_CREATE | C_WRITE | C_RENAME | C_UNLINK | C_MKDIR | C_RMDIR | C_CHMOD | C_TRUNC | C_LINK | C_OPEN | C_STAT | C_DIR
        | C_LOCK | C_SLEEP)
LIMIT = 20000


class Run:
    """trace: [(process, class, op, path, arg, processes that could have run)]"""
    def __init__(self):
        self.trace = []
        self.outcomes = []
        self.stuck = ''


def run(w, roots, procs, order, preempt=()):
    """procs: [(fn, args, keywords of Worker.start)]; order: who runs first when there is a choice;
    preempt: ((step, process), ...)"""
    n = len(procs)
    r = Run()
    kids, to, frm = [], [], []
    for fn, args, kw in procs:
        cr, pw = os.pipe()     # commands
        pr, cw = os.pipe()     # reports
        kids.append(w.start(fn, *args, arm=Arm(M_SCHED, roots, MASK, sin=cr, sout=cw), timeout=100, **kw))
        os.close(cr)
        os.close(cw)
        to.append(pw)
        frm.append(pr)
    pending = [None] * n
    done = [False] * n
    asleep = [False] * n
    bufs = [b''] * n

    def advance(i):
        """wait until process i is at its next operation or has ended"""
        while b'\n' not in bufs[i]:
            ready, _, _ = select.select([frm[i]], [], [], 90)
            data = os.read(frm[i], 65536) if ready else b''
            if not ready:
                r.stuck = f'process {i} does not get to its next operation'
            if not data:
                done[i] = True
                pending[i] = None
                return
            bufs[i] += data
        line, _, bufs[i] = bufs[i].partition(b'\n')
        cls, op, rest = line.decode('utf-8', 'backslashreplace').split(' ', 2)
        path, arg = rest.rsplit(' ', 1)
        pending[i] = (int(cls), op, path, int(arg))

    def wake(i):
        for k in range(n):
            if k != i:
                asleep[k] = False

    try:
        for i in range(n):
            advance(i)
        cur = None
        forced = dict(preempt)
        while not all(done) and not r.stuck:
            step = len(r.trace)
            if step >= LIMIT:
                r.stuck = 'the processes do not finish'
                break
            able = [k for k in order if not done[k] and not asleep[k]]
            if not able:
                # everybody waits for somebody else: time passes
                waiting = [k for k in order if not done[k]]
                for k in waiting:
                    asleep[k] = False
                later = [k for k in waiting if cur is not None and order.index(k) > order.index(cur)]
                cur = (later or waiting)[0]
                able = waiting
            if cur is None or cur not in able:
                cur = able[0]
            if step in forced:
                if forced[step] in able:
                    cur = forced[step]
            op = pending[cur]
            r.trace.append((cur, *op, tuple(k for k in able if k != cur)))
            os.write(to[cur], b'g')
            advance(cur)
            if op[0] == C_SLEEP and not done[cur]:
                asleep[cur] = True
                wake(cur)
                cur = None
            elif op[1] in ('unlock', 'close') or done[cur]:
                wake(cur)
    finally:
        if r.stuck:
            for k in range(n):
                if not done[k]:
                    try:
                        os.kill(kids[k][0], 9)
                    except OSError:
                        pass
        for fd in to + frm:
            os.close(fd)
        r.outcomes = [w.wait(k) for k in kids]
    return r


NAMES = C_CREATE | C_RENAME | C_UNLINK | C_MKDIR | C_RMDIR | C_LINK     # change what a directory lists


def mutates(cls, op, arg):
    return bool(cls & (NAMES | C_WRITE | C_TRUNC | C_CHMOD)) or (op == 'lock' and arg == 1)


def contended(trace):
    """the files that one process changed or locked and another one used"""
    users, changers, moved = {}, {}, {}
    for p, cls, op, path, arg, able in trace:
        if cls & (C_SLEEP | C_DIR):
            continue
        # both names of a renaming are changed, and everything below them
        for name in path.split('->') if op == 'rename' else [path]:
            users.setdefault(name, set()).add(p)
            if mutates(cls, op, arg):
                changers.setdefault(name, set()).add(p)
            if op == 'rename':
                moved.setdefault(name, set()).add(p)
    shared = {path for path, u in users.items() if len(u) > 1 and path in changers}
    for path, u in users.items():
        above = path
        while '/' in above:
            above = above.rpartition('/')[0]
            if len(u | moved.get(above, u)) > 1:
                shared.add(path)
    return shared


def branches(trace, preempt, shared, known, merge=False):
    """the schedules that differ from this one by one more preemption

    A switch before an operation that no other process can notice (unlocking,
    reading what nobody changes, writing what nobody else uses) is equivalent to
    one before the next noticeable operation of that process; those are left out.
    Files that are not known are always taken for shared ones.
    merge: consecutive writes into one file, and consecutive looks at it, count as one operation."""
    after = max((s for s, _ in preempt), default=-1)
    out = []
    for step, (p, cls, op, path, arg, able) in enumerate(trace):
        # switching before the very first operation is a matter of order
        if step <= after or step == 0:
            continue
        if op in ('unlock', 'close') or cls == C_SLEEP:
            continue
        if not cls & (NAMES | C_DIR) and path not in shared and path in known:
            continue
        if merge and cls & (C_WRITE | C_STAT) and trace[step - 1][:4] == (p, cls, op, path):
            continue
        for k in able:
            out.append(tuple(preempt) + ((step, k),))
    return out


def paths(trace):
    return {t[3] for t in trace}


def disturbed(w, roots, proc, mask, plan, limit=LIMIT):
    """One process, and another program doing something before some of its operations.

    plan: {step: function}; returns ([(class, op, path, arg)], Outcome, steps of the plan that were reached)"""
    fn, args, kw = proc
    cr, pw = os.pipe()
    pr, cw = os.pipe()
    kid = w.start(fn, *args, arm=Arm(M_SCHED, roots, mask, sin=cr, sout=cw), timeout=100, **kw)
    os.close(cr)
    os.close(cw)
    trace, reached, buf = [], [], b''
    try:
        while True:
            while b'\n' not in buf:
                ready, _, _ = select.select([pr], [], [], 90)
                data = os.read(pr, 65536) if ready else b''
                if not data:
                    break
                buf += data
            line, nl, buf = buf.partition(b'\n')
            if not nl or len(trace) >= limit:
                break
            cls, op, rest = line.decode('utf-8', 'backslashreplace').split(' ', 2)
            path, arg = rest.rsplit(' ', 1)
            if len(trace) in plan:
                plan[len(trace)]()
                reached.append(len(trace))
            trace.append((int(cls), op, path, int(arg)))
            os.write(pw, b'g')
    finally:
        if len(trace) >= limit:
            os.kill(kid[0], 9)
        os.close(pw)
        os.close(pr)
    return trace, w.wait(kid), reached
