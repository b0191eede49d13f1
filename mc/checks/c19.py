"""C19: freeze times denote the true moment and keep the order of saves.

A new process per time zone under a virtual clock: all moments around all UTC
offset changes of the zone, and series of real saves there; compared with the
exact moment in microseconds."""
import json
import os
import subprocess
import sys
import time

import fw
from fw import World
import lib

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive exploration of (time zone, moment) pairs around every offset change under a virtual clock, on the real code in fresh processes'
NOTE = ('Quick: a third of the zones of the system and POSIX rules, changes of 1975-2037 thinned out; thorough: all zones, all changes until 2100. Zones with '
        'offsets that are not whole minutes are out of scope.')

POSIX = ['UTC0', '<+0530>-5:30', '<+0545>-5:45', '<-0330>3:30', '<+1400>-14', '<-1200>12', '<+1545>-15:45', '<+0001>-0:01', '<-0001>0:01', '<-0059>0:59',
         'EST5EDT,M3.2.0,M11.1.0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'AEST-10AEDT,M10.1.0,M4.1.0/3', '<+1030>-10:30<+11>-11,M10.1.0,M4.1.0',
         'IST-2IDT,M3.4.4/26,M10.5.0', '<-02>2<-01>,M3.5.0/-1,M10.5.0/0', 'NST3:30NDT,M3.2.0/0:01,M11.1.0/0:01', 'XXX3YYY1,J60,J300', 'XXX-3YYY-3:20,0/0,J365/23',
         'XXX12YYY-12,M3.1.0,M9.1.0', 'A0B1,M4.1.0,M10.1.0', '', ':']
SOME = ['Europe/London', 'Europe/Dublin', 'America/New_York', 'America/St_Johns', 'Australia/Lord_Howe', 'Asia/Kathmandu', 'Pacific/Apia', 'Africa/Casablanca',
        'Europe/Moscow', 'America/Caracas', 'Asia/Pyongyang', 'Antarctica/Troll', 'Asia/Gaza', 'Pacific/Kiritimati', 'Asia/Kolkata']


def zones():
    root = '/usr/share/zoneinfo'
    out, seen = [], set()
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in ('posix', 'right'))
        for f in sorted(files):
            p = os.path.join(d, f)
            try:
                with open(p, 'rb') as fh:
                    data = fh.read()
            except OSError:
                continue
            if data[:4] == b'TZif' and data not in seen:
                seen.add(data)
                out.append(os.path.relpath(p, root))
    return out


def offset_changes(tz, first, last):
    """[(second of the change, offset before, after)] by the C library"""
    os.environ['TZ'] = tz
    time.tzset()

    def off(t):
        return time.localtime(t).tm_gmtoff
    out = []
    step = 6 * 86400
    t, o = first, off(first)
    while t < last:
        n = min(t + step, last)
        on = off(n)
        if on != o or time.localtime(n).tm_isdst != time.localtime(t).tm_isdst:
            lo, hi = t, n
            if on != o:
                while hi - lo > 1:
                    mid = (lo + hi) // 2
                    if off(mid) == o:
                        lo = mid
                    else:
                        hi = mid
                out.append((hi, o, off(hi)))
                t, o = hi, off(hi)
                continue
        t, o = n, on
    return out


def judge(w, case):
    tz, saves = case
    ctx = w.ctx
    first, last = (int(time.mktime((1975, 1, 5, 0, 0, 0, 0, 0, 0))), 2145916800 if ctx.quick else 4133980800)
    changes = offset_changes(tz, first, last)
    out_of_scope = [c for c in changes if c[1] % 60 or c[2] % 60]
    if out_of_scope:
        first = out_of_scope[-1][0] + 86400
        changes = [c for c in changes if c[0] > first]
    os.environ['TZ'] = 'UTC'
    time.tzset()
    if ctx.quick and len(changes) > 12:
        changes = changes[:3] + changes[3:-6:max(1, len(changes) // 8)] + changes[-6:]
    secs = set()
    for c, a, b in changes:
        jump = abs(a - b)
        for d in (-86400, -jump - 1, -jump, -jump + 1, -jump // 2, -1, 0, 1, jump // 2, jump - 1, jump, jump + 1, 86400):
            secs.add(c + d)
    secs |= {first, 946684799, 946684800, 951782399, 951868800, 1000000000, 1700000000, last, 2147483647 if first < 2147483647 <= last + 400 else first}
    moments = sorted({s * 1_000_000 + us for s in secs for us in (0, 1, 299999, 999999) if s >= first})
    world = World(w.fresh())
    job = {'moments': moments, 'saves': [], 'boxes': [], 'config': world.config, 'ws': world.path('ws')}
    if saves:
        for b in ('i', 'r'):
            os.mkdir(world.path(b))
            job['boxes'].append((b, world.path(b)))
        world.set_boxes(job['boxes'])
        w.check(w.cli(world, 'new', world.path('ws'), clock=lib.T0).ok, 'new fails', 'setup')
        w.check(w.cli(world, 'box', 'index', '--box', 'i', clock=lib.T0).ok, 'index fails', 'setup')
        picked = [c for c in changes if c[2] < c[1]][-2:] + [c for c in changes if c[2] > c[1]][-1:]
        at = set()
        for c, a, b in picked:
            j = abs(a - b)
            # during the hour that comes twice: the wall clock shows less after the second than after the first
            at |= {(c - j // 2) * 1_000_000 + 999999, c * 1_000_000 - 1, c * 1_000_000, (c + j // 4) * 1_000_000 + 7, (c + j) * 1_000_000}
        if not at:
            at = {1_700_000_000_000_000, 1_700_000_000_000_500, 1_700_000_001_000_000}
        job['saves'] = sorted(at)
    p = subprocess.run([sys.executable, '-s', os.path.join(fw.VERIF, 'mc', 'tzprobe.py')], input=json.dumps(job), capture_output=True, text=True,
                       env={**os.environ, **{k: v for k, v in world.env.items() if v is not None}, 'TZ': tz}, cwd=world.home, timeout=140)
    w.check(p.returncode == 0, f'TZ={tz}: the commands fail: {p.stderr[-300:]}', 'died', err=p.stderr[-2000:])
    res = json.loads(p.stdout)
    order = []
    for us, end, ts, back in res['moments']:
        label = f'TZ={tz}, moment {us}'
        w.count('evaluations')
        try:
            own = lib.micros(ts)
        except AttributeError:
            own = None
        w.check(own is not None, f'{label}: time stamp {ts} is not in the full form', 'form')
        w.check(us <= own <= end, f'{label}: time stamp {ts} denotes {own - us} microseconds later', 'moment')
        w.check(back == own, f'{label}: {ts} is parsed as {back} instead of {own}', 'parse')
        order.append(own)
    w.check(order == sorted(order), f'TZ={tz}: the order of time stamps is wrong', 'order')
    for us in moments:
        w.distinct('nontrivial', (tz, us))
    w.count('changes', len(changes))
    stamps = {}
    for s in res['saves']:
        label = f'TZ={tz}, save at {s["at"]} into {s["box"]}'
        w.count('saves')
        w.check(s['save'][0] == 'ret' and not s['save'][1], f'{label} fails: {s["save"]}', 'save')
        w.check(len(s['new']) == 1, f'{label}: new archives {s["new"]}', 'archive')
        stamp = s['new'][0][len('ws_'):-len('.zip')]
        with open(world.path(s['box'], s['new'][0]), 'rb') as f:
            meta = json.loads(dict(lib.members(f.read()))['meta/bead'])
        w.check(meta['freeze_time'] == stamp, f'{label}: file name has {stamp}, metadata {meta["freeze_time"]}', 'name')
        w.check(s['at'] <= lib.micros(stamp) <= s['end'], f'{label}: frozen at {stamp}, which is {lib.micros(stamp) - s["at"]} microseconds later', 'moment')
        w.check(s['valid'] == ['ret', stamp], f'{label}: the new bead is rejected: {s["valid"]}', 'rejected')
        stamps.setdefault(s['box'], []).append(stamp)
        want = {b: [v, v[-1]] for b, v in stamps.items()}
        w.check(s['look'][0] == 'ret' or len(stamps) < 2, f'{label}: searching fails: {s["look"]}', 'search')
        if s['look'][0] == 'ret':
            w.check(s['look'][1] == want, f'{label}: beads in order are {s["look"][1]} instead of {want}', 'order')
    w.sample({'zone': tz, 'changes': len(changes), 'moments': len(moments), 'last': res['moments'][-1]})


def main(ctx):
    named = zones()
    ctx.coverage['zones known'] = len(named)
    # all of them at times
    picked = [z for z in SOME if z in named] if ctx.quick else named
    cases = [(z, True) for z in POSIX + picked]
    if ctx.quick:
        cases += [(z, False) for z in named[::3] if z not in picked]
    ctx.pmap(judge, cases, name='zones')
    ctx.coverage['rule'] = 'moments around all offset changes of every zone to the microsecond; saves around the last ones'
    ctx.coverage['zones'] = len(cases)
