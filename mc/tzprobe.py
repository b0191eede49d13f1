"""Runs in a new process per time zone: what the code under test makes of moments there."""
import ctypes
import json
import os
import pickle
import sys
import time
import traceback

sys.path.insert(0, os.environ['MC_REPO'])
shim = ctypes.CDLL(os.environ['MC_SHIM'])
shim.mc_clock.argtypes = [ctypes.c_int, ctypes.c_longlong, ctypes.c_longlong]
shim.mc_clock.restype = None
shim.mc_clock_now.restype = ctypes.c_longlong


def forked(us, fn, *args):
    """fn in a child process at that moment -> (kind, value, moment of the end)"""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        err = os.memfd_create('err')
        os.dup2(err, 2)
        sys.stderr = open(2, 'w', closefd=False)
        sys.stdout = open(1, 'w', closefd=False)
        shim.mc_clock(1, us * 1000, 1000)
        try:
            try:
                res = ('ret', fn(*args))
            except SystemExit as e:
                res = ('exit', e.code)
            except BaseException as e:
                res = ('exc', f'{type(e).__name__}: {e} {traceback.format_exc()[-600:]}')
            sys.stderr.flush()
            end = shim.mc_clock_now() // 1000
            res = res + (end, os.pread(err, 2000, 0).decode('utf-8', 'replace'))
            with os.fdopen(wr, 'wb') as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ('died', None, 0, '')


def look(config):
    from bead.box import search
    from bead_cli.environment import Environment
    boxes = Environment.from_dir(config).get_boxes()
    out = {}
    for b in boxes:
        beads = search([b]).all()
        out[b.name] = ([x.freeze_time_str for x in sorted(beads, key=lambda x: x.freeze_time)], search([b]).newest().freeze_time_str)
    return out


def validate(path):
    from bead.ziparchive import ZipArchive
    a = ZipArchive(path)
    a.validate()
    return a.freeze_time_str


def main():
    job = json.load(sys.stdin)
    from bead.tech.timestamp import time_from_timestamp, timestamp
    from datetime import datetime, timedelta, timezone
    epoch = datetime(1970, 1, 1, tzinfo=timezone.utc)
    out = {'moments': [], 'saves': [], 'problems': []}
    for us in job['moments']:
        shim.mc_clock(1, us * 1000, 1000)
        ts = timestamp()
        end = shim.mc_clock_now() // 1000
        try:
            back = (time_from_timestamp(ts) - epoch) // timedelta(microseconds=1)
        except Exception as e:
            back = f'{type(e).__name__}: {e}'
        out['moments'].append((us, end, ts, back))
    shim.mc_clock(0, 0, 0)
    if job['saves']:
        from bead_cli.main import run
        config, ws = job['config'], job['ws']
        for us in job['saves']:
            for box in job['boxes']:
                before = set(os.listdir(box[1]))
                kind, value, end, err = forked(us, run, config, ['save', box[0], '-w', ws])
                new = sorted(f for f in set(os.listdir(box[1])) - before if f.endswith('.zip'))
                entry = {'at': us, 'end': end, 'box': box[0], 'save': (kind, value, err), 'new': new}
                if len(new) == 1:
                    # right afterwards, possibly by a much quicker computer
                    entry['valid'] = forked(end, validate, os.path.join(box[1], new[0]))[:2]
                    entry['look'] = forked(end, look, config)[:2]
                out['saves'].append(entry)
    json.dump(out, sys.stdout)


if __name__ == '__main__':
    main()
