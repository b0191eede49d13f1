#!/usr/bin/env python3
"""Launcher:  python3 mc/run.py C01 [--tier quick|thorough] [--replay FILE]

Builds the LD_PRELOAD seam, gives the check a scratch directory of its own and
a fixed environment, runs it and removes the scratch directory.
MC_REPO (default /repo) names the source tree under test.
"""
import os
import shutil
import signal
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def mkscratch():
    for parent in ('/dev/shm', '/tmp'):
        try:
            st = os.statvfs(parent)
            if st.f_bavail * st.f_frsize > 2 << 30:
                return tempfile.mkdtemp(prefix='mc-', dir=parent)
        except OSError:
            pass
    return tempfile.mkdtemp(prefix='mc-')


def wipe(path):
    for root, dirs, _files in os.walk(path):
        for d in dirs:
            p = os.path.join(root, d)
            if not os.path.islink(p):
                try:
                    os.chmod(p, 0o700)
                except OSError:
                    pass
    shutil.rmtree(path, ignore_errors=True)


def main():
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for i, a in enumerate(args):
        if a.startswith('--tier='):
            tier = a.split('=', 1)[1]
        elif a == '--tier':
            tier = args[i + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    scratch = mkscratch()
    build = tempfile.mkdtemp(prefix='mcb-')
    os.chmod(build, 0o755)
    proc = None

    def stop(signum, _frame):
        if proc:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except OSError:
                pass
        wipe(scratch)
        wipe(build)
        os._exit(128 + signum)

    signal.signal(signal.SIGTERM, stop)
    signal.signal(signal.SIGINT, stop)
    try:
        so = os.path.join(build, 'shim.so')
        subprocess.run(
            ['gcc', '-O1', '-w', '-shared', '-fPIC', '-o', so, os.path.join(HERE, 'shim.c'), '-ldl'],
            check=True)
        os.chmod(so, 0o755)
        os.chmod(scratch, 0o755)
        py = '/opt/venv/bin/python'
        if not os.path.exists(py):
            py = sys.executable
        env = {
            'PATH': os.environ.get('PATH', '/usr/bin:/bin'),
            'HOME': scratch,
            'LC_ALL': 'C.UTF-8', 'LANG': 'C.UTF-8', 'LANGUAGE': 'C', 'TZ': 'UTC',
            'PYTHONHASHSEED': '0',
            'PYTHONPYCACHEPREFIX': os.path.join(build, 'pyc'),
            'PYTHONNOUSERSITE': '1',
            'PYTHONUNBUFFERED': '1',
            'COLUMNS': '80',
            'LD_PRELOAD': so,
            'MC_SHIM': so,
            'MC_SCRATCH': scratch,
            'MC_VERIF': VERIF,
            'MC_REPO': os.environ.get('MC_REPO', '/repo'),
            'VERIF_TIER': tier,
            'VERIF_SEED': os.environ.get('VERIF_SEED', '1'),
        }
        for k in ('MC_WORKERS', 'MC_DEBUG', 'MC_OUT'):
            if k in os.environ:
                env[k] = os.environ[k]
        proc = subprocess.Popen(
            [py, '-s', os.path.join(HERE, 'main.py')] + args,
            env=env, start_new_session=True)
        rc = proc.wait()
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except OSError:
            pass
    finally:
        wipe(scratch)
        wipe(build)
    sys.exit(rc if rc in (0, 1) else 2)


if __name__ == '__main__':
    main()
