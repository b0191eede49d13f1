"""Runs one check inside the environment prepared by run.py."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ['MC_REPO'])


def main():
    args = [a for a in sys.argv[1:]]
    replay = None
    pid = None
    i = 0
    while i < len(args):
        a = args[i]
        if a == '--replay':
            replay = args[i + 1]
            i += 1
        elif a.startswith('--replay='):
            replay = a.split('=', 1)[1]
        elif a == '--tier':
            i += 1
        elif not a.startswith('-'):
            pid = a
        i += 1
    import fw
    fw.preload()
    ctx = fw.Ctx(pid, replay)
    try:
        module = importlib.import_module('checks.' + pid.lower())
        ctx.level = module.LEVEL
        module.main(ctx)
        rc = ctx.finish()
    except fw.Stop:
        rc = ctx.finish()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


main()
