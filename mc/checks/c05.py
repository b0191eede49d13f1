"""C05: a save that fails leaves no archive behind.

One failing file system call at every point of `bead save`, with every errno of
a set, once or from there on, in every scenario; afterwards the box directory,
the listing of a fresh process and the workspace are compared."""
import errno
import os

from fw import (ALLOCATING, ANYOP, Arm, M_COUNT, M_FAULT, diff, op_lines, snap)
import lib
import scenes

LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive enumeration of failing system calls of the real save command (errno x point x once/persistent)'
NOTE = ('Every file system call below the workspace, the box directory and the home directory is made to fail with every errno of the set; '
        'one failing call (or all calls of a class from one on) per execution, not two unrelated ones.')

ERRNOS = (errno.ENOSPC, errno.EIO, errno.EACCES, errno.ENOENT)
STICKY = ((errno.ENOSPC, ALLOCATING), (errno.EIO, ANYOP), (errno.EACCES, ANYOP), (errno.EROFS, ALLOCATING))


def roots(world, im, config):
    # a vanished box list is no failure but an empty box list
    return (world.ws, world.path(im.box)) + ((world.config,) if config else ())


def setup(w):
    images = scenes.save_images(w)
    for im in images:
        world = lib.world_of(w, im)
        o = w.cli(world, *im.argv, '-w', world.ws, clock=lib.T0, arm=Arm(M_COUNT, roots(world, im, False), ANYOP))
        im.points2 = o.count
        world = lib.world_of(w, im)
        o = w.cli(world, *im.argv, '-w', world.ws, clock=lib.T0, arm=Arm(M_COUNT, roots(world, im, True), ANYOP))
        w.check(o.ok, f'{im.name}: save fails', 'setup', outcome=o)
        im.points = o.count
        im.ops = {}
        for _, op, path, _ in op_lines(o.log):
            im.ops[op] = im.ops.get(op, 0) + 1
        w.check(judge_success(w, world, im, 'no fault'), 'no bead is saved', 'setup')
    return images


def judge_success(w, world, im, label):
    box = world.path(im.box)
    new = [f for f in lib.zips(box) if f not in [i.file for i in im.infos]]
    w.check(len(new) == 1, f'{label}: save succeeded but there are {len(new)} new archives', 'success-count', files=new)
    path = os.path.join(box, new[0])
    _, facts = lib.observe(w, world, [path])
    verdict, got = facts[path]
    w.check(verdict == 'valid', f'{label}: save succeeded with an invalid archive ({got})', 'success-invalid')
    name, kind, cid, ts, inputs = got
    want = tuple(sorted((n, s['kind'], s['content_id'], s['freeze_time']) for n, s in im.inputs.items()))
    w.check(name == 'ws' and kind == im.kind and inputs == want, f'{label}: the saved archive has wrong metadata', 'success-meta', got=got)
    with open(path, 'rb') as f:
        code, out = lib.code_and_output_of(f.read())
    w.check(code == im.code and out == im.out, f'{label}: the saved archive is incomplete', 'success-content',
            code=sorted(code), out=sorted(out))
    return True


def case(w, c):
    i, at, err, sticky, variant = c
    im = w.ctx.images[i]
    world = lib.world_of(w, im)
    box = world.path(im.box)
    ws0 = snap(world.ws)
    arm = Arm(M_FAULT, roots(world, im, err != errno.ENOENT), ANYOP, at=at, err=err, variant=variant, sticky=1 if sticky else 0, stickymask=sticky)
    o = w.cli(world, *im.argv, '-w', world.ws, clock=lib.T0, arm=arm)
    label = f'{im.name}: call {at} fails with {errno.errorcode[err]}{" for good" if sticky else ""}'
    w.count('evaluations')
    if not o.fired and o.kind not in ('crash',):
        w.count('not_reached')
    w.check(o.kind in ('ret', 'exit', 'exc'), f'{label}: save ends in {o.kind}', f'died:{o.kind}', outcome=o)
    w.distinct('nontrivial', (im.name, at, err, sticky, o.kind, o.exc))
    if os.path.isdir(box):
        for info in im.infos:
            p = os.path.join(box, info.file)
            w.check(os.path.exists(p) and open(p, 'rb').read() == info.data, f'{label}: an older archive is changed', 'old', outcome=o)
    ws1 = snap(world.ws)
    w.check(ws0 == ws1, f'{label}: the workspace is changed', 'ws', diff=diff(ws0, ws1), outcome=o)
    if o.ok:
        w.count('succeeded')
        judge_success(w, world, im, label)
    else:
        w.count('failed')
        new = [f for f in lib.zips(box) if f not in [i.file for i in im.infos]] if os.path.isdir(box) else []
        w.check(not new, f'{label}: save failed but left {new}', 'left', outcome=o)
        lst, _ = lib.observe(w, world)
        want = sorted(lib.info_tuple(i, 'box') for i in im.infos)
        w.check(lst == want, f'{label}: save failed but the box shows other beads', 'listing', outcome=o, got=lst)
    w.sample({'fault': label, 'outcome': o.kind, 'message': (o.err or o.message)[-160:]})


def main(ctx):
    ctx.images = ctx.setup(setup)
    cases = []
    for i, im in enumerate(ctx.images):
        for at in range(1, im.points + 4):
            for err in ERRNOS if not ctx.quick else (errno.EIO, errno.ENOENT):
                if err != errno.ENOENT or at < im.points2 + 4:
                    cases.append((i, at, err, 0, 0))
            for err, mask in STICKY if not ctx.quick else STICKY[:2]:
                cases.append((i, at, err, mask, 0))
            if not ctx.quick:
                cases.append((i, at, errno.ENOSPC, ALLOCATING, 1))
                for err in (errno.EMFILE, errno.EINTR, errno.ESTALE, errno.EDQUOT, errno.EBUSY, errno.ELOOP):
                    cases.append((i, at, err, 0, 0))
                cases.append((i, at, errno.ESTALE, ANYOP, 0))
                cases.append((i, at, errno.EMFILE, ANYOP, 0))
    ctx.pmap(case, cases, name='faults')
    ctx.coverage['rule'] = ('every file system call of `bead save` fails with EIO and ENOENT (thorough: 10 errno values); from it on all allocating '
                            'calls with ENOSPC or all calls with EIO (thorough: more, and short writes), in each of the scenarios')
    ctx.coverage['points'] = {im.name: im.points for im in ctx.images}
    ctx.coverage['operations'] = {im.name: im.ops for im in ctx.images}
