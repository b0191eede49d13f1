"""C43: a failing index update is reported and harms nothing.

Every file system call on the index and its journal, and every listing of the
box directory, is made to fail during index, reindex and save, from the box
states of C15; what the command says is compared with what a run without fault
says, the box with its archives, and index / reindex are run afterwards."""
import errno
import os

from fw import ANYOP, Arm, C_DIR, C_STAT, M_COUNT, M_FAULT
import lib
from checks import c15

LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive enumeration of failing system calls (point x errno x once/persistent) on the index of the real indexing commands'
NOTE = ('Faults are on the index files and on reading the directory, not on reading archives (an archive that can not be read is a damaged one). '
        'What a save says when only the index can not be updated is not judged: the bead is stored, and the next index finds it.')

ERRNOS = (errno.EIO, errno.ENOSPC, errno.EACCES, errno.EROFS, errno.EMFILE)
LASTING = ANYOP & ~C_STAT


def setup(w):
    images = c15.setup(w)
    for im in images:
        world = lib.world_of(w, im)
        o = c15.run(w, world, im, Arm(M_COUNT, roots(world), ANYOP))
        im.points = o.count
        im.said = said(world, o)
        world = lib.world_of(w, im)
        o = c15.run(w, world, im, Arm(M_COUNT, (world.path('box'),), C_DIR))
        w.check(o.ok and said(world, o) == im.said, f'{im.name} fails', 'setup', outcome=o)
        im.listings = o.count
    return images


def roots(world):
    return tuple(os.path.join(world.path('box'), lib.INDEX + x) for x in ('', '-journal', '-wal', '-shm'))


def said(world, o):
    return (o.ok, o.out.replace(world.root, '<ROOT>'), o.err.replace(world.root, '<ROOT>'))


def judge(w, c):
    i, what, at, err, sticky = c
    im = w.ctx.images[i]
    world = lib.world_of(w, im)
    box = world.path('box')
    arm = Arm(M_FAULT, roots(world) if what == 'index' else (box,), ANYOP if what == 'index' else C_DIR,
              at=at, err=err, sticky=1 if sticky else 0, stickymask=sticky)
    o = c15.run(w, world, im, arm)
    label = f'{im.name}: {what} call {at} fails with {errno.errorcode[err]}{" for good" if sticky else ""}'
    w.count('evaluations')
    w.check(o.kind in ('ret', 'exit', 'exc'), f'{label}: ends in {o.kind}', 'died', outcome=o)
    if not o.fired:
        w.count('not_reached')
    told = said(world, o) != im.said
    w.count('reported' if told else 'not_reported')
    w.distinct('nontrivial', (im.name, what, at, err, bool(sticky), told))
    tree = lib.snap(box)
    if im.argv[0] == 'save' and o.ok:
        new = [f for f in lib.zips(box) if f not in [x.file for x in im.infos] + ['damaged.zip']]
        w.check(len(new) == 1, f'{label}: save succeeds but does not store', 'not-stored', outcome=o)
    truth = c15.truth_of(w, world, im)
    if im.argv[0] == 'box' and not told:
        lst = lib.listing(w, world)
        w.check(lst.value == truth, f'{label}: claims success, but the index is wrong', 'claims', got=lst.value, want=truth, outcome=o)
    elif not im.wreck:
        c15.search(w, world, im, label)
    for command in ('index', 'reindex')[im.wreck:]:
        lib.restore(box, tree)
        r = w.cli(world, 'box', command, clock=lib.T0)
        lst = lib.listing(w, world)
        w.check(r.ok and lst.value == truth, f'{label}: after {command} other beads are found than those in the box', f'{command}-recovers',
                found=lst.value, want=truth, outcome=r)
    w.sample({'fault': label, 'reported': told, 'out': o.out[-160:]})


def main(ctx):
    ctx.images = ctx.setup(setup)
    cases = []
    for i, im in enumerate(ctx.images):
        if ctx.quick and im.name in ('update index, nothing new', 'save, empty', 'reindex empty index'):
            continue
        for err in ERRNOS[:1] if ctx.quick else ERRNOS:
            for at in range(1, im.points + 3):
                cases.append((i, 'index', at, err, 0))
        for err in (errno.ENOSPC, errno.EACCES)[:1 if ctx.quick else 2]:
            cases += [(i, 'index', at, err, LASTING) for at in range(1, im.points + 3)]
        for at in range(1, im.listings + 2):
            for err in (errno.EACCES, errno.EIO, errno.EMFILE, errno.ENOENT, errno.ESTALE):
                cases.append((i, 'listing', at, err, 0))
    ctx.pmap(judge, cases, name='faults')
    ctx.coverage['rule'] = NOTE
    ctx.coverage['points'] = {im.name: (im.points, im.listings) for im in ctx.images}
