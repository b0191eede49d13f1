"""C06: an interrupted save is all or nothing.

The real save command is killed before, and with torn writes inside, every
changing file system call (thorough: followed by a second save killed at every
point); a fresh process must then see all or nothing and saving must work."""
import os

from fw import Arm, M_COUNT, M_CRASH, MUTATING, C_SYNC, op_lines, snap
import lib
import scenes

LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive enumeration of crash points and torn writes of the real save command, recovery run after each'
NOTE = ('Crash model: the process dies between two system calls or inside a write (nothing, half, or all but one byte of it '
        'written); what was written before survives. Power loss with reordered writes is not modelled.')

VARIANTS = (0, 1, 2, 3)
MASK = MUTATING | C_SYNC


def setup(w):
    images = scenes.save_images(w)
    for im in images:
        world = lib.world_of(w, im)
        o = w.cli(world, *im.argv, '-w', world.ws, clock=lib.T0, arm=Arm(M_COUNT, (world.ws, world.path(im.box)), MASK))
        w.check(o.ok, f'{im.name}: save fails', 'setup', outcome=o)
        im.points = o.count
        im.writes = {n for n, op, _, _ in op_lines(o.log) if 'write' in op}
        im.log = [(op, os.path.relpath(p.split('->')[0], world.root)) for _, op, p, _ in op_lines(o.log)]
        if im.auto:
            # the box list is the subject of C09: start with the box known, and its directory missing or empty
            pass
    return images


def state_after(w, world, im, known, label, code, out):
    """known: {file: info tuple of the beads that must be there}; returns the tuples of the beads found"""
    box = world.path(im.box)
    for info in im.infos:
        p = os.path.join(box, info.file)
        w.check(os.path.exists(p) and open(p, 'rb').read() == info.data, f'{label}: an older archive is changed', 'old')
    files = lib.zips(box) if os.path.isdir(box) else []
    paths = [os.path.join(box, f) for f in files]
    lst, facts = lib.observe(w, world, paths)
    w.check(isinstance(lst, list), f'{label}: searching fails: {lst}', 'search-error')
    new = []
    for p in paths:
        verdict, got = facts[p]
        w.check(verdict == 'valid', f'{label}: {os.path.basename(p)} is an invalid archive', 'partial', error=got)
        if os.path.basename(p) not in [i.file for i in im.infos]:
            name, kind, cid, ts, inputs = got
            want = tuple(sorted((n, s['kind'], s['content_id'], s['freeze_time']) for n, s in im.inputs.items()))
            w.check(name == 'ws' and kind == im.kind and inputs == want, f'{label}: a bead with wrong metadata', 'meta', got=got)
            with open(p, 'rb') as f:
                w.check((code, out) == lib.code_and_output_of(f.read()), f'{label}: an incomplete archive under its final name', 'content')
            new.append((name, kind, cid, ts, 'home' if im.auto else 'box', inputs))
    old = [lib.info_tuple(i, 'box') for i in im.infos]
    got = list(lst)
    for t in old:
        w.check(t in got, f'{label}: an older bead is not found', 'old-lost', bead=t, listing=lst)
        got.remove(t)
    for t in got:
        w.check(t in new, f'{label}: shows a bead that was not saved completely', 'ghost', bead=t)
    w.check(len(got) == len(set(got)), f'{label}: a bead is shown twice', 'twice')
    return got, new


def save_again(w, world, im, label, code, out, clock, shown):
    o = w.cli(world, 'save', '-w', world.ws, clock=clock)
    w.check(o.ok, f'{label}: saving again fails', 'again', outcome=o)
    got, new = state_after(w, world, im, None, label + ', saved again', code, out)
    ts = lib.ts_of(clock // lib.NS)
    mine = [t for t in got if t[3][:15] == ts[:15]]
    w.check(len(mine) == 1, f'{label}: the bead saved again is not found', 'again-lost', listing=got)
    for t in shown:
        w.check(t in got, f'{label}: a bead shown after the crash is not found any more', 'again-old')


def case(w, c):
    i, crashes = c
    im = w.ctx.images[i]
    world = lib.world_of(w, im)
    box = world.path(im.box)
    ws0 = snap(world.ws)
    label = im.name
    clock = lib.T0
    shown = []
    for n, (at, variant) in enumerate(crashes):
        o = w.cli(world, *im.argv, '-w', world.ws, clock=clock, arm=Arm(M_CRASH, (world.ws, box), MASK, at=at, variant=variant))
        w.check(o.kind in ('crash', 'ret'), f'{label}: save ends in {o.kind}', 'kind', outcome=o)
        label += f' killed at {at}/{variant}' if o.kind == 'crash' else ' completed'
        w.check(snap(world.ws) == ws0, f'{label}: the workspace is changed', 'ws')
        before = shown
        shown, new = state_after(w, world, im, None, label, im.code, im.out)
        for t in before:
            w.check(t in shown, f'{label}: a bead shown earlier is not found any more', 'again-old')
        if o.kind == 'ret':
            w.check(o.ok and new, f'{label}: save fails', 'fails', outcome=o)
        clock += 100 * lib.NS
        w.count(o.kind)
        if n == 0:
            w.distinct('nontrivial', (im.name, crashes, len(shown), len(new), tuple(sorted(os.listdir(box) if os.path.isdir(box) else ()))))
    w.count('evaluations')
    w.count('shown' if shown else 'not_shown')
    save_again(w, world, im, label, im.code, im.out, clock, shown)
    w.sample({'crash': label, 'leftover': sorted(os.listdir(box)), 'shown': len(shown)})


def main(ctx):
    ctx.images = ctx.setup(setup)
    cases = []
    for i, im in enumerate(ctx.images):
        single = [(at, v) for at in range(1, im.points + 2) for v in VARIANTS if v == 0 or at in im.writes]
        cases += [(i, (c,)) for c in single]
        if not ctx.quick and im.name in ('indexed-empty', 'raw-empty'):
            cases += [(i, ((at, 0), (at2, 0))) for at in range(1, im.points + 2) for at2 in range(1, im.points + 4)]
    ctx.pmap(case, cases, name='crashes')
    ctx.coverage['rule'] = ('every changing file system call of save (sqlite included), killed before it and with 3 torn prefixes of each '
                            'write; thorough also every pair of crash points of two successive saves (small workspace)')
    ctx.coverage['points'] = {im.name: im.points for im in ctx.images}
