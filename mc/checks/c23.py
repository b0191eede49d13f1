"""C23: freshness colours follow their definition.

All small webs (names, versions, phantoms, input links, orders in time) through
the real `bead web load .. color save ..`, in every order of beads, compared
with the greatest fixpoint of the definition."""
import itertools

import webref
from webref import coloured, differences, run_jobs, web

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of all webs up to a number of beads in all orders on the real command line, against a fixpoint model of the definition'
NOTE = ('Quick: all webs of up to 4 beads (any names, phantoms, links, orders in time); thorough: of up to 5, and with stored chains of 6. Two versions frozen at '
        'the same moment are not judged.')
BATCH = 60


def judge(w, batch):
    jobs, want = [], []
    for case in batch:
        beads = made(case)
        g = web(dict(beads))
        e = coloured(g)
        jobs.append((beads, ['color', 'save', '@1', 'color', 'save', '@2']))
        want.append((g, e))
    for (beads, words), (g, e), (err, got) in zip(jobs, want, run_jobs(w, jobs)):
        w.count('evaluations')
        w.check(not err, f'colouring {beads} fails: {err}', 'fails')
        w.distinct('nontrivial', (frozenset(beads),))
        for n, x in zip(('coloured', 'coloured twice'), got):
            d = differences(e, x)
            w.check(not d, f'web {beads} is not {n} by definition: {d}', n, words=words)
        colours = {n.colour for n in e.values()}
        w.distinct('colours', tuple(sorted(colours)))
        if len(colours) == 4:
            w.sample({'beads': [repr(b) for b in beads], 'colours': {repr(r): n.colour for r, n in e.items()}})


def orders(g, full):
    """(web, order) of the stored beads: a permutation or None"""
    n = sum(g[1])
    yield g, None
    if n > 1:
        if full:
            for p in itertools.permutations(range(n)):
                if list(p) != sorted(p):
                    yield g, p
        else:
            yield g, tuple(range(n))[::-1]


def made(case):
    if case[0] == 'chain':
        beads = chain(*case[1:3])
        return beads[::-1] if case[3] else beads
    if case[0] == 'star':
        beads = star(*case[1:3])
        return beads[::-1] if case[3] else beads
    if case[0] == 'left':
        return [(r, n._replace(colour=case[2])) for r, n in webref.describe(case[1])]
    g, p = case
    beads = webref.describe(g)
    return [beads[i] for i in p] if p else beads


def chain(n, i):
    """beads made from each other one after the other, the i-th has a newer version"""
    def spec(j):
        return (f'n{j}', 'K', f'c{j}', webref.stamp(0, 0))
    beads = [((f'n{j}', f'c{j}'), webref.Node('K', webref.stamp(0, 0), webref.SUPERSEDED, frozenset([spec(j - 1)] if j else ()))) for j in range(n)]
    beads.append(((f'n{i}', 'new'), webref.Node('K', webref.stamp(1, 0), webref.SUPERSEDED, frozenset([spec(i - 1)] if i else ()))))
    return beads


def star(n, i):
    """beads with n inputs, the i-th of which has a newer version; n versions of one name, the first of them used"""
    def spec(j):
        return (f'n{j}', 'K', f'c{j}', webref.stamp(0, 0))
    no = frozenset()
    beads = [((f'n{j}', f'c{j}'), webref.Node('K', webref.stamp(0, 0), webref.SUPERSEDED, no)) for j in range(n)]
    beads.append(((f'n{i}', 'new'), webref.Node('K', webref.stamp(1, 0), webref.SUPERSEDED, no)))
    top = [('all', range(n)), ('none', ()), ('others', [j for j in range(n) if j != i]), ('only', [i])]
    beads += [((t, t), webref.Node('K', webref.stamp(2, 0), webref.SUPERSEDED, frozenset(spec(j) for j in js))) for t, js in top]
    stamp = [f'2021{1 + j // 600:02}01T{j // 60 % 10:02}{j % 60:02}00000000+0000' for j in range(n)]
    beads += [(('v', f'v{j}'), webref.Node('K', stamp[j], webref.SUPERSEDED, no)) for j in sorted(range(n), key=lambda j: j * 7919 % n)]
    for t, j in (('uses last', n - 1), ('uses other', i if i < n - 1 else 0)):
        beads.append(((t, t), webref.Node('K', webref.stamp(2, 0), webref.SUPERSEDED, frozenset([('v', 'K', f'v{j}', stamp[j])]))))
    return beads


def cases(ctx):
    for i in (0, 1, 9, 10, 31, 32, 63, 64, 99, 100, 127, 128, 254, 255, 256, 298, 299):
        yield 'star', 300, i, False
        yield 'star', 300, i, True
    for k in range(1, 5 if ctx.quick else 6):
        for g in webref.webs(k, 5, True, 'all'):
            yield from orders(g, sum(g[1]) <= 3 and k <= 4 if ctx.quick else k <= 4)
    # colours left over from an earlier colouring or a saved file do not matter
    for g in webref.webs(3, 3, True, 'all'):
        for c in (webref.UP_TO_DATE, webref.OUT_OF_DATE):
            yield 'left', g, c
    for n in (12, 40) if ctx.quick else (12, 40, 150):
        for i in range(n):
            yield 'chain', n, i, False
            yield 'chain', n, i, True
    if not ctx.quick:
        for g in webref.webs(6, 3, False, 'one'):
            if all(g[2][i] for i in range(1, 6)):
                yield g, None


def batches(seq, n):
    it = iter(seq)
    while True:
        b = list(itertools.islice(it, n))
        if not b:
            return
        yield b


def main(ctx):
    ctx.level = LEVEL
    ctx.pmap(judge, batches(cases(ctx), BATCH), 'webs')
    ctx.coverage['rule'] = NOTE
