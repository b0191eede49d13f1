"""C24: web filters keep exactly the connected computations.

All small webs x all sets of sources and sinks, heads, and sequences of these
with colouring, through the real `bead web`, compared with set comprehensions."""
import itertools

import webref
from webref import Unjudged, differences, run_jobs, web, words_of
from checks.c23 import batches, chain, star

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of webs x source/sink sets and of short filter sequences on the real command line, against a set-based reference model'
NOTE = ('Names that are kept but have no link to another kept name may stay or go (their links are gone either way). Quick: all webs of up to 3 beads with all '
        'filters and all of 4 (one order in time) with single-name filters; thorough: all webs of 4 with all filters and of 5 with single-name filters.')


def subsets(names):
    for k in range(len(names) + 1):
        yield from itertools.combinations(names, k)


def judge(w, batch):
    jobs, wants = [], []
    for beads, seqs in batch:
        g = web(dict(beads))
        words, want = [], []
        for n, steps in enumerate(seqs):
            try:
                if len(steps) == 1 and isinstance(steps[0], tuple):
                    e, loose = webref.filtered(g, set(steps[0][1]), set(steps[0][2])) if steps[0][1] or steps[0][2] else (g, set())
                else:
                    e, loose = webref.apply(g, steps), set()
            except Unjudged:
                w.count('unjudged')
                continue
            words += (['load', '@0'] if want else []) + words_of(steps) + ['save', f'@{n + 1}']
            want.append((steps, e, loose))
        jobs.append((beads, ['save', '@0'] + words))
        wants.append((g, want))
    for (beads, _words), (g, want), (err, got) in zip(jobs, wants, run_jobs(w, jobs)):
        w.check(not err, f'filtering {beads} fails: {err}', 'fails')
        d = differences(g, got[0])
        w.check(not d, f'web {beads} is saved differently: {d}', 'saved')
        got = [x for x, word in zip(got, [x for x in _words if x[0] == '@']) if word != '@0']
        for (steps, e, loose), x in zip(want, got):
            w.count('evaluations')
            if x is not None and loose:
                # a name without links left may be dropped or kept, with all its versions
                seen = {r[0] for r in x[0]} & loose
                keep = {r for r in g if r[0] in seen}
                e = {**e, **webref.restricted(g, keep, set())}
            d = differences(e, x)
            w.check(not d, f'{steps} of web {beads}: {d}', f'steps {[s if isinstance(s, str) else "/" for s in steps]}')
            if 0 < len(e) < len(g):
                w.distinct('nontrivial', (tuple(beads), tuple(steps)))
                w.sample({'beads': [repr(b) for b in beads], 'steps': repr(steps), 'kept': sorted(map(repr, e))})


def filters(names, every):
    n = list(names) + ['zz']
    if every:
        for a in subsets(names):
            for b in subsets(names):
                yield [('/', a, b)]
        yield [('/', ('zz',), ())]
        yield [('/', (), ('zz',))]
        yield [('/', ('zz', names[0]), ('zz', names[-1]))]
        yield [('/', ('zz',), ('zz',))]
    else:
        for a in n:
            yield [('/', (a,), ())]
            yield [('/', (), (a,))]
            for b in n:
                yield [('/', (a,), (b,))]
    yield ['heads']


def sequences(names, length):
    steps = ['color', 'heads', ('/', (names[0],), ()), ('/', (), (names[-1],)), ('/', (names[0],), (names[-1],))]
    for k in range(2, length + 1):
        yield from (list(x) for x in itertools.product(steps, repeat=k))


def cases(ctx):
    # many names: in a row, or around one
    for beads, names in ((chain(300, 5), ['n0', 'n1', 'n4', 'n5', 'n6', 'n100', 'n150', 'n255', 'n256', 'n298', 'n299']), (star(300, 7), ['n0', 'n7', 'n299', 'all', 'none', 'only', 'v', 'uses last'])):
        for order in (beads, beads[::-1]):
            for a in names:
                yield order, [[('/', (a,), ())], [('/', (), (a,))]]
                yield order, [[('/', (a,), (b,))] for b in names[::3]]
            yield order, [[('/', tuple(names[::2]), tuple(names[1::2]))], ['heads']]
    for k in range(1, 4 if ctx.quick else 5):
        for g in webref.webs(k, 4, True, 'all'):
            beads = webref.describe(g)
            names = sorted({r[0] for r in web(dict(beads))})
            yield beads, list(filters(names, True))
            if k <= 3:
                yield beads[::-1], list(filters(names, False))
                yield beads, list(sequences(names, 2 if ctx.quick else 3))
    k = 4 if ctx.quick else 5
    for g in webref.webs(k, 5, True, 'one'):
        beads = webref.describe(g)
        yield beads, list(filters(sorted({r[0] for r in web(dict(beads))}), False))


def main(ctx):
    ctx.level = LEVEL
    ctx.pmap(judge, batches(cases(ctx), 4 if ctx.quick else 20), 'webs')
    ctx.coverage['rule'] = NOTE
