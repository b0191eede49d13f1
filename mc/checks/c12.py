"""C12: search returns exactly the matching beads.

All subsets of a pool of beads with ties, copies, renamed copies and time
zones, in raw, indexed and mixed boxes; all combinations of up to two
(thorough: three) conditions with every selector, compared with a brute force
evaluation of the documented meaning."""
import datetime
import itertools
import os

from fw import World
import crowd
import lib

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of box contents x queries on the real search, against a brute force oracle'
NOTE = ('Box contents: all subsets of a 6 bead pool in two boxes; queries: all combinations of up to 2 (thorough 3) conditions over a '
        'set of values at, between and beyond the stored ones.')

T = '20210301T120000000000+0000'
LATER = '20210301T120000000001+0000'


def pool(w):
    mk = lib.make_bead
    p1 = mk(w, 'n', 'KA', T)
    p2 = mk(w, 'n', 'KA', '20210301T140000000000+0200', out={'o': b'other'})
    p3 = mk(w, 'KA', 'KA', LATER, inputs={'i': p1, 'j': p2})
    copy = lib.Info(**p1.__dict__)
    copy.name, copy.file = 'm', 'm_20210301T120000000000+0000.zip'
    p5 = mk(w, 'n[1]', 'KB', '20200101T000000000000-1200', inputs={'i': p3})
    p6 = mk(w, 'N%', 'ka', '20210301T215959999999+1000', inputs={'\u00e9': p5})
    return [('box', p1), ('box', p2), ('box', p3), ('box2', copy), ('box2', p5), ('box2', p6)]


def conditions(infos, full):
    """[(method, argument)] of single conditions"""
    cids = {i.name: i.cid for _, i in infos}
    out = [('by_name', n) for n in ('n', 'm', 'n[1]', 'N%', 'N', 'KA')]
    out += [('by_kind', k) for k in ('KA', 'KB', 'ka', 'K', 'n')]
    out += [('by_content_id', c) for c in (infos[0][1].cid, infos[4][1].cid, infos[0][1].cid[:-1])]
    utc = datetime.timezone.utc
    far = datetime.timezone(datetime.timedelta(hours=-7))
    times = [T, datetime.datetime(2021, 3, 1, 5, 0, 0, 1, far), '20210301T115959999999+0000']
    if full:
        times += ['20200101T120000000000+0000', datetime.datetime(2020, 1, 1, 11, 59, 59, 999999, utc), '99991231T235959999999+0000',
                  '20210301T175959999999+0600']
    for m in ('at_time', 'newer_than', 'older_than', 'at_or_newer', 'at_or_older'):
        out += [(m, t) for t in times]
    return out


def us(t):
    if isinstance(t, str):
        return lib.micros(t)
    return (t - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)) // datetime.timedelta(microseconds=1)


def matches(info, cond):
    m, v = cond
    if m == 'by_name':
        return info.name == v
    if m == 'by_kind':
        return info.kind == v
    if m == 'by_content_id':
        return info.cid == v
    a, b = lib.micros(info.ts), us(v)
    return {'at_time': a == b, 'newer_than': a > b, 'older_than': a < b, 'at_or_newer': a >= b, 'at_or_older': a <= b}[m]


SELECTORS = [('all',), ('first',), ('oldest',), ('newest',), ('newer',), ('older',), ('newer', 0), ('newer', 1), ('newer', 2), ('older', 0),
             ('older', 1), ('older', 2)]


def wrong(got, sel, unique, tuples):
    """None or what is wrong with the result of a selector; tuples: [(info tuple, micros)] of the matches"""
    if unique:
        # one of each content id
        n = len({t[2] for t, _ in tuples})
    else:
        n = len(tuples)
    stamp = dict(tuples)
    if sel[0] == 'all':
        if got[0] != 'ok':
            return f'raised {got[1]}'
        res = got[1]
        if unique:
            ids = [t[2] for t in res]
            ok = sorted(ids) == sorted({t[2] for t, _ in tuples}) and all(t in stamp for t in res)
        else:
            ok = sorted(res) == sorted(t for t, _ in tuples)
        return None if ok else f'found {[t[0] + "@" + t[3] for t in res]}'
    k = {'first': 0, 'oldest': 0, 'newest': 0}.get(sel[0], sel[1] if len(sel) > 1 else 1)
    if k >= n:
        return None if got[0] == 'LookupError' else f'no such bead, but it gave {got}'
    if got[0] != 'ok':
        return f'raised {got}'
    t = got[1]
    if t not in stamp:
        return f'found {t}'
    if sel[0] == 'first':
        return None
    if unique:
        times = sorted({c[2]: s for c, s in tuples}.values())
    else:
        times = sorted(s for _, s in tuples)
    want = times[k] if sel[0] in ('oldest', 'newer') else times[-1 - k]
    return None if stamp[t] == want else f'gave {t[0]}@{t[3]}'


def _run(config, plan, singles):
    """execute the queries of the plan; [(query, problem)], number of evaluations, set of result sizes"""
    from bead.box import search
    from bead_cli.environment import Environment
    boxes = Environment.from_dir(config).get_boxes()
    problems, n, sizes = [], 0, set()
    for target, conds, unique, sels, tuples in plan:
        for sel in sels:
            q = search(boxes) if target is None else boxes[target].search()
            for m, v in conds:
                q = getattr(q, m)(v)
            if unique:
                q = q.unique()
            try:
                r = getattr(q, sel[0])(*sel[1:])
                got = ('ok', [lib.bead_tuple(b) for b in r] if sel[0] == 'all' else lib.bead_tuple(r))
            except LookupError as e:
                got = ('LookupError', str(e))
            except Exception as e:
                got = (type(e).__name__, str(e))
            n += 1
            p = wrong(got, sel, unique, tuples)
            if p:
                problems.append((target, conds, unique, sel, p))
                if len(problems) > 3:
                    return problems, n, sizes
        sizes.add(len(tuples))
    return problems, n, sizes


def case(w, c):
    subset, style, depth, chunk, chunks = c
    ctx = w.ctx
    infos = [ctx.pool[i] for i in subset]
    world = World(w.fresh())
    dirs = [('box', world.path('box')), ('box2', world.path('b x#2'))]
    for n, d in dirs:
        lib.put(d, *[i for b, i in infos if b == n])
    world.set_boxes(dirs)
    for n, _ in dirs:
        if style == 'indexed' or (style == 'mixed' and n == 'box2'):
            w.check(w.cli(world, 'box', 'index', '--box', n, clock=lib.T0).ok, 'index fails', 'setup')
    plan = []
    singles = conditions(ctx.pool, not ctx.quick)
    combos = [c for d in range(depth + 1) for c in itertools.combinations(singles, d)]
    if depth > 2:
        combos = [c for c in combos if len(c) > 2]
    for conds in combos[chunk::chunks]:
        for target in (None, 0, 1) if len(conds) < 2 or not ctx.quick else (None,):
            box = (None, 'box', 'box2')[0 if target is None else target + 1]
            tuples = [(lib.info_tuple(i, b), lib.micros(i.ts)) for b, i in infos if (box is None or b == box) and all(matches(i, x) for x in conds)]
            for unique in (False, True):
                sels = SELECTORS if len(conds) < 2 or (not ctx.quick and depth < 3) else SELECTORS[:1]
                plan.append((target, conds, unique, sels, tuples))
    o = w.fork(_run, world.config, plan, singles, cwd=world.home, env=dict(world.env), timeout=140)
    w.check(o.kind == 'ret', f'searching ends in {o.kind}', 'died', outcome=o)
    problems, n, sizes = o.value
    w.count('evaluations', n)
    w.count('queries', len(plan))
    for s in sizes:
        w.distinct('nontrivial', (subset, style, chunk, s))
    for target, conds, unique, sel, p in problems:
        names = ' '.join(f'{m}({v})' for m, v in conds)
        w.violation(f'{style} box{"es" if target is None else " " + str(target + 1)} holding {[i.file for _, i in infos]}: '
                    f'{names}{" unique" if unique else ""} {sel}: {p}', f'{style}:{sel[0]}:{"/".join(sorted({m for m, _ in conds}))}')
    if conds:
        w.sample({'box': [i.file for _, i in infos], 'style': style, 'query': repr(conds), 'matches': len(tuples)})


def crowd_queries(c, raw):
    """[(conditions, selectors)] on a box of many beads"""
    nth = [(m, k) for m in ('newer', 'older') for k in (1, 99, 100, 255, 256, 499, 500, 511, 512, len(c.v) - 1, len(c.v), 1023, 1024, len(c.all) - 1, len(c.all))]
    if raw:
        nth = nth[5::6]
    for s in SELECTORS[:6] + nth:
        yield (), (s,)
        yield (('by_name', 'v'),), (s,)
    yield (('by_kind', 'KV'),), SELECTORS[:4]
    for k in range(0, len(c.v), 211 if raw else 29):
        for s in SELECTORS[:4]:
            yield (('by_name', 'v'), ('at_or_older', c.v[k].ts)), (s,)
            yield (('newer_than', c.v[k].ts),), (s,)
    for i in c.all[::211 if raw else 97]:
        yield (('by_content_id', i.cid),), SELECTORS[:1]
        yield (('by_name', i.name), ('by_content_id', i.cid)), SELECTORS[:1]


def crowd_case(w, case):
    style, chunk, chunks = case
    c = w.ctx.crowd
    world = World(w.fresh())
    dirs = [('box', world.path('box')), ('box2', world.path('box2'))]
    parts = [('box', i) for i in c.v] + [('box2', i) for i in c.all[len(c.v):]]
    for n, d in dirs:
        lib.put(d, *[i for b, i in parts if b == n])
    world.set_boxes(dirs)
    for n, _ in dirs:
        if style == 'indexed' or (style == 'mixed' and n == 'box2'):
            w.check(w.cli(world, 'box', 'index', '--box', n, clock=lib.T0).ok, 'index fails', 'setup')
    queries = list(crowd_queries(c, style == 'raw'))
    if style == 'indexed':
        queries += [((('by_content_id', i.cid),), SELECTORS[:1]) for i in c.all]
        queries += [((('by_name', i.name), ('by_kind', i.kind)), (('newest',), ('oldest',))) for i in c.old]
    plan = []
    for conds, sels in queries[chunk::chunks]:
        tuples = [(lib.info_tuple(i, b), lib.micros(i.ts)) for b, i in parts if all(matches(i, x) for x in conds)]
        plan.append((None, conds, False, list(sels), tuples))
    o = w.fork(_run, world.config, plan, None, cwd=world.home, env=dict(world.env), timeout=400)
    w.check(o.kind == 'ret', f'searching among {len(parts)} beads ends in {o.kind}', 'died', outcome=o)
    problems, n, sizes = o.value
    w.count('evaluations', n)
    w.count('queries', len(plan))
    for target, conds, unique, sel, p in problems:
        names = ' '.join(f'{m}({v})' for m, v in conds)
        w.violation(f'{style} boxes holding {len(parts)} beads, {len(c.v)} of them versions of one: {names} {sel}: {p[:300]}', f'crowd:{style}:{sel[0]}')


def main(ctx):
    ctx.pool = ctx.setup(pool)
    ctx.crowd = ctx.setup(crowd.make)
    subsets = [s for k in range(len(ctx.pool) + 1) for s in itertools.combinations(range(len(ctx.pool)), k)]
    cases = [(s, style, 2, 0, 1) for s in subsets for style in ('raw', 'indexed', 'mixed')]
    if not ctx.quick:
        cases = [(s, style, 2, k, 6) for s in subsets for style in ('raw', 'indexed', 'mixed') for k in range(6)]
        full = tuple(range(len(ctx.pool)))
        cases += [(full, style, 3, k, 64) for style in ('raw', 'indexed', 'mixed') for k in range(64)]
    ctx.pmap(crowd_case, [(s, k, {'raw': 8, 'mixed': 4, 'indexed': 2}[s]) for s in ('raw', 'mixed', 'indexed') for k in range({'raw': 8, 'mixed': 4, 'indexed': 2}[s])], name='crowd')
    ctx.pmap(case, cases, name='queries')
    ctx.coverage['rule'] = ('all subsets of a 6 bead pool (ties across time zones, copies, renamed copies, pattern characters) in two raw, indexed or '
                            'mixed boxes x all combinations of up to 2 conditions x selectors; thorough: also all triples on the full pool')
    ctx.coverage['conditions'] = len(conditions(ctx.pool, not ctx.quick))
    ctx.coverage['subsets'] = len(subsets)
