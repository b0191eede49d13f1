"""C22: the web graph shows exactly the stored beads and their inputs.

All small webs, with references under other names and renamed copies, in all
distributions over two boxes (one indexed or not), through the real boxes and
`bead web`; the saved graphs and the edges made from them are compared with
the reference graph, and a saved graph with what loading and saving it gives."""
import itertools
import os

import crowd
import fw
import lib
import webref
from lib import Info
from webref import Node, web
from checks.c23 import batches

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of webs x distributions over boxes x index states through real archives and the command line, against a reference graph'
NOTE = ('Webs of up to 3 beads (thorough: 4) over up to 3 names, phantoms included, references by the name, by an unused name and by the name of another bead, '
        'renamed copies, boxes: all placements of every bead in one or both of two boxes, none or one of them indexed.')


def template(w):
    return lib.make_bead(w, 'tt', 'K', '20200101T000000000000+0000')


class Pool:
    """archives by what they contain"""

    def __init__(self, base):
        self.base, self.made = base, {}

    def bead(self, name, kind, ts, inputs):
        """inputs: sorted tuple of (nick, kind, cid, ts)"""
        key = (kind, ts, inputs)
        if key not in self.made:
            self.made[key] = lib.forge(self.base, meta={
                'kind': kind, 'freeze_time': ts,
                'inputs': {n: {'kind': k, 'content_id': c, 'freeze_time': t} for n, k, c, t in inputs}})
        i = self.made[key]
        return Info(name=name, kind=kind, ts=ts, file=f'{name}_{ts}.zip', data=i.data, cid=i.cid, inputs=inputs)


POOL = {}


def build(ctx, case):
    """-> [Info] stored beads, in topological order"""
    (pat, flags, ins, ranks), variant = case[:2]
    pool = POOL.setdefault('pool', Pool(ctx.base))
    infos, specs = [], []
    for i in range(len(pat)):
        name, kind, ts = webref.NAMES[pat[i]], f'K{webref.NAMES[pat[i]]}', webref.stamp(ranks[i], i)
        refs = []
        for j in ins[i]:
            nick = specs[j][0]
            if variant and variant[0] == 'nick' and variant[1:3] == (i, j):
                nick = variant[3]
            refs.append((nick,) + specs[j][1:])
        if flags[i]:
            b = pool.bead(name, kind, ts, tuple(sorted(refs)))
            infos.append(b)
            specs.append((name, kind, b.cid, ts))
        else:
            specs.append((name, kind, 'phantom%d' % i, ts))
    if variant and variant[0] == 'copy':
        i = infos[variant[1]]
        infos.append(Info(**{**i.__dict__, 'name': variant[2], 'file': f'{variant[2]}_{i.ts}.zip'}))
    return infos


def expected(infos):
    return web({(i.name, i.cid): Node(i.kind, i.ts, webref.SUPERSEDED, frozenset(i.inputs)) for i in infos})


def _index(jobs):
    for config, boxes in jobs:
        for b in boxes:
            r = fw.run_cli(config, ['box', 'index', '--box', b])
            if r:
                raise Exception(f'box index: {r}')


def _webs(jobs):
    from bead_cli.web.io import read_beads
    from bead_cli.web.sketch import Sketch
    out = []
    for config, d in jobs:
        f = [os.path.join(d, f'{x}.web') for x in range(6)]
        err = webref._run(config, ['save', f[0], 'load', f[0], 'save', f[1], 'color', 'save', f[2], 'load', f[2], 'save', f[3],
                                   'heads', 'save', f[4], 'load', f[4], 'save', f[5]])
        if err:
            out.append((err, None, None))
            continue
        graphs = []
        for p in f:
            beads = read_beads(p)
            graphs.append((webref.normal(beads), {(str(b.name), b.content_id): b.box_name for b in beads}))
        edges = sorted(((str(e.src.name), e.src.content_id), (str(e.dest.name), e.dest.content_id), str(e.label)) for e in Sketch.from_file(f[0]).edges)
        out.append((None, graphs, edges))
    return out


def judge(w, batch):
    root = w.fresh()
    index, jobs, todo = [], [], []
    for n, case in enumerate(batch):
        infos = build(w.ctx, case)
        if len({i.file for i in infos}) < len(infos):
            continue        # the copy would have the file name of another bead
        where, indexed = case[2], case[3]
        world = fw.World(os.path.join(root, str(n)))
        boxes = [('one', world.path('b1')), ('two', world.path('b2'))]
        for _, b in boxes:
            os.makedirs(b)
        for k, i in enumerate(infos):
            at = where[min(k, len(where) - 1)] if where else 1
            for bit in (0, 1):
                if at & (1 << bit):
                    lib.put(boxes[bit][1], i)
        world.set_boxes(boxes)
        if indexed:
            index.append((world.config, [indexed]))
        jobs.append((world.config, world.home))
        todo.append((case, infos))
    if index:
        o = w.fork(_index, index)
        w.check(o.kind == 'ret', 'indexing fails', 'index', outcome=o)
    o = w.fork(_webs, jobs, env={'COLUMNS': '80', 'HOME': root})
    w.check(o.kind == 'ret', f'bead web ends in {o.kind}', 'died', outcome=o)
    for (case, infos), (err, graphs, edges) in zip(todo, o.value):
        w.count('evaluations')
        what = f'beads {infos} with inputs {[i.inputs for i in infos]} in boxes {case[2]}'
        w.check(not err, f'web fails for {what}: {err}', 'fails')
        g = expected(infos)
        d = webref.differences(g, graphs[0][0])
        w.check(not d, f'web of {what}: {d}', 'graph', case=case)
        e = sorted(webref.edges(g))
        w.check(e == edges, f'edges of {what}: expected {e}, got {edges}', 'edges')
        places = dict(zip([(i.name, i.cid) for i in infos], [case[2][min(k, len(case[2]) - 1)] if case[2] else 1 for k in range(len(infos))]))
        for ref, box in graphs[0][1].items():
            ok = {1: ('one',), 2: ('two',), 3: ('one', 'two')}[places[ref]] if ref in places else ('',)
            w.check(box in ok, f'{ref} of {what} is said to be in box {box!r}', 'box')
        for a, b, name in ((0, 1, 'the graph'), (2, 3, 'the coloured graph'), (4, 5, 'the heads')):
            w.check(graphs[a] == graphs[b], f'{name} of {what} changes when saved and loaded: {webref.differences(graphs[a][0][0], graphs[b][0])}', f'reload {name}')
        if len(g) > 1:
            w.distinct('nontrivial', repr(case))
            w.sample({'beads': [repr(i) for i in infos], 'boxes': case[2], 'edges': e})


def variants(g):
    pat, flags, ins, _ = g
    yield None
    top = max(pat)
    for i, xs in enumerate(ins):
        for j in xs:
            taken = {pat[k] for k in xs}
            for n in [top + 1] + [n for n in range(top + 1) if n not in taken]:
                yield ('nick', i, j, webref.NAMES[n])
    stored = [i for i in range(len(pat)) if flags[i]]
    for s in range(len(stored)):
        for n in [top + 1] + [n for n in range(top + 1) if n != pat[stored[s]]]:
            yield ('copy', s, webref.NAMES[n])


def cases(ctx):
    full = not ctx.quick
    for k in (1, 2, 3, 4) if full else (1, 2, 3):
        for g in webref.webs(k, 3, True, 'all' if k < 3 or (full and k < 4) else 'one'):
            n = sum(g[1])
            vs = list(variants(g)) if k < 4 else [None]
            for v in vs:
                m = n + (v is not None and v[0] == 'copy')
                if k <= 2 or (full and k == 3):
                    places = list(itertools.product((1, 2, 3), repeat=m))
                elif v is None and k == 3:
                    places = list(itertools.product((1, 2, 3), repeat=m))
                else:
                    places = [(1,) * m, (3,) * m, (1, 2, 3, 1, 2)[:m]]
                for p in places:
                    for indexed in (None, 'one') if v is None or full else (None,):
                        yield g, v, p, indexed


def crowd_case(w, indexed):
    """a web of many beads, one of them with many inputs, one name with many versions"""
    c = w.ctx.crowd
    infos = [Info(**{**i.__dict__, 'inputs': tuple(sorted((n, s['kind'], s['content_id'], s['freeze_time']) for n, s in i.inputs.items()))}) for i in c.all[5:]]
    world = fw.World(w.fresh())
    boxes = [('one', world.path('b1')), ('two', world.path('b2'))]
    for n, i in enumerate(infos):
        lib.put(boxes[n % 2][1], i)
    world.set_boxes(boxes)
    if indexed:
        o = w.fork(_index, [(world.config, [b for b, _ in boxes])], timeout=100)
        w.check(o.kind == 'ret', 'indexing fails', 'index', outcome=o)
    o = w.fork(_webs, [(world.config, world.home)], env={'COLUMNS': '80', 'HOME': world.root}, timeout=200)
    w.check(o.kind == 'ret', f'bead web of {len(infos)} beads ends in {o.kind}', 'died', outcome=o)
    (err, graphs, edges), = o.value
    w.check(not err, f'web of {len(infos)} beads fails: {err}', 'fails')
    g = expected(infos)
    d = webref.differences(g, graphs[0][0])
    w.check(not d, f'web of {len(infos)} beads: {str(d)[:500]}', 'graph')
    e = sorted(webref.edges(g))
    w.check(e == edges, f'edges of the web of {len(infos)} beads: {len(edges)} instead of {len(e)}', 'edges')
    for a, b, name in ((0, 1, 'the graph'), (2, 3, 'the coloured graph'), (4, 5, 'the heads')):
        w.check(graphs[a] == graphs[b], f'{name} of {len(infos)} beads changes when saved and loaded', f'reload {name}')
    w.count('evaluations')


def main(ctx):
    ctx.crowd = ctx.setup(crowd.make)
    ctx.pmap(crowd_case, [False, True], 'crowd')
    ctx.level = LEVEL
    ctx.base = ctx.setup(template)
    ctx.pmap(judge, batches(cases(ctx), 30), 'webs')
    ctx.coverage['rule'] = NOTE
