"""An independent reference model of the web of beads, and small webs.

A graph is {ref: Node}, ref = (name, content id). It is written from the
properties C22-C24 and the documentation of `bead web`, on sets and fixpoints,
and shares nothing with the implementation."""
import itertools
import os
from collections import namedtuple

import lib

Node = namedtuple('Node', 'kind ts colour inputs')      # inputs: frozenset of (name, kind, content id, ts)
PHANTOM, SUPERSEDED, UP_TO_DATE, OUT_OF_DATE = 'PHANTOM', 'SUPERSEDED', 'UP_TO_DATE', 'OUT_OF_DATE'


# ------------------------------------------------------------------ semantics
def web(beads):
    """stored beads {ref: Node} and everything they refer to"""
    g = dict(beads)
    for node in beads.values():
        for (n, k, c, t) in node.inputs:
            g.setdefault((n, c), Node(k, t, PHANTOM, frozenset()))
    return g


def edges(g):
    return {((n, c), ref, n) for ref, node in g.items() for (n, _k, c, _t) in node.inputs}


def restricted(g, refs, links):
    """the graph with only these nodes and input links"""
    return {r: g[r]._replace(inputs=frozenset(i for i in g[r].inputs if ((i[0], i[2]), r) in links)) for r in refs}


def coloured(g):
    newest = {}
    for (name, _), node in g.items():
        newest[name] = max(newest.get(name, -1), lib.micros(node.ts))
    top = {r for r in g if lib.micros(g[r].ts) == newest[r[0]]}
    good = {r for r in top if g[r].colour != PHANTOM}
    while True:         # the greatest fixpoint: newest with good inputs only
        bad = {r for r in good if any((i[0], i[2]) not in good for i in g[r].inputs)}
        if not bad:
            break
        good -= bad
    out = {}
    for r, node in g.items():
        c = PHANTOM if node.colour == PHANTOM else SUPERSEDED if r not in top else UP_TO_DATE if r in good else OUT_OF_DATE
        out[r] = node._replace(colour=c)
    return out


def reach(names, pairs):
    out = set(names)
    while True:
        more = {b for a, b in pairs if a in out} - out
        if not more:
            return out
        out |= more


def filtered(g, sources, sinks):
    """(graph without isolated names, names kept that have no link left: both ways are fine)"""
    pairs = {(s[0], d[0]) for s, d, _ in edges(g)}
    keep = {n for n, _ in g}
    if sources:
        keep &= reach(sources & keep, pairs)
    if sinks:
        keep &= reach(sinks & keep, {(b, a) for a, b in pairs})
    linked = {x for a, b in pairs if a in keep and b in keep for x in (a, b)}
    links = {(s, d) for s, d, _ in edges(g) if s[0] in keep and d[0] in keep}
    refs = [r for r in g if r[0] in linked]
    return restricted(g, refs, links), keep - linked


def heads(g):
    best = {}
    for r, node in g.items():
        rank = (node.colour != PHANTOM, lib.micros(node.ts))
        if r[0] not in best or rank > best[r[0]][0]:
            best[r[0]] = (rank, r)
    top = {r for _, r in best.values()}
    links = {(s, d) for s, d, _ in edges(g) if d in top}
    return restricted(g, top | {s for s, _ in links}, links)


class Unjudged(Exception):
    pass


def apply(g, words):
    """the graph after a list of steps: 'color', 'heads', ('/', sources, sinks)"""
    for step in words:
        if step == 'color':
            g = coloured(g)
        elif step == 'heads':
            g = heads(g)
        elif step == 'reload':
            pass
        else:
            g, loose = filtered(g, set(step[1]), set(step[2]))
            if (step[1] or step[2]) and loose:
                raise Unjudged
    return g


def words_of(steps):
    out = []
    for s in steps:
        out += [s] if isinstance(s, str) else ['/', *sorted(s[1]), '..', *sorted(s[2]), '/']
    return out


# ----------------------------------------------------------------- small webs
NAMES = ['a', 'b\u00e9', 'c %s{0}', 'd-1', 'e', 'f', 'g', 'h']


def partitions(k, names):
    """name patterns of k nodes, up to renaming"""
    def go(prefix, top):
        if len(prefix) == k:
            yield tuple(prefix)
            return
        for i in range(min(top + 1, names)):
            yield from go(prefix + [i], max(top, i + 1))
    yield from go([], 0)


def webs(k, names=8, phantoms=True, times='all'):
    """All webs of k nodes as (names, stored?, inputs, time ranks).

    Nodes are in topological order, inputs[i] picks for every name at most one
    earlier node. times: 'all' orders of the versions of every name or 'one'."""
    for pat in partitions(k, names):
        for flags in itertools.product((True, False), repeat=k) if phantoms else [(True,) * k]:
            choices = []
            for i in range(k):
                if not flags[i]:
                    choices.append([()])
                    continue
                per = [[None] + [j for j in range(i) if pat[j] == n] for n in range(max(pat) + 1)]
                choices.append([tuple(x for x in c if x is not None) for c in itertools.product(*per)])
            if times == 'all':
                groups = [[i for i in range(k) if pat[i] == n] for n in range(max(pat) + 1)]
                ranks = []
                for perm in itertools.product(*[list(itertools.permutations(range(len(g)))) for g in groups]):
                    r = [0] * k
                    for g, p in zip(groups, perm):
                        for i, x in zip(g, p):
                            r[i] = x
                    ranks.append(tuple(r))
            else:
                ranks = [tuple(sum(1 for j in range(i) if pat[j] == pat[i]) for i in range(k))]
            for ins in itertools.product(*choices):
                used = {j for x in ins for j in x}
                if any(not flags[i] and i not in used for i in range(k)):
                    continue
                for r in ranks:
                    yield pat, flags, ins, r


def cid(i):
    """as long as real ones, differing only in the middle"""
    return f'{"5" * 60}c{i}{"e" * 66}'


def describe(web_, names=NAMES):
    """-> [(ref, Node)] of the stored beads of webs()"""
    pat, flags, ins, ranks = web_

    def spec(i):
        # beads are renamed: kinds are independent of the names
        return (names[pat[i]], f'K{i % 2}', cid(i), stamp(ranks[i], i))
    out = []
    for i in range(len(pat)):
        if flags[i]:
            n, k, c, t = spec(i)
            out.append(((n, c), Node(k, t, SUPERSEDED, frozenset(spec(j) for j in ins[i]))))
    return out


# the digits and zones differ so that comparing the texts is not comparing times
STAMPS = ['20200101T000000000000+1400', '20191231T235959999999+0000', '20200101T000000000000-0001', '20200102T000000000000+0000',
          '20200101T235959999999-0030', '20200103T000000000000+0000']


def stamp(rank, i):
    return STAMPS[rank]


# --------------------------------------------------------- the implementation
def normal(beads):
    """loaded beads -> ({ref: Node}, number listed)"""
    out = {}
    for b in beads:
        out[(str(b.name), b.content_id)] = Node(
            b.kind, b.freeze_time_str, b.freshness.name,
            frozenset((str(i.name), i.kind, i.content_id, i.freeze_time_str) for i in b.inputs))
    return out, len(beads), max((len(b.inputs) - len(out[(str(b.name), b.content_id)].inputs) for b in beads), default=0)


def write_web(path, beads):
    """[(ref, Node[, box])] -> a .web file"""
    from bead.meta import InputSpec
    from bead_cli.web.dummy import Dummy
    from bead_cli.web.freshness import Freshness
    from bead_cli.web.io import write_beads
    write_beads(path, [
        Dummy(name=ref[0], content_id=ref[1], kind=n.kind, freeze_time_str=n.ts, freshness=Freshness[n.colour],
              inputs=[InputSpec(name=i[0], kind=i[1], content_id=i[2], freeze_time_str=i[3]) for i in sorted(n.inputs)])
        for ref, n in beads])


def _run(config, words):
    import io
    import sys
    import traceback
    from bead_cli.main import run
    real = sys.stdout
    sys.stdout = io.StringIO()
    try:
        return run(config, ['web', *words]) or None
    except SystemExit as e:
        return f'exit {e.code}' if e.code else None
    except BaseException:
        return traceback.format_exc()[-1500:]
    finally:
        sys.stdout = real


def _jobs(config, dir, jobs, texts):
    from bead_cli.web.io import read_beads
    argvs = []
    for n, (beads, words) in enumerate(jobs):
        write_web(os.path.join(dir, f'{n}.web'), beads)
        argvs.append(['load', os.path.join(dir, f'{n}.web')] + [os.path.join(dir, f'{n}.{x[1:]}') if x[:1] == '@' else x for x in words])
    err = _run(config, [x for a in argvs for x in a])
    errs = [None] * len(jobs)
    if err:
        errs = [_run(config, a) for a in argvs]
        if not any(errs):
            errs[0] = f'only when run together with others: {err}'
    out = []
    for n, (_beads, words) in enumerate(jobs):
        got = []
        for x in words:
            if x[:1] == '@' and not errs[n]:
                p = os.path.join(dir, f'{n}.{x[1:]}')
                if not os.path.exists(p):
                    got.append(None)
                elif x[1:] in texts:
                    with open(p, encoding='utf-8') as f:
                        got.append(f.read())
                else:
                    got.append(normal(read_beads(p)))
        out.append((errs[n], got))
    return out


def run_jobs(w, jobs, texts=()):
    """Run `web load X words..` for [(beads, words)] on the real code, @name standing for an output file.
    Returns [(error, outputs in order of their @names)]."""
    d = w.sub('jobs')
    config = os.path.join(d, 'config')
    os.mkdir(config)
    o = w.fork(_jobs, config, d, jobs, texts, env={'COLUMNS': '80'})
    w.check(o.kind == 'ret', f'bead web ends in {o.kind}', 'died', outcome=o)
    import fw
    fw.wipe(d)
    return o.value


def differences(want, got):
    out = []
    if got is None:
        return ['no file written']
    g, listed, _dup = got
    if listed != len(g):
        out.append(f'{listed} beads listed, {len(g)} different ones')
    for r in sorted(set(want) | set(g)):
        if want.get(r) != g.get(r):
            out.append(f'{r}: expected {want.get(r)}, got {g.get(r)}')
    return out[:6]
