"""C34: the drawing contains exactly the graph.

All small webs, plain, coloured and filtered, and all short names over an
alphabet of special characters, through the real `bead web .. dot`; the text is
read back with GraphViz and compared with the reference graph."""
import datetime
import html
import html.parser
import itertools
import json
import subprocess
import unicodedata

import lib
import webref
from webref import Node, Unjudged, cid, run_jobs, web, words_of
from checks.c23 import batches

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of webs x steps and of names over special characters on the real command line; drawings are parsed by GraphViz and compared with the reference graph'
NOTE = ('Webs of up to 3 beads in all orders in time and of 4 in one (thorough: 4 all, 5 one order, coloured), names: all single printable characters and all '
        'strings of up to 2 (thorough 3) over special ones. GraphViz itself is trusted as the reader; names of ] only, which it can not read though they are correct, are left out.')

COLOURS = {'red': 'PHANTOM', 'grey': 'SUPERSEDED', 'green': 'UP_TO_DATE', 'orange': 'OUT_OF_DATE'}


class Table(html.parser.HTMLParser):
    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.rows, self.cell = [], None
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        if tag == 'tr':
            self.rows.append([])
        elif tag == 'td':
            self.cell = [dict(attrs), '']
            self.rows[-1].append(self.cell)

    def handle_endtag(self, tag):
        if tag == 'td':
            self.cell = None

    def handle_data(self, data):
        if self.cell is not None:
            self.cell[1] += data


def label_text(s):
    out, i = '', 0
    while i < len(s):
        if s[i] == '\\' and i + 1 < len(s):
            out += '\\' if s[i + 1] == '\\' else f'<escape {s[i + 1]}>'
            i += 2
        else:
            out += s[i]
            i += 1
    return html.unescape(out)


def read_dot(texts):
    """GraphViz' reading of several drawings -> (problem or None, [json])"""
    p = subprocess.run(['dot', '-Tdot_json'], input='\n'.join(texts).encode(), capture_output=True, timeout=100)
    if p.returncode or p.stderr:
        return p.stderr.decode('utf-8', 'replace')[:300] or f'exit {p.returncode}', []
    dec, s, out = json.JSONDecoder(strict=False), p.stdout.decode('utf-8', 'replace'), []
    i = 0
    while s[i:].strip():
        while s[i].isspace():
            i += 1
        obj, i = dec.raw_decode(s, i)
        out.append(obj)
    return (None if len(out) == len(texts) else f'{len(texts)} drawings are read as {len(out)}'), out


class Odd(Exception):
    pass


def understood(g):
    """drawing -> ({name: [(content id, colour, microseconds)]}, sorted [(src, dest, label)])"""
    tables, name_of, helpers = {}, {}, set()
    for o in g.get('objects', []):
        if '<TABLE' not in o.get('label', '').upper():
            if o.get('label', None) != '' or o.get('shape') != 'plain':
                raise Odd(f'a visible node {o}')
            helpers.add(o['_gvid'])
            continue
        t = Table(o['label'])
        names = [c[1] for r in t.rows for c in r if 'port' not in c[0] and c[1]]
        if len(names) != 1:
            raise Odd(f'a table with titles {names}')
        if names[0] in tables:
            raise Odd(f'two tables for {names[0]!r}')
        rows = []
        for r in t.rows:
            ports = [c for c in r if 'port' in c[0]]
            if not ports:
                continue
            cids = {c[0]['port'].split('_', 1)[1] for c in ports}
            kinds = sorted(c[0]['port'].split('_', 1)[0] for c in ports)
            colours = {c[0]['bgcolor'].split(':')[0] for c in ports}
            times = [c[1] for c in ports if c[1]]
            if len(cids) != 1 or kinds != ['in', 'out'] or len(colours) != 1 or len(times) != 1:
                raise Odd(f'a row {r}')
            when = datetime.datetime.fromisoformat(times[0])
            epoch = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
            rows.append((cids.pop(), COLOURS.get(colours.pop()), (when - epoch) // datetime.timedelta(microseconds=1)))
        tables[names[0]] = rows
        name_of[o['_gvid']] = names[0]
    follow = {}
    starts = []
    into = {}
    for e in g.get('edges', []):
        if e['tail'] in name_of:
            starts.append(e)
        else:
            if e['tail'] in follow:
                raise Odd('a connection splits')
            follow[e['tail']] = e
        into[e['head']] = into.get(e['head'], 0) + 1
    edges = []
    used = 0
    for e in starts:
        src = (name_of[e['tail']], port(e['tailport'], 'out'))
        labels = []
        for _ in range(100):
            used += 1
            if e.get('label'):
                labels.append(label_text(e['label']))
            if e['head'] in name_of:
                break
            if into[e['head']] != 1 or e['head'] not in follow:
                raise Odd('a connection that does not lead anywhere')
            e = follow[e['head']]
        if len(labels) != 1:
            raise Odd(f'a connection with labels {labels}')
        edges.append((src, (name_of[e['head']], port(e['headport'], 'in')), labels[0]))
    if used != len(g.get('edges', [])):
        raise Odd('connections from nowhere')
    return tables, sorted(edges)


def port(text, kind):
    k, _, rest = text.partition('_')
    if k != kind:
        raise Odd(f'a connection at {text!r}')
    return rest.rpartition(':')[0] if rest.rpartition(':')[2] in ('e', 'w') else rest


def expected(g):
    tables = {}
    for (name, cid), n in g.items():
        tables.setdefault(name, []).append((cid, n.colour, lib.micros(n.ts)))
    return {n: sorted(rows, key=lambda r: -r[2]) for n, rows in tables.items()}, sorted(webref.edges(g))


def judge(w, batch):
    jobs, wants = [], []
    for beads, seqs in batch:
        g = web(dict(beads))
        words, want = [], []
        for steps in seqs:
            try:
                e = webref.apply(g, steps)
            except Unjudged:
                continue
            words += (['load', '@0'] if words else []) + words_of(steps) + ['dot', f'@d{len(want)}']
            want.append((steps, e))
        jobs.append((beads, ['save', '@0'] + words))
        wants.append(want)
    texts = {f'd{n}' for n in range(max(map(len, wants)))}
    todo = []
    for (beads, words), want, (err, got) in zip(jobs, wants, run_jobs(w, jobs, texts)):
        w.check(not err, f'drawing {beads} fails: {err}', 'fails')
        got = [x for x, word in zip(got, [x for x in words if x[0] == '@']) if word != '@0']
        for (steps, e), text in zip(want, got):
            w.check(text, f'no drawing of {beads}', 'none')
            todo.append((beads, steps, e, text))
    problem, read = read_dot([x[3] for x in todo])
    if problem:
        for beads, steps, _e, text in todo:
            p1, _ = read_dot([text])
            w.check(not p1, f'the drawing of {beads} {steps} is not proper: {p1}', 'malformed', text=text)
        w.check(False, f'the drawings together are not proper: {problem}', 'malformed')
    for (beads, steps, e, text), r in zip(todo, read):
        w.count('evaluations')
        try:
            tables, edges = understood(r)
        except Odd as odd:
            w.check(False, f'the drawing of {beads} {steps} has {odd}', 'odd', text=text)
        t, x = expected(e)
        w.check(t == tables, f'the tables of {beads} {steps}: expected {t}, got {tables}', 'tables', text=text)
        w.check(x == edges, f'the connections of {beads} {steps}: expected {x}, got {edges}', 'connections', text=text)
        if e:
            w.distinct('nontrivial', (tuple(beads), tuple(steps)))
        if len(edges) > 1:
            w.sample({'beads': [repr(b) for b in beads], 'steps': repr(steps), 'tables': repr(tables), 'edges': edges})


SPECIAL = ['\\', '"', '<', '>', '&', "'", ';', '{', '}', '|', ':', '#', ' ', 'N', 'n', 'l', 'a', '%', 'é', '漢', '😀', '-', '*', '=', '[', ',', '$', '_']
WORDS = ['&amp;', '&lt', '&#65;', '&#x41;', '&a;', '<b>x</b>', '<!--', '-->', ']]>', '<br/>', '</TABLE>>', '\\N\\G', '\\"', '"]', '"; x -> y; "', 'node', 'graph',
         'digraph', 'edge', 'strict', 'subgraph', '//', '/*', '*/', '#x', 'cluster_a', 'unique_1', '{}', '{bead_inputs}', '%s', '%(x)s', '${x}', "\\'", '.', '..x', 'a b', ' a', 'a ',
         'x' * 300, '\\' * 7, '"' * 5, 'Ǆ', 'ß', 'İ', '\u00a0', '\u200b', '\u202e', '\ufeffx', '\U0010fffd', 'e\u0301']


def usable(n):
    # GraphViz can not read a text made of ] only, though it is correct XML
    return '/' not in n and n.strip('.') and n.strip(']') and '__' not in n and not any(unicodedata.category(c) == 'Cc' for c in n)


def named(n, nick=None):
    """a bead with two versions under that name, used by a bead with that name and by another, and a phantom"""
    v0, v1, ph = (n, 'KN', cid(0), webref.stamp(0, 0)), (n, 'KN', cid(1), webref.stamp(1, 0)), (n + 'p', 'KP', cid('p'), webref.stamp(0, 0))
    return [((n, cid(0)), Node('KN', v0[3], webref.SUPERSEDED, frozenset())),
            ((n, cid(1)), Node('KN', v1[3], webref.SUPERSEDED, frozenset([v0]))),
            (('other', cid(2)), Node('KO', webref.stamp(2, 0), webref.SUPERSEDED, frozenset([v0, ph])))]


def together(names):
    return [((n, cid(i)), Node('K', webref.stamp(0, 0), webref.SUPERSEDED,
                                frozenset((m, 'K', cid(j), webref.stamp(0, 0)) for j, m in enumerate(names[:i]) if j >= i - 2))) for i, n in enumerate(names)]


def cases(ctx):
    full = not ctx.quick
    plain = [[], ['color']]
    steps = plain + [['heads'], ['color', 'heads'], ['heads', 'color'], [('/', ('a',), ())], [('/', ('a',), ()), 'color'], ['color', ('/', (), ('b',))]]
    for k in (1, 2, 3, 4) if full else (1, 2, 3):
        for g in webref.webs(k, 4, True, 'all'):
            yield webref.describe(g), steps
    for g in webref.webs(5 if full else 4, 5, True, 'one'):
        yield webref.describe(g), [['color']]
    chars = [chr(c) for c in range(32, 127)] + [x for x in SPECIAL if ord(x) > 127]
    for n in filter(usable, chars + WORDS):
        yield named(n), plain
    for n in filter(usable, map(''.join, itertools.product(SPECIAL, repeat=2))):
        yield named(n), [['color']]
    if full:
        for n in filter(usable, map(''.join, itertools.product(SPECIAL[:18], repeat=3))):
            yield named(n), [['color']]
    # names that are different stay different
    small = [''.join(x) for k in (1, 2, 3) for x in itertools.product('\\"a&', repeat=k)]
    for a, b in itertools.combinations(small if full else small[:20], 2):
        yield together([a, b]), [[]]
    yield together(small), [[]]
    yield together([n for n in WORDS if usable(n)]), [['color']]


def main(ctx):
    ctx.level = LEVEL
    ctx.pmap(judge, batches(cases(ctx), 15), 'drawings')
    ctx.coverage['rule'] = NOTE
