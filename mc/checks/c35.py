"""C35: a web pipeline equals its steps run one by one.

(1) All sequences of steps up to a depth, run as one command line and as one
command per step through saved graphs: all files must be the same.
(2) All sequences of words up to a length over the vocabulary of `bead web`:
those a parser written for this check rejects must have no effect, the others
must write what the reference model says."""
import itertools
import os
import re

import fw
import lib
import webref
from webref import Unjudged, web
from checks import c22
from checks.c23 import batches

LEVEL = 'model_checking'
TECHNIQUE = 'explicit exploration of all step sequences (pipelined and step by step, on the real command line) and of all word sequences against a reference parser and interpreter'
NOTE = 'States: graphs reached by prefixes of pipelines; transitions: steps taken.'

GRAPHS = [   # names, stored, inputs, order in time
    ((0, 1, 0, 2, 1), (True, True, True, True, True), ((), (0,), (), (1, 2), (2,)), (0, 0, 1, 0, 1)),
    ((0, 0, 1, 2), (True, False, True, True), ((), (), (1,), (0, 2)), (1, 0, 0, 0)),
    ((0, 1, 2, 3), (True, True, True, True), ((), (0,), (), (2,)), (0, 0, 0, 0)),
    ((0, 1, 1), (False, True, True), ((), (0,), ()), (0, 0, 1)),      # its heads include a bead that nothing refers to any more
]
STEPS = [('color',), ('heads',), ('/', 'a', '..', '/'), ('/', '..', 'c', '/'), ('/', 'a', 'b', '..', 'b', 'c', '/'), ('/', '..', '/'),
         ('save', '@'), ('dot', '@'), ('load', 'OTHER'), ('load', 'LAST')]
SLOW = [('svg', '@'), ('png', '@'), ('view', 'some.where')]


def normal_dot(text):
    return sorted(re.sub(r'unique_\d+', 'unique', line) for line in text.splitlines())


def content(path):
    from bead_cli.web.io import read_beads
    with open(path, 'rb') as f:
        data = f.read()
    if data[:1] == b'[':
        beads = read_beads(path)
        return 'web', webref.normal(beads), {(str(b.name), b.content_id): b.box_name for b in beads}
    if data[:7] == b'digraph':
        return 'dot', normal_dot(data.decode('utf-8'))
    return 'other', data


def _sequences(config, d, sequences, other):
    """For every sequence of steps: its files by one pipeline and step by step."""
    out = []
    for n, steps in enumerate(sequences):
        here = os.path.join(d, str(n))
        os.mkdir(here)
        os.chdir(here)
        words, lone, files = [], [], []
        last = other
        state = 0
        errs = [webref._run(config, ['save', 's0.web'])]
        for k, s in enumerate(steps):
            if s[-1] == '@':
                name = f'{k}.{s[0]}'
                words += [s[0], 'p' + name]
                lone.append(['load', f's{state}.web', s[0], 'l' + name])
                files.append(name)
                if s[0] == 'save':
                    last = name
            elif s[0] == 'load':
                f = other if s[1] == 'OTHER' else last
                words += ['load', f if f == other else 'p' + f]
                lone.append(['load', f if f == other else 'l' + f, 'save', f's{k + 1}.web'])
                state = k + 1
            else:
                words += s
                lone.append(['load', f's{state}.web', *s, 'save', f's{k + 1}.web'])
                state = k + 1
        words += ['save', 'pend.web']
        lone.append(['load', f's{state}.web', 'save', 'lend.web'])
        files.append('end.web')
        errs += [webref._run(config, x) for x in lone]
        log = [read('viewed')]
        open('viewed', 'w').close()
        errs += [webref._run(config, words)]
        log.append(read('viewed'))
        got = []
        for f in files:
            got.append((f, content('l' + f) if os.path.exists('l' + f) else None, content('p' + f) if os.path.exists('p' + f) else None))
        extra = sorted(x for x in os.listdir('.') if not re.match(r'[pls]\d|[pl]end|viewed', x))
        out.append((words, errs, got, log, extra))
    return out


def read(p):
    if not os.path.exists(p):
        return ''
    with open(p) as f:
        return f.read()


def world_for(w, n):
    root = w.fresh()
    world = fw.World(root)
    boxes = [('one', world.path('b1')), ('two', world.path('b2'))]
    for _, b in boxes:
        os.makedirs(b)
    infos = c22.build(w.ctx, (GRAPHS[n], None))
    for k, i in enumerate(infos):
        lib.put(boxes[k % 2][1], i)
    world.set_boxes(boxes)
    browser = world.path('browser')
    with open(browser, 'w') as f:
        f.write('#!/bin/sh\necho "$1" >> viewed\n')
    os.chmod(browser, 0o755)
    other = world.path('other.web')
    webref_beads = webref.describe(GRAPHS[(n + 1) % len(GRAPHS)])
    w.fork(webref.write_web, other, webref_beads)
    return world, infos, other, {'HOME': world.home, 'COLUMNS': '80', 'BROWSER': browser + ' %s', 'DISPLAY': None}


def sequences(w, case):
    n, seqs = case
    world, infos, other, env = world_for(w, n)
    o = w.fork(_sequences, world.config, world.home, seqs, other, env=env, timeout=120)
    w.check(o.kind == 'ret', f'bead web ends in {o.kind}', 'died', outcome=o)
    for steps, (words, errs, got, log, extra) in zip(seqs, o.value):
        w.count('transitions', len(steps))
        w.count('traces_validated_against_impl')
        what = f'web {" ".join(words)} on graph {n}'
        w.check(not any(errs), f'{what} fails: {[e for e in errs if e]}', 'fails')
        for name, lone, piped in got:
            w.check(lone is not None and piped is not None, f'{what}: {name} is missing', 'missing')
            w.check(lone == piped, f'{what}: {name} differs from what its steps alone give', 'differs', lone=lone, piped=piped)
            if name == 'end.web':
                w.distinct('states', repr((n, sorted(lone[1][0].items()))))
        w.check(log[0] == log[1] == 'some.where\n' * sum(1 for s in steps if s[0] == 'view'), f'{what} views {log}', 'view')
        w.check(not extra, f'{what} also writes {extra}', 'extra')
        if len(steps) > 1:
            w.sample({'words': words})


# ------------------------------------------------------------- all word lists
def parse(words):
    """[step] or None"""
    out, i = [], 0
    while i < len(words):
        c = words[i]
        if c in ('load', 'save', 'dot', 'png', 'svg', 'view'):
            if i + 1 >= len(words):
                return None
            out.append((c, words[i + 1]))
            i += 2
        elif c in ('color', 'heads'):
            out.append((c,))
            i += 1
        elif c == '/':
            rest = words[i + 1:]
            if '..' not in rest:
                return None
            a = rest.index('..')
            if '/' in rest[:a] or '/' not in rest[a + 1:]:
                return None
            b = a + 1 + rest[a + 1:].index('/')
            if '..' in rest[a + 1:b]:
                return None
            out.append(('/', tuple(rest[:a]), tuple(rest[a + 1:b])))
            i += b + 2
        else:
            return None
    return out


def interpret(g0, steps):
    """{file: graph or 'dot'}; None for what is not judged"""
    files = {}
    g = web(dict(g0)) if steps[0][0] != 'load' else {}
    for s in steps:
        if s[0] == 'load':
            g = files.get(s[1])
            if not isinstance(g, dict):
                return None
        elif s[0] in ('save', 'dot', 'svg'):
            if s[1] in ('/', '..', ''):
                return None
            files[s[1]] = g if s[0] == 'save' else s[0]
        else:
            try:
                g = webref.apply(g, [s[0] if len(s) == 1 else s])
            except Unjudged:
                return None
    return files


def _words(config, d, lists):
    out = []
    for n, words in enumerate(lists):
        here = os.path.join(d, str(n))
        os.mkdir(here)
        os.chdir(here)
        err = webref._run(config, words)
        files = {}
        for x in os.listdir('.'):
            files[x] = content(x)
        out.append((err, files))
    return out


def grammar(w, lists):
    world, infos, other, env = world_for(w, 0)
    g0 = c22.expected(infos)
    before = {k: v for k, v in fw.snap(world.root).items() if not k.startswith('home')}
    o = w.fork(_words, world.config, world.home, lists, env=env, timeout=120)
    w.check(o.kind == 'ret', f'bead web ends in {o.kind}', 'died', outcome=o)
    for words, (err, files) in zip(lists, o.value):
        w.count('word_lists')
        steps = parse(list(words))
        what = f'web {" ".join(map(repr, words))}'
        if steps is None:
            w.check(err and err.startswith('exit'), f'{what} is not rejected: {err}', 'accepted')
            w.check(not files, f'{what} is rejected but writes {sorted(files)}', 'effect')
            w.distinct('rejected', words)
            continue
        want = interpret(g0, steps)
        if want is None:
            w.count('unjudged')
            continue
        w.count('transitions', len(steps))
        w.count('traces_validated_against_impl')
        w.check(not err, f'{what} fails: {err}', 'fails')
        w.check(set(files) == set(want), f'{what} writes {sorted(files)} instead of {sorted(want)}', 'files')
        for f, g in want.items():
            if g == 'dot':
                w.check(files[f][0] == 'dot', f'{what}: {f} is no drawing', 'kind')
            elif g != 'svg':
                w.check(files[f][0] == 'web', f'{what}: {f} is no graph', 'kind')
                diff = webref.differences(g, files[f][1])
                w.check(not diff, f'{what}: {f}: {diff}', 'graph')
                w.distinct('states', repr((0, sorted(g.items()))))
        w.distinct('programs', words)
    after = {k: v for k, v in fw.snap(world.root).items() if not k.startswith('home')}
    w.check(before == after, f'web changes {fw.diff(before, after)}', 'elsewhere')


VOCABULARY = ['load', 'save', 'dot', 'color', 'heads', '/', '..', 'a', 'F', '']


def main(ctx):
    ctx.level = LEVEL
    ctx.base = ctx.setup(c22.template)
    full = not ctx.quick
    seqs = []
    for n in range(len(GRAPHS)):
        depth = (4 if full else 3) if n == 0 else 3 if full else 2
        for k in range(1, depth + 1):
            seqs += [(n, s) for s in itertools.product(STEPS, repeat=k)]
        for k in (1, 2) if full or n == 0 else (1,):
            seqs += [(n, s) for s in itertools.product(STEPS + SLOW, repeat=k) if set(s) & set(SLOW)]
    cases = []
    for n in range(len(GRAPHS)):
        cases += [(n, b) for b in batches([s for m, s in seqs if m == n], 12)]
    ctx.pmap(sequences, cases, 'step by step')
    lists = [x for k in range(1, (6 if full else 5)) for x in itertools.product(VOCABULARY, repeat=k)]
    # longer ones with exactly one mistake
    good = [('save', 'F'), ('color',), ('/', 'a', '..', '/'), ('dot', 'G')]
    bad = [('bogus',), ('/', 'a', '/'), ('/', '..', '..', '/'), ('/', 'a', '..'), ('Save', 'x'), ('save',), ('load',), ('/',), ('',), ('colour',), ('F',), ('--',), ('svg',),
           ('..', '/'), ('/', '/', '..', '/'), ('LOAD', 'x')]
    for k in range(1, 4 if full else 3):
        for s in itertools.product(good, repeat=k):
            for i in range(k + 1):
                for b in bad:
                    lists.append(tuple(x for y in s[:i] + (b,) + s[i:] for x in y))
    ctx.pmap(grammar, batches(lists, 60), 'words')
    ctx.stats.n['states'] = len(ctx.stats.keys.pop('states', ()))
