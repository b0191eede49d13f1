"""C28: a saved bead is found under its workspace's name.

All names up to a length over an alphabet of special characters and names
resembling time stamps: saved from a workspace of that name into boxes with
many similar names, indexed or not, then searched, edited and added by name."""
import itertools
import os

import crowd
import fw
import lib
from fw import World, snap
from checks.c23 import batches

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of workspace names on the real command line and searches, in raw and indexed boxes next to similar names'
NOTE = 'Names up to 2 (thorough 3) characters over 26 symbols, and about 100 longer ones; searches by every name among 30 neighbours.'

ALPHABET = list("a_.- *?[]\\:%#'\"~$0T{@!,é\n\t")
STAMPS = ['20200101', '20200101T', '20200101t', '20200101T000000', '20200101T000000000000', '20200101T000000000000+0000', '20200101T000000000000-0000',
          '20200101T+-', '2020', '2020010', '202001011', '20200101x', '20200101T0x', '99999999', '00000000', '20200101.zip', '20200101T000000000000+0000.zip']
LONGER = ['aa', 'a.zip', '.zip', 'zip', 'a.tmp', '.tmp', 'a.zip.zip', '.index.sqlite', '.index', 'sqlite', '[!a]', '[a-z]', '**', '***', '?*', '[[]', '[]]', 'a[0-9]', '*_*', 'a*a', '{a,b}',
          'a b', ' a', 'a ', '...', '....', '..a', 'a..', '.a', 'a.', '-', '--', '---', '-h', '--help', '-t', '~', '~root', '$HOME', '%s', '%00', '%2F', 'con', 'NUL', 'a;b', 'a|b', 'a&b',
          '<a>', 'a=b', '0', '00', 'input', 'output', 'temp', '.bead-meta', 'code', 'data', 'meta', 'BeadBox', 'home', 'é' * 20, 'e\u0301', '\u00e9', '漢字', '😀', 'İ', 'ß',
          'ſ', 'K', '\u200b', '\u202e', '\ufeff', '\u00a0', 'a' * 100, 'a' * 200, 'a' * 214, 'a' * 215, 'a' * 222, 'a' * 230, 'a' * 255, '漢' * 70, '漢' * 80, 'LIKE%', 'a_b', "a'b", "'; DROP TABLE beads; --",
          'a"b', 'a__b', '__', '_', 'None', 'null', 'true', '1e3', '\x01', '\x7f', 'a\nb', 'a\\', '\\a', 'a:b', 'C:', 'a\tb', 'file:a', 'a?mode=ro', 'a#b', 'a%3fb', '\udcff', 'a\udcff', '\udcc3x\udca9']


def names(ctx):
    out = [''.join(x) for k in (1, 2) for x in itertools.product(ALPHABET, repeat=k)]
    out += LONGER
    for s in STAMPS:
        out += [s, '_' + s, 'a_' + s, 'a' + s, 'a_' + s + '_', 'a_' + s + '_' + s, 'a__' + s, 'a-' + s]
    if not ctx.quick:
        out += [''.join(x) for x in itertools.product(ALPHABET, repeat=3)]
    out = [n for n in dict.fromkeys(out) if n not in ('.', '..') and '/' not in n and '\0' not in n]
    return sorted(out)


def run(config, argv, cwd):
    import contextlib
    import io
    os.chdir(cwd)
    err = io.StringIO()
    with contextlib.redirect_stdout(err), contextlib.redirect_stderr(err):
        try:
            r = fw.run_cli(config, argv)
        except SystemExit as e:
            r = e.code
        except BaseException as e:
            r = f'{type(e).__name__}: {e}'
    return r, err.getvalue()[-300:]


def _save_all(config, root, box, names):
    """save a workspace of every name; -> {name: (result, text, new files)}"""
    out = {}
    for k, n in enumerate(names):
        d = os.path.join(root, 'w%d' % k)
        os.mkdir(d)
        ws = os.path.join(d, n)
        if len(os.fsencode(n)) > 255:
            continue
        fw.restore(ws, TEMPLATE['tree'])
        before = set(os.listdir(box))
        r, text = run(config, ['save', '-w', ws] if n[:1] != '-' else ['save', '-w', './' + n], d)
        out[n] = (r, text, sorted(set(os.listdir(box)) - before))
    return out


def _new_all(config, root, box, names):
    """`new` and then `save`: -> {name: (new accepted, save accepted)}"""
    out = {}
    for k, n in enumerate(names):
        d = os.path.join(root, 'n%d' % k)
        os.mkdir(d)
        r, text = run(config, ['new', '--', n], d)
        made = os.listdir(d)
        s = None
        if not r:
            s = run(config, ['save', '-w', os.path.join(d, n)], d)
        out[n] = (r, made, s)
    return out


def _search_all(config, queries):
    from bead.box import search
    from bead_cli.environment import Environment
    out = {}
    for q in queries:
        try:
            boxes = Environment.from_dir(config).get_boxes()
            out[q] = [(str(b.name), b.content_id) for b in search(boxes).by_name(q).all()]
        except Exception as e:
            out[q] = f'{type(e).__name__}: {e}'
    return out


def _use_all(config, root, names):
    out = {}
    for k, n in enumerate(names):
        d = os.path.join(root, 'u%d' % k)
        os.mkdir(d)
        e = run(config, ['edit', '--', n], d)
        made = os.listdir(d)
        ok = made == [n]
        code = None
        if ok and os.path.exists(os.path.join(d, n, 'name')):
            with open(os.path.join(d, n, 'name'), 'rb') as f:
                code = f.read()
        ws = os.path.join(d, 'other workspace')
        fw.restore(ws, TEMPLATE['tree'])
        a = run(config, ['input', 'add', '-w', ws, '--', n], d)
        refs = lib.ws_inputs(ws)
        loaded = os.path.join(ws, 'input', n, 'o')
        data = None
        if os.path.exists(loaded):
            with open(loaded, 'rb') as f:
                data = f.read()
        b = run(config, ['input', 'add', '-w', ws, '--', 'nick', n], d)
        out[n] = (e, made, code, a, refs, data, b, lib.ws_inputs(ws))
    return out


TEMPLATE = {}


def template(w):
    world = World(w.fresh())
    ws = world.path('ws')
    w.check(w.cli(world, 'new', ws, clock=lib.T0).ok, 'new fails', 'setup')
    lib.write_tree(ws, {'name': b'code', 'output/o': b'data'})
    return snap(ws)


def judge(w, case):
    batch, indexed = case
    TEMPLATE['tree'] = w.ctx.tree
    root = w.fresh()
    world = World(root)
    box = world.path('box')
    os.mkdir(box)
    world.set_boxes([('box', box)])
    if indexed:
        w.check(w.cli(world, 'box', 'index', '--all').ok, 'index fails', 'setup')
    kw = dict(env=dict(world.env), clock=(lib.T0, lib.NS), timeout=100)
    o = w.fork(_save_all, world.config, root, box, batch, **kw)
    w.check(o.kind == 'ret', f'saving ends in {o.kind}', 'died', outcome=o)
    saved, refused = {}, set()
    for n, (r, text, new) in o.value.items():
        w.count('evaluations')
        if r:
            refused.add(n)
            w.check(not new, f'saving {n!r} is refused ({r} {text}) but leaves {new}', 'leftover')
        else:
            w.check(len(new) == 1, f'saving {n!r} makes {new}', 'files')
            saved[n] = os.path.join(box, new[0])
            w.distinct('nontrivial', n)
    archives = w.fork(_cids, saved, **kw).value
    queries = list(dict.fromkeys(batch + NEIGHBOURS + [q for n in batch for q in (n[:-1], n + 'a', n.upper(), n.lower(), n.swapcase(), n.strip(), n.rpartition('_')[0], n[1:]) if q]))
    o = w.fork(_search_all, world.config, queries, **kw)
    w.check(o.kind == 'ret', f'searching ends in {o.kind}', 'died', outcome=o)
    for q, got in o.value.items():
        want = [(q, archives[q])] if q in saved else []
        if got != want and not (q not in saved and isinstance(got, str)):
            w.check(False, f'searching {q!r} finds {got} instead of {want} among {sorted(saved)[:40]}{" with index" if indexed else ""}', 'search')
    later = {**kw, 'clock': (lib.T0 + 10 ** 6 * lib.NS, lib.NS)}
    o = w.fork(_use_all, world.config, root, sorted(n for n in saved if n != '--'), **later)      # the option parser drops a second --
    w.check(o.kind == 'ret', f'using ends in {o.kind}', 'died', outcome=o)
    for n, (e, made, code, a, refs, data, b, refs2) in o.value.items():
        w.check(not e[0] and made == [n] and code == b'code', f'edit {n!r} gives {made} {e}', 'edit')
        w.check(not a[0] and list(refs) == [n] and refs[n]['content_id'] == archives[n] and data == b'data', f'input add {n!r} gives {refs} {a}', 'add')
        w.check(not b[0] and refs2.get('nick', {}).get('content_id') == archives[n], f'input add nick {n!r} gives {refs2} {b}', 'add')
    o = w.fork(_new_all, world.config, root, box, batch, **later)
    w.check(o.kind == 'ret', f'new ends in {o.kind}', 'died', outcome=o)
    for n, (r, made, s) in o.value.items():
        if r:
            w.check(not made, f'new {n!r} is refused but makes {made}', 'new')
        else:
            w.check(made == [n], f'new {n!r} makes {made}', 'new')
            long = len(os.fsencode(n)) > 200
            w.check(not s[0] or long, f'new accepts {n!r} but save refuses: {s}', 'new-save')
    if refused:
        w.sample({'refused': sorted(refused)[:10], 'saved': sorted(saved)[:10], 'indexed': indexed})


NEIGHBOURS = ['a', 'A', '*', '?', '[a]', 'a*', 'a_20200101', '_', 'box', 'nosuch']


def _cids(saved):
    from bead.ziparchive import ZipArchive
    return {n: ZipArchive(p).content_id for n, p in saved.items()}


def crowd_case(w, indexed):
    """saved next to many versions and many other beads"""
    TEMPLATE['tree'] = w.ctx.tree
    c = w.ctx.crowd
    root = w.fresh()
    world = World(root)
    box = world.path('box')
    lib.put(box, *c.all)
    world.set_boxes([('box', box)])
    if indexed:
        w.check(w.cli(world, 'box', 'index', '--all', timeout=200).ok, 'index fails', 'setup')
    batch = ['v', 'n000', c.old[-1].name, 'n', 'vv', 'v0', 'new', 'V']
    kw = dict(env=dict(world.env), clock=(lib.T0 + 365 * 86400 * lib.NS, lib.NS), timeout=300)
    label = f'next to {len(c.all)} {"indexed " if indexed else ""}beads'
    o = w.fork(_save_all, world.config, root, box, batch, **kw)
    w.check(o.kind == 'ret', f'{label}: saving ends in {o.kind}', 'died', outcome=o)
    saved = {}
    for n, (r, text, new) in o.value.items():
        w.check(not r and len(new) == 1, f'{label}: saving {n!r} makes {new}: {text}', 'crowd-save')
        saved[n] = os.path.join(box, new[0])
    cids = w.fork(_cids, saved, **kw).value
    o = w.fork(_search_all, world.config, batch + ['big', 'n001'], **kw)
    w.check(o.kind == 'ret', f'{label}: searching ends in {o.kind}', 'died', outcome=o)
    for q, got in o.value.items():
        want = [(q, i.cid) for i in c.all if i.name == q] + ([(q, cids[q])] if q in saved else [])
        w.check(isinstance(got, str) and not want or sorted(got) == sorted(want), f'{label}: searching {q!r} finds {len(got)} beads instead of {len(want)}', 'crowd-search')
        w.count('evaluations')
    later = {**kw, 'clock': (lib.T0 + 366 * 86400 * lib.NS, lib.NS)}
    o = w.fork(_use_all, world.config, root, batch, **later)
    w.check(o.kind == 'ret', f'{label}: using ends in {o.kind}', 'died', outcome=o)
    for n, (e, made, code, a, refs, data, b, refs2) in o.value.items():
        w.check(not e[0] and made == [n] and code == b'code', f'{label}: edit {n!r} gives {made} {e}', 'crowd-edit')
        w.check(not a[0] and refs[n]['content_id'] == cids[n] and data == b'data' and refs2.get('nick', {}).get('content_id') == cids[n], f'{label}: input add {n!r} gives {refs} {a}', 'crowd-add')


def main(ctx):
    ctx.level = LEVEL
    ctx.crowd = ctx.setup(crowd.make)
    ctx.tree = ctx.setup(template)
    all_names = names(ctx)
    ctx.pmap(crowd_case, [False, True], 'crowd')
    ctx.pmap(judge, [(b, i) for b in batches(all_names, 30) for i in (False, True)], 'names')
    # groups that share a beginning, and mixtures
    n = 30
    step = len(all_names) // n + 1
    mixed = [all_names[k::step] for k in range(step)]
    ctx.pmap(judge, [(b, i) for b in (mixed[::3] if ctx.quick else mixed) for i in (False, True)], 'mixtures')
    ctx.coverage['rule'] = NOTE
