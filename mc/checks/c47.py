"""C47: commands, help and completion work in any directory.

Every command's help in directories of any name (characters with a meaning to
format strings, shells, option parsers; long; not decodable) and at any width of
the terminal; commands on workspaces of such names; and the completion of every
beginning of a command line."""
import os
import re

import fw
from fw import snap
import lib
from checks import c40, c44, c45
from checks.c44 import R

LEVEL = 'exploration'
TECHNIQUE = 'bounded exhaustive enumeration of directory names x commands x forms of asking for help, terminal widths, and beginnings of command lines on the real program'
NOTE = ('The text of the help is compared with that given in a plainly named directory, white space aside. Completion is run by the protocol of argcomplete, '
        'in a directory without files to propose. The order of proposals, and whether used options are proposed again, is not judged.')

DIRS = ['a%d', '%', '100%', '%%', '%s%s%s', '%(default)s', '%(prog)s', '%(nosuch)r', '%-', '{x}', '{0!r}', '{', '}}', "it's", '"q"', 'two words', ' lead', 'trail ', '$HOME', '`id`', '$(id)',
        'é', '日本', '\udcff', 'e\u0301', 'a\nb', 'tab\tx', '-w', '--help', '-', '~', '~root', '*', '[x]', '[!x]?', '#', '\\', 'back\\slash', '<b>', '&amp;', '@file', 'x' * 200, 'y-' * 60, '...', 'a;b', 'a|b', 'null', '0', 'input', 'output', '.hid', 'x.zip', '=', 'a=b', ':', 'a:b', '+1d']
WIDTHS = ['1', '5', '11', '17', '24', '40', '79', '80', '81', '132', '1000', '0', '-1', 'wide', '']
# what every command knows: its options, or sub-commands
SYNTAX = {
    (): {'new', 'edit', 'discard', 'save', 'status', 'web', 'nuke', 'version', 'input', 'box'},
    ('input',): {'add', 'delete', 'rm', 'update', 'load', 'unload'},
    ('box',): {'add', 'list', 'forget', 'index', 'reindex'},
    ('new',): set(),
    ('edit',): {'-t', '--time', '--review'},
    ('discard',): {'-f', '--force'},
    ('save',): {'-w', '--workspace'},
    ('status',): {'-w', '--workspace', '-v', '--verbose'},
    ('web',): set(),
    ('nuke',): {'-f', '--force'},
    ('version',): set(),
    ('input', 'add'): {'-w', '--workspace', '-t', '--time'},
    ('input', 'delete'): {'-w', '--workspace'},
    ('input', 'rm'): {'-w', '--workspace'},
    ('input', 'update'): {'-w', '--workspace', '-t', '--time', '-N', '--next', '-P', '--prev'},
    ('input', 'load'): {'-w', '--workspace'},
    ('input', 'unload'): {'-w', '--workspace'},
    ('box', 'add'): set(),
    ('box', 'list'): set(),
    ('box', 'forget'): set(),
    ('box', 'index'): {'--box', '--dir', '--all'},
    ('box', 'reindex'): {'--box', '--dir', '--all'},
}
FLAGS = {'-f', '--force', '-v', '--verbose', '--review', '-N', '--next', '-P', '--prev', '--all'}


def run(w, world, argv, cwd, **env):
    return w.fork(c45.encoded, argv, 'utf-8', cwd=cwd, env={**world.env, 'PWD': cwd, 'COLUMNS': '100', **env}, clock=lib.T0)


def shown(d):
    return d.encode('utf-8', 'backslashreplace').decode()


def dense(text):
    return re.sub(r'\s+', '', text)


def helped(w, world, argv, cwd, label, **env):
    before = snap(world.root)
    o = run(w, world, argv, cwd, **env)
    w.check(o.kind == 'exit', f'{label}: ends in {o.kind}', 'died', outcome=o)
    after = snap(world.root)
    w.check(before == after, f'{label}: changes {fw.diff(before, after)}', 'changes', outcome=o)
    # (the directory first)
    text = [dense(t).replace(dense(shown(cwd)), '<CWD>').replace(dense(world.root), R) for t in (o.out, o.err)]
    return c44.status(o), text, o


FORMS = [(), ('-h',), ('--help',)]


def setup(w):
    x = c40.setup(w)
    w.ctx.x = x
    x.config = c44.find_config(w, x)
    x.help, x.options = {}, {}
    for path, known in SYNTAX.items():
        for form in FORMS:
            if not form and path not in ((), ('input',), ('box',)):
                continue
            world = c44.start(w, x)
            d = world.path('plain')
            os.mkdir(d)
            name = f'bead {" ".join((*path, *form))}'
            st, text, o = helped(w, world, [*path, *form], d, name)
            x.help[path, form] = st, text
            missing = {k for k in known if not re.search(rf'(?<![\w-]){re.escape(k)}(?![\w-])', o.out)}
            w.check(not missing or not form, f'{name}: does not tell about {sorted(missing)}', 'help', outcome=o)
            if form:
                w.check('usage:' in o.out and not o.err, f'{name}: no help', 'help', outcome=o)
                lines = re.findall(r'(?m)^  (-\S.*?)(?:  |$)', o.out)
                options = set(re.findall(r'(?<![\w-])--?[A-Za-z][\w-]*', ' '.join(lines)))
                commands = set()
                if path in ((), ('input',), ('box',)):
                    commands = set(re.search(r'\{([\w,]+)\}', o.out).group(1).split(','))
                x.options[path] = options | commands
                w.check(known | {'-h', '--help'} <= x.options[path], f'{name}: known {sorted(x.options[path])}', 'help', outcome=o)
            else:
                w.check(st != 0 and (o.out + o.err).strip(), f'{name}: not refused', 'help', outcome=o)
    x.after = {}
    for seq in SEQUENCES:
        x.after[seq] = steps(w, x, 'plain', seq)
    return x


def judge_help(w, c):
    d, path, form, width = c
    x = w.ctx.x
    world = c44.start(w, x)
    cwd = world.path(d)
    os.mkdir(cwd)
    label = f'bead {" ".join((*path, *form))} in {shown(d)[:40]!r}, terminal width {width}'
    st, text, o = helped(w, world, [*path, *form], cwd, label, COLUMNS=width)
    w.count('evaluations')
    w.distinct('nontrivial', c)
    want = x.help[path, form]
    w.check(not os.path.exists(cwd) or not os.listdir(cwd), f'{label}: leaves something behind', 'left', outcome=o)
    w.check(st == want[0], f'{label}: exit status {st} instead of {want[0]}', 'help-status', outcome=o)
    # (a very short name may be found in other places as well)
    w.check([t.replace('<CWD>', dense(shown(cwd))) for t in text] == [t.replace('<CWD>', dense(shown(cwd))) for t in want[1]], f'{label}: other help than in a plain directory', 'help-text', outcome=o, want=want[1], got=text)
    w.sample({'help': label, 'status': st})


# ------------------------------------------------------------ commands
SEQUENCES = {
    'inputs': [('input', 'add', 'n', 'aa'), ('status', '-v'), ('input', 'update', 'n', '--prev'), ('input', 'unload'), ('input', 'load', 'n'), ('input', 'update'), ('input', 'delete', 'x'), ('status',)],
    'reset': [('input', 'rm', 'y'), ('input', 'add', 'y', 'bb', '-t', '2020-05-01'), ('input', 'load'), ('status',)],
    'web': [('web', 'color', 'save', 'g.web'), ('web', 'load', 'g.web', 'heads', 'dot', 'g.dot'), ('box', 'index', '--all'), ('box', 'list')],
    'edit': [('edit', 'aa'), ('edit', '--review', 'bb', 'sub/bb'), ('edit', 'aa'), ('status', '-w', 'aa'), ('input', 'load', '-w', 'aa')],
    'discard': [('discard', '../other'), ('discard',)],
}


def steps(w, x, d, seq):
    """[(status, output, files of the directory, other files)] after each command"""
    world = c44.start(w, x)
    cwd = world.path(d)
    os.rename(world.path('ws'), cwd)
    out = []
    for argv in SEQUENCES[seq]:
        o = run(w, world, list(argv), cwd)
        label = f'bead {" ".join(argv)} in {shown(d)[:40]!r}'
        st = c44.status(o)
        w.check(st is not None and o.kind == 'exit', f'{label}: ends in {o.kind}', 'died', outcome=o)
        tree = {k: (v[0], v[1], v[2].replace(os.fsencode(world.root), R.encode())) if v[0] == 'f' and isinstance(v[2], bytes) else v for k, v in snap(world.root).items() if not k.startswith('xdg')}
        mine = {k[len(d):]: v for k, v in tree.items() if k == d or k.startswith(d + '/')}
        rest = {k: v for k, v in tree.items() if not (k == d or k.startswith(d + '/')) and not os.path.basename(k).startswith(lib.INDEX)}
        text = [t.replace(shown(cwd), '<CWD>').replace(world.root, R) for t in (o.out, o.err)]
        out.append((st, text, mine, rest))
        if d == 'plain':
            w.check(not st or argv == ('edit', 'aa'), f'{label}: exit status {st}', 'setup', outcome=o)
    return out


def judge_steps(w, c):
    d, seq = c
    x = w.ctx.x
    got = steps(w, x, d, seq)
    for argv, a, b in zip(SEQUENCES[seq], x.after[seq], got):
        label = f'bead {" ".join(argv)} in a workspace named {shown(d)[:40]!r}'
        w.check(a[0] == b[0], f'{label}: exit status {b[0]} instead of {a[0]}', 'step-status', got=b[1])
        w.check(a[2] == b[2] and a[3] == b[3], f'{label}: other effect than in a plain directory: {fw.diff(a[2], b[2])} {fw.diff(a[3], b[3])}', 'step-effect', got=b[1])
        if seq != 'web' and argv[0] != 'status':
            continue
        name = shown(d)
        w.check([t.replace(name, 'plain').replace('<CWD>', 'plain') for t in b[1]] == [t.replace(name, 'plain').replace('<CWD>', 'plain') for t in a[1]] or len(name) < 6, f'{label}: shows something else', 'step-shows', got=b[1], want=a[1])
        w.count('steps')
    w.count('evaluations')
    w.distinct('nontrivial', ('steps', *c))


# ------------------------------------------------------------ completion
def completed(line, file):
    """(exit code, proposals) of the completion of a line"""
    pid = os.fork()
    if pid == 0:
        code = 98
        try:
            os.environ.update({'_ARGCOMPLETE': '1', '_ARGCOMPLETE_STDOUT_FILENAME': file, 'COMP_LINE': line, 'COMP_POINT': str(len(line)), '_ARGCOMPLETE_IFS': '\n', 'COMP_TYPE': '9'})
            c44.program(())
        except SystemExit as e:
            code = 97
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    try:
        with open(file) as f:
            return status, f.read()
    except FileNotFoundError:
        return status, None


def judge_completion(w, c):
    d, path, flag, prefix = c
    x = w.ctx.x
    world = c44.start(w, x)
    cwd = world.path(d)
    os.mkdir(cwd)
    line = ' '.join(('bead', *path, *((flag,) if flag else ()), prefix))
    label = f'completion of {line!r} in {shown(d)[:40]!r}'
    before = snap(world.root)
    file = world.path('xdg', 'proposals')
    o = w.fork(completed, line, file, cwd=cwd, env={**world.env, 'PWD': cwd})
    w.check(o.kind == 'ret', f'{label}: ends in {o.kind}', 'died', outcome=o)
    status, text = o.value
    w.check(status == 0 and text is not None, f'{label}: fails ({status})', 'completion-fails', outcome=o)
    w.check(not (o.out + o.err).strip(), f'{label}: shows something', 'completion-shows', outcome=o)
    after = {k: v for k, v in snap(world.root).items() if k != 'xdg/proposals'}
    w.check({k: v for k, v in before.items() if k != 'xdg'} == {k: v for k, v in after.items() if k != 'xdg'}, f'{label}: changes {fw.diff(before, after)}', 'completion-changes', outcome=o)
    got = {p.strip() for p in text.split('\n') if p.strip()}
    known = x.options[path]
    can = {k for k in known if k.startswith(prefix)}
    w.check(got <= can, f'{label}: proposes {sorted(got - can)}', 'completion-wrong', got=sorted(got), want=sorted(can))
    if not flag:
        w.check(can <= got, f'{label}: does not propose {sorted(can - got)}', 'completion-missing', got=sorted(got), want=sorted(can))
    w.count('evaluations')
    w.count('completions')
    w.distinct('nontrivial', ('complete', *c))


def main(ctx):
    ctx.x = ctx.setup(setup)
    x = ctx.x
    forms = sorted(x.help, key=repr)
    cases = [(d, p, f, '100') for d in DIRS for p, f in forms if not ctx.quick or f != ('--help',)]
    cases += [(d, p, f, width) for d in (('plain', '%', 'y-' * 60) if ctx.quick else ['plain', *DIRS]) for p, f in forms if not ctx.quick or f != ('--help',) for width in WIDTHS]
    ctx.pmap(judge_help, cases, name='help')
    ctx.pmap(judge_steps, [(d, s) for d in DIRS for s in SEQUENCES], name='workspaces')
    cases = []
    for path in SYNTAX:
        prefixes = sorted({k[:n] for k in x.options[path] for n in range(len(k) + 1)} | {'nosuch', '--nosuch'})
        for d in (('plain', '%s') if ctx.quick else ['plain', *DIRS]):
            cases += [(d, path, None, p) for p in prefixes if d == 'plain' or not ctx.quick or p in ('', '-', '--')]
        cases += [('plain', path, flag, p) for flag in sorted(x.options[path] & FLAGS) for p in prefixes]
    ctx.pmap(judge_completion, cases, name='completion')
    ctx.coverage['rule'] = (f'{len(forms)} requests for help x {len(DIRS)} names of the current directory (and {len(WIDTHS)} terminal widths for some); {len(SEQUENCES)} sequences of commands in workspaces of these names; '
                            f'completion of every beginning of {len(SYNTAX)} (groups of) commands and their options: {len(cases)}')
