"""Starting states shared by the fault and crash checks."""
import os

from fw import World
import lib


def save_images(w):
    """[Image] with known beads"""
    old = lib.make_bead(w, 'ws', 'K1', '20200101T000000000000+0000')
    other = lib.make_bead(w, 'other', 'K2', '20210101T000000000000+0000', inputs={'in': old})
    images = []

    def image(name, indexed, beads, rich=True, auto=False, argv=('save',)):
        root = w.fresh()
        world = World(root)
        box = world.path('home', 'BeadBox') if auto else world.path('box')
        if not auto:
            lib.put(box, *beads)
            with open(os.path.join(box, 'notes.txt'), 'w') as f:
                f.write('x')
        boxes = [] if auto else [('box', 'box')]
        world.set_boxes([(n, world.path(d)) for n, d in boxes])
        if indexed:
            o = w.cli(world, 'box', 'index', clock=lib.T0)
            w.check(o.ok, 'index fails', 'setup', outcome=o)
        ws = world.path('ws')
        o = w.cli(world, 'new', ws, clock=lib.T0)
        w.check(o.ok, 'new fails', 'setup', outcome=o)
        lib.write_tree(ws, {'code.py': b'print(2)\n', 'temp/t': b't'})
        if rich:
            lib.write_tree(ws, {'src/lib/x.py': b'x' * 9000, 'src/empty': b'', 'output/a/b': b'bb', 'output/o': bytes(range(256)) * 40})
            if beads:
                o = w.cli(world, 'input', 'add', 'other', '-w', ws, clock=lib.T0)
                w.check(o.ok, 'input add fails', 'setup', outcome=o)
        code, out = lib.code_and_output(ws)
        images.append(lib.image_of(world, name, boxes if not auto else None, argv=argv, box=os.path.relpath(box, root), code=code, out=out,
                                   infos=beads if not auto else (), kind=lib.ws_meta(ws)['kind'], inputs=lib.ws_inputs(ws), auto=auto))
    both = (old, other)
    image('raw', False, both)
    image('indexed', True, both)
    image('raw-empty', False, (), rich=False)
    image('indexed-empty', True, (), rich=False)
    image('auto-box', False, (), rich=False, auto=True)
    return images


# ----------------------------------------------------- workspaces with inputs
def out_files(tag):
    return {'same': tag * 3, f'only-{tag.decode()}': tag, 'd/same': tag + b' d', f'd/e/{tag.decode()}.bin': tag * 1500, 'empty': b''}


class InputScene:
    """beads, the starting image and the commands of the input checks"""


COMMANDS = {
    'add-new': ('add', 'n', 'bb'),
    'add-default': ('add', 'cc'),
    'add-over': ('add', 'x', 'cc'),
    'update-newest': ('update', 'x'),
    'update-next': ('update', 'x', '--next'),
    'update-other': ('update', 'z', 'bb'),
    'update-unloaded': ('update', 'y', 'cc'),
    'update-all': ('update',),
    'load': ('load', 'y'),
    'load-all': ('load',),
    'unload': ('unload', 'x'),
    'unload-all': ('unload',),
    'delete': ('delete', 'x'),
    'delete-unloaded': ('delete', 'y'),
}

# changes of the references by the documentation
EFFECTS = {
    'add-new': {'n': 'b1'},
    'add-default': {'cc': 'c1'},
    'add-over': {'x': 'c1'},
    'update-newest': {'x': 'a2'},
    'update-next': {'x': 'a2'},
    'update-other': {'z': 'b1'},
    'update-unloaded': {'y': 'c1'},
    'update-all': {'x': 'a2'},
    'load': {},
    'load-all': {},
    'unload': {},
    'unload-all': {},
    'delete': {'x': None},
    'delete-unloaded': {'y': None},
}


def input_scene(w):
    sc = InputScene()
    sc.a1 = lib.make_bead(w, 'aa', 'KA', '20200101T000000000000+0000', out=out_files(b'a1'))
    sc.a2 = lib.make_bead(w, 'aa', 'KA', '20210101T000000000000+0000', out=out_files(b'a2'), inputs={'i': sc.a1})
    sc.b1 = lib.make_bead(w, 'bb', 'KB', '20200201T000000000000+0000', out=out_files(b'b1'))
    sc.c1 = lib.make_bead(w, 'cc', 'KC', '20200301T000000000000+0000', out=out_files(b'c1'))
    sc.infos = (sc.a1, sc.a2, sc.b1, sc.c1)
    sc.outs = {i.cid: i.out for i in sc.infos}
    root = w.fresh()
    world = World(root)
    lib.put(world.path('box'), *sc.infos)
    world.set_boxes([('box', world.path('box'))])
    ws = world.path('ws')
    for argv in (('new', ws), ('input', 'add', 'x', 'aa', '--time', '2020-06-01', '-w', ws), ('input', 'add', 'y', 'bb', '-w', ws),
                 ('input', 'unload', 'y', '-w', ws), ('input', 'add', 'z', 'cc', '-w', ws)):
        o = w.cli(world, *argv, clock=lib.T0)
        w.check(o.ok, f'{argv[0]} {argv[1]} fails', 'setup', outcome=o)
    lib.write_tree(ws, {'code.py': b'code', 'sub/more.py': b'more', 'output/o': b'out', 'temp/t': b'tmp'})
    refs = lib.ws_inputs(ws)
    want = {'x': sc.a1.spec(), 'y': sc.b1.spec(), 'z': sc.c1.spec()}
    w.check(refs == want, 'adding inputs records wrong references', 'setup', got=refs)
    sc.image = lib.image_of(world, 'inputs', [('box', 'box')])
    sc.kind = lib.ws_meta(ws)['kind']
    sc.after = {}
    for name, argv in COMMANDS.items():
        world = lib.world_of(w, sc.image)
        o = w.cli(world, 'input', *argv, '-w', world.ws, clock=lib.T0)
        w.check(o.ok, f'input {" ".join(argv)} fails', 'setup', outcome=o)
        sc.after[name] = lib.ws_inputs(world.ws)
    sc.before = refs
    for name, changes in EFFECTS.items():
        expected = {n: r for n, r in {**refs, **{n: b and getattr(sc, b).spec() for n, b in changes.items()}}.items() if r}
        w.check(sc.after[name] == expected, f'input {" ".join(COMMANDS[name])} leaves other references than it should', f'effect:{name}',
                got=sc.after[name], expected=expected)
    return sc


def _ws_state(ws, nicks):
    from bead.workspace import Workspace
    x = Workspace(ws)
    valid = x.is_valid
    inputs = {str(i.name): dict(kind=i.kind, content_id=i.content_id, freeze_time=i.freeze_time_str) for i in x.inputs} if valid else None
    return valid, x.kind if valid else None, inputs, {n: x.is_loaded(n) for n in sorted(set(nicks) | set(inputs or ()))}


def ws_state(w, ws, nicks=()):
    """(valid, kind, references, loaded) as the code under test reports them"""
    return w.fork(_ws_state, ws, nicks)
