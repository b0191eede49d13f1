"""Beads, worlds and observations shared by the checks.

Only the command line and the library calls used by the repository's own test
suite are called, so that the checks judge behaviour and not code structure.
"""
import hashlib
import io
import json
import os
import re
import zipfile
import zlib

import fw
from fw import Violation, World, diff, restore, snap  # noqa: F401

NS = 1_000_000_000
T0 = 1_700_000_000 * NS          # 2023-11-14T22:13:20Z: the default virtual now
INDEX = '.index.sqlite'


class Info:
    """A stored bead as the harness knows it (ground truth)."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def spec(self):
        return dict(kind=self.kind, content_id=self.cid, freeze_time=self.ts)

    def __repr__(self):
        return f'<{self.name} {self.ts}>'


def write_tree(root, files):
    """{relative path: bytes} -> files below root"""
    for rel, content in files.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(content)


def _make(root, name, kind, ts, code, out, inputs):
    from bead.box import Box
    from bead.workspace import Workspace
    ws = Workspace(os.path.join(root, name))
    ws.create(kind)
    write_tree(ws.directory, code)
    write_tree(os.path.join(ws.directory, 'output'), out)
    for nick, spec in inputs.items():
        ws.add_input(nick, spec['kind'], spec['content_id'], spec['freeze_time'])
    boxdir = os.path.join(root, 'box')
    os.makedirs(boxdir)
    path = Box('mk', fw_path(boxdir)).store(ws, ts)
    from bead.ziparchive import ZipArchive
    a = ZipArchive(path)
    return os.fspath(path), str(a.content_id)


def fw_path(p):
    from bead.tech.fs import Path
    return Path(p)


def make_bead(w, name, kind, ts, code=None, out=None, inputs=None, env=None):
    """Save one bead with the real code in a forked process."""
    root = w.sub('mk')
    code = {'code.py': b'print(1)\n'} if code is None else code
    out = {'out.txt': b'out of %s at %s' % (name.encode(), ts.encode())} if out is None else out
    inputs = {nick: (i.spec() if isinstance(i, Info) else i) for nick, i in (inputs or {}).items()}
    o = w.fork(_make, root, name, kind, ts, code, out, inputs, clock=T0, env=env)
    if o.kind != 'ret':
        raise Violation(f'cannot save a plain bead {name!r}: {o.exc} {o.message}', 'setup-save', o.brief())
    path, cid = o.value
    with open(path, 'rb') as f:
        data = f.read()
    fw.wipe(root)
    return Info(name=name, kind=kind, ts=ts, code=code, out=out, inputs=inputs,
                file=os.path.basename(path), data=data, cid=cid)


# ----------------------------------------------------------- bead observations
def bead_tuple(b):
    return (str(b.name), b.kind, b.content_id, b.freeze_time_str, b.box_name,
            tuple(sorted((str(i.name), i.kind, i.content_id, i.freeze_time_str) for i in b.inputs)))


def info_tuple(i, box):
    return (i.name, i.kind, i.cid, i.ts, box,
            tuple(sorted((n, s['kind'], s['content_id'], s['freeze_time']) for n, s in i.inputs.items())))


def _listing(config):
    from bead.box import search
    from bead_cli.environment import Environment
    boxes = Environment.from_dir(config).get_boxes()
    return sorted(bead_tuple(b) for b in search(boxes).all())


def listing(w, world, **kw):
    """All beads of the known boxes as a fresh process sees them."""
    return w.fork(_listing, world.config, cwd=world.home, env=dict(world.env), **kw)


def _box_listing(boxdir, resolve):
    from bead.box import Box
    box = Box('b', fw_path(boxdir))
    out = []
    for b in box.all_beads():
        t = bead_tuple(b)
        if resolve:
            fresh = Box('b', fw_path(boxdir)) if resolve == 'fresh' else box
            try:
                a = fresh.resolve(b)
                t = t + ((os.path.basename(str(a.location)), str(a.name), a.content_id),)
            except Exception as e:
                t = t + (f'{type(e).__name__}: {e}',)
        out.append(t)
    return sorted(out, key=repr)


def box_listing(w, boxdir, resolve=False, **kw):
    return w.fork(_box_listing, boxdir, resolve, **kw)


# ------------------------------------------------------- raw archive handling
def securehash(data):
    h = hashlib.sha512()
    h.update(b'%d:' % len(data))
    h.update(data)
    h.update(b';%d' % len(data))
    return h.hexdigest()


def members(data):
    """[(name, bytes)] of an archive"""
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        return [(i.filename, z.read(i)) for i in z.infolist()]


def dumps(x):
    return json.dumps(x, indent=4, sort_keys=True, ensure_ascii=True).encode('utf-8')


class Data(bytes):
    """contents of an archive member, with attributes for its directory entry"""
    attr = None
    system = None

    def __new__(cls, data, attr=None, system=None):
        self = super().__new__(cls, data)
        self.attr, self.system = attr, system
        return self


def pack(mems, compression=zipfile.ZIP_DEFLATED, comment=b'', date=(2020, 1, 1, 0, 0, 0), perms=None):
    """[(name, bytes)] -> archive bytes"""
    buf = io.BytesIO()
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with zipfile.ZipFile(buf, 'w', compression) as z:
            z.comment = comment
            for name, data in mems:
                zi = zipfile.ZipInfo(name, date)
                zi.filename = name       # ZipInfo would normalise it
                zi.compress_type = compression
                zi.external_attr = (perms or 0o644) << 16
                if getattr(data, 'attr', None) is not None:
                    zi.external_attr = data.attr
                if getattr(data, 'system', None) is not None:
                    zi.create_system = data.system
                z.writestr(zi, data)
    return buf.getvalue()


def forge(info, meta=None, code=None, out=None, drop_manifest=(), extra=(), meta_bytes=None,
          manifest_bytes=None, members_first=()):
    """An archive in the documented format with any content, consistent unless told otherwise."""
    mems = [m for m in members(info.data) if not m[0].startswith('meta/')]
    if code is not None:
        mems = [m for m in mems if not m[0].startswith('code/')] + [('code/' + k, v) for k, v in code.items()]
    if out is not None:
        mems = [m for m in mems if not m[0].startswith('data/')] + [('data/' + k, v) for k, v in out.items()]
    old = json.loads(dict(members(info.data))['meta/bead'])
    if meta is not None:
        old = meta(old) if callable(meta) else {**old, **meta}
    mb = dumps(old) if meta_bytes is None else meta_bytes
    manifest = {n: securehash(d) for n, d in list(members_first) + mems + [('meta/bead', mb)]}
    for n in drop_manifest:
        manifest.pop(n, None)
    man = dumps(manifest) if manifest_bytes is None else manifest_bytes
    full = list(members_first) + mems + [('meta/bead', mb), ('meta/manifest', man)] + list(extra)
    data = pack(full)
    return Info(name=info.name, kind=old.get('kind') if isinstance(old, dict) else None,
                ts=old.get('freeze_time') if isinstance(old, dict) else None,
                code=dict(code if code is not None else info.code),
                out=dict(out if out is not None else info.out),
                inputs=old.get('inputs', {}) if isinstance(old, dict) else {},
                file=info.file, data=data, cid=securehash(man))


def collide(data, crc, room=64):
    """data with white space appended so that it has the given CRC-32"""
    base = bytearray(data + b' ' * room)
    zero = zlib.crc32(bytes(base))
    rows = {}
    for i in range(room):
        other = bytearray(base)
        other[len(data) + i] = 0x0a
        effect, mask = zlib.crc32(bytes(other)) ^ zero, 1 << i
        while effect:
            top = effect.bit_length()
            if top not in rows:
                rows[top] = effect, mask
                break
            effect ^= rows[top][0]
            mask ^= rows[top][1]
    want, mask = zero ^ crc, 0
    while want:
        effect, m = rows[want.bit_length()]
        want ^= effect
        mask ^= m
    for i in range(room):
        if mask >> i & 1:
            base[len(data) + i] = 0x0a
    assert zlib.crc32(bytes(base)) == crc
    return bytes(base)


def put(boxdir, *infos):
    os.makedirs(boxdir, exist_ok=True)
    for i in infos:
        os.makedirs(os.path.dirname(os.path.join(boxdir, i.file)), exist_ok=True)
        with open(os.path.join(boxdir, i.file), 'wb') as f:
            f.write(i.data)


def code_and_output(wsdir):
    """({code path: bytes}, {output path: bytes}) of a workspace, symlinks followed"""
    code, out = {}, {}
    for root, _dirs, files in os.walk(wsdir, followlinks=True):
        rel = os.path.relpath(root, wsdir)
        top = rel.split(os.sep)[0]
        for f in files:
            p = os.path.join(root, f)
            r = os.path.normpath(os.path.join(rel, f))
            with open(p, 'rb') as fh:
                data = fh.read()
            if top == 'output':
                out[os.path.relpath(r, 'output')] = data
            elif top not in ('input', 'temp', '.bead-meta') or rel == '.':
                code[r] = data
    return code, out


def files_below(path):
    """{relative path: bytes} of the regular files below path"""
    out = {}
    for root, _dirs, files in os.walk(path):
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, path)] = fh.read()
    return out


def ws_meta(wsdir):
    with open(os.path.join(wsdir, '.bead-meta', 'bead')) as f:
        return json.load(f)


def ws_inputs(wsdir):
    return {n: dict(s) for n, s in ws_meta(wsdir)['inputs'].items()}


def ts_of(sec, us=0, offset='+0000'):
    """timestamp text of an instant given as unix seconds"""
    import datetime
    sign = -1 if offset[0] == '-' else 1
    minutes = sign * (int(offset[1:3]) * 60 + int(offset[3:5]))
    t = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=sec, microseconds=us, minutes=minutes)
    return t.strftime('%Y%m%dT%H%M%S') + '%06d' % t.microsecond + offset


def micros(ts):
    """exact microseconds since 1970 of a full timestamp text"""
    import datetime
    m = re.fullmatch(r'(\d{4})(\d\d)(\d\d)T(\d\d)(\d\d)(\d\d)(\d{6})([-+])(\d\d)(\d\d)', ts)
    y, mo, d, h, mi, s, us, sign, oh, om = m.groups()
    t = datetime.datetime(int(y), int(mo), int(d), int(h), int(mi), int(s))
    delta = t - datetime.datetime(1970, 1, 1)
    off = (int(oh) * 60 + int(om)) * (-1 if sign == '-' else 1)
    return (delta.days * 86400 + delta.seconds - off * 60) * 1_000_000 + int(us)


# ------------------------------------------------- starting states as values
class Image:
    """A world that can be set up again anywhere: files, boxes, workspace."""

    def __init__(self, name, tree, boxes, ws='ws', argv=(), **kw):
        self.name, self.tree, self.boxes, self.ws, self.argv = name, tree, boxes, ws, tuple(argv)
        self.__dict__.update(kw)


def image_of(world, name, boxes, **kw):
    """boxes: [(name, directory relative to the root of the world)]"""
    return Image(name, snap(world.root), boxes, **kw)


def world_of(w, image, root=None):
    root = root or w.fresh()
    restore(root, image.tree)
    world = World(root)
    if image.boxes is not None:
        world.set_boxes([(n, world.path(d)) for n, d in image.boxes])
    world.ws = world.path(image.ws)
    return world


def fill(root, argv):
    """argv with <ROOT> replaced"""
    return [a.replace('<ROOT>', root) for a in argv]


def _archive_facts(path):
    from bead.ziparchive import ZipArchive
    a = ZipArchive(path)
    a.validate()
    return (str(a.name), a.kind, a.content_id, a.freeze_time_str,
            tuple(sorted((str(i.name), i.kind, i.content_id, i.freeze_time_str) for i in a.inputs)))


def _observe(config, paths):
    out = {}
    for p in paths:
        try:
            out[p] = ('valid', _archive_facts(p))
        except Exception as e:
            out[p] = ('invalid', f'{type(e).__name__}: {e}')
    try:
        lst = _listing(config)
    except Exception as e:
        lst = f'{type(e).__name__}: {e}'
    return lst, out


def observe(w, world, paths=(), **kw):
    """(listing or error text, {path: (valid?, facts)}) seen by a fresh process"""
    o = w.fork(_observe, world.config, list(paths), cwd=world.home, env=dict(world.env), **kw)
    w.check(o.kind == 'ret', f'observing ends in {o.kind}', 'observe', outcome=o)
    return o.value


def zips(boxdir):
    return sorted(f for f in os.listdir(boxdir) if f.endswith('.zip'))


def code_and_output_of(data):
    """({code path: bytes}, {output path: bytes}) of archive bytes"""
    code, out = {}, {}
    for n, d in members(data):
        if n.startswith('code/'):
            code[n[5:]] = d
        elif n.startswith('data/'):
            out[n[5:]] = d
    return code, out


def subtree(tree, top):
    """the part of a tree below a directory"""
    return {('' if k == top else k[len(top) + 1:]): v for k, v in tree.items() if k == top or k.startswith(top + '/')}
