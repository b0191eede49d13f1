"""A box of many beads, many versions and many inputs: what holds for a few must hold for any number."""
import datetime

import lib

VERSIONS = 640          # of one name
NAMES = 300             # each with its own kind, every second one with a newer version
START = datetime.datetime(2021, 1, 1, tzinfo=datetime.timezone.utc)


def stamp(n, us=0):
    t = START + datetime.timedelta(minutes=n, microseconds=us)
    return t.strftime('%Y%m%dT%H%M%S%f+0000')


class Crowd:
    """v: versions of 'v', each with the previous one as input; old, new: [Info or None] of the names; big: the bead with all the inputs"""

    @property
    def all(self):
        return self.v + self.old + [i for i in self.new if i] + [self.big]


def make(w, versions=VERSIONS, names=NAMES):
    base = lib.make_bead(w, 'base', 'K', stamp(0))
    c = Crowd()

    def bead(name, kind, ts, inputs, tag):
        i = lib.forge(base, meta={'kind': kind, 'freeze_time': ts, 'freeze_name': name,
                                  'inputs': {n: x.spec() for n, x in inputs.items()}}, code={'which': tag}, out={'o': tag})
        i.name, i.file = name, f'{name}_{ts}.zip'
        return i
    c.v = []
    for n in range(versions):
        c.v.append(bead('v', 'KV', stamp(n, n), {'prev': c.v[-1]} if n else {}, b'v%d' % n))
    c.old = [bead(f'n{k:03}', f'K{k:03}', stamp(k, 7), {'v': c.v[(k * 7) % versions]}, b'old%d' % k) for k in range(names)]
    c.new = [bead(f'n{k:03}', f'K{k:03}', stamp(5000 + k), {'v': c.v[-1], 'self': c.old[k]}, b'new%d' % k) if k % 2 == 0 else None for k in range(names)]
    c.big = bead('big', 'KBIG', stamp(9000), {f'i{k:03}': i for k, i in enumerate(c.old)}, b'big')
    return c
