"""Every room the repository offers, with every setting of its flags, rendered under a
controlled random source."""
import importlib
import inspect
import itertools
import os
import pkgutil

from mc import harness, upmx


def all_rooms():
    """(label, class) of every concrete room class below redeclipse.prefabs."""
    from redeclipse import prefabs
    from redeclipse.prefabs import Room
    out = {}
    mods = [prefabs]
    for m in pkgutil.iter_modules(prefabs.__path__, 'redeclipse.prefabs.'):
        # (not the modules inside of the packages: importing castle.castle_gate would
        # hide the class of the same name)
        mods.append(importlib.import_module(m.name))
    for mod in mods:
        for name, cls in vars(mod).items():
            if not inspect.isclass(cls) or not issubclass(cls, Room) or cls.__module__ != mod.__name__:
                continue
            if name.startswith('_'):
                continue
            if hasattr(cls, 'vox_file') and (cls.vox_file is None or not os.path.exists(cls.vox_file)):
                continue        # abstract model rooms
            label = mod.__name__.replace('redeclipse.prefabs', '').lstrip('.') + ':' + name
            if any(c.__module__.startswith('redeclipse.') for c in cls.__subclasses__()) and label not in (':Room', ':JumpCorridorVertical'):
                continue        # what several rooms have in common
            out[label] = cls
    return sorted(out.items())


def flag_sets(cls, thorough=True):
    n = len(getattr(cls, '_randflags', ()))
    combos = list(itertools.product((True, False), repeat=n))
    return [None] + [list(c) for c in combos] if n else [None]


def extra_rooms():
    """Rooms made through the documented extension points: models that do not fill
    their cells are moved by the boundary additions."""
    from redeclipse.prefabs import castle, spacestation
    out = []
    for base, west, south in ((castle.castle_wall_corner, 3, 2), (castle.castle_small_deis, 8, 0), (spacestation.station_right, 0, 5)):
        class Moved(base):
            boundary_additions = {'WEST': west, 'SOUTH': south}
        Moved.__name__ = 'moved_' + base.__name__
        out.append(('harness:' + Moved.__name__, Moved))
    return out


def model_rooms(path):
    """Rooms with models made for the purpose, which use the defaults of model rooms."""
    from mc import voxref
    from redeclipse.prefabs.magica import MagicaRoom

    def hall(w, d):
        vox = [(x, y, z, 3) for x in range(w) for y in range(d) for z in (0, 7)]
        vox += [(x, y, z, 4) for x in range(w) for y in range(d) for z in range(1, 7)
                if (x in (0, w - 1) or y in (0, d - 1)) and not (z < 5 and (x % 8 in (3, 4) or y % 8 in (3, 4)))]
        return vox
    out = []
    for name, vox in (('plain_hall', hall(8, 8)),):
        p = path(name + '.vox')
        with open(p, 'wb') as h:
            h.write(voxref.build((8, 8, 8), vox, [(i, 255 - i, i // 2, 255) for i in range(256)]))
        out.append(('harness:' + name, type(name, (MagicaRoom,), {'vox_file': p, 'name': name})))
    return out


class Split(harness.ScalarController):
    """Yes/no draws answered with a, draws of numbers with b."""

    def __init__(self, a, b):
        super().__init__(lambda: a)
        self.b = b

    def r_randrange(self, start, stop=None, step=1):
        self.draws += 1
        if stop is None:
            start, stop = 0, start
        rng = range(start, stop, step)
        if not len(rng):
            raise ValueError('empty range')
        return rng[min(len(rng) - 1, int(self.b * len(rng)))]


class Sink:
    def __init__(self):
        self.ents = []


def make(cls, pos, ori, flags=None):
    from redeclipse.vector import CoarseVector
    kw = {} if flags is None else {'randflags': flags}
    return cls(pos=CoarseVector(*pos), orientation=CoarseVector(*ori), **kw)


def centre(room):
    """The cell a room turns around."""
    return upmx.cell(room.pos)


def render(room, u=0.5):
    """({cell: textures}, [entity]) of one room rendered alone; u: the answer to every
    random draw, or a pair (yes/no draws, number draws), or a controller."""
    from redeclipse.voxel import VoxelWorld
    world, sink = VoxelWorld(2 ** 8), Sink()
    ctl = u if isinstance(u, harness.ScalarController) else Split(*u) if isinstance(u, tuple) else Split(u, u)
    with harness.controlled(ctl):
        room.render(world, sink)
    vox = {}
    for k, v in world.world.items():
        c = tuple(int(q) for q in k)
        if c != tuple(k):
            raise ValueError('voxel at a fractional position %r' % (k,))
        vox[c] = tuple(t.value if hasattr(t, 'value') else t for t in v.texture)
    return vox, sink.ents


def epos(e):
    """Entity position in voxels."""
    return (e.o.x / 4, e.o.y / 4, e.o.z / 4)


def cells_of(room):
    return [upmx.cell(p) for p in room.get_positions()]
