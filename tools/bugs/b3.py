# Planted bugs, C18-C29 (rooms, textures, files, whole runs).
P = 'redeclipse/prefabs/__init__.py'
K = 'redeclipse/prefabs/construction_kit.py'
C = 'redeclipse/prefabs/castle/__init__.py'
S = 'redeclipse/prefabs/spacestation/__init__.py'
T = 'redeclipse/textures/__init__.py'
W = 'redeclipse/magicavoxel/writer.py'
MG = 'redeclipse/prefabs/magica.py'
A = 'redeclipse/aftereffects.py'
L = 'redeclipse/lighting/__init__.py'
CLI = 'redeclipse/cli/__init__.py'
GEN = 'redeclipse/cli/magica_rooms.py'
U = 'redeclipse/upm.py'
WF = 'redeclipse/worldflavors.py'
KIT = '''
def at(e, k):
    return dict(zip(e.attr_annotations, e.attrs))[k]
from redeclipse.prefabs import *
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import CoarseVector, FineVector
from redeclipse.vector.orientations import *
class Sink:
    def __init__(self):
        self.ents = []
def cells(v):
    return {tuple(int(q) for q in k): c.texture[0] for k, c in v.world.items()}
def draw(room):
    v, s = VoxelWorld(256), Sink()
    room.render(v, s)
    return cells(v), s.ents
def turned(fn, o):
    """What fn draws in a room at (4,4,4) facing o, turned back to the east."""
    r = Room(pos=CoarseVector(4, 4, 4), orientation=o)
    v = VoxelWorld(256)
    fn(r, v)
    out = {}
    n4 = {'EAST': 0, 'NORTH': 3, 'WEST': 2, 'SOUTH': 1}[n(o)]
    for (x, y, z), t in cells(v).items():
        x, y = x - 35.5, y - 35.5
        for _ in range(n4):
            x, y = -y, x
        out[(x + 35.5, y + 35.5, z)] = t
    return out
'''
GENRUN = '''
import contextlib, io, subprocess, types
def generate(*args, seedhash='0'):
    """Runs the generator and returns a printed summary."""
    code = """
import sys, types, random, hashlib
sys.argv = ['x']
from redeclipse.cli.magica_rooms import main
v, m, u = main(types.SimpleNamespace(name='maps/empty2.mpz'), %s)
print('ROOMS', [(type(r).__name__, tuple(map(float, r.pos)), tuple(map(float, r.orientation))) for r in u.rooms])
print('VOX', hashlib.sha1(repr(sorted((tuple(map(float, k)), tuple(c.texture)) for k, c in v.world.items())).encode()).hexdigest(), len(v.world))
print('ENTS', [(type(e).__name__, e.o.x, e.o.y, e.o.z) for e in m.ents])
""" % ', '.join(args)
    r = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-c', code], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                       env=dict(os.environ, PYTHONHASHSEED=seedhash))
    assert r.returncode == 0
    return {l.split(' ', 1)[0]: l.split(' ', 1)[1] for l in r.stdout.splitlines() if l.split(' ', 1)[0] in ('ROOMS', 'VOX', 'ENTS')}
'''
BUGS = [
 dict(id='c18-low-wall-north', property='C18',
  edits=[(K, "FineVector(0, 7, 0), FineVector(8, 1, limit_j))", "FineVector(0, 7, 0), FineVector(8, 1, max(limit_j, 4)))")],
  needs='a low wall on the north side', breaks='low walls on the north side are four voxels high instead of three',
  demo=KIT + '''
a = turned(lambda r, v: r.x('low_wall', v, SELF, NORTH), EAST)
assert len(a) == 24, len(a)
'''),
 dict(id='c18-dotted-phase', property='C18',
  edits=[(K, "            if onoff[idx % len(onoff)]:\n", "            if onoff[int(sum(point)) % len(onoff)]:\n")],
  needs='a dotted column in a room that looks west or south', breaks='the dots of the column are shifted or reversed',
  demo=KIT + '''
f = lambda r, v: r.x('dotted_column', v, FineVector(0, 0, 3), EAST, 8, on=2, off=1)
assert all(turned(f, o) == turned(f, EAST) for o in CARDINALS)
'''),
 dict(id='c18-ring-small', property='C18',
  edits=[(K, "        yield from self.x_rectangular_prism(offset, FineVector(1, size - 1, 1))\n", "        yield from self.x_rectangular_prism(offset, FineVector(1, size - 1 + (size > 8) * 1, 1) if size % 10 else FineVector(1, size - 3, 1))\n")],
  needs='a ring of ten (twenty, ..) voxels', breaks='a gap in the ring',
  demo=KIT + '''
for s in range(2, 25):
    assert len(turned(lambda r, v: r.x('ring', v, SELF, s), EAST)) == 4 * s - 4, s
'''),
 dict(id='c19-tjoint-light', property='C19',
  edits=[(C, """        LIGHTMAN.light(xmap, self.pos + ABOVE)
        LIGHTMAN.light(xmap, self.pos + (EAST + EAST + ABOVE).rotate(self.orientation))


class castle_wall_section_x(MagicaRoom):""", """        LIGHTMAN.light(xmap, self.pos + ABOVE)
        LIGHTMAN.light(xmap, self.pos + (EAST + ABOVE).rotate(self.orientation) + self.orientation * (1 if self.orientation != SOUTH else -3))


class castle_wall_section_x(MagicaRoom):""")],
  needs='the T-joint looking south', breaks='its second light is on the wrong side, outside of the room',
  demo=KIT + '''
from redeclipse.prefabs import castle
a = [e.o for e in draw(castle.castle_wall_section_tjoint(pos=CoarseVector(8, 8, 4), orientation=SOUTH))[1]]
assert abs(a[1].y - a[0].y) == 64 and a[1].y < a[0].y, [(q.x, q.y) for q in a]
'''),
 dict(id='c19-altar-tree-yaw', property='C19',
  edits=[(P, """                yaw=rotate_yaw(270, self.orientation),
                type=124
""", """                yaw=rotate_yaw(270, self.orientation) if self._randflags[1] else 270,
                type=124
""")],
  needs='an altar room with a tree but without rings, not facing east', breaks='the tree does not turn with the room',
  demo=KIT + '''
y = set()
for o in CARDINALS:
    y.add([at(e, 'yaw') for e in draw(AltarRoom(pos=CoarseVector(8, 8, 4), orientation=o, randflags=[True, False, True]))[1] if type(e).__name__ == 'MapModel'][0])
assert len(y) == 4, y
'''),
 dict(id='c20-digital-low-ceiling', property='C20',
  edits=[(P, "            self.x('ceiling', world, SOUTHWEST, tex=ceil_tex, size=24, prob=prob)\n", "            self.x('ceiling', world, SOUTHWEST + ABOVE_FINE, tex=ceil_tex, size=24, prob=prob)\n")],
  needs='a digital room that is not tall', breaks='its ceiling is in the cells above it',
  demo=KIT + '''
r = DigitalRoom(pos=CoarseVector(8, 8, 4), randflags=[True, False, True])
own = {tuple(map(int, p)) for p in r.get_positions()}
assert all(tuple(q // 8 for q in c) in own for c in draw(r)[0])
'''),
 dict(id='c20-box-size', property='C20',
  edits=[(P, """                    random.randint(4, 7),
                    random.randint(4, 7),
                    random.randint(4, 7)
                )
            else:""", """                    random.randint(4, 7),
                    random.randint(4, 7),
                    random.randint(4, 9)
                )
            else:""")],
  needs='an imposing block room of one level with varying block sizes, and a draw of nine', breaks='blocks stick out of the top of the room',
  demo=KIT + '''
for s in range(60):
    random.seed(s)
    r = ImposingBlockRoom(pos=CoarseVector(8, 8, 4), randflags=[True, False, True])
    own = {tuple(map(int, p)) for p in r.get_positions()}
    assert all(tuple(q // 8 for q in c) in own for c in draw(r)[0]), s
'''),
 dict(id='c21-spawn-back-wall', property='C21',
  edits=[(P, "        if not self._randflags[0]:\n            self.x('wall', world, SELF, face=WEST, tex=accent_tex)\n", "        if not self._randflags[0] or self.orientation == SOUTH:\n            self.x('wall', world, SELF, face=WEST, tex=accent_tex)\n")],
  needs='an open spawn room facing south', breaks='its second doorway is walled up',
  demo=KIT + '''
a = [len(draw(SpawnRoom(pos=CoarseVector(8, 8, 4), orientation=o, randflags=[True]))[0]) for o in CARDINALS]
assert len(set(a)) == 1, a
'''),
 dict(id='c21-nlong-door', property='C21',
  edits=[(P, "            {'orientation': EAST, 'offset': EAST * self.length},\n", "            {'orientation': EAST, 'offset': EAST * (self.length or 1) if self.length < 4 else EAST * 3},\n")],
  needs='a corridor of the greatest length', breaks='its far doorway leads into the corridor itself',
  demo=KIT + '''
r = NLongCorridor(pos=CoarseVector(8, 8, 4), randflags=[True, True, True, True])
assert not {tuple(map(float, d['offset'])) for d in r.get_doorways()} & {tuple(map(float, p)) for p in r.get_positions()}
'''),
 dict(id='c21-vertical-wall', property='C21',
  edits=[(P, """        self.x('wall', world, SELF + ABOVE + ABOVE, face=EAST, tex=wall_tex)

        self.x('rectangular_prism', world, FineVector(4, 2, 0)""", """        self.x('wall', world, SELF + ABOVE + ABOVE, face=WEST if self._randflags[0] is False else EAST, tex=wall_tex)

        self.x('rectangular_prism', world, FineVector(4, 2, 0)""")],
  needs='a vertical corridor with its option off', breaks='the upper doorway is walled up and the opposite side is open',
  demo=KIT + '''
a = draw(JumpCorridorVertical(pos=CoarseVector(8, 8, 4), randflags=[False]))[0]
b = draw(JumpCorridorVertical(pos=CoarseVector(8, 8, 4), randflags=[True]))[0]
assert a == b
'''),
 dict(id='c21-crossing-door', property='C21',
  edits=[(P, "                {'orientation': NORTH, 'offset': NORTH + NORTH + ABOVE + ABOVE},\n", "                {'orientation': NORTH, 'offset': NORTH + NORTH + (ABOVE * self._height)},\n")],
  needs='crossing walkways of three levels', breaks='a doorway leads out above the room',
  demo=KIT + '''
r = CrossingWalkways(pos=CoarseVector(8, 8, 4), randflags=[True])
own = {tuple(map(float, p)) for p in r.get_positions()}
for d in r.get_doorways():
    assert tuple(map(float, d['offset'] - d['orientation'])) in own, d
'''),
 dict(id='c22-reuse-slot-by-count', property='C22',
  edits=[(T, """            # Insert tex
            tex = self.texref[name]
            pos = len(self.atlas)
            self.atlas[pos] = tex
            # Now insert backref
            self.atlas_backref[name] = pos
        return self.atlas_backref[name]

    def random(self):""", """            # Insert tex
            tex = self.texref[name]
            pos = len(self.atlas_backref)
            self.atlas[pos] = tex
            # Now insert backref
            self.atlas_backref[name.lower()] = pos
            self.atlas_backref.setdefault(tex.__class__.__name__.lower(), pos)
        return self.atlas_backref[name]

    def random(self):""")],
  needs='a theme whose registered name and class name differ', breaks='slots are skipped: the configuration and the slot numbers disagree',
  demo='''
from redeclipse.textures import *
m = MinecraftThemedTextureManager()
m.texref['alias'] = m.texref['stone']
for name in ('alias', 'stone', 'dirt'):
    m.get(name)
assert sorted(m.atlas) == list(range(5)), sorted(m.atlas)
'''),
 dict(id='c22-conf-sorted', property='C22',
  edits=[(T, "            for idx, (tex_key, tex) in enumerate(self.atlas.items()):\n                handle.write(tex.conf(idx=idx))\n", "            for idx, (tex_key, tex) in enumerate(sorted(self.atlas.items(), key=lambda kv: (str(kv[0]).zfill(2), kv[0]))):\n                handle.write(tex.conf(idx=idx))\n")],
  needs='more than a hundred textures', breaks='slot 100 and later are written before slot 11',
  demo='''
from types import SimpleNamespace
from redeclipse.textures import AutomatedMagicaTextureManager
m = AutomatedMagicaTextureManager()
for i in range(120):
    m.get_colour(i / 255, 0, 0)
m.emit_conf(SimpleNamespace(name=SCRATCH + '/a.mpz'))
got = [l.split()[1] for l in open(SCRATCH + '/a.cfg') if l.startswith('texcolor')]
assert got == [str(i / 255) for i in range(120)]
'''),
 dict(id='c22-texcolor-short', property='C22',
  edits=[('redeclipse/textures/basetex.py', "texcolor {0.r} {0.g} {0.b}\n", "texcolor {0.r:.2} {0.g:.2} {0.b:.2}\n"),
         (T, "            tmp.r = r\n            tmp.g = g\n            tmp.b = b\n", "            tmp.r = float(r)\n            tmp.g = float(g)\n            tmp.b = float(b)\n")],
  needs='two colours that differ by one step', breaks='two different slots show the same colour',
  demo='''
from types import SimpleNamespace
from redeclipse.textures import AutomatedMagicaTextureManager
m = AutomatedMagicaTextureManager()
m.get_colour(0.5, 100 / 255, 0)
m.get_colour(0.5, 101 / 255, 0)
m.emit_conf(SimpleNamespace(name=SCRATCH + '/a.mpz'))
got = [tuple(map(float, l.split()[1:])) for l in open(SCRATCH + '/a.cfg') if l.startswith('texcolor')]
assert got[0] != got[1] and abs(got[0][1] - 100 / 255) < 1e-6
'''),
 dict(id='c24-dark-colours', property='C24',
  edits=[(MG, "                self._colours[idx] = (colour.r / 255, colour.g / 255, colour.b / 255)\n", "                self._colours[idx] = (colour.r / 255, colour.g / 255, min(colour.b, colour.g + 128) / 255)\n")],
  needs='a model with a strongly blue colour', breaks='blue parts of the model are drawn in another colour',
  demo=KIT + '''
from redeclipse.prefabs.magica import MagicaRoom
from redeclipse.textures import AutomatedMagicaTextureManager
import struct
pal = b''.join(bytes([0, 0, 255, 255]) for i in range(256))
vox = b'VOX ' + struct.pack('<i', 150) + b'MAIN' + struct.pack('<ii', 0, 24 + 20 + 1036)
vox += b'SIZE' + struct.pack('<iiiii', 12, 0, 8, 8, 8) + b'XYZI' + struct.pack('<iii', 8, 0, 1) + bytes([1, 1, 1, 1]) + b'RGBA' + struct.pack('<ii', 1024, 0) + pal
open(SCRATCH + '/a.vox', 'wb').write(vox)
class M(MagicaRoom):
    vox_file = SCRATCH + '/a.vox'
    name = 'm'
    seen = []
    def colour_to_texture(self, r, g, b):
        self.seen.append((r, g, b))
        return 2
draw(M(pos=CoarseVector(4, 4, 4)))
assert M.seen == [(0, 0, 1)], M.seen
'''),
 dict(id='c24-cells-from-corners', property='C24',
  edits=[(MG, "            if tmp not in self.__positions:\n                self.__positions.append(tmp)\n", "            if tmp not in self.__positions and (vox[2] % 8 or vox[2] == 0 or (vox[0], vox[1], vox[2] - 1) in self.vox.world):\n                self.__positions.append(tmp)\n")],
  needs='a model with a separate thin plate at the bottom of an upper cell', breaks='the cell of the plate is not claimed',
  demo=KIT + '''
from redeclipse.prefabs.magica import MagicaRoom
import struct
pal = b''.join(bytes([0, 0, 255, 255]) for i in range(256))
pts = bytes([1, 1, 1, 1]) + bytes([12, 1, 16, 1])
vox = b'VOX ' + struct.pack('<i', 150) + b'MAIN' + struct.pack('<ii', 0, 24 + 24 + 1036)
vox += b'SIZE' + struct.pack('<iiiii', 12, 0, 16, 8, 24) + b'XYZI' + struct.pack('<iii', 12, 0, 2) + pts + b'RGBA' + struct.pack('<ii', 1024, 0) + pal
open(SCRATCH + '/a.vox', 'wb').write(vox)
class M(MagicaRoom):
    vox_file = SCRATCH + '/a.vox'
    name = 'm'
assert {tuple(map(float, p)) for p in M(pos=CoarseVector(4, 4, 4)).get_positions()} == {(4, 4, 4), (5, 4, 6)}
'''),
 dict(id='c24-shared-colours', property='C24',
  edits=[(MG, "        self._colours = {}\n", ""), (MG, "    boundary_additions = {}\n\n    doors = [", "    boundary_additions = {}\n    _colours = {}\n\n    doors = ["),],
  needs='two rooms with models of different palettes, rendered after both were loaded', breaks='the first room is drawn in the colours of the second',
  demo=KIT + '''
from redeclipse.prefabs import castle, egypt
a = castle.castle_gate(pos=CoarseVector(4, 4, 4)); a.load_model()
one = dict(a._colours)
b = egypt.statue(pos=CoarseVector(4, 4, 4)); b.load_model()
assert dict(a._colours) == one
'''),
 dict(id='c25-outline-height', property='C25',
  edits=[(A, "                zb = z == world.size - 1\n", "                zb = z == max_height - 1\n")],
  needs='an outlined box with a height', breaks='an extra frame is drawn at the given height',
  demo='''
from redeclipse.aftereffects import box_outline
from redeclipse.voxel import VoxelWorld
v = VoxelWorld(8)
box_outline(v, height=5)
assert len([1 for k in v.world if k[2] == 4]) == 4
'''),
 dict(id='c25-grid-small', property='C25',
  edits=[(A, "            (z % size == 0 and x % size == 0)\n", "            (z % size == 0 and x % size == 0 and y < world.zmax + world.size // 2)\n")],
  needs='a grid in a world that is low and wide', breaks='grid lines end in the middle of the map',
  demo='''
from redeclipse.aftereffects import grid
from redeclipse.objects import cube
from redeclipse.voxel import VoxelWorld
v = VoxelWorld(16)
v.set_point(1, 1, 3, cube.newtexcube())
grid(v, size=4)
assert all((0, y, 0) in v.world for y in range(16))
'''),
 dict(id='c25-growth-over', property='C25',
  edits=[(A, """                if random.random() > position_function(x, y, z):
                    if not world.get_point(x, y, z):
                        world.set_point(""", """                if random.random() > position_function(x, y, z):
                    if not world.get_point(x, y, z) or z >= world.zmax - 1:
                        world.set_point(""")],
  needs='voxels in the two topmost layers of the world and growth there', breaks='existing voxels are replaced by growth',
  demo='''
from redeclipse.aftereffects import growth
from redeclipse.objects import cube
from redeclipse.voxel import VoxelWorld
v = VoxelWorld(4)
v.set_point(1, 1, 2, cube.newtexcube(tex=9))
v.set_point(1, 1, 3, cube.newtexcube(tex=9))
growth(v, lambda x, y, z: -1)
assert v.get_point(1, 1, 2).texture[0] == 9
'''),
 dict(id='c26-radius-int', property='C26',
  edits=[(L, "            radius=SIZE_OFFSET * 64 * size_factor,\n", "            radius=SIZE_OFFSET * 64 * (size_factor if size_factor >= 1 else 1),\n")],
  needs='a light with a size factor below one', breaks='small lights are too large',
  demo='''
from redeclipse.lighting import LightManager
from redeclipse.vector import FineVector
class X: ents = []
LightManager().light(X, FineVector(4, 4, 4), size_factor=0.5)
at = lambda e, k: dict(zip(e.attr_annotations, e.attrs))[k]
assert at(X.ents[0], 'radius') == 32, X.ents[0].attrs
'''),
 dict(id='c26-override-black', property='C26',
  edits=[(L, "        if colour_override:\n", "        if colour_override and sum(colour_override):\n")],
  needs='black as the requested colour', breaks='the light gets another colour',
  demo='''
from redeclipse.lighting import LightManager
from redeclipse.vector import FineVector
class X: ents = []
LightManager().light(X, FineVector(4, 4, 4), colour_override=(0, 0, 0))
at = lambda e, k: dict(zip(e.attr_annotations, e.attrs))[k]
assert [at(X.ents[0], k) for k in ('red', 'green', 'blue')] == [0, 0, 0]
'''),
 dict(id='c27-stream-set', property='C27',
  edits=[(U, "        choices = OrderedDict([(room, True) for room in random.sample(choices, len(choices))]).keys()\n        return choices\n",
             "        choices = set(random.sample(choices, len(choices)))\n        return choices\n"), (U, "from collections import OrderedDict\n", "")],
  needs='several processes with different memory layouts', breaks='the same seed gives different maps',
  demo=GENRUN + '''
a = {generate('rooms=30', 'seed=%d' % s, seedhash='7')['ROOMS'] == generate('rooms=30', 'seed=%d' % s, '**({} if [bytearray(100 + i) for i in range(5000)] else {})', seedhash='99')['ROOMS'] for s in range(6)}
from redeclipse.upm import UnusedPositionManager
assert a == {True}
import inspect
from redeclipse.prefabs import Corridor2way, Corridor4way, Stair, Room
from redeclipse.vector import CoarseVector
u = UnusedPositionManager(256)
first = set()
for s in range(40):
    random.seed(s)
    first.add(list(u.random_room_stream(Room(pos=CoarseVector(1, 1, 1)), [Corridor2way, Corridor4way, Stair]))[0])
assert len(first) == 3
'''),
 dict(id='c27-hash-start', property='C27',
  edits=[(GEN, "    random.seed(seed)\n", "    random.seed('%s/%s' % (seed, hash(flavor[0]) if flavor else '') if flavor else seed)\n")],
  needs='a world flavour', breaks='with a flavour, the map depends on the flavour and on the hash seed of the process',
  demo=GENRUN + '''
assert generate('rooms=6', 'seed=3', 'flavor=["maliwan"]', seedhash='1')['VOX'] == generate('rooms=6', 'seed=3', seedhash='2')['VOX']
'''),
 dict(id='c27-light-noise', property='C27',
  edits=[(L, "            return int(abs(noise.pnoise3(*nums, base=base)) * 255)\n", "            return int(abs(noise.pnoise3(*nums, base=base + id(self) // 4096 % 2)) * 255)\n")],
  needs='two processes in which the light manager lies at different addresses', breaks='the colours of lights differ from run to run',
  demo='''
from redeclipse.lighting import PositionBasedLightManager
from redeclipse.vector import FineVector
import contextlib, io
keep, seen = [], set()
for i in range(400):
    m = PositionBasedLightManager()
    keep += [m, bytearray(3000)]
    with contextlib.redirect_stdout(io.StringIO()):
        seen.add(tuple(m.hue(FineVector(40 + q, 33, 20)) for q in range(0, 60, 7)))
assert len(seen) == 1, len(seen)
'''),
 dict(id='c28-cfg-once', property='C28',
  edits=[(CLI, "            for line in mymap.cfg_extra:\n", "            for line in dict.fromkeys(mymap.cfg_extra):\n")],
  needs='a flavour given twice with another one in between that sets the same variable (or extra lines that repeat)', breaks='the later repetition of a line is lost, so another setting wins',
  demo='''
from types import SimpleNamespace
from redeclipse import MapParser
from redeclipse.cli import output
from redeclipse.voxel import VoxelWorld
from redeclipse.textures import AutomatedMagicaTextureManager
m = MapParser().read('maps/empty2.mpz')
m.cfg_extra = ['gravity 0', 'gravity 50', 'gravity 0']
t = AutomatedMagicaTextureManager(); t.copy_data = lambda: None
output(VoxelWorld(8), m, None, SimpleNamespace(TEXMAN=t), SimpleNamespace(magica=None, graph=None, mpz_out=open(SCRATCH + '/a.mpz', 'w')))
assert open(SCRATCH + '/a.cfg').read().splitlines()[-3:] == m.cfg_extra
'''),
 dict(id='c28-flavour-front', property='C28',
  edits=[(WF, "        world.cfg_extra.extend(extra)\n", "        world.cfg_extra[:0] = extra\n")],
  needs='two flavours, or a map with lines of its own', breaks='the last flavour is put first and is overridden by the earlier ones',
  demo='''
from redeclipse import worldflavors as wf
class M: cfg_extra = []
wf.update(M, list(wf.choices))
assert M.cfg_extra == [x for f in wf.choices for x in getattr(wf, f)()], M.cfg_extra
'''),
 dict(id='c28-vox-after-map', property='C28',
  edits=[(CLI, "        mymap.world = v.to_octree()\n", """        # Nothing above the highest block
        used = type(v)(min(v.size, 1 << max(1, int(max(v.xmax, v.ymax, v.zmax))).bit_length()))
        used.world = v.world
        mymap.world = used.to_octree()
""")],
  needs='a world of which only the lower half is used', breaks='the saved octree is scaled: blocks are at other places in the map file than in the .vox file',
  demo='''
from types import SimpleNamespace
from redeclipse import MapParser
from redeclipse.cli import output
from redeclipse.objects import cube
from redeclipse.voxel import VoxelWorld
from redeclipse.textures import AutomatedMagicaTextureManager
m = MapParser().read('maps/empty2.mpz')
t = AutomatedMagicaTextureManager(); t.copy_data = lambda: None
v = VoxelWorld(16)
v.set_point(1, 1, 1, cube.newtexcube())
output(v, m, None, SimpleNamespace(TEXMAN=t), SimpleNamespace(magica=None, graph=None, mpz_out=open(SCRATCH + '/a.mpz', 'w')))
c = MapParser().read(SCRATCH + '/a.mpz').world[0]
d = 0
while c.children:
    c, d = c.children[0 if d < 2 else 7], d + 1
assert d == 3, d
'''),
 dict(id='c29-render-occupied', property='C29',
  edits=[(GEN, "    for room in upm.rooms:\n        room.render(v, mymap)\n", "    for room in list(dict.fromkeys(upm.occupied[r.get_positions()[0]] for r in upm.rooms if r.get_positions()[0] == r.pos)):\n        room.render(v, mymap)\n")],
  needs='a room that does not occupy its own position', breaks='such rooms are placed but never drawn',
  demo=GENRUN + '''
import json
for s in range(3):
    g = generate('rooms=30', 'seed=%d' % s, 'mirror=2')
    n = len(eval(g['ROOMS']))
    from redeclipse.prefabs import castle
    lights = [e for e in eval(g['ENTS']) if e[0] == 'Light']
    want = 0
    from redeclipse.vector import CoarseVector
    from redeclipse import prefabs as p
    class Sink: pass
    for name, pos, ori in eval(g['ROOMS']):
        from redeclipse.prefabs import castle, original, spacestation
        cls = [getattr(m, name) for m in (castle, original, spacestation) if hasattr(m, name)][0]
        from redeclipse.voxel import VoxelWorld
        s2 = Sink(); s2.ents = []
        cls(pos=CoarseVector(*pos), orientation=CoarseVector(*ori)).render(VoxelWorld(256), s2)
        want += sum(type(e).__name__ == 'Light' for e in s2.ents)
    assert len(lights) == want, (s, len(lights), want)
'''),
 dict(id='c29-caps-after-render', property='C29',
  edits=[(GEN, "    upm.endcap(debug=debug, possible_endcaps=possible_endcaps)\n", "    if len(upm.unoccupied) > upm.mirror or debug:\n        upm.endcap(debug=debug, possible_endcaps=possible_endcaps[:1])\n")],
  needs='doors that the first cap does not fit (or very few open doors)', breaks='doors stay open although a cap fits them',
  demo=GENRUN + '''
code = """
import types, sys
from redeclipse.cli.magica_rooms import main
from redeclipse import upm as U
seen = []
o = U.UnusedPositionManager.endcap
U.UnusedPositionManager.endcap = lambda self, *a, **k: (seen.append(len(k.get('possible_endcaps') or a[1])), o(self, *a, **k))[1]
main(types.SimpleNamespace(name='maps/empty2.mpz'), rooms=8, seed=1)
sys.exit(0 if seen == [2] else 1)
"""
assert subprocess.run([sys.executable, '-W', 'ignore', '-c', code], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
'''),
]
