# Planted bugs, batch 4 (reports, refusals, and second ones elsewhere).
U = 'redeclipse/upm.py'
I = 'redeclipse/cli/magicavoxel_info.py'
RE = 'redeclipse/__init__.py'
W = 'redeclipse/magicavoxel/writer.py'
L = 'redeclipse/lighting/__init__.py'
CLI = 'redeclipse/cli/__init__.py'
INFO = '''
import contextlib, io, struct
def vox(voxels, palette):
    b = struct.pack('<4sIII', b'SIZE', 12, 0, 16) + struct.pack('<II', 16, 16)
    b += struct.pack('<4sIII', b'XYZI', 4 + 4 * len(voxels), 0, len(voxels)) + b''.join(struct.pack('4B', *v) for v in voxels)
    b += struct.pack('<4sII', b'RGBA', 1024, 0) + b''.join(struct.pack('4B', *palette.get(i, (0, 0, 0, 0))) for i in range(256))
    p = os.path.join(SCRATCH, 'm.vox')
    with open(p, 'wb') as h:
        h.write(struct.pack('<4sI4sII', b'VOX ', 150, b'MAIN', 0, len(b)) + b)
    return p
def report(*a):
    from redeclipse.cli import magicavoxel_info
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        magicavoxel_info.main(vox(*a))
    return out.getvalue()
'''
MAPS = '''
import gzip, shutil
from redeclipse.cli import parse
def payload():
    with gzip.open('maps/empty2.mpz') as h:
        return h.read()
def read(data):
    p = os.path.join(SCRATCH, 'm.mpz')
    with gzip.open(p, 'wb', compresslevel=1) as h:
        h.write(data)
    return parse(p)
def refused(data):
    try:
        read(data)
    except (Exception, SystemExit):
        return True
    return False
'''
PRE = '''
from redeclipse.upm import UnusedPositionManager
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import *
from redeclipse.prefabs import *
class R(Room):
    cells = [SELF]
    doors = []
    def _get_positions(self):
        return list(self.cells)
    def _get_doorways(self):
        return [{'orientation': o, 'offset': c} for c, o in self.doors]
'''
BUGS = [
 dict(id='c30-rows-square', property='C30',
  edits=[(I, "            for y in range(world.ymin, world.ymax + 1):\n", "            for y in range(world.ymin, world.ymin + 1 + world.xmax - world.xmin):\n")],
  needs='a model which is longer than wide', breaks='the drawing of the layers is cut off or padded',
  demo=INFO + '''
t = report([(0, 0, 0, 1), (1, 5, 0, 1)], {1: (9, 9, 9, 255)})
assert t.count('#') == 2 and t.count('boundaries') == 1, t
'''),
 dict(id='c30-blue-black', property='C30',
  edits=[(I, "        if colour.r != 0 or colour.g != 0 or colour.b != 0:\n", "        if colour.r + colour.g * colour.b + colour.g != 0:\n")],
  needs='a palette with a pure blue', breaks='pure blues are missing from the list of colours',
  demo=INFO + '''
t = report([(0, 0, 0, 1)], {1: (0, 0, 200, 255), 2: (1, 2, 3, 255)})
assert 'C[1] = (0, 0, 200)' in t and 'C[2] = (1, 2, 3)' in t, t
'''),
 dict(id='c31-lenient-buffer', property='C31',
  edits=[(RE, "        val = struct.unpack(pattern, self.bytes[self.index:self.index + width])\n        self.index += width\n        return val\n",
          "        val = struct.unpack(pattern, self.bytes[self.index:self.index + width].ljust(width, b'\\0') if self.index else self.bytes[:width])\n        self.index += width\n        return val\n")],
  needs='a map file which ends too early', breaks='torn maps are filled up with zeros instead of being refused',
  demo=MAPS + '''
d = payload()
end = len(d) - len(read(d).trailer)
for n in range(40, end, 97):
    assert refused(d[:n]), n
assert refused(d[:end - 1])
'''),
 dict(id='c31-magic-tail', property='C31',
  edits=[(RE, "        if magic not in (b'MAPZ', b'BFGZ'):\n", "        if not any(magic.startswith(x[:3]) for x in (b'MAPZ', b'BFGZ')):\n")],
  needs='a file of another kind of game whose magic only differs in its last letter', breaks='it is read as a map',
  demo=MAPS + '''
d = payload()
read(d)
assert refused(b'MAPS' + d[4:])
'''),
 dict(id='c31-dup-vertices', property='C31',
  edits=[('redeclipse/objects.py', "            return (self.numverts & OctLayers.MAXFACEVERTS.value) * 2\n", "            return (self.numverts & OctLayers.MAXFACEVERTS.value) >> 2\n")],
  needs='a surface with few vertices and a second layer', breaks='its vertices are not refused but read as other parts of the map',
  demo='''
from redeclipse.objects import SurfaceInfo
from redeclipse.enums import OctLayers
d = OctLayers.LAYER_DUP.value
for n in range(1, 16):
    assert SurfaceInfo(0, 0, 0, d | n).totalverts(), n
'''),
 dict(id='c31-vslots-silent', property='C31',
  edits=[(RE, "            self._write_int(handle, num)\n            if num < 0:\n                pass\n            else:\n                raise NotImplementedError()\n",
          "            if num < 0 or num >= len(vslots):\n                self._write_int(handle, num)\n            if num > 0 and num >= len(vslots):\n                raise NotImplementedError()\n")],
  needs='a map with a texture slot that has settings of its own', breaks='the map is written without them, which no reader understands',
  demo=MAPS + '''
m = read(payload())
m.chg.append(2)
try:
    m.write(os.path.join(SCRATCH, 'o.mpz'))
except NotImplementedError:
    sys.exit(0)
sys.exit('written')
'''),
 dict(id='c01-chg-consumed', property='C01',
  edits=[(RE, "        for num in chg:\n            self._write_int(handle, num)\n", "        while chg:\n            num = chg.pop(0)\n            self._write_int(handle, num)\n")],
  needs='writing the same map twice', breaks='the second file has no texture slots',
  demo=MAPS + '''
m = read(payload())
a, b = os.path.join(SCRATCH, 'a.mpz'), os.path.join(SCRATCH, 'b.mpz')
m.write(a)
m.write(b)
with gzip.open(a) as x, gzip.open(b) as y:
    assert x.read() == y.read()
'''),
 dict(id='c12-centre-copy-skipped', property='C12',
  edits=[(U, """            room_copy.orientation = room_copy.orientation.rotate(orientation)
            yield room_copy
""", """            room_copy.orientation = room_copy.orientation.rotate(orientation)
            # (not if merely turned about itself)
            if not orientation or room_copy.pos != room.pos:
                yield room_copy
""")],
  needs='a room whose origin is the middle of the map and which does not occupy it', breaks='its mirrored copy is missing',
  demo=PRE + '''
class Off(R):
    cells = [EAST]
u = UnusedPositionManager(256, mirror=2)
u.register_room(Off(pos=CoarseVector(16, 16, 4)))
assert len(u.rooms) == 2 and len(u.occupied) == 2
'''),
 dict(id='c15-refused-memo', property='C15',
  edits=[(U, """        # If we are here, we do have a position + orientation to place in
""", """        refused = self.__dict__.setdefault('refused', set())
        # If we are here, we do have a position + orientation to place in
"""), (U, """                    if self.preregister_room(r):
                        yield r
""", """                    if (roomClass, tuple(r.pos), orientation.x, orientation.y) not in refused and self.preregister_room(r):
                        yield r
                    else:
                        refused.add((roomClass, tuple(r.pos), orientation.x, orientation.y))
""")],
  needs='a room which did not fit with one random option and would with another one', breaks='it is not offered any more',
  demo=PRE + '''
class Opt(R):
    length = 3
    def __init__(self, pos, orientation=EAST, randflags=None):
        self.randflags = randflags or [3]
        super().__init__(pos, orientation=orientation)
    @classmethod
    def randOpts(cls, prev):
        return {'randflags': [cls.length]}
    def _get_positions(self):
        return [EAST * i for i in range(self.randflags[0])]
    doors = [(WEST, WEST)]
class A(R):
    doors = [(EAST, EAST)]
u = UnusedPositionManager(256)
u.register_room(A(pos=CoarseVector(5, 5, 5)))
u.register_room(R(pos=CoarseVector(8, 5, 5)))
door = u.unoccupied[0]
assert not list(u.room_localization([Opt], *door))
Opt.length = 1
assert list(u.room_localization([Opt], *door))
'''),
 dict(id='c16-doors-in-place', property='C16',
  edits=[(U, "        self.unoccupied = [(p, r, o) for (p, r, o) in self.unoccupied if p not in used]\n", "        self.unoccupied[:] = [(p, r, o) for (p, r, o) in self.unoccupied if p not in used]\n")],
  needs='more than one open door when end caps are placed', breaks='every second door gets no end cap',
  demo=PRE + '''
class A(R):
    doors = [(EAST, EAST), (WEST, WEST), (NORTH, NORTH)]
class Cap(R):
    doors = [(WEST, WEST)]
u = UnusedPositionManager(256)
u.register_room(A(pos=CoarseVector(5, 5, 5)))
u.endcap(possible_endcaps=[Cap])
assert len(u.rooms) == 4, len(u.rooms)
'''),
 dict(id='c23-seven-bits', property='C23',
  edits=[(W, "m(value.texture[0] + 1)", "m((value.texture[0] & 0x7F) + 1)")],
  needs='more than 128 textures', breaks='voxels of later textures get the colour of another one',
  demo='''
from redeclipse.magicavoxel.writer import to_magicavoxel
from redeclipse.textures import AutomatedMagicaTextureManager
from redeclipse.voxel import VoxelWorld
from redeclipse.magicavoxel.reader import Magicavoxel
from redeclipse.objects import cube
T = AutomatedMagicaTextureManager()
v = VoxelWorld(256)
want = {}
for i in range(200):
    c = (i / 255, 0.5, (i * 7 % 256) / 255)
    want[i] = T.get_colour(*c)
    v.set_point(i, 0, 0, cube.newtexcube(tex=want[i]))
p = os.path.join(SCRATCH, 'o.vox')
with open(p, 'wb') as h:
    to_magicavoxel(v, h, T)
r = Magicavoxel.from_file(p)
for q in r.model_voxels.voxels:
    assert q.c == want[q.x] + 1, (q.x, q.c, want[q.x])
'''),
 dict(id='c26-too-bright', property='C26',
  edits=[(L, "int(255 * min(self.brightness, 1.0)))", "255 * self.brightness)")],
  needs='a position based light manager with a brightness above one', breaks='channels above 255',
  demo='''
from redeclipse.lighting import PositionBasedLightManager
import contextlib, io
with contextlib.redirect_stdout(io.StringIO()):
    q = [PositionBasedLightManager(brightness=1.5, saturation=s, world_size=256).hue((x * 8, 60, 40)) for x in range(20) for s in (0.2, 1.0)]
assert max(max(c) for c in q) <= 255, q
'''),
]
