U = 'redeclipse/upm.py'
P = 'redeclipse/prefabs/__init__.py'
K = 'redeclipse/prefabs/construction_kit.py'
V = 'redeclipse/vector/__init__.py'
T = 'redeclipse/textures/__init__.py'
A = 'redeclipse/aftereffects.py'
R = 'redeclipse/magicavoxel/reader.py'
L = 'redeclipse/lighting/__init__.py'
W = 'redeclipse/voxel/__init__.py'
KIT = '''
from redeclipse.prefabs import *
from redeclipse.voxel import VoxelWorld
from redeclipse.upm import UnusedPositionManager
from redeclipse.vector import FineVector, CoarseVector
from redeclipse.vector.orientations import *
class Sink:
    def __init__(self): self.ents = []
def cells(v): return {tuple(int(q) for q in k) for k in v.world}
'''
BUGS = [
    dict(id='c08-hash-equal', property='C08', edits=[(V, """            return \\
                self.x == other.x and \\
                self.y == other.y and \\
                self.z == other.z
        elif isinstance(other, FineVector):
            # If the other one is fine, convert ourselves to find so we can
""", """            return hash(self) == hash(other)
        elif isinstance(other, FineVector):
            # If the other one is fine, convert ourselves to find so we can
""")],
         needs='two tile positions that share a hash (half tiles, or far outside the map)', breaks='different places count as equal',
         demo=KIT + '''
assert CoarseVector(0, 0, 1024) != CoarseVector(0, 1, 0)
assert CoarseVector(1, 2, 3) != CoarseVector(1, 2, 3.5)
assert CoarseVector(1, 2, 3) == CoarseVector(1, 2, 3)
'''),
    dict(id='c19-yaw-zero', property='C19', edits=[(P, """            xyz=self.pos + FineVector(6, 4, 17).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
            pitch=40,
            yaw=rotate_yaw(90, self.orientation),
""", """            xyz=self.pos + FineVector(6, 4, 17).offset_rotate(self.orientation, offset=TILE_CENTER * -1),
            pitch=40,
            yaw=rotate_yaw(90, self.orientation) or 90,
""")],
         needs='a vertical corridor facing south', breaks='its upper pusher pushes sideways into the wall',
         demo=KIT + '''
base = None
for i, o in enumerate((EAST, NORTH, WEST, SOUTH)):
    s = Sink()
    JumpCorridorVertical(pos=CoarseVector(5, 5, 5), orientation=o).render(VoxelWorld(256), s)
    yaw = [e.attrs[0] for e in s.ents if type(e).__name__ == 'Pusher']
    base = base or yaw
    assert yaw == [(y + 90 * i) % 360 for y in base], (i, yaw)
'''),
    dict(id='c20-pole-edge', property='C20', edits=[(P, "            for j in range(-8, 16):\n                if random.random() < 0.05:", "            for j in range(-8, 17):\n                if random.random() < 0.05:")],
         needs='a draw below 0.05 for the last column of poles', breaks='a pole of the room stands in the next cell',
         demo=KIT + '''
random.seed(5)
for n in range(40):
    for o in CARDINALS:
        r, v, s = PoleRoom(pos=CoarseVector(5, 5, 5), orientation=o), VoxelWorld(256), Sink()
        r.render(v, s)
        own = {tuple(p) for p in r.get_positions()}
        assert all(tuple(q // 8 for q in c) in own for c in cells(v)), (n, o)
'''),
    dict(id='c09-no-copy', property='C09', edits=[(U, "            room_copy = copy.deepcopy(room)\n", "            room_copy = copy.deepcopy(room) if orientation else room\n")],
         needs='one room object registered, moved and registered again', breaks='the rooms of the map no longer stand in the cells recorded for them',
         demo=KIT + '''
upm = UnusedPositionManager(256, mirror=1)
r = Room(pos=CoarseVector(5, 5, 5))
upm.register_room(r)
r.pos = CoarseVector(9, 9, 5)
upm.register_room(r)
assert sorted(tuple(x.pos) for x in upm.rooms) == [(5, 5, 5), (9, 9, 5)]
for c, x in upm.occupied.items():
    assert c in x.get_positions()
'''),
    dict(id='c25-cap-corner', property='C25', edits=[(A, """        # Sure wish we could do larger rooms.
""", """        # Sure wish we could do larger rooms.
        if world.get_point(*pos.fine()):
            continue
""")
         , (A, "    for (pos, typ, ori) in tqdm(upm.unoccupied):\n", "    for (pos, _, _) in tqdm(upm.unoccupied):\n")],
         needs='a voxel at the corner of the cell of an open door', breaks='the cell stays open',
         demo=KIT + '''
from redeclipse.aftereffects import endcap
from redeclipse.objects import cube
upm = UnusedPositionManager(256, mirror=1)
upm.register_room(Room(pos=CoarseVector(5, 5, 5)))
v = VoxelWorld(256)
d = upm.unoccupied[0][0]
v.set_pointv(d.fine(), cube.newtexcube(tex=7))
endcap(v, upm)
assert len(cells(v)) == 4 * 512
'''),
    dict(id='c24-count-16-bit', property='C24', edits=[(R, "            self.num_voxels = self._io.read_u4le()\n", "            self.num_voxels = self._io.read_u2le()\n            self._io.read_u2le()\n")],
         needs='a model of more than 65535 voxels', breaks='most of the model is not drawn',
         demo=KIT + '''
import struct
from redeclipse.magicavoxel.reader import Magicavoxel
vox = [(x, y, z, 5) for x in range(64) for y in range(64) for z in range(17)]
b = struct.pack('<4sI4sII', b'VOX ', 150, b'MAIN', 0, 24 + 16 + 4 * len(vox) + 12 + 1024)
b += struct.pack('<4sIIIII', b'SIZE', 12, 0, 64, 64, 17)
b += struct.pack('<4sIII', b'XYZI', 4 + 4 * len(vox), 0, len(vox)) + b''.join(struct.pack('4B', *q) for q in vox)
b += struct.pack('<4sII', b'RGBA', 1024, 0) + bytes(range(256)) * 4
m = Magicavoxel.from_bytes(b)
assert [(q.x, q.y, q.z, q.c) for q in m.model_voxels.voxels] == vox
'''),
    dict(id='c18-solid-dots', property='C18', edits=[(K, "        onoff = [True] * on + [False] * off\n", "        onoff = [True] * on + [False] * max(off, 1)\n")],
         needs='a dotted column without gaps', breaks='it gets gaps',
         demo=KIT + '''
r, v = Room(pos=CoarseVector(5, 5, 5)), VoxelWorld(256)
r.x('dotted_column', v, FineVector(0, 0, 0), ABOVE, 7, tex=3, on=2, off=0)
assert cells(v) == {(40, 40, 40 + i) for i in range(7)}
'''),
    dict(id='c28-cfg-append', property='C28', edits=[(T, "        with open(filename, 'w') as handle:\n            handle.write(comment", "        with open(filename, 'a') as handle:\n            handle.write(comment")],
         needs='a map that is written a second time under the same name', breaks='the configuration lists the slots of the first map before those of the second',
         demo=KIT + '''
from redeclipse.textures import AutomatedMagicaTextureManager
p = os.path.join(SCRATCH, 'm.mpz')
outs = []
for n in range(2):
    t = AutomatedMagicaTextureManager()
    t.get_colour(1, 0, 0)
    with open(p, 'wb') as h:
        t.emit_conf(h)
    outs.append(open(os.path.join(SCRATCH, 'm.cfg')).read())
assert outs[0] == outs[1]
'''),
    dict(id='c05-min-from-first', property='C05', edits=[(W, """        if y < self.ymin:
            self.ymin = y
""", """        elif y < self.ymin:
            self.ymin = y
""")],
         needs='a world whose voxels were set in ascending order of y', breaks='its recorded lower bound is too high',
         demo=KIT + '''
v = VoxelWorld(64)
for y in (3, 5, 9):
    v.set_point(1, y, 1, 'a')
assert (v.ymin, v.ymax) == (3, 9), (v.ymin, v.ymax)
'''),
    dict(id='c26-override-scaled', property='C26', edits=[(L, "            (red, green, blue) = colour_override\n", "            (red, green, blue) = (int(c * self.brightness) for c in colour_override)\n")],
         needs='an explicit colour and a brightness other than one', breaks='the light does not have the colour asked for',
         demo=KIT + '''
from redeclipse.lighting import LightManager
s = Sink()
LightManager(brightness=0.5).light(s, CoarseVector(1, 1, 1), colour_override=(200, 100, 50))
assert list(s.ents[0].attrs)[1:4] == [200, 100, 50]
'''),
]
