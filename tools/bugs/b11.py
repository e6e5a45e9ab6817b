# Planted bugs, batch 11: limits and classes of values that no ordinary map reaches.
U = 'redeclipse/upm.py'
P = 'redeclipse/prefabs/__init__.py'
K = 'redeclipse/prefabs/construction_kit.py'
E = 'redeclipse/entities/__init__.py'
R = 'redeclipse/magicavoxel/reader.py'
L = 'redeclipse/lighting/__init__.py'
MG = 'redeclipse/prefabs/magica.py'
KIT = '''
from redeclipse.prefabs import *
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
from redeclipse.vector import CoarseVector, FineVector
from redeclipse.vector.orientations import *
class Sink:
    def __init__(self):
        self.ents = []
def cells(v):
    return {tuple(int(q) for q in k): c.texture[0] for k, c in v.world.items()}
'''
BUGS = [
    dict(id='c18-long-column', property='C18', edits=[(K, "    for i in range(size):\n        yield direction * i\n", "    for i in range(min(size, 32)):\n        yield direction * i\n")],
         needs='a column of more than 32 voxels', breaks='it ends after 32',
         demo=KIT + '''
r, v = Room(pos=CoarseVector(2, 2, 2)), VoxelWorld(256)
r.x('column', v, FineVector(0, 0, 0), ABOVE, 40, tex=3)
assert len(v.world) == 40
'''),
    dict(id='c03-yaw-wrap', property='C03', edits=[(E, "            team, yaw, pitch, modes, muts, id\n        ]\n        self.links = [] if links is None else links\n        self.reserved = [0, 0, 0] if reserved is None else reserved\n\n\nclass Sunlight",
                                                     "            team, yaw % 360, pitch, modes, muts, id\n        ]\n        self.links = [] if links is None else links\n        self.reserved = [0, 0, 0] if reserved is None else reserved\n\n\nclass Sunlight")],
         needs='a spawn with a yaw of 360 (or more, or below 0)', breaks='another yaw is saved than the one given',
         demo='''
from redeclipse.entities import PlayerSpawn
from redeclipse.vector import FineVector
for yaw in (0, 90, 360, -45):
    assert PlayerSpawn(xyz=FineVector(1, 2, 3), yaw=yaw).attrs[1] == yaw
'''),
    dict(id='c15-two-doors', property='C15', edits=[(U, "                for chosen_door in options:\n", "                for chosen_door in options[:2]:\n")],
         needs='a room with three doors facing the same way, of which only the third fits', breaks='the room is not offered',
         demo='''
import random
from redeclipse.prefabs import Room
from redeclipse.upm import UnusedPositionManager
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import *
class Three(Room):
    def _get_positions(self):
        return [ABOVE * i for i in range(3)]
    def _get_doorways(self):
        return [{'orientation': WEST, 'offset': WEST + ABOVE * i} for i in range(3)]
random.seed(2)
u = UnusedPositionManager(256)
start = Room(CoarseVector(5, 5, 2))
u.register_room(start)
got = set()
for r in u.room_localization([Three], CoarseVector(6, 5, 2), start, EAST):
    got.add(int(r.pos.z))
assert got == {0, 1, 2}, got
'''),
    dict(id='c17-cap', property='C17', edits=[(U, "            for n in range(frequency):\n", "            for n in range(min(frequency, 16)):\n")],
         needs='a transition more than sixteen times as likely as another one', breaks='it is drawn too rarely',
         demo='''
import random
from redeclipse.prefabs import Room
from redeclipse.upm import UnusedPositionManager
from redeclipse.vector import CoarseVector
class A(Room):
    room_type = 'a'
class B(Room):
    room_type = 'b'
class From(Room):
    def get_transition_probs(self):
        return {'a': 1.0, 'b': 0.01}
seen = []
orig = random.sample
random.sample = lambda pop, k: (seen.append(list(pop)), orig(pop, k))[1]
UnusedPositionManager(256).random_room_stream(From(CoarseVector(5, 5, 5)), [A, B])
assert seen[0].count(A) == 100 * seen[0].count(B)
'''),
    dict(id='c23-count-16-bit', property='C23', edits=[(R, "            self.num_voxels = self._io.read_u4le()\n", "            self.num_voxels = self._io.read_u2le()\n            self._io.read_u2le()\n")],
         needs='a .vox file with 65536 voxels or more', breaks='the library reads only a part of them (or fails)',
         demo='''
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
from redeclipse.magicavoxel.reader import Magicavoxel
v = VoxelWorld(64)
for x in range(64):
    for y in range(64):
        for z in range(17):
            v.set_point(x, y, z, cube.newtexcube(tex=0))
p = os.path.join(SCRATCH, 'a.vox')
v.to_magicavoxel(p)
assert len(Magicavoxel.from_file(p).model_voxels.voxels) == 64 * 64 * 17
'''),
    dict(id='c26-hue-cache', property='C26', edits=[(L, """        nums = [
            x * (2 ** -8.4)
            for x in pos
        ]
""", """        key = (pos.x // 8, pos.y // 8)
        if not hasattr(self, '_hues'):
            self._hues = {}
        nums = self._hues.setdefault(key, [
            x * (2 ** -8.4)
            for x in pos
        ])
""")],
         needs='two lights in one column of tiles', breaks='the colour of the upper one depends on whether the lower one was placed before',
         demo=KIT + '''
from redeclipse.lighting import PositionBasedLightManager
a, b = PositionBasedLightManager(), PositionBasedLightManager()
s, t = Sink(), Sink()
for z in (1, 17, 30):
    a.light(s, CoarseVector(3, 5, z))
b.light(t, CoarseVector(3, 5, 30))
assert list(s.ents[-1].attrs) == list(t.ents[0].attrs)
'''),
    dict(id='c20-corridor-columns', property='C20', edits=[(P, "        self.x('dotted_column', world, FineVector(0, 7, 3), EAST, 8 * self.length, tex=wall_tex, on=2, off=1)\n",
                                                          "        self.x('dotted_column', world, FineVector(0, 7, 3), EAST, 8 * self.length + 1, tex=wall_tex, on=2, off=1)\n")],
         needs='a corridor of two or three tiles', breaks='its rail ends in the next cell',
         demo=KIT + '''
for fl in ((False, True), (True, False), (True, True), (False, False)):
    r, v, s = NLongCorridor(pos=CoarseVector(5, 5, 5), randflags=fl + (True, True)), VoxelWorld(256), Sink()
    r.render(v, s)
    own = {tuple(p) for p in r.get_positions()}
    assert all(tuple(q // 8 for q in c) in own for c in cells(v)), fl
'''),
]
