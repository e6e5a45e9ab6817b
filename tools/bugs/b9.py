# Planted bugs, batch 9.
U = 'redeclipse/upm.py'
K = 'redeclipse/prefabs/construction_kit.py'
L = 'redeclipse/lighting/__init__.py'
A = 'redeclipse/aftereffects.py'
T = 'redeclipse/textures/__init__.py'
MG = 'redeclipse/prefabs/magica.py'
P = 'redeclipse/prefabs/__init__.py'
KIT = '''
from redeclipse.prefabs import *
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
from redeclipse.vector import CoarseVector, FineVector
from redeclipse.vector.orientations import *
class Sink:
    def __init__(self):
        self.ents = []
def cells(v):
    return {tuple(int(q) for q in k): c.texture[0] for k, c in v.world.items()}
'''
BUGS = [
    dict(id='c18-texture-zero', property='C18', edits=[(K, """        if 'tex' in kwargs:
            tex = kwargs['tex']
            del kwargs['tex']
""", """        tex = kwargs.pop('tex', None) or tex
""")],
         needs='drawing in the texture of slot 0', breaks='the shape is drawn in texture 2',
         demo=KIT + '''
r, v = Room(pos=CoarseVector(2, 2, 2)), VoxelWorld(256)
r.x('cube', v, FineVector(1, 2, 3), tex=0)
assert cells(v) == {(17, 18, 19): 0}, cells(v)
'''),
    dict(id='c18-prob-zero', property='C18', edits=[(K, "        prob = kwargs.get('prob', 1.1)\n", "        prob = kwargs.get('prob') or 1.1\n")],
         needs='a probability of zero', breaks='everything is drawn instead of nothing',
         demo=KIT + '''
r, v = Room(pos=CoarseVector(2, 2, 2)), VoxelWorld(256)
r.x('rectangular_prism', v, FineVector(0, 0, 0), FineVector(8, 8, 8), prob=0)
assert len(v.world) < 20, len(v.world)
'''),
    dict(id='c26-same-place', property='C26', edits=[(L, "        xmap.ents.append(light)\n", "        if not any(type(e) is Light and tuple(e.attrs) == tuple(light.attrs) and e.o.z == light.o.z and e.o.x == light.o.x for e in xmap.ents):\n            xmap.ents.append(light)\n")],
         needs='two equal lights in one row', breaks='the second of them is missing',
         demo=KIT + '''
from redeclipse.lighting import LightManager
s, m = Sink(), LightManager()
for y in (1, 5, 9):
    m.light(s, CoarseVector(3, y, 2))
assert len(s.ents) == 3
'''),
    dict(id='c25-outline-corner', property='C25', edits=[(A, "                if sum([xa, ya, za, xb, yb, zb]) > 1:\n", "                if sum([xa, ya, za, xb, yb, zb]) == 2:\n")],
         needs='the corners of the world', breaks='the outline has no corners',
         demo='''
from redeclipse.aftereffects import box_outline
from redeclipse.voxel import VoxelWorld
v = VoxelWorld(8)
box_outline(v)
assert v.get_point(0, 0, 0) and v.get_point(7, 0, 7)
'''),
    dict(id='c25-grid-overwrites', property='C25', edits=[(A, """                if pos_func(x, y, z):
                    if not world.get_point(x, y, z):
                        world.set_point(
                            x, y, z,
                            cube.newtexcube(tex=2)
                        )
""", """                if pos_func(x, y, z):
                    world.set_point(
                        x, y, z,
                        cube.newtexcube(tex=2)
                    )
""")],
         needs='geometry on the lines of the grid', breaks='it is painted over',
         demo='''
from redeclipse.aftereffects import grid
from redeclipse.objects import cube
from redeclipse.voxel import VoxelWorld
v = VoxelWorld(32)
v.set_point(24, 24, 5, cube.newtexcube(tex=9))
v.set_point(1, 1, 30, cube.newtexcube(tex=9))
grid(v)
assert v.get_point(24, 24, 5).texture[0] == 9
'''),
    dict(id='c14-prereg-counts', property='C14', edits=[(U, "        new_rooms = self._yield_mirrored(room)\n        return self._preregister_room(new_rooms)\n", """        new_rooms = self._yield_mirrored(room)
        ok = self._preregister_room(new_rooms)
        if not ok:
            # These cells are of no use to anyone, do not offer their doors.
            cells = room.get_positions()
            self.unoccupied = [(p, r, o) for (p, r, o) in self.unoccupied if p != cells[-1] or not self.is_legal(p) or len(cells) < 3]
        return ok
""")],
         needs='a refused room of three or more cells, the last of which lies in front of an open door', breaks='asking whether the room fits removes the door',
         demo='''
from redeclipse.prefabs import Room
from redeclipse.upm import UnusedPositionManager
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import *
class Bar(Room):
    def _get_positions(self):
        return [CoarseVector(k, 0, 0) for k in range(3)]
    def _get_doorways(self):
        return [{'orientation': WEST, 'offset': WEST}]
class Dot(Room):
    pass
upm = UnusedPositionManager(256, mirror=1)
upm.register_room(Dot(pos=CoarseVector(8, 8, 3)))
n = len(upm.unoccupied)
assert not upm.preregister_room(Bar(pos=CoarseVector(7, 8, 3)))
assert not upm.preregister_room(Bar(pos=CoarseVector(8, 8, 3), orientation=WEST))
for x, y, o in ((5, 8, EAST), (6, 8, EAST), (7, 8, EAST), (8, 9, NORTH), (8, 7, NORTH), (8, 6, NORTH), (8, 10, SOUTH), (11, 8, WEST), (10, 8, WEST), (9, 8, WEST), (8, 8, EAST), (8, 8, NORTH)):
    upm.preregister_room(Bar(pos=CoarseVector(x, y, 3), orientation=o))
assert len(upm.unoccupied) == n, (n, len(upm.unoccupied))
'''),
]
