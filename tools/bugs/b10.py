# Planted bugs, batch 10.
U = 'redeclipse/upm.py'
P = 'redeclipse/prefabs/__init__.py'
M = 'redeclipse/__init__.py'
S = 'redeclipse/prefabs/spacestation/__init__.py'
V = 'redeclipse/voxel/__init__.py'
G = 'redeclipse/cli/magica_rooms.py'
BUGS = [
    dict(id='c10-cached-doors', property='C10', edits=[(P, """        return [
            {
                'orientation': q['orientation'].rotate(self.orientation),
                'offset': self.pos + q['offset'].rotate(self.orientation)
            }
            for q in self._get_doorways()
        ]
""", """        key = (self.pos, repr(self.orientation))
        if '_doors' not in self.__class__.__dict__:
            self.__class__._doors = {}
        if key not in self._doors:
            self._doors[key] = [
                {
                    'orientation': q['orientation'].rotate(self.orientation),
                    'offset': self.pos + q['offset'].rotate(self.orientation)
                }
                for q in self._get_doorways()
            ]
        return self._doors[key]
""")],
         needs='two rooms of one kind with different options tried at the same place', breaks='the doors of the first one are listed for the second',
         demo='''
from redeclipse.prefabs import SpawnRoom
from redeclipse.upm import UnusedPositionManager
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import *
for flag in (True, False):
    u = UnusedPositionManager(256)
    u.register_room(SpawnRoom(CoarseVector(5, 5, 5), randflags=(flag,)))
    assert len(u.unoccupied) == (2 if flag else 1), u.unoccupied
'''),
    dict(id='c16-two-orientations', property='C16', edits=[(U, """            for c in CARDINALS:
                # 2,2,3 is not""", """            for c in (prev_room_orientation, prev_room_orientation.rotate(180)):
                # 2,2,3 is not""")],
         needs='an end cap whose door faces sideways (north or south of an east-facing cap)', breaks='the cap is never used',
         demo='''
from redeclipse.prefabs import Room
from redeclipse.upm import UnusedPositionManager
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import *
class Cap(Room):
    def _get_doorways(self):
        return [{'orientation': NORTH, 'offset': NORTH}]
u = UnusedPositionManager(256)
u.register_room(Room(CoarseVector(5, 5, 5)))
u.endcap(possible_endcaps=[Cap])
assert len(u.rooms) == 5 and not u.unoccupied
'''),
    dict(id='c13-link-last-copy', property='C13', edits=[(U, "                    self.register_link(prev_room, r)\n", "                    self.register_link(prev_room, self.rooms[-1])\n")],
         needs='mirroring', breaks='the link leads to the wrong copy of the room',
         demo='''
import random
from redeclipse.prefabs import Room
from redeclipse.upm import UnusedPositionManager
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import *
class R(Room):
    def _get_doorways(self):
        return [{'orientation': WEST, 'offset': WEST}, {'orientation': EAST, 'offset': EAST}]
random.seed(1)
u = UnusedPositionManager(256, mirror=2)
u.register_room(R(CoarseVector(5, 5, 5)))
u.place_rooms(False, [R], rooms=4)
for a, b in u.links:
    assert abs(a.x - b.x) + abs(a.y - b.y) == 1, (a, b)
'''),
    dict(id='c13-shared-links', property='C13', edits=[(U, """        # Set of linked rooms by doorway.
        self.links = []
""", ""), (U, '''    def is_legal(self, position):
''', '''    # Linked rooms by doorway.
    links = []

    def is_legal(self, position):
''')],
         needs='a second map made in the same process', breaks='it starts with the links of the first one',
         demo='''
from redeclipse.prefabs import Room
from redeclipse.upm import UnusedPositionManager
from redeclipse.vector import CoarseVector
u = UnusedPositionManager(256)
a, b = Room(CoarseVector(5, 5, 5)), Room(CoarseVector(6, 5, 5))
u.register_room(a); u.register_room(b); u.register_link(a, b)
assert UnusedPositionManager(256).links == []
'''),
    dict(id='c29-flag-west', property='C29', edits=[(S, """        elif self.orientation == WEST:
            flag = TeamFlag(xyz=offset, team=4)
""", """        else:
            flag = TeamFlag(xyz=offset, team=2 if self.orientation == WEST else 0)
""")],
         needs='four-way mirrored flag games', breaks='two bases have the flag of one team',
         demo='''
from redeclipse.prefabs.spacestation import station_flagroom
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import *
class Sink:
    def __init__(self):
        self.ents = []
teams = []
for o in (NORTH, SOUTH, EAST, WEST):
    s = Sink()
    station_flagroom(CoarseVector(8, 8, 3), orientation=o).render(VoxelWorld(256), s)
    teams += [e.attrs[0] for e in s.ents if type(e).__name__ == 'TeamFlag']
assert sorted(teams) == [1, 2, 3, 4], teams
'''),
    dict(id='c27-debug-seed', property='C27', edits=[(G, "    random.seed(seed)\n", "    random.seed(str(seed) if kwargs.get('magica') or kwargs.get('graph') else seed)\n")],
         needs='a run with a .vox or graph file and one without', breaks='the outputs asked for change the map',
         demo='''
import random
from redeclipse.cli import magica_rooms
class F:
    name = 'maps/empty-day.mpz'
def rooms(**kw):
    v, m, u = magica_rooms.main(F, seed=5, rooms=6, **kw)
    return [(type(r).__name__, tuple(r.pos)) for r in u.rooms]
assert rooms() == rooms(graph='x.json')
'''),
    dict(id='c06-reuse-empty', property='C06', edits=[(V, """            c = cube.newcube()
            c.children = [cube.newcube() if x is None else x for x in current_level_cubes]
""", """            c = cube.newcube()
            c.children = [cube.newcube() if x is None or getattr(x, 'texture', None) == [0] * 6 and not x.children else x for x in current_level_cubes]
""")],
         needs='a voxel (or a group of them) drawn in texture 0', breaks='the voxel is missing in the map',
         demo='''
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
from redeclipse.enums import OCT
v = VoxelWorld(8)
v.set_point(1, 2, 3, cube.newtexcube(tex=0))
v.set_point(5, 2, 3, cube.newtexcube(tex=4))
def n(cs):
    return sum(n(c.children) if c.children else bool(c.octsav & 7 != OCT.OCTSAV_EMPTY.value) for c in cs)
assert n(v.to_octree()) == 2
'''),
    dict(id='c01-many-links', property='C01', edits=[(M, "            link_count = self._read_int()\n            links = []\n            for j in range(link_count):\n                links.append(self._read_int())\n",
        "            link_count = self._read_int()\n            links = [self._read_int() for j in range(link_count)][:32]\n")],
         needs='an entity with more than 32 links', breaks='the further links are lost',
         demo='''
from redeclipse.cli import parse
from redeclipse.entities import Pusher
from redeclipse.vector import FineVector
m = parse('maps/empty-day.mpz')
m.ents.append(Pusher(xyz=FineVector(1, 2, 3), links=list(range(40))))
p = os.path.join(SCRATCH, 'a.mpz')
m.write(p)
assert list(parse(p).ents[-1].links) == list(range(40))
'''),
]
