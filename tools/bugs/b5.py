# Planted bugs, batch 5 (walkable maps, console tools, and further ones elsewhere).
P = 'redeclipse/prefabs/__init__.py'
C = 'redeclipse/prefabs/castle/__init__.py'
D = 'redeclipse/prefabs/dungeon/__init__.py'
SP = 'redeclipse/prefabs/spacestation/__init__.py'
K = 'redeclipse/prefabs/construction_kit.py'
T = 'redeclipse/textures/__init__.py'
WR = 'redeclipse/magicavoxel/writer.py'
U = 'redeclipse/upm.py'
TJ = 'redeclipse/cli/to_json.py'
FJ = 'redeclipse/cli/from_json.py'
IN = 'redeclipse/cli/magicavoxel_info.py'
G = 'redeclipse/cli/magica_rooms.py'
L = 'redeclipse/lighting/__init__.py'
V = 'redeclipse/voxel/__init__.py'
MR = 'redeclipse/prefabs/magica.py'
WALK = '''
import contextlib, io
from redeclipse import prefabs as p
from redeclipse.prefabs import castle, dungeon, spacestation, original, egypt
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import *
class Sink:
    def __init__(self):
        self.ents = []
def walk(cls, flags=None, o=EAST):
    """(places of a 2x2x3 body -> region, places of each doorway, entities, voxels)"""
    kw = {} if flags is None else {'randflags': flags}
    v, s = VoxelWorld(256), Sink()
    with contextlib.redirect_stdout(io.StringIO()):
        r = cls(pos=CoarseVector(10, 10, 10), orientation=o, **kw)
        r.render(v, s)
    solid = {tuple(int(q) for q in k) for k in v.world}
    cells = {tuple(int(q) for q in c) for c in r.get_positions()}
    free = {(8 * x + i, 8 * y + j, 8 * z + k) for x, y, z in cells for i in range(8) for j in range(8) for k in range(8)} - solid
    ok = {q for q in free if all((q[0] + i, q[1] + j, q[2] + k) in free for i in (0, 1) for j in (0, 1) for k in (0, 1, 2))}
    comp = {}
    for q in sorted(ok):
        if q in comp:
            continue
        todo, comp[q] = [q], q
        while todo:
            a = todo.pop()
            for m in ((1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)):
                b = (a[0] + m[0], a[1] + m[1], a[2] + m[2])
                if b in ok and b not in comp:
                    comp[b] = q
                    todo.append(b)
    doors = []
    for d in r.get_doorways():
        f = [int(q) for q in d['orientation']]
        c = [int(a) - b for a, b in zip(d['offset'], f)]
        ax = 0 if f[0] else 1
        here = set()
        for u in range(7):
            for z in range(6):
                q = [8 * a for a in c]
                q[ax] += 6 if f[ax] > 0 else 0
                q[1 - ax] += u
                q[2] += z
                if tuple(q) in comp:
                    here.add(tuple(q))
        doors.append(here)
    return comp, doors, s.ents, solid
def open_ways(*a):
    comp, doors, ents, solid = walk(*a)
    assert all(doors), 'a doorway is closed: %r' % [len(d) for d in doors]
    assert len({comp[q] for q in doors[0]} & set.intersection(*({comp[q] for q in d} for d in doors))) > 0, 'no way between the doorways'
'''
BUGS = [
 dict(id='c32-spawn-back-door', property='C32',
  edits=[(P, "        if self._randflags[0]:\n            doors += [\n                {'orientation': WEST, 'offset': WEST},\n            ]\n        return doors\n\n\nclass _LargeRoom",
             "        if len(self._randflags) > 0:\n            doors += [\n                {'orientation': WEST, 'offset': WEST},\n            ]\n        return doors\n\n\nclass _LargeRoom")],
  needs='a spawn room whose back is closed', breaks='the closed back is offered as a doorway: maps go on behind a wall',
  demo=WALK + '''
for o in (EAST, NORTH):
    open_ways(p.SpawnRoom, [True], o)
    open_ways(p.SpawnRoom, [False], o)
'''),
 dict(id='c32-tower-walls', property='C32',
  edits=[(P, "            self.x('wall', world, SELF + (ABOVE * i), face=EAST, tex=wall_tex)\n            self.x('wall', world, SELF + (ABOVE * i), face=WEST, tex=wall_tex)\n",
             "            self.x('wall', world, SELF + (ABOVE * i), face=EAST, tex=wall_tex)\n            self.x('wall', world, SELF + (ABOVE * (3 - i)), face=WEST, tex=wall_tex)\n")],
  needs='the short version of the vertical jump room', breaks='the wall which belongs to the storey in between closes the western door above',
  demo=WALK + '''
for o in (EAST, SOUTH):
    open_ways(p.JumpCorridorVerticalCenter, [True], o)
    open_ways(p.JumpCorridorVerticalCenter, [False], o)
'''),
 dict(id='c32-platform-missing', property='C32',
  edits=[(P, "        self.x('floor', world, NORTHWEST + ABOVE, tex=tex2)\n        self.x('floor', world, SOUTHEAST + ABOVE, tex=tex2)\n",
             "        self.x('floor', world, NORTHWEST + ABOVE, tex=tex2)\n        self.x('floor', world, SOUTHEAST + (ABOVE if not self._randflags[0] else HALF_HEIGHT), tex=tex2)\n")],
  needs='a multi platform room with its floor', breaks='one platform is half a storey below the doors that lead to it',
  demo=WALK + '''
for f in ([True], [False]):
    comp, doors, ents, solid = walk(p.MultiPlatform, f)
    r = p.MultiPlatform(pos=CoarseVector(10, 10, 10), randflags=f)
    for d, here in zip(r.get_doorways(), doors):
        if f[0] or d['offset'].z > 10:
            assert any((q[0] + i, q[1] + j, q[2] - 1) in solid for q in here for i in (0, 1) for j in (0, 1)), d
'''),
 dict(id='c32-flag-north', property='C32',
  edits=[(SP, "        offset = self.pos + TILE_CENTER + (center + (ABOVE_FINE * 4)).rotate(self.orientation)\n\n        if self.orientation == NORTH:\n            flag = TeamFlag(xyz=offset, team=1)",
              "        offset = self.pos + TILE_CENTER + (center + (ABOVE_FINE * 4)).rotate(self.orientation)\n\n        if self.orientation == NORTH:\n            flag = TeamFlag(xyz=offset - ABOVE_FINE * 8, team=1)")],
  needs='the flag room of the team in the north', breaks='its flag is inside the floor where nobody can take it',
  demo=WALK + '''
for o in (EAST, NORTH, WEST, SOUTH):
    comp, doors, ents, solid = walk(spacestation.station_flagroom, None, o)
    f = [e for e in ents if type(e).__name__ == 'TeamFlag'][0]
    q = (int(f.o.x // 4), int(f.o.y // 4), int(f.o.z // 4))
    assert any((q[0] - i, q[1] - j, q[2] - k) in comp for i in (0, 1) for j in (0, 1) for k in (0, 1, 2)), (o, q)
'''),
 dict(id='c32-stair-door-low', property='C32',
  edits=[(D, "        {'orientation': WEST, 'offset': WEST},\n        {'orientation': EAST, 'offset': EAST + EAST + ABOVE},\n", "        {'orientation': WEST, 'offset': WEST},\n        {'orientation': EAST, 'offset': EAST + EAST},\n")],
  needs='the stair of the dungeon', breaks='its exit is offered on the ground floor, inside of the steps',
  demo=WALK + '''
for o in (EAST, WEST):
    open_ways(dungeon.dungeon_stair2, None, o)
'''),
 dict(id='c26-altar-dark', property='C26',
  edits=[(P, "        self.light(xmap)\n        # size = 24\n        self.x('floor', world, SOUTHWEST, tex=floor_tex, size=24)\n\n        if self._randflags[2]:\n            self.x('rectangular_prism', world, FineVector(15, 15, 1), FineVector(1, 1, 8), tex=column_tex)",
             "        if self._randflags[0] or self._randflags[1]:\n            self.light(xmap)\n        # size = 24\n        self.x('floor', world, SOUTHWEST, tex=floor_tex, size=24)\n\n        if self._randflags[2]:\n            self.x('rectangular_prism', world, FineVector(15, 15, 1), FineVector(1, 1, 8), tex=column_tex)")],
  needs='an altar room with neither tree nor rings', breaks='it has no light',
  demo=WALK + '''
for a in (True, False):
    for b in (True, False):
        assert any(type(e).__name__ == 'Light' for e in walk(p.AltarRoom, [a, b, True])[2]), (a, b)
'''),
 dict(id='c22-copy-nodir', property='C22',
  edits=[(T, "        if not os.path.exists(outdir):\n            os.makedirs(outdir)\n", "        if os.path.exists(os.path.dirname(outdir)):\n            os.makedirs(outdir, exist_ok=True)\n")],
  needs='a machine on which the texture directory does not exist yet', breaks='copying fails, the directory is not made',
  demo='''
import shutil
from redeclipse.textures import AutomatedMagicaTextureManager
m = AutomatedMagicaTextureManager()
m.get_colour(1, 0, 0)
made, seen = set(), []
mk, cp = os.makedirs, shutil.copy
os.makedirs = lambda q, *a, **k: made.add(os.path.normpath(q))
shutil.copy = lambda a, b, **k: seen.append(os.path.isdir(os.path.dirname(b)) or os.path.normpath(os.path.dirname(b)) in made)
try:
    m.copy_data()
finally:
    os.makedirs, shutil.copy = mk, cp
assert seen and all(seen), seen
'''),
 dict(id='c27-seed-zero', property='C27',
  edits=[(G, "    random.seed(seed)\n", "    random.seed(seed or None)\n")],
  needs='seed 0', breaks='every run with seed 0 gives another map',
  demo='''
import contextlib, io, types
from redeclipse.cli.magica_rooms import main
def run():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        u = main(types.SimpleNamespace(name='maps/empty2.mpz'), rooms=10, seed=0)[2]
    return [(type(r).__name__, tuple(r.pos), tuple(r.orientation)) for r in u.rooms]
a = run()
assert all(run() == a for i in range(3))
'''),
 dict(id='c30-dotted-name', property='C30',
  edits=[(IN, "    classname = os.path.splitext(os.path.basename(mv_in))[0]\n", "    classname = os.path.basename(mv_in).split('.')[0]\n")],
  needs='a model file with a dot in its name', breaks='the report names another model',
  demo='''
import contextlib, io
from redeclipse.cli import magicavoxel_info
q = os.path.join(SCRATCH, 'wall.v2.vox')
shutil.copy('redeclipse/prefabs/dungeon/dungeon_walkway.vox', q)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    magicavoxel_info.main(q)
assert 'Model: wall.v2\\n' in out.getvalue(), out.getvalue()[:60]
'''),
 dict(id='c10-stale-door', property='C10',
  edits=[(U, "        self.unoccupied = [(p, r, o) for (p, r, o) in self.unoccupied if p not in used]\n", "        self.unoccupied = [(p, r, o) for (p, r, o) in self.unoccupied if p not in used[:2]]\n")],
  needs='a room of three or more cells which covers an open door with its third or a later one', breaks='a covered door stays on the list of open doors',
  demo='''
from redeclipse.upm import UnusedPositionManager
from redeclipse.vector import CoarseVector
from redeclipse.prefabs import Room, NLongCorridor
from redeclipse.vector.orientations import *
u = UnusedPositionManager(256)
u.register_room(Room(pos=CoarseVector(8, 9, 5)))
u.register_room(NLongCorridor(pos=CoarseVector(6, 10, 5), randflags=[True, True]))
assert not [d for d in u.unoccupied if d[0] in u.occupied], u.unoccupied
'''),
 dict(id='c15-shared-cell', property='C15',
  edits=[(U, "                        if (d, r, o) != (prev_room_door, prev_room, prev_room_orientation)\n", "                        if d != prev_room_door\n")],
  needs='two open doors onto the same cell, one of which fits no room', breaks='the other door is given up as well, although rooms fit it',
  demo='''
from redeclipse.upm import UnusedPositionManager
from redeclipse.vector import CoarseVector
from redeclipse.prefabs import Room
from redeclipse.vector.orientations import *
class Fan(Room):
    # a door on one side only
    def _get_doorways(self):
        return [{'orientation': EAST, 'offset': EAST}]
class Up(Room):
    def _get_doorways(self):
        return [{'orientation': NORTH, 'offset': NORTH}]
class Block(Room):
    def _get_doorways(self):
        return []
class Deep(Room):
    # three long, entered at its western end
    def _get_positions(self):
        return [SELF, EAST, EAST * 2]
    def _get_doorways(self):
        return [{'orientation': WEST, 'offset': WEST}]
for k in range(12):
    random.seed(k)
    u = UnusedPositionManager(256)
    u.register_room(Fan(pos=CoarseVector(8, 9, 5)))
    u.register_room(Up(pos=CoarseVector(9, 8, 5)))
    # no place for Deep towards the east, but towards the north
    u.register_room(Block(pos=CoarseVector(10, 9, 5)))
    u.place_rooms(False, [Deep], rooms=1)
    assert len(u.rooms) == 4, k
'''),
 dict(id='c04-cli-floats', property='C04',
  edits=[(FJ, "    mymap = Map.from_dict(json.load(args.input))\n", "    mymap = Map.from_dict(json.load(args.input, parse_float=lambda v: round(float(v), 2)))\n")],
  needs='a map with fractional values of three or more digits, brought back by the console tool', breaks='such values are rounded',
  demo='''
import json, simplejson
from redeclipse.cli import parse, from_json
def dump(m):
    return json.loads(simplejson.dumps(m.to_dict(), iterable_as_array=True))
def floats(x):
    if isinstance(x, float):
        yield x
    elif isinstance(x, (dict, list)):
        for v in (x.values() if isinstance(x, dict) else x):
            yield from floats(v)
def put(x):
    if isinstance(x, dict):
        return {k: put(v) for k, v in x.items()}
    if isinstance(x, list):
        return [put(v) for v in x]
    return x + 0.0078125 if isinstance(x, float) else x
e = put(dump(parse('maps/empty-day.mpz')))
a, b = os.path.join(SCRATCH, 'a.json'), os.path.join(SCRATCH, 'b.mpz')
with open(a, 'w') as h:
    json.dump(e, h)
sys.argv = ['from_json', a, b]
got = []
from_json.Map.write = lambda self, name: got.append(self)
from_json.main()
x, y = sorted(floats(e)), sorted(floats(dump(got[0])))
assert x and x == y, (x[:5], y[:5])
'''),
]
