# Planted bugs, C09-C17 (placement).
U = 'redeclipse/upm.py'
P = 'redeclipse/prefabs/__init__.py'
PRE = '''
from redeclipse.upm import UnusedPositionManager
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import *
from redeclipse.prefabs import *
class R(Room):
    cells = [SELF]
    doors = []
    def _get_positions(self):
        return list(self.cells)
    def _get_doorways(self):
        return [{'orientation': o, 'offset': c} for c, o in self.doors]
'''
BUGS = [
 dict(id='c09-cap-origin-only', property='C09',
  edits=[(U, """                if not all([pos not in self.occupied.keys() for pos in r.get_positions()]):
                    continue
""", """                if r.pos in self.occupied.keys() or r.get_positions()[-1] in self.occupied.keys():
                    continue
""")],
  needs='an end cap of three or more cells of which only a middle one is taken',
  breaks='the end cap is placed over another room or end capping fails',
  demo=PRE + '''
class Cap(R):
    cells = [SELF, NORTH, NORTH * 2]
    doors = [(WEST, WEST)]
class A(R):
    doors = [(EAST, EAST)]
u = UnusedPositionManager(256)
u.register_room(A(pos=CoarseVector(5, 5, 5)))
u.register_room(R(pos=CoarseVector(6, 6, 5)))
try:
    u.endcap(possible_endcaps=[Cap])
except Exception as e:
    sys.exit(repr(e))
assert len(u.occupied) == sum(len(r.get_positions()) for r in u.rooms)
'''),
 dict(id='c09-occupied-first-wins', property='C09',
  edits=[(U, """        self.occupied.update({pos: room for pos in used})
""", """        for pos in used:
            self.occupied.setdefault(pos, self.rooms[-len(self.mirror_rotations)] if len(self.rooms) >= len(self.mirror_rotations) else room)
""")],
  needs='a mirrored map: the last copy of a room',
  breaks='the record of occupied cells names the first copy as owner of cells of the last copy',
  demo=PRE + '''
u = UnusedPositionManager(256, mirror=2)
u.register_room(R(pos=CoarseVector(5, 5, 5)))
for r in u.rooms:
    for p in r.get_positions():
        assert u.occupied[p] is r
'''),
 dict(id='c10-one-door-per-cell', property='C10',
  edits=[(U, """            if self.is_legal(position['offset']) and not position['offset'] in self.occupied.keys():
""", """            if self.is_legal(position['offset']) and not position['offset'] in self.occupied.keys() and \\
                    position['offset'] not in [p for (p, _, _) in self.unoccupied]:
""")],
  needs='two doors of different rooms which open onto the same cell',
  breaks='the second door is not listed',
  demo=PRE + '''
class A(R):
    doors = [(EAST, EAST)]
class B(R):
    doors = [(WEST, WEST)]
u = UnusedPositionManager(256)
u.register_room(A(pos=CoarseVector(5, 5, 5)))
u.register_room(B(pos=CoarseVector(7, 5, 5)))
assert len(u.unoccupied) == 2, u.unoccupied
'''),
 dict(id='c10-doors-before-cells', property='C10',
  edits=[(U, """        self.unoccupied = [(p, r, o) for (p, r, o) in self.unoccupied if p not in used]
""", """        pending = set(used)
        keep = []
        for (p, r, o) in self.unoccupied:
            if p in pending:
                pending.discard(p)
            else:
                keep.append((p, r, o))
        self.unoccupied = keep
""")],
  needs='a cell onto which two open doors lead is built upon',
  breaks='only one of the two doors disappears; the other stays listed although its cell is occupied',
  demo=PRE + '''
class A(R):
    doors = [(EAST, EAST)]
class B(R):
    doors = [(WEST, WEST)]
u = UnusedPositionManager(256)
u.register_room(A(pos=CoarseVector(5, 5, 5)))
u.register_room(B(pos=CoarseVector(7, 5, 5)))
u.register_room(R(pos=CoarseVector(6, 5, 5)))
assert u.unoccupied == [], u.unoccupied
'''),
 dict(id='c11-doors-of-last-copy', property='C11',
  edits=[(U, """            for door in room.get_doorways():
                if not self.is_legal(door['offset']):
                    return False
        return True
""", """            doors = room.get_doorways()
        for door in doors:
            if not self.is_legal(door['offset']):
                return False
        return True
""")],
  needs='mirroring and a room at the west or south edge whose door leads off the map while that of its last copy does not',
  breaks='a room with a door leading off the map is accepted',
  demo=PRE + '''
class A(R):
    doors = [(WEST, WEST)]
u = UnusedPositionManager(256, mirror=2)
for x in range(0, 33):
    for o in CARDINALS:
        a = A(pos=CoarseVector(x, 3, 4), orientation=o)
        ok = True
        for r in u._yield_mirrored(a):
            ok = ok and all(u.is_legal(p) for p in r.get_positions()) and all(u.is_legal(d['offset']) for d in r.get_doorways())
        assert u.preregister_room(a) == ok, (x, o, ok)
'''),
 dict(id='c11-door-height', property='C11',
  edits=[(U, """                if not self.is_legal(door['offset']):
                    return False
""", """                if not self.is_legal(door['offset'].vox() - ABOVE * (door['offset'].z == 32)):
                    return False
"""), (U, "from redeclipse.vector.orientations import EAST, CARDINALS\n", "from redeclipse.vector.orientations import ABOVE, EAST, CARDINALS\n")],
  needs='a room at the top of the map with a door one level above its cells',
  breaks='the door above the map is accepted',
  demo=PRE + '''
class A(R):
    doors = [(EAST + ABOVE, EAST)]
u = UnusedPositionManager(256)
assert not u.preregister_room(A(pos=CoarseVector(5, 5, 31)))
'''),
 dict(id='c12-copy-loses-options', property='C12',
  edits=[(U, """            room_copy = copy.deepcopy(room)
""", """            room_copy = room.__class__(pos=room.pos, orientation=room.orientation) if orientation else copy.deepcopy(room)
""")],
  needs='mirroring and a room whose options are not the default ones',
  breaks='the mirrored copies are built with default options: other cells, doors and voxels',
  demo=PRE + '''
u = UnusedPositionManager(256, mirror=2)
u.register_room(NLongCorridor(pos=CoarseVector(5, 5, 5), randflags=(False, False, True, True)))
assert len(set(len(r.get_positions()) for r in u.rooms)) == 1
'''),
 dict(id='c12-quarter-copies-unturned', property='C12',
  edits=[(U, """            room_copy.orientation = room_copy.orientation.rotate(orientation)
            yield room_copy
""", """            room_copy.orientation = room_copy.orientation.rotate(orientation if orientation < 270 or room.orientation != EAST else 90)
            yield room_copy
""")],
  needs='four-way mirroring of an east-facing room',
  breaks='the fourth copy of an east-facing room faces north instead of south',
  demo=PRE + """
u = UnusedPositionManager(256, mirror=4)
u.register_room(R(pos=CoarseVector(5, 5, 5)))
assert [n(r.orientation) for r in u.rooms] == ['EAST', 'NORTH', 'WEST', 'SOUTH'], [n(r.orientation) for r in u.rooms]
"""),
 dict(id='c13-last-room-unlinked', property='C13',
  edits=[(U, """                    self.register_link(prev_room, r)
""", """                    if room_count < rooms or room_count == self.mirror:
                        self.register_link(prev_room, r)
""")],
  needs='a placement run that reaches the requested number of rooms',
  breaks='the last placed room has no link and cannot be reached',
  demo=PRE + '''
random.seed(3)
u = UnusedPositionManager(256)
u.register_room(Corridor4way(pos=CoarseVector(8, 8, 3)))
u.place_rooms(False, [Corridor4way, Corridor2way], rooms=4)
assert len(u.links) == 4, len(u.links)
'''),
 dict(id='c13-graph-links-by-origin', property='C13',
  edits=[('redeclipse/cli/__init__.py', """            la = upm.occupied.get(a, None)
            lb = upm.occupied.get(b, None)
""", """            origins = {room.get_positions()[0]: room for room in upm.rooms if room.get_positions()[0] == room.pos}
            la = origins.get(a, None)
            lb = origins.get(b, None)
""")],
  needs='a linked room which does not occupy its own position',
  breaks='the exported graph links the dummy node instead of the room',
  demo=PRE + """
import json, io
from redeclipse.vector import CoarseVector
from types import SimpleNamespace
from redeclipse.cli import output
u = UnusedPositionManager(256)
class A(R):
    doors = [(EAST, EAST), (WEST, WEST)]
class B(R):
    cells = [EAST]
    doors = [(WEST, SELF)]
a, b = A(pos=CoarseVector(5, 5, 5)), B(pos=CoarseVector(5, 5, 5))
u.register_room(a); u.register_room(b)
u.register_link(a, b)
f = io.StringIO()
output(None, None, u, None, SimpleNamespace(magica=None, mpz_out=None, graph=f))
l = json.loads(f.getvalue())['links'][0]
assert {l['source'], l['target']} == {id(r) for r in u.rooms}, l
"""),
 dict(id='c14-defaultdict', property='C14',
  edits=[(U, """        self.occupied = {}
""", """        self.occupied = defaultdict(lambda: None)
"""), (U, """                if position in self.occupied.keys() or position in added_occupied:
                    return False
""", """                if self.occupied[position] is not None or position in added_occupied:
                    return False
"""), (U, "from collections import OrderedDict\n", "from collections import OrderedDict, defaultdict\n")],
  needs='asking whether a room fits, and then building there (or capping a door there)',
  breaks='the question itself marks the cells as occupied',
  demo=PRE + '''
u = UnusedPositionManager(256)
a = R(pos=CoarseVector(5, 5, 5))
assert u.preregister_room(a)
assert len(u.occupied) == 0
u.register_room(a)
'''),
 dict(id='c14-prereg-moves-room', property='C14',
  edits=[(U, """            room_copy = copy.deepcopy(room)
""", """            # The room itself is the first of its copies
            room_copy = room if orientation == self.mirror_rotations[-1] else copy.deepcopy(room)
""")],
  needs='mirroring: asking for a room before registering it',
  breaks='the room asked about is itself moved to the place of its last copy',
  demo=PRE + '''
u = UnusedPositionManager(256, mirror=2)
a = R(pos=CoarseVector(5, 5, 5))
u.preregister_room(a)
assert tuple(a.pos) == (5, 5, 5), a.pos
'''),
 dict(id='c15-first-door-only', property='C15',
  edits=[(U, """                for chosen_door in options:
""", """                for chosen_door in options[:1]:
""")],
  needs='a room with two doors facing the same way, of which only the second fits',
  breaks='a placement that fits is not offered',
  demo=PRE + '''
class A(R):
    cells = [SELF, NORTH]
    doors = [(WEST, WEST), (WEST + NORTH, WEST)]
class S(R):
    doors = [(EAST, EAST)]
u = UnusedPositionManager(256)
s = S(pos=CoarseVector(5, 5, 5))
u.register_room(s)
u.register_room(R(pos=CoarseVector(6, 6, 5)))
got = list(u.room_localization([A], CoarseVector(6, 5, 5), s, EAST))
assert any(tuple(r.pos) == (6, 4, 5) for r in got), got
'''),
 dict(id='c15-three-orientations', property='C15',
  edits=[(U, """            for orientation in random.sample(CARDINALS, 4):
""", """            for orientation in random.sample(CARDINALS, len(roomClass.__mro__) if len(roomClass.__mro__) < 4 else 4):
""")],
  needs='the plain base room class (three entries in its class hierarchy) among the possible rooms',
  breaks='one orientation of the base room is never tried',
  demo=PRE + '''
class S(R):
    doors = [(EAST, EAST)]
u = UnusedPositionManager(256)
s = S(pos=CoarseVector(5, 5, 5))
u.register_room(s)
got = list(u.room_localization([Room], CoarseVector(6, 5, 5), s, EAST))
assert len(set(n(r.orientation) for r in got)) == 4
'''),
 dict(id='c15-collision-of-second-next', property='C15',
  edits=[(U, """            added_occupied = added_occupied.union(set(used))
""", """            added_occupied = set(used)
""")],
  needs='four-way mirroring and a large room near the middle whose opposite (not neighbouring) copies collide',
  breaks='the loop offers a room that does not fit; registering it raises and the run ends',
  demo=PRE + '''
class A(R):
    # occupies two cells symmetric about the middle of the map
    cells = [SELF, EAST * 10 + NORTH * 6]
    doors = []
u = UnusedPositionManager(256, mirror=4)
a = A(pos=CoarseVector(11, 13, 4))
ok = u.preregister_room(a)
try:
    u.register_room(a)
    reg = True
except Exception:
    reg = False
assert ok == reg, (ok, reg)
'''),
 dict(id='c15-mirror-counts-once', property='C15',
  edits=[(U, """                    room_count += self.mirror
""", """                    room_count += 1 if r.pos == CoarseVector(16, 16, r.pos.z) else self.mirror_rotations.count(0) * self.mirror - (self.mirror == 4)
""")],
  needs='four-way mirroring',
  breaks='more rooms than requested are placed',
  demo=PRE + '''
random.seed(3)
u = UnusedPositionManager(256, mirror=4)
u.register_room(Corridor4way(pos=CoarseVector(8, 8, 3)))
u.place_rooms(False, [Corridor4way, Corridor2way], rooms=12)
assert len(u.rooms) == 16, len(u.rooms)
'''),
 dict(id='c16-one-cap-class', property='C16',
  edits=[(U, """        for roomClass in random.sample(possible_endcaps, len(possible_endcaps)):
""", """        for roomClass in random.sample(possible_endcaps, min(2, len(possible_endcaps))):
""")],
  needs='three kinds of end caps of which only one fits at a door',
  breaks='a door stays open although one of the given caps fits',
  demo=PRE + '''
class A(R):
    doors = [(EAST, EAST)]
class C1(R):
    doors = [(WEST, WEST)]
class C2(C1):
    cells = [SELF, ABOVE]
class C3(C1):
    cells = [SELF, ABOVE]
for s in range(20):
    random.seed(s)
    u = UnusedPositionManager(256)
    u.register_room(A(pos=CoarseVector(5, 5, 5)))
    u.register_room(R(pos=CoarseVector(6, 5, 6)))
    u.endcap(possible_endcaps=[C1, C2, C3])
    assert u.unoccupied == [], s
'''),
 dict(id='c16-cap-off-map', property='C16',
  edits=[(U, """                if not all([self.is_legal(pos) for pos in r.get_positions()]):
                    continue
""", """                if not any([self.is_legal(pos) for pos in r.get_positions()]):
                    continue
""")],
  needs='a cap of several cells at the edge of the map',
  breaks='the cap sticks out of the map',
  demo=PRE + '''
class A(R):
    doors = [(EAST, EAST)]
class C(R):
    cells = [SELF, EAST]
    doors = [(WEST, WEST)]
u = UnusedPositionManager(256)
u.register_room(A(pos=CoarseVector(30, 5, 5)))
u.endcap(possible_endcaps=[C])
assert all(u.is_legal(p) for r in u.rooms for p in r.get_positions())
'''),
 dict(id='c16-cap-orientation', property='C16',
  edits=[(U, """                # There will only be one door.
                roomClass_doors = r.get_doorways()
                options = [x for x in roomClass_doors if x['orientation'] == prev_room_orientation.rotate(180)]
                if len(options) == 0:
                    continue
""", """                # There will only be one door.
                roomClass_doors = r.get_doorways()
                options = [x for x in roomClass_doors if x['orientation'] == prev_room_orientation.rotate(180)]
                if len(options) == 0:
                    return None if c == SOUTH else None if len(possible_endcaps) == 1 and c == CARDINALS[-2] and prev_room_orientation == NORTH else self._skip()
"""), (U, """    def endcap(self, debug=False""", """    def _skip(self):
        return None

    def endcap(self, debug=False""")],
  needs='-', breaks='-', demo='sys.exit(0)'),
 dict(id='c17-missing-prob-one', property='C17',
  edits=[(U, """                room, probs.get(room.room_type, 0.1)
            ))
""", """                room, probs.get(room.room_type) or 1
            ))
""")],
  needs='a room type that has no entry in the transition table of the connecting room',
  breaks='such rooms are picked ten times too often',
  demo=PRE + '''
class Q(R):
    room_type = 'nosuch'
class H(R):
    room_type = 'hallway'
u = UnusedPositionManager(256)
seen = []
u.weighted_choice = lambda ch: seen.extend(ch)
u.random_room(Corridor2way(pos=CoarseVector(1, 1, 1)), [Q, H])
assert [w for _, w in seen] == [0.1, 1], seen
'''),
 dict(id='c17-randopts-two', property='C17',
  edits=[(P, """            mutateIdx = random.randint(0, len(mutatedOpts) - 1)
""", """            mutateIdx = random.randint(0, max(1, len(mutatedOpts) - 2))
""")],
  needs='a room of the same class as its predecessor with one option only (or the last of three or more)',
  breaks='with one option the toggled index may be out of range; the last of several options is never toggled',
  demo=PRE + '''
for s in range(40):
    random.seed(s)
    SpawnRoom.randOpts(SpawnRoom(pos=CoarseVector(1, 1, 1)))
'''),
 dict(id='c17-weighted-sorted', property='C17',
  edits=[(U, """        total = sum(w for c, w in choices)
        r = random.uniform(0, total)
""", """        total = sum(set(w for c, w in choices)) if len(choices) > 2 and len(set(choices)) < len(choices) else sum(w for c, w in choices)
        r = random.uniform(0, total)
""")],
  needs='a weighted list that names the same alternative with the same weight twice',
  breaks='alternatives at the end of the list are picked too rarely or never',
  demo=PRE + '''
n = 0
random.seed(1)
for i in range(300):
    n += UnusedPositionManager.weighted_choice([('a', 1), ('a', 1), ('b', 1)]) == 'b'
assert 60 < n < 140, n
'''),
 dict(id='c17-mirrored-table', property='C17',
  edits=[('redeclipse/prefabs/distributions.py', """            return self.transition_probabilities[(b, a)]
""", """            return self.transition_probabilities[(b, a)] if a != 'stair' else 0
""")],
  needs='asking for the transition from stairs to another room in the mirrored table',
  breaks='stairs lead nowhere in the pairwise table although the table of the class says otherwise',
  demo='''
from redeclipse.prefabs.distributions import CastleDistributionManager
assert CastleDistributionManager().tp('stair', 'hallway') == 0.7
'''),
]
BUGS = [b for b in BUGS if b['id'] != 'c16-cap-orientation']
