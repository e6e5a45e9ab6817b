"""Explicit-state exploration of room placement.

The real placement manager is driven through every sequence of registrations that its
own candidate generator offers (plus raw registrations near edges), and compared after
every step with a small independent model that works on integer cells only."""
import collections
import copy

from mc import harness

WORLD = 32                       # the placement grid is 32 cells cubed
TURN = {0: lambda x, y: (x, y), 90: lambda x, y: (-y, x),
        180: lambda x, y: (-x, -y), 270: lambda x, y: (y, -x)}
ROTS = {1: (0,), 2: (0, 180), 4: (0, 90, 180, 270)}
DIRS = [(1, 0, 0), (0, 1, 0), (-1, 0, 0), (0, -1, 0)]       # E N W S


def cell(v):
    """Integer cell of a coarse vector; coordinates must be integral."""
    out = []
    for c in (v[0], v[1], v[2]):
        i = int(round(c))
        if i != c:
            raise ValueError('non-integral cell %r' % (v,))
        out.append(i)
    return tuple(out)


def spin(c, rot):
    """Rotate a cell around the centre of the map (cell 16,16)."""
    x, y = TURN[rot](c[0] - 16, c[1] - 16)
    return (x + 16, y + 16, c[2])


def turn(d, rot):
    x, y = TURN[rot](d[0], d[1])
    return (x, y, d[2])


def legal(c):
    return all(0 <= q < WORLD for q in c)


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def neg(a):
    return tuple(-x for x in a)


def shape(room):
    """(cells, doors) of a room according to its public interface."""
    return (tuple(cell(p) for p in room.get_positions()),
            tuple((cell(d['offset']), cell(d['orientation'])) for d in room.get_doorways()))


Copy = collections.namedtuple('Copy', 'kind ori cells doors')


def copies_of(room, mirror):
    cells, doors = shape(room)
    out = []
    for rot in ROTS[mirror]:
        out.append(Copy(type(room).__name__, turn(cell(room.orientation), rot),
                        tuple(spin(c, rot) for c in cells),
                        tuple((spin(c, rot), turn(d, rot)) for c, d in doors)))
    return out


class Model:
    def __init__(self, mirror):
        self.mirror = mirror
        self.copies = []
        self.links = []

    def occupied(self):
        return {c: i for i, k in enumerate(self.copies) for c in k.cells}

    def admits(self, room):
        """Should preregistration accept this room?"""
        occ = self.occupied()
        mine = set()
        for k in copies_of(room, self.mirror):
            if any(c in occ or c in mine or not legal(c) for c in k.cells):
                return False
            mine.update(k.cells)
            if any(not legal(c) for c, _ in k.doors):
                return False
        return True

    def overlaps(self, room):
        occ = self.occupied()
        mine = set()
        for k in copies_of(room, self.mirror):
            if any(c in occ or c in mine for c in k.cells):
                return True
            mine.update(k.cells)
        return False

    def register(self, room):
        self.copies += copies_of(room, self.mirror)

    def link(self, a, b):
        ca, cb = shape(a)[0], shape(b)[0]
        for rot in ROTS[self.mirror]:
            self.links.append((tuple(spin(c, rot) for c in ca), tuple(spin(c, rot) for c in cb)))

    def open_doors(self):
        occ = self.occupied()
        return collections.Counter((c, i, d) for i, k in enumerate(self.copies) for c, d in k.doors
                                   if legal(c) and c not in occ)


def snapshot(upm):
    """Everything observable about the manager, as plain data."""
    index = {id(r): i for i, r in enumerate(upm.rooms)}
    return {
        'rooms': tuple((type(r).__name__, cell(r.orientation)) + shape(r) for r in upm.rooms),
        'occupied': tuple(sorted((cell(p), index.get(id(r), -1)) for p, r in upm.occupied.items())),
        'nocc': len(upm.occupied),
        'open': tuple(sorted((cell(p), index.get(id(r), -1), cell(o)) for p, r, o in upm.unoccupied)),
        'links': tuple((cell(a), cell(b)) for a, b in upm.links),
    }


def catalogue():
    """Room classes: harness shapes (through the documented extension points) and
    the repository's own."""
    from redeclipse import prefabs as p
    from redeclipse.vector.orientations import NORTH, EAST, WEST, SOUTH, ABOVE, BELOW, SELF

    class Dot(p.Room):
        room_type = 'hallway'

    class Long(p.Room):
        room_type = 'hallway'

        def _get_positions(self):
            return [SELF, EAST]

        def _get_doorways(self):
            return [{'orientation': WEST, 'offset': WEST}, {'orientation': EAST, 'offset': EAST * 2}]

    class Bend(p.Room):
        room_type = 'setpiece_small'

        def _get_positions(self):
            return [SELF, EAST, EAST + NORTH]

        def _get_doorways(self):
            return [{'orientation': WEST, 'offset': WEST}, {'orientation': NORTH, 'offset': EAST + NORTH * 2}]

    class Tower(p.Room):
        room_type = 'stair'

        def _get_positions(self):
            return [SELF, ABOVE, ABOVE * 2]

        def _get_doorways(self):
            return [{'orientation': WEST, 'offset': WEST}, {'orientation': WEST, 'offset': WEST + ABOVE * 2},
                    {'orientation': SOUTH, 'offset': SOUTH + ABOVE}]

    class Shifted(p.Room):
        """Does not occupy its own position."""
        room_type = 'hallway'

        def _get_positions(self):
            return [EAST + NORTH, EAST + NORTH + BELOW]

        def _get_doorways(self):
            return [{'orientation': WEST, 'offset': NORTH}, {'orientation': SOUTH, 'offset': EAST + BELOW}]

    class Cap(p.Room):
        room_type = 'endcap'

        def _get_doorways(self):
            return [{'orientation': WEST, 'offset': WEST}]

    class LongCap(p.Room):
        room_type = 'endcap'

        def _get_positions(self):
            return [SELF, EAST, EAST + ABOVE]

        def _get_doorways(self):
            return [{'orientation': WEST, 'offset': WEST}]

    class TallCap(Cap):
        def _get_positions(self):
            return [SELF, ABOVE]

    class Line3(Cap):
        def _get_positions(self):
            return [SELF, EAST, EAST * 2]

    class HookCap(Cap):
        def _get_positions(self):
            return [SELF, EAST, EAST + NORTH, EAST * 2 + NORTH]

    class Hatch(p.Room):
        """Doors which open one level above or below the room."""
        room_type = 'stair'

        def _get_doorways(self):
            return [{'orientation': EAST, 'offset': EAST + ABOVE}, {'orientation': WEST, 'offset': WEST + BELOW},
                    {'orientation': NORTH, 'offset': NORTH}]

    class Wide(p.Room):
        """Two distant cells: its copies collide with the opposite ones only."""
        room_type = 'setpiece_large'

        def _get_positions(self):
            return [SELF, EAST * 10 + NORTH * 6]

    return {k.__name__: k for k in (Dot, Long, Bend, Tower, Shifted, Cap, LongCap, TallCap, Line3, HookCap, Hatch, Wide, p.Room,
                                    p.Stair, p.JumpCorridor3, p.JumpCorridorVertical, p.CrossingWalkways, p.PlusPlatform,
                                    p.NLongCorridor, p.MultiPlatform)}


def candidates(upm, classes, door, ctl=None):
    """What the real generator offers for one open door (default random answers)."""
    (d, room, o) = door
    with harness.controlled(ctl or harness.ChoiceController()):
        return list(upm.room_localization(classes, d, room, o))


def oracle_candidates(model, cls, door):
    """Placements of cls (fixed geometry) whose some door meets `door`, and which fit.
    Returns a set of (cells, ori)."""
    from redeclipse.vector import CoarseVector
    (d, o) = door
    out = set()
    origin = CoarseVector(0, 0, 0)
    for od in DIRS:
        probe = cls(pos=origin, orientation=CoarseVector(*od))
        cells, doors = shape(probe)
        for (c, facing) in doors:
            if facing != neg(o):
                continue
            # our door leads to the cell the open door belongs to
            shift = sub(sub(d, o), c)
            r = cls(pos=CoarseVector(*shift), orientation=CoarseVector(*od))
            if model.admits(r):
                out.add((frozenset(shape(r)[0]), od))
    return out


def explore(ck, names, starts, mirrors, depth, invariant, on_reject=None, on_candidates=None, max_states=4000,
            seconds=None, with_before=False):
    """Breadth-first over registration histories. invariant(upm, model, hist, extra) is
    called in every state reached."""
    import time
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import CoarseVector
    cat = catalogue()
    classes = [cat[n] for n in names]
    t0 = time.time()

    def one(job):
        mirror, (sname, spos, sori) = job
        stats = collections.Counter()
        upm = UnusedPositionManager(2 ** 8, mirror=mirror)
        model = Model(mirror)
        start = cat[sname](pos=CoarseVector(*spos), orientation=CoarseVector(*sori))
        hist = (('mirror', mirror), ('start', sname, spos, sori))
        if not model.admits(start):
            if on_reject:
                on_reject(upm, model, start, hist)
            stats['rejected_starts'] += 1
            bump(stats)
            return
        upm.register_room(start)
        model.register(start)
        ck.step()
        invariant(upm, model, hist, None)
        seen = {frozenset(snapshot(upm)['rooms'])}
        frontier = collections.deque([(upm, model, hist)])
        count = 0
        while frontier:
            upm, model, hist = frontier.popleft()
            if len(hist) - 2 >= depth:
                continue
            for door in list(upm.unoccupied):
                for cls in classes:
                    cands = candidates(upm, [cls], door)
                    if on_candidates:
                        on_candidates(upm, model, cls, door, cands, hist)
                    for r in cands:
                        if count >= max_states or (seconds and time.time() - t0 > seconds):
                            stats['capped'] += 1
                            continue
                        u2, prev, r2, d2 = copy.deepcopy((upm, door[1], r, door))
                        m2 = Model(mirror)
                        m2.copies, m2.links = list(model.copies), list(model.links)
                        h2 = hist + ((cls.__name__, cell(door[0]), cell(door[2]), shape(r)[0], cell(r.orientation)),)
                        before = snapshot(u2) if with_before else None
                        u2.register_room(r2)
                        u2.register_link(prev, r2)
                        m2.register(r2)
                        m2.link(prev, r2)
                        ck.step()
                        invariant(u2, m2, h2, {'prev': prev, 'room': r2, 'door': d2, 'before': before})
                        key = frozenset((k.kind, k.ori, k.cells) for k in m2.copies)
                        if key in seen:
                            continue
                        seen.add(key)
                        count += 1
                        ck.state((mirror, tuple(sorted(key))))
                        ck.trace()
                        frontier.append((u2, m2, h2))
        stats['starts'] += 1
        bump(stats)

    def bump(stats):
        cur = ck.extra.setdefault('placement', {})
        for k, v in stats.items():
            cur[k] = cur.get(k, 0) + v

    ck.parallel(one, [(m, s) for s in starts for m in mirrors])
    ck.extra['depth'] = depth


E_, N_, W_, S_ = DIRS
# start rooms: general position, the centre (its copies collide with themselves), next
# to the centre, corners and the top and bottom of the map
STARTS = [('Bend', (8, 8, 3), E_), ('Dot', (15, 16, 3), E_), ('Dot', (16, 16, 3), E_), ('Long', (14, 16, 0), E_),
          ('Shifted', (13, 12, 5), N_), ('Dot', (1, 1, 0), E_), ('Dot', (30, 2, 31), E_), ('Tower', (17, 15, 29), S_),
          ('Dot', (30, 30, 16), W_), ('CrossingWalkways', (18, 18, 3), E_)]


def owner_view(copies):
    return collections.Counter((k.kind, k.ori, frozenset(k.cells), tuple(sorted(k.doors))) for k in copies)


def real_view(upm):
    out = collections.Counter()
    for r in upm.rooms:
        cells, doors = shape(r)
        out[(type(r).__name__, cell(r.orientation), frozenset(cells), tuple(sorted(doors)))] += 1
    return out


def where(hist):
    return {'history': [list(h) for h in hist]}
