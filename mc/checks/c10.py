"""C10: the open-door list is exact after every placement history."""
import collections

from mc import themes, upmx


def run(ck):
    def inv(upm, model, hist, extra):
        rep = upmx.where(hist)
        occ = {c for k in model.copies for c in k.cells}
        want = collections.Counter((c, frozenset(k.cells), d) for k in model.copies for c, d in k.doors
                                   if upmx.legal(c) and c not in occ)
        got = collections.Counter()
        for p, r, o in upm.unoccupied:
            ck.expect(any(r is q for q in upm.rooms), 'foreign-room', 'an open door belongs to a room that was not placed', rep)
            got[(upmx.cell(p), frozenset(upmx.shape(r)[0]), upmx.cell(o))] += 1
        ck.expect(not got - want, 'extra', lambda: 'open doors that are blocked or do not exist: %r' % list((got - want).items())[:2], rep)
        ck.expect(not want - got, 'missing', lambda: 'open doors that are not offered: %r' % list((want - got).items())[:2], rep)

    names = ['Bend', 'Shifted'] + (['Dot', 'Long', 'Stair', 'CrossingWalkways', 'JumpCorridorVertical', 'PlusPlatform'] if ck.thorough else [])
    upmx.explore(ck, names, upmx.STARTS, (1, 2, 4), 3 if ck.thorough else 2, inv, max_states=20000 if ck.thorough else 10**6)
    edges(ck, inv)
    choice(ck)
    options(ck)
    themes.run(ck, themes.doors(ck), caps=True)
    ck.sample({'classes': names, 'starts': len(upmx.STARTS)})


def edges(ck, inv):
    """Rooms registered directly at every cell along the map's edges, so that doors point
    off the map or at each other."""
    import itertools
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import CoarseVector
    cat = upmx.catalogue()
    coords = (0, 1, 2, 15, 16, 17, 30, 31)

    def one(job):
            mirror, name = job
            for x, y, z in itertools.product(coords, coords, (0, 15, 31) if not ck.thorough else (0, 1, 15, 29, 31)):
                upm = UnusedPositionManager(2 ** 8, mirror=mirror)
                model = upmx.Model(mirror)
                r = cat[name](pos=CoarseVector(x, y, z))
                if model.overlaps(r):
                    continue
                upm.register_room(r)
                model.register(r)
                ck.step()
                hist = [('raw', mirror, name, (x, y, z))]
                inv(upm, model, hist, None)
                # a neighbour facing it
                for d in upmx.DIRS:
                    b = cat['Dot'](pos=CoarseVector(x + d[0], y + d[1], z))
                    if model.overlaps(b) or not all(upmx.legal(c) for c in upmx.shape(b)[0]):
                        continue
                    u2 = UnusedPositionManager(2 ** 8, mirror=mirror)
                    m2 = upmx.Model(mirror)
                    for q in (cat[name](pos=CoarseVector(x, y, z)), b):
                        u2.register_room(q)
                        m2.register(q)
                    ck.state((mirror, name, x, y, z, d))
                    ck.step()
                    inv(u2, m2, hist + [('neighbour', d)], None)

    ck.parallel(one, itertools.product((1, 2, 4), ('Dot', 'Bend', 'Tower')))


def choice(ck):
    """Whatever the random source answers, a picked door is one of the open doors."""
    from mc import harness
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import CoarseVector
    cat = upmx.catalogue()
    flav = ('nrp_flavour_plain', 'nrp_flavour_vertical', 'nrp_flavour_center_hole')
    us = [0.0, 1.0, 0.5, 1 - 2 ** -53] + [i / 37 for i in range(38)]
    for mirror in (1, 2, 4):
        for z in (0, 3, 30):
            upm = UnusedPositionManager(2 ** 8, mirror=mirror)
            upm.register_room(cat['Tower'](pos=CoarseVector(8, 9, min(z, 29))) if z else cat['Dot'](pos=CoarseVector(8, 9, 0)))
            seen = {k: set() for k in flav}
            for u in us:
                for f in flav + (None,):
                    with harness.controlled(harness.ScalarController(lambda: u)):
                        got = upm.random_position() if f is None else upm.nonrandom_position(getattr(upm, f))
                    ck.step()
                    ok = [i for i, d in enumerate(upm.unoccupied) if d is got or d == got]
                    ck.expect(ok, 'pick', 'the picked door is not an open door', {'u': u, 'flavour': f})
                    if f and ok:
                        seen[f].add(ok[0])
            ck.expect(len(seen['nrp_flavour_plain']) == len(upm.unoccupied), 'pick-reach', 'with equal weights some open door can never be picked')


def options(ck):
    """Rooms of one kind whose doors and cells depend on their options, made and tried one after
    another at the same place: what is listed belongs to the room that was placed. Cells and
    doors are those the class below declares, turned by the checker."""
    import itertools
    from redeclipse import prefabs
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import CoarseVector
    from redeclipse.vector import orientations as o
    ways = {'EAST': 0, 'NORTH': 90, 'WEST': 180, 'SOUTH': 270}

    class Vary(prefabs.Room):
        _randflags = (True, True, True)

        def _get_positions(self):
            return [o.SELF] + ([o.EAST] if self._randflags[0] else [])

        def _get_doorways(self):
            out = [{'orientation': o.WEST, 'offset': o.WEST}]
            if self._randflags[1]:
                out.append({'orientation': o.EAST, 'offset': o.EAST * (2 if self._randflags[0] else 1)})
            if self._randflags[2]:
                out.append({'orientation': o.NORTH, 'offset': o.NORTH})
            return out

    def declared(flags, pos, rot):
        at = lambda c: upmx.add(pos, upmx.turn(c, rot))       # noqa: E731
        a, b, c = flags
        cells = [(0, 0, 0)] + ([(1, 0, 0)] if a else [])
        doors = [((-1, 0, 0), (-1, 0, 0))]
        if b:
            doors.append(((2 if a else 1, 0, 0), (1, 0, 0)))
        if c:
            doors.append(((0, 1, 0), (0, 1, 0)))
        return {at(q) for q in cells}, {(at(q), upmx.turn(d, rot)) for q, d in doors}

    every = list(itertools.product((True, False), repeat=3))
    for mirror, (way, rot), pos in itertools.product((1, 2, 4), sorted(ways.items()), ((8, 8, 3), (20, 5, 0), (1, 30, 31))):
        # every ordered pair of settings: the second is placed after the first was tried or placed elsewhere
        for first, second, placed in itertools.product(every, every, (False, True)):
            rep = {'mirror': mirror, 'orientation': way, 'pos': pos, 'first': first, 'second': second, 'first placed': placed}

            def make(flags, **kw):
                return Vary(pos=CoarseVector(*pos), orientation=getattr(o, way), randflags=list(flags))

            def go():
                early = UnusedPositionManager(2 ** 8, mirror=mirror)
                room = make(first)
                early.preregister_room(room)
                if placed:
                    early.register_room(room)
                upm = UnusedPositionManager(2 ** 8, mirror=mirror)
                upm.register_room(make(second))
                return upm
            ok, upm = ck.guard('options', go, rep)
            ck.step()
            if not ok:
                return
            cells, doors = declared(second, pos, rot)
            occ, want = set(), set()
            for r in upmx.ROTS[mirror]:
                occ |= {upmx.spin(c, r) for c in cells}
                want |= {(upmx.spin(c, r), upmx.turn(d, r)) for c, d in doors}
            want = sorted((c, d) for c, d in want if upmx.legal(c) and c not in occ)
            got = sorted((upmx.cell(p), upmx.cell(d)) for p, _, d in upm.unoccupied)
            ck.state(('options', mirror, way, pos, first, second, placed))
            if not ck.expect(got == want, 'options', lambda: 'open doors %r instead of %r' % (got, want), rep):
                return
