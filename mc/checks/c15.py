"""C15: the placement loop offers exactly the placements that fit, always stops, places what
it was asked for unless nothing fits any more, and gives up a door only if nothing fits it."""
import itertools

from mc import harness, themes, upmx
from mc.upmx import E_, N_, S_, W_


def run(ck):
    # 1. the candidate generator is sound and complete in every explored state
    def on_candidates(upm, model, cls, door, cands, hist):
        want = upmx.oracle_candidates(model, cls, (upmx.cell(door[0]), upmx.cell(door[2])))
        got = {(frozenset(upmx.shape(r)[0]), upmx.cell(r.orientation)) for r in cands}
        ck.step()
        rep = dict(upmx.where(hist), door=(upmx.cell(door[0]), upmx.cell(door[2])), room=cls.__name__)
        ck.expect(not got - want, 'offers-unfit', lambda: 'offers %s at %r, which does not fit there' % (cls.__name__, sorted(map(sorted, [c for c, _ in got - want]))[:1]), rep)
        ck.expect(not want - got, 'omits-fit', lambda: 'does not offer %s at %r, which fits' % (cls.__name__, sorted(map(sorted, [c for c, _ in want - got]))[:1]), rep)
        ck.outcome('fits' if want else 'nothing fits')

    names = ['Bend', 'Tower'] + (['Shifted', 'CrossingWalkways', 'Long'] if ck.thorough else [])
    upmx.explore(ck, names, upmx.STARTS, (1, 2, 4), 3 if ck.thorough else 2, lambda *a: None, on_candidates=on_candidates,
                 max_states=8000 if ck.thorough else 10 ** 6)
    few = [('Dot', (8, 9, 3), E_), ('Tower', (17, 15, 29), S_), ('Hatch', (15, 20, 31), N_)]
    upmx.explore(ck, ['Room', 'Hatch', 'Wide', 'Line3'], few, (1, 2, 4), 1, lambda *a: None, on_candidates=on_candidates, max_states=10 ** 6)
    lattice(ck)
    options(ck)
    drive(ck)
    shared(ck)
    combs(ck)
    themes.run(ck, themes.kept(ck))


def lattice(ck):
    """Large rooms around the centre: asking, the model and registering agree."""
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import CoarseVector
    cat = upmx.catalogue()

    def one(job):
        mirror, name, ori = job
        for x, y in itertools.product(range(6, 27), repeat=2):
            upm = UnusedPositionManager(2 ** 8, mirror=mirror)
            r = cat[name](pos=CoarseVector(x, y, 4), orientation=CoarseVector(*ori))
            want = upmx.Model(mirror).admits(r)
            rep = {'mirror': mirror, 'room': name, 'pos': (x, y, 4), 'orientation': ori}
            got = bool(upm.preregister_room(r))
            ck.step()
            ck.state((mirror, name, ori, x, y))
            ck.expect(got == want, 'lattice:' + ('unfit' if got else 'fit'), lambda: '%s at %r is %s' % (name, (x, y), 'accepted' if got else 'refused'), rep)
            if got:
                ck.guard('lattice:register', lambda: upm.register_room(r), rep)
    ck.parallel(one, itertools.product((1, 2, 4), ('Wide', 'Bend', 'CrossingWalkways'), (E_, N_, W_, S_)))


def options(ck):
    """Rooms whose size is a random option: every sequence of questions, with every
    answer of randOpts; what was refused with one option is no reason to refuse another."""
    from redeclipse import prefabs as p
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import CoarseVector
    from redeclipse.vector.orientations import ABOVE, EAST, SELF, WEST
    cat = upmx.catalogue()

    def stretch(step):
        class Stretch(p.Room):
            room_type = 'hallway'
            length = 1

            def __init__(self, pos, orientation=EAST, randflags=None):
                self.n = (randflags or [Stretch.length])[0]
                super().__init__(pos, orientation=orientation)

            @classmethod
            def randOpts(cls, prev_room):
                return {'randflags': [cls.length]}

            def _get_positions(self):
                return [SELF] + [step * i for i in range(1, self.n)]

            def _get_doorways(self):
                return [{'orientation': WEST, 'offset': WEST}]
        return Stretch

    def one(job):
        mirror, step, blocker, seq = job
        cls = stretch({'E': EAST, 'U': ABOVE}[step])
        upm, model = UnusedPositionManager(2 ** 8, mirror=mirror), upmx.Model(mirror)

        def put(room):
            upm.register_room(room)
            model.register(room)
        put(cat['Dot'](pos=CoarseVector(8, 9, 28)))
        if blocker:
            b = p.Room(pos=CoarseVector(*blocker))
            if not model.admits(b):
                return
            put(b)
        rep = {'mirror': mirror, 'grows': step, 'blocker': blocker, 'asked': seq}
        for k, (length, what) in enumerate(seq):
            cls.length = length
            for door in list(upm.unoccupied):
                key = (upmx.cell(door[0]), upmx.cell(door[2]))
                want = upmx.oracle_candidates(model, cls, key)
                cands = upmx.candidates(upm, [cls], door)
                got = {(frozenset(upmx.shape(r)[0]), upmx.cell(r.orientation)) for r in cands}
                ck.step()
                ck.expect(got == want, 'options:' + ('omits' if want - got else 'unfit'), lambda: 'with option %d at %r (question %d): offered %r, fits %r' % (
                    length, key, k, sorted(map(sorted, [c for c, _ in got])), sorted(map(sorted, [c for c, _ in want]))), rep)
            if what and upm.unoccupied:
                cands = upmx.candidates(upm, [cls], upm.unoccupied[0])
                if cands and model.admits(cands[0]):
                    put(cands[0])
        ck.state(job)
        ck.trace()
    L = (1, 2, 4)
    depth = 3 if ck.thorough else 2
    seqs = list(itertools.product(itertools.product(L, (0, 1)), repeat=depth))
    blockers = [None, (10, 9, 28), (11, 9, 28), (8, 11, 28), (9, 9, 29), (9, 9, 30), (6, 9, 28)]
    ck.parallel(one, list(itertools.product((1, 2, 4), 'EU', blockers, seqs)))


def cavity_class(p):
    """A shell around a small hollow: placement inside soon runs out of space."""
    from redeclipse.vector import CoarseVector

    class Shell(p.Room):
        room_type = 'hallway'
        inner = (3, 3, 2)

        def _get_positions(self):
            a, b, c = self.inner
            return [CoarseVector(x, y, z) for x in range(-1, a + 1) for y in range(-1, b + 1) for z in range(-1, c + 1)
                    if not (0 <= x < a and 0 <= y < b and 0 <= z < c)]

        def _get_doorways(self):
            return []
    return Shell


def fits_anywhere(model, classes, doors):
    for (c, d) in doors:
        for cls in classes:
            if upmx.oracle_candidates(model, cls, (c, d)):
                return cls.__name__, c, d
    return None


def drive(ck):
    from redeclipse import prefabs as p
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import CoarseVector
    cat = upmx.catalogue()
    Shell = cavity_class(p)
    sets = {'small': ['Bend', 'Tower', 'Dot'], 'shifted': ['Shifted', 'Long'], 'large': ['CrossingWalkways', 'Tower']}

    def one(job):
        mirror, setname, hollow, want, start = job
        classes = [cat[n] for n in sets[setname]]

        def execute(ctl):
            upm = UnusedPositionManager(2 ** 8, mirror=mirror)
            if hollow:
                upm.register_room(Shell(pos=CoarseVector(*start)))
            upm.register_room(cat['Dot'](pos=CoarseVector(*start)))
            before = len(upm.rooms)
            with ck.limit(60):
                upm.place_rooms(False, classes, rooms=want)
            return upm, before
        runs, cap = 0, 60000 if ck.thorough else 1500
        deep = 2 if (ck.thorough or want <= 2 * mirror) else 1
        for ctl, (upm, before) in harness.explore(execute, deep, cap=cap, perms=3, menu=3):
            rep = {'mirror': mirror, 'rooms': sets[setname], 'hollow': hollow, 'want': want, 'start': start, 'choices': ctl.taken}
            model = upmx.Model(mirror)
            model.copies = [upmx.Copy(type(r).__name__, upmx.cell(r.orientation), *upmx.shape(r)) for r in upm.rooms]
            runs += 1
            placed = len(upm.rooms) - before
            ck.step()
            ck.state((job, upmx.snapshot(upm)['rooms']))
            cells = [c for k in model.copies for c in k.cells]
            ck.expect(len(cells) == len(set(cells)) and all(map(upmx.legal, cells)), 'invalid-placement', 'the loop placed rooms that overlap or lie outside', rep)
            ck.expect(placed % mirror == 0, 'partial-copies', '%d rooms placed with %d-way mirroring' % (placed, mirror), rep)
            ck.expect(len(upm.links) == placed, 'links', '%d links for %d placed rooms' % (len(upm.links), placed), rep)
            ck.expect(placed < want + mirror, 'too-many', '%d rooms placed, %d asked for' % (placed, want), rep)
            doors = {(c, d) for (c, _, d) in model.open_doors()}
            kept = {(upmx.cell(c), upmx.cell(d)) for c, _, d in upm.unoccupied}
            ck.expect(kept <= doors, 'phantom-door', 'an open door that is blocked', rep)
            if placed < want:
                ck.outcome('ran out of space')
                ck.expect(not kept, 'stopped-early', 'stopped at %d of %d rooms with doors left' % (placed, want), rep)
            else:
                ck.outcome('placed enough')
            lost = doors - kept
            hit = fits_anywhere(model, classes, sorted(lost))
            ck.expect(hit is None, 'gave-up-door', lambda: 'gave up a door although %s fits it: %r' % (hit[0], hit[1:]), rep)
        if runs >= cap:
            ck.extra.setdefault('capped_configurations', {})[repr(job)] = runs
        ck.trace()

    jobs = []
    for mirror in (1, 2, 4):
        for s in sets:
            jobs += [(mirror, s, True, 12 * mirror, (8, 9, 3)), (mirror, s, False, 0, (8, 9, 3)), (mirror, s, False, 1, (8, 9, 3)),
                     (mirror, s, False, 3 * mirror, (14, 16, 1)), (mirror, s, False, 2 * mirror + 1, (1, 1, 30))]
    ck.parallel(one, jobs)
    ck.sample({'configurations': len(jobs), 'schedules': 'every combination of at most 1-2 non-default random answers'})


def shared(ck):
    """Open doors of several rooms onto the same cell, in every surrounding: what fits one of
    them is placed, whatever happened to the others."""
    from redeclipse import prefabs as p
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import CoarseVector
    from redeclipse.vector.orientations import ABOVE, EAST, NORTH, SELF, WEST
    from mc.rooms import make

    class One(p.Room):
        room_type = 'hallway'

        def _get_doorways(self):
            return [{'orientation': EAST, 'offset': EAST}]

    class Block(p.Room):
        def _get_doorways(self):
            return []

    class Deep(p.Room):
        room_type = 'hallway'
        body = [SELF, EAST]

        def _get_positions(self):
            return list(self.body)

        def _get_doorways(self):
            return [{'orientation': WEST, 'offset': WEST}]

    shapes = {'deep': [SELF, EAST], 'deeper': [SELF, EAST, EAST * 2], 'bend': [SELF, EAST, EAST + NORTH], 'high': [SELF, ABOVE], 'dot': [SELF]}
    classes = {k: type('Deep_' + k, (Deep,), {'body': b}) for k, b in shapes.items()}
    cell = (9, 10, 7)

    def one(job):
        mirror, name, sides = job
        starts = [d for d, s in zip(upmx.DIRS, sides) if s == 'door']
        blocks = [upmx.add(cell, d) for d, s in zip(upmx.DIRS, sides) if s == 'block']
        if len(starts) < 2:
            return
        for extra in ([], [upmx.add(cell, (0, 0, 1))], [upmx.add(cell, (1, 1, 0))]):
            def execute(ctl):
                upm = UnusedPositionManager(2 ** 8, mirror=mirror)
                for d in starts:
                    upm.register_room(make(One, upmx.add(cell, d), upmx.neg(d)))
                for c in blocks + extra:
                    upm.register_room(make(Block, c, (1, 0, 0)))
                n = len(upm.rooms)
                with ck.limit(60):
                    upm.place_rooms(False, [classes[name]], rooms=mirror)
                return upm, n
            for ctl, (upm, n) in harness.explore(execute, 1, perms=2, menu=3):
                rep = {'mirror': mirror, 'doors from': starts, 'blocked': blocks + extra, 'room': name, 'choices': ctl.taken}
                before = upmx.Model(mirror)
                before.copies = [upmx.Copy(type(r).__name__, upmx.cell(r.orientation), *upmx.shape(r)) for r in upm.rooms[:n]]
                ck.step()
                ck.state((job, len(extra), upmx.snapshot(upm)['rooms']))
                doors = sorted({(c, d) for c, _, d in before.open_doors()})
                hit = fits_anywhere(before, [classes[name]], doors)
                ck.outcome('shared cell: ' + ('fits' if hit else 'nothing fits'))
                ck.expect(len(upm.rooms) == n + (mirror if hit else 0), 'shared-cell', lambda: '%d rooms placed, although %s at a cell with several doors' % (
                    len(upm.rooms) - n, 'one fits' if hit else 'none fits'), rep)
        ck.trace()
    ck.parallel(one, [(m, k, s) for m in (1, 2, 4) for k in shapes for s in itertools.product(('door', 'block', 'free'), repeat=4)])


def combs(ck):
    """Rooms with up to seven doors on one side, one above or beside the other, in
    surroundings in which all, some or only one of them fits."""
    from redeclipse import prefabs as p
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import CoarseVector
    from redeclipse.vector.orientations import ABOVE, NORTH, WEST
    cat = upmx.catalogue()

    class Block(p.Room):
        def _get_doorways(self):
            return []

    def comb(n, along, names):
        step = {'up': ABOVE, 'side': NORTH}[along]

        class Comb(p.Room):
            room_type = 'hallway'

            def _get_positions(self):
                return [step * i for i in range(n)]

            def _get_doorways(self):
                out = [{'orientation': WEST, 'offset': WEST + step * i} for i in range(n)]
                return out[::-1] if names == 'reversed' else out
        return Comb

    def one(job):
        mirror, n, along, names = job
        cls = comb(n, along, names)
        unit = {'up': (0, 0, 1), 'side': (0, 1, 0)}[along]
        # the start at the bottom or the edge leaves only some of the doors
        for start in ((8, 9, 14), (8, 9, 1), (8, 9, 31), (8, 1, 14), (8, 30, 14), (30, 9, 0)):
            # a block in line with the cell in front of the east door, k cells up and l cells down
            for k, l in itertools.product(range(0, n + 1), repeat=2):
                upm, model = UnusedPositionManager(2 ** 8, mirror=mirror), upmx.Model(mirror)
                dot = cat['Dot'](pos=CoarseVector(*start))
                upm.register_room(dot)
                model.register(dot)
                fine = True
                for dist in ([k] if k else []) + ([-l] if l else []):
                    c = tuple(a + b + dist * u for a, b, u in zip(start, (1, 0, 0), unit))
                    b = Block(pos=CoarseVector(*c))
                    fine &= upmx.legal(c) and model.admits(b)
                    if fine:
                        upm.register_room(b)
                        model.register(b)
                if not fine:
                    continue
                for door in list(upm.unoccupied):
                    key = (upmx.cell(door[0]), upmx.cell(door[2]))
                    if door[1] is not upm.rooms[0] or key[1] not in ((1, 0, 0), (0, 1, 0)):
                        continue
                    want = upmx.oracle_candidates(model, cls, key)
                    got = {(frozenset(upmx.shape(r)[0]), upmx.cell(r.orientation)) for r in upmx.candidates(upm, [cls], door)}
                    ck.step()
                    ck.state((job, start, k, l, key))
                    rep = {'mirror': mirror, 'doors': n, 'along': along, 'listed': names, 'start': start, 'blocked above/below': (k, l), 'at': key}
                    if not ck.expect(got == want, 'combs:' + ('omits' if want - got else 'unfit'), lambda: 'of %d placements that fit %d are offered' % (len(want), len(got & want)), rep):
                        return
        ck.trace()
    ck.parallel(one, list(itertools.product((1, 2, 4), (2, 3, 4, 7), ('up', 'side'), ('listed', 'reversed'))))
