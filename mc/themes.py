"""Whole placements with the room sets the repository ships (by theme), from the start room to
the end caps, through the public interface of the placement manager; nothing is drawn."""
import collections
import copy

from mc import harness, rooms, upmx

# (end caps: rooms with one door)
CAPS = {'castle': ('castle:castle_wall_end_cliff', 'castle:castle_wall_section_endcap'), 'spacestation': ('spacestation:station_endcap',),
        'egypt': ('egypt:house_2x2', 'egypt:house_2x2x3'), 'dungeon': ('dungeon:dungeon_2x2',), 'classic': ('original:spawn_room',), 'mixed': ('castle:castle_wall_end_cliff', 'spacestation:station_endcap')}


def keep_models():
    """Reading a model again gives the same (C24): parse each one once per process."""
    import redeclipse.prefabs.magica as M
    if getattr(M.MagicaRoom.load_model, 'kept', False):
        return
    real, known = M.MagicaRoom.load_model, {}

    def load_model(self):
        k = (type(self), self.vox_file, repr(self.boundary_additions), repr(self.doors))
        if k not in known:
            before = dict(self.__dict__)
            real(self)
            known[k] = {a: v for a, v in self.__dict__.items() if a not in before or before[a] is not v}
        for a, v in known[k].items():
            setattr(self, a, copy.copy(v) if isinstance(v, (list, dict)) else v)
    load_model.kept = True
    M.MagicaRoom.load_model = load_model


def sets():
    lib = dict(rooms.all_rooms())
    # (rooms that only test, and stairs whose doors leave from cells they do not claim: C21)
    ok = {q: c for q, c in lib.items() if not q.startswith('egypt:stair') and 'Test' not in q and q not in [x for v in CAPS.values() for x in v]}
    out = {'mixed': [ok[q] for q in sorted(ok)]}
    for theme in ('castle', 'spacestation', 'egypt', 'dungeon'):
        out[theme] = [ok[q] for q in sorted(ok) if q.startswith(theme + ':')]
    out['classic'] = [ok[q] for q in sorted(ok) if q.startswith(':')]
    starts = {'mixed': ':Room', 'castle': 'castle:castle_large', 'spacestation': 'spacestation:station_tubeX', 'egypt': 'egypt:gate', 'dungeon': 'dungeon:dungeon_junction', 'classic': ':SpawnRoom'}
    return {t: (cs, lib[starts[t]], [lib[q] for q in CAPS[t] if q in lib]) for t, cs in out.items() if cs and starts[t] in lib}


# every question asked of the random module gets its answer from one of these
ANSWERS = {
    'first': lambda n: 0.0,
    'last': lambda n: 0.999,
    'threes': lambda n: (0.05, 0.9, 0.45)[n % 3],
    'walk': lambda n: (n * 0.381966) % 1.0,
    'slow': lambda n: (n // 7 * 0.237) % 1.0,
    'late': lambda n: 0.0 if n < 60 else (n * 0.4142) % 1.0,
}


class Fixed(harness.ScalarController):
    def __init__(self, fn):
        self.n = 0
        self.fn = fn
        super().__init__(self.next)

    def next(self):
        self.n += 1
        return self.fn(self.n - 1)


def run(ck, judge, caps=False):
    """judge(upm, stage, rep, theme, caps): stage is 'placed' and then, on the same manager, 'capped'."""
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import CoarseVector
    every = sets()
    count = 400 if ck.thorough else 120
    where = ((8, 8, 3), (3, 14, 6)) + (((2, 2, 27), (12, 7, 15)) if ck.thorough else ())

    def one(job):
        theme, mirror, ans, pos = job
        keep_models()
        classes, start, ends = every[theme]
        rep = {'theme': theme, 'mirror': mirror, 'answers': ans, 'start': pos, 'rooms': count}

        def go():
            upm = UnusedPositionManager(2 ** 8, mirror=mirror)
            a = start(pos=CoarseVector(*pos))
            if not upm.preregister_room(a):
                return None
            upm.register_room(a)
            upm.place_rooms(False, classes, rooms=count)
            return upm
        with harness.controlled(Fixed(ANSWERS[ans])):
            ok, upm = ck.guard('themes:' + theme, go, rep, seconds=240)
            ck.step()
            if not ok or upm is None:
                return
            ck.state((theme, mirror, ans, pos, len(upm.rooms), len(upm.unoccupied)))
            judge(upm, 'placed', rep, theme, ends)
            if caps and ends:
                n = len(upm.rooms)
                ok, _ = ck.guard('themes:cap:' + theme, lambda: upm.endcap(possible_endcaps=list(ends)), rep, seconds=240)
                if ok:
                    judge(upm, 'capped', dict(rep, placed=n), theme, ends)
        ck.trace()
    ck.parallel(one, [(t, m, s, w) for t in sorted(every) for m in (1, 2, 4) for s in ANSWERS for w in where])


def shapes(upm):
    return [upmx.shape(r) for r in upm.rooms]


def disjoint(ck):
    def judge(upm, stage, rep, theme, caps):
        occ = {}
        for i, (cells, _) in enumerate(shapes(upm)):
            for c in cells:
                ck.expect(c not in occ, 'themes:shared', lambda: '%s: rooms %r and %r share %r' % (theme, upm.rooms[occ[c]], upm.rooms[i], c), rep)
                ck.expect(upmx.legal(c), 'themes:outside', lambda: '%s: %r at %r is off the map' % (theme, upm.rooms[i], c), rep)
                occ[c] = i
        index = {id(r): i for i, r in enumerate(upm.rooms)}
        got = {upmx.cell(p): index.get(id(r)) for p, r in upm.occupied.items()}
        ck.expect(got == occ, 'themes:record', lambda: '%s: the record of occupied cells is wrong at %r' % (theme, [c for c in set(got) | set(occ) if got.get(c) != occ.get(c)][:3]), rep)
    return judge


def doors(ck):
    def judge(upm, stage, rep, theme, caps):
        index = {id(r): i for i, r in enumerate(upm.rooms)}
        sh = shapes(upm)
        occ = {c for cells, _ in sh for c in cells}
        got = collections.Counter((upmx.cell(p), index.get(id(r)), upmx.cell(o)) for p, r, o in upm.unoccupied)
        want = {(c, i, d) for i, (_, ds) in enumerate(sh) for c, d in ds if upmx.legal(c) and c not in occ}
        # (doors at which nothing fitted are given up while placing)
        ck.expect(set(got) <= want and all(v == 1 for v in got.values()), 'themes:doors', lambda: '%s: open doors that are none, or twice: %r' % (
            theme, ([k for k in got if k not in want] + [k for k, v in got.items() if v > 1])[:3]), rep)
    return judge


def symmetric(ck):
    def judge(upm, stage, rep, theme, caps):
        if stage != 'placed':
            return
        m = rep['mirror']
        sh = shapes(upm)
        rot = {1: (), 2: (180,), 4: (90, 180, 270)}[m]
        for a in rot:
            one = collections.Counter((type(r).__name__, upmx.cell(r.orientation), frozenset(c), frozenset(d)) for r, (c, d) in zip(upm.rooms, sh))
            two = collections.Counter((k, upmx.turn(o, a), frozenset(upmx.spin(q, a) for q in c), frozenset((upmx.spin(q, a), upmx.turn(e, a)) for q, e in d)) for k, o, c, d in one.elements())
            ck.expect(one == two, 'themes:rooms', lambda: '%s: rooms are not symmetric under %d degrees: %r' % (theme, a, [x[:2] for x in (one - two)][:3]), rep)
            l1 = collections.Counter((upmx.cell(p), upmx.cell(q)) for p, q in upm.links)
            owner = {c: i for i, (cs, _) in enumerate(sh) for c in cs}
            rooms_ = lambda ls: collections.Counter((frozenset(sh[owner[p]][0]), frozenset(sh[owner[q]][0])) for p, q in ls if p in owner and q in owner)      # noqa: E731
            l2 = [(upmx.spin(p, a), upmx.spin(q, a)) for p, q in l1.elements()]
            ck.expect(rooms_(l1.elements()) == rooms_(l2), 'themes:links', lambda: '%s: links are not symmetric under %d degrees' % (theme, a), rep)
    return judge


def linked(ck, analyse):
    def judge(upm, stage, rep, theme, caps):
        if stage == 'placed':
            analyse(upm, rep, rep['mirror'], range(rep['mirror']))
    return judge


def kept(ck):
    """Enough rooms, or no open door is left at which anything fits."""
    from redeclipse.vector import CoarseVector
    forms = {}

    def judge(upm, stage, rep, theme, caps):
        if stage != 'placed':
            return
        n = len(upm.rooms)
        ck.expect(n - rep['mirror'] == -(-rep['rooms'] // rep['mirror']) * rep['mirror'] or not upm.unoccupied, 'themes:count', lambda: '%s: %d rooms were placed for %d asked' % (
            theme, n - rep['mirror'], rep['rooms']), rep)
        ck.expect(len(upm.links) == n - rep['mirror'], 'themes:count', lambda: '%s: %d links for %d rooms' % (theme, len(upm.links), n), rep)
        sh = shapes(upm)
        occ = {c for cells, _ in sh for c in cells}
        listed = {(upmx.cell(p), upmx.cell(o)) for p, r, o in upm.unoccupied}
        lost = {(c, d) for _, ds in sh for c, d in ds if upmx.legal(c) and c not in occ} - listed
        for cls in sets()[theme][0] if lost else ():
            if cls not in forms:
                # (rooms whose doors are drawn may fit in one shape and not in another)
                with harness.controlled(Fixed(ANSWERS['first'])):
                    drawn = bool(cls.randOpts(upm.rooms[0]))
                forms[cls] = [] if drawn else [(o, upmx.shape(cls(pos=CoarseVector(2, 2, 3), orientation=CoarseVector(*o)))) for o in upmx.DIRS]
            for o, (cells, ds) in forms[cls]:
                for c, d in lost:
                    for x in [x for x, e in ds if e == upmx.neg(d)]:
                        shift = upmx.sub(upmx.sub(c, d), x)
                        room = Moved(cls, o, [upmx.add(q, shift) for q in cells], [(upmx.add(q, shift), e) for q, e in ds])
                        ck.expect(not room.fits(rep['mirror'], occ), 'themes:abandoned', lambda: '%s: the door %r was given up, but %s fits' % (theme, (c, d), cls.__name__), rep)
        ck.outcome('themes: %s' % ('doors given up' if lost else 'all doors kept'))
    return judge


class Moved:
    def __init__(self, cls, orientation, cells, doors):
        self.cells, self.doors = cells, doors

    def fits(self, mirror, occ):
        mine = set()
        for a in upmx.ROTS[mirror]:
            cells = [upmx.spin(c, a) for c in self.cells]
            if any(not upmx.legal(c) or c in occ or c in mine for c in cells) or any(not upmx.legal(upmx.spin(c, a)) for c, _ in self.doors):
                return False
            mine.update(cells)
        return True


def capped(ck):
    from redeclipse.vector import CoarseVector
    forms = {}

    def form(cls):
        if cls not in forms:
            forms[cls] = [upmx.shape(cls(pos=CoarseVector(0, 0, 0), orientation=CoarseVector(*o))) for o in upmx.DIRS]
        return forms[cls]

    before = {}

    def judge(upm, stage, rep, theme, caps):
        sh = shapes(upm)
        if stage == 'placed':
            before['rooms'] = [(id(r), s) for r, s in zip(upm.rooms, sh)]
            before['doors'] = {(upmx.cell(p), upmx.cell(o)) for p, r, o in upm.unoccupied}
            before['links'] = list(upm.links)
            return
        old = before['rooms']
        ck.expect([(id(r), s) for r, s in zip(upm.rooms, sh)][:len(old)] == old, 'themes:changed', lambda: '%s: end capping changed rooms' % theme, rep)
        ck.expect(list(upm.links) == before['links'], 'themes:links', lambda: '%s: end capping changed links' % theme, rep)
        occ = {}
        for i, (cells, ds) in enumerate(sh):
            for c in cells:
                ck.expect(c not in occ and upmx.legal(c), 'themes:overlap', lambda: '%s: cap %r overlaps or leaves the map' % (theme, upm.rooms[i]), rep)
                occ[c] = i
            if i >= len(old):
                ck.expect(any(c in cells and (upmx.sub(c, d), upmx.neg(d)) in ds for c, d in before['doors']), 'themes:elsewhere', lambda: '%s: cap %r closes no open door' % (
                    theme, upm.rooms[i]), rep)
        left = {(upmx.cell(p), upmx.cell(o)) for p, r, o in upm.unoccupied}
        ck.expect(left == {(c, d) for c, d in before['doors'] if c not in occ}, 'themes:opened', lambda: '%s: open doors after end capping: %r' % (theme, sorted(left)[:3]), rep)
        for c, d in left:
            for cls in caps:
                for cells, ds in form(cls):
                    for x in [x for x, e in ds if e == upmx.neg(d)]:
                        shift = upmx.sub(upmx.sub(c, d), x)
                        ck.expect(not all(upmx.legal(q) and q not in occ for q in (upmx.add(q, shift) for q in cells)), 'themes:left',
                                  lambda: '%s: door %r stays open although %s fits' % (theme, (c, d), cls.__name__), rep)
        ck.outcome('themes: all closed' if not left else 'themes: some cannot be closed')
    return judge
