"""C17: random choices follow the weights: doors, rooms, streams of rooms, room options."""
import collections
import itertools
import math

from mc import harness, upmx


def run(ck):
    weighted(ck)
    doors(ck)
    streams(ck)
    distributions(ck)
    options(ck)


def draw(fn, u):
    with harness.controlled(harness.ScalarController(lambda: u)) as ctl:
        return fn(), ctl.draws


def shares(ck, key, fn, weights, rep, n=None):
    """fn() picks an index; over an exhaustive grid of random answers every index is
    picked in proportion to its weight."""
    total = float(sum(weights))
    n = n or (720 if ck.thorough else 240)
    cnt = collections.Counter()
    for i in range(n):
        got, draws = draw(fn, (i + 0.5) / n)
        if not ck.expect(got in range(len(weights)), key + ':foreign', lambda: 'picked %r' % (got,), rep):
            return
        if draws != 1:
            return          # a sampler that draws several times: only membership is decided
        cnt[got] += 1
        ck.step()
    for i, w in enumerate(weights):
        want = n * w / total
        ck.expect(abs(cnt[i] - want) <= 2, key + ':share', lambda: 'option %d of weights %r is picked %d/%d times' % (i, weights, cnt[i], n), rep)
        if not w:
            ck.expect(not cnt[i], key + ':zero', lambda: 'option %d has no weight but is picked' % i, rep)
    # the ends of the unit interval
    for u in (0.0, 2 ** -1074, 0.1, 1 / 3, 1 - 2 ** -53, 1.0):
        got, _ = draw(fn, u)
        ck.expect(got in range(len(weights)), key + ':foreign', lambda: 'picked %r for %r' % (got, u), rep)
        ck.expect(got not in range(len(weights)) or weights[got] > 0, key + ':zero', lambda: 'option %r of weights %r, which has no weight, is picked for %r' % (got, weights, u), rep)
    ck.trace()


def weighted(ck):
    from redeclipse.upm import UnusedPositionManager as U
    vals = (0, 1, 2, 0.1, 7.5)
    lists = [w for k in (1, 2, 3, 4) for w in itertools.product(vals, repeat=k) if sum(w)]
    if not ck.thorough:
        lists = [w for i, w in enumerate(lists) if len(w) < 4 or i % 4 == 0]
    lists += [(0.1,) * 10, (0.05, 0.1, 0.3, 0.7, 1), (1e-9, 1), (3125, 1, 0, 32), (1,) * 16, (1,) * 17, (1,) * 33, (1,) * 60, (1, 2) * 20, tuple(range(12)), (100, 1), (1, 100),
              (3.4e10, 1.0, 3.4e10), (2 ** 40, 2 ** 40, 2 ** 41), (1e-5, 2e-5, 3e-5), (1e300, 1e300), (0, 0, 0, 5), (5, 0, 0, 0)]

    def one(w):
        ck.state(w)
        shares(ck, 'weighted', lambda: U.weighted_choice(list(enumerate(w))), w, {'weights': w})
    ck.parallel(one, lists)
    # the same alternative may be listed several times: its weights add up
    for labels, w in itertools.product(itertools.product('ab', repeat=3), itertools.product((1, 2, 0.5), repeat=3)):
        n, cnt = 240, collections.Counter()
        for i in range(n):
            got, _ = draw(lambda: U.weighted_choice(list(zip(labels, w))), (i + 0.5) / n)
            cnt[got] += 1
            ck.step()
        ck.state((labels, w))
        for lab in set(labels):
            want = n * sum(x for l, x in zip(labels, w) if l == lab) / sum(w)
            ck.expect(abs(cnt[lab] - want) <= 3, 'weighted:repeated', lambda: '%r of %r is picked %d/%d times' % (lab, list(zip(labels, w)), cnt[lab], n),
                      {'labels': labels, 'weights': w})
    for n in range(1, 60):
        w = [0] + [0.1] * n + [0, 0]
        for u in (0.0, 1.0):
            got, _ = draw(lambda: U.weighted_choice(list(enumerate(w))), u)
            ck.expect(0 < got <= n, 'weighted:zero', lambda: 'option %r, which has no weight, is picked for %r' % (got, u), {'weights': w})
    # rounding: the last option must be returned for the largest answer
    for n in range(1, 60):
        w = [0.1] * n
        got, _ = draw(lambda: U.weighted_choice([('opt', x) for x in w]), 1.0)
        ck.expect(got == 'opt', 'weighted:none', 'no option was picked', {'weights': w})


def doors(ck):
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import CoarseVector
    cat = upmx.catalogue()
    flav = {'nrp_flavour_plain': lambda c: 1, 'nrp_flavour_vertical': lambda c: c[2] ** 5,
            'nrp_flavour_center_hole': lambda c: math.pow(abs(c[0] - 128), 5) + math.pow(abs(c[1] - 128), 5)}
    for mirror, name, pos in itertools.product((1, 2), ('Dot', 'Tower', 'CrossingWalkways'), ((8, 9, 3), (2, 20, 12), (4, 4, 0))):
        upm = UnusedPositionManager(2 ** 8, mirror=mirror)
        upm.register_room(cat[name](pos=CoarseVector(*pos)))
        open_ = list(upm.unoccupied)
        index = {(upmx.cell(p), upmx.cell(o)): i for i, (p, r, o) in enumerate(open_)}
        for f, w in flav.items():
            weights = [w(upmx.cell(p)) for p, _, _ in open_]
            rep = {'mirror': mirror, 'room': name, 'pos': pos, 'flavour': f}
            for (p, _, _), x in zip(open_, weights):
                ck.expect(abs(getattr(upm, f)(*p) - x) <= 1e-9 * abs(x), 'flavour:' + f, 'weight of a door at %r' % (p,), rep)

            def pick():
                p, r, o = upm.nonrandom_position(getattr(upm, f))
                return index.get((upmx.cell(p), upmx.cell(o)), -1)
            ck.state((mirror, name, pos, f))
            if sum(weights):
                shares(ck, 'door', pick, weights, rep, n=240)
            else:
                ck.expect(draw(pick, 0.3)[0] >= 0, 'door:foreign', 'not an open door', rep)

        def rnd():
            p, r, o = upm.random_position()
            return index.get((upmx.cell(p), upmx.cell(o)), -1)
        shares(ck, 'door:random', rnd, [1] * len(open_), {'mirror': mirror}, n=240)
    empty = UnusedPositionManager(2 ** 8)
    for f in (empty.random_position, lambda: empty.nonrandom_position(empty.nrp_flavour_plain)):
        try:
            f()
            ck.fail('door:none', 'a door was picked from nothing')
        except Exception:
            pass


class Orders(harness.ChoiceController):
    """All orders of a shuffle or a full sample, enumerated."""

    def __init__(self, perm):
        super().__init__()
        self.perm = perm
        self.asked = None

    def r_sample(self, population, k, *, counts=None):
        pool = list(population)
        self.asked = len(pool)
        return [pool[i] for i in self.perm[:k]] if len(self.perm) == len(pool) else pool[:k]

    def r_shuffle(self, x):
        self.asked = len(x)
        if len(self.perm) == len(x):
            x[:] = [x[i] for i in self.perm]


def streams(ck):
    from redeclipse import prefabs as p
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import CoarseVector
    upm = UnusedPositionManager(2 ** 8)

    def kinds(table):
        out = []
        for i, t in enumerate(table):
            out.append(type('K%d' % i, (p.Room,), {'room_type': t}))
        return out

    class Prev(p.Room):
        probs = {}

        def get_transition_probs(self):
            return self.probs

    table = [
        ({'a': 0.1, 'b': 0.3}, ('a', 'b'), (1, 3)), ({'a': 0.1, 'b': 0.7}, ('a', 'b'), (1, 7)), ({'a': 1, 'b': 0.3, 'c': 0.1}, ('b', 'c'), (3, 1)),
        ({'a': 0.05, 'b': 0.1, 'c': 0.15}, ('a', 'b', 'c'), (1, 2, 3)), ({}, ('a', 'b', 'c', 'a'), (1, 1, 1, 1)), ({'a': 0.2}, ('a', 'b'), (2, 1)),
        ({'a': 2.3, 'b': 0.8}, ('a', 'b', 'b'), (2, 1, 1)), ({'a': 0.3, 'b': 0.6}, ('a', 'b', 'b'), (1, 2, 2)), ({'a': 5}, ('a',), (1,)),
        ({'a': 0.1, 'b': 0.6}, ('b', 'a'), (6, 1)),
        # far apart, and many
        ({'a': 1.0, 'b': 0.01}, ('a', 'b'), (100, 1)), ({'a': 0.01, 'b': 1.4, 'c': 0.2}, ('a', 'b', 'c'), (1, 140, 20)), ({'a': 1.7, 'b': 0.1}, ('a', 'b'), (17, 1)),
        ({'a': 33, 'b': 1}, ('b', 'a', 'b'), (1, 33, 1)), ({'a': 0.05, 'b': 0.65, 'c': 50}, ('c', 'a', 'b'), (1000, 1, 13)),
        ({'a': 0.1}, ('a',) * 40, (1,) * 40), ({'a': 0.2, 'b': 0.1}, ('a', 'b') * 30, (2, 1) * 30),
    ]

    def one(job):
        probs, types, freq = job
        rooms = kinds(types)
        prev = Prev(pos=CoarseVector(4, 4, 4))
        prev.probs = probs
        rep = {'probabilities': probs, 'rooms': types}
        first = collections.Counter()
        n = sum(freq)
        perms = list(itertools.permutations(range(n))) if n <= 7 or ck.thorough and n <= 8 else [tuple((i + r) % n for i in range(n)) for r in range(n)]
        counted = True
        for perm in perms:
            ctl = Orders(perm)
            with harness.controlled(ctl):
                got = list(upm.random_room_stream(prev, list(rooms)))
            ck.step()
            if not ck.expect(len(got) == len(rooms) and set(got) == set(rooms), 'stream:set', lambda: 'the stream %r does not offer every room exactly once' % got, rep):
                return
            if ctl.asked is not None:
                ck.expect(ctl.asked == n, 'stream:shares', lambda: '%d shares instead of %r' % (ctl.asked, freq), rep)
            counted &= ctl.asked is not None
            first[rooms.index(got[0])] += 1
            ck.state((str(probs), types, tuple(rooms.index(g) for g in got)))
        ck.trace()
        if counted:
            for i, f in enumerate(freq):
                ck.expect(first[i] * n == len(perms) * f, 'stream:first', lambda: 'room %d comes first in %d of %d orders, expected share %d/%d' % (
                    i, first[i], len(perms), f, n), rep)
        # random_room
        w = [probs.get(t, 0.1) for t in types]
        shares(ck, 'room', lambda: rooms.index(upm.random_room(prev, list(rooms))), w, rep)
    ck.parallel(one, table)
    # the localisation tries every room and every orientation that has a matching door
    cat = upmx.catalogue()
    names = ['Dot', 'Long', 'Tower']
    upm.register_room(cat['Dot'](pos=CoarseVector(12, 12, 6)))
    door = upm.unoccupied[0]
    runs = collections.Counter()
    for ctl, got in harness.explore(lambda ctl: list(upm.room_localization([cat[n] for n in names], *door)), 1):
        ck.step()
        runs[tuple(sorted((type(r).__name__, upmx.cell(r.orientation), upmx.shape(r)[0]) for r in got))] += 1
        ck.state(tuple((type(r).__name__, upmx.cell(r.orientation)) for r in got))
    ck.expect(len(runs) == 1, 'localization:set', 'which placements are offered depends on the shuffling', None)


def distributions(ck):
    from redeclipse import prefabs as p
    from redeclipse.prefabs import distributions as d
    from redeclipse.vector import CoarseVector
    managers = [getattr(d, n) for n in dir(d) if n.endswith('DistributionManager') and getattr(d, n) is not d.DistributionManager]
    ck.expect(len(managers) >= 4, 'dist:count', 'distribution managers disappeared')
    for M in managers:
        m = M()
        types = sorted({t for k in m.transition_probabilities for t in k})
        for a, b in itertools.product(types, repeat=2):
            cls = type('T', (p.Room,), {'room_type': a})
            room = cls(pos=CoarseVector(0, 0, 0))
            probs = m.for_class(room)
            direct = m.transition_probabilities.get((a, b))
            want = direct if direct is not None else (m.transition_probabilities.get((b, a)) if m.mirror else None)
            rep = {'manager': M.__name__, 'from': a, 'to': b}
            ck.step()
            ck.state((M.__name__, a, b))
            ck.expect(probs.get(b) == want, 'dist:for_class', lambda: '%s: %s -> %s is %r, expected %r' % (M.__name__, a, b, probs.get(b), want), rep)
            ck.expect(set(probs) <= set(types), 'dist:types', 'unknown room types', rep)
            try:
                got = m.tp(a, b)
            except Exception:
                got = None
            ck.expect(got == want, 'dist:tp', lambda: '%s: tp(%s, %s) is %r, expected %r' % (M.__name__, a, b, got, want), rep)
            ck.expect(want is None or want > 0, 'dist:positive', 'a transition without weight', rep)
        ck.trace()
    # what a room reports is what the active manager says for its type
    for t in ('hallway', 'stair', 'setpiece_large', 'unheard-of'):
        r = type('T', (p.Room,), {'room_type': t})(pos=CoarseVector(1, 1, 1))
        ck.expect(r.get_transition_probs() == p.DISTMAN.for_class(r), 'dist:room', 'a room does not use its own type', {'type': t})
        ck.expect(r.get_transition_probs() == r.get_transition_probs(), 'dist:room-stable', 'asking twice differs', {'type': t})


def options(ck):
    from redeclipse import prefabs as p
    from redeclipse.vector import CoarseVector
    flagged = [c for c in vars(p).values() if isinstance(c, type) and issubclass(c, p.Room) and hasattr(c, '_randflags')]
    bare = [c for c in vars(p).values() if isinstance(c, type) and issubclass(c, p.Room) and not hasattr(c, '_randflags')]
    ck.expect(len(flagged) >= 8, 'options:count', 'rooms with options disappeared')
    other = p.TestRoom(pos=CoarseVector(4, 4, 4))

    def one(cls):
        n = len(cls._randflags)
        default = tuple(cls._randflags)
        # from another kind of room: every combination is reachable
        seen = collections.Counter()
        for bits in itertools.product((0.25, 0.75), repeat=n):
            it = iter(bits)
            with harness.controlled(harness.ScalarController(lambda: next(it, 0.5))):
                got = cls.randOpts(other)
            ck.step()
            flags = tuple(bool(x) for x in got['randflags'])
            ck.expect(len(flags) == n, 'options:length', 'number of options of %s' % cls.__name__)
            seen[flags] += 1
        ck.expect(len(seen) == 2 ** n, 'options:reach', lambda: '%s: only %d of %d combinations are reachable' % (cls.__name__, len(seen), 2 ** n))
        # after the same kind of room: exactly one option changes, and any of them can
        for flags in itertools.product((True, False), repeat=n):
            prev = cls(pos=CoarseVector(4, 4, 4), randflags=list(flags))
            changed = set()
            for i in range(n):
                with harness.controlled(harness.ScalarController(lambda: (i + 0.5) / n)):
                    got = tuple(bool(x) for x in cls.randOpts(prev)['randflags'])
                ck.step()
                ck.state((cls.__name__, flags, got))
                diff = [k for k in range(n) if got[k] != flags[k]]
                ck.expect(len(got) == n and len(diff) == 1, 'options:one-change', lambda: '%s: %r became %r' % (cls.__name__, flags, got), {'room': cls.__name__, 'flags': flags})
                changed.update(diff)
            ck.expect(changed == set(range(n)), 'options:any-change', lambda: '%s: only options %r can change' % (cls.__name__, changed))
        ck.expect(tuple(cls._randflags) == default, 'options:class-default', 'the defaults of %s were changed' % cls.__name__)
        prev = cls(pos=CoarseVector(4, 4, 4))
        with harness.controlled(harness.ScalarController(lambda: 0.0)):
            got = cls.randOpts(prev)['randflags']
        ck.expect(sum(a != b for a, b in zip(got, default)) == 1 and len(got) == n, 'options:default', 'options after a default room')
        ck.trace()
    ck.parallel(one, flagged)
    for cls in bare:
        ck.expect(cls.randOpts(other) == {}, 'options:none', '%s has no options' % cls.__name__)
