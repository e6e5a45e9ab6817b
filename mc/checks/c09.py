"""C09: no two placed rooms ever share a cell, and the occupancy table is exactly the
union of what the placed rooms claim."""
from mc import themes, upmx
from mc.upmx import E_, N_, S_


def run(ck):
    def inv(upm, model, hist, extra):
        rep = upmx.where(hist)
        seen = {}
        for i, r in enumerate(upm.rooms):
            for c in upmx.shape(r)[0]:
                if c in seen:
                    ck.fail('overlap', 'cell %r is claimed by %r and %r' % (c, upm.rooms[seen[c]], r), rep)
                seen[c] = i
        table = {}
        for p, r in upm.occupied.items():
            c = upmx.cell(p)
            ck.expect(c not in table, 'table-duplicate', 'cell %r is in the table twice' % (c,), rep)
            table[c] = r
        ck.expect(set(table) == set(seen), 'table-cells', lambda: 'table has %r extra, lacks %r' % (sorted(set(table) - set(seen))[:4], sorted(set(seen) - set(table))[:4]), rep)
        for c, i in seen.items():
            if c in table:
                ck.expect(table[c] is upm.rooms[i], 'table-owner', 'cell %r is listed for another room than the one that claims it' % (c,), rep)
        ck.expect(set(seen) == set(model.occupied()), 'claimed', lambda: 'occupied cells differ from the registered shapes by %r' % sorted(set(seen) ^ set(model.occupied()))[:6], rep)

    names = ['Bend', 'Shifted', 'Tower'] + (['Long', 'Stair', 'CrossingWalkways', 'JumpCorridorVertical', 'MultiPlatform'] if ck.thorough else [])
    upmx.explore(ck, names, upmx.STARTS, (1, 2, 4), 3 if ck.thorough else 2, inv, max_states=20000 if ck.thorough else 10**6)
    ring(ck, inv)
    raw(ck)
    capped(ck, inv)
    reused(ck, inv)
    themes.run(ck, themes.disjoint(ck), caps=True)
    ck.sample({'classes': names, 'starts': len(upmx.STARTS)})


def ring(ck, inv):
    """Long histories: walk around until the placement closes on itself."""
    import itertools
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import CoarseVector
    cat = upmx.catalogue()

    def one(job):
        mirror, turns = job
        upm = UnusedPositionManager(2 ** 8, mirror=mirror)
        model = upmx.Model(mirror)
        r = cat['Dot'](pos=CoarseVector(12, 13, 4))
        upm.register_room(r)
        model.register(r)
        hist = [('ring', mirror, turns)]
        for k in range(12):
            done = False
            for door in sorted(upm.unoccupied, key=lambda d: (upmx.cell(d[0]), upmx.cell(d[2])))[::-1]:
                cands = upmx.candidates(upm, [cat[turns[k % len(turns)]]], door)
                if cands:
                    upm.register_room(cands[-1])
                    model.register(cands[-1])
                    hist.append((upmx.cell(door[0]), upmx.shape(cands[-1])[0]))
                    done = True
                    break
            inv(upm, model, hist, None)
            ck.state(tuple(hist))
            ck.step()
            if not done:
                break
        ck.trace()

    ck.parallel(one, itertools.product((1, 2, 4), itertools.product(('Bend', 'Long', 'Dot'), repeat=4 if ck.thorough else 3)))


def raw(ck):
    """Every pair of registrations of two shapes at every relative position (overlapping or
    not): the second is accepted exactly when it shares no cell."""
    import itertools
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import CoarseVector
    cat = upmx.catalogue()
    span = range(-3, 4) if ck.thorough else range(-2, 3)
    shapes = [('Bend', E_), ('Bend', N_), ('Shifted', S_), ('Tower', E_)]

    def one(job):
        mirror, (an, ao), (bn, bo) = job
        for dx, dy, dz in itertools.product(span, span, (-1, 0, 1)):
            for base in ((8, 9, 5), (17, 16, 5)):
                upm = UnusedPositionManager(2 ** 8, mirror=mirror)
                model = upmx.Model(mirror)
                a = cat[an](pos=CoarseVector(*base), orientation=CoarseVector(*ao))
                if model.overlaps(a):
                    continue
                upm.register_room(a)
                model.register(a)
                b = cat[bn](pos=CoarseVector(base[0] + dx, base[1] + dy, base[2] + dz), orientation=CoarseVector(*bo))
                want = not model.overlaps(b)
                rep = {'mirror': mirror, 'first': (an, base, ao), 'second': (bn, (dx, dy, dz), bo)}
                ck.step()
                ck.state((mirror, an, ao, bn, bo, dx, dy, dz, base))
                try:
                    upm.register_room(b)
                    got = True
                except Exception:
                    got = False
                ck.expect(got == want, 'raw:accepts-overlap' if got else 'raw:refuses-free', '%s a room that %s' % (
                    'accepted' if got else 'refused', 'overlaps' if got else 'fits'), rep)
                cells = [c for r in upm.rooms for c in upmx.shape(r)[0]]
                ck.expect(len(cells) == len(set(cells)), 'raw:overlap', 'rooms share cells', rep)
                ck.outcome('accepted' if got else 'refused')

    ck.parallel(one, itertools.product((1, 2, 4), shapes[:2], shapes))
    # an empty orientation list must not hide overlap: same room twice
    upm = UnusedPositionManager(2 ** 8)
    r = cat['Dot'](pos=CoarseVector(4, 4, 4))
    upm.register_room(r)
    try:
        upm.register_room(cat['Dot'](pos=CoarseVector(4, 4, 4)))
        ck.fail('raw:twice', 'the same cell was registered twice')
    except Exception:
        pass


def reused(ck, inv):
    """One room object that is moved and turned between registrations: the rooms placed
    before stay where they were placed."""
    import itertools
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import CoarseVector
    cat = upmx.catalogue()
    spots = ((8, 9, 5), (12, 9, 5), (9, 13, 6), (8, 9, 6))

    def one(job):
        mirror, name, order, oris = job
        upm = UnusedPositionManager(2 ** 8, mirror=mirror)
        model = upmx.Model(mirror)
        r = cat[name](pos=CoarseVector(*spots[order[0]]), orientation=CoarseVector(*oris[0]))
        hist = [('reused', mirror, name, order, oris)]
        for i, o in zip(order, itertools.cycle(oris)):
            r.pos, r.orientation = CoarseVector(*spots[i]), CoarseVector(*o)
            ck.step()
            if model.overlaps(r):
                try:
                    upm.register_room(r)
                    ck.fail('reused:accepts-overlap', 'accepted a room that overlaps', upmx.where(hist))
                except Exception:
                    pass
            else:
                ok, _ = ck.guard('reused:refuses-free', lambda: upm.register_room(r), upmx.where(hist))
                if not ok:
                    return
                model.register(r)
            inv(upm, model, hist, None)
        ck.state(('reused',) + job)
        ck.trace()
    ck.parallel(one, itertools.product((1, 2, 4), ('Bend', 'Shifted', 'Tower', 'Dot'), itertools.permutations(range(4), 3), ((E_,), (E_, N_, S_), (N_, E_))))


def capped(ck, inv):
    """End caps next to an obstacle at every cell around the door."""
    import itertools
    from mc import harness
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import CoarseVector
    cat = upmx.catalogue()
    capsets = (['LongCap'], ['Line3'], ['HookCap'], ['Line3', 'HookCap', 'Cap'])

    def one(job):
        mirror, start, caps = job
        for d in itertools.product(range(-3, 4), range(-3, 4), (0, 1)):
            upm = UnusedPositionManager(2 ** 8, mirror=mirror)
            model = upmx.Model(mirror)
            a = cat['Dot'](pos=CoarseVector(*start))
            b = cat['Room'](pos=CoarseVector(*upmx.add(start, d)))
            for r in (a, b):
                if model.overlaps(r):
                    break
                upm.register_room(r)
                model.register(r)
            else:
                hist = [('capped', mirror, start, d, caps)]
                for debug in (False, True):
                    u = upm if debug else __import__('copy').deepcopy(upm)

                    def go():
                        with harness.controlled(harness.ChoiceController()):
                            u.endcap(debug=debug, possible_endcaps=[cat[c] for c in caps])
                    ok, _ = ck.guard('capped:exception', go, {'history': hist})
                    ck.step()
                    ck.state((mirror, start, tuple(caps), d, debug))
                    if not ok:
                        continue
                    m2 = upmx.Model(mirror)
                    m2.copies = model.copies + [upmx.Copy(type(r).__name__, upmx.cell(r.orientation), *upmx.shape(r)) for r in u.rooms[len(model.copies):]]
                    inv(u, m2, hist, None)

    ck.parallel(one, itertools.product((1, 2, 4), ((8, 9, 5), (18, 17, 0)), capsets))
