"""C11: everything the generator accepts lies inside the map, mirrored copies and the cells
behind its doors included; what it refuses really does not fit."""
import itertools

from mc import rooms, themes, upmx
from mc.upmx import E_, N_, W_, S_


def run(ck):
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import CoarseVector
    cat = upmx.catalogue()

    # 1. the predicate itself, on every cell around the map's faces, edges and corners
    upm = UnusedPositionManager(2 ** 8)
    span = (-33, -2, -1, 0, 1, 15, 16, 30, 31, 32, 33, 64)
    for c in itertools.product(span, repeat=3):
        ck.step()
        ck.expect(bool(upm.is_legal(CoarseVector(*c))) == upmx.legal(c), 'predicate', lambda: 'cell %r' % (c,), {'cell': c})

    # 2. preregistration of every shape at every cell of a lattice which covers all faces
    coords = (-2, -1, 0, 1, 2, 14, 15, 16, 17, 29, 30, 31, 32, 33)
    zs = (-1, 0, 1, 15, 29, 30, 31, 32)
    names = ['Dot', 'Bend', 'Tower', 'Shifted', 'CrossingWalkways', 'Hatch'] + (['Long', 'Stair', 'MultiPlatform', 'JumpCorridor3'] if ck.thorough else [])

    def lattice(job):
        mirror, name, ori = job
        upm = UnusedPositionManager(2 ** 8, mirror=mirror)
        model = upmx.Model(mirror)
        for pos in itertools.product(coords, coords, zs):
            r = cat[name](pos=CoarseVector(*pos), orientation=CoarseVector(*ori))
            want = model.admits(r)
            got = upm.preregister_room(r)
            ck.step()
            ck.state((mirror, name, ori, pos))
            ck.expect(bool(got) == want, 'accepts-outside' if got else 'refuses-inside',
                      lambda: '%s at %r facing %r (mirror %d) %s' % (name, pos, ori, mirror, 'accepted' if got else 'refused'),
                      {'mirror': mirror, 'room': name, 'pos': pos, 'orientation': ori})
            ck.outcome('accepted' if got else 'refused')
        ck.trace()

    ck.parallel(lattice, itertools.product((1, 2, 4), names, (E_, N_, W_, S_) if ck.thorough else (E_, N_, S_)))

    # 3. whatever the generator places, from starts close to every face
    def inv(upm, model, hist, extra):
        for r in upm.rooms:
            cells, doors = upmx.shape(r)
            for c in cells:
                ck.expect(upmx.legal(c), 'placed-outside', lambda: '%r occupies cell %r' % (r, c), upmx.where(hist))
            if extra:
                for c, _ in doors:
                    ck.expect(upmx.legal(c), 'door-outside', lambda: '%r has a door at %r' % (r, c), upmx.where(hist))

    starts = [('Dot', (1, 1, 0), E_), ('Dot', (30, 30, 31), E_), ('Tower', (1, 30, 29), S_), ('Dot', (30, 1, 2), W_), ('Long', (15, 30, 0), E_),
              ('Dot', (1, 16, 31), N_), ('Hatch', (5, 6, 31), E_)]
    upmx.explore(ck, ['Bend', 'Tower', 'Shifted', 'Stair'][:4 if ck.thorough else 3], starts, (1, 2, 4), 3 if ck.thorough else 2, inv,
                 max_states=20000 if ck.thorough else 10 ** 6)
    shipped(ck)
    ck.sample({'lattice': len(coords) ** 2 * len(zs), 'shapes': names})


def shipped(ck):
    """Every room of the library, with its outermost cells and doors on either side of the border."""
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import CoarseVector

    def one(job):
        name, cls = job
        themes.keep_models()
        for ori in upmx.DIRS if ck.thorough else upmx.DIRS[:2]:
            make = lambda pos: cls(pos=CoarseVector(*pos), orientation=CoarseVector(*ori))      # noqa: E731
            cells, doors = upmx.shape(make((0, 0, 0)))
            ends = []
            for k in range(3):
                own, out = [c[k] for c in cells], [c[k] for c, _ in doors] or [0]
                # each end inside by none, and by one cell, for cells and for doors
                ends.append(sorted({-min(own), -min(own) - 1, -min(out), -min(out) - 1, 31 - max(own), 32 - max(own), 31 - max(out), 32 - max(out)}) + [9])
            for mirror in (1, 2, 4):
                upm = UnusedPositionManager(2 ** 8, mirror=mirror)
                model = upmx.Model(mirror)
                for pos in itertools.product(*ends):
                    if not ck.thorough and sum(q != 9 for q in pos) > 2:
                        continue
                    rep = {'room': name, 'orientation': ori, 'pos': pos, 'mirror': mirror}
                    want = model.admits(make(pos))
                    got = upm.preregister_room(make(pos))
                    ck.step()
                    ck.state((name, ori, pos, mirror))
                    ck.expect(bool(got) == want, 'shipped:outside' if got else 'shipped:inside', lambda: '%s at %r facing %r is %s' % (name, pos, ori, 'accepted' if got else 'refused'), rep)
        ck.trace()
    ck.parallel(one, [(q, c) for q, c in rooms.all_rooms()])
