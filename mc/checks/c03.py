"""C03: entities are saved where and as they were placed."""
import itertools

from mc import mpzref, mapbuild as mb

WEAPON = ['type', 'flags', 'modes', 'muts', 'id']
SPECS = {
    # kind: (type byte, attribute order, defaults, fixed)
    'PlayerSpawn': (3, ['team', 'yaw', 'pitch', 'modes', 'muts', 'id'], {}, {}),
    'Sunlight': (8, ['yaw', 'pitch', 'red', 'green', 'blue', 'offset', 'flare', 'flarescale'],
                 {'red': 255, 'green': 255, 'blue': 255, 'offset': 45}, {}),
    'Light': (1, ['radius', 'red', 'green', 'blue', 'flare', 'flarescale'],
              {'radius': 64, 'red': 255, 'green': 255, 'blue': 255}, {}),
    'Pusher': (13, ['yaw', 'pitch', 'force', 'maxrad', 'minrad', 'type'], {'pitch': 45, 'force': 150}, {}),
    'TeamFlag': (14, ['team', 'yaw', 'pitch', 'modes', 'muts', 'id'], {'team': 1, 'modes': 2}, {}),
    'MapModel': (2, ['type', 'yaw', 'pitch', 'roll', 'blend', 'scale', 'flags', 'colour', 'palette', 'palindex',
                     'spinyaw', 'spinpitch', 'spinroll'], {}, {}),
    'Weapon': (9, WEAPON, {}, {}),
    'Grenade': (9, WEAPON, {'type': 9}, {'type': 9}),
    'Shotgun': (9, WEAPON, {'type': 3}, {'type': 3}),
}


def run(ck):
    from redeclipse.entities import PlayerSpawn, Sunlight, Light, Pusher, TeamFlag, Entity
    from redeclipse.entities.model import MapModel
    from redeclipse.entities.weapon import Weapon, Grenade, Shotgun
    from redeclipse.enums import EntType
    from redeclipse.vector import FineVector, CoarseVector

    cls = {c.__name__: c for c in (PlayerSpawn, Sunlight, Light, Pusher, TeamFlag, MapModel, Weapon, Grenade, Shotgun)}
    path = ck.path('e.mpz')
    coords = [0, 0.5, 1, 2, 4, 7, 7.5, 8, 31, 100, 255, -1] if not ck.thorough else [0, 0.5, 1, 2, 3, 4, 5, 6, 7, 7.5, 8, 9, 15, 16, 31, 32, 63, 100, 127, 128, 200, 255, 255.5, -1, -0.5]
    positions = [(u, xyz) for u in ('fine', 'coarse') for xyz in itertools.product(coords, repeat=3)]

    def vec(u, xyz):
        return FineVector(*xyz) if u == 'fine' else CoarseVector(*xyz)

    def expected_pos(u, xyz):
        k = 4 if u == 'fine' else 32
        return tuple(mb.f32(c * k) for c in xyz)

    batch = []          # (label, entity, expected)

    def flush():
        if not batch:
            return
        m = mb.real_map(mb.base_model())
        m.ents = [b[1] for b in batch]

        def io():
            m.write(path)
            dec = mpzref.decode(mpzref.read_file(path))
            back = mb.read(path)
            return dec['ents'], back
        ok, r = ck.guard('write:' + batch[0][0], io, {'entities': [b[0] for b in batch]})
        if ok:
            ents, back = r
            ck.expect(len(ents) == len(batch) and len(back.ents) == len(batch), 'count', 'entity count changed')
            for (label, e, exp), got, be in zip(batch, ents, back.ents):
                ck.step()
                ck.state((label,))
                ck.expect(got == exp, 'file:' + label, lambda: 'saved as %r, expected %r' % (got, exp), {'entity': label})
                pb = mb.plain_ent(be)
                ck.expect(pb == exp, 'read:' + label, lambda: 'read back as %r, expected %r' % (pb, exp), {'entity': label})
                ck.trace()

            def again():
                back.write(path)
                return mpzref.decode(mpzref.read_file(path))['ents']
            ok, e2 = ck.guard('rewrite:' + batch[0][0], again)
            if ok:
                ck.expect(e2 == ents, 'rewrite:' + batch[0][0], 'entities change when a loaded map is saved again')
        batch.clear()

    def add(label, make, exp):
        ok, e = ck.guard('make:' + label, make, {'entity': label})
        if ok:
            batch.append((label, e, exp))
            if len(batch) >= 60:
                flush()

    for kind, (ty, order, defaults, fixed) in SPECS.items():
        free = [a for a in order if a not in fixed]

        def exp(pos, given, links=(), reserved=(0, 0, 0)):
            return {'pos': pos, 'type': ty, 'attrs': [int(given.get(a, defaults.get(a, 0))) for a in order],
                    'links': list(links), 'reserved': list(reserved)}
        # positions, every one in both units
        for u, xyz in positions:
            if kind == 'Sunlight':
                continue      # its position has no meaning and is stored unscaled
            add('%s@%s%r' % (kind, u, xyz), lambda: cls[kind](xyz=vec(u, xyz)), exp(expected_pos(u, xyz), {}))
        p = {} if kind == 'Sunlight' else {'xyz': FineVector(1, 2, 3)}
        pe = (0.0, 0.0, 0.0) if kind == 'Sunlight' else (4.0, 8.0, 12.0)
        values = [0, 1, 2, 3, 4, 90, 255, 65536, -5, 12.75]
        for a in free:
            for v in values:
                if kind == 'Weapon' and a == 'type' and v not in (0, 1, 2, 3, 4):
                    continue
                add('%s(%s=%r)' % (kind, a, v), lambda: cls[kind](**dict(p, **{a: v})), exp(pe, {a: v}))
        for a, b in itertools.permutations(free, 2):
            va, vb = (3, 7) if a == 'type' and kind == 'Weapon' else (7, 3)
            add('%s(%s=%d,%s=%d)' % (kind, a, va, b, vb), lambda: cls[kind](**dict(p, **{a: va, b: vb})), exp(pe, {a: va, b: vb}))
        alld = {a: i + 2 for i, a in enumerate(free)}
        add('%s(all)' % kind, lambda: cls[kind](**dict(p, **alld)), exp(pe, alld))
        for links in ([], [0], [5, 1], [2, 2, 2]):
            for res in (None, [1, 2, 3], [255, 128, 0]):
                add('%s(links=%r,reserved=%r)' % (kind, links, res), lambda: cls[kind](links=list(links), reserved=res and list(res), **p),
                    exp(pe, {}, links, res or (0, 0, 0)))
        flush()

        # independence: changing one entity never changes another (all orders)
        for first, second in itertools.product((0, 1), repeat=2):
            for what in ('links', 'attrs', 'reserved'):
                def indep():
                    es = [cls[kind](**p), cls[kind](**p)]
                    other = 1 - first
                    before = mb.plain_ent(es[other])
                    x = getattr(es[first], what)
                    x.append(5) if what == 'links' else x.__setitem__(second, 77 if what == 'attrs' else 9)
                    third = cls[kind](**p)
                    return before, mb.plain_ent(es[other]), mb.plain_ent(third)
                ok, r = ck.guard('independent:%s.%s' % (kind, what), indep)
                if ok:
                    ck.step()
                    ck.expect(r[0] == r[1] == r[2], 'independent:%s.%s' % (kind, what),
                              'changing the %s of one %s changes another' % (what, kind))
    # generic entities (as the reader makes them)
    for ty, n in sorted(mb.NATTRS.items()):
        for first, what in itertools.product((0, 1), ('links', 'attrs', 'reserved')):
            def indep():
                make = lambda: Entity(FineVector(1, 2, 3), EntType(ty), [1] * n, None, None)      # noqa: E731
                es = [make(), make()]
                before = mb.plain_ent(es[1 - first])
                x = getattr(es[first], what)
                x.append(5) if what == 'links' else x.__setitem__(1, 9)
                return before, mb.plain_ent(es[1 - first]), mb.plain_ent(make())
            ok, r = ck.guard('independent:Entity.%s' % what, indep)
            if ok:
                ck.step()
                ck.expect(r[0] == r[1] == r[2], 'independent:Entity.%s' % what, 'changing the %s of one entity (type %d) changes another' % (what, ty))
        for u, xyz in positions[::7]:
            attrs = [1] + [100 + i for i in range(n - 1)]
            add('Entity%d@%s%r' % (ty, u, xyz), lambda: Entity(vec(u, xyz), EntType(ty), list(attrs), [1], [0, 200, 3]),
                {'pos': expected_pos(u, xyz), 'type': ty, 'attrs': attrs, 'links': [1], 'reserved': [0, 200, 3]})
        attrs = [7] * n
        for links, res in itertools.product(([], [4, 4]), (None, [9, 8, 7])):
            add('Entity%d(links=%r,reserved=%r)' % (ty, links, res), lambda: Entity(FineVector(1, 2, 3), EntType(ty), list(attrs), links and list(links), res and list(res)),
                {'pos': (4.0, 8.0, 12.0), 'type': ty, 'attrs': attrs, 'links': links or [], 'reserved': res or [0, 0, 0]})
    flush()
    ck.extra['kinds'] = sorted(SPECS)
    ck.extra['positions_per_kind'] = len(positions)
    ck.sample({'positions': positions[:3], 'first_spec': SPECS['Pusher'][1]})
