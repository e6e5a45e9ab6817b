"""C26: a requested light becomes one light entity at the requested place, with the requested
or a valid colour that depends on the place only."""
import itertools

from mc import rooms, upmx


def run(ck):
    from redeclipse.entities import Light
    from redeclipse.lighting import LightManager, PositionBasedLightManager
    from redeclipse.vector import CoarseVector, FineVector
    from redeclipse import prefabs

    class Map:
        def __init__(self):
            self.ents = []

    coords = (0, 1, 2, 5, 8, 15, 16, 31) if not ck.thorough else range(32)
    places = [('coarse', c) for c in itertools.product(coords, coords, (0, 1, 3, 17, 30))]
    fine = (0, 1, 3.5, 4, 7, 8, 63, 127.5, 128, 255) if not ck.thorough else (0, .5, 1, 2, 3.5, 4, 7, 8, 9, 31, 32, 63, 64, 127.5, 128, 200, 254, 255)
    places += [('fine', c) for c in itertools.product(fine, repeat=3)]

    def attrs(e):
        return dict(zip(e.attr_annotations, e.attrs))

    seen = {}
    managers = [('white', LightManager(brightness=b, saturation=s, world_size=2 ** 8), None, None) for b, s in ((1.0, 1.0), (.3, .2))]
    managers += [('hue', PositionBasedLightManager(brightness=b, saturation=s, world_size=2 ** 8), b, s)
                 for b, s in ((1.0, .6), (.3, .6), (0, .5), (1.0, 0), (1.0, 1.0), (2.5, .6), (.5, .25), (1 / 255, 1.0))]
    managers.append(('global', prefabs.LIGHTMAN, prefabs.LIGHTMAN.brightness, prefabs.LIGHTMAN.saturation))
    overrides = (None, (0, 0, 0), (255, 254, 1), (7, 8, 9))

    def one(job):
        mi, part = job
        kind, man, bright, sat = managers[mi]
        for pi, (unit, c) in enumerate(places):
            if pi % 8 != part:
                continue
            # the full product of options on some places, one combination on the others
            combos = list(itertools.product(overrides, (True, False), (1, 1.5, 3, 0.5)))
            if not ck.thorough and pi % 40 > 7:
                combos = combos[pi % len(combos)::11]
            for over, centre, factor in combos:
                pos = (CoarseVector if unit == 'coarse' else FineVector)(*c)
                m = Map()
                m.ents.append('before')
                rep = {'manager': mi, 'unit': unit, 'position': c, 'colour': over, 'autocenter': centre, 'size_factor': factor}
                kw = {}
                if over is not None:
                    kw['colour_override'] = over
                if not centre:
                    kw['autocenter'] = False
                if factor != 1:
                    kw['size_factor'] = factor
                ok, _ = ck.guard('light', lambda: man.light(m, pos, **kw), rep)
                if not ok:
                    return
                ck.step()
                ck.state((mi, unit, c, over, centre, factor))
                if not ck.expect(len(m.ents) == 2 and m.ents[0] == 'before' and isinstance(m.ents[1], Light), 'one', lambda: 'entities after the call: %r' % (m.ents,), rep):
                    continue
                ck.expect(tuple(pos) == c and type(pos).__name__ == ('CoarseVector' if unit == 'coarse' else 'FineVector'), 'operand', 'the position passed in changed', rep)
                e = m.ents[1]
                k = 8 if unit == 'coarse' else 1
                want = tuple(q * k + (4 if centre else 0) for q in c)
                at = (e.o.x / 4, e.o.y / 4, e.o.z / 4)
                ck.expect(at == want, 'place:' + unit, lambda: 'light at %r (voxels), expected %r' % (at, want), rep)
                a = attrs(e)
                col = (a['red'], a['green'], a['blue'])
                ck.expect(a['radius'] == 64 * factor, 'radius', lambda: 'radius %r, expected %r' % (a['radius'], 64 * factor), rep)
                if over is not None:
                    ck.expect(col == over, 'override', lambda: 'colour %r, asked for %r' % (col, over), rep)
                elif kind == 'white':
                    ck.expect(col == (255, 255, 255), 'white', lambda: 'colour %r' % (col,), rep)
                else:
                    v = int(255 * min(bright, 1.0))
                    ck.expect(all(type(q) is int and 0 <= q <= 255 for q in col), 'valid', lambda: 'colour %r' % (col,), rep)
                    ck.expect(max(col) == v and abs(min(col) - v * (1 - sat)) <= 1, 'pure', lambda: 'colour %r at brightness %r and saturation %r' % (col, bright, sat), rep)
                    if centre or unit == 'fine':
                        # the colour goes by the place alone, whatever names it
                        prev = seen.setdefault((bright, sat, want), col)
                        ck.expect(prev == col, 'function', lambda: 'two colours for one place: %r and %r' % (prev, col), rep)
        ck.trace()
    ck.parallel(one, [(mi, part) for part in range(8) for mi in range(len(managers))])

    # several lights in one map: each request adds its own, earlier ones stay
    for h in itertools.product(range(4), repeat=4):
        m, ids = Map(), []
        for i in h:
            prefabs.LIGHTMAN.light(m, CoarseVector(1 + i, 2, 3), size_factor=1 + i)
            ids.append(id(m.ents[-1]))
        ck.state(('history', h))
        ck.step(len(h))
        ck.expect([id(e) for e in m.ents] == ids and [(e.o.x, e.o.y, e.o.z) for e in m.ents] == [((1 + i) * 32 + 16, 80, 112) for i in h] and
                  [attrs(e)['radius'] for e in m.ents] == [64 * (1 + i) for i in h], 'history', 'lights of a map influence each other', {'history': h})

    # the colour of a light does not depend on the lights requested before it
    near = [(3, 5, z) for z in (0, 1, 2, 8, 30)] + [(x, 5, 1) for x in (0, 2, 4, 31)] + [(3, y, 1) for y in (0, 4, 6, 31)] + [(5, 3, 1), (1, 5, 3)]
    ask = [('coarse', c, kw) for c in near for kw in ({}, {'autocenter': False})]
    ask += [('fine', tuple(8 * q + o for q in c), {'autocenter': False}) for c in near for o in (0, 1, 4, 4.5)]
    ask += [('coarse', (3, 5, 1), {'colour_override': (1, 2, 3)}), ('coarse', (3, 5, 1), {'size_factor': 2})]

    def lights(man, reqs):
        m = Map()
        for unit, c, kw in reqs:
            man.light(m, (CoarseVector if unit == 'coarse' else FineVector)(*c), **kw)
        return [(tuple(e.attrs), (e.o.x, e.o.y, e.o.z)) for e in m.ents]

    for make in (lambda: PositionBasedLightManager(brightness=1.0, saturation=.6, world_size=2 ** 8), lambda: LightManager(world_size=2 ** 8)):
        alone = [lights(make(), [r])[0] for r in ask]
        man = make()
        for i, j in itertools.product(range(len(ask)), repeat=2):
            for who, name in ((make(), 'new'), (man, 'used')):
                got = lights(who, [ask[i], ask[j]])
                ck.step()
                ck.state(('after', i, j, name))
                ck.expect(got == [alone[i], alone[j]], 'after', lambda: 'a light after another one is %r instead of %r' % (got, [alone[i], alone[j]]),
                          {'first': ask[i], 'second': ask[j], 'manager': name})

    # no room stays dark (the test rooms are for debugging)
    def lit(job):
        label, cls = job
        for flags in rooms.flag_sets(cls):
            for ori in upmx.DIRS if ck.thorough else upmx.DIRS[:2]:
                for u in (0.5, 0.0, 0.999):
                    rep = {'room': label, 'flags': flags, 'orientation': ori, 'random': u}
                    ctl = rooms.Split(u, u)
                    ok, r = ck.guard('room:' + label, lambda: rooms.render(rooms.make(cls, (16, 16, 8), ori, flags), ctl), rep)
                    if not ok:
                        return
                    ck.step()
                    lights = [e for e in r[1] if isinstance(e, Light)]
                    ck.state((label, flags, ori, u))
                    ck.expect(lights and all(attrs(e)['radius'] > 0 and max(attrs(e)[c] for c in ('red', 'green', 'blue')) > 0 for e in lights), 'dark:' + label, 'there is no light in %s' % label, rep)
                    if not ctl.draws:
                        break
        ck.trace()
    ck.parallel(lit, [j for j in rooms.all_rooms() if not j[0].startswith(':Test')])
