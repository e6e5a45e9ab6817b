"""C07: quarter-turn rotations are exact, for vectors, tiles, the map and yaw angles."""
import itertools

MAT = {0: (1, 0, 0, 1), 90: (0, -1, 1, 0), 180: (-1, 0, 0, -1), 270: (0, 1, -1, 0)}


def rot(v, deg):
    a, b, c, d = MAT[deg % 360]
    return (a * v[0] + b * v[1], c * v[0] + d * v[1], v[2])


def run(ck):
    from redeclipse.vector import BaseVector, FineVector, CoarseVector
    from redeclipse.vector import orientations as o
    card = {'EAST': (1, 0, 0), 'NORTH': (0, 1, 0), 'WEST': (-1, 0, 0), 'SOUTH': (0, -1, 0)}
    names = ['EAST', 'NORTH', 'WEST', 'SOUTH']
    # the compass
    for n, v in dict(card, ABOVE=(0, 0, 1), BELOW=(0, 0, -1), SELF=(0, 0, 0), NORTHEAST=(1, 1, 0), NORTHWEST=(-1, 1, 0),
                     SOUTHEAST=(1, -1, 0), SOUTHWEST=(-1, -1, 0)).items():
        x = getattr(o, n)
        ck.expect(isinstance(x, CoarseVector) and tuple(x) == v, 'compass:' + n, lambda: '%s is %r' % (n, x))
        if n + '_FINE' in vars(o):
            f = getattr(o, n + '_FINE')
            ck.expect(isinstance(f, FineVector) and tuple(f) == v, 'compass:' + n + '_FINE', lambda: '%s_FINE is %r' % (n, f))
    ck.expect([tuple(c) for c in o.CARDINALS] == [card[n] for n in names], 'compass:CARDINALS', 'cardinals, counterclockwise from east')
    for v, name in (((4, 4, 0), 'TILE_CENTER'), ((0, 0, 4), 'HALF_HEIGHT'), ((.5, .5, .5), 'VOXEL_OFFSET'), ((-3.5, -3.5, .5), 'TILE_VOX_OFF')):
        ck.expect(tuple(getattr(o, name)) == v and isinstance(getattr(o, name), FineVector), 'const:' + name, name)

    half = [-256, -31, -8, -3.5, -1, -0.5, 0, 0.5, 1, 2, 3.5, 7, 7.5, 16, 33, 255.5, 1000]
    if ck.thorough:
        half = sorted(set(half + [x / 2 for x in range(-33, 34)] + [1023, 8191.5, -4096]))
    degs = [0, 90, 180, 270, 360, -90, -180, -270, 450, 720]
    dirs = [(CoarseVector(*card[n]), i * 90, n) for i, n in enumerate(names)] + \
           [(FineVector(*card[n]), i * 90, n + '_FINE') for i, n in enumerate(names)] + \
           [(c, i * 90, 'CARD' + names[i]) for i, c in enumerate(o.CARDINALS)] + \
           [(o.NORTH.rotate(d), (90 + d) % 360, 'NORTH.rotate(%d)' % d) for d in (0, 90, 180, 270)] + \
           [(FineVector(*card[n]) * 8, i * 90, n + '*8') for i, n in enumerate(names)]
    for cls in (BaseVector, FineVector, CoarseVector):
        for x, y in itertools.product(half, repeat=2):
            v = (x, y, 3)
            rep = {'class': cls.__name__, 'vector': v}
            q = cls(*v)
            ck.state((cls.__name__, v))
            for d in degs:
                r = q.rotate(d)
                ck.step()
                if not ck.expect(tuple(r) == rot(v, d) and type(r) is cls, 'rotate:%d' % d,
                                 lambda: '%r rotated by %d degrees gives %r, expected %r' % (q, d, r, rot(v, d)), rep):
                    break
            for dv, d, n in dirs:
                r = q.rotate(dv)
                ck.step()
                ck.expect(tuple(r) == rot(v, d) and type(r) is cls, 'rotate:' + n,
                          lambda: '%r rotated to face %s gives %r, expected %r' % (q, n, r, rot(v, d)), rep)
            ck.expect(tuple(q) == v, 'mutated', 'rotation changed its operand', rep)
            ck.trace()
    # many full turns are still exact, also far from the centre
    for k in (1, -1, 7, 1000, -1000, 10 ** 5, -10 ** 5, 10 ** 6):
        for v in ((1, 0, 2), (0.5, -3.5, 0), (31, 16, 5), (255.5, 100, 3), (1000, -1023.5, 9), (-4096, 4095, 1)):
            for d in (0, 90, 180, 270):
                for cls in (BaseVector, FineVector, CoarseVector):
                    r = cls(*v).rotate(360 * k + d)
                    ck.step()
                    ck.expect(tuple(r) == rot(v, d), 'rotate-turns', lambda: '%r rotated by %d degrees gives %r' % (v, 360 * k + d, r),
                              {'vector': v, 'deg': 360 * k + d})
    # compositions of rotations are rotations (every sequence up to length 4 / 5)
    seqlen = 5 if ck.thorough else 4
    for v in ((1, 0, 0), (3.5, -0.5, 2), (16, 31, 0), (-7, 255.5, 9)):
        for L in range(1, seqlen + 1):
            for seq in itertools.product((0, 90, 180, 270), repeat=L):
                q = FineVector(*v)
                for d in seq:
                    q = q.rotate(d)
                ck.step()
                ck.expect(tuple(q) == rot(v, sum(seq)), 'compose', lambda: '%r rotated by %r gives %r' % (v, seq, q), {'vector': v, 'seq': seq})
    for a, b in itertools.product(range(4), repeat=2):
        r = o.CARDINALS[a].rotate(o.CARDINALS[b])
        ck.step()
        ck.expect(r == o.CARDINALS[(a + b) % 4], 'cardinals', lambda: '%s seen from %s is %r' % (names[a], names[b], r))
    # rotation about a point: an 8x8 tile turns onto itself, the map about its centre
    off = o.TILE_VOX_OFF
    for i in range(4):
        d = o.CARDINALS[i]
        for arg in (d, i * 90):
            seen = set()
            for x, y, z in itertools.product(range(8), range(8), (0, 3, 7)):
                r = FineVector(x, y, z).offset_rotate(arg, offset=off)
                ck.step()
                e = rot((x - 3.5, y - 3.5, z), i * 90)
                e = (e[0] + 3.5, e[1] + 3.5, z)
                ck.expect(tuple(r) == e, 'tile', lambda: 'voxel (%d,%d,%d) of a tile facing %s lands on %r, expected %r' % (x, y, z, names[i], r, e),
                          {'voxel': (x, y, z), 'facing': names[i]})
                seen.add(tuple(r))
            ck.expect(len(seen) == 192 and all(0 <= a < 8 and 0 <= b < 8 for a, b, _ in seen), 'tile-bijection',
                      'a turned tile does not cover the same 8x8 tile')
            ck.state(('tile', i))
            for x, y in itertools.product(range(33), repeat=2):
                r = CoarseVector(x, y, 5).offset_rotate(arg, offset=CoarseVector(-16, -16, 0))
                e = rot((x - 16, y - 16, 5), i * 90)
                ck.step()
                ck.expect(tuple(r) == (e[0] + 16, e[1] + 16, 5), 'map-centre', lambda: 'tile (%d,%d) turned about (16,16) gives %r' % (x, y, r),
                          {'tile': (x, y), 'deg': i * 90})
        for ox, oy, oz in itertools.product((-16, -3.5, 0, 4), (-16, 0, 2.5), (0, 7)):
            for x, y, z in itertools.product((-2, 0, 3.5), (0, 5), (0, 2)):
                r = FineVector(x, y, z).offset_rotate(d, offset=FineVector(ox, oy, oz))
                e = rot((x + ox, y + oy, z), i * 90)
                ck.step()
                ck.expect(tuple(r) == (e[0] - ox, e[1] - oy, z), 'about', lambda: 'rotation about (%s,%s)' % (-ox, -oy), {'v': (x, y, z), 'o': (ox, oy, oz)})
    # yaw
    for ang in range(-720, 1081, 1 if ck.thorough else 15):
        for i in range(4):
            for d in (o.CARDINALS[i], FineVector(*o.CARDINALS[i].fine())):
                r = o.rotate_yaw(ang, d)
                ck.step()
                ck.expect(r == (ang + 90 * i) % 360, 'yaw', lambda: 'yaw %d turned to %s gives %r' % (ang, names[i], r), {'angle': ang, 'facing': names[i]})
    for bad in (o.ABOVE, o.SELF, o.NORTHEAST):
        try:
            o.rotate_yaw(0, bad)
            ck.fail('yaw-bad', 'yaw accepts %r as a facing' % bad)
        except Exception:
            pass
    for i in range(4):
        r = o.get_vector_rotation(o.CARDINALS[i])
        ck.expect(r % 360 == 90 * i and isinstance(r, int), 'vector-rotation', lambda: 'angle of %s is %r' % (names[i], r))
        ck.expect(o.n(o.CARDINALS[i]) == names[i], 'name', lambda: 'name of %s' % names[i])
    ck.sample({'vectors_per_class': len(half) ** 2, 'degrees': degs, 'directions': [d[2] for d in dirs]})
    ck.extra['exhaustive'] = True
