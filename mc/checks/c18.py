"""C18: construction-kit shapes fill exactly the intended cells, in every orientation."""
import itertools

from mc import harness

ORI = {'E': (1, 0), 'N': (0, 1), 'W': (-1, 0), 'S': (0, -1)}
SIX = {'E': (1, 0, 0), 'N': (0, 1, 0), 'W': (-1, 0, 0), 'S': (0, -1, 0), 'A': (0, 0, 1), 'B': (0, 0, -1)}


def about_tile(c, o):
    """Rotate a cell of the room around the middle of its first 8x8 tile."""
    i, j, k = c
    return {'E': (i, j, k), 'N': (7 - j, i, k), 'W': (7 - i, 7 - j, k), 'S': (j, 7 - i, k)}[o]


def span(n):
    return range(0, n) if n > 0 else range(n + 1, 1)


def prism(off, size):
    return {(off[0] + i, off[1] + j, off[2] + k) for i in span(size[0]) for j in span(size[1]) for k in span(size[2])}


def shift(off, d):
    return tuple(a + b for a, b in zip(off, d))


def oracle(kind, off, a):
    """Cells (room frame, facing east)."""
    if kind == 'cube':
        return {tuple(off)}
    if kind == 'column':
        d = SIX[a['direction']]
        return {tuple(off[q] + d[q] * i for q in range(3)) for i in range(a['length'])}
    if kind == 'dotted_column':
        d = SIX[a['direction']]
        on, dark = a.get('on', 2), a.get('off', 2)
        return {tuple(off[q] + d[q] * i for q in range(3)) for i in range(a['length']) if i % (on + dark) < on}
    if kind == 'floor':
        return prism(off, (a.get('size', 8), a.get('size', 8), 1))
    if kind == 'ceiling':
        return prism(shift(off, (0, 0, 7)), (a.get('size', 8), a.get('size', 8), 1))
    if kind in ('wall', 'low_wall'):
        h = 3 if kind == 'low_wall' else a.get('limit_j', 8)
        o, s = {'E': ((7, 0, 0), (1, 8, h)), 'W': ((0, 0, 0), (1, 8, h)), 'N': ((0, 7, 0), (8, 1, h)), 'S': ((0, 0, 0), (8, 1, h))}[a['face']]
        return prism(shift(off, o), s)
    if kind == 'ring':
        n = a['size']
        return {(off[0] + i, off[1] + j, off[2]) for i in range(n) for j in range(n) if i in (0, n - 1) or j in (0, n - 1)}
    if kind == 'rectangular_prism':
        return prism(off, a['xyz'])
    raise AssertionError(kind)


def real_args(kind, a):
    from redeclipse.vector import FineVector
    from redeclipse.vector import orientations as o
    six = {'E': o.EAST, 'N': o.NORTH, 'W': o.WEST, 'S': o.SOUTH, 'A': o.ABOVE, 'B': o.BELOW}
    out = {}
    for k, v in a.items():
        if k in ('direction', 'face'):
            v = six[v]
        elif k == 'xyz':
            v = FineVector(*v)
        out[k] = v
    return out


def menu(thorough):
    out = [('cube', {})]
    for d in 'ENWSAB':
        out += [('column', {'direction': d, 'length': n}) for n in (0, 1, 2, 5, 9)]
        out += [('dotted_column', {'direction': d, 'length': n}) for n in (1, 3, 8)]
        out += [('dotted_column', {'direction': d, 'length': 7, 'on': on, 'off': off}) for on, off in ((1, 1), (3, 1), (1, 3), (2, 0))]
    out += [('floor', {}), ('ceiling', {})] + [(k, {'size': n}) for k in ('floor', 'ceiling') for n in (1, 3, 8, 12, 16)]
    for f in 'ENWS':
        out += [('wall', {'face': f}), ('low_wall', {'face': f})] + [('wall', {'face': f, 'limit_j': n}) for n in (1, 2, 7)]
    out += [('ring', {'size': n}) for n in (1, 2, 3, 4, 8, 12)]
    sizes = (-3, -1, 0, 1, 2, 5, 8) if not thorough else (-8, -5, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 11)
    out += [('rectangular_prism', {'xyz': s}) for s in itertools.product(sizes, repeat=3)]
    return out


def wide(thorough):
    """Every size in a range, at fewer places."""
    out = [('ring', {'size': n}) for n in range(1, 41)]
    out += [(k, {'size': n}) for k in ('floor', 'ceiling') for n in range(1, 41)]
    out += [('column', {'direction': d, 'length': n}) for d in SIX for n in range(0, 41)]
    out += [('dotted_column', {'direction': d, 'length': n, 'on': on, 'off': off}) for d in SIX for on in range(1, 5) for off in range(4)
            for n in (range(0, 26) if thorough else (0, 1, 6, 13, 25))]
    out += [('dotted_column', {'direction': d, 'length': n}) for d in SIX for n in range(0, 26)]
    out += [('wall', {'face': f, 'limit_j': n}) for f in 'ENWS' for n in range(1, 9)]
    n = range(-9, 10) if not thorough else range(-17, 18)
    out += [('rectangular_prism', {'xyz': s}) for s in itertools.product(n, repeat=3)
            if thorough or (abs(s[0] * s[1] * s[2]) <= 200 or min(map(abs, s)) == 8)]
    return out


def contents(world):
    return {tuple(k): v for k, v in world.world.items()}


def textures(c):
    return [t.value if hasattr(t, 'value') else t for t in c.texture]


class Kit:
    def __init__(self, pos, o):
        from redeclipse.prefabs import Room
        from redeclipse.vector import CoarseVector
        from redeclipse.vector import orientations as oo
        self.room = Room(pos=CoarseVector(*pos), orientation={'E': oo.EAST, 'N': oo.NORTH, 'W': oo.WEST, 'S': oo.SOUTH}[o])
        self.pos, self.o = pos, o

    def cells(self, kind, off, a):
        base = tuple(8 * p for p in self.pos)
        return {tuple(b + q for b, q in zip(base, about_tile(c, self.o))) for c in oracle(kind, off, a)}

    def draw(self, world, kind, off, a, coarse=False, **kw):
        from redeclipse.vector import FineVector, CoarseVector
        o = CoarseVector(*(x // 8 for x in off)) if coarse else FineVector(*off)
        self.room.x(kind, world, o, **dict(real_args(kind, a), **kw))


OFFSETS = [(0, 0, 0), (3, 0, 1), (0, 5, 0), (-2, -2, 7), (7, 7, 7), (8, -8, 16), (13, 2, -1)]


def run(ck):
    single(ck)
    ranges(ck)
    sequences(ck)
    chance(ck)
    generators(ck)


def single(ck):
    from redeclipse.voxel import VoxelWorld
    kinds = menu(ck.thorough)
    poses = [(8, 9, 3), (16, 16, 0)] + ([(1, 30, 31), (30, 2, 5)] if ck.thorough else [])

    def one(job):
        kind, a = job
        for n, (o, pos, off) in enumerate(itertools.product(ORI, poses, OFFSETS)):
            tex = (5, 0, 1, 2, 250, 3)[n % 6]
            kit = Kit(pos, o)
            want = kit.cells(kind, off, a)
            rep = {'shape': kind, 'args': a, 'orientation': o, 'room': pos, 'offset': off}
            ck.state((kind, sorted(a.items(), key=repr), o, pos, off))
            for coarse in ((False, True) if not any(x % 8 for x in off) else (False,)):
                w = VoxelWorld(size=256)
                ok, _ = ck.guard('shape:%s' % kind, lambda: kit.draw(w, kind, off, a, coarse, tex=tex), rep)
                if not ok:
                    continue
                got = contents(w)
                ck.step()
                if not ck.expect(set(got) == want, 'cells:%s' % kind,
                                 lambda: 'missing %s, extra %s' % (sorted(want - set(got))[:3], sorted(set(got) - want)[:3]), rep):
                    continue
                ck.expect(all(textures(c) == [tex] * 6 for c in got.values()), 'texture:%s' % kind, lambda: 'drawn in texture %d, shows %r' % (tex, textures(list(got.values())[0])), rep)
                ck.expect(all(c.octsav & 7 in (2, 3) for c in got.values()), 'solid:%s' % kind, 'not a solid cube', rep)
                for c in list(got)[:1]:
                    ck.expect(w.get_point(*c) is got[c], 'lookup', 'get_point', rep)
            # cutting the same shape out of a full box around it
            w = VoxelWorld(size=256)
            box = set(want)
            for c in list(want)[:40]:
                box |= {shift(c, d) for d in SIX.values()}
            for c in box:
                w.set_point(*c, 'x')
            ok, _ = ck.guard('cut:%s' % kind, lambda: kit.draw(w, kind, off, a, subtract=True), rep)
            ck.expect(set(contents(w)) == box - want, 'cut:%s' % kind, 'cutting removed the wrong cells', rep)
            ck.expect(all(v == 'x' for v in w.world.values()), 'cut-frame', 'cutting changed other cells', rep)
            ck.step()
            ck.trace()
    ck.parallel(one, kinds)
    ok, _ = True, None
    try:
        Kit((8, 8, 3), 'E').draw(VoxelWorld(size=256), 'nonsense', (0, 0, 0), {})
        ck.fail('unknown-shape', 'an unknown shape is accepted silently')
    except harness.Stop:
        raise
    except Exception:
        pass


def ranges(ck):
    from redeclipse.voxel import VoxelWorld
    todo = wide(ck.thorough)

    def one(part):
        for n in range(part, len(todo), 64):
            kind, a = todo[n]
            for o in ORI:
                kit = Kit((8, 9, 3), o)
                for off in OFFSETS[1:2] if kind == 'rectangular_prism' else OFFSETS[:6:5]:
                    want = kit.cells(kind, off, a)
                    rep = {'shape': kind, 'args': a, 'orientation': o, 'offset': off}
                    w = VoxelWorld(size=256)
                    ok, _ = ck.guard('shape:%s' % kind, lambda: kit.draw(w, kind, off, a, tex=5), rep)
                    if not ok:
                        continue
                    ck.step()
                    got = set(contents(w))
                    ck.expect(got == want, 'cells:%s' % kind, lambda: 'missing %s, extra %s' % (sorted(want - got)[:3], sorted(got - want)[:3]), rep)
            ck.state(('range', kind, tuple(sorted(a.items(), key=repr))))
            ck.trace()
    ck.parallel(one, range(64))
    # every position of the room
    for pos in itertools.product(range(32), range(32), range(32) if ck.thorough else (0, 3, 31)):
        for o in ORI:
            kit = Kit(pos, o)
            w = VoxelWorld(size=256)
            a = {'xyz': (3, 1, 2)}
            ok, _ = ck.guard('shape:position', lambda: kit.draw(w, 'rectangular_prism', (1, 2, 3), a, tex=5), {'room': pos, 'orientation': o})
            ck.step()
            ck.expect(set(contents(w)) == kit.cells('rectangular_prism', (1, 2, 3), a), 'cells:position', lambda: 'room at %r facing %s' % (pos, o), {'room': pos, 'orientation': o})


def sequences(ck):
    """Every sequence of drawing and cutting operations: the last one wins."""
    from redeclipse.voxel import VoxelWorld
    ops = [('rectangular_prism', (0, 0, 0), {'xyz': (3, 2, 2)}), ('ring', (0, 0, 1), {'size': 4}), ('column', (1, 1, 0), {'direction': 'A', 'length': 3}),
           ('dotted_column', (0, 1, 1), {'direction': 'E', 'length': 6}), ('wall', (-7, 0, 0), {'face': 'E', 'limit_j': 2}), ('cube', (1, 1, 1), {})]
    acts = [(i, sub) for i in range(len(ops)) for sub in (False, True)]
    depth = 4 if ck.thorough else 3

    def one(job):
        o, first = job
        kit = Kit((8, 9, 3), o)
        sets = [kit.cells(k, off, a) for k, off, a in ops]
        for rest in itertools.chain.from_iterable(itertools.product(acts, repeat=n) for n in range(depth)):
            seq = (first,) + rest
            w = VoxelWorld(size=256)
            want = {}
            for t, (i, sub) in enumerate(seq):
                k, off, a = ops[i]
                kit.draw(w, k, off, a, subtract=sub, **({} if sub else {'tex': t + 3}))
                for c in sets[i]:
                    if sub:
                        want.pop(c, None)
                    else:
                        want[c] = t + 3
            got = {c: textures(v)[0] for c, v in contents(w).items()}
            ck.step(len(seq))
            ck.state((o, sorted(want.items())))
            ck.expect(got == want, 'sequence', 'cells differ from what the operations in order leave',
                      {'orientation': o, 'ops': [(ops[i], 'cut' if s else 'draw') for i, s in seq]})
        ck.trace()
    ck.parallel(one, [(o, f) for o in ORI for f in acts])


def chance(ck):
    """With a probability: every combination of random answers decides which cells of
    the shape appear; nothing else changes, and probability 0/1 leave no choice."""
    from redeclipse.voxel import VoxelWorld
    shapes = [('column', (0, 0, 0), {'direction': 'N', 'length': 5}), ('rectangular_prism', (1, 0, 0), {'xyz': (2, 2, 1)}), ('ring', (0, 0, 0), {'size': 3})]
    for o, (kind, off, a), p in itertools.product(ORI, shapes, (0.0, 0.3, 0.7, 1, 1.1)):
        kit = Kit((8, 9, 3), o)
        want = kit.cells(kind, off, a)
        rep = {'shape': kind, 'args': a, 'orientation': o, 'prob': p}
        keeps = set()
        # one answer below and one above the probability at each of the draws (the
        # drawing order of the cells, and drawing a cell more than once, are free)
        n = len(want) if ck.thorough else min(len(want), 5)
        for bits in itertools.product((0, 1), repeat=n):
            us = iter([max(0.0, p - 0.1) if b else min(0.999, p + 0.1) for b in bits])
            w = VoxelWorld(size=256)
            w.set_point(0, 0, 0, 'other')
            with harness.controlled(harness.ScalarController(lambda: next(us, max(0.0, p - 0.1)))) as ctl:
                ok, _ = ck.guard('chance', lambda: kit.draw(w, kind, off, a, tex=6, prob=p), rep)
            if not ok:
                continue
            ck.step()
            got = {c for c, v in contents(w).items() if v != 'other'}
            ck.state((o, kind, p, tuple(sorted(got))))
            keeps.add(frozenset(got))
            ck.expect(got <= want, 'chance:extra', 'a random drop added other cells', rep)
            ck.expect(w.get_point(0, 0, 0) == 'other', 'chance:frame', 'a random drop changed another cell', rep)
            if p >= 1:
                ck.expect(got == want, 'chance:certain', 'certain cells are missing', rep)
            if 0 < p < 1 and ctl.draws == len(want):
                ck.expect(len(got) == len(want) - bits.count(0), 'chance:count', lambda: '%d cells kept for %r' % (len(got), bits), rep)
            if p == 0 and ctl.draws == len(want) and not any(bits):
                ck.expect(not got, 'chance:never', 'impossible cells appear', rep)
        # the same answer each time: all cells, or none of them
        for u, all_ in [(min(0.999, p + 0.1), False)] * (p < 1) + [(max(0.0, p - 0.1), True)] * (p > 0):
            w = VoxelWorld(size=256)
            with harness.controlled(harness.ScalarController(lambda: u)):
                ok, _ = ck.guard('chance', lambda: kit.draw(w, kind, off, a, tex=6, prob=p), rep)
            ck.step()
            ck.expect(not ok or set(contents(w)) == (want if all_ else set()), 'chance:constant', lambda: '%d of %d cells drawn with probability %r and answers of %r' % (
                len(contents(w)), len(want), p, u), rep)
        ck.trace()


def generators(ck):
    """The bare point generators."""
    from redeclipse.prefabs.construction_kit import cube_points, column_points, wall_points
    from redeclipse.vector import orientations as oo
    six = {'E': oo.EAST, 'N': oo.NORTH, 'W': oo.WEST, 'S': oo.SOUTH, 'A': oo.ABOVE, 'B': oo.BELOW}
    n = 6 if ck.thorough else 4
    for s in itertools.product(range(-n, n + 1), repeat=3):
        got = [tuple(p) for p in cube_points(*s)]
        ck.state(('cube', s))
        ck.step()
        ck.expect(len(got) == len(set(got)) and set(got) == prism((0, 0, 0), s), 'cube_points', 'cells of a box %r' % (s,), {'size': s})
    for d, size in itertools.product(six, range(0, 10)):
        got = [tuple(p) for p in column_points(size, six[d])]
        ck.step()
        ck.expect(got == [tuple(q * i for q in SIX[d]) for i in range(size)], 'column_points', 'cells of a column', {'direction': d, 'size': size})
        if size:
            got = {tuple(p) for p in wall_points(size, six[d])}
            ax = {'E': (0, size - 1), 'W': (0, 0), 'N': (1, size - 1), 'S': (1, 0), 'A': (2, size - 1), 'B': (2, 0)}[d]
            want = {c for c in itertools.product(range(size), repeat=3) if c[ax[0]] == ax[1]}
            ck.expect(got == want, 'wall_points', 'cells of a wall', {'face': d, 'size': size})
