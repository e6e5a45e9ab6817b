"""C08: fine and coarse coordinates are one space (1 coarse = 8 fine): arithmetic,
conversion, equality, ordering, hashing."""
import itertools
import math


def run(ck):
    from redeclipse.vector import BaseVector, FineVector, CoarseVector
    F = {'fine': FineVector, 'coarse': CoarseVector}
    base = [-2, -0.5, 0, 1, 8, 3.5]
    vals = list(itertools.product(base if not ck.thorough else base + [7, 16], repeat=3)) + [(16, 24, 0), (255, 256, 31), (31, 31, 31), (0.0, 8.0, 1.0)]
    sub = [v for i, v in enumerate(vals) if i % 5 == 0] + [(1, 0, 0), (8, 0, 0), (0, 1, 0), (0, 0, 8), (2, 2, 3), (16, 16, 24)]
    # parts of a unit, and places far outside of any map (their hashes coincide)
    sub += [(0, 0, 1024), (0, 1024, 0), (0, 1, 1024), (-1, 1024, 0), (3.25, 1, 8), (3, 1, 8), (3, 1, 8.75), (1, -1, 0), (1, 0, -1024)]

    def fine(k, v):
        return tuple(x * (8 if k == 'coarse' else 1) for x in v)

    for k in F:
        for v in vals:
            q = F[k](*v)
            rep = {'kind': k, 'vector': v}
            ck.state((k, v))
            ck.step(6)
            ck.expect(isinstance(q.fine(), FineVector) and tuple(q.fine()) == fine(k, v), 'fine:' + k, lambda: '%r in voxels is %r' % (q, q.fine()), rep)
            if k == 'fine':
                c = q.coarse()
                ck.expect(isinstance(c, CoarseVector) and tuple(c) == tuple(math.floor(x / 8) for x in v), 'coarse',
                          lambda: '%r lies in tile %r' % (q, c), rep)
            else:
                ck.expect(q.fine().coarse() == F['coarse'](*[math.floor(x) if x == math.floor(x) else math.floor(x) for x in v])
                          if all(x == math.floor(x) for x in v) else True, 'coarse-roundtrip', lambda: 'tile %r does not survive conversion' % q, rep)
            ck.expect(tuple(q.entity()) == tuple(x * 4 for x in fine(k, v)), 'entity:' + k, 'map units are 4 per voxel', rep)
            ck.expect(tuple(q.vox()) == tuple(math.floor(x) for x in v) and type(q.vox()) is F[k], 'vox', lambda: 'floor of %r is %r' % (q, q.vox()), rep)
            ck.expect(list(q) == list(v) and [q[0], q[1], q[2]] == list(v) and len(q) == 3 and (q.x, q.y, q.z) == v, 'components', 'components of %r' % q, rep)
            for m in (0, 1, -1, 2, 0.5, 8, 3):
                r = q * m
                ck.expect(tuple(r) == tuple(x * m for x in v) and type(r) is F[k], 'mul', lambda: '%r * %r = %r' % (q, m, r), rep)
                if m:
                    r = q / m
                    ck.expect(tuple(r) == tuple(x / m for x in v) and type(r) is F[k], 'div', lambda: '%r / %r = %r' % (q, m, r), rep)
                    r = q // m
                    ck.expect(tuple(r) == tuple(math.floor(x / m) for x in v) and type(r) is F[k], 'floordiv', lambda: '%r // %r = %r' % (q, m, r), rep)
            ck.expect(tuple(q) == v, 'mutated', 'an operation changed its operand', rep)
            ck.trace()
    for (ka, a), (kb, b) in itertools.product([(k, v) for k in F for v in sub], repeat=2):
        qa, qb = F[ka](*a), F[kb](*b)
        fa, fb = fine(ka, a), fine(kb, b)
        rep = {'a': (ka, a), 'b': (kb, b)}
        ck.step(4)
        s, d = qa + qb, qa - qb
        kind = CoarseVector if ka == kb == 'coarse' else FineVector
        ck.expect(type(s) is kind and tuple(s.fine()) == tuple(x + y for x, y in zip(fa, fb)), 'add:%s+%s' % (ka, kb), lambda: '%r + %r = %r' % (qa, qb, s), rep)
        ck.expect(type(d) is kind and tuple(d.fine()) == tuple(x - y for x, y in zip(fa, fb)), 'sub:%s-%s' % (ka, kb), lambda: '%r - %r = %r' % (qa, qb, d), rep)
        same = fa == fb
        ck.expect((qa == qb) is same and (qa != qb) is (not same), 'eq:%s==%s' % (ka, kb), lambda: '%r == %r is %r' % (qa, qb, qa == qb), rep)
        if same:
            ck.expect(hash(qa) == hash(qb), 'hash:%s/%s' % (ka, kb) if ka != kb else 'hash:' + ka,
                      lambda: 'equal positions %r and %r hash differently, so sets and dicts treat them as two positions' % (qa, qb), rep)
        lt, le = qa < qb, qa <= qb
        if ka == kb:
            ck.expect(lt is (fa < fb) and le is (fa <= fb), 'order:' + ka, lambda: '%r < %r is %r' % (qa, qb, lt), rep)
        else:
            ck.expect(lt is (fa < fb) and le is (fa <= fb), 'order:mixed', lambda: '%r < %r is %r (raw components are compared)' % (qa, qb, lt), rep)
    # never equal to things that are not positions
    for k in F:
        for other in ((1, 0, 0), None, 1, 'x', [1, 0, 0]):
            ck.expect(not (F[k](1, 0, 0) == other), 'eq:foreign', 'a position equals %r' % (other,))
    # as set members / dict keys (how placement uses them), ints and integral floats alike
    for k in F:
        pts = list(itertools.product(range(-2, 6), repeat=3))
        d = {F[k](*p): i for i, p in enumerate(pts)}
        ck.step(len(pts))
        ck.expect(len(d) == len(pts) and all(d[F[k](*map(float, p))] == i for i, p in enumerate(pts)), 'keys:' + k, 'positions as dictionary keys collide or get lost')
        srt = sorted(F[k](*p) for p in reversed(pts))
        ck.expect([tuple(q) for q in srt] == sorted(pts), 'sorted:' + k, 'sorting positions')
        ck.expect(min(F[k](*p) for p in pts) == F[k](-2, -2, -2) and max(F[k](*p) for p in pts) == F[k](5, 5, 5), 'minmax:' + k, 'min/max of positions')
    # equality is an equivalence relation on mixed kinds
    tri = [(k, v) for k in F for v in ((0, 0, 0), (1, 0, 0), (8, 0, 0), (0, 8, 16), (0, 1, 2))]
    for a, b, c in itertools.product(tri, repeat=3):
        qa, qb, qc = (F[k](*v) for k, v in (a, b, c))
        ck.step()
        ck.expect(not (qa == qb and qb == qc) or qa == qc, 'transitive', 'equality is not transitive', {'triple': (a, b, c)})
        ck.expect((qa == qb) == (qb == qa), 'symmetric', 'equality is not symmetric', {'pair': (a, b)})
    b1 = BaseVector(1, 2, 3)
    ck.expect(tuple(b1 + BaseVector(1, 1, 1)) == (2, 3, 4) and tuple(b1 - BaseVector(1, 1, 1)) == (0, 1, 2), 'base', 'plain vector arithmetic')
    for x, y in ((b1, FineVector(1, 2, 3)), (b1, CoarseVector(1, 2, 3))):
        try:
            x + y
            ck.fail('base-mixed', 'plain vectors have no unit but were added to %r' % y)
        except Exception:
            pass
    ck.extra['exhaustive'] = True
    ck.sample({'values_per_kind': len(vals), 'pairs': (2 * len(sub)) ** 2})
