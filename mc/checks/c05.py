"""C05: the voxel world is a last-writer-wins map from cells to values, with exact bounds."""
import itertools


def run(ck):
    from redeclipse.voxel import VoxelWorld
    from redeclipse.vector import FineVector, CoarseVector
    size = 16
    cells = [(0, 0, 0), (1, 0, 0), (0, 2, 0), (0, 0, 5), (7, 3, 15), (3, 7, 15)]
    probes = cells + [(0, 1, 0), (0, 0, 1), (15, 3, 7), (5, 0, 0), (2, 0, 0)]
    A, B = object(), object()
    vals = {'A': A, 'B': B}
    ops = []
    for c in cells:
        for v in vals:
            ops.append(('set', c, v))
        ops.append(('setv', c, 'A'))
        ops.append(('setf', c, 'B'))
        ops.append(('del', c, None))
        ops.append(('delv', c, None))
    small = [o for o in ops if o[1] in cells[:2] + cells[4:5]]

    def play(hist):
        w = VoxelWorld(size=size)
        model, ever = {}, []
        for kind, c, v in hist:
            if kind == 'set':
                w.set_point(*c, vals[v])
            elif kind == 'setv':
                w.set_pointv(FineVector(*c), vals[v])
            elif kind == 'setf':
                # what rotations produce: integral floats
                w.set_pointv(FineVector(*[float(x) for x in c]), vals[v])
            elif kind == 'del':
                w.del_point(*c)
            elif kind == 'delv':
                w.del_pointv(FineVector(*[float(x) for x in c]))
            if kind.startswith('set'):
                model[c] = vals[v]
                ever.append(c)
            else:
                model.pop(c, None)
        return w, model, ever

    def verify(hist):
        ok, r = ck.guard('raise:%r' % (hist[-1:],), lambda: play(hist), {'history': hist})
        if not ok:
            return
        w, model, ever = r
        ck.step()
        ck.trace()
        name = {id(A): 'A', id(B): 'B'}
        ck.state(tuple(sorted((c, name[id(v)]) for c, v in model.items())) + tuple(sorted(set(ever))))
        rep = {'history': hist}
        for p in probes:
            got = w.get_point(*p)
            if not ck.expect(got is model.get(p), 'get', lambda: 'cell %r does not hold the last value written to it' % (p,), rep):
                return
        ck.expect({tuple(int(x) for x in k) for k in w.world} == set(model) and len(w.world) == len(model), 'cells',
                  lambda: 'stored cells %r, expected %r' % (sorted(w.world), sorted(model)), rep)
        if ever:
            b = (w.xmin, w.xmax, w.ymin, w.ymax, w.zmin, w.zmax)
            e = tuple(f(c[i] for c in ever) for i in range(3) for f in (min, max))
            ck.expect(b == e, 'bounds', lambda: 'bounds %r, expected %r' % (b, e), rep)

    n = 0
    for L in (1, 2, 3, 4) if ck.thorough else (1, 2, 3):
        for h in itertools.product(ops, repeat=L):
            verify(h)
            n += 1
    for h in itertools.product(small, repeat=3 if not ck.thorough else 4):
        verify(h)
        n += 1
    # two worlds never share cells
    for o1, o2 in itertools.product(ops, repeat=2):
        a, m1, _ = play([o1])
        b, m2, _ = play([o2])
        ck.step()
        ck.expect(set(map(lambda k: tuple(map(int, k)), a.world)) == set(m1), 'isolation', 'a second world changed the first',
                  {'first': o1, 'second': o2})
    # every cell of a world is its own cell, written and read through either interface
    for s in (4, 8) if not ck.thorough else (4, 8, 16, 32):
        w = VoxelWorld(size=s)
        allc = list(itertools.product(range(s), repeat=3))
        for i, c in enumerate(allc):
            (w.set_point(*c, i) if i % 2 else w.set_pointv(FineVector(*c), i))
        ck.step(len(allc))
        ck.expect(all(w.get_point(*c) == i for i, c in enumerate(allc)) and len(w.world) == s ** 3, 'all-cells',
                  'cells of a full world of size %d alias each other' % s)
        ck.expect((w.xmin, w.xmax, w.ymin, w.ymax, w.zmin, w.zmax) == (0, s - 1) * 3, 'all-bounds', 'bounds of a full world')
        for c in allc[::3]:
            w.del_pointv(FineVector(*c))
        ck.expect(all((w.get_point(*c) is None) == (i % 3 == 0) for i, c in enumerate(allc)), 'all-deleted', 'deleting cells of a full world')
    # half coordinates (middles of voxels, as turned positions have them) name one cell in
    # every interface: what is written there is found and deleted there
    from redeclipse.vector import BaseVector
    hc = [(3.5, 3.5, 2.5), (4.5, 3.5, 2.5), (0.5, 3, 2), (3.5, 3, 7), (4.5, 7.5, 15.5), (2, 6, 10.5)]
    forms = {'set': lambda w, c, v: w.set_point(*c, v), 'setv': lambda w, c, v: w.set_pointv(FineVector(*c), v),
             'setb': lambda w, c, v: w.set_pointv(BaseVector(*c), v),
             'del': lambda w, c, v: w.del_point(*c), 'delv': lambda w, c, v: w.del_pointv(FineVector(*c))}
    hops = [(f, c) for f in forms for c in hc]
    for L in (1, 2, 3) if ck.thorough else (1, 2):
        for h in itertools.product(hops, repeat=L):
            w = VoxelWorld(size=size)
            model, ever = {}, []
            for i, (f, c) in enumerate(h):
                forms[f](w, c, i + 1)
                if f.startswith('set'):
                    model[c] = i + 1
                    ever.append(c)
                else:
                    model.pop(c, None)
            ck.step()
            ck.trace()
            rep = {'half_history': h}
            got = {c: w.get_point(*c) for c in hc}
            ck.expect(got == {c: model.get(c) for c in hc} and len(w.world) == len(model), 'half-cells',
                      lambda: 'cells at half coordinates hold %r, expected %r' % (got, model), rep)
    # falsy and odd values are values
    for v in (0, '', False, [], {}, 7):
        w = VoxelWorld(size=8)
        w.set_point(1, 2, 3, v)
        ck.step()
        ck.expect(w.get_point(1, 2, 3) is v, 'value', 'value %r is not stored' % (v,))
    ck.extra['histories'] = n
    ck.sample({'history': [list(o) for o in ops[:3]]})
