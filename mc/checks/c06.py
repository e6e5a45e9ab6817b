"""C06: the saved octree contains exactly the voxels of the voxel world."""
import itertools

from mc import mpzref, mapbuild as mb


def walk(nodes, x, y, z, size, out, err):
    h = size // 2
    if len(nodes) != 8:
        err.append('node with %d children' % len(nodes))
        return
    for i, c in enumerate(nodes):
        p = (x + (i & 1) * h, y + ((i >> 1) & 1) * h, z + (i >> 2) * h)
        kind = c.octsav & 7
        if c.children:
            if kind != 0:
                err.append('subdivided cube not marked as such at %r' % (p,))
            if h <= 1:
                err.append('subdivided unit cube at %r' % (p,))
                continue
            walk(c.children, *p, h, out, err)
        elif kind == 0:
            err.append('leaf marked as subdivided at %r' % (p,))
        elif kind in (2, 3):
            for d in itertools.product(range(h), repeat=3):
                out[tuple(a + b for a, b in zip(p, d))] = tuple(mb.num(t) for t in c.texture)
        elif kind != 1:
            err.append('unknown cube kind %d' % kind)


def run(ck):
    from redeclipse.voxel import VoxelWorld
    from redeclipse.objects import cube
    from redeclipse.vector import FineVector
    path = ck.path('o.mpz')

    def tex(i):
        if isinstance(i, list):
            return i
        if isinstance(i, str):
            return int(i)               # this very texture on all sides
        return i if i % 3 else [i, i + 1, i + 2, i + 3, i + 4, i + 5]

    def model_tex(i):
        t = tex(i)
        return tuple([t] * 6 if isinstance(t, int) else t)

    def one(label, size, cells, fileio=False, rep=None):
        """cells: list of (xyz, texture id)"""
        rep = dict(rep or {}, world=label, size=size, cells=cells if len(cells) < 40 else len(cells))

        def build():
            v = VoxelWorld(size=size)
            for i, (c, t) in enumerate(cells):
                q = cube.newtexcube(tex=tex(t))
                (v.set_point(*c, q) if i % 2 else v.set_pointv(FineVector(*map(float, c)), q))
            return v.to_octree()
        ok, tree = ck.guard('raise:' + label, build, rep)
        ck.step()
        if not ok:
            return
        exp = {c: model_tex(t) for c, t in cells if all(0 <= x < size for x in c)}
        ck.state((size, tuple(sorted(exp.items()))))
        out, err = {}, []
        walk(tree, 0, 0, 0, size, out, err)
        ck.expect(not err, 'shape:' + label, lambda: '; '.join(err[:3]), rep)
        ck.expect(out == exp, 'cells:' + label, lambda: explain(out, exp), rep)
        if not fileio:
            return

        def io():
            m = mb.real_map(mb.base_model())
            m.world = tree
            m.write(path)
            data = mpzref.read_file(path)
            back = mb.read(path)
            return mpzref.decode(data), back
        ok, r = ck.guard('file:' + label, io, rep)
        ck.step(2)
        if not ok:
            return
        dec, back = r
        ck.expect(dec['trailer'] == b'', 'trailing:' + label, 'bytes after the octree', rep)
        ok, got = ck.guard('filetree:' + label, lambda: mpzref.solid_cells(dec['world'], size), rep)
        if ok:
            ck.expect(got == exp, 'filecells:' + label, lambda: explain(got, exp), rep)
        out, err = {}, []
        walk(back.world, 0, 0, 0, size, out, err)
        ck.expect(not err and out == exp, 'readcells:' + label, lambda: 'after reading back: ' + explain(out, exp), rep)
        ck.trace()

    def explain(got, exp):
        miss = [c for c in exp if c not in got]
        extra = [c for c in got if c not in exp]
        wrong = [c for c in exp if c in got and got[c] != exp[c]]
        return '%d voxels missing %r, %d unexpected %r, %d with other textures %r' % (
            len(miss), miss[:3], len(extra), extra[:3], len(wrong), wrong[:3])

    # every world of size 2
    all2 = list(itertools.product(range(2), repeat=3))
    for mask in range(256):
        one('s2:%d' % mask, 2, [(c, 10 + i) for i, c in enumerate(all2) if mask & (1 << i)], fileio=True)
    # size 4: every set of at most 2 voxels (3 in the thorough tier)
    all4 = list(itertools.product(range(4), repeat=3))
    for k in (0, 1, 2):
        for cs in itertools.combinations(range(64), k):
            one('s4:%r' % (cs,), 4, [(all4[i], 5 + j) for j, i in enumerate(cs)], fileio=k < 2 or ck.thorough or cs[1] % 5 == 0)
    if ck.thorough:
        for cs in itertools.combinations(range(64), 3):
            one('s4:%r' % (cs,), 4, [(all4[i], 5 + j) for j, i in enumerate(cs)])
    # every fill pattern of one octant of a size-4 world, the rest empty or full
    for octant in range(8):
        o = [2 * ((octant >> b) & 1) for b in range(3)]
        for mask in range(256):
            inside = [tuple(a + b for a, b in zip(o, c)) for i, c in enumerate(all2) if mask & (1 << i)]
            one('s4oct%d:%d' % (octant, mask), 4, [(c, 3 + i) for i, c in enumerate(inside)])
            if mask % 16 == octant or ck.thorough:
                rest = [c for c in all4 if not all(o[d] <= c[d] < o[d] + 2 for d in range(3))]
                one('s4notoct%d:%d' % (octant, mask), 4, [(c, 3 + i) for i, c in enumerate(inside + rest)])
    # eight neighbours which look the same from all sides but (possibly) one
    for k in range(6):
        def face(bit):
            t = [21, 22, 23, 24, 25, 26]
            t[k] += 10 * bit
            return t
        for mask in range(256):
            for base, o in (((0, 0, 0), 2), ((2, 0, 2), 4)):
                cs = [(tuple(a + b for a, b in zip(base, c)), face((mask >> i) & 1)) for i, c in enumerate(all2)]
                one('face%d/%d:%d' % (k, o, mask), o, cs)
    for k, c in itertools.product(range(6), all4):
        t = [21, 22, 23, 24, 25, 26]
        t[k] = 99
        one('faceodd%d:%r' % (k, c), 4, [(q, t if q == c else [21, 22, 23, 24, 25, 26]) for q in all4], fileio=sum(c) % 5 == k)
    # textures which could be taken for "nothing": 0 and the one empty cubes have, and the ends of the range
    for t in ('0', '1', '2', '255', '256', '65535', [0, 0, 0, 0, 0, 7], [1, 1, 1, 1, 1, 0], [7, 0, 0, 0, 0, 0]):
        name = 'tone%s' % (t if isinstance(t, str) else ''.join(map(str, t)))
        for mask in range(256):
            cs = [(c, t) for i, c in enumerate(all2) if mask & (1 << i)]
            one('%s:%d' % (name, mask), 2, cs, fileio=mask % 32 == 5 or ck.thorough)
            if mask % 4 == 1 or ck.thorough:
                one('%s@4:%d' % (name, mask), 4, [(tuple(q + 2 for q in c), t) for c, _ in cs] + [((0, 1, 0), 9)])
        for c in all4:
            one('%s:%r' % (name, c), 4, [(c, t)], fileio=sum(c) % 4 == 0)
            one('%snot:%r' % (name, c), 4, [(q, '9' if q == c else t) for q in all4])
    # every single voxel of larger worlds
    for s in (8,) if not ck.thorough else (8, 16):
        for n, c in enumerate(itertools.product(range(s), repeat=3)):
            one('s%d:%r' % (s, c), s, [(c, 9)], fileio=n % 8 == 0 or ck.thorough)
    # full worlds in which every voxel has its own texture, and slabs
    for s in (2, 4, 8, 16, 32):
        cs = list(itertools.product(range(s), repeat=3))
        one('full%d' % s, s, [(c, i) for i, c in enumerate(cs)], fileio=True)
        one('checker%d' % s, s, [(c, i) for i, c in enumerate(cs) if sum(c) % 2], fileio=s < 32)
    big = 2 ** 8 if ck.thorough else 2 ** 6
    for axis in range(3):
        for k in (0, big - 1):
            cs = []
            for a in range(0, big, 3):
                c = [a, (a * 7) % big, (a * 11) % big]
                c[axis] = k
                cs.append(tuple(c))
            one('slab%d/%d' % (axis, k), big, [(c, i) for i, c in enumerate(cs)], fileio=True)
    for corner in itertools.product((0, big - 1), repeat=3):
        one('corner%r' % (corner,), big, [(corner, 4)], fileio=True)
    # voxels outside the world never damage the inside
    for s in (4, 8):
        for bad in ((-1, 0, 0), (0, -1, 0), (0, 0, -1), (s, 0, 0), (0, s, 0), (0, 0, s), (s, s, s), (s + 5, 1, 1), (-8, -8, -8)):
            one('outside%d%r' % (s, bad), s, [((1, 2, 3), 4), (bad, 5), ((0, 0, 0), 6)], fileio=True)
            one('only-outside%d%r' % (s, bad), s, [(bad, 5)], fileio=True)
    # converting does not consume: same world twice, and after more edits
    for c1, c2 in itertools.product(all4[::5], repeat=2):
        v = VoxelWorld(size=4)
        v.set_point(*c1, cube.newtexcube(tex=4))
        ok, _ = ck.guard('again', v.to_octree)
        v.del_point(*c1)
        v.set_point(*c2, cube.newtexcube(tex=5))
        ok, tree = ck.guard('again', v.to_octree)
        out, err = {}, []
        if ok:
            walk(tree, 0, 0, 0, 4, out, err)
            ck.step(2)
            ck.expect(not err and out == {c2: (5,) * 6}, 'again', 'second conversion after an edit is wrong', {'first': c1, 'then': c2})
    ck.extra['exhaustive_sets'] = 'all worlds of size 2; all worlds of size 4 with <= %d voxels; all fills of each octant' % (3 if ck.thorough else 2)
    ck.sample({'size': 4, 'cells': [[0, 0, 0], [3, 1, 2]]})
