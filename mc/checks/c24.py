"""C24: a room made from a .vox model shows exactly the voxels of the model, in its colours,
turned with the room and moved by the declared additions, and claims exactly their cells."""
import collections
import copy
import itertools
import os

from mc import harness, rooms, upmx, voxref


def vturn(c, rot):
    x, y = upmx.TURN[rot](c[0] - 3.5, c[1] - 3.5)
    return (int(x + 3.5), int(y + 3.5), c[2])


def run(ck):
    from redeclipse.prefabs import TEXMAN
    from redeclipse.prefabs.magica import MagicaRoom
    from redeclipse.vector.orientations import EAST
    assert EAST is not None
    serial = [0]
    PAL = [((5 * i) % 256, (255 - i), (i * i) % 256, 255) for i in range(256)]
    PAL[9], PAL[10], PAL[11] = (255, 0, 0, 255), (0, 0, 0, 255), (255, 255, 255, 255)
    first_pal = list(PAL)

    def colour(p):
        return tuple(q / 255 for q in p[:3])

    def shown(slot):
        t = TEXMAN.atlas[slot]
        return (t.r, t.g, t.b)

    def expected(model, off, rot, pos):
        out = {}
        for x, y, z, c in model['voxels']:
            v = vturn((x + off[0], y + off[1], z), rot)
            out[tuple(q + 8 * p for q, p in zip(v, pos))] = colour(model['palette'][c])
        return out

    def judge(key, cls, model, off, pos, ori, rep, colours=True):
        rot = upmx.DIRS.index(ori) * 90
        ok, room = ck.guard('make:' + key, lambda: rooms.make(cls, pos, ori), rep)
        if not ok:
            return
        ok, cells = ck.guard('cells:' + key, lambda: rooms.cells_of(room), rep)
        if not ok:
            return
        want = expected(model, off, rot, pos)
        wcells = {tuple(q // 8 for q in c) for c in want}
        if not getattr(cls, 'own_cells', False):
            ck.expect(len(set(cells)) == len(cells) and set(cells) == wcells, 'cells:' + key, lambda: 'claims %r, its voxels are in %r' % (sorted(cells), sorted(wcells)), rep)
        for attempt in (0, 1):
            ok, r = ck.guard('render:' + key, lambda: rooms.render(room), rep)
            if not ok:
                return
            vox, ents = r
            if not ck.expect(set(vox) == set(want), 'voxels:' + key, lambda: '%d voxels expected, %d rendered; missing %r, surplus %r' % (
                    len(want), len(vox), sorted(set(want) - set(vox))[:3], sorted(set(vox) - set(want))[:3]), rep):
                return
            if colours:
                for c, tex in vox.items():
                    if not ck.expect(len(set(tex)) == 1 and shown(tex[0]) == want[c], 'colour:' + key, lambda: 'voxel %r is rendered as %r, the model says %r' % (c, [shown(t) for t in set(tex)], want[c]), rep):
                        return
            # a copy (as made for mirrored maps) is as good as the original
            room = copy.deepcopy(room) if attempt == 0 else room
        ck.step()
        ck.trace()

    def write(data):
        serial[0] += 1
        p = ck.path('model-%d-%d.vox' % (os.getpid(), serial[0]))
        with open(p, 'wb') as h:
            h.write(data)
        return p

    def synth(size, voxels, boundary, doors_=None):
        path = write(voxref.build(size, voxels, PAL))

        class Model(MagicaRoom):
            name = 'harness'
            vox_file = path
            boundary_additions = dict(boundary)
        return Model, {'size': size, 'voxels': voxels, 'palette': PAL}, path

    def synthetic(job):
        key, size, voxels, boundary, poss, oris = job
        cls, model, path = synth(size, voxels, boundary)
        off = (boundary.get('WEST', 0), boundary.get('SOUTH', 0))
        for pos in poss:
            for ori in oris:
                rep = {'voxels': voxels[:40], 'boundary': boundary, 'pos': pos, 'orientation': ori}
                ck.state((key, tuple(voxels), tuple(sorted(boundary.items())), pos, ori))
                judge(key, cls, model, off, pos, ori, rep)
        os.remove(path)

    D = upmx.DIRS
    P1, P3 = [(8, 8, 3)], [(8, 8, 3), (1, 30, 0), (29, 2, 27)]
    jobs = []
    # all subsets of eight voxels around the corner where eight cells meet
    for n in range(1, 256):
        vs = [tuple(7 + o for o in off) + (1 + i,) for i, off in enumerate(itertools.product((0, 1), repeat=3)) if n >> i & 1]
        jobs.append(('subset', (16, 16, 16), vs, {}, P1, D if ck.thorough or n % 5 == 1 else D[n % 4:n % 4 + 1]))
    # single voxels at every place of a cell, and at the ends of the format
    for x, y, z in itertools.product(range(0, 8, 1 if ck.thorough else 3), range(0, 8, 1 if ck.thorough else 2), (0, 3, 7)):
        jobs.append(('single', (8, 8, 8), [(x, y, z, 1 + x + 8 * y)], {}, P3[:1], D))
    for v in ((0, 0, 0), (23, 0, 7), (40, 39, 8), (0, 125, 16), (125, 125, 125), (8, 15, 24)):
        jobs.append(('far', (126, 126, 126), [v + (7,)], {}, P3[:1], D))
    # every colour of the palette
    jobs.append(('palette', (16, 16, 1), [(c % 16, c // 16, 0, c) for c in range(1, 256)], {}, P3, D))
    for c in range(1, 256, 1 if ck.thorough else 16):
        jobs.append(('one-colour', (8, 8, 8), [(1, 2, 3, c)], {}, P1, D[:1]))
    # additions
    for w, s in itertools.product((0, 1, 4, 7, 8, 11), repeat=2):
        jobs.append(('moved', (8, 8, 8), [(0, 0, 0, 1), (7, 5, 2, 2), (4, 7, 0, 3)], {k: v for k, v in (('WEST', w), ('SOUTH', s)) if v}, P1 if not ck.thorough else P3, D))
    # more voxels than two bytes can count
    jobs.insert(0, ('many', (64, 64, 17), [(x, y, z, 1 + (x + 3 * y + 5 * z) % 255) for x in range(64) for y in range(64) for z in range(17)], {}, P1, D[1:2]))
    # the order of the voxels in the file does not matter
    full = [(x, y, 0, 1 + (x * 5 + y) % 200) for x in range(0, 24, 2) for y in range(0, 16, 3)]
    for vs in (full, full[::-1], sorted(full, key=lambda v: (v[1] * 7 + v[0] * 3) % 11)):
        jobs.append(('order', (24, 16, 1), vs, {}, P3, D))
    ck.parallel(synthetic, jobs)
    ck.extra['synthetic_models'] = len(jobs)

    # the models the library ships, against an independent reading of their files
    def shipped(job):
        label, cls = job
        with open(cls.vox_file, 'rb') as h:
            try:
                model = voxref.parse(h.read())
            except voxref.Bad as e:
                ck.fail('file:' + label, str(e))
                return
        off = (cls.boundary_additions.get('WEST', 0), cls.boundary_additions.get('SOUTH', 0))
        plain = cls.colour_to_texture is MagicaRoom.colour_to_texture
        for pos in P3[:2] if not ck.thorough else P3:
            for ori in D:
                ck.state((label, pos, ori))
                judge(label, cls, model, off, pos, ori, {'room': label, 'pos': pos, 'orientation': ori}, colours=plain)
    ck.parallel(shipped, [(label, cls) for label, cls in rooms.all_rooms() + rooms.extra_rooms() if hasattr(cls, 'vox_file')])

    # rooms of a map are made one after another and drawn afterwards: whatever the order
    # of the steps, every room keeps its own model
    a = synth((8, 8, 8), [(0, 0, 0, 9), (5, 1, 2, 10)], {})
    b = synth((16, 8, 8), [(0, 0, 0, 30), (9, 1, 2, 31), (1, 1, 1, 9)], {'WEST': 1})
    PAL[:] = [(255 - (3 * i) % 256, i, (7 * i) % 256, 255) for i in range(256)]
    c = synth((8, 8, 16), [(0, 0, 0, 9), (5, 1, 12, 10)], {})
    offs = [(0, 0), (1, 0), (0, 0)]
    pals = [x[1] for x in (a, b, c)]
    pals[2]['palette'] = list(PAL)
    PAL[:] = first_pal
    kinds = [a[0], b[0], c[0]]
    spots = [(8, 8, 3), (20, 8, 3), (8, 20, 5)]

    def interleaved(job):
        which, order = job
        made, nxt, drawn = {}, collections.Counter(), {}
        rep = {'rooms': which, 'order': order}
        for i in order:
            k, pos, ori = which[i], spots[i], D[(i + which[i]) % 4]
            want = expected(pals[k], offs[k], upmx.DIRS.index(ori) * 90, pos)
            step = nxt[i]
            nxt[i] += 1
            if step == 0:
                ok, made[i] = ck.guard('interleaved:make', lambda: rooms.make(kinds[k], pos, ori), rep)
                if not ok:
                    return
            elif step == 1:
                ok, cells = ck.guard('interleaved:cells', lambda: rooms.cells_of(made[i]), rep)
                ck.expect(ok and set(cells) == {tuple(q // 8 for q in x) for x in want}, 'interleaved:cells', lambda: 'room %d claims %r' % (i, cells), rep)
            else:
                ok, r = ck.guard('interleaved:render', lambda: rooms.render(made[i]), rep)
                ck.expect(ok and {x: shown(t[0]) for x, t in r[0].items()} == want, 'interleaved:voxels', lambda: 'room %d is drawn as %r, expected %r' % (
                    i, sorted((x, shown(t[0])) for x, t in r[0].items())[:3] if ok else None, sorted(want.items())[:3]), rep)
            ck.step()
        ck.state(('interleaved', which, order))
        ck.trace()
    orders = [o for o in sorted(set(itertools.permutations((0, 0, 0, 1, 1, 1))))]
    inter = [(w, o) for w in itertools.product(range(3), repeat=2) for o in orders]
    if ck.thorough:
        inter += [(w, o) for w in itertools.permutations(range(3)) for o in sorted(set(itertools.permutations((0, 0, 0, 1, 1, 1, 2, 2, 2))))]
    else:
        inter += [(w, o) for w in itertools.permutations(range(3)) for o in ((0, 0, 1, 1, 2, 2, 0, 1, 2), (0, 1, 2, 0, 1, 2, 2, 1, 0), (0, 0, 1, 1, 2, 2, 2, 1, 0), (0, 1, 2, 2, 1, 0, 0, 1, 2))]
    ck.parallel(interleaved, inter)
    for x in (a, b, c):
        os.remove(x[2])

    # a large map has more rooms than a process may have open files
    cls, model, path = synth((8, 8, 1), [(0, 0, 0, 1)], {})
    n0 = len(os.listdir('/proc/self/fd'))
    keep = []
    for i in range(300):
        r = rooms.make(cls, (1 + i % 30, 1 + i // 30, 2), D[i % 4])
        rooms.cells_of(r)
        keep.append(r)
    ck.expect(len(os.listdir('/proc/self/fd')) < n0 + 50, 'files', lambda: '%d files stay open for %d rooms' % (len(os.listdir('/proc/self/fd')) - n0, len(keep)))
    assert harness
