"""C23: an exported .vox file is well formed and holds exactly the voxels that fit, each
in the colour of its texture."""
import os
import io
import itertools

from mc import voxref


def run(ck):
    from redeclipse.magicavoxel.reader import Magicavoxel
    from redeclipse.magicavoxel.writer import to_magicavoxel
    from redeclipse.objects import cube
    from redeclipse.voxel import VoxelWorld
    from redeclipse.vector import FineVector
    import redeclipse.textures as T

    def man(colours):
        m = T.AutomatedMagicaTextureManager()
        for c in colours:
            m.get_colour(*[x / 255 for x in c])
        return m

    def export(w, tm):
        h = io.BytesIO()
        to_magicavoxel(w, h, tm)
        return h.getvalue()

    def judge(key, w, tm, model, rep, colours=None, data=None, exact=True):
        """model: {cell: slot}; colours: {slot: (r, g, b)} as bytes"""
        if data is None:
            ok, data = ck.guard('export:' + key, lambda: export(w, tm), rep)
            if not ok:
                return
            ck.expect(data == export(w, tm), 'repeat:' + key, 'a second export differs', rep)
            ck.expect({k: v.texture[0] for k, v in w.world.items()} == model, 'changed:' + key, 'the export changed the world', rep)
        ck.step()
        try:
            f = voxref.parse(data)
        except voxref.Bad as e:
            ck.fail('format:' + key, str(e), rep)
            return
        want = {c: t for c, t in model.items() if all(0 <= q <= 255 for q in c)}
        have = {}
        for x, y, z, c in f['voxels']:
            ck.expect((x, y, z) not in have, 'twice:' + key, 'a voxel is listed twice', rep)
            have[x, y, z] = c
        if not ck.expect(set(have) == set(want), 'voxels:' + key, lambda: '%d voxels expected, %d in the file; missing %r, surplus %r' % (
                len(want), len(have), sorted(set(want) - set(have))[:3], sorted(set(have) - set(want))[:3]), rep):
            return
        ck.expect(all(1 <= s <= 256 for s in f['size']) and all(q < s for c in want for q, s in zip(c, f['size'])), 'size:' + key,
                  lambda: 'model size %r does not cover all voxels' % (f['size'],), rep)
        if not ck.expect(f['palette'] is not None, 'palette:' + key, 'no palette', rep):
            return
        # colour index i is the i-th colour of the palette (there is no colour 0)
        for c, t in want.items():
            i = have[c]
            if not ck.expect(i >= 1, 'index:' + key, lambda: 'voxel %r has colour index 0' % (c,), rep):
                break
            p = f['palette'][i - 1]
            col = colours.get(t) if colours else None
            if col is None:
                tex = tm.atlas[t]
                col = tuple(int(255 * q) for q in ((tex.r, tex.g, tex.b) if hasattr(tex, 'r') else (.5, .5, .5)))
            near = all(abs(a - b) <= (0 if colours and t in colours else 1) for a, b in zip(p, col)) or not exact
            if not ck.expect(near and p[3] == 255, 'colour:' + key, lambda: 'voxel %r with texture %d is shown as %r, expected %r' % (c, t, p, col), rep):
                break
        # and the library's own reader reads the same
        ok, m = ck.guard('reread:' + key, lambda: Magicavoxel.from_bytes(data), rep)
        if ok:
            ck.expect([(v.x, v.y, v.z, v.c) for v in m.model_voxels.voxels] == f['voxels'] and (m.model_size.x, m.model_size.y, m.model_size.z) == f['size'] and
                      [(c.r, c.g, c.b, c.a) for c in m.palette.colours] == f['palette'], 'reader:' + key, 'the library reads something else', rep)
        ck.trace()

    def world(cells, size=256):
        w = VoxelWorld(size=size)
        for c, t in cells.items():
            w.set_point(c[0], c[1], c[2], cube.newtexcube(tex=t))
        return w

    cols = {2: (255, 0, 0), 3: (0, 255, 1), 4: (1, 2, 254), 5: (128, 127, 200)}
    tm = man(cols.values())
    # all subsets of 2x2x2 at several corners, every cell in its own colour
    for base in ((0, 0, 0), (255, 255, 255), (-1, -1, -1), (255, 0, 7), (3, 254, 31)):
        cells = [tuple(a + b for a, b in zip(base, o)) for o in itertools.product((0, 1), repeat=3)]
        for n in range(256):
            model = {c: 2 + i % 4 for i, c in enumerate(cells) if n >> i & 1}
            ck.state(('subset', base, n))
            judge('subset', world(model), tm, model, {'base': base, 'subset': n}, cols)
    # one and two voxels at special coordinates
    special = (-300, -1, 0, 1, 2, 7, 127, 128, 254, 255, 256, 257, 511)
    for c in itertools.product(special, repeat=3):
        for model in ({c: 3}, {c: 3, (5, 6, 7): 4}):
            ck.state(('coord', tuple(model.items())))
            judge('coordinate', world(model, 512), tm, model, {'cells': list(model)}, cols)
    # every number of textures, every slot in use
    for n in range(0, 254):
        cl = {2 + i: (i, 255 - i, (7 * i) % 256) for i in range(n)}
        m2 = man(cl.values())
        model = {(s, 1, 2): s for s in range(2, n + 2)}
        model[0, 0, 0], model[1, 1, 1] = 0, 1
        ck.state(('textures', n))
        judge('textures', world(model), m2, model, {'textures': n + 2}, cl)
    # larger atlases: the slots that a voxel can name must still be right
    for n in (254, 255, 256, 300, 1000):
        cl = {2 + i: (i % 256, i // 256, 9) for i in range(n)}
        m2 = man(cl.values())
        model = {(s, 0, 0): s for s in range(2, 255)}
        ck.state(('textures', n))
        judge('many-textures', world(model), m2, model, {'textures': n + 2}, cl)
    # every channel value
    for k in range(256):
        for i, c in enumerate(((k, 0, 0), (0, k, 255), (7, 8, k))):
            m2 = man([c])
            model = {(k, i, 0): 2}
            ck.state(('channel', c))
            judge('channel', world(model), m2, model, {'colour': c}, {2: c} if len(m2.atlas) == 3 else None)
    # cubes with several textures: shown in the colour of one of their own sides
    for sides in itertools.product((2, 3), repeat=6):
        sides = list(sides)
        for k in (0, 2, 5):
            sides[k] = 4
            w = VoxelWorld(size=256)
            w.set_point(1, 2, 3, cube.newtexcube(tex=sides))
            ck.state(('sides', tuple(sides)))
            ck.step()
            ok, data = ck.guard('export:sides', lambda: export(w, tm), {'sides': sides})
            if not ok:
                continue
            f = voxref.parse(data)
            ck.expect(len(f['voxels']) == 1 and f['palette'][f['voxels'][0][3] - 1][:3] in [cols[t] for t in sides], 'sides', lambda: 'a cube with textures %r is shown as %r' % (sides, f['voxels']), {'sides': sides})
    # very many voxels: on both sides of 2^15 and 2^16
    for n in (32767, 32768, 65535, 65536, 65537) + ((131072, 1 << 20) if ck.thorough else ()):
        model = {(i % 256, i // 256 % 256, i // 65536): 2 + i % 4 for i in range(n)}
        ck.state(('many', n))
        judge('many-voxels', world(model), tm, model, {'voxels': n}, cols)
    # histories of writes and deletions: only what is there now is exported
    ops = [('set', (0, 0, 0), 2), ('set', (0, 0, 0), 3), ('set', (9, 0, 200), 4), ('setv', (9, 0, 200), 5), ('del', (9, 0, 200), 0), ('del', (0, 0, 0), 0), ('set', (256, 0, 0), 2)]
    for L in range(0, 6 if ck.thorough else 5):
        for h in itertools.product(range(len(ops)), repeat=L):
            w, model = VoxelWorld(size=256), {}
            for i in h:
                op, c, t = ops[i]
                if op == 'del':
                    w.del_point(*c)
                    model.pop(c, None)
                elif op == 'set':
                    w.set_point(c[0], c[1], c[2], cube.newtexcube(tex=t))
                    model[c] = t
                else:
                    w.set_pointv(FineVector(*c), cube.newtexcube(tex=t))
                    model[c] = t
            ck.state(('history', h))
            judge('history', w, tm, model, {'history': [ops[i] for i in h]}, cols)
    # all texture managers
    for name in ('MinecraftThemed', 'DefaultThemed', 'PaperThemed', 'PrimaryThemed', 'RainbowPuke'):
        m2 = getattr(T, name + 'TextureManager')()
        names = [n for n in sorted(m2.texref) if getattr(m2.texref[n], 'c', 1)][:200]
        for n in names:
            m2.get(n)
        model = {(s, 2, 3): s for s in m2.atlas}
        ck.state(('manager', name))
        judge('manager', world(model), m2, model, {'manager': name})
    # written to a path, with the global texture manager: complete as soon as it returns
    from redeclipse import prefabs
    slot = prefabs.TEXMAN.get_colour(4 / 255, 5 / 255, 6 / 255)
    # (and whatever the file held before)
    some = ({}, {(1, 2, 3): slot}, {(x, 0, 0): slot for x in range(-3, 300)}, {(x, y, 1): slot for x in range(9) for y in range(9)})
    for i, h in enumerate(q for n in (1, 2, 3) for q in itertools.product(range(len(some)), repeat=n)):
        p = ck.path('out-%d.vox' % i)
        for j in h:
            w = world(some[j])
            ok, _ = ck.guard('path', lambda: w.to_magicavoxel(p))
            if ok:
                with open(p, 'rb') as f:
                    judge('path', w, prefabs.TEXMAN, some[j], {'path': h}, {slot: (4, 5, 6)}, f.read())
        ck.state(('path', h))
        if os.path.exists(p):
            os.remove(p)
    # the rooms the library offers, rendered and exported
    from mc import harness, rooms, upmx
    for label, cls in rooms.all_rooms():
        for ori in upmx.DIRS if ck.thorough else upmx.DIRS[1:2]:
            room = rooms.make(cls, (16, 16, 8), ori)
            w = VoxelWorld(size=256)
            with harness.controlled(rooms.Split(.5, .5)):
                room.render(w, rooms.Sink())
            if len(prefabs.TEXMAN.atlas) > 254:
                break
            model = {tuple(int(q) for q in c): v.texture[0] for c, v in w.world.items()}
            ck.state(('room', label, ori))
            judge('room', w, prefabs.TEXMAN, model, {'room': label, 'orientation': ori})
