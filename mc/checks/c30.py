"""C30: the inspection tools tell the truth: the report on a model shows its extent, its
palette and every layer of it; passing a map through the comparison tool changes nothing."""
import contextlib
import gzip
import io
import itertools
import os
import re
import sys

from mc import harness, mapbuild as mb, mpzref, rooms, voxref


# names that models may have
NAMES = ('model_%d.vox', 'wall.v%d.vox', 'a room %d.vox', '%d', 'r\xf6hre-%d.vox', 'some.dir/m%d.vox', 'twice%d.vox.vox', 'UPPER%d.VOX')


def report(text):
    """(name, bounds, colours, {z: rows}) out of the printed report."""
    name = re.search(r'^Model: (.*)$', text, re.M)
    bounds = re.search(r'boundaries:\s*x in \[(-?\d+), (-?\d+)\]; y in \[(-?\d+), (-?\d+)\]; z in \[(-?\d+), (-?\d+)\]', text)
    cols = [tuple(map(int, q)) for q in re.findall(r'^C\[(\d+)\] = \((\d+), (\d+), (\d+)\)', text, re.M)]
    layers, z = {}, None
    for line in text.split('\n'):
        m = re.match(r'=+ z = (-?\d+) =+', line)
        if m:
            z = int(m.group(1))
            if z in layers:
                raise ValueError('layer %d is shown twice' % z)
            layers[z] = []
        elif z is not None and line.startswith('y '):
            layers[z].append(line[2:])
    return name and name.group(1), bounds and tuple(map(int, bounds.groups())), cols, layers


def run(ck):
    from redeclipse.cli import iso, magicavoxel_info, parse

    def inspect(key, path, model, rep):
        def go():
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                magicavoxel_info.main(path)
            return report(out.getvalue())
        ok, r = ck.guard('report:' + key, go, rep)
        ck.step()
        if not ok:
            return
        name, bounds, cols, layers = r
        vox = {v[:3] for v in model['voxels']}
        lo = [min(v[i] for v in vox) for i in range(3)]
        hi = [max(v[i] for v in vox) for i in range(3)]
        ck.expect(name == os.path.splitext(os.path.basename(path))[0], 'name:' + key, lambda: 'model name %r' % name, rep)
        ck.expect(bounds == tuple(q for p in zip(lo, hi) for q in p), 'bounds:' + key, lambda: 'boundaries %r, voxels lie in %r - %r' % (bounds, lo, hi), rep)
        want = [(i,) + tuple(c[:3]) for i, c in enumerate(model['palette']) if any(c[:3])]
        ck.expect(cols == want, 'palette:' + key, lambda: 'colours %r, the palette says %r' % (cols[:3], want[:3]), rep)
        if ck.expect(sorted(layers) == list(range(lo[2], hi[2] + 1)), 'layers:' + key, lambda: 'layers %r' % sorted(layers), rep):
            got = {(lo[0] + i, lo[1] + j, z) for z, rows in layers.items() for i, row in enumerate(rows) for j, ch in enumerate(row) if ch == '#'}
            ck.expect(got == vox and all(len(rows) == hi[0] - lo[0] + 1 for rows in layers.values()), 'drawing:' + key, lambda: 'missing %r, extra %r' % (sorted(vox - got)[:3], sorted(got - vox)[:3]), rep)
        ck.trace()

    PAL = [((5 * i) % 256, (255 - i), (i * i) % 256, 255) for i in range(256)]
    sparse = [(0, 0, 0, 0)] * 256
    for i, c in ((1, (1, 0, 0)), (7, (0, 2, 0)), (100, (0, 0, 3)), (255, (255, 255, 255)), (0, (9, 9, 9))):
        sparse[i] = c + (255,)

    def made(job):
        n, key, vs, pal = job
        p = ck.path(NAMES[n % len(NAMES)] % n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as h:
            h.write(voxref.build((126, 126, 126) if max(max(v[:3]) for v in vs) < 126 else (256, 256, 256), vs, pal))
        before = open(p, 'rb').read()
        inspect(key, p, {'voxels': vs, 'palette': pal}, {'voxels': vs[:20]})
        ck.expect(open(p, 'rb').read() == before, 'touched:' + key, 'inspecting changed the file')
        ck.state((key, tuple(vs)))
        os.remove(p)
    jobs = []
    corners = [(2 + i, 1 + 2 * j, 3 + k) for i, j, k in itertools.product((0, 1), repeat=3)]
    for n in range(1, 256):
        jobs.append(('subset', [c + (1 + i,) for i, c in enumerate(corners) if n >> i & 1], PAL))
    for v in itertools.product((0, 1, 7, 60, 125, 128, 200, 255), repeat=3):
        jobs.append(('single', [v + (3,)], sparse))
        if ck.thorough:
            jobs.append(('pair', [v + (3,), (9, 8, 7, 2)], PAL))
    for w in itertools.product((1, 2, 5, 9), repeat=3):
        jobs.append(('box', [(x + 1, y, z + 2, 5) for x in range(w[0]) for y in range(w[1]) for z in range(w[2]) if (x + y + z) % 3], PAL) if w != (1, 1, 1) else ('box', [(4, 4, 4, 1)], sparse))
    jobs = [j for j in jobs if j[1]]
    ck.parallel(made, [(i,) + j for i, j in enumerate(jobs)])

    def shipped(path):
        with open(path, 'rb') as h:
            try:
                model = voxref.parse(h.read())
            except voxref.Bad:
                return
        inspect('shipped', path, model, {'file': os.path.basename(path)})
        ck.state(('shipped', path))
    files = sorted({os.path.realpath(cls.vox_file) for _, cls in rooms.all_rooms() if getattr(cls, 'vox_file', None)})
    ck.parallel(shipped, files)

    # maps
    def copy(key, path, rep):
        out = ck.path('copy-%d.mpz' % os.getpid())
        argv = sys.argv
        sys.argv = ['iso', path, out]
        try:
            ok, _ = ck.guard('copy:' + key, iso.main, rep)
        finally:
            sys.argv = argv
        ck.step()
        if ok:
            with gzip.open(path) as a, gzip.open(out) as b:
                x, y = a.read(), b.read()
            ck.expect(mpzref.decode(x) == mpzref.decode(y), 'map:' + key, 'the copy of the map differs', rep)
            ck.trace()

    d = os.path.join(harness.REPO, 'maps')
    maps = [f for f in sorted(os.listdir(d)) if f in ('empty-day.mpz', 'empty-night.mpz', 'empty2.mpz', 'colourTest1.mpz')]
    if ck.thorough:
        maps = [f for f in sorted(os.listdir(d)) if f.endswith('.mpz') and os.path.getsize(os.path.join(d, f)) < 400000]

    def one(f):
        try:
            parse(os.path.join(d, f))
        except NotImplementedError:
            return          # a format the library does not support (and says so)
        copy(f, os.path.join(d, f), {'map': f})
        ck.state(('map', f))
    ck.parallel(one, maps)
    m = mb.base_model()
    p = ck.path('base.mpz')
    mb.real_map(m).write(p)
    copy('base', p, {})
