"""C28: the files written for one map agree with each other and with the map, whichever of
them are requested; flavours add exactly their lines; skyboxes come with their files."""
import argparse
import filecmp
import itertools
import json
import os
import types

from mc import harness, mapbuild as mb, mpzref, rooms, upmx, voxref
from mc.checks.c22 import game_read

# map names with the extension elsewhere in them
NAMES = ('maps.mpz/%s.mpz', '%s.mpz.mpz', '%s.v2.mpz', 'a folder/%s.cfg.mpz', '.mpz/.%s.mpz')


def run(ck):
    import redeclipse.textures as T
    import redeclipse.worldflavors as wf
    from redeclipse import cli, skybox
    from redeclipse.entities import Light, PlayerSpawn
    from redeclipse.objects import cube
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import CoarseVector, FineVector
    from redeclipse.voxel import VoxelWorld
    cat = upmx.catalogue()
    flavours = {f: list(getattr(wf, f)()) for f in wf.choices}

    def placement(mirror, links):
        upm = UnusedPositionManager(2 ** 8, mirror=mirror)
        a = cat['Dot'](pos=CoarseVector(8, 9, 3))
        upm.register_room(a)
        prev = a
        for i in range(links):
            b = cat['Dot'](pos=CoarseVector(9 + i, 9, 3))
            upm.register_room(b)
            upm.register_link(prev, b)
            prev = b
        return upm

    def manager(kind, n):
        tm = getattr(T, kind)()
        if hasattr(tm, '_get_colour') and kind == 'AutomatedMagicaTextureManager':
            for i in range(n):
                tm.get_colour(i / 255, (2 * i) / 255, 1)
        else:
            for name in [m for m in sorted(tm.texref) if getattr(tm.texref[m], 'c', 1)][:n]:
                tm.get(name)
        copied = []
        tm.copy_data = lambda *a, **k: copied.append(len(tm.atlas))
        return tm, copied

    def bundle(job):
        want, size, cells, kind, ntex, flav, mirror, links, nents, name = job
        rep = {'outputs': want, 'size': size, 'voxels': len(cells), 'textures': kind, 'flavours': flav, 'mirror': mirror, 'links': links, 'entities': nents, 'name': name}
        tag = '%d-%s' % (os.getpid(), '.'.join(want) or 'none')
        tm, copied = manager(kind, ntex)
        v = VoxelWorld(size=size)
        slots = sorted(tm.atlas)
        model = {}
        for i, c in enumerate(cells):
            t = slots[i % len(slots)]
            v.set_point(c[0], c[1], c[2], cube.newtexcube(tex=t))
            model[c] = t
        m = mb.real_map(mb.base_model())
        ref = mb.base_model()
        for i in range(nents):
            m.ents.append(Light(xyz=FineVector(i, 2, 3), red=i) if i % 2 else PlayerSpawn(xyz=FineVector(i, 1, 1), team=1, yaw=90))
        ents0 = [(e.o.x, e.o.y, e.o.z) for e in m.ents]
        r = wf.update(m, list(flav) if flav else flav)
        ck.expect(r is m, 'flavour:map', 'the map itself is returned', rep)
        upm = placement(mirror, links)
        paths = {k: ck.path('%s.%s' % (tag, k)) for k in ('mpz', 'vox', 'json', 'cfg')}
        if name:
            # (other names and folders for the map; the configuration goes next to it)
            paths['mpz'] = ck.path(name % tag)
            paths['cfg'] = paths['mpz'][:-4] + '.cfg'
            os.makedirs(os.path.dirname(paths['mpz']), exist_ok=True)
        for p in paths.values():
            if os.path.exists(p):
                os.remove(p)
        if name:
            for k in ('mpz', 'cfg'):
                with open(paths[k], 'w') as h:
                    h.write('what an earlier run left\n' * 400)
        args = argparse.Namespace(mpz_out=open(paths['mpz'], 'w') if 'mpz' in want else None, magica=open(paths['vox'], 'wb') if 'vox' in want else None,
                                  graph=open(paths['json'], 'w') if 'json' in want else None)
        pre = types.SimpleNamespace(TEXMAN=tm)
        key = '+'.join(want)
        ok, _ = ck.guard('output:' + key, lambda: cli.output(v, m, upm, pre, args), rep)
        for h in (args.magica, args.graph, args.mpz_out):
            if h:
                h.close()
        ck.step()
        ck.state((want, size, tuple(cells), kind, ntex, flav, mirror, links, nents, name))
        if not ok:
            return
        for k in ('mpz', 'vox', 'json'):
            ck.expect(os.path.exists(paths[k]) == (k in want), 'file:' + k, lambda: '%s %s' % (k, 'missing' if k in want else 'written although not asked for'), rep)
        ck.expect(os.path.exists(paths['cfg']) == ('mpz' in want), 'file:cfg', 'the configuration goes with the map', rep)
        lines = [x for f in flav or () for x in flavours[f]]
        if 'mpz' in want:
            ck.expect(copied == [len(tm.atlas)], 'data', lambda: 'texture files copied %r times' % len(copied), rep)
            ok, d = ck.guard('decode', lambda: mpzref.decode(mpzref.read_file(paths['mpz'])), rep)
            if ok:
                got = mpzref.solid_cells(d['world'], size)
                inside = {c: t for c, t in model.items() if all(0 <= q < size for q in c)}
                ck.expect({c: t[0] for c, t in got.items()} == inside and all(len(set(t)) == 1 for t in got.values()), 'mpz:voxels',
                          lambda: '%d voxels in the map file, %d in the world' % (len(got), len(inside)), rep)
                ck.expect([e['pos'] for e in d['ents']] == ents0 and d['meta']['numents'] == len(ents0), 'mpz:entities', lambda: '%r, expected %r' % ([e['pos'] for e in d['ents']], ents0), rep)
                ck.expect(d['vars'] == ref['vars'] and d['texmru'] == ref['texmru'], 'mpz:rest', 'variables and texture list of the map', rep)
                with open(paths['cfg']) as h:
                    text = h.read()
                rows = text.split('\n')
                tail = rows[-1 - len(lines):-1] if lines else []
                ck.expect(tail == lines and rows[-1] == '', 'cfg:flavour', lambda: 'the configuration ends with %r, flavours %r say %r' % (tail, flav, lines), rep)
                body = '\n'.join(rows[:len(rows) - 1 - len(lines)])
                sl, warn = game_read(body)
                ck.expect(not warn and len(sl) == len(tm.atlas), 'cfg:slots', lambda: '%d slots for %d textures %r' % (len(sl), len(tm.atlas), warn[:2]), rep)
                used = set(got_t for t in got.values() for got_t in t)
                ck.expect(all(t < len(sl) for t in used), 'cfg:used', 'the map uses a texture that is not configured', rep)
                if len(sl) == len(tm.atlas):
                    for t in used:
                        tex = tm.atlas[t]
                        if isinstance(tex, T.SimpleColourTex):
                            ck.expect(sl[t]['colour'] is not None and all(abs(a - b) < 1e-9 for a, b in zip(sl[t]['colour'], (tex.r, tex.g, tex.b))), 'cfg:colour', lambda: 'slot %d' % t, rep)
                        elif getattr(tex, 'c', None):
                            ck.expect(sl[t]['maps']['c'].endswith('/' + tex.c), 'cfg:texture', lambda: 'slot %d' % t, rep)
        else:
            ck.expect(not copied, 'data', 'texture files copied without a map', rep)
        if 'vox' in want:
            with open(paths['vox'], 'rb') as h:
                ok, f = ck.guard('vox', lambda: voxref.parse(h.read()), rep)
            if ok:
                have = {x[:3]: x[3] - 1 for x in f['voxels']}
                ck.expect(have == {c: t for c, t in model.items() if all(0 <= q <= 255 for q in c)}, 'vox:voxels', '.vox file and world differ', rep)
        if 'json' in want:
            with open(paths['json']) as h:
                g = json.load(h)
            ck.expect(len(g['nodes']) == len(upm.rooms) + 1 and len(g['links']) == len(upm.links), 'graph', lambda: '%d nodes, %d links for %d rooms, %d links' % (
                len(g['nodes']), len(g['links']), len(upm.rooms), len(upm.links)), rep)
            pair = {(x['source'], x['target']) for x in g['links']}
            ck.expect(pair == {(id(upm.occupied[a]), id(upm.occupied[b])) for a, b in upm.links}, 'graph:links', 'links of the graph', rep)
        ck.trace()

    kinds = ('AutomatedMagicaTextureManager', 'MinecraftThemedTextureManager', 'PrimaryThemedTextureManager', 'DefaultThemedTextureManager')
    outs = [c for n in range(4) for c in itertools.combinations(('mpz', 'vox', 'json'), n)]
    flavs = [None, ()] + [(f,) for f in wf.choices] + list(itertools.permutations(wf.choices, 2)) + [tuple(wf.choices), (wf.choices[0], wf.choices[0])]
    worlds = [(8, ()), (8, ((0, 0, 0),)), (16, tuple((i, (3 * i) % 16, (5 * i) % 16) for i in range(16))), (16, ((1, 2, 3), (15, 15, 15), (16, 0, 0), (3, 40, 2))),
              (32, tuple((x, y, 0) for x in range(0, 32, 3) for y in range(32)))]
    jobs = [(o, s, w, k, 5, f, m, l, n, None) for o in outs for (s, w) in worlds[:3] for f in flavs[:5] for k, m, l, n in (
        (kinds[0], 1, 0, 0), (kinds[1], 2, 2, 3), (kinds[2], 4, 3, 1), (kinds[3], 1, 3, 2))]
    jobs += [(('mpz', 'vox', 'json'), s, w, k, n, f, 2, 1, 2, None) for (s, w) in worlds for k in kinds for n in (0, 1, 9, 60) for f in (flavs if ck.thorough or n == 1 else flavs[-2:])]
    jobs += [(('mpz',), 16, worlds[2][1], k, 5, f, 1, 0, 1, nm) for k in kinds for f in flavs[-2:] for nm in NAMES]
    ck.parallel(bundle, jobs)
    ck.extra['bundles'] = len(jobs)

    # flavours: any sequence, the map's own extra lines first
    for own in ([], ['name value', 'other 1']):
        for f in flavs:
            m = mb.real_map(mb.base_model())
            m.cfg_extra = list(own)
            rep = {'own': own, 'flavours': f}
            for again in (False, True):
                ok, r = ck.guard('flavour', lambda: wf.update(m, f), rep)
                want = own + [x for _ in range(2 if again else 1) for q in f or () for x in flavours[q]]
                ck.expect(ok and r is m and m.cfg_extra == want, 'flavour:lines', lambda: '%r, expected %r' % (m.cfg_extra, want), rep)
                ck.step()
            other = mb.real_map(mb.base_model())
            ck.expect(other.cfg_extra == [], 'flavour:shared', 'flavours of one map show in another', rep)
            ck.state(('flavour', tuple(own), f))
    for f, lines in flavours.items():
        ck.expect(lines and all(isinstance(x, str) and len(x.split()) == 2 and '\n' not in x for x in lines), 'flavour:text', lambda: '%s: %r' % (f, lines))
        names = [x.split()[0] for x in lines]
        ck.expect(len(set(names)) == len(names), 'flavour:twice', lambda: '%s sets a variable twice' % f)
    # space station: weightless; crushed blacks: no ambient light; maliwan: the colours given in hex
    v = {f: dict(x.split() for x in lines) for f, lines in flavours.items()}
    ck.expect(v['space_station'].get('gravity') == '0' and v['crushed_blacks'] == {'ambient': '0'} and v['maliwan'].get('shotguncolor') == str(0xff0000) and
              v['maliwan'].get('shotgunexplcol1') == str(0xff3333), 'flavour:values', lambda: repr(v))

    # skyboxes
    src = os.path.dirname(os.path.realpath(skybox.__file__))
    skies = [c for c in vars(skybox).values() if isinstance(c, type) and issubclass(c, skybox.Skybox) and c is not skybox.Skybox]
    for n, h in enumerate(q for L in (1, 2, 3) for q in itertools.product(range(len(skies)), repeat=L)):
        base = ck.path('game-%d' % n)
        m = mb.real_map(mb.base_model())
        rep = {'skies': [skies[i].__name__ for i in h]}
        expected = set()
        for i in h:
            ok, sb = ck.guard('sky', lambda: skies[i](base), rep)
            if not ok:
                break
            m.skybox(sb)
            short = sb.get_short_path()
            expected |= {short + suffix for suffix in ('_bk.jpg', '_dn.jpg', '_ft.jpg', '_lf.jpg', '_rt.jpg', '_up.jpg')}
            have = {os.path.relpath(os.path.join(d, f), os.path.join(base, 'data')) for d, _, fs in os.walk(base) for f in fs}
            ck.expect(have == expected, 'sky:files', lambda: 'files %r, expected %r' % (sorted(have), sorted(expected)), rep)
            for f in have & expected:
                ck.expect(filecmp.cmp(os.path.join(base, 'data', f), os.path.join(src, os.path.basename(f)), shallow=False), 'sky:content', lambda: f, rep)
            names = [k for k in m.map_vars if k in (b'skybox', 'skybox')]
            ck.expect(len(names) == 1, 'sky:variable', lambda: 'variables %r' % (names,), rep)
            p = ck.path('sky.mpz')
            ok, d = ck.guard('sky:save', lambda: (m.write(p), mpzref.decode(mpzref.read_file(p)))[1], rep)
            if ok:
                ck.expect(dict(d['vars']).get(b'skybox') == short.encode() and skies[i].basename in short, 'sky:saved', lambda: '%r' % d['vars'], rep)
            ck.step()
        ck.state(('sky', h))
    assert harness and rooms
