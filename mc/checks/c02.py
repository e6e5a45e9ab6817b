"""C02: every history of edits to a loaded map is what the saved file contains."""
import copy
import itertools

from mc import mpzref, mapbuild as mb


def run(ck):
    from redeclipse.entities import Light, PlayerSpawn, TeamFlag, Sunlight, Pusher
    from redeclipse.entities.model import MapModel
    from redeclipse.entities.weapon import Grenade
    from redeclipse.objects import cube
    from redeclipse.skybox import DesertSky, MinecraftSky
    from redeclipse.vector import CoarseVector, FineVector
    from redeclipse.voxel import VoxelWorld
    import redeclipse.worldflavors as wf

    path = ck.path('h.mpz')
    base = mb.base_model()
    base['ents'] = [{'pos': (4.0, 8.0, 12.0), 'type': 1, 'attrs': [64, 1, 2, 3, 0, 0], 'links': [], 'reserved': [0, 0, 0]}]
    desert, mc = DesertSky(ck.scratch), MinecraftSky(ck.scratch)

    def E(t, pos, attrs):
        return {'pos': tuple(float(p) for p in pos), 'type': t, 'attrs': attrs, 'links': [], 'reserved': [0, 0, 0]}

    def setvar(model, k, v):
        for i, (n, _) in enumerate(model['vars']):
            if n == k:
                model['vars'][i] = (k, v)
                return
        model['vars'].append((k, v))

    ops = {}

    def op(f):
        ops[f.__name__] = f
        return f

    @op
    def add_light(m, r):
        m.ents.append(Light(xyz=CoarseVector(1, 2, 3), red=9))
        r['ents'].append(E(1, (32, 64, 96), [64, 9, 255, 255, 0, 0]))
        return m

    @op
    def add_two(m, r):
        m.ents.append(Pusher(xyz=FineVector(1, 2, 3), maxrad=7.5, force=87.5))
        m.ents.append(TeamFlag(xyz=FineVector(0, 0, 1), team=3))
        r['ents'].append(E(13, (4, 8, 12), [0, 45, 87, 7, 0, 0]))
        r['ents'].append(E(14, (0, 0, 4), [3, 0, 0, 2, 0, 0]))
        return m

    @op
    def add_spawn_weapon(m, r):
        m.ents += [PlayerSpawn(xyz=FineVector(5, 5, 5), team=1, yaw=90), Grenade(xyz=FineVector(1, 1, 1)),
                   MapModel(xyz=FineVector(2, 0, 0), type=124, yaw=270), Sunlight(offset=45)]
        r['ents'] += [E(3, (20, 20, 20), [1, 90, 0, 0, 0, 0]), E(9, (4, 4, 4), [9, 0, 0, 0, 0]),
                      E(2, (8, 0, 0), [124, 270] + [0] * 11), E(8, (0, 0, 0), [0, 0, 255, 255, 255, 45, 0, 0])]
        return m

    @op
    def drop_first_ent(m, r):
        if m.ents:
            del m.ents[0]
            del r['ents'][0]
        return m

    @op
    def set_title(m, r):
        m.map_vars[b'maptitle'] = b'hello world'
        setvar(r, b'maptitle', b'hello world')
        return m

    @op
    def set_number(m, r):
        m.map_vars[b'fog'] = 77
        setvar(r, b'fog', 77)
        m.map_vars[b'gravity'] = -0.5
        setvar(r, b'gravity', -0.5)
        return m

    @op
    def drop_var(m, r):
        if m.map_vars:
            k = next(iter(m.map_vars))
            del m.map_vars[k]
            r['vars'] = [(n, v) for n, v in r['vars'] if n != k]
        return m

    @op
    def sky_desert(m, r):
        m.skybox(desert)
        setvar(r, b'skybox', b'hxr/skybox/desert')
        return m

    @op
    def sky_minecraft(m, r):
        m.skybox(mc)
        setvar(r, b'skybox', b'hxr/skybox/minecraft')
        return m

    @op
    def geometry(m, r):
        v = VoxelWorld(4)
        v.set_point(3, 0, 1, cube.newtexcube(tex=7))
        v.set_point(0, 2, 2, cube.newtexcube(tex=8))
        m.world = v.to_octree()
        solid = lambda t: {'kind': 3, 'edges': [128] * 12, 'tex': [t] * 6, 'surf': [(2, 0, 0, 32)] * 6}  # noqa
        w = [dict(mb.EMPTY) for _ in range(8)]
        k1 = [dict(mb.EMPTY) for _ in range(8)]
        k1[1 + 4] = solid(7)
        k2 = [dict(mb.EMPTY) for _ in range(8)]
        k2[0] = solid(8)
        w[1] = {'children': k1}          # x>=2, y<2, z<2 ; inside: x odd, z odd
        w[2 + 4] = {'children': k2}      # y>=2, z>=2
        r['world'] = w
        return m

    @op
    def paint(m, r):
        """texture of the first leaf"""
        c, n = m.world, r['world']
        i = 0
        while 'children' in n[i]:
            c, n = c[i].children, n[i]['children']
        c[i].texture = [21, 22, 23, 24, 25, 26]
        n[i] = dict(n[i], tex=[21, 22, 23, 24, 25, 26])
        return m

    @op
    def meta(m, r):
        m.meta['revision'] += 1
        r['meta']['revision'] += 1
        m.texmru.append(99)
        r['texmru'].append(99)
        return m

    @op
    def save(m, r):
        m.write(path)
        return m

    # one parser reads the file again and again
    parser = mb.MapParser()

    @op
    def reload(m, r):
        m.write(path)
        return parser.read(path)

    @op
    def flavor(m, r):
        wf.update(m, ['maliwan'])
        return m

    names = list(ops)
    depth = 4 if ck.thorough else 3

    def start():
        return mb.real_map(base)

    def run_history(h):
        r = copy.deepcopy(base)
        m = start()
        for name in h:
            m = ops[name](m, r)
            ck.step()
        m.write(path)
        data = mpzref.read_file(path)
        return m, r, data, mb.plain_map(parser.read(path))
    n = 0
    # sorted by length, so the first counterexample is the shortest
    for L in range(depth + 1):
        for h in itertools.product(names, repeat=L):
            if any(a == b and a in ('save', 'flavor', 'reload') for a, b in zip(h, h[1:])):
                continue
            ok, res = ck.guard('history:' + '>'.join(h), lambda: run_history(h), {'history': h})
            if not ok:
                continue
            m, r, data, back = res
            n += 1
            ref = mpzref.encode(r)
            ck.state(ref)
            ck.trace()
            key = '>'.join(h)
            if not ck.expect(data == ref, 'file:' + key, lambda: 'saved file is not the edited map (%s)' % diff_text(data, r), {'history': h}):
                continue
            exp = mb.expect_map(r)
            ck.expect(back == exp, 'read:' + key, lambda: 'reading the saved file back gives different %s' % mb.diff(back, exp), {'history': h})
            if n in (5, 500, 2000):
                ck.sample({'history': h, 'bytes': len(data)})
    ck.extra['histories'] = n
    ck.extra['operations'] = names
    ck.extra['max_history_length'] = depth


def diff_text(data, r):
    try:
        got = mpzref.decode(data)
    except ValueError as e:
        return 'not decodable: %s' % e
    out = []
    for k in ('meta', 'vars', 'texmru', 'ents', 'world'):
        exp = r[k] if k != 'meta' else dict(r['meta'], numents=len(r['ents']), numvslots=-sum(r['chg']))
        if k == 'ents':
            exp = [dict(e) for e in exp]
        if got.get(k) != exp:
            out.append(k)
    return 'differs in ' + ', '.join(out)
