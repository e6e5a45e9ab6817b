"""C29: what a whole run of the generator delivers is a sound map: rooms inside of the map
and disjoint, joined at their doors, symmetric under the requested mirroring (voxels and
entities), closed by end caps, playable, and the files say the same as the map."""
import collections
import os

from mc import e2e, harness, mpzref, upmx, voxref

MAP = os.path.join(harness.REPO, 'maps', 'empty-day.mpz')
CAPS = ('castle_wall_end_cliff', 'castle_wall_section_endcap', 'TestRoom')
START = {False: 'station_tubeX', True: 'station_flagroom'}


def run(ck):
    def one(job):
        n, rooms, seed, mirror, ctf, debug, outs, base = job
        argv = [base, '--rooms', rooms, '--seed', seed, '--mirror', mirror] + ['--ctf'] * ctf + ['--debug'] * debug
        for o in outs:
            argv += {'mpz': ['--mpz_out', 'o.mpz'], 'vox': ['--magica', 'o.vox'], 'json': ['--graph', 'o.json']}[o]
        rep = {'arguments': argv}
        r, err = e2e.run(ck, 'm%d' % n, argv, keep=True)
        ck.step()
        if not ck.expect(r is not None, 'run', lambda: '%s: %s' % (' '.join(map(str, argv[1:])), err), rep):
            return
        try:
            check(r, rooms, mirror, ctf, debug, outs, base, rep)
        finally:
            e2e.cleanup(ck, r)
        ck.state((rooms, seed, mirror, ctf, debug, outs, base, r['voxelhash']))
        ck.trace()

    from redeclipse.prefabs import castle
    from redeclipse.vector import CoarseVector
    shapes = [(q, upmx.shape(getattr(castle, q)(pos=CoarseVector(0, 0, 0), orientation=CoarseVector(*o)))) for q in CAPS[:2] for o in upmx.DIRS]

    def fits(c, d, occ):
        for name, (cells, doors) in shapes:
            for dc, dd in doors:
                if dd == upmx.neg(d):
                    shift = upmx.sub(upmx.sub(c, d), dc)
                    moved = [upmx.add(q, shift) for q in cells]
                    if all(upmx.legal(q) and q not in occ for q in moved):
                        return name, moved

    def plan(job):
        """Placement only, nothing is drawn: full-size maps by the dozen."""
        n, rooms, seed, mirror, ctf, debug = job
        argv = [MAP, '--seed', seed, '--mirror', mirror] + (['--rooms', rooms] if rooms != 200 else []) + ['--ctf'] * ctf + ['--debug'] * debug
        rep = {'arguments': argv, 'without': 'rendering'}
        r, err = e2e.run(ck, 'p%d' % n, argv, layout=True)
        ck.step()
        if ck.expect(r is not None, 'run', lambda: '%s: %s' % (' '.join(map(str, argv[1:])), err), rep):
            layout(r, rooms, mirror, ctf, debug, lambda c, k, w: ck.expect(c, k, w, rep))
            ck.state(('plan', rooms, seed, mirror, ctf, debug, len(r['rooms'])))

    def layout(r, nrooms, mirror, ctf, debug, exp):
        rooms = r['rooms']
        exp(r['size'] == 256, 'size', 'world size %r' % r['size'])
        occ = {}
        for i, q in enumerate(rooms):
            for p in map(tuple, q[4]):
                exp(p not in occ, 'overlap', lambda: 'rooms %r and %r share %r' % (rooms[occ.get(p, 0)][:4], q[:4], p))
                exp(all(0 <= x < 32 for x in p), 'outside', lambda: 'room %r is outside of the map at %r' % (q[:4], p))
                occ[p] = i
        cap = [q[0] in CAPS for q in rooms]
        if nrooms:
            exp(len(r['links']) <= nrooms + mirror, 'too-many', lambda: '%d links for %d rooms' % (len(r['links']), nrooms))
        # rooms hang together
        adj = collections.defaultdict(set)
        for (a, b), (pa, pb) in zip(r['linkrooms'], r['links']):
            exp(a >= 0 and b >= 0 and a != b, 'link', lambda: 'link %r - %r joins rooms %d and %d' % (pa, pb, a, b))
            exp(any(sum(abs(x - y) for x, y in zip(p, q)) == 1 for p in rooms[a][4] for q in rooms[b][4]), 'link:apart', lambda: 'linked rooms %r and %r do not touch' % (rooms[a][:4], rooms[b][:4]))
            adj[a].add(b)
            adj[b].add(a)
        starts = [i for i, q in enumerate(rooms) if q[0] == START[ctf]]
        exp(len(starts) == mirror and rooms[starts[0]][2] == ['8.0', '8.0', '3'] if starts else False, 'start', lambda: 'starting rooms %r' % ([rooms[i][:4] for i in starts],))
        seen, todo = set(starts), list(starts)
        while todo:
            for b in adj[todo.pop()]:
                if b not in seen:
                    seen.add(b)
                    todo.append(b)
        exp(all(i in seen or cap[i] for i in range(len(rooms))), 'unlinked', lambda: 'rooms without a link to the start: %r' % ([rooms[i][:4] for i in range(len(rooms)) if i not in seen and not cap[i]][:3],))
        # open doors are closed where a cap of the generator fits
        left = [(tuple(p), tuple(d)) for p, i, d in r['open'] if tuple(p) not in occ and rooms[i][0] != 'TestRoom']
        if debug:
            exp(not left, 'caps:debug', lambda: 'open doors without a debug cap: %r' % left[:3])
        else:
            for c, d in left:
                hit = fits(c, d, occ)
                exp(hit is None, 'caps', lambda: 'door %r stays open although %s fits' % ((c, d), hit))
        # symmetry
        turns = {1: (), 2: (180,), 4: (90, 180, 270)}[mirror]
        plain = [i for i in range(len(rooms)) if not cap[i] or debug]
        names = collections.Counter((rooms[i][0], tuple(map(tuple, rooms[i][4]))) for i in plain)
        for a in turns:
            got = collections.Counter((k, tuple(sorted(turn(p, a, 32) for p in ps))) for k, ps in names.elements())
            exp(got == names, 'mirror:rooms', lambda: 'rooms are not symmetric under %d degrees: %r' % (a, list((got - names))[:2]))
        return occ, cap, turns

    def turn(c, a, s):
        x, y, z = c
        return {90: (s - y, x, z), 180: (s - x, s - y, z), 270: (y, s - x, z)}[a]

    def check(r, nrooms, mirror, ctf, debug, outs, base, rep):
        exp = lambda c, k, w: ck.expect(c, k, w, rep)      # noqa: E731
        rooms = r['rooms']
        occ, cap, turns = layout(r, nrooms, mirror, ctf, debug, exp)
        # voxels lie in the tiles of rooms
        vox = {tuple(q[:3]): q[3:] for q in r['voxels']}
        owner = {c: occ.get(tuple(x // 8 for x in c)) for c in vox}
        exp(None not in owner.values(), 'stray', lambda: 'voxels outside of every room: %r' % ([c for c in vox if owner[c] is None][:3],))
        exp(set(owner.values()) == set(range(len(rooms))), 'empty', lambda: 'rooms without a voxel: %r' % ([rooms[i][:4] for i in set(range(len(rooms))) - set(owner.values())][:3],))
        atlas = {a[0] for a in r['atlas']}
        exp(all(t in atlas for q in vox.values() for t in q), 'texture', 'a voxel has a texture that is not in the atlas')
        # the entities of the input map come first, and are kept
        old = mpzref.decode(mpzref.read_file(base))
        nbase = len(old['ents'])
        exp(r['entxyz'][:nbase] == [list(e['pos']) for e in old['ents']], 'base-entities', lambda: 'entities of the input map were lost: %r' % (r['ents'][:nbase],))
        # symmetry
        for a in turns:
            exempt = {i for i in range(len(rooms)) if cap[i] and not debug}
            for c, q in vox.items():
                if owner[c] in exempt:
                    continue
                d = turn(c, a, 263)
                if d not in vox or (vox[d] != q and rooms[owner[c]][0] != START[True]):
                    exp(False, 'mirror:voxels', lambda: 'voxel %r of %r, turned by %d to %r: %r, expected %r' % (c, rooms[owner[c]][:4], a, d, vox.get(d), q))
                    break
            ents = collections.Counter()
            for e, p in list(zip(r['ents'], r['entxyz']))[nbase:]:
                i = occ.get(tuple(int(x // 32) for x in p))
                if e[0] != 'Sunlight' and (i is None or i not in exempt):
                    ents[(e[0], tuple(p))] += 1
            got = collections.Counter((k, turn(p, a, 1056)) for k, p in ents.elements())
            # lights at the far side of a tile may be counted to the next room, which is an end cap
            lost = {k: v for k, v in (got - ents).items() if not any(occ.get(tuple(int((x + dx) // 32) for x, dx in zip(k[1], (ddx, ddy, 0)))) in exempt for ddx in (0, -1) for ddy in (0, -1))}
            exp(not lost, 'mirror:entities', lambda: 'entities missing under %d degrees: %r' % (a, list(lost)[:3]))
        # entities
        kinds = collections.Counter(e[0] for e in r['ents'][nbase:])
        for e, p in zip(r['ents'], r['entxyz']):
            exp(all(0 <= x <= 1024 for x in p), 'entity:outside', lambda: '%s at %r' % (e[0], p))
        exp(kinds['Sunlight'] == 1, 'sunlight', lambda: '%d suns' % kinds['Sunlight'])
        exp(kinds['Light'] >= mirror, 'lights', lambda: '%d lights' % kinds['Light'])
        flags = [e[2][0] for e in r['ents'] if e[0] == 'TeamFlag']
        exp(len(flags) == (mirror if ctf else 0) and len(set(flags)) == len(flags) and all(1 <= t <= 4 for t in flags), 'flags', lambda: 'flags of teams %r for %d bases' % (flags, mirror))
        # files
        if 'mpz' in outs:
            f = os.path.join(r['dir'], 'o.mpz')
            ok, d = ck.guard('mpz', lambda: mpzref.decode(mpzref.read_file(f)), rep)
            if ok:
                got = mpzref.solid_cells(d['world'], 256)
                exp(got.keys() == vox.keys() and all(list(got[c]) == list(vox[c]) for c in got), 'mpz:voxels', lambda: 'map file: %d voxels, map: %d; e.g. %r' % (
                    len(got), len(vox), [c for c in set(got) ^ set(vox)][:3]))
                exp([e['pos'] for e in d['ents']] == [tuple(int(x) for x in p) for p in r['entxyz']] and d['meta']['numents'] == len(r['ents']), 'mpz:entities', 'entities of the map file')
                exp(d['vars'] == old['vars'] and d['texmru'] == old['texmru'], 'mpz:rest', 'variables or texture list of the input map were lost')
            exp(os.path.exists(os.path.join(r['dir'], 'o.cfg')) and r['copied'] == 1, 'cfg', 'configuration or texture data missing')
        if 'vox' in outs:
            with open(os.path.join(r['dir'], 'o.vox'), 'rb') as h:
                b = h.read()
            ok, d = ck.guard('vox', lambda: voxref.parse(b), rep)
            if ok:
                got = {q[:3]: q[3] - 1 for q in d['voxels']}
                exp(got == {c: q[0] for c, q in vox.items()}, 'vox', '.vox file and map differ')
        if 'json' in outs:
            exp(len(r['nodes']) == len(rooms) + 1 and sorted(r['nodes'])[1:] == list(range(len(rooms))), 'graph:nodes', 'nodes of the graph')
            at = {q: i for i, q in enumerate(r['nodes'])}
            exp(r['graph'][1] == [[at.get(a), at.get(b)] for a, b in r['linkrooms']], 'graph:links', 'links of the graph')
        ck.step(len(vox))

    jobs = []
    seeds = range(2) if not ck.thorough else range(40)
    for s in seeds:
        for m in (1, 2, 4):
            for ctf in (False, True):
                for debug in (False, True):
                    jobs.append((len(jobs), (8, 24)[(s + m) % 2] if not ck.thorough else (1, 5, 20, 60)[s % 4], s, m, ctf, debug, ('vox', 'json') if s % 2 else ('json',), MAP))
    maps = [os.path.join(harness.REPO, 'maps', f) for f in ('empty-day.mpz', 'empty-night.mpz', 'empty2.mpz')]
    full = [(4, 11, 2, True, False), (3, 12, 4, False, True), (5, 13, 1, False, False)]
    if ck.thorough:
        full = [(n, s, m, ctf, deb) for n in (2, 25, 120) for s in (11, 12) for m in (1, 2, 4) for ctf, deb in ((True, False), (False, True))]
    head = [(10000 + i,) + f + (('mpz', 'vox', 'json'), maps[i % 3]) for i, f in enumerate(full)]
    plans = [(rooms, s, m, ctf, debug) for rooms in (200, 40) for s in (range(3) if not ck.thorough else range(150)) for m in (1, 2, 4) for ctf in (False, True) for debug in (False, True)]
    plans += [(rooms, s, m, False, True) for rooms in ((0, 1, 2, 3, 7) if not ck.thorough else range(20)) for s in (1, 2) for m in (1, 2, 4)]
    ck.parallel(one, head + jobs)
    ck.parallel(plan, [(i,) + p for i, p in enumerate(plans)])
    ck.extra['placements'] = len(plans)
    ck.extra['runs'] = len(jobs) + len(head)
