"""C32: the rooms can be walked: a player-sized body gets from any doorway of a room to any
other and to what stands in it, wherever two rooms are joined, and so through whole maps.
Decided by explicit-state reachability: every place a body fits is a state."""
import collections
import os
import pickle

from mc import e2e, harness, rooms, upmx, walk

# two ways, one above the other: doorways of the same level belong together
LEVELS = ('castle:castle_gate_simple',)
REACHED = ('PlayerSpawn', 'TeamFlag', 'Pusher', 'Weapon', 'Grenade', 'Shotgun')
MAP = os.path.join(harness.REPO, 'maps', 'empty-day.mpz')
# have holes in the floor, by chance or option: (room, options, is its floor missing?)
def holes(label, flags):
    return label == ':DigitalRoom' or label == ':MultiPlatform' and flags == [False]


# must stand on something
GROUNDED = ('PlayerSpawn', 'TeamFlag')
# scatter obstacles at random; without them
SCATTER = (':PoleRoom',)
BACK = {(1, 0, 0): 0, (0, 1, 0): 270, (-1, 0, 0): 180, (0, -1, 0): 90}


def walls():
    """The room classes a map is made of (the test rooms are for debugging)."""
    return [(label, cls) for label, cls in rooms.all_rooms() if not label.startswith(':Test')]


def run(ck):
    from redeclipse.upm import UnusedPositionManager

    def doors_of(label, room):
        """(own cell, direction, name of the door in the frame of a room facing east)"""
        cen, rot = rooms.centre(room), BACK[upmx.cell(room.orientation)]
        cells, doors = upmx.shape(room)
        return cells, [(upmx.sub(c, d), d, '%s:%s' % (label, ','.join(map(str, upmx.turn(upmx.sub(c, cen), rot))))) for c, d in doors]

    def alone(label, cls, flags, ori, u, rep):
        room = rooms.make(cls, (16, 16, 8), ori, flags)
        vox, ents = rooms.render(room, u)
        cells, doors = doors_of(label, room)
        comp = walk.regions(walk.places(cells, vox))
        ck.step(len(comp))
        at = [walk.at_door(comp, c, d) for c, d, _ in doors]
        for s, (c, d, name) in zip(at, doors):
            ck.expect(s, 'shut:' + name, 'no body fits through the doorway %s' % name, rep)
        usable = [i for i, s in enumerate(at) if s]
        if not holes(label, flags):
            for i in usable:
                c, d, name = doors[i]
                ck.expect(walk.standing(comp, vox, c, d), 'floor:' + name, 'there is no floor in the doorway %s' % name, rep)
        groups = walk.join([{k for _, _, k in at[i]} for i in usable])
        groups = sorted(sorted(doors[usable[i]][2] for i in g) for g in groups)
        want = collections.defaultdict(list)
        for i in usable:
            want[doors[i][0][2] if label in LEVELS else 0].append(doors[i][2])
        ck.expect(len(groups) <= len(want), 'apart:' + label, lambda: 'no way between the doorways %r of %s' % (groups, label), rep)
        reach = {k for i in usable for _, _, k in at[i]}
        base = tuple(8 * q for q in rooms.centre(room))
        for e in ents:
            if any(c.__name__ in REACHED for c in type(e).__mro__):
                ck.expect(walk.touching(comp, rooms.epos(e)) & reach, 'thing:%s:%s' % (label, type(e).__name__), lambda: '%s at %r of %s cannot be reached' % (
                    type(e).__name__, upmx.sub(rooms.epos(e), base), label), rep)
            if any(c.__name__ in GROUNDED for c in type(e).__mro__):
                x, y, z = (int(q // 1) for q in rooms.epos(e))
                ck.expect(any((x, y, h) in vox for h in range(0, z)), 'ground:%s:%s' % (label, type(e).__name__), lambda: '%s of %s stands over nothing' % (
                    type(e).__name__, label), rep)
        return [(doors[i][2], frozenset(q[:2] for q in at[i])) for i in usable]

    def one(job):
        n, label, cls, flags = job
        faces = set()
        for ori in upmx.DIRS:
            for u in answers:
                if label in SCATTER and u[0] < .5:
                    continue
                rep = {'room': label, 'flags': flags, 'orientation': ori, 'random': u}
                ctl = rooms.Split(*u)
                ok, r = ck.guard('walk:' + label, lambda: alone(label, cls, flags, ori, ctl, rep), rep)
                if not ok:
                    break
                ck.state((label, flags, ori, u))
                faces.update(r)
                if not ctl.draws:
                    break
        with open(ck.path('faces-%d' % n), 'wb') as h:
            pickle.dump(faces, h)
        ck.trace()

    answers = [(0.5, 0.5), (0.0, 0.0), (0.99, 0.999)]
    if ck.thorough:
        answers += [(0.04, 0.2), (0.2, 0.8), (0.65, 0.4), (0.95, 0.6)]
    jobs = [(label, cls, flags) for label, cls in walls() for flags in rooms.flag_sets(cls)]
    ck.extra['room_variants'] = len(jobs)
    ck.parallel(one, [(n,) + j for n, j in enumerate(jobs)])

    # any two doorways, put together
    faces = set()
    for n in range(len(jobs)):
        if os.path.exists(ck.path('faces-%d' % n)):
            with open(ck.path('faces-%d' % n), 'rb') as h:
                faces |= pickle.load(h)
    kinds = collections.defaultdict(list)
    for name, profile in sorted(faces, key=repr):
        kinds[profile].append(name)
    kinds = list(kinds.items())
    for i, (a, na) in enumerate(kinds):
        for b, nb in kinds[i:]:
            ck.expect(a & {(-u, z) for u, z in b}, 'meet:%s:%s' % (na[0], nb[0]), lambda: 'nobody fits through where %s is joined to %s' % (na[0], nb[0]),
                      {'doorways': [na[:5], nb[:5]]})
            ck.step()
    ck.extra['doorways'] = len(faces)
    ck.extra['openings'] = len(kinds)

    # two rooms as the placement joins them
    def joined(job):
        i, label, cls = job
        upm = UnusedPositionManager(2 ** 8)
        a = rooms.make(cls, (16, 16, 14), (1, 0, 0))
        upm.register_room(a)
        mine, ents = rooms.render(a)
        cells, doors = doors_of(label, a)
        if label.startswith('egypt:stair'):
            doors = doors[:1]       # (the doorways recorded in the known findings)
        for own, d, name in doors:
            door = next(((p, r, o) for p, r, o in upm.unoccupied if upmx.cell(p) == upmx.add(own, d) and upmx.cell(o) == d), None)
            if not ck.expect(door, 'open:' + name, lambda: 'the doorway %s is not offered' % name, {'room': label}):
                continue
            for j, (other, ocls) in enumerate(walls()):
                if not ck.thorough and (i * 7 + j) % 31 or other.startswith('egypt:stair'):
                    continue
                for b in upmx.candidates(upm, [ocls], door):
                    rep = {'room': label, 'doorway': name, 'joined to': other, 'at': upmx.cell(b.pos), 'facing': upmx.cell(b.orientation)}
                    vox, ents = rooms.render(b)
                    comp = walk.regions(walk.places([own, upmx.add(own, d)], vox.keys() | mine.keys()))
                    ck.step(len(comp))
                    x = {k for _, _, k in walk.at_door(comp, own, d)}
                    y = {k for _, _, k in walk.at_door(comp, upmx.add(own, d), upmx.neg(d))}
                    ck.expect(x & y, 'joined:%s:%s' % (name, other), lambda: 'no way from %s through %s into %s' % (label, name, other), rep)
                    ck.state(('joined', name, other, rep['at'], rep['facing']))
            ck.trace()
    ck.parallel(joined, [(i,) + j for i, j in enumerate(walls())])

    # whole maps
    def whole(job):
        n, count, seed, mirror, ctf = job
        argv = [MAP, '--rooms', count, '--seed', seed, '--mirror', mirror] + ['--ctf'] * ctf
        rep = {'arguments': argv}
        r, err = e2e.run(ck, 'w%d' % n, argv)
        if not ck.expect(r is not None, 'run', lambda: '%s: %s' % (' '.join(map(str, argv[1:])), err), rep):
            return
        own = [{tuple(p) for p in q[4]} for q in r['rooms']]
        owner = {c: i for i, cells in enumerate(own) for c in cells}
        vox = {tuple(q[:3]) for q in r['voxels']}
        comp = walk.regions(walk.places(sorted(owner), vox))
        ck.step(len(comp))
        doors = {}
        for i, q in enumerate(r['rooms']):
            for c, d in r['doors'][i]:
                doors[(upmx.sub(tuple(c), tuple(d)), tuple(d))] = i
        two = {x.split(':')[1] for x in LEVELS}
        ends = collections.defaultdict(list)
        for (c, d), i in doors.items():
            there = upmx.add(c, d)
            at = {k for _, _, k in walk.at_door(comp, c, d)}
            name = r['rooms'][i][0]
            if (there, upmx.neg(d)) in doors:
                over = {k for _, _, k in walk.at_door(comp, there, upmx.neg(d))}
                ck.expect(at & over, 'way', lambda: 'no way through the joined doorways of %r and %r at %r' % (
                    r['rooms'][i][:4], r['rooms'][owner[there]][:4], there), rep)
            ends[(i, c[2] if name in two else 0)].append(at)
        for (i, level), ats in ends.items():
            ck.expect(len(walk.join(ats)) == 1, 'through', lambda: 'no way through %r' % (r['rooms'][i][:4],), rep)
        reach = {k for ats in ends.values() for at in ats for k in at}
        for e, p in zip(r['ents'], r['entxyz']):
            if e[0] in REACHED:
                ck.expect(walk.touching(comp, [q / 4 for q in p]) & reach, 'placed:' + e[0], lambda: '%s at %r cannot be reached' % (e[0], p), rep)
        ck.state(('map', count, seed, mirror, ctf, r['voxelhash']))
        ck.trace()

    maps = [(12, 1, 1, True), (10, 2, 2, False), (6, 3, 4, True)]
    if ck.thorough:
        maps = [(n, s, m, ctf) for s in range(6) for n in (3, 15, 60) for m in (1, 2, 4) for ctf in (False, True)]
    ck.parallel(whole, [(i,) + m for i, m in enumerate(maps)])
    ck.extra['maps'] = len(maps)
