"""C13: every link names two different placed rooms which really meet at a door, and every
placed room is reachable from a start room through links; the exported graph says the same."""
import collections
import json
import os

from mc import harness, rooms, themes, upmx


def run(ck):
    def analyse(upm, rep, mirror, starts):
        where = {}
        for i, r in enumerate(upm.rooms):
            for c in upmx.shape(r)[0]:
                where[c] = i
        shapes = [upmx.shape(r) for r in upm.rooms]
        edges = collections.defaultdict(set)
        for a, b in upm.links:
            ca, cb = upmx.cell(a), upmx.cell(b)
            ra, rb = upm.occupied.get(a), upm.occupied.get(b)
            if not ck.expect(ra is not None and rb is not None and ca in where and cb in where, 'dangling',
                             lambda: 'a link names a position that no room occupies: %r' % [c for c in (ca, cb) if c not in where], rep):
                continue
            i, j = where[ca], where[cb]
            ck.expect(ra is upm.rooms[i] and rb is upm.rooms[j], 'owner', 'the link resolves to another room', rep)
            if not ck.expect(i != j, 'self-link', lambda: 'room %d is linked with itself' % i, rep):
                continue
            (A, da), (B, db) = shapes[i], shapes[j]
            meet = any(c in B and upmx.sub(c, o) in A and any(c2 == upmx.sub(c, o) and o2 == upmx.neg(o) for c2, o2 in db) for c, o in da)
            ck.expect(meet, 'no-common-door', lambda: 'linked rooms %r and %r do not meet at a door' % (upm.rooms[i], upm.rooms[j]), rep)
            edges[i].add(j)
            edges[j].add(i)
        reach, todo = set(starts), list(starts)
        while todo:
            for j in edges[todo.pop()]:
                if j not in reach:
                    reach.add(j)
                    todo.append(j)
        ck.expect(len(reach) == len(upm.rooms), 'unreachable', lambda: '%d of %d rooms cannot be reached from a start room' % (
            len(upm.rooms) - len(reach), len(upm.rooms)), rep)
        return edges

    def inv(upm, model, hist, extra):
        rep = upmx.where(hist)
        placements = len(hist) - 2
        ck.expect(len(upm.links) == placements * len(upmx.ROTS[model.mirror]), 'count', lambda: '%d links after %d placements' % (len(upm.links), placements), rep)
        # the start room's copies are the rooms whose cells are the start's
        startcells = {frozenset(k.cells) for k in model.copies[:len(upmx.ROTS[model.mirror])]}
        starts = [i for i, r in enumerate(upm.rooms) if frozenset(upmx.shape(r)[0]) in startcells]
        analyse(upm, rep, model.mirror, starts)

    upmx.explore(ck, ['Bend', 'Shifted', 'Tower'] if ck.thorough else ['Bend', 'Shifted'], upmx.STARTS, (1, 2, 4), 3 if ck.thorough else 2, inv,
                 max_states=12000 if ck.thorough else 10 ** 6)
    driven(ck, analyse)
    offers(ck)
    themes.run(ck, themes.linked(ck, analyse))


def driven(ck, analyse):
    """The real placement loop under every schedule of random answers with few deviations,
    and the graph that the command line tools write."""
    import argparse
    from redeclipse import prefabs
    from redeclipse.cli import output
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import CoarseVector
    cat = upmx.catalogue()
    classes = [cat['Bend'], cat['Shifted'], cat['Tower'], cat['Dot']]

    def one(job):
        mirror, start, want = job

        def execute(ctl):
            upm = UnusedPositionManager(2 ** 8, mirror=mirror)
            upm.register_room(cat[start[0]](pos=CoarseVector(*start[1])))
            n = len(upm.rooms)
            upm.place_rooms(False, classes, rooms=want)
            return upm, n
        for ctl, (upm, n) in harness.explore(execute, 2 if ck.thorough else 1, menu=4):
            rep = {'mirror': mirror, 'start': start, 'rooms': want, 'choices': ctl.taken}
            ck.step()
            ck.trace()
            ck.state((mirror, start, want, upmx.snapshot(upm)))
            edges = analyse(upm, rep, mirror, range(n))
            if sum(ctl.taken) <= 1:
                path = ck.path('graph-%d.json' % os.getpid())
                with open(path, 'w') as h:
                    output(None, None, upm, prefabs, argparse.Namespace(magica=None, mpz_out=None, graph=h))
                g = json.load(open(path))
                names = {x['id']: x for x in g['nodes']}
                ids = [id(r) for r in upm.rooms]
                ck.expect(len(names) == len(g['nodes']) and all(i in names for i in ids) and len(g['nodes']) == len(ids) + 1, 'graph:nodes', 'nodes of the exported graph', rep)
                got = collections.Counter(frozenset((l['source'], l['target'])) for l in g['links'])
                wantl = collections.Counter(frozenset((id(upm.rooms[i]), id(upm.rooms[j]))) for i in edges for j in edges[i] if i < j)
                ck.expect(set(got) == set(wantl), 'graph:links', 'the exported links are not the links between the rooms', rep)
                for r in upm.rooms:
                    ck.expect(names.get(id(r), {}).get('name') == getattr(r, 'name', type(r).__name__), 'graph:names', 'names in the exported graph', rep)

    cat['Bend'].name, cat['Dot'].name = 'a bend', 'dot'
    ck.parallel(one, [(m, s, w) for m in (1, 2, 4) for s in (('Dot', (8, 9, 3)), ('Long', (13, 16, 4)), ('Shifted', (1, 1, 1))) for w in (3 * m, 5 * m)])
    ck.sample({'schedules': 'all with <=%d non-default random answers' % (2 if ck.thorough else 1)})


def offers(ck):
    """Every room class of the repository, with every setting of its options, is offered only
    where one of its doors meets the door it is offered for."""
    from redeclipse.upm import UnusedPositionManager
    # (two doors of egypt's stairs lead out of cells they do not claim, see C21)
    classes = [(label, cls) for label, cls in rooms.all_rooms() if not label.startswith('egypt:stair')]
    options = {label: rooms.flag_sets(cls) for label, cls in classes}
    plain = (':Room', ':Stair')

    def one(job):
        slabel, start, flags, ori = job
        upm = UnusedPositionManager(2 ** 8)
        a = rooms.make(start, (16, 16, 14), ori, flags)
        upm.register_room(a)
        mine = upmx.shape(a)[1]
        seen = set()
        for pos, room, o in list(upm.unoccupied):
            door = (upmx.cell(pos), upmx.cell(o))
            if not ck.expect(door in mine, 'offers:open', 'an open door is not a door of its room', {'start': job, 'door': door}):
                continue
            if not ck.thorough and door[1] in seen:
                continue
            seen.add(door[1])
            for label, cls in classes:
                fair = len(options[label]) > 1
                # a room next to one of its kind takes its options from there
                if not ck.thorough and slabel != label and slabel not in plain:
                    continue
                # (models are read each time, which takes long)
                if not ck.thorough and hasattr(cls, 'vox_file') and not (slabel == plain[0] and ori == upmx.DIRS[0] and len(seen) == 1):
                    continue

                def execute(ctl):
                    return upmx.candidates(upm, [cls], (pos, room, o), ctl)
                bound = 0 if not fair else 2 if ck.thorough and slabel in plain else 1
                for ctl, cands in harness.explore(execute, bound, perms=1, menu=3):
                    rep = {'start': (slabel, flags, ori), 'door': door, 'room': label, 'choices': ctl.taken}
                    for b in cands:
                        cells, doors = upmx.shape(b)
                        ck.step()
                        ck.expect((upmx.sub(*door), upmx.neg(door[1])) in doors and door[0] in cells, 'offers:no-door',
                                  lambda: '%s offered at %r facing %r does not meet the door at %r' % (label, upmx.cell(b.pos), upmx.cell(b.orientation), door), rep)
                        ck.state((door, label, cells, doors))
        ck.trace()
    jobs = [(l, c, f, o) for l, c in classes if l in plain or len(options[l]) > 1 for f in options[l][1:] or [None]
            for o in (upmx.DIRS if ck.thorough else upmx.DIRS[:2])]
    ck.parallel(one, jobs)
    ck.extra['offered_next_to'] = len(jobs)
