"""C19: a room looks the same wherever and however it is turned: voxels, textures, doors,
cells and the things in it turn and move with the room."""
import collections

from mc import rooms, upmx

ROT = {(1, 0, 0): 0, (0, 1, 0): 90, (-1, 0, 0): 180, (0, -1, 0): 270}
# rooms that show a team's colour, which goes by orientation: colour of the marker and
# team of the flag for east, north, west, south
TEAM_COLOUR = {0: (1, 1, 0), 90: (0, 0, 1), 180: (0, 1, 0), 270: (1, 0, 0)}
TEAM = {0: 3, 90: 1, 180: 4, 270: 2}
EVIDENT = ('Pusher', 'MapModel', 'PlayerSpawn', 'TeamFlag', 'Grenade', 'Shotgun')


def vturn(c, rot):
    x, y = upmx.TURN[rot](c[0] - 3.5, c[1] - 3.5)
    return (int(x + 3.5), int(y + 3.5), c[2])


def pturn(c, rot):
    x, y = upmx.TURN[rot](c[0] - 4, c[1] - 4)
    return (x + 4, y + 4, c[2])


def view(room, u):
    """Everything relative to the tile the room turns around."""
    vox, ents = rooms.render(room, u)
    cen = rooms.centre(room)
    base = tuple(8 * q for q in cen)
    cells, doors = upmx.shape(room)
    return {
        'vox': {upmx.sub(c, base): t for c, t in vox.items()},
        'cells': collections.Counter(upmx.sub(c, cen) for c in cells),
        'doors': collections.Counter((upmx.sub(c, cen), d) for c, d in doors),
        'things': collections.Counter((kind(e),) + upmx.sub(rooms.epos(e), base) for e in ents if kind(e) in EVIDENT),
        'lights': sorted(upmx.sub(rooms.epos(e), base) for e in ents if kind(e) == 'Light'),
        'yaw': {(kind(e),) + upmx.sub(rooms.epos(e), base): e.attrs[e.attr_annotations.index('yaw')] for e in ents if kind(e) in ('Pusher', 'MapModel')},
        'attrs': collections.Counter((kind(e), tuple(repr(a) for a, n in zip(e.attrs, e.attr_annotations) if n not in ('yaw', 'team')))
                                     for e in ents if kind(e) in EVIDENT),
        'teams': [e.attrs[0] for e in ents if kind(e) == 'TeamFlag'],
        'n': len(ents),
    }


def kind(e):
    return type(e).__name__


def turned(v, rot):
    return {
        'vox': {vturn(c, rot): t for c, t in v['vox'].items()},
        'cells': collections.Counter({upmx.turn(c, rot): n for c, n in v['cells'].items()}),
        'doors': collections.Counter({(upmx.turn(c, rot), upmx.turn(d, rot)): n for (c, d), n in v['doors'].items()}),
        'things': collections.Counter({(k[0],) + pturn(k[1:], rot): n for k, n in v['things'].items()}),
        'lights': sorted(pturn(c, rot) for c in v['lights']),
        'yaw': {(k[0],) + pturn(k[1:], rot): (y + rot) % 360 for k, y in v['yaw'].items()},
        'attrs': v['attrs'], 'n': v['n'],
    }


def run(ck):
    answers = [0.5] if not ck.thorough else [0.5, (0.0, 0.0), (0.04, 0.99), (0.65, 0.3), (0.95, 0.6)]
    poss = [(16, 16, 8), (3, 28, 0)] if not ck.thorough else [(16, 16, 8), (3, 28, 0), (29, 4, 27), (8, 8, 3), (15, 17, 20)]
    from redeclipse.prefabs import TEXMAN

    def one(job):
        label, cls, flags = job
        for u in answers:
            ref = None
            for pos in poss:
                for ori, rot in ROT.items():
                    rep = {'room': label, 'flags': flags, 'pos': pos, 'orientation': ori, 'random': u}
                    ok, got = ck.guard('render:' + label, lambda: view(rooms.make(cls, pos, ori, flags), u), rep)
                    if not ok:
                        return
                    ck.step()
                    ck.state((label, flags, u, pos, ori))
                    if ref is None:
                        ref = got
                        continue
                    want = turned(ref, rot)
                    team = label in ('castle:castle_flag_room', 'spacestation:station_flagroom')
                    for part in ('cells', 'doors', 'things', 'yaw', 'attrs', 'n'):
                        ck.expect(got[part] == want[part], '%s:%s' % (part, label), lambda: '%s of %s at %r facing %r: %r instead of %r' % (
                            part, label, pos, ori, short(got[part], want[part]), short(want[part], got[part])), rep)
                    ck.expect(close(got['lights'], want['lights']), 'lights:' + label, lambda: 'lights of %s at %r facing %r: %r instead of %r' % (
                        label, pos, ori, got['lights'], want['lights']), rep)
                    ck.expect(got['vox'].keys() == want['vox'].keys(), 'voxels:' + label, lambda: 'voxels missing %r, extra %r' % (
                        sorted(want['vox'].keys() - got['vox'].keys())[:3], sorted(got['vox'].keys() - want['vox'].keys())[:3]), rep)
                    other = {c for c in got['vox'] if got['vox'][c] != want['vox'].get(c)}
                    if team:
                        red = TEXMAN.get_colour(*TEAM_COLOUR[rot])
                        mark = TEXMAN.get_colour(*TEAM_COLOUR[0])
                        ck.expect({c for c in want['vox'] if set(want['vox'][c]) == {mark}} >= other, 'team-marks:' + label, 'other voxels than the team marks change', rep)
                        ck.expect(all(set(got['vox'][c]) == {red} for c in other) and (other or rot == 0), 'team-colour:' + label, 'the team colour is wrong', rep)
                        ck.expect(got['teams'] == [TEAM[rot]], 'team:' + label, lambda: 'flag of team %r' % (got['teams'],), rep)
                    else:
                        ck.expect(not other, 'textures:' + label, lambda: 'textures differ at %r' % sorted(other)[:3], rep)
        ck.trace()

    jobs = [(label, cls, flags) for label, cls in rooms.all_rooms() + rooms.extra_rooms() + rooms.model_rooms(ck.path) for flags in rooms.flag_sets(cls)]
    ck.extra['rooms'] = len({j[0] for j in jobs})
    ck.extra['room_variants'] = len(jobs)
    ck.parallel(one, jobs)
    yaw(ck)


def yaw(ck):
    from redeclipse.vector import CoarseVector
    from redeclipse.vector.orientations import rotate_yaw
    for ori, rot in ROT.items():
        for a in range(-360, 721):
            ck.step()
            got = rotate_yaw(a, CoarseVector(*ori))
            ck.expect(0 <= got < 360 and (got - a - rot) % 360 == 0, 'yaw', lambda: 'yaw %d facing %r becomes %r' % (a, ori, got), {'yaw': a, 'orientation': ori})


def close(a, b, tol=2):
    """Same lights, up to two voxels (some rooms put them beside the middle)."""
    rest = list(b)
    for p in a:
        near = [q for q in rest if max(abs(x - y) for x, y in zip(p, q)) <= tol]
        if not near:
            return False
        rest.remove(min(near, key=lambda q: sum(abs(x - y) for x, y in zip(p, q))))
    return not rest


def short(a, b):
    if isinstance(a, dict):
        return [(k, v) for k, v in a.items() if b.get(k) != v][:2]
    return a
