"""C12: with n-way mirroring, the map is symmetric: rooms, orientations, doors, open doors,
links and the rendered voxels."""
import collections
import itertools

from mc import harness, themes, upmx
from mc.upmx import E_, N_, S_, W_


def vspin(p, rot):
    """Rotate a voxel index about the centre of the middle cell (its voxels are 128..135)."""
    x, y = upmx.TURN[rot](p[0] - 131.5, p[1] - 131.5)
    return (x + 131.5, y + 131.5, p[2])


def espin(p, rot):
    """Rotate an entity position (1/4 voxel units) about the same point."""
    x, y = upmx.TURN[rot](p[0] - 528, p[1] - 528)
    return (x + 528, y + 528, p[2])


def run(ck):
    def inv(upm, model, hist, extra):
        rep = upmx.where(hist)
        rots = upmx.ROTS[model.mirror]
        ck.expect(len(upm.rooms) == len(rots) * (len(hist) - 1), 'count', lambda: '%d rooms after %d placements' % (len(upm.rooms), len(hist) - 1), rep)
        got = upmx.real_view(upm)
        for rot in rots:
            moved = collections.Counter()
            for (kind, ori, cells, doors), n in got.items():
                moved[(kind, upmx.turn(ori, rot), frozenset(upmx.spin(c, rot) for c in cells),
                       tuple(sorted((upmx.spin(c, rot), upmx.turn(d, rot)) for c, d in doors)))] += n
            ck.expect(moved == got, 'rooms', lambda: 'rotating the placement by %d gives other rooms: %r' % (rot, list((moved - got))[:1]), rep)
        ck.expect(got == upmx.owner_view(model.copies), 'copies', lambda: 'placed copies differ from the rotated originals: %r' % list(
            got - upmx.owner_view(model.copies))[:1], rep)
        doors = collections.Counter((upmx.cell(p), upmx.cell(o)) for p, _, o in upm.unoccupied)
        links = collections.Counter((upmx.cell(a), upmx.cell(b)) for a, b in upm.links)
        for rot in rots:
            ck.expect(collections.Counter({(upmx.spin(c, rot), upmx.turn(d, rot)): n for (c, d), n in doors.items()}) == doors,
                      'open-doors', 'the open doors are not symmetric', rep)
            ck.expect(collections.Counter({(upmx.spin(a, rot), upmx.spin(b, rot)): n for (a, b), n in links.items()}) == links,
                      'links', 'the links are not symmetric', rep)

    upmx.explore(ck, ['Bend', 'Shifted', 'Tower'] if ck.thorough else ['Bend', 'Shifted'], upmx.STARTS, (2, 4, 1), 3 if ck.thorough else 2, inv,
                 max_states=12000 if ck.thorough else 10 ** 6)
    rendering(ck)
    themes.run(ck, themes.symmetric(ck))


def rendering(ck):
    from redeclipse import prefabs as p
    from redeclipse.prefabs import castle, egypt
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import CoarseVector
    from redeclipse.voxel import VoxelWorld

    class Sink:
        def __init__(self):
            self.ents = []

    plain = [p.Room, p.Corridor2way, p.Corridor4way, p.Stair, p.JumpCorridor3, p.SpawnRoom, p.FlatSpace, p.MultiPlatform, p.NLongCorridor,
             castle.castle_gate_simple, castle.castle_wall_entry]
    more = [p.CrossingWalkways, p.PlusPlatform, castle.castle_gate, castle.castle_wall_section_tjoint, castle.castle_wall_corner, egypt.stair]
    lit = ('Room', 'Corridor2way', 'Stair', 'SpawnRoom', 'castle_wall_corner')

    def one(job):
        cls, mirror, pos, ori = job
        upm = UnusedPositionManager(2 ** 8, mirror=mirror)
        room = cls(pos=CoarseVector(*pos), orientation=CoarseVector(*ori))
        if not upm.preregister_room(room):
            ck.outcome('does not fit')
            return
        upm.register_room(room)
        world, sink = VoxelWorld(2 ** 8), Sink()
        with harness.controlled(harness.ScalarController(lambda: 0.5)):
            for r in upm.rooms:
                r.render(world, sink)
        rep = {'room': cls.__name__, 'mirror': mirror, 'pos': pos, 'orientation': ori}
        vox = {tuple(float(q) for q in k): tuple(v.texture) for k, v in world.world.items()}
        ck.expect(vox, 'render:empty', 'nothing was rendered', rep)
        for rot in upmx.ROTS[mirror]:
            moved = {vspin(k, rot): v for k, v in vox.items()}
            ck.expect(moved == vox, 'render', lambda: '%s: rendered voxels are not symmetric under %d degrees, e.g. %r' % (
                cls.__name__, rot, sorted(set(moved.items()) ^ set(vox.items()))[:2]), rep)
            if cls.__name__ in lit:
                ents = collections.Counter((type(e).__name__, e.o.x, e.o.y, e.o.z) for e in sink.ents)
                mv = collections.Counter((type(e).__name__,) + espin((e.o.x, e.o.y, e.o.z), rot) for e in sink.ents)
                ck.expect(ents == mv, 'render:entities', lambda: '%s: entities are not symmetric: %r' % (cls.__name__, list((mv - ents))[:2]), rep)
        ck.state((cls.__name__, mirror, pos, ori))
        ck.step(len(vox))
        ck.trace()
        ck.outcome('rendered')

    poss = [(8, 9, 3), (18, 12, 4)] + ([(3, 27, 0), (16, 21, 6), (24, 4, 20)] if ck.thorough else [])
    ck.parallel(one, itertools.product(plain + (more if ck.thorough else []), (2, 4), poss, (E_, N_, W_, S_)))
