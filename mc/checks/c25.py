"""C25: the world effects touch exactly what they announce: decay removes the voxels whose
draw exceeds their probability, growth and grid only fill empty cells, boxes are exactly the
shell or the edges, end caps fill exactly the cells of the open doors."""
import itertools

from mc import harness, rooms, upmx


class Drawn(harness.ScalarController):
    """Answers each draw from a function of the draw's number."""

    def __init__(self, fn):
        super().__init__(self.next)
        self.fn = fn
        self.given = []

    def next(self):
        v = self.fn(len(self.given))
        self.given.append(v)
        return v


def run(ck):
    from redeclipse import aftereffects as ae
    from redeclipse.objects import cube
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import FineVector
    from redeclipse.voxel import VoxelWorld

    def fill(size, cells, vec=False):
        w = VoxelWorld(size=size)
        for i, c in enumerate(cells):
            v = cube.newtexcube(tex=3 + i % 5)
            if vec:
                w.set_pointv(FineVector(*c), v)
            else:
                w.set_point(c[0], c[1], c[2], v)
        return w

    def cells(w):
        return {tuple(int(q) for q in k): v for k, v in w.world.items()}

    def solid(c):
        return len(set(c.texture)) == 1 and c.texture[0] >= 2 and not c.children and c.octsav == 2 | 0 or c.octsav == cube.newtexcube(tex=2).octsav

    PF = (0.5, 1.0, 0.0, 0.3)

    def chance(w, key, effect, pick, rep, before):
        """One run of decay/growth: pair the draws with the cells asked for. Returns the
        cells whose draw exceeded their probability, or None."""
        asked = []

        def pf(x, y, z):
            asked.append((x, y, z))
            return PF[(x + 2 * y + z) % 4]
        ctl = Drawn(pick)
        with harness.controlled(ctl):
            ok, _ = ck.guard(key, lambda: effect(w, pf), rep)
        if not ok:
            return None
        ck.step()
        if not ck.expect(len(asked) == len(ctl.given) and len(set(asked)) == len(asked), 'asked:' + key, lambda: '%d draws for %d cells (%d distinct)' % (
                len(ctl.given), len(asked), len(set(asked))), rep):
            return None
        return {c: d > PF[(c[0] + 2 * c[1] + c[2]) % 4] for c, d in zip(asked, ctl.given)}

    def decay(size, old, pick, rep):
        w = fill(size, old)
        before = cells(w)
        hit = chance(w, 'decay', ae.decay, pick, rep, before)
        if hit is None:
            return
        now = cells(w)
        inside = [c for c in before if all(0 <= q < size for q in c)]
        ck.expect(all(c in hit for c in inside), 'decay:skipped', lambda: 'no chance was drawn for %r' % [c for c in inside if c not in hit][:3], rep)
        gone = set(before) - set(now)
        ck.expect(gone == {c for c in before if hit.get(c)}, 'decay:wrong', lambda: 'removed %r, should be %r' % (sorted(gone), sorted(c for c in before if hit.get(c))), rep)
        ck.expect(all(before.get(c) is v for c, v in now.items()), 'decay:changed', 'decay added or changed voxels', rep)

    def growth(size, old, pick, rep):
        w = fill(size, old)
        before, zmax = cells(w), w.zmax
        hit = chance(w, 'growth', ae.growth, pick, rep, before)
        if hit is None:
            return
        now = cells(w)
        ck.expect(all(now.get(c) is v for c, v in before.items()), 'growth:changed', 'growth changed or removed voxels', rep)
        new = set(now) - set(before)
        ck.expect(new == {c for c, h in hit.items() if h and c not in before}, 'growth:wrong', lambda: 'grew %r' % sorted(new)[:5], rep)
        ck.expect(all(solid(now[c]) for c in new), 'growth:solid', 'grown voxels are solid', rep)
        # every empty cell below the top gets its chance, none outside of the world or above does
        need = {c for c in itertools.product(range(size), range(size), range(int(zmax))) if c not in before}
        may = set(itertools.product(range(size), range(size), range(int(zmax) + 1)))
        ck.expect(need <= set(hit) and {c for c in hit if c not in before} <= may, 'growth:region', lambda: 'never asked: %r; asked outside: %r' % (
            sorted(need - set(hit))[:3], sorted(set(hit) - may)[:3]), rep)

    # all worlds of 2x2x2 cells, all outcomes of all draws
    two = list(itertools.product((0, 1), repeat=3))

    def small(n):
        old = [c for i, c in enumerate(two) if n >> i & 1]
        for bits in range(0, 256, 1 if ck.thorough else 7 if n % 5 else 1):
            pick = lambda i: (0.9, 0.1)[bits >> (i % 8) & 1]        # noqa: E731
            rep = {'voxels': old, 'outcomes': bits}
            ck.state(('small', n, bits))
            decay(2, old, pick, rep)
            growth(2, old, pick, rep)
        ck.trace()
    ck.parallel(small, range(256))

    # larger worlds, mixed heights, probabilities and draws, voxels outside of the world
    shapes = [
        [(0, 0, 0)], [(3, 2, 0)], [(0, 0, 3)], [(1, 3, 2), (2, 2, 5), (6, 6, 6)], [(7, 7, 7), (0, 7, 1)], [(8, 0, 2), (-1, 3, 1), (2, 2, 9), (4, 4, 4)],
        [(x, y, z) for x in range(8) for y in range(8) for z in range(3) if (x + y + z) % 2], list(itertools.product(range(4), repeat=3)), []]
    for size in (4, 8):
        for old in shapes:
            for k in range(16 if ck.thorough else 6):
                pick = lambda i: (0.999, 0.0001, 0.4, 0.6, 0.2, 0.45)[(i * (k + 1) + i // 5 + k) % 6]      # noqa: E731
                rep = {'size': size, 'voxels': old[:20], 'draws': k}
                ck.state(('large', size, tuple(old), k))
                if not any(q < 0 for c in old for q in c):
                    growth(size, old, pick, rep)
                decay(size, old, pick, rep)

    # grids
    def grids(step):
        for size in (4, 8, 10):
            for old in shapes:
                if any(q < 0 for c in old for q in c):
                    continue
                w = fill(size, old)
                before, zmax = cells(w), int(w.zmax)
                rep = {'size': size, 'grid': step, 'voxels': old[:20]}
                ok, _ = ck.guard('grid', lambda: ae.grid(w, size=step), rep)
                if not ok:
                    continue
                now = cells(w)
                ck.expect(all(now.get(c) is v for c, v in before.items()), 'grid:changed', 'the grid changed or removed voxels', rep)
                new = set(now) - set(before)
                lines = {c for c in itertools.product(range(size), range(size), range(zmax + 1)) if sum(q % step == 0 for q in c) >= 2 and c not in before}
                ck.expect(new <= lines and {c for c in lines if c[2] < zmax} <= new, 'grid:wrong', lambda: 'missing %r, surplus %r' % (
                    sorted(c for c in lines - new if c[2] < zmax)[:3], sorted(new - lines)[:3]), rep)
                ck.expect(all(solid(now[c]) for c in new), 'grid:solid', 'grid voxels are solid', rep)
                ck.state(('grid', size, step, tuple(old)))
                ck.step()
    ck.parallel(grids, range(1, 12))

    # boxes
    def boxes(size):
        for height in [None] + list(range(1, size + 1)):
            for old in shapes:
                for name, least in (('box', 1), ('box_outline', 2)):
                    w = fill(size, old)
                    before = cells(w)
                    rep = {'size': size, 'height': height, 'effect': name, 'voxels': old[:20]}
                    ok, _ = ck.guard(name, lambda: getattr(ae, name)(w, height) if height else getattr(ae, name)(w), rep)
                    if not ok:
                        continue
                    now = cells(w)
                    shell = {c for c in itertools.product(range(size), range(size), range(height or size))
                             if sum((q == 0) + (q == size - 1) for q in c) >= least}
                    new = {c for c, v in now.items() if before.get(c) is not v}
                    ck.expect(set(now) == set(before) | shell and new <= shell, name + ':wrong', lambda: 'missing %r, surplus %r' % (
                        sorted(shell - set(now))[:3], sorted((set(now) - set(before) - shell) | (new - shell))[:3]), rep)
                    ck.expect(all(solid(now[c]) for c in shell if c in now), name + ':solid', 'box voxels are solid', rep)
                    ck.state((name, size, height, tuple(old)))
                    ck.step()
    ck.parallel(boxes, (1, 2, 3, 4, 8, 10) + ((16, 20) if ck.thorough else ()))

    # end caps of real placements, and of positions given in voxels
    lib = dict(rooms.all_rooms())

    def caps(label):
        cls = lib[label]
        for pos in ((4, 4, 2), (3, 9, 0)):
            for ori in upmx.DIRS:
                for mirror in (1, 2, 4):
                    upm = UnusedPositionManager(2 ** 8, mirror=mirror)
                    room = rooms.make(cls, pos, ori)
                    if not upm.preregister_room(room):
                        continue
                    upm.register_room(room)
                    old = [(8 * pos[0] + 1, 8 * pos[1] + 2, 8 * pos[2]), (0, 0, 0), (250, 3, 200)]
                    # voxels that already stand in the cells of doors: corners, insides, a whole floor
                    for i, d in enumerate(upm.unoccupied):
                        base = tuple(8 * q for q in upmx.cell(d[0]))
                        there = ([(0, 0, 0)], [(7, 7, 7)], [(3, 4, 5), (0, 7, 0)], [(a, b, 0) for a in range(8) for b in range(8)], [])[i % 5]
                        old += [tuple(a + b for a, b in zip(base, o)) for o in there]
                    w = fill(256, old)
                    before = cells(w)
                    rep = {'room': label, 'pos': pos, 'orientation': ori, 'mirror': mirror}
                    ok, _ = ck.guard('endcap', lambda: ae.endcap(w, upm), rep)
                    if not ok:
                        continue
                    now = cells(w)
                    want = {tuple(8 * a + b for a, b in zip(upmx.cell(d[0]), o)) for d in upm.unoccupied for o in itertools.product(range(8), repeat=3)}
                    ck.expect(set(now) == set(before) | want and all(now[c] is v for c, v in before.items() if c not in want), 'endcap:wrong', lambda: 'missing %r, surplus %r' % (
                        sorted(want - set(now))[:3], sorted(set(now) - want - set(before))[:3]), rep)
                    ck.expect(all(solid(now[c]) for c in want if c in now), 'endcap:solid', 'end caps are solid', rep)
                    ck.state(('endcap', label, pos, ori, mirror))
                    ck.step()
    ck.parallel(caps, (':Room', ':Corridor2way', ':AltarRoom', ':JumpCorridorVertical', ':NLongCorridor', 'castle:castle_large', ':CrossingWalkways', 'egypt:gate'))

    # on rendered rooms (whose voxel coordinates come from vector arithmetic)
    def rendered(job):
        label, cls = job
        room = rooms.make(cls, (5, 5, 0), (0, 1, 0))
        w = VoxelWorld(size=88)
        with harness.controlled(rooms.Split(.5, .5)):
            room.render(w, rooms.Sink())
        before = cells(w)
        if max((c[2] for c in before), default=0) > (80 if ck.thorough else 8):
            return
        rep = {'room': label}
        ok, _ = ck.guard('room-grid', lambda: ae.grid(w, 24), rep)
        ck.expect(all(cells(w).get(c) is v for c, v in before.items()), 'room:grid', 'the grid changed or removed voxels of a room', rep)
        b2 = cells(w)
        with harness.controlled(harness.ScalarController(lambda: 0.5)):
            ok, _ = ck.guard('room-decay', lambda: ae.decay(w, lambda x, y, z: 0 if (x + y + z) % 3 == 0 else 1), rep)
        if ok:
            keep = {c for c in b2 if sum(c) % 3 or not all(0 <= q < 88 for q in c)}
            ck.expect(set(cells(w)) == keep, 'room:decay', lambda: '%d voxels left, expected %d' % (len(w.world), len(keep)), rep)
        ck.state(('room', label))
        ck.step()
    ck.parallel(rendered, rooms.all_rooms())

    # the gradients that control decay and growth
    zs = range(0, 4097) if ck.thorough else range(0, 1025)
    for name, fn, top in (('vertical_gradient', ae.vertical_gradient, 256), ('gradient3', ae.gradient3, None), ('vertical_gradient2', ae.vertical_gradient2, None)):
        last = None
        for z in zs:
            v = fn(0, 0, z)
            ck.expect(all(fn(x, y, z) == v for x, y in ((255, 0), (3, 77), (0, 255))), 'gradient:plane:' + name, lambda: '%s differs within the plane z=%d' % (name, z))
            ck.expect(last is None or v <= last, 'gradient:order:' + name, lambda: '%s rises at z=%d' % (name, z))
            ck.expect(top and z > top or 0 <= v <= 1, 'gradient:range:' + name, lambda: '%s(z=%d) = %r' % (name, z, v))
            last = v
            ck.step()
        ck.expect(fn(0, 0, 0) == 1, 'gradient:zero:' + name, lambda: '%s is %r at z=0' % (name, fn(0, 0, 0)))
        ck.state(name)
    for z in zs:
        ck.expect(abs(ae.vertical_gradient2(1, 2, z) + ae.vertical_gradient2inv(1, 2, z) - 1) < 1e-12, 'gradient:inverse', lambda: 'not the inverse at z=%d' % z)
    for slope in (1, 2, 64, 256, 1000):
        ck.expect(ae.vertical_gradient(0, 0, slope, slope) == 0 and abs(ae.vertical_gradient(0, 0, slope / 2, slope) - .5) < 1e-12, 'gradient:slope', lambda: 'slope %d' % slope)
