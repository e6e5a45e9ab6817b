"""C16: end caps close every open door that a cap fits, never touch what is already
placed, and never open new doors."""
import collections
import itertools

from mc import harness, themes, upmx
from mc.upmx import E_


def run(ck):
    import copy
    from redeclipse.upm import UnusedPositionManager  # noqa
    cat = upmx.catalogue()
    capsets = [['Cap'], ['LongCap', 'TallCap', 'Cap'], ['LongCap'], ['Line3', 'HookCap']]

    def inv(upm, model, hist, extra):
        for caps in capsets:
            classes = [cat[c] for c in caps]

            def execute(ctl):
                u = copy.deepcopy(upm)
                with ck.limit(60):
                    u.endcap(possible_endcaps=list(classes))
                return u
            for ctl, u in harness.explore(execute, 1 if len(caps) > 1 and len(hist) <= (4 if ck.thorough else 2) else 0):
                judge(dict(upmx.where(hist), caps=caps, choices=ctl.taken), upm, u, classes, model)
        u = copy.deepcopy(upm)
        u.endcap(debug=True)
        rep = dict(upmx.where(hist), caps='debug')
        judge(rep, upm, u, None, model)

    def judge(rep, old, new, classes, model):
        ck.step()
        a, b = upmx.snapshot(old), upmx.snapshot(new)
        n = len(a['rooms'])
        ck.expect(b['rooms'][:n] == a['rooms'], 'rooms-changed', 'end caps changed the rooms that were there', rep)
        ck.expect(b['links'] == a['links'], 'links-changed', 'end caps changed the links', rep)
        occ0 = {c for k in model.copies for c in k.cells}
        occ = set(occ0)
        opened = {(c, d) for c, _, d in model.open_doors()}
        for kind, ori, cells, doors in b['rooms'][n:]:
            ck.expect(all(upmx.legal(c) for c in cells), 'outside', 'an end cap lies outside of the map', rep)
            ck.expect(not occ & set(cells) and len(set(cells)) == len(cells), 'overlap', 'an end cap overlaps %r' % sorted(occ & set(cells))[:2], rep)
            occ |= set(cells)
            if classes is None:
                ck.expect(len(cells) == 1 and any(c == cells[0] for c, _ in opened), 'stray', 'a debug cap where no door was open', rep)
            else:
                ck.expect(any(c in cells and (upmx.sub(c, d), upmx.neg(d)) in doors for c, d in opened), 'stray',
                          lambda: 'end cap %s at %r does not face any open door' % (kind, cells), rep)
        ck.expect({c for c, _ in b['occupied']} == occ and len(b['occupied']) == len(occ), 'table', 'occupancy table after end caps', rep)
        left = {(c, d) for c, d in opened if c not in occ}
        if classes is None:
            ck.expect(not left, 'debug-open', lambda: 'open doors without a debug cap: %r' % sorted(left)[:2], rep)
            return
        # the open list is exact again, and no cap opened a new way
        ck.expect({(c, d) for c, _, d in b['open']} == left, 'open-list', lambda: 'open doors after end caps: %r expected %r' % (
            sorted({(c, d) for c, _, d in b['open']})[:3], sorted(left)[:3]), rep)
        for c, d in left:
            hit = fits(classes, c, d, occ)
            ck.expect(hit is None, 'uncapped', lambda: 'door %r stays open although %s fits' % ((c, d), hit), rep)
        ck.outcome('all closed' if not left else 'some cannot be closed')
        ck.state((tuple(c.__name__ for c in classes), b['rooms']))

    def fits(classes, c, d, occ):
        from redeclipse.vector import CoarseVector
        for cls in classes:
            for od in upmx.DIRS:
                cells, doors = upmx.shape(cls(pos=CoarseVector(0, 0, 0), orientation=CoarseVector(*od)))
                for (dc, dd) in doors:
                    if dd == upmx.neg(d):
                        shift = upmx.sub(upmx.sub(c, d), dc)
                        moved = [upmx.add(q, shift) for q in cells]
                        if all(upmx.legal(q) and q not in occ for q in moved):
                            return cls.__name__
        return None

    starts = upmx.STARTS + [('Tower', (30, 1, 28), E_), ('CrossingWalkways', (2, 29, 1), E_)]
    upmx.explore(ck, ['Bend', 'Tower'], starts, (1, 2, 4), 1, inv, max_states=10 ** 6)
    if ck.thorough:
        upmx.explore(ck, ['Bend', 'Dot'], starts, (1, 2, 4), 2, inv, max_states=10 ** 6)
    else:
        upmx.explore(ck, ['Bend', 'Dot'], [('Dot', (8, 8, 3), E_), ('Long', (1, 30, 31), E_)], (1, 2), 2, inv, max_states=10 ** 6)
    real(ck, judge)
    themes.run(ck, themes.capped(ck), caps=True)
    ck.sample({'cap sets': capsets})


def real(ck, judge):
    """The castle rooms with the end caps that the command line tool uses."""
    from redeclipse.prefabs import castle, spacestation
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import CoarseVector
    import copy
    jobs = [(m, s, pos, caps) for m in (1, 2) for pos in ((8, 8, 3), (2, 2, 30))
            for s in (castle.castle_gate_simple, castle.castle_wall_section_tjoint, spacestation.station_tubeX)
            for caps in ([castle.castle_wall_end_cliff, castle.castle_wall_section_endcap], [spacestation.station_endcap])]

    def one(job):
        mirror, cls, pos, caps = job
        upm = UnusedPositionManager(2 ** 8, mirror=mirror)
        room = cls(pos=CoarseVector(*pos))
        model = upmx.Model(mirror)
        if not model.admits(room):
            return
        upm.register_room(room)
        model.register(room)
        for ctl, u in harness.explore(lambda ctl: (lambda w: (w.endcap(possible_endcaps=list(caps)), w)[1])(copy.deepcopy(upm)), 1):
            judge({'start': cls.__name__, 'pos': pos, 'mirror': mirror, 'choices': ctl.taken}, upm, u, caps, model)

    ck.parallel(one, jobs)
