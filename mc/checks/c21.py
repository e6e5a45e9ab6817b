"""C21: doorways are well formed: each leads horizontally out of a cell of the room into a
neighbouring cell that the room does not occupy, and there is an opening in the wall."""
from mc import rooms, upmx


def opening(vox, c, d):
    """Is there a gap (one wide, two high) in the voxels next to the face of cell c?"""
    ax = 0 if d[0] else 1
    p = [8 * q for q in c]
    if d[ax] > 0:
        p[ax] += 7
    for u in range(8):
        for z in range(7):
            a = list(p)
            a[1 - ax] += u
            a[2] += z
            b = list(a)
            b[2] += 1
            if tuple(a) not in vox and tuple(b) not in vox:
                return True
    return False


def run(ck):
    def one(job):
        label, cls, flags = job
        for pos in ((16, 16, 8), (5, 25, 0)) if ck.thorough else ((16, 16, 8),):
            for ori in upmx.DIRS:
                rep = {'room': label, 'flags': flags, 'orientation': ori, 'pos': pos}
                ok, room = ck.guard('make:' + label, lambda: rooms.make(cls, pos, ori, flags), rep)
                if not ok:
                    return
                ok, (cells, doors) = ck.guard('shape:' + label, lambda: upmx.shape(room), rep)
                if not ok:
                    return
                # asked for in the other order, of a room that has not told its cells yet
                fresh = rooms.make(cls, pos, ori, flags)
                ok, first = ck.guard('doors-first:' + label, lambda: [(upmx.cell(d['offset']), upmx.cell(d['orientation'])) for d in fresh.get_doorways()], rep)
                if ok:
                    ck.expect(sorted(first) == sorted(doors) and sorted(rooms.cells_of(fresh)) == sorted(cells), 'order:' + label,
                              'asking for the doorways before the cells gives others', rep)
                vox, _ = rooms.render(room, 0.5)
                cen = rooms.centre(room)
                ck.state((label, flags, ori, pos))
                ck.expect(cells and len(set(cells)) == len(cells), 'cells:' + label, 'no cells, or repeated cells', rep)
                ck.expect(doors and len(set(doors)) == len(doors), 'doors:' + label, 'no doors, or repeated doors', rep)
                for c, d in doors:
                    ck.step()
                    # identified in the frame of a room facing east, so that the same
                    # door is the same finding in every orientation
                    back = {(1, 0, 0): 0, (0, 1, 0): 270, (-1, 0, 0): 180, (0, -1, 0): 90}[ori]
                    key = '%s:%s' % (label, ','.join(map(str, upmx.turn(upmx.sub(c, cen), back))))
                    ck.expect(d in upmx.DIRS, 'direction:' + key, lambda: 'a door faces %r' % (d,), rep)
                    ck.expect(c not in cells, 'inside:' + key, 'a door leads into the room itself', rep)
                    own = upmx.sub(c, d)
                    if ck.expect(own in cells, 'nowhere:' + key, lambda: 'door of %s at %r facing %r does not lead out of a cell of the room' % (
                            label, upmx.sub(c, cen), d), rep) and d in upmx.DIRS and not label.startswith(':Test'):
                        ck.expect(opening(vox, own, d), 'walled:' + key, lambda: 'door of %s at %r is walled up' % (label, upmx.sub(c, cen)), rep)
        ck.trace()

    jobs = [(label, cls, flags) for label, cls in rooms.all_rooms() + rooms.model_rooms(ck.path) for flags in rooms.flag_sets(cls)]
    ck.extra['room_variants'] = len(jobs)
    ck.parallel(one, jobs)
