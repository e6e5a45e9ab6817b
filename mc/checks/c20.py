"""C20: what a room renders stays inside the cells it claims (so it cannot run into its
neighbours), and its entities stay within the room."""
from mc import harness, rooms, upmx


def run(ck):
    answers = [(a, b) for a in (0.5, 0.0, 0.99) for b in (0.5, 0.0, 0.999)]
    if ck.thorough:
        answers = [(a, b) for a in (0.5, 0.0, 0.04, 0.2, 0.65, 0.95, 0.9999) for b in (0.0, 0.2, 0.4, 0.5, 0.6, 0.8, 0.999)]

    def examine(label, room, vox, ents, rep):
        cells = set(rooms.cells_of(room))
        out = [c for c in vox if tuple(q // 8 for q in c) not in cells]
        base = tuple(8 * q for q in rooms.centre(room))
        ck.expect(not out, 'voxels:' + label, lambda: '%d voxels of %s lie outside of its cells, e.g. %r' % (
            len(out), label, sorted(upmx.sub(c, base) for c in out)[:3]), rep)
        ck.expect(vox or rep.get('random') != (0.5, 0.5), 'empty:' + label, 'nothing is rendered', rep)
        lo = [min(c[i] for c in cells) * 8 for i in range(3)]
        hi = [max(c[i] for c in cells) * 8 + 8 for i in range(3)]
        for e in ents if not label.startswith('harness:') else []:
            p = rooms.epos(e)
            ck.expect(all(a <= q <= b for q, a, b in zip(p, lo, hi)), 'entity:%s:%s' % (label, type(e).__name__), lambda: '%s of %s at %r, outside of the room' % (
                type(e).__name__, label, upmx.sub(p, base)), rep)
        ck.step()

    def one(job):
        label, cls, flags = job
        kinds = set()
        for ori in upmx.DIRS:
            for pos in ((16, 16, 8),) + (((4, 27, 0),) if ck.thorough else ()):
                drawn = True
                for u in answers:
                    if not drawn and len(kinds) == len(upmx.DIRS):
                        break
                    rep = {'room': label, 'flags': flags, 'pos': pos, 'orientation': ori, 'random': u}
                    room = rooms.make(cls, pos, ori, flags)
                    ctl = rooms.Split(*u)
                    ok, r = ck.guard('render:' + label, lambda: rooms.render(room, ctl), rep)
                    if not ok:
                        return
                    ck.state((label, flags, pos, ori, u))
                    examine(label, room, *r, rep)
                    if not ctl.draws:
                        break           # not random at all
        ck.trace()

    def dig(job):
        """Every single deviation from the default random answers (two, thoroughly)."""
        label, cls, flags, bound, cap = job
        for ctl, (room, r) in harness.explore(lambda ctl: draw(cls, flags, ctl), bound, cap=cap):
            examine(label, room, *r, {'room': label, 'flags': flags, 'answers': ctl.taken})
            ck.state((label, flags, tuple(ctl.taken)))

    def draw(cls, flags, ctl):
        room = rooms.make(cls, (16, 16, 8), (0, 1, 0), flags)
        return room, rooms.render(room, ctl)

    jobs = [(label, cls, flags) for label, cls in rooms.all_rooms() + rooms.extra_rooms() + rooms.model_rooms(ck.path) for flags in rooms.flag_sets(cls)]
    ck.extra['room_variants'] = len(jobs)
    ck.parallel(one, jobs)
    ran = [(label, cls, flags) for label, cls, flags in jobs if label in (':ImposingBlockRoom', ':PoleRoom', 'spacestation:station_endcap')]
    ck.parallel(dig, [j + ((2, 4000) if ck.thorough else (1, 60)) for j in ran])
