"""C14: asking whether a room fits changes nothing, and a refused registration leaves no
trace: the manager then behaves as if the attempt had never been made."""
import copy
import itertools

from mc import harness, upmx
from mc.upmx import E_, N_, W_, S_


def run(ck):
    from redeclipse.upm import UnusedPositionManager
    from redeclipse.vector import CoarseVector
    cat = upmx.catalogue()
    attempts = [(n, d, o) for n in ('Dot', 'Bend', 'Tower', 'Shifted') for d in itertools.product((-1, 0, 1), (-1, 0, 1), (0,))
                for o in ((E_, W_) if not ck.thorough else (E_, N_, W_, S_))]

    def inv(upm, model, hist, extra):
        rep = upmx.where(hist)
        before = upmx.snapshot(upm)
        ids = [id(r) for r in upm.rooms]
        anchor = upmx.shape(upm.rooms[-1])[0][0]
        far = [upmx.spin(anchor, r) for r in upmx.ROTS[model.mirror]]
        for (n, d, o) in attempts if len(hist) <= 3 or ck.thorough else attempts[::3]:
            # around the last copy of the newest room: the first copies of the attempted
            # room may well fit before a later one collides
            r = cat[n](pos=CoarseVector(*upmx.add(far[-1], d)), orientation=CoarseVector(*o))
            was = upmx.shape(r), r.pos, r.orientation
            fits = not model.overlaps(r)
            upm.preregister_room(r)
            ck.step()
            if not ck.expect(upmx.snapshot(upm) == before and [id(q) for q in upm.rooms] == ids, 'question-changes-state',
                             lambda: 'preregistration of %s changed the manager' % n, dict(rep, attempt=(n, d, o))):
                return
            ck.expect((upmx.shape(r), r.pos, r.orientation) == was, 'question-moves-room', 'preregistration changed the room', rep)
            if fits:
                continue
            try:
                upm.register_room(r)
                ck.fail('overlap-accepted', 'an overlapping room was accepted', dict(rep, attempt=(n, d, o)))
                return
            except Exception:
                pass
            after = upmx.snapshot(upm)
            ck.outcome('refused')
            if not ck.expect(after == before, 'trace',
                             lambda: 'after a refused registration these differ: %s' % [k for k in after if after[k] != before[k]],
                             dict(rep, attempt=(n, d, o))):
                return
            ck.expect((upmx.shape(r), r.pos, r.orientation) == was, 'refusal-moves-room', 'the refused room was changed', rep)
        # enumerating candidates without registering them is a question, too
        for door in list(upm.unoccupied)[:6]:
            upmx.candidates(upm, [cat['Bend'], cat['Tower']], door)
            ck.expect(upmx.snapshot(upm) == before, 'candidates-change-state', 'enumerating candidates changed the manager', rep)
        # and so is choosing a door
        if upm.unoccupied:
            with harness.controlled(harness.ChoiceController()):
                upm.nonrandom_position(upm.nrp_flavour_plain)
                upm.random_position()
            ck.expect(upmx.snapshot(upm) == before, 'choice-changes-state', 'choosing a door changed the manager', rep)

    upmx.explore(ck, ['Bend', 'Tower'] if ck.thorough else ['Bend'], upmx.STARTS, (1, 2, 4), 3 if ck.thorough else 2, inv, max_states=6000 if ck.thorough else 10 ** 6)

    # self-colliding copies on an empty map: every room near the centre
    def centre(job):
        mirror, n, o = job
        for pos in itertools.product(range(13, 20), range(13, 20), (0, 5)):
            upm = UnusedPositionManager(2 ** 8, mirror=mirror)
            model = upmx.Model(mirror)
            r = cat[n](pos=CoarseVector(*pos), orientation=CoarseVector(*o))
            bad = model.overlaps(r)
            ck.step()
            ck.state((mirror, n, o, pos))
            try:
                upm.register_room(r)
                ok = True
            except Exception:
                ok = False
            ck.expect(ok is not bad, 'centre:' + ('accepted' if ok else 'refused'), '%s at %r' % (n, pos), {'mirror': mirror})
            if not ok:
                s = upmx.snapshot(upm)
                ck.expect(not s['rooms'] and not s['occupied'] and not s['open'] and not s['links'], 'centre:trace',
                          lambda: 'a refused %s at %r left %r' % (n, pos, s), {'mirror': mirror, 'pos': pos, 'orientation': o})

    ck.parallel(centre, itertools.product((1, 2, 4), ('Dot', 'Bend', 'Long', 'Tower'), (E_, N_, W_, S_)))
    # the outcome after refusals equals the outcome without them
    for mirror in (1, 2, 4):
        def build(noise):
            upm = UnusedPositionManager(2 ** 8, mirror=mirror)
            for k in range(3):
                pos = (8 + 2 * k, 9, 4)
                if noise:
                    for q in range(k):
                        try:
                            upm.register_room(cat['Bend'](pos=CoarseVector(8 + 2 * q, 9, 4)))
                        except Exception:
                            pass
                upm.register_room(cat['Dot'](pos=CoarseVector(*pos)))
            return upmx.snapshot(upm)
        ck.expect(build(True) == build(False), 'noise', 'refused attempts changed the final placement', {'mirror': mirror})
    ck.sample({'attempts_per_state': len(attempts)})
