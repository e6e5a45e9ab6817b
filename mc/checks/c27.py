"""C27: whole runs of the map generator are reproducible: the same arguments give the same
map, files and graph in every process; omitted arguments mean their documented defaults;
arguments that are not about the layout do not change it."""
import itertools
import os

from mc import e2e, harness

MAP = os.path.join(harness.REPO, 'maps', 'empty-day.mpz')
LAYOUT = ('size', 'voxelhash', 'atlas', 'ents', 'rooms', 'links', 'linkrooms', 'open')


def run(ck):
    import redeclipse.worldflavors as wf
    flav = list(wf.choices)
    hashes = (0, 4711) if not ck.thorough else (0, 1, 2, 3, 4711, 99999)

    def argv(cfg, outs):
        a = [MAP]
        for k, v in cfg:
            if v is True:
                a += ['--' + k]
            elif isinstance(v, (list, tuple)):
                a += ['--' + k] + list(v)
            else:
                a += ['--' + k, v]
        for o in outs:
            a += {'mpz': ['--mpz_out', 'o.mpz'], 'vox': ['--magica', 'o.vox'], 'json': ['--graph', 'o.json'], 'placement': []}[o]
        return a

    def once(job):
        n, cfg, outs, hs, junk = job
        rep = {'arguments': argv(cfg, outs), 'PYTHONHASHSEED': hs, 'allocations': junk}
        r, err = e2e.run(ck, 'r%d' % n, argv(cfg, outs), hs, junk, layout='placement' in outs, seconds=1500 if ck.thorough else 300)
        ck.step()
        if not ck.expect(r is not None, 'run', lambda: '%s: %s' % (' '.join(map(str, argv(cfg, outs)[1:])), err), rep):
            return
        r.pop('voxels'), r.pop('dir')
        import json
        with open(ck.path('res-%d.json' % n), 'w') as h:
            json.dump(r, h)
        ck.state(('run', cfg, outs, hs, junk))
        ck.trace()

    groups = []       # (what, [(cfg, outs, hash, junk)], keys)  - all of a group must agree
    base = [(('rooms', 12), ('seed', s), ('mirror', m)) + extra for s, m, extra in (
        (1, 1, ()), (1, 2, (('ctf', True),)), (1, 4, (('debug', True),)), (42, 1, (('ctf', True),)), (42, 2, ()), (42, 4, ()), (1, 2, ()))]
    if ck.thorough:
        base = [(('rooms', r), ('seed', s), ('mirror', m)) + extra for r in (1, 12, 30) for s in range(3) for m in (1, 2, 4) for extra in (
            (), (('ctf', True),), (('debug', True),), (('ctf', True), ('debug', True)))]
    if ck.thorough:
        base += [(('rooms', 200), ('seed', s), ('mirror', m)) for s, m in ((1, 2), (2, 4))]
    for c in base:
        groups.append(('reproducible', [(c, ('vox', 'json'), h, 1000 * i * i) for i, h in enumerate(hashes if len(base) < 50 or dict(c)['rooms'] == 1 else hashes[1:5:3])], None))
    # with the map file
    full = [(('rooms', r), ('seed', 3), ('mirror', m)) + x for r, m, x in ((4, 2, ()), (2, 4, (('ctf', True), ('flavor', ('maliwan',)))))]
    if ck.thorough:
        full += [(('rooms', r), ('seed', s), ('mirror', m)) for r in (8, 40) for s in (3, 4) for m in (1, 2, 4)]
    for c in full:
        groups.append(('reproducible', [(c, ('mpz', 'vox', 'json'), h, 100 * i) for i, h in enumerate(hashes[:2])], None))
        groups.append(('independent of the requested outputs', [(c, ('mpz', 'vox', 'json'), hashes[0], 0), (c, (), hashes[1], 0), (c, ('json',), hashes[1], 0)], LAYOUT + ('cfg_extra', 'vars')))
    # defaults
    d = (('rooms', 6), ('seed', 42), ('mirror', 2), ('size', 256))
    groups.append(('defaults', [(d, ('vox',), 0, 0)] + [(tuple(q for q in d if q[0] != k), ('vox',), 0, 0) for k in ('seed', 'mirror', 'size')] +
                   [((('rooms', 6),), ('vox',), 0, 0)], None))
    # placement alone (nothing drawn): full-size maps, and the same rooms as in whole runs
    PL = ('placement',)
    for s in range(3) if not ck.thorough else range(60):
        for m in (1, 2, 4):
            for x in ((), (('ctf', True),), (('debug', True),)):
                c = (('seed', s), ('mirror', m)) + x
                groups.append(('reproducible', [(c, PL, h, 500 * i) for i, h in enumerate(hashes[:3] if ck.thorough else hashes)], None))
    for c in base[:6] if not ck.thorough else base[::7]:
        groups.append(('placement', [(c, ('vox', 'json'), hashes[0], 0), (c, PL, hashes[0], 0)], ('size', 'rooms', 'links', 'linkrooms', 'open', 'cfg_extra', 'vars')))
    d = (('rooms', 200), ('seed', 42), ('mirror', 2), ('size', 256))
    groups.append(('defaults', [(d, PL, 0, 0), ((), PL, 0, 0)] + [(tuple(q for q in d if q[0] != k), PL, 0, 0) for k, _ in d], None))
    if ck.thorough:
        groups.append(('defaults', [((('rooms', 200),), ('vox', 'json'), 0, 0), ((), ('vox', 'json'), 1, 0)], None))
    # flavours change nothing but the configuration
    fl = [()] + [(f,) for f in flav] + ([tuple(p) for p in itertools.permutations(flav, 2)] if ck.thorough else [tuple(flav)])
    groups.append(('independent of flavours', [((('rooms', 4), ('seed', 5)) + ((('flavor', f),) if f else ()), ('vox',), 0, 0) for f in fl], LAYOUT + ('vars', 'files')))
    jobs, seen = [], {}
    for _, runs, _ in groups:
        for r in runs:
            if r not in seen:
                seen[r] = len(jobs)
                jobs.append((len(jobs),) + r)
    order = sorted(jobs, key=lambda j: ('mpz' not in j[2], j[0]))
    ck.parallel(once, order)
    import json
    res = {}
    for j in jobs:
        p = ck.path('res-%d.json' % j[0])
        if os.path.exists(p):
            with open(p) as h:
                res[j[0]] = json.load(h)
    for what, runs, keys in groups:
        have = [(r, res[seen[r]]) for r in runs if seen[r] in res]
        for (ra, a), (rb, b) in zip(have, have[1:]):
            for k in keys or sorted(a):
                ck.expect(a[k] == b[k], '%s:%s' % (what.split()[0], k), lambda: '%s: %s differs: %s (hash seed %s) and %s (hash seed %s): %r, %r' % (
                    what, k, argv(*ra[:2])[1:], ra[2], argv(*rb[:2])[1:], rb[2], str(a[k])[:150], str(b[k])[:150]), {'runs': [ra, rb]})
                ck.step()
    # the seed is used, and the flavours are there
    layouts = {r[0]: repr(res[seen[r]]['rooms']) for _, runs, _ in groups for r in runs if seen[r] in res}
    for rest in sorted({tuple(q for q in c if q[0] != 'seed') for c in layouts}, key=repr):
        same = [h for c, h in layouts.items() if tuple(q for q in c if q[0] != 'seed') == rest and any(q[0] == 'seed' for q in c)]
        if len(same) >= 2 and dict(rest).get('rooms', 200) >= 12:
            ck.expect(len(set(same)) >= 2, 'seed', lambda: 'every seed gives the same map for %r' % (rest,))
            ck.outcome('seeds compared')
    for c, o, h, j in seen:
        if seen[(c, o, h, j)] in res:
            want = [x for f in dict(c).get('flavor', ()) for x in getattr(wf, f)()]
            ck.expect(res[seen[(c, o, h, j)]]['cfg_extra'] == want, 'flavour', lambda: 'lines for %r' % (c,), {'cfg': c})
    ck.extra['runs'] = len(jobs)
    ck.extra['groups'] = len(groups)
