"""C33: the landscape scripts (snow_forest, perlin) deliver the input map with a closed
landscape in place of its geometry, on which everything stands; two runs agree."""
import gzip
import hashlib
import importlib
import os
import shutil
import subprocess
import sys

from mc import harness, mapbuild as mb, mpzref

# argv: repository, this directory, scratch directory, module, input, output
DRIVER = """
import os, runpy, sys
repo, verif, out, module, src, dst = sys.argv[1:]
sys.path[0:0] = [repo, verif]
from mc import harness
os.chdir(out)
harness.Containment([out]).enabled = True
sys.argv = [module, src, dst]
runpy.run_module(module, run_name='__main__')
"""

POLICIES = {
    'seed': None,
    'low': lambda n: 0.0,
    'high': lambda n: 1.0,
    'middle': lambda n: 0.5,
    'turns': lambda n: (0.0, 1.0)[n % 2],
    'threes': lambda n: (0.05, 0.95, 0.4)[n % 3],
    'late': lambda n: 0.0 if n < 40 else 1.0,
}


class Fixed(harness.ScalarController):
    def __init__(self, fn):
        self.n = 0
        self.fn = fn
        super().__init__(self.next)

    def next(self):
        self.n += 1
        return self.fn(self.n - 1)


def columns(world, size):
    """{(x, y): sorted z} of the solid cells."""
    cells = mpzref.solid_cells(world, size)
    cols = {}
    for c in cells:
        if c[0] == 'big':
            _, x, y, z, s = c
            for a in range(s):
                for b in range(s):
                    cols.setdefault((x + a, y + b), []).extend(range(z, z + s))
        else:
            cols.setdefault(c[:2], []).append(c[2])
    for v in cols.values():
        v.sort()
    return cols


def solid_from(zs, top):
    """The uninterrupted solid run which ends below `top`."""
    s = set(zs)
    z = top
    while z - 1 in s:
        z -= 1
    return z


def main_of(module, src, out):
    mod = importlib.import_module('redeclipse.cli.' + module)
    old = sys.argv
    sys.argv = [module, src, out]
    try:
        mod.main()
    finally:
        sys.argv = old


def inputs(ck):
    m = mb.base_model()
    p = ck.path('base.mpz')
    with gzip.open(p, 'wb') as h:
        h.write(mpzref.encode(m))
    return {'day': os.path.join(harness.REPO, 'maps', 'empty-day.mpz'), 'base': p}


def run(ck):
    src = inputs(ck)

    def base_kept(key, a, b, rep):
        """header, variables, textures and the entities which were there"""
        for f in ('magic', 'version', 'headersize', 'gameident', 'vars', 'texmru', 'chg', 'trailer'):
            ck.expect(a[f] == b[f], 'kept:%s:%s' % (key, f), lambda: '%s of the input map changed' % f, rep)
        ck.expect(all(a['meta'][k] == v for k, v in b['meta'].items() if k != 'numents'), 'kept:%s:meta' % key, 'the header of the input map changed', rep)
        n = len(a['ents'])
        ck.expect(b['ents'][:n] == a['ents'], 'kept:%s:ents' % key, 'the entities of the input map changed', rep)
        return b['ents'][n:]

    def get(key, module, inp, policy, rep):
        out = ck.path('%s-%s-%s.mpz' % (module, inp, policy))
        before = open(src[inp], 'rb').read()

        def go():
            if POLICIES[policy] is None:
                main_of(module, src[inp], out)
            else:
                with harness.controlled(Fixed(POLICIES[policy])):
                    main_of(module, src[inp], out)
        ok, _ = ck.guard('run:' + key, go, rep, seconds=400)
        if not ok:
            return None
        ck.expect(open(src[inp], 'rb').read() == before, 'input:' + key, 'the input file was changed', rep)
        ok, b = ck.guard('read:' + key, lambda: mpzref.decode(mpzref.read_file(out)), rep)
        if not ok:
            return None
        return mpzref.decode(mpzref.read_file(src[inp])), b

    def snow(inp, policy):
        key = 'snow_forest:%s' % inp
        rep = {'script': 'snow_forest', 'input': inp, 'answers': policy}
        r = get(key, 'snow_forest', inp, policy, rep)
        if r is None:
            return
        a, b = r
        N = 256
        new = base_kept(key, a, b, rep)
        cols = columns(b['world'], N)
        ck.expect(set(cols) == {(x, y) for x in range(N) for y in range(N)}, 'ground:missing', lambda: 'columns without ground: %r' % (
            sorted({(x, y) for x in range(N) for y in range(N)} - set(cols))[:5]), rep)
        edge = lambda x, y: x in (0, N - 1) or y in (0, N - 1)        # noqa: E731
        inner = {c: zs for c, zs in cols.items() if not edge(*c)}
        run_ = lambda zs: zs[-1] - zs[0] + 1 == len(zs)       # noqa: E731
        ck.expect(all(run_(zs) for zs in cols.values()), 'ground:gap', 'a column has a gap', rep)
        # nothing falls through between two columns
        leak = [(c, d) for c in cols for d in ((c[0] + 1, c[1]), (c[0], c[1] + 1)) if d in cols and (cols[c][0] > cols[d][-1] + 1 or cols[d][0] > cols[c][-1] + 1)]
        ck.expect(not leak, 'ground:leak', lambda: 'open between the columns %r' % leak[:3], rep)
        # no steps that cannot be walked
        step = [(c, d) for c in inner for d in ((c[0] + 1, c[1]), (c[0], c[1] + 1)) if d in inner and abs(inner[c][-1] - inner[d][-1]) > 1]
        ck.expect(not step, 'ground:step', lambda: 'steps at %r' % step[:3], rep)
        # the walls
        for x, y in cols:
            if edge(x, y):
                nx, ny = min(max(x, 1), N - 2), min(max(y, 1), N - 2)
                if (nx, ny) in inner and not ck.expect(cols[x, y][-1] >= inner[nx, ny][-1] + 7 and cols[x, y][0] <= inner[nx, ny][-1] + 1, 'wall', lambda: 'no wall at %r: %r beside the ground %r' % (
                        (x, y), cols[x, y], inner[nx, ny]), rep):
                    break
        # the things
        spawns = [e for e in new if e['type'] == 3]
        models = [e for e in new if e['type'] == 2]
        ck.expect(spawns and models and len(spawns) + len(models) == len(new), 'things:kinds', lambda: 'kinds of things: %r' % sorted({e['type'] for e in new}), rep)
        seen = set()
        for e in new:
            x, y, z = (v / 4 for v in e['pos'])
            if not ck.expect(x == int(x) and y == int(y) and 0 <= x < N and 0 <= y < N and (x, y) in cols, 'things:place', lambda: 'thing at %r' % (e['pos'],), rep):
                continue
            top = inner[x, y][-1] + 1 if not edge(x, y) else None
            rock = e['type'] == 2 and e['attrs'][0] == 122
            if top is None:
                lo, hi = cols[x, y][0], cols[x, y][-1] + 1
            else:
                lo, hi = (top - 5 / 4 if rock else top), top
            ck.expect(lo <= z <= hi, 'things:height', lambda: 'thing %r at height %r, the ground is at %r' % (e, z, (lo, hi)), rep)
            if e['type'] == 3:
                ck.expect(e['attrs'][0] == 0 and 0 <= e['attrs'][1] <= 360, 'spawn:attrs', lambda: 'spawn %r' % (e['attrs'],), rep)
            else:
                at = e['attrs']
                ck.expect(at[0] in (137, 122) and all(0 <= at[i] <= 360 for i in (1, 2, 3)) and at[4] == 0 and 56 <= at[5] <= (300 if rock else 200) and not any(at[6:]), 'model:attrs', lambda: 'model %r' % (at,), rep)
            k = (e['type'], rock, x, y)
            ck.expect(k not in seen, 'things:twice', lambda: 'two things at %r' % (e['pos'],), rep)
            seen.add(k)
        trees = {(e['pos'][0] // 4, e['pos'][1] // 4) for e in models if e['attrs'][0] == 137}
        inside = [e['pos'] for e in spawns if (e['pos'][0] // 4, e['pos'][1] // 4) in trees]
        ck.expect(not inside, 'spawn:tree', lambda: 'spawns in trees: %r' % inside[:3], rep)
        walled = [e['pos'] for e in spawns if edge(e['pos'][0] // 4, e['pos'][1] // 4)]
        ck.expect(not walled, 'spawn:wall', lambda: 'spawns in the wall: %r' % walled[:3], rep)
        return {'cells': hashlib.sha1(repr(sorted(cols.items())).encode()).hexdigest(), 'places': sorted((e['type'], e['pos'][:2]) for e in new)}

    def perlin(inp, policy):
        key = 'perlin:%s' % inp
        rep = {'script': 'perlin', 'input': inp, 'answers': policy}
        r = get(key, 'perlin', inp, policy, rep)
        if r is None:
            return
        a, b = r
        N = 128
        new = base_kept(key, a, b, rep)
        ck.expect(not new, 'perlin:ents', 'entities were added', rep)
        cols = columns(b['world'], N)
        ck.expect(set(cols) == {(x, y) for x in range(N) for y in range(N)}, 'perlin:missing', lambda: 'columns without ground', rep)
        bad = [c for c, zs in cols.items() if zs != list(range(len(zs)))]
        ck.expect(not bad, 'perlin:gap', lambda: 'columns with a gap or floating: %r' % bad[:5], rep)
        if policy == 'high':
            # no chance succeeds: the plain ground
            step = [(c, d) for c in cols for d in ((c[0] + 1, c[1]), (c[0], c[1] + 1)) if d in cols and abs(len(cols[c]) - len(cols[d])) > 1]
            ck.expect(not step, 'perlin:step', lambda: 'steps in the ground: %r' % step[:3], rep)
        return {c: len(zs) for c, zs in cols.items()}

    def whole(job):
        script, inp, policy = job
        out = (snow if script == 'snow_forest' else perlin)(inp, policy)
        ck.state(job)
        ck.step()
        if out is not None:
            ck.trace()
        return out

    def again(job):
        """a process with another hash seed; what it wrote is compared at the end"""
        script, inp, seed = job
        out = ck.path('again-%s-%s-%d' % (script, inp, seed))
        rep = {'script': script, 'input': inp, 'hashseed': seed}
        with ck.containment.trusted():
            os.mkdir(out)
            env = {'PATH': '/usr/bin:/bin', 'LANG': 'C.UTF-8', 'HOME': out, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': str(seed)}
            p = subprocess.run([sys.executable, '-W', 'ignore', '-c', DRIVER, harness.REPO, os.path.dirname(os.path.dirname(os.path.abspath(harness.__file__))), out, 'redeclipse.cli.' + script, src[inp], 'out.mpz'],
                               stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, timeout=400)
            path = os.path.join(out, 'out.mpz')
            if p.returncode == 0 and os.path.exists(path):
                with open(out + '.sum', 'w') as h:
                    h.write(hashlib.sha1(mpzref.read_file(path)).hexdigest())
            shutil.rmtree(out, ignore_errors=True)
        ck.step()
        ck.state(('again',) + job)
        ck.expect(os.path.exists(out + '.sum'), 'again:' + script, lambda: p.stderr.decode(errors='replace')[-500:], rep)

    jobs = [('snow_forest', 'day', p) for p in (POLICIES if ck.thorough else ('seed', 'low', 'high', 'turns'))] + [('snow_forest', 'base', 'threes')]
    jobs += [('perlin', 'day', p) for p in (POLICIES if ck.thorough else ('seed', 'low', 'high', 'turns'))]
    if ck.thorough:
        jobs += [('snow_forest', 'base', p) for p in POLICIES if p != 'threes'] + [('perlin', 'base', p) for p in POLICIES]
    runs = [('snow_forest', 'day'), ('perlin', 'base')]
    jobs += [('again',) + r + (seed,) for r in runs for seed in (1, 4711)]
    jobs.sort(key=lambda j: ('perlin' not in j, j[0] != 'again', j))        # the long ones first
    ck.parallel(lambda j: again(j[1:]) if j[0] == 'again' else whole(j), jobs)
    for r in runs:
        sums = [ck.path('again-%s-%s-%d.sum' % (r + (seed,))) for seed in (1, 4711)]
        if all(os.path.exists(q) for q in sums):
            a, b = (open(q).read() for q in sums)
            ck.expect(a == b, 'differs:' + r[0], 'two runs give different maps', {'script': r[0], 'input': r[1], 'hashseeds': [1, 4711]})
