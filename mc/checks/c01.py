"""C01: map files round-trip."""
import glob
import itertools
import os
import shutil

from mc import mpzref, mapbuild as mb
from mc.harness import REPO


def ent(type=1, pos=(4.0, 8.0, 12.0), attrs=None, links=(), reserved=(0, 0, 0)):
    n = mb.NATTRS[type]
    return {'pos': pos, 'type': type, 'attrs': list(range(n)) if attrs is None else attrs,
            'links': list(links), 'reserved': list(reserved)}


def leaf(i=0, **k):
    d = {'kind': 3, 'edges': [(i * 13 + j * 17) % 256 for j in range(12)], 'tex': [(i * 7 + j) % 65536 for j in range(6)]}
    d.update(k)
    return d


def leaf_variants():
    surfs = [None,
             [None] * 6,
             [(2, 0, 0, 32)] * 6,
             [(1, 3, 0, 64)] + [None] * 5,
             [None] * 5 + [(255, 254, 0, 240)],
             [None, (7, 6, 0, 128), None, (5, 4, 0, 16), None, (3, 2, 0, 0)],
             [(9, 8, 0, 32), None, (1, 2, 0, 32), (3, 4, 0, 32), None, None]]
    edges = [[128] * 12, [(17 * j + 3) % 256 for j in range(12)], [0, 255] * 6]
    texs = [[2] * 6, [11, 12, 13, 14, 15, 16], [65535, 0, 1, 256, 255, 32768]]
    for kind in (1, 2, 3):
        for ed in (edges if kind == 3 else edges[:1]):
            for tx in texs:
                for mat in (None, 0, 5, 65535):
                    for merged in (None, 0, 127, 128, 255):
                        for s in surfs:
                            for tv in ((0, 7, 200) if s is not None else (0,)):
                                n = {'kind': kind, 'tex': tx}
                                if kind == 3:
                                    n['edges'] = ed
                                if mat is not None:
                                    n['material'] = mat
                                if merged is not None:
                                    n['merged'] = merged
                                if s is not None:
                                    n['surf'] = s
                                    n['totalverts'] = tv
                                yield n


def ent_alphabet():
    out = []
    for t, n in sorted(mb.NATTRS.items()):
        first = {9: [0, 1, 2, 3, 9, 11], 3: [0, 1, 2, 4]}.get(t, [0, 1, 255, -1])
        for a in first:
            out.append(ent(t, attrs=[a] + [10 + i for i in range(n - 1)]))
        out.append(ent(t, attrs=[2] + [-(2 ** 31), 2 ** 31 - 1, 0, -1][:n - 1] + [7] * (n - 5)))
    out.append(ent(1, pos=(0.0, 0.0, 0.0)))
    out.append(ent(1, pos=(-4.0, 1023.5, 0.125)))
    out.append(ent(1, pos=(2.0 ** -20, 1 / 1024, 4095 + 1 / 4096)))
    out.append(ent(13, pos=(-0.375, 65535.25, -2.0 ** 15)))
    out.append(ent(2, links=[0]))
    out.append(ent(13, links=[3, 1, 2]))
    out.append(ent(14, reserved=(1, 2, 3)))
    out.append(ent(1, reserved=(127, 128, 255)))
    out.append(ent(8, links=[1, 1], reserved=(200, 0, 9)))
    return out


def dims(thorough):
    """(dimension, [mutators]) over the base model; at most `bound` mutators combine."""
    B = mb.base_model

    def setm(k, v):
        def f(m):
            m['meta'][k] = v
        f.label = '%s=%r' % (k, v)
        return f

    def setk(k, v, label=None):
        def f(m):
            m[k] = v() if callable(v) else v
        f.label = label or '%s=%.60r' % (k, v)
        return f
    yield 'magic', [setk('magic', b'BFGZ')]
    yield 'version', [setk('version', v) for v in (0, 42, 2 ** 31 - 1)]
    yield 'headersize', [setk('headersize', v) for v in (0, 44, 100)]
    yield 'worldsize', [setm('worldsize', v) for v in (256, 512, 2048, 4096, 8192)]
    for k in ('numpvs', 'lightmaps', 'blendmap', 'gamever', 'revision'):
        yield k, [setm(k, v) for v in (1, 255, 256, -1, 2 ** 31 - 1)]
    yield 'gameident', [setk('gameident', v) for v in (b'bfg', b'mek', b'a b')]
    vs = [[], [(b'a', 0)], [(b'a', -1)], [(b'a', 2 ** 31 - 1)], [(b'a', -2 ** 31)], [(b'maptitle', b'')], [(b't', b'x')],
          [(b't', b'with space and \xff byte')], [(b't', 'text')], [(b't', 'gr\u00fc\u00df')], [(b'f', 0.5)], [(b'f', -1.25)], [(b'f', 0.1)],
          [(b'f', 0.0)], [(b't', b'x' * 300)], [(b'n' * 64, 7)],
          [(b'a', 1), (b'b', b'two'), (b'c', 3.0), (b'd', b''), (b'e', -5)],
          [(b'z', b'last'), (b'a', 1), (b'm', 2.5)],
          [(b't', b'ends in nul\0')], [(b't', b'\0\0')], [(b't', b'\0mid\0dle\r\n\t"')], [(b't', b' padded ')], [(b't', bytes(range(256)))],
          [(b'f', 1e-30)], [(b'f', 3.0e38)], [(b'f', 1e-44)], [(b'f', -0.0)], [(b'f', 2.0)], [(b'f', 16777216.0)], [(b'f', float('inf'))],
          [(b'sp ace', 1)], [(b'UPPER', 1), (b'upper', 2)], [(b'', 3)], [(b'v%d' % i, i) for i in range(300)]]
    yield 'vars', [setk('vars', v) for v in vs]
    yield 'texmru', [setk('texmru', v) for v in ([], [0], [65535], [3, 2, 1], list(range(300)), [5, 5])]
    yield 'chg', [setk('chg', v) for v in ([], [-1], [-5, -7, -1], [-1, -1], [-909], [-65535])]
    ea = ent_alphabet()
    yield 'ents', [setk('ents', [e], 'ent%d' % i) for i, e in enumerate(ea)]
    yield 'lengths', [setk('ents', [ent(13, links=[(i * 7) % (n + 3) for i in range(n)]), ent(1)], '%d links' % n) for n in (7, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 65536, 70000)] + [
        setk('ents', [ent(1 + i % 2, attrs=None if i % 3 else [i] * mb.NATTRS[1 + i % 2], links=[i]) for i in range(n)], '%d entities' % n) for n in (2, 16, 63, 64, 127, 128, 255, 256, 257, 1000, 5000)] + [
        setk('texmru', [(i * 3) % 65536 for i in range(n)], '%d recent textures' % n) for n in (16, 127, 128, 255, 256, 257, 32767, 32768, 65535)] + [
        setk('chg', [-(2 + i % 7) for i in range(n)] + [-1], '%d slot runs' % n) for n in (15, 16, 64, 128, 256, 1000)] + [
        setk('vars', [(b'v%d' % i, i) for i in range(n)] + [(b's' * n, b't' * n)], '%d variables' % n) for n in (15, 16, 31, 32, 64, 127, 128, 255, 256, 257, 1000, 40000)]
    trees = []
    path = [leaf(i) for i in range(8)]
    trees.append(('8 distinct leaves', path))
    trees.append(('all subdivided', [{'children': [leaf(i * 8 + j) for j in range(8)]} for i in range(8)]))
    for i in range(8):
        w = [dict(mb.EMPTY) for _ in range(8)]
        w[i] = {'children': [leaf(3)] + [dict(mb.EMPTY)] * 7}
        trees.append(('child %d subdivided' % i, w))
    w = [dict(mb.EMPTY) for _ in range(8)]
    n = leaf(1)
    for d in range(6):
        n = {'children': [leaf(d + 2) if i != d else n for i in range(8)]}
    w[5] = n
    trees.append(('depth 7 chain', w))
    yield 'world', [setk('world', v, l) for l, v in trees]


def one(ck, label, model, path):
    ref = mpzref.encode(model)
    exp = mb.expect_map(model)
    ck.state(ref)
    rep = {'map': label}

    def write():
        m = mb.real_map(model)
        m.write(path)
        # keep m alive: the file must be complete although the map still exists
        return mpzref.read_file(path), m
    ok, r = ck.guard('write:' + label, write, rep)
    ck.step()
    if ok:
        data, m = r
        ck.expect(data == ref, 'bytes:' + label,
                  lambda: 'written file (%d bytes) differs from the MAPZ encoding of the map (%d bytes)' % (len(data), len(ref)), rep)

    def read():
        import gzip
        with gzip.open(path, 'wb', compresslevel=1) as h:
            h.write(ref)
        return mb.read(path)
    ok, m2 = ck.guard('read:' + label, read, rep)
    ck.step()
    if ok:
        got = mb.plain_map(m2)
        ck.expect(got == exp, 'model:' + label, lambda: 'reading the file gives different %s' % mb.diff(got, exp), rep)

        def rewrite():
            m2.write(path)
            if '+' not in label and len(ref) < 10000:
                first = mpzref.read_file(path)
                m2.write(path)          # writing leaves the map as it was
                ck.expect(mpzref.read_file(path) == first, 'again:' + label, 'writing the same map again gives another file', rep)
            return mpzref.read_file(path)
        ok, d2 = ck.guard('rewrite:' + label, rewrite, rep)
        ck.step()
        if ok:
            ck.expect(d2 == ref, 'fixpoint:' + label, 'read followed by write is not the identity on the file', rep)
            ck.trace()


def run(ck):
    path = ck.path('t.mpz')
    ds = list(dims(ck.thorough))
    bound = 3 if ck.thorough else 2
    one(ck, 'base', mb.base_model(), path)
    nmaps = 1
    for k in range(1, bound + 1):
        for combo in itertools.combinations(ds, k):
            opts = [c[1] for c in combo]
            if k == 2 and not ck.thorough:
                opts = [o if len(o) <= 6 else o[::max(1, len(o) // 6)] for o in opts]
            if k == 3:
                opts = [o if len(o) <= 3 else o[::max(1, len(o) // 3)] for o in opts]
            for muts in itertools.product(*opts):
                m = mb.base_model()
                for f in muts:
                    f(m)
                one(ck, '+'.join(f.label for f in muts), m, path)
                nmaps += 1
    ck.extra['maps_header_product'] = nmaps
    ck.sample({'deviations_from_base': [f.label for _, o in ds for f in o][:12]})
    # every leaf variant: 64 leaves to a map (in both orders, so every variant
    # sits next to different neighbours), and every octant position
    leaves = list(leaf_variants())
    for order in (leaves, leaves[::-1]):
        for i in range(0, len(order), 64):
            chunk = order[i:i + 64]
            chunk += [dict(mb.EMPTY)] * (64 - len(chunk))
            m = mb.base_model()
            m['world'] = [{'children': chunk[j * 8:j * 8 + 8]} for j in range(8)]
            one(ck, 'leaves%s@%d' % ('' if order is leaves else '-rev', i), m, path)
    ck.extra['leaf_variants'] = len(leaves)
    rng = range(8)
    for i, j, k in itertools.product(rng, rng, rng):
        m = mb.base_model()
        n = leaf(i + 8 * j + 64 * k)
        for pos in (k, j):
            kids = [dict(mb.EMPTY) for _ in rng]
            kids[pos] = n
            n = {'children': kids}
        m['world'] = [dict(mb.EMPTY) for _ in rng]
        m['world'][i] = n
        one(ck, 'octant %d/%d/%d' % (i, j, k), m, path)
    # every ordered pair (and triple, thorough) of entities
    ea = ent_alphabet()
    for L in ((2,) if not ck.thorough else (2, 3)):
        al = ea if L == 2 else ea[::3]
        for es in itertools.product(range(len(al)), repeat=L):
            m = mb.base_model()
            m['ents'] = [al[i] for i in es]
            one(ck, 'ents%r' % (es,), m, path)
    # the reader's own limits, and the shipped maps
    m = mb.base_model()
    m['meta']['worldsize'] = 16384
    one(ck, 'worldsize=16384', m, path)
    for f in sorted(glob.glob(os.path.join(REPO, 'maps', '*.mpz')) + glob.glob(os.path.join(REPO, 'tests', 'files', '*.mpz'))):
        name = os.path.relpath(f, REPO)
        data = mpzref.read_file(f)
        try:
            ref = mpzref.decode(data)
        except ValueError:
            ck.outcome('shipped map outside the supported format')
            continue
        if any(e['type'] not in mb.NATTRS for e in ref['ents']):
            ck.outcome('shipped map with unsupported entities')
            continue
        ck.state(name)

        def roundtrip():
            shutil.copyfile(f, path)
            m = mb.read(path)
            m.write(path)
            return mpzref.read_file(path), m
        ok, r = ck.guard('shipped:' + name, roundtrip, {'file': name})
        ck.step(2)
        if not ok:
            continue
        out, m = r
        ck.trace()
        body = data[:len(data) - len(ref['trailer'])]
        if ck.expect(out.startswith(body), 'shipped-body:' + name, 'header, variables, entities or octree changed', {'file': name}):
            ck.expect(out == data, 'shipped-trailer:' + name,
                      '%d bytes after the octree (blend map) are dropped by read+write of %s' % (len(data) - len(out), name), {'file': name})
        ck.outcome('shipped map round-tripped')
    ck.extra['bound'] = 'at most %d deviations from the base map over %d dimensions; octree paths of length 3; entity lists of length <= %d' % (
        bound, len(ds), 3 if ck.thorough else 2)
