"""C31: a damaged or unsupported file is refused, not read as something else."""
import contextlib
import gzip
import io
import json
import math
import os
import sys

from mc import mapbuild as mb, mpzref, voxref

REF = {1: 'too short', 2: 'unknown content'}


def models():
    """Small maps whose files contain every kind of part."""
    m = mb.base_model()
    E = dict(mb.EMPTY)
    ent = lambda t, **k: dict({'pos': (4.0, 8.5, 12.0), 'type': t, 'attrs': list(range(mb.NATTRS[t])), 'links': [], 'reserved': [0, 0, 0]}, **k)
    leaf = {'kind': 3, 'edges': [3, 141] * 6, 'tex': [1, 2, 3, 4, 5, 600]}
    m['vars'] = [(b'ab', 7), (b'c', b'text'), (b'd', 0.25)]
    m['texmru'] = [5, 300]
    m['ents'] = [ent(3), ent(9, attrs=[2, 0, 0, 1][:mb.NATTRS[9]] + [0] * max(0, mb.NATTRS[9] - 4), links=[1, 0])]
    m['chg'] = [-3, -2]
    w = [dict(E) for _ in range(8)]
    w[0] = leaf
    w[2] = {'kind': 2, 'tex': [9, 8, 7, 6, 5, 4], 'material': 3, 'merged': 9}
    w[5] = {'children': [dict(E) for _ in range(7)] + [dict(leaf)]}
    w[7] = {'kind': 1, 'tex': [2] * 6, 'surf': [None, (2, 0, 0, 32), None, None, (1, 3, 0, 64), None], 'totalverts': 3}
    m['world'] = w
    yield 'mixed', m
    m = mb.base_model()
    m['vars'], m['ents'], m['texmru'], m['chg'] = [], [], [], []
    m['world'] = [dict(E) for _ in range(8)]
    yield 'least', m
    m = mb.base_model()
    m['magic'] = b'BFGZ'
    m['world'] = [{'children': [dict(leaf) if i == j else dict(E) for j in range(8)]} if i in (3, 4) else dict(leaf, material=i) for i in range(8)]
    yield 'nested', m


def reasons(data):
    """What the reference says: ('ok', map) | ('refuse', why) | ('open', why)."""
    part = {}
    try:
        m = mpzref.decode(data, part)
    except ValueError as e:
        s = str(e)
        if min(part.get('chg') or [0]) < -10 ** 5 or part.get('meta', {}).get('numvslots', 0) > 10 ** 5:
            return 'open', 'millions of texture slots'      # reads, but takes gigabytes
        # lengths and counts below zero, strings without an end, parts this library does not cover: no verdict
        if s.startswith('truncated') or s.startswith('bad variable type') or s.startswith('surface'):
            return 'refuse', s
        if s.startswith('bad node byte'):
            return ('open' if int(s.split()[3]) & 7 == 4 else 'refuse'), s
        return 'open', s
    if min(m['chg'] or [0]) < -10 ** 5 or m['meta']['numvslots'] > 10 ** 5:
        return 'open', 'millions of texture slots'
    if m['magic'] not in (b'MAPZ', b'BFGZ'):
        return 'refuse', 'magic'
    if any(e['type'] not in KINDS for e in m['ents']):
        return 'refuse', 'entity kind'
    if any(e['type'] not in mb.NATTRS or len(e['attrs']) != mb.NATTRS[e['type']] for e in m['ents']) or any(e['type'] == 9 and not 0 <= e['attrs'][0] <= 11 for e in m['ents']):
        return 'open', 'unusual entity'
    ws = m['meta']['worldsize']
    if not 0 < ws <= 8192 or min(m['meta']['numents'], len(m['vars'])) < 0 or m['meta']['numvslots'] != -sum(m['chg']) or len(dict(m['vars'])) != len(m['vars']):
        return 'open', 'header'
    if any(isinstance(v, float) and v != v for _, v in m['vars']) or any(q != q for e in m['ents'] for q in e['pos']):
        return 'open', 'not a number'
    if any(f and f[2] for n in leaves(m['world']) for f in n.get('surf') or ()):
        return 'open', 'offset of vertices that are not there'
    return 'ok', m


def leaves(ns):
    for n in ns:
        if 'children' in n:
            yield from leaves(n['children'])
        else:
            yield n


KINDS = ()


def run(ck):
    global KINDS
    from redeclipse.cli import parse, to_json
    from redeclipse.enums import EntType
    from redeclipse.magicavoxel.reader import Magicavoxel
    KINDS = set(range(0, 38)) & {e.value for e in EntType} | set(mb.NATTRS)

    def read(payload, raw=False):
        p = ck.path('f-%d.mpz' % os.getpid())
        with open(p, 'wb') as h:
            if raw:
                h.write(payload)
            else:
                h.write(gzip.compress(payload, 1, mtime=0))
        try:
            return parse(p)
        except (Exception, SystemExit) as e:
            return e


    def judge(key, payload, rep, must=None):
        kind, why = ('refuse', must) if must else reasons(payload)
        if kind == 'open':
            ck.outcome('no verdict')
            return
        got = read(payload)
        ck.step()
        ck.state(payload)
        if kind == 'refuse':
            ck.expect(isinstance(got, BaseException), 'accepted:' + key, lambda: 'a damaged map (%s) is read as a map' % why, rep)
            ck.outcome('damaged map refused')
            return
        if not ck.expect(not isinstance(got, BaseException), 'refused:' + key, lambda: 'a good map is refused: %r' % (got,), rep):
            return
        ref = why
        want, have = mb.expect_map(ref), mb.plain_map(got)
        ck.expect(repr(want) == repr(have), 'content:' + key, lambda: 'reading gives different %s' % mb.diff(have, want), rep)
        p = ck.path('w-%d.mpz' % os.getpid())
        ok, _ = ck.guard('write:' + key, lambda: got.write(p), rep)
        if ok:
            ck.expect(mpzref.read_file(p) == payload, 'rewritten:' + key, 'writing the map gives another file', rep)
        ck.trace()
        ck.outcome('good map read')

    base = [(n, mpzref.encode(m)) for n, m in models()]
    # torn files: every prefix of the content, and of the compressed file
    jobs = []
    for n, data in base:
        jobs += [('torn', n, k) for k in range(len(data))]
        z = gzip.compress(data, 9, mtime=0)
        jobs += [('tornz', n, k) for k in range(len(z))]
        jobs += [('byte', n, k) for k in range(len(data))]
    D = dict(base)

    def work(job):
        what, n, k = job
        data = D[n]
        if what == 'torn':
            judge('torn', data[:k], {'map': n, 'bytes': k}, must='%d of %d bytes' % (k, len(data)))
        elif what == 'tornz':
            z = gzip.compress(data, 9, mtime=0)
            got = read(z[:k], raw=True)
            ck.step()
            ck.state((n, 'z', k))
            ck.expect(isinstance(got, BaseException), 'accepted:torn', lambda: 'a torn file (%d of %d bytes) is read as a map' % (k, len(z)), {'map': n, 'bytes': k})
        else:
            if ck.thorough:
                vals = range(256)
            else:
                o = data[k]
                vals = {0, 1, 2, 3, 4, 5, 6, 7, 32, 64, 127, 128, 200, 255} | {o ^ (1 << b) for b in range(8)} | {(o + 1) % 256, (o - 1) % 256}
            for v in sorted(vals):
                judge('byte', data[:k] + bytes([v]) + data[k + 1:], {'map': n, 'byte': k, 'value': v})
    ck.parallel(work, jobs)
    # surfaces with vertices (with and without a second layer) are not supported
    for n, m in models():
        for nv in [v for v in range(256) if v & 15]:
            for face in range(6):
                mm = dict(m, world=[dict(x) for x in m['world']])
                i = next(i for i, x in enumerate(mm['world']) if 'children' not in x)
                mm['world'][i].update(surf=[(1, 2, 3, nv) if f == face else None for f in range(6)], totalverts=9)
                judge('vertices', mpzref.encode(mm), {'map': n, 'numverts': nv, 'face': face})
    # something after the octree belongs to the map (light maps ...) and is kept
    for n, data in base:
        for t in (b'\0', b'trailer', bytes(range(256))):
            judge('trailer', data + t, {'map': n, 'trailer': t[:8]})
    # other files
    for k, raw in (('empty', b''), ('text', b'hello world\n'), ('plain', D['mixed']), ('zeros', b'\0' * 64)):
        got = read(raw, raw=True)
        ck.step()
        ck.expect(isinstance(got, BaseException), 'accepted:' + k, 'read as a map', {'file': k})
    # texture slots with settings of their own are not supported: a map with them must not be
    # written as something else
    from redeclipse import Map   # noqa: F401
    for n, m in models():
        for c in ([0], [-1, 0], [3, -2], [1 << 10]):
            mm = mb.real_map(m)
            mm.chg = c
            p = ck.path('v.mpz')
            try:
                mm.write(p)
                ck.expect(False, 'vslots', lambda: 'a map with texture settings %r is written without them' % (c,), {'map': n})
            except (Exception, SystemExit):
                ck.outcome('unsupported slots refused')
            ck.step()
    # numbers which do not fit
    for n, m in models():
        for val in (2 ** 31, -2 ** 31 - 1, 2 ** 40):
            for where in ('var', 'attr', 'link', 'meta'):
                mm = mb.real_map(m)
                if where == 'var':
                    mm.map_vars[b'big'] = val
                elif where == 'meta':
                    mm.meta['revision'] = val
                elif not mm.ents:
                    continue
                elif where == 'attr':
                    mm.ents[0].attrs[-1] = val
                else:
                    mm.ents[0].links.append(val)
                try:
                    mm.write(ck.path('v.mpz'))
                    ck.expect(False, 'overflow:' + where, '%d is written as something else' % val, {'map': n})
                except (Exception, SystemExit):
                    ck.outcome('too large number refused')
                ck.step()
        for val in ([], None, (1,), {}):
            mm = mb.real_map(m)
            mm.map_vars[b'odd'] = val
            try:
                mm.write(ck.path('v.mpz'))
                ck.expect(False, 'vartype', '%r is written as a variable' % (val,), {'map': n})
            except (Exception, SystemExit):
                ck.outcome('unsupported variable refused')
            ck.step()
    # the command line prints nothing for a damaged map
    for n, data in base:
        for k in list(range(0, len(data), 7)) + [len(data) - 1]:
            p = ck.path('j.mpz')
            with open(p, 'wb') as h:
                h.write(gzip.compress(data[:k], 1, mtime=0))
            out, argv = io.StringIO(), sys.argv
            sys.argv = ['to_json', p]
            try:
                with contextlib.redirect_stdout(out):
                    to_json.main()
                failed = False
            except (Exception, SystemExit):
                failed = True
            finally:
                sys.argv = argv
            ck.step()
            ck.expect(failed and not out.getvalue().strip(), 'json', lambda: 'the JSON of a torn map was printed: %r' % out.getvalue()[:60], {'map': n, 'bytes': k})

    # model files
    pal = [(i, 255 - i, 7, 255) for i in range(256)]
    vox = voxref.build((4, 5, 6), [(0, 1, 2, 3), (3, 4, 5, 255), (2, 2, 2, 1)], pal)
    heads = list(range(0, 72))          # up to and including the voxels
    idat = vox.index(b'RGBA')
    heads += list(range(idat, idat + 24)) + [len(vox) - 4]

    def load(data):
        p = ck.path('m-%d.vox' % os.getpid())
        with open(p, 'wb') as h:
            h.write(data)
        try:
            r = Magicavoxel.from_file(p)
            try:
                return ([(v.x, v.y, v.z, v.c) for v in r.model_voxels.voxels], [(c.r, c.g, c.b, c.a) for c in r.palette.colours],
                        (r.model_size.x, r.model_size.y, r.model_size.z))
            finally:
                r._io.close()
        except Exception as e:
            return e

    def vwork(job):
        what, k = job
        if what == 'torn':
            ck.state(('vox', k))
            got = load(vox[:k])
            ck.step()
            ck.expect(isinstance(got, BaseException), 'accepted:vox', lambda: 'a torn model (%d of %d bytes) is read as a model' % (k, len(vox)), {'bytes': k})
            return
        for v in range(256):
            data = vox[:k] + bytes([v]) + vox[k + 1:]
            if data[idat - 16 - 0:idat] != vox[idat - 16:idat] and k < 48:
                pass
            ck.state(data)
            tag = next((t for t in (b'VOX ', b'MAIN', b'SIZE', b'XYZI', b'RGBA') if vox.index(t) <= k < vox.index(t) + 4), None)
            try:
                ref = voxref.parse(data)
            except voxref.Bad:
                ref = None
            if ref is None and (tag is None or v == vox[k]):
                continue                # sizes which contradict each other: no verdict
            got = load(data)
            ck.step()
            if tag and v != vox[k]:
                ck.expect(isinstance(got, BaseException), 'accepted:chunk', lambda: 'a model whose %r is %r is read as a model' % (tag, data[k - 3:k + 4]), {'byte': k, 'value': v})
            else:
                ck.expect(got == (ref['voxels'], ref['palette'], ref['size']), 'content:vox', lambda: 'the model is read as %r' % (got if isinstance(got, BaseException) else 'something else'), {'byte': k, 'value': v})
                ck.trace()
    ck.parallel(vwork, [('torn', k) for k in range(len(vox))] + [('byte', k) for k in heads])
    ck.extra['bound'] = 'all prefixes; all single-byte changes (%s) of %d maps (%s bytes) and of the headers of a model' % (
        'all 256 values' if ck.thorough else '24 values each', len(base), [len(d) for _, d in base])
