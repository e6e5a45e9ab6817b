"""Bridges between the plain reference map (mpzref) and the real Map objects."""
from collections import OrderedDict

from mc import mpzref
from redeclipse import Map, MapParser
from redeclipse.entities import Entity
from redeclipse.enums import EntType
from redeclipse.objects import cube, cubext, SurfaceInfo, VSlot
from redeclipse.vector import FineVector

SOLID = {'kind': 3, 'edges': [128] * 12, 'tex': [2] * 6, 'surf': [(2, 0, 0, 32)] * 6}
EMPTY = {'kind': 1, 'tex': [1] * 6}
NATTRS = {1: 6, 2: 13, 3: 6, 8: 8, 9: 5, 13: 6, 14: 6}


def real_cube(n):
    c = cube.newcube()
    if 'children' in n:
        c.octsav = 0
        c.children = [real_cube(x) for x in n['children']]
        return c
    o = n['kind']
    c.texture = list(n['tex'])
    if n['kind'] == 3:
        c.edges = list(n['edges'])
    if n.get('material') is not None:
        o |= 0x40
        c.material = n['material']
    if n.get('merged') is not None:
        o |= 0x80
        c.merged = n['merged']
    if n.get('surf') is not None:
        o |= 0x20
        c.surfmask = sum(1 << i for i, f in enumerate(n['surf']) if f is not None)
        c.totalverts = n.get('totalverts', 0)
        c.ext = cubext(maxverts=c.totalverts)
        c.ext.surfaces = [None if f is None else SurfaceInfo(*f) for f in n['surf']]
    c.octsav = o
    return c


def real_ent(e):
    return Entity(FineVector(*e['pos']) / 4, EntType(e['type']), list(e['attrs']), list(e['links']), list(e['reserved']))


def real_map(m):
    meta = OrderedDict()
    for k in mpzref.META_KEYS:
        meta[k] = m['meta'].get(k, 0)
    meta['numents'] = len(m['ents'])
    meta['numvslots'] = -sum(m['chg'])
    meta['gameident'] = m['gameident']
    meta['numvars'] = len(m['vars'])
    vslots = [VSlot(None, i) for i in range(-sum(m['chg']))]
    return Map(m['magic'], m['version'], m['headersize'], meta, OrderedDict(m['vars']), list(m['texmru']),
               [real_ent(e) for e in m['ents']], vslots, list(m['chg']), [real_cube(n) for n in m['world']])


def num(v):
    return v.value if hasattr(v, 'value') else v


def node_of(c):
    """Plain node of a real cube, straight from its fields."""
    if c.children:
        return {'children': [node_of(x) for x in c.children]}
    n = {'kind': c.octsav & 7, 'tex': [num(t) for t in c.texture]}
    if n['kind'] == 3:
        n['edges'] = list(c.edges)
    if c.octsav & 0x40:
        n['material'] = c.material
    if c.octsav & 0x80:
        n['merged'] = c.merged
    if c.octsav & 0x20:
        n['totalverts'] = c.totalverts
        n['surf'] = []
        for i in range(6):
            if c.surfmask & (1 << i):
                s = c.ext.surfaces[i]
                n['surf'].append((s.lmid[0], s.lmid[1], s.verts, s.numverts))
            else:
                n['surf'].append(None)
    return n


def norm_node(n):
    if 'children' in n:
        return ('C',) + tuple(norm_node(c) for c in n['children'])
    return (n['kind'], tuple(n.get('edges', ())), tuple(n['tex']), n.get('material'), n.get('merged'),
            None if n.get('surf') is None else (n.get('totalverts', 0), tuple(None if f is None else tuple(f) for f in n['surf'])))


def plain_ent(e):
    return {'pos': (e.o.x, e.o.y, e.o.z), 'type': num(e.type), 'attrs': [int(num(a)) for a in e.attrs],
            'links': [int(x) for x in e.links], 'reserved': [int(x) for x in e.reserved]}


def plain_map(m):
    """Plain model of what a real Map object says."""
    return {
        'magic': bytes(m.magic), 'version': m.version, 'headersize': m.headersize,
        'meta': {k: m.meta[k] for k in mpzref.META_KEYS},
        'gameident': m.meta['gameident'], 'numvars': m.meta['numvars'],
        'vars': list(m.map_vars.items()), 'texmru': list(m.texmru),
        'ents': [plain_ent(e) for e in m.ents], 'chg': list(m.chg),
        'nvslots': len(m.vslots),
        'world': tuple(norm_node(node_of(c)) for c in m.world),
    }


def f32(x):
    import struct
    return struct.unpack('<f', struct.pack('<f', x))[0]


def expect_map(m):
    """Plain model a reader must produce for reference map m."""
    def var(v):
        if isinstance(v, str):
            return v.encode()
        if isinstance(v, float):
            return f32(v)
        return v
    return {
        'magic': m['magic'], 'version': m['version'], 'headersize': m['headersize'],
        'meta': dict({k: m['meta'].get(k, 0) for k in mpzref.META_KEYS}, numents=len(m['ents']), numvslots=-sum(m['chg'])),
        'gameident': m['gameident'], 'numvars': len(m['vars']),
        'vars': [(k, var(v)) for k, v in m['vars']], 'texmru': list(m['texmru']),
        'ents': [{'pos': tuple(f32(c) for c in e['pos']), 'type': e['type'], 'attrs': list(e['attrs']),
                  'links': list(e['links']), 'reserved': list(e['reserved'])} for e in m['ents']],
        'chg': list(m['chg']), 'nvslots': -sum(m['chg']),
        'world': tuple(norm_node(n) for n in m['world']),
    }


def diff(a, b):
    return [k for k in a if a[k] != b.get(k)] + [k for k in b if k not in a]


def base_model():
    return {
        'magic': b'MAPZ', 'version': 43, 'headersize': 48,
        'meta': {'worldsize': 1024, 'numpvs': 0, 'lightmaps': 0, 'blendmap': 0, 'gamever': 229, 'revision': 2},
        'gameident': b'fps',
        'vars': [(b'skybox', b'mayhem/aqua9'), (b'skyblend', 1.0), (b'fog', 100)],
        'texmru': [1, 2], 'ents': [], 'chg': [-9],
        'world': [dict(SOLID)] + [dict(EMPTY) for _ in range(7)],
    }


def read(path):
    return MapParser().read(path)
