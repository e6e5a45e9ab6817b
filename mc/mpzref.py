"""Boring, independent reference model of the MAPZ container (no code of the
repository used): a map is a plain dict, encoded/decoded with struct."""
import gzip
import struct

META_KEYS = ('worldsize', 'numents', 'numpvs', 'lightmaps', 'blendmap', 'numvslots', 'gamever', 'revision')


def enc_node(n):
    if 'children' in n:
        assert len(n['children']) == 8
        return bytes([0]) + b''.join(enc_node(c) for c in n['children'])
    flags = n['kind']
    if n.get('material') is not None:
        flags |= 0x40
    if n.get('merged') is not None:
        flags |= 0x80
    if n.get('surf') is not None:
        flags |= 0x20
    out = bytes([flags])
    if n['kind'] == 3:
        out += bytes(n['edges'])
    out += struct.pack('<6H', *n['tex'])
    if n.get('material') is not None:
        out += struct.pack('<H', n['material'])
    if n.get('merged') is not None:
        out += bytes([n['merged']])
    if n.get('surf') is not None:
        faces = n['surf']
        mask = sum(1 << i for i, f in enumerate(faces) if f is not None)
        out += bytes([mask, n.get('totalverts', 0)])
        for f in faces:
            if f is not None:
                out += bytes(f)
    return out


def enc_var(name, val):
    out = struct.pack('<i', len(name)) + name + b'\0'
    if isinstance(val, int):
        return out + struct.pack('<ii', 0, val)
    if isinstance(val, float):
        return out + struct.pack('<if', 1, val)
    if isinstance(val, str):
        val = val.encode('utf-8')
    return out + struct.pack('<ii', 2, len(val)) + val + b'\0'


def enc_ent(e):
    return struct.pack('<fff4B', *e['pos'], e['type'], *e['reserved']) + \
        struct.pack('<i', len(e['attrs'])) + struct.pack('<%di' % len(e['attrs']), *e['attrs']) + \
        struct.pack('<i', len(e['links'])) + struct.pack('<%di' % len(e['links']), *e['links'])


def encode(m):
    out = m['magic'] + struct.pack('<ii', m['version'], m['headersize'])
    meta = dict(m['meta'], numents=len(m['ents']), numvslots=-sum(m['chg']))
    out += struct.pack('<8i', *[meta[k] for k in META_KEYS])
    out += m['gameident'] + b'\0'
    out += struct.pack('<i', len(m['vars']))
    for k, v in m['vars']:
        out += enc_var(k, v)
    out += struct.pack('<H', len(m['texmru'])) + struct.pack('<%dH' % len(m['texmru']), *m['texmru'])
    for e in m['ents']:
        out += enc_ent(e)
    for c in m['chg']:
        out += struct.pack('<i', c)
    for n in m['world']:
        out += enc_node(n)
    return out


class Dec:
    def __init__(self, data):
        self.d, self.i = data, 0

    def take(self, fmt):
        fmt = '<' + fmt
        n = struct.calcsize(fmt)
        if self.i + n > len(self.d):
            raise ValueError('truncated map file at byte %d' % self.i)
        v = struct.unpack(fmt, self.d[self.i:self.i + n])
        self.i += n
        return v

    def node(self, depth=0):
        if depth > 20:
            raise ValueError('octree too deep')
        (o,) = self.take('B')
        kind = o & 7
        if kind == 0:
            return {'children': [self.node(depth + 1) for _ in range(8)]}
        if kind not in (1, 2, 3):
            raise ValueError('bad node byte %d at %d' % (o, self.i - 1))
        n = {'kind': kind}
        if kind == 3:
            n['edges'] = list(self.take('12B'))
        n['tex'] = list(self.take('6H'))
        if o & 0x40:
            (n['material'],) = self.take('H')
        if o & 0x80:
            (n['merged'],) = self.take('B')
        if o & 0x20:
            mask, n['totalverts'] = self.take('2B')
            n['surf'] = []
            for i in range(6):
                if mask & (1 << i):
                    f = self.take('4B')
                    if f[3] & 15:
                        raise ValueError('surface with vertices')
                    n['surf'].append(f)
                else:
                    n['surf'].append(None)
        return n


def decode(data, m=None):
    """The map as a plain dict; m, if given, is filled and keeps what was read before an error."""
    d = Dec(data)
    m = {} if m is None else m
    m['magic'] = d.take('4s')[0]
    m['version'], m['headersize'] = d.take('2i')
    m['meta'] = dict(zip(META_KEYS, d.take('8i')))
    gi = d.take('4s')[0]
    if gi[3] != 0:
        raise ValueError('gameident not terminated')
    m['gameident'] = gi[:3]
    (nv,) = d.take('i')
    if nv < 0:
        raise ValueError('negative count')
    m['vars'] = []
    for _ in range(nv):
        (n,) = d.take('i')
        if not 0 <= n < 4096:
            raise ValueError('bad variable name length %d' % n)
        name = d.take('%ds' % (n + 1))[0]
        if name[-1] != 0:
            raise ValueError('name not terminated')
        (t,) = d.take('i')
        if t == 0:
            v = d.take('i')[0]
        elif t == 1:
            v = d.take('f')[0]
        elif t == 2:
            (n,) = d.take('i')
            if not 0 <= n < 1 << 20:
                raise ValueError('bad string length')
            v = d.take('%ds' % (n + 1))[0]
            if v[-1] != 0:
                raise ValueError('string not terminated')
            v = v[:-1]
        else:
            raise ValueError('bad variable type %d' % t)
        m['vars'].append((name[:-1], v))
    (n,) = d.take('H')
    m['texmru'] = list(d.take('%dH' % n))
    m['ents'] = []
    for _ in range(m['meta']['numents']):
        x, y, z, ty, a, b, c = d.take('fff4B')
        (n,) = d.take('i')
        if not 0 <= n <= 100:
            raise ValueError('bad attr count %d' % n)
        attrs = list(d.take('%di' % n))
        (n,) = d.take('i')
        if not 0 <= n < 10000:
            raise ValueError('bad link count %d' % n)
        m['ents'].append({'pos': (x, y, z), 'type': ty, 'reserved': [a, b, c], 'attrs': attrs,
                          'links': list(d.take('%di' % n))})
    left = m['meta']['numvslots']
    m['chg'] = []
    while left > 0:
        (c,) = d.take('i')
        if c >= 0:
            raise ValueError('explicit vslots')
        m['chg'].append(c)
        left += c
    m['world'] = [d.node() for _ in range(8)]
    m['trailer'] = d.d[d.i:]
    return m


def read_file(path):
    with gzip.open(path, 'rb') as h:
        return h.read()


def solid_cells(world, size):
    """{(x,y,z): texture list} of all solid unit cells; coarser solid leaves expand."""
    out = {}

    def rec(nodes, x, y, z, s):
        h = s // 2
        for i, n in enumerate(nodes):
            nx, ny, nz = x + (i & 1) * h, y + ((i >> 1) & 1) * h, z + (i >> 2) * h
            if 'children' in n:
                if h <= 1:
                    raise ValueError('octree deeper than the world')
                rec(n['children'], nx, ny, nz, h)
            elif n['kind'] == 2 or n['kind'] == 3:
                if h > 32:
                    out[('big', nx, ny, nz, h)] = tuple(n['tex'])
                    continue
                for a in range(h):
                    for b in range(h):
                        for c in range(h):
                            out[nx + a, ny + b, nz + c] = tuple(n['tex'])
    rec(world, 0, 0, 0, size)
    return out
