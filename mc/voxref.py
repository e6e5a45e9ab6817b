"""Independent reader and writer of MagicaVoxel 150 files (SIZE, XYZI, RGBA)."""
import struct


class Bad(Exception):
    pass


def parse(data):
    """{'size', 'voxels': [(x, y, z, c)], 'palette': [256 x (r, g, b, a)] or None}"""
    if data[:4] != b'VOX ' or struct.unpack('<I', data[4:8])[0] != 150:
        raise Bad('no VOX 150 header')

    def chunk(pos, end):
        if pos + 12 > end:
            raise Bad('chunk header at %d runs over the end at %d' % (pos, end))
        name = data[pos:pos + 4]
        n, m = struct.unpack('<II', data[pos + 4:pos + 12])
        if pos + 12 + n + m > end:
            raise Bad('chunk %r at %d announces %d+%d bytes, %d are there' % (name, pos, n, m, end - pos - 12))
        return name, data[pos + 12:pos + 12 + n], pos + 12 + n, m

    name, content, pos, m = chunk(8, len(data))
    if name != b'MAIN' or content or pos + m != len(data):
        raise Bad('MAIN announces %d bytes of children, the file has %d' % (m, len(data) - pos))
    out = {'size': None, 'voxels': None, 'palette': None}
    while pos < len(data):
        name, content, pos, m = chunk(pos, len(data))
        if m:
            raise Bad('chunk %r announces children' % name)
        if name == b'SIZE':
            if len(content) != 12:
                raise Bad('SIZE has %d bytes' % len(content))
            out['size'] = struct.unpack('<III', content)
        elif name == b'XYZI':
            if len(content) < 4:
                raise Bad('XYZI without a count')
            n = struct.unpack('<I', content[:4])[0]
            if len(content) != 4 + 4 * n:
                raise Bad('XYZI announces %d voxels in %d bytes' % (n, len(content)))
            out['voxels'] = [tuple(content[4 + 4 * i:8 + 4 * i]) for i in range(n)]
        elif name == b'RGBA':
            if len(content) != 1024:
                raise Bad('RGBA has %d bytes' % len(content))
            out['palette'] = [tuple(content[4 * i:4 * i + 4]) for i in range(256)]
        else:
            raise Bad('unknown chunk %r' % name)
    if out['size'] is None or out['voxels'] is None:
        raise Bad('no model')
    return out


def build(size, voxels, palette):
    def chunk(name, content, children=b''):
        return name + struct.pack('<II', len(content), len(children)) + content + children
    body = chunk(b'SIZE', struct.pack('<III', *size)) + \
        chunk(b'XYZI', struct.pack('<I', len(voxels)) + b''.join(bytes(v) for v in voxels)) + \
        chunk(b'RGBA', b''.join(bytes(p) for p in palette))
    return b'VOX ' + struct.pack('<I', 150) + chunk(b'MAIN', b'', body)
