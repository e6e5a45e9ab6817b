# Planted bugs, batch 8.
U = 'redeclipse/upm.py'
V = 'redeclipse/voxel/__init__.py'
I = 'redeclipse/__init__.py'
O = 'redeclipse/objects.py'
E = 'redeclipse/entities/__init__.py'
W = 'redeclipse/magicavoxel/writer.py'
MG = 'redeclipse/prefabs/magica.py'
P = 'redeclipse/prefabs/__init__.py'
T = 'redeclipse/textures/__init__.py'
SF = 'redeclipse/cli/snow_forest.py'
G = 'redeclipse/cli/magica_rooms.py'
SHAPES = '''
from redeclipse.prefabs import Room
from redeclipse.upm import UnusedPositionManager
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import *
def shaped(cells, doors):
    """A room class that claims these cells, with (offset, orientation) doors."""
    class Shaped(Room):
        def _get_positions(self):
            return [CoarseVector(*c) for c in cells]
        def _get_doorways(self):
            return [{'orientation': o, 'offset': CoarseVector(*c)} for c, o in doors]
    return Shaped
def cell(p):
    return tuple(int(round(q)) for q in p)
'''
BUGS = [
    dict(id='c11-four-doors', property='C11', edits=[(U, "            for door in room.get_doorways():\n                if not self.is_legal", "            for door in room.get_doorways()[:4]:\n                if not self.is_legal")],
         needs='a room with more than four doors at the edge of the map', breaks='a room is accepted whose fifth door leads off the map',
         demo=SHAPES + '''
Hall = shaped([(k, 0, 0) for k in range(3)], [((k, 1, 0), NORTH) for k in range(3)] + [((-1, 0, 0), WEST)] + [((k, -1, 0), SOUTH) for k in range(3)])
upm = UnusedPositionManager(256, mirror=1)
assert upm.preregister_room(Hall(pos=CoarseVector(8, 1, 3)))
assert not upm.preregister_room(Hall(pos=CoarseVector(8, 0, 3)))
'''),
    dict(id='c23-append', property='C23', edits=[(V, "        with open(path, 'wb') as handle:\n", "        with open(path, 'ab') as handle:\n")],
         needs='exporting to a file that exists', breaks='the file holds the earlier model',
         demo='''
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
from redeclipse.magicavoxel.reader import Magicavoxel
import tempfile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'm.vox')
    for k in (1, 5):
        v = VoxelWorld(16)
        v.set_point(k, 2, 3, cube.newtexcube(tex=1))
        v.to_magicavoxel(p)
        with open(p, 'rb') as h:
            m = Magicavoxel.from_bytes(h.read())
        assert [(q.x, q.y, q.z) for q in m.model_voxels.voxels] == [(k, 2, 3)]
'''),
    dict(id='c02-parsed-once', property='C02', edits=[(I, """        self.base_path = base_path
        self.index = 0

        with gzip.open(base_path) as handle:
            self.bytes = handle.read()
""", """        self.index = 0

        # Large maps take a while to decompress.
        if base_path != getattr(self, 'base_path', None):
            with gzip.open(base_path) as handle:
                self.bytes = handle.read()
        self.base_path = base_path
""")],
         needs='reading a file again with the same parser after it was rewritten', breaks='the old map is returned',
         demo='''
import tempfile
from redeclipse import MapParser
from redeclipse.entities import Sunlight
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'm.mpz')
    mp = MapParser()
    m = mp.read('maps/empty-day.mpz')
    m.write(p)
    a = mp.read(p)
    n = len(a.ents)
    other = MapParser().read(p)
    other.ents.append(Sunlight())
    other.write(p)
    assert len(mp.read(p).ents) == n + 1
'''),
    dict(id='c31-no-crc', property='C31', edits=[(I, """        with gzip.open(base_path) as handle:
            self.bytes = handle.read()
""", """        with open(base_path, 'rb') as handle:
            # (much faster)
            self.bytes = zlib.decompressobj(47).decompress(handle.read())
"""), (I, "import gzip\n", "import gzip\nimport zlib\n")],
         needs='a file that was cut off within or before its checksum', breaks='damage to the end of the file goes unnoticed',
         demo='''
import tempfile
from redeclipse import MapParser
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'm.mpz')
    with open('maps/empty-day.mpz', 'rb') as h:
        b = h.read()
    open(p, 'wb').write(b)
    MapParser().read(p)
    for cut in (1, 4, 8):
        open(p, 'wb').write(b[:-cut])
        try:
            MapParser().read(p)
        except Exception:
            continue
        raise SystemExit('a file without its last %d bytes was read' % cut)
'''),
    dict(id='c16-shared-endcap', property='C16', edits=[(U, "        for roomClass in random.sample(possible_endcaps, len(possible_endcaps)):\n", "        while possible_endcaps:\n            roomClass = possible_endcaps.pop(random.randrange(len(possible_endcaps)))\n")],
         needs='more than one open door', breaks='each kind of end cap is tried at one door only, and the caller\'s list is emptied',
         demo=SHAPES + '''
Dot = shaped([(0, 0, 0)], [((1, 0, 0), EAST), ((-1, 0, 0), WEST)])
Cap = shaped([(0, 0, 0)], [((1, 0, 0), EAST)])
Cap.get_positions = Room.get_positions
upm = UnusedPositionManager(256, mirror=1)
upm.register_room(Dot(pos=CoarseVector(8, 8, 3)))
caps = [Cap]
upm.endcap(possible_endcaps=caps)
assert len(upm.rooms) == 3 and caps == [Cap] and not upm.unoccupied, upm.rooms
'''),
    dict(id='c03-spawn-shared-links', property='C03', edits=[(E, "        self.reserved = [0, 0, 0] if reserved is None else reserved\n\n    def __str__", "        self.reserved = NO_RESERVED if reserved is None else reserved\n\n    def __str__"), (E, "\n\nclass Entity:", "\nNO_RESERVED = [0, 0, 0]\n\n\nclass Entity:")],
         needs='changing the reserved bytes of one entity', breaks='those of all others change with it',
         demo='''
from redeclipse.entities import Entity
from redeclipse.enums import EntType
from redeclipse.vector import FineVector
a, b = [Entity(FineVector(1, 2, 3), EntType.ET_LIGHT, [1, 2, 3, 4, 5, 6], None, None) for _ in range(2)]
a.reserved[1] = 9
assert b.serialize()[-3:] == [bytes([0])] * 3
'''),
]
