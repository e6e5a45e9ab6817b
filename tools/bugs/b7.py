# Planted bugs, batch 7.
U = 'redeclipse/upm.py'
V = 'redeclipse/voxel/__init__.py'
VE = 'redeclipse/vector/__init__.py'
I = 'redeclipse/__init__.py'
INFO = 'redeclipse/cli/magicavoxel_info.py'
GEN = 'redeclipse/cli/magica_rooms.py'
W = 'redeclipse/magicavoxel/writer.py'
MG = 'redeclipse/prefabs/magica.py'
WF = 'redeclipse/worldflavors.py'
SHAPES = '''
from redeclipse.prefabs import Room
from redeclipse.upm import UnusedPositionManager
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import *
def shaped(cells, doors):
    """A room class that claims these cells, with (offset, orientation) doors."""
    class Shaped(Room):
        def _get_positions(self):
            return [CoarseVector(*c) for c in cells]
        def _get_doorways(self):
            return [{'orientation': o, 'offset': CoarseVector(*c)} for c, o in doors]
    return Shaped
def cell(p):
    return tuple(int(round(q)) for q in p)
'''
BUGS = [
    dict(id='c10-first-eight', property='C10', edits=[(U, "if p not in used]", "if p not in used[:8]]")],
         needs='a room of more than eight cells, a late cell of which lies in front of the open door of another room', breaks='the door stays listed although its cell is built upon',
         demo=SHAPES + '''
upm = UnusedPositionManager(256, mirror=1)
Dot = shaped([(0, 0, 0)], [((1, 0, 0), EAST)])
upm.register_room(Dot(pos=CoarseVector(8, 8, 3)))
Hall = shaped([(0, k, 0) for k in range(10)], [((0, 10, 0), NORTH)])
upm.register_room(Hall(pos=CoarseVector(9, -1, 3)))
assert [cell(p) for p, r, o in upm.unoccupied] == [(9, 9, 3)], upm.unoccupied
'''),
    dict(id='c15-last-copy-only', property='C15', edits=[(U, "            added_occupied = added_occupied.union(set(used))\n", "            added_occupied = set(used)\n")],
         needs='four-way mirroring and a room whose opposite copies collide, but not neighbouring ones', breaks='a room is offered which cannot be registered, and the placement ends with an exception',
         demo=SHAPES + '''
upm = UnusedPositionManager(256, mirror=4)
# (15,15) and (17,17) are each other's opposite, not neighbours
Far = shaped([(0, 0, 0), (2, 2, 0)], [((-1, 0, 0), WEST)])
assert not upm.preregister_room(Far(pos=CoarseVector(15, 15, 3)))
assert upm.preregister_room(Far(pos=CoarseVector(5, 5, 3)))
'''),
    dict(id='c08-floordiv', property='C08', edits=[(VE, "            floor(self.x / m),\n            floor(self.y / m),\n            floor(self.z / m)", "            int(self.x / m),\n            int(self.y / m),\n            int(self.z / m)")],
         needs='dividing negative coordinates', breaks='the quotient is rounded towards zero instead of down',
         demo='''
from redeclipse.vector import FineVector
assert tuple(FineVector(-1, 9, -9) // 8) == (-1, 1, -2)
'''),
    dict(id='c05-falsy', property='C05', edits=[(V, "        if (x, y, z) in self.world:\n            return self.world[x, y, z]\n        else:\n            return None\n", "        return self.world.get((x, y, z)) or None\n")],
         needs='a stored value that counts as false, as colour index 0', breaks='the cell reads as empty',
         demo='''
from redeclipse.voxel import VoxelWorld
v = VoxelWorld(8)
v.set_point(1, 2, 3, 0)
assert v.get_point(1, 2, 3) == 0 and v.get_point(1, 2, 3) is not None
'''),
    dict(id='c13-one-link-per-cell', property='C13', edits=[(U, "            self.links.append((pos_a, pos_b))\n", "            if pos_a not in [a for a, _ in self.links]:\n                self.links.append((pos_a, pos_b))\n")],
         needs='a room that several rooms were attached to', breaks='only the first of them is linked',
         demo=SHAPES + '''
upm = UnusedPositionManager(256, mirror=1)
Dot = shaped([(0, 0, 0)], [((1, 0, 0), EAST), ((-1, 0, 0), WEST)])
a, b, c = [Dot(pos=CoarseVector(x, 8, 3)) for x in (8, 9, 7)]
for r in (a, b, c):
    upm.register_room(r)
upm.register_link(a, b)
upm.register_link(a, c)
assert [(cell(p), cell(q)) for p, q in upm.links] == [((8, 8, 3), (9, 8, 3)), ((8, 8, 3), (7, 8, 3))], upm.links
'''),
    dict(id='c29-sun-first', property='C29', edits=[(GEN, "    mymap.ents.append(sunlight)\n", "    mymap.ents.insert(0, sunlight)\n")],
         needs='an input map whose entities are linked with each other', breaks='the links of the given entities lead one entity off',
         demo='''
import tempfile, types
from redeclipse import MapParser
from redeclipse.entities import PlayerSpawn
from redeclipse.vector import FineVector
from redeclipse.cli import parse
from redeclipse.cli.magica_rooms import main
def at(e):
    return e.o.x, e.o.y, e.o.z
with tempfile.TemporaryDirectory() as d:
    m = parse('maps/empty2.mpz')
    n = len(m.ents)
    m.ents += [PlayerSpawn(xyz=FineVector(5, 6, 7)), PlayerSpawn(xyz=FineVector(9, 6, 7))]
    m.ents[n].links, m.ents[n + 1].links = [n + 1], [n]
    src = os.path.join(d, 'in.mpz')
    m.write(src)
    given = parse(src).ents
    v, out, upm = main(types.SimpleNamespace(name=src), rooms=2, seed=3)
    for e in given[n:]:
        there = [q for q in out.ents if at(q) == at(e)]
        assert len(there) == 1
        assert [at(out.ents[k]) for k in there[0].links] == [at(given[k]) for k in e.links]
'''),
    dict(id='c30-empty-layer', property='C30', edits=[(INFO, "    for z in range(world.zmin, world.zmax + 1):\n", "    for z in sorted({z for (x, y, z) in world.world}):\n")],
         needs='a model with an empty layer between others', breaks='the report leaves the layer out',
         demo='''
import contextlib, io, struct, tempfile
from redeclipse.cli import magicavoxel_info
vox = [(1, 1, 1, 1), (1, 1, 3, 2)]
b = struct.pack('<4si4sii', b'VOX ', 150, b'MAIN', 0, 0) + struct.pack('<4siiiii', b'SIZE', 12, 0, 5, 5, 5) + struct.pack('<4siii', b'XYZI', 4 + 4 * len(vox), 0, len(vox))
b += b''.join(struct.pack('BBBB', *v) for v in vox) + struct.pack('<4sii', b'RGBA', 1024, 0) + bytes(1024)
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'm.vox')
    open(p, 'wb').write(b)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        magicavoxel_info.main(p)
assert [k for k in range(6) if '==== z = %d ====' % k in out.getvalue()] == [1, 2, 3]
'''),
    dict(id='c24-one-palette', property='C24', edits=[(MG, "        (r, g, b) = self._colours[self.vox.world[v]]\n        c = self.colour_to_texture(r, g, b)\n", "        value = self.vox.world[v]\n        if value not in MagicaRoom.textures:\n            MagicaRoom.textures[value] = self.colour_to_texture(*self._colours[value])\n        c = MagicaRoom.textures[value]\n"),
                                                   (MG, "    room_type = 'oriented'\n", "    room_type = 'oriented'\n    textures = {}\n")],
         needs='two models that use the same palette index for different colours', breaks='the second room is drawn in the colours of the first',
         demo='''
from redeclipse.prefabs import castle, spacestation, egypt, TEXMAN
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import CoarseVector
class Sink:
    ents = []
def colours(cls):
    r = cls(pos=CoarseVector(4, 4, 4))
    v = VoxelWorld(256)
    r.render(v, Sink())
    return {c.texture[0] for c in v.world.values()}, {TEXMAN.get_colour(*r._colours[k]) for k in r.vox.world.values()}
for cls in (castle.castle_gate_simple, egypt.gate, egypt.statue):
    got, want = colours(cls)
    assert want <= got, (cls, got, want)
'''),
    dict(id='c28-flavour-shared', property='C28', edits=[(WF, "        world.cfg_extra.extend(extra)\n", "        world.cfg_extra = sorted(set(world.cfg_extra) | set(extra))\n")],
         needs='a flavour whose lines depend on their order, or lines given before', breaks='the lines of the configuration come in another order and only once',
         demo='''
from redeclipse import worldflavors
class M:
    cfg_extra = ['zzz 1', 'zzz 1']
m = M()
worldflavors.update(m, ['maliwan', 'space_station'])
assert m.cfg_extra == ['zzz 1', 'zzz 1'] + worldflavors.maliwan() + worldflavors.space_station(), m.cfg_extra
'''),
]
