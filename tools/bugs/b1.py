# Planted bugs, C01-C08.  Written from the property texts and the code.
M = 'redeclipse/__init__.py'
V = 'redeclipse/vector/__init__.py'
READ = '''
from redeclipse import MapParser
def load(p):
    return MapParser().read(p)
'''
BUGS = [
 dict(id='c01-merged-before-material', property='C01',
  edits=[(M, """        if c.octsav & 0x40:
            self._write_ushort(handle, c.material)
        if c.octsav & 0x80:
            self._write_int_as_chr(handle, c.merged)
""", """        if c.octsav & 0x80:
            self._write_int_as_chr(handle, c.merged)
        if c.octsav & 0x40:
            self._write_ushort(handle, c.material)
""")],
  needs='an octree leaf carrying both a material and merged faces',
  breaks='material and merged bytes are swapped in the written file, so the leaf reads back with another material',
  demo=READ + '''
m = load('maps/empty2.mpz')
leaf = m.world[0]
assert not leaf.children or True
from redeclipse.objects import cube
c = cube.newtexcube(3)
c.octsav = 2 | 0x40 | 0x80
c.material = 0x1234
c.merged = 7
m.world[5] = c
m.write(SCRATCH + '/a.mpz')
d = load(SCRATCH + '/a.mpz').world[5]
assert (d.material, d.merged) == (0x1234, 7), (d.material, d.merged)
'''),
 dict(id='c01-texmru-dedupe', property='C01',
  edits=[(M, """            texmru.append(self._read_ushort())
""", """            tex = self._read_ushort()
            if tex not in texmru:
                texmru.append(tex)
""")],
  needs='a map whose most-recently-used texture list names a texture twice',
  breaks='repeated entries of the texture list are lost on reading',
  demo=READ + '''
m = load('maps/empty2.mpz')
m.texmru = [4, 2, 4]
m.write(SCRATCH + '/a.mpz')
assert load(SCRATCH + '/a.mpz').texmru == [4, 2, 4]
'''),
 dict(id='c01-string-var-trailing-nul', property='C01',
  edits=[(M, """            return data[0][0:-1]
""", """            return data[0].rstrip(b'\\0')
""")],
  needs='a string variable (or game identifier) whose text ends in a NUL byte before the terminator',
  breaks='the string is shortened on reading; the written file differs from the one read',
  demo=READ + '''
m = load('maps/empty2.mpz')
m.map_vars[b'maptitle'] = b'abc\\0\\0'
m.write(SCRATCH + '/a.mpz')
assert load(SCRATCH + '/a.mpz').map_vars[b'maptitle'] == b'abc\\0\\0'
'''),
 dict(id='c01-float-rounding', property='C01',
  edits=[(M, """            e = Entity(FineVector(x, y, z) / 4, EntType(ord(etype)), attrs, links, reserved)
""", """            e = Entity(FineVector(round(x / 4, 3), round(y / 4, 3), round(z / 4, 3)), EntType(ord(etype)), attrs, links, reserved)
""")],
  needs='an entity placed at a fractional position finer than 1/250 of a map unit',
  breaks='entity positions are rounded when a map is read',
  demo=READ + '''
from redeclipse.entities import Light
from redeclipse.vector import FineVector
m = load('maps/empty2.mpz')
l = Light(FineVector(1, 2, 3)); l.o.x = 1 / 1024
m.ents = [l]
m.write(SCRATCH + '/a.mpz')
assert load(SCRATCH + '/a.mpz').ents[0].o.x == 1 / 1024
'''),
 dict(id='c01-lightmap-bytes', property='C01',
  edits=[(M, """                    self._write_char(handle, surfinfo.lmid[1])
                    self._write_char(handle, surfinfo.verts)
""", """                    self._write_char(handle, surfinfo.lmid[1] or surfinfo.lmid[0])
                    self._write_char(handle, surfinfo.verts)
""")],
  needs='a surface with a first lightmap id set and a zero second one in a file that is read and written',
  breaks='second lightmap id of such surfaces becomes the first',
  demo=READ + '''
from redeclipse.objects import cube
m = load('maps/empty2.mpz')
m.world[5] = cube.newtexcube(3)
m.write(SCRATCH + '/a.mpz')
assert [s.lmid for s in load(SCRATCH + '/a.mpz').world[5].ext.surfaces] == [[2, 0]] * 6
'''),
 dict(id='c02-numents-never-shrinks', property='C02',
  edits=[(M, """        self.meta['numents'] = len(self.ents)
""", """        self.meta['numents'] = max(self.meta.get('numents', 0), len(self.ents))
""")],
  needs='removing entities from a loaded map before saving it',
  breaks='the header counts more entities than the file holds; the file cannot be read back',
  demo=READ + '''
from redeclipse.entities import Light
from redeclipse.vector import FineVector
m = load('maps/empty2.mpz')
m.ents = [Light(FineVector(1, 2, 3)), Light(FineVector(2, 2, 3))]
m.write(SCRATCH + '/a.mpz')
m = load(SCRATCH + '/a.mpz')
del m.ents[0]
m.write(SCRATCH + '/b.mpz')
n = load(SCRATCH + '/b.mpz')
assert len(n.ents) == 1 and n.meta['numents'] == 1
'''),
 dict(id='c02-write-reorders-ents', property='C02',
  edits=[(M, """        self._write_ents(handle, self.ents)
""", """        # Sunlights are global, have them first.
        self._write_ents(handle, sorted(self.ents, key=lambda e: e.type != EntType.ET_SUNLIGHT))
""")],
  needs='a sunlight that is added after other entities (entity links refer to positions in the list)',
  breaks='the saved entities are not in the order of the map; indices used by links point to other entities',
  demo=READ + '''
from redeclipse.entities import Light, Sunlight
from redeclipse.vector import FineVector
m = load('maps/empty2.mpz')
m.ents = [Light(FineVector(1, 2, 3)), Sunlight(), Light(FineVector(2, 2, 3), links=[0])]
m.write(SCRATCH + '/a.mpz')
assert [e.type.name for e in load(SCRATCH + '/a.mpz').ents] == ['ET_LIGHT', 'ET_SUNLIGHT', 'ET_LIGHT']
'''),
 dict(id='c02-vars-sorted', property='C02',
  edits=[(M, """        for key in self.map_vars:
            var_name = key
            value = self.map_vars[key]
            var_type = type(self.map_vars[key]).__name__
""", """        for key in sorted(self.map_vars, key=tb):
            var_name = key
            value = self.map_vars[key]
            var_type = type(self.map_vars[key]).__name__
""")],
  needs='a variable set on a map that sorts before an existing one',
  breaks='the order of the variables is not kept in the saved file',
  demo=READ + '''
m = load('maps/empty2.mpz')
m.map_vars[b'aaa'] = 5
want = list(m.map_vars.items())
m.write(SCRATCH + '/a.mpz')
assert list(load(SCRATCH + '/a.mpz').map_vars.items()) == want
'''),
 dict(id='c03-mapmodel-spin', property='C03',
  edits=[('redeclipse/entities/model.py', """            palindex, spinyaw, spinpitch, spinroll
""", """            palindex, spinyaw, spinroll, spinpitch
""")],
  needs='a map model with different spin pitch and spin roll',
  breaks='the two attributes are saved in each other\'s place',
  demo=READ + '''
from redeclipse.entities.model import MapModel
from redeclipse.vector import FineVector
e = MapModel(FineVector(0, 0, 0), spinpitch=5, spinroll=6)
d = e.to_dict()['attr']
assert (d['spinpitch'], d['spinroll']) == (5, 6), d
'''),
 dict(id='c03-grenade-modes', property='C03',
  edits=[('redeclipse/entities/weapon.py', """            9, flags, modes, muts, id
""", """            9, flags, muts, modes, id
""")],
  needs='a grenade restricted to some game modes',
  breaks='modes and mutators are exchanged in the saved grenade',
  demo='''
from redeclipse.entities.weapon import Grenade
from redeclipse.vector import FineVector
e = Grenade(FineVector(0, 0, 0), modes=5, muts=6)
assert e.attrs == [9, 0, 5, 6, 0], e.attrs
'''),
 dict(id='c03-shared-links', property='C03',
  edits=[('redeclipse/entities/__init__.py', """class Pusher(Entity):

    def __init__(self, xyz, yaw=0, pitch=45, force=150, maxrad=0, minrad=0, type=0, links=None, reserved=None):
""", """class Pusher(Entity):

    def __init__(self, xyz, yaw=0, pitch=45, force=150, maxrad=0, minrad=0, type=0, links=[], reserved=None):
""")],
  needs='two pushers made without links, one of which is linked afterwards',
  breaks='all pushers share one link list',
  demo='''
from redeclipse.entities import Pusher
from redeclipse.vector import FineVector
a = Pusher(FineVector(0, 0, 0)); b = Pusher(FineVector(1, 0, 0))
a.links.append(4)
assert b.links == [], b.links
'''),
 dict(id='c03-pusher-pitch-zero', property='C03',
  edits=[('redeclipse/entities/__init__.py', """            yaw, pitch, force, maxrad, minrad, type
        ]
        self.links""", """            yaw, pitch or 45, force, maxrad, minrad, type
        ]
        self.links""")],
  needs='a pusher with a pitch of zero',
  breaks='a horizontal pusher is saved with the default pitch',
  demo='''
from redeclipse.entities import Pusher
from redeclipse.vector import FineVector
assert Pusher(FineVector(0, 0, 0), pitch=0).attrs[1] == 0
'''),
 dict(id='c04-links-sorted', property='C04',
  edits=[('redeclipse/entities/__init__.py', """            'links': self.links,
""", """            'links': sorted(set(self.links)),
""")],
  needs='an entity whose links are not sorted (or repeat)',
  breaks='order of the links is lost in the export and after import',
  demo=READ + '''
import json
from redeclipse import Map
from redeclipse.entities import Light
from redeclipse.vector import FineVector
m = load('maps/empty2.mpz')
m.ents = [Light(FineVector(1, 2, 3), links=[2, 0])]
assert Map.from_dict(json.loads(m.to_json())).ents[0].links == [2, 0]
'''),
 dict(id='c04-float-var-becomes-int', property='C04',
  edits=[(M, """            else:
                map_vars[str.encode(key)] = value

        # TODO
        world = {}
""", """            else:
                map_vars[str.encode(key)] = int(value) if value == int(value) else value

        # TODO
        world = {}
""")],
  needs='a float variable that holds a whole number',
  breaks='the variable comes back as an integer variable',
  demo=READ + '''
import json
from redeclipse import Map
m = load('maps/empty2.mpz')
m.map_vars[b'skyboxcolour'] = 2.0
n = Map.from_dict(json.loads(m.to_json()))
assert type(n.map_vars[b'skyboxcolour']) is float
'''),
 dict(id='c04-material-zero', property='C04',
  edits=[('redeclipse/objects.py', """            'material': self.material,
""", """            'material': self.material or None,
""")],
  needs='a leaf with an explicit material 0',
  breaks='the material of such leaves is missing in the export',
  demo='''
from redeclipse.objects import cube
c = cube.newtexcube(3)
c.octsav |= 0x40
c.material = 0
assert c.to_dict()['material'] == 0
'''),
 dict(id='c04-texmru-sorted', property='C04',
  edits=[(M, """            'texmru': self.texmru,
            'entities'""", """            'texmru': sorted(self.texmru),
            'entities'""")],
  needs='a texture list that is not sorted',
  breaks='the most-recently-used order of textures is lost',
  demo=READ + '''
import json
m = load('maps/empty2.mpz')
m.texmru = [5, 1, 3]
assert json.loads(m.to_json())['texmru'] == [5, 1, 3]
'''),
 dict(id='c05-elif-bounds', property='C05',
  edits=[('redeclipse/voxel/__init__.py', """            self.zmax = z
        if z < self.zmin:
            self.zmin = z
""", """            self.zmax = z
        elif z < self.zmin:
            self.zmin = z
""")],
  needs='a world whose first voxel is also its lowest one, above the ground',
  breaks='the recorded lower bound misses cells written in ascending order',
  demo='''
from redeclipse.voxel import VoxelWorld
v = VoxelWorld(16)
v.set_point(3, 3, 3, 1); v.set_point(4, 4, 5, 1)
assert (v.zmin, v.zmax) == (3, 5), (v.zmin, v.zmax)
'''),
 dict(id='c05-delete-shrinks-extent', property='C05',
  edits=[('redeclipse/voxel/__init__.py', """        (x, y, z) = xyz
        if (x, y, z) in self.world:
            del self.world[x, y, z]
""", """        (x, y, z) = xyz
        if self.world.pop((x, y, z), None) is not None:
            if x == self.xmax:
                self.xmax = max((p[0] for p in self.world), default=0)
""")],
  needs='deleting (by vector) the easternmost voxel written so far',
  breaks='the extent no longer covers all cells written so far',
  demo='''
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import FineVector
v = VoxelWorld(16)
v.set_point(3, 3, 3, 1); v.set_point(7, 4, 5, 1)
v.del_pointv(FineVector(7, 4, 5))
assert v.xmax == 7
'''),
 dict(id='c05-overwrite-keeps-first', property='C05',
  edits=[('redeclipse/voxel/__init__.py', """        self._update_boundaries(xyz.x, xyz.y, xyz.z)
        self.world[tuple(xyz)] = data
""", """        self._update_boundaries(xyz.x, xyz.y, xyz.z)
        self.world[tuple(xyz.vox())] = data
"""), ('redeclipse/voxel/__init__.py', """        (x, y, z) = xyz
        if (x, y, z) in self.world:
            del self.world[x, y, z]
""", """        p = tuple(round(c) for c in xyz)
        if p in self.world:
            del self.world[p]
""")],
  needs='a voxel written and deleted through a vector with fractional (half) coordinates',
  breaks='writing floors and deleting rounds: the deleted cell is not the one that was written',
  demo='''
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import FineVector
v = VoxelWorld(16)
v.set_pointv(FineVector(3.5, 3, 3), 1)
v.del_pointv(FineVector(3.5, 3, 3))
assert not v.world, v.world
v.set_point(4, 3, 3, 1)
v.del_pointv(FineVector(3.5, 3, 3))
assert len(v.world) == 1
'''),
 dict(id='c06-merge-uniform', property='C06',
  edits=[('redeclipse/voxel/__init__.py', """        elif all([x is None for x in current_level_cubes]):
            # If they're all empty, return
            return None
        else:
""", """        elif not any(current_level_cubes):
            # If they're all empty, return
            return None
        elif all([not getattr(x, 'children', True) for x in current_level_cubes]) and \\
                len(set([x.texture[0] for x in current_level_cubes])) == 1:
            # All the same, one larger cube does.
            return current_level_cubes[0]
        else:
""")],
  needs='eight solid neighbours which share the first face texture but differ on another face',
  breaks='the merged octree leaf shows the first voxel\'s textures on all eight',
  demo='''
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
v = VoxelWorld(4)
for x in (0, 1):
    for y in (0, 1):
        for z in (0, 1):
            v.set_point(x, y, z, cube.newtexcube([3, 4, 5, 6, 7, 8 + x]))
o = v.to_octree()
def leaf(i):
    c = o[0]
    return c.children[i] if c.children else c
assert leaf(0).texture[5] == 8 and leaf(1).texture[5] == 9
'''),
 dict(id='c06-y-split', property='C06',
  edits=[('redeclipse/voxel/__init__.py', """        elif all([x is None for x in current_level_cubes]):
            # If they're all empty, return
            return None
""", """        elif not any(current_level_cubes[:4] + current_level_cubes[5:]):
            # If they're all empty, return
            return None
""")],
  needs='a block whose only voxel lies in its upper south-west octant (index 4)',
  breaks='a lone voxel at certain positions vanishes from the octree',
  demo='''
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
v = VoxelWorld(4)
v.set_point(2, 2, 1, cube.newtexcube(3))
o = v.to_octree()
assert o[3].children and o[3].children[4].octsav & 7 == 3
'''),
 dict(id='c07-large-turns', property='C07',
  edits=[(V, """            theta = pi * deg / 180
""", """            theta = 3.14159265 * deg / 180
""")],
  needs='several full turns, or a position far from the origin',
  breaks='the rounding error of the angle grows with turn and distance until the result is off by half a voxel',
  demo='''
from redeclipse.vector import FineVector
assert tuple(FineVector(1000, 0, 2).rotate(360 * 500000 + 90)) == (0, 1000, 2), FineVector(1000, 0, 2).rotate(360 * 500000 + 90)
'''),
 dict(id='c07-get-rotation-north', property='C07',
  edits=[('redeclipse/vector/orientations.py', """    return int(180 * math.atan2(vec.y, vec.x) / math.pi)
""", """    return int(180 * math.atan2(vec.y, abs(vec.x)) / math.pi)
""")],
  needs='asking for the turn of west',
  breaks='west is reported as east',
  demo='''
from redeclipse.vector.orientations import get_vector_rotation, WEST
assert get_vector_rotation(WEST) % 360 == 180, get_vector_rotation(WEST)
'''),
 dict(id='c07-yaw-negative', property='C07',
  edits=[('redeclipse/vector/orientations.py', """        return (angle + 180) % 360
""", """        return angle + 180 if angle < 180 else angle - 180
""")],
  needs='a negative yaw (or one above 540) in a room facing west',
  breaks='the turned yaw is not normalised like the others',
  demo='''
from redeclipse.vector.orientations import rotate_yaw, WEST
assert rotate_yaw(-270, WEST) == 270, rotate_yaw(-270, WEST)
'''),
 dict(id='c07-half-voxels', property='C07',
  edits=[(V, """            round((2 * self.x * sin(theta)) + (2 * self.y * cos(theta))) / 2,
""", """            round((self.x * sin(theta)) + (self.y * cos(theta)), 0) if float(self.x).is_integer() else round((2 * self.x * sin(theta)) + (2 * self.y * cos(theta))) / 2,
""")],
  needs='a position with a whole x and a half y, as the middle of a voxel edge',
  breaks='the half is lost in the turned position',
  demo='''
from redeclipse.vector import FineVector
assert tuple(FineVector(1, 0.5, 2).rotate(180)) == (-1, -0.5, 2), FineVector(1, 0.5, 2).rotate(180)
'''),
 dict(id='c08-coarse-truncates', property='C08',
  edits=[(V, """            self.x // 8,
            self.y // 8,
            self.z // 8
""", """            int(self.x / 8),
            int(self.y / 8),
            int(self.z / 8)
""")],
  needs='a voxel position with a negative coordinate',
  breaks='negative voxels fall into the wrong tile',
  demo='''
from redeclipse.vector import FineVector
assert tuple(FineVector(-1, 3, 9).coarse()) == (-1, 0, 1)
'''),
 dict(id='c08-lt-z', property='C08',
  edits=[(V, """                if self.z < other.z:
                    return True
""", """                if self.z <= other.z:
                    return True
""")],
  needs='comparing a position with itself',
  breaks='a position is smaller than itself: no strict order, sorting and minimum become unstable',
  demo='''
from redeclipse.vector import FineVector
assert not FineVector(1, 2, 3) < FineVector(1, 2, 3)
'''),
 dict(id='c08-sub-height-sign', property='C08',
  edits=[(V, """        if isinstance(other, CoarseVector):
            return CoarseVector(
                self.x - other.x,
                self.y - other.y,
                self.z - other.z,
            )
        elif""", """        if isinstance(other, CoarseVector):
            if not any(other):
                return self
            return CoarseVector(
                self.x - other.x,
                self.y - other.y,
                abs(self.z - other.z),
            )
        elif""")],
  needs='a tile difference with a negative height',
  breaks='differences of tiles lose the sign of their height',
  demo='''
from redeclipse.vector import CoarseVector
assert tuple(CoarseVector(0, 0, 1) - CoarseVector(1, 0, 3)) == (-1, 0, -2)
'''),
]
