# Planted bugs, batch 6 (landscape scripts, and further ones elsewhere).
SF = 'redeclipse/cli/snow_forest.py'
PE = 'redeclipse/cli/perlin.py'
V = 'redeclipse/voxel/__init__.py'
U = 'redeclipse/upm.py'
P = 'redeclipse/prefabs/__init__.py'
LAND = '''
import contextlib, io, os, sys, tempfile
import redeclipse
REPO = os.path.dirname(os.path.dirname(os.path.realpath(redeclipse.__file__)))
def land(module, size):
    """({(x, y): heights of the solid cells}, entities) of a saved landscape"""
    import importlib
    with tempfile.TemporaryDirectory() as d:
        m = importlib.import_module('redeclipse.cli.' + module)
        out = os.path.join(d, 'out.mpz')
        sys.argv = [module, os.path.join(REPO, 'maps', 'empty-day.mpz'), out]
        with contextlib.redirect_stderr(io.StringIO()):
            m.main()
            world = redeclipse.MapParser().read(out)
    cols = {}
    def walk(cubes, x, y, z, s):
        for i, c in enumerate(cubes):
            a, b, e = x + (i & 1) * s, y + (i >> 1 & 1) * s, z + (i >> 2) * s
            if c.octsav & 7 == 0:
                walk(c.children, a, b, e, s // 2)
            elif c.octsav & 7 != 1:
                for p in range(s):
                    for q in range(s):
                        cols.setdefault((a + p, b + q), []).extend(range(e, e + s))
    walk(world.world, 0, 0, 0, size // 2)
    return {k: sorted(v) for k, v in cols.items()}, world.ents
'''
BUGS = [
    dict(id='c33-floating', property='C33', edits=[(SF, "            heightmap[(i, j)] = height\n", "            heightmap[(i, j)] = max(height, 54)\n")],
         needs='trees or spawns on ground lower than 54 voxels', breaks='things in the valleys float above the ground',
         demo=LAND + '''
cols, ents = land('snow_forest', 256)
for e in ents:
    x, y = int(e.o.x / 4), int(e.o.y / 4)
    if 0 < x < 255 and 0 < y < 255:
        assert e.o.z / 4 <= cols[x, y][-1] + 1, (e.o, cols[x, y])
'''),
    dict(id='c33-open-side', property='C33', edits=[(SF, "i == 0 or j == 0 or i == IJ_SIZE - 1 or j == IJ_SIZE - 1:", "i == 0 or j == 0 or i == IJ_SIZE - 1 or j == IJ_SIZE:")],
         needs='the northern edge of the landscape', breaks='the wall is missing on one of the four sides',
         demo=LAND + '''
cols, ents = land('snow_forest', 256)
for k in range(1, 255):
    for (x, y), (a, b) in (((0, k), (1, k)), ((255, k), (254, k)), ((k, 0), (k, 1)), ((k, 255), (k, 254))):
        assert cols[x, y][-1] >= cols[a, b][-1] + 7, (x, y)
'''),
    dict(id='c33-hollow-house', property='C33', edits=[(PE, "k < q + 4 and k >= q:", "k < q + 4 and k >= q + 1:")],
         needs='a building on the landscape', breaks='buildings hover one voxel above the ground',
         demo=LAND + '''
cols, ents = land('perlin', 128)
for c, zs in cols.items():
    assert zs == list(range(len(zs))), (c, zs)
'''),
    dict(id='c33-snow-hole', property='C33', edits=[(SF, "                v.set_point(i, j, k, cube.newtexcube(tex=tex))\n\n", "                if not (snow and point_tree(i, j)):\n                    v.set_point(i, j, k, cube.newtexcube(tex=tex))\n\n")],
         needs='a tree on snow', breaks='the ground is missing below trees that stand on snow',
         demo=LAND + '''
cols, ents = land('snow_forest', 256)
assert len(cols) == 256 * 256, len(cols)
'''),
    dict(id='c06-empty-world', property='C06', edits=[(V, """        if x_bounds[0] == 0 and x_bounds[1] == self.size:
            return [cube.newcube() if x is None else x for x in current_level_cubes]
        elif all([x is None for x in current_level_cubes]):
            # If they're all empty, return
            return None
""", """        if all([x is None for x in current_level_cubes]):
            # If they're all empty, return
            return None
        elif x_bounds[0] == 0 and x_bounds[1] == self.size:
            return [cube.newcube() if x is None else x for x in current_level_cubes]
""")],
         needs='a world without any voxel', breaks='the octree of an empty world is None, the map cannot be read back',
         demo='''
from redeclipse.voxel import VoxelWorld
w = VoxelWorld(8)
w.set_point(1, 1, 1, 1)
w.del_point(1, 1, 1)
assert len(w.to_octree()) == 8
'''),
]
