"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/catalogue.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = 'redeclipse/'
P = []


def prop(id, title, statement, over, text, why, files, state, mechanism, observe_at, technique, note):
    P.append((id, title, statement, over, text, why, files, state, mechanism, observe_at, technique, note))


EXH = 'bounded exhaustive enumeration on the real code, '
TRUST = 'Exhaustive within the stated bounds on the real code; trusts the reference model in /verif/mc and the Python runtime. '

prop('C01', 'Map files survive reading and writing unchanged',
     'Every supported map file that is read and written again contains the same map: header, variables in order, texture list, entities with attributes and links, texture slots, the whole octree with textures, materials, edges and surfaces, and any data after it. '
     'When writing returns, the file on disk is complete and can be read back, and writing the map again gives the same bytes.',
     ['inputs'], 'All well-formed map files: any number and values of variables, entities, texture slots, octree shapes and leaf kinds.',
     'Tests read two sample maps and never compare a written file; equality has to hold for every combination of header fields, leaf kinds, flags and entity types.',
     [R + '__init__.py', R + 'objects.py', R + 'entities/__init__.py'],
     [('map', 'everything a map file holds', R + '__init__.py Map'), ('cube', 'one octree node', R + 'objects.py cube')],
     [('reader', R + '__init__.py MapParser.read'), ('writer', R + '__init__.py Map.write, write_cube')],
     'bytes of the written file, and what an independent parser and the library read from it',
     'bounded exhaustive enumeration of map files against an independent reference codec',
     'Enumerates leaf kinds x flags x depths, entity types x attribute values, variables, headers; each is encoded by an independent codec, read, written, re-read by both. ' + TRUST)

prop('C02', 'A saved map contains exactly what was loaded plus the edits made',
     'After any sequence of edits to a loaded map (adding or removing entities, setting variables, skybox and world flavour, replacing geometry, saving in between), the saved file contains precisely the loaded map with these edits applied, in order. '
     'Nothing else changes, counts in the header agree with the contents, and saving itself changes nothing.',
     ['histories'], 'All edit histories up to a depth over an alphabet of edits, saves and reloads.',
     'Tests never save an edited map; what a save writes depends on the whole history (stale counts, shared defaults, order of variables).',
     [R + '__init__.py', R + 'worldflavors.py', R + 'skybox/__init__.py'],
     [('map', 'loaded map under edit', R + '__init__.py Map')],
     [('writer', R + '__init__.py Map.write'), ('skybox', R + '__init__.py Map.skybox')],
     'the saved file, decoded by an independent parser',
     'explicit enumeration of edit histories (depth-bounded) against a plain model, saves decoded by an independent parser',
     'Every history of edits up to the depth bound is executed on the real map object and the file compared with the model. ' + TRUST)

prop('C03', 'Entities are saved where and as they were placed',
     'An entity created at a position given in tiles or in voxels is saved at that place in map units, with its kind and each given attribute, defaults for the rest, and its links. '
     'Every entity kind and weapon type can be created, saved and read back.',
     ['inputs'], 'All entity kinds, both position units, all attribute names with boundary values.',
     'Tests construct no entities; one wrong attribute slot or scale only shows for that kind and unit.',
     [R + 'entities/__init__.py', R + 'entities/model.py', R + 'entities/weapon.py', R + 'enums.py'],
     [('entity', 'position, kind, ordered attributes, links', R + 'entities/__init__.py')],
     [('constructors', R + 'entities/*.py'), ('serialisation', R + 'entities/__init__.py Entity.serialize')],
     'the entity section of a saved map, decoded independently',
     EXH + 'against a table of entity kinds', 'All kinds x units x attributes x boundary values; compared after a save with an independent parser. ' + TRUST)

prop('C04', 'JSON export shows the whole map; import restores all but geometry',
     'The JSON export of any map is valid JSON which lists every header field, variable, entity (with attributes by name) and octree node with its textures and faces. '
     'Importing such an export gives back the same header, variables, texture list, entities and texture slots, and exporting that again gives the same values for them.',
     ['inputs'], 'All map files in the alphabet of C01.',
     'Tests do not touch export or import; values that are not JSON types only appear for particular leaf kinds or entity types.',
     [R + '__init__.py', R + 'objects.py', R + 'entities/__init__.py', R + 'cli/to_json.py', R + 'cli/from_json.py'],
     [('map', 'everything a map file holds', R + '__init__.py Map')],
     [('export', R + '__init__.py Map.to_dict'), ('import', R + '__init__.py Map.from_dict')],
     'the JSON text and the imported map',
     EXH + 'against the reference map', 'Same map alphabet as C01 and the shipped base maps, exported and imported, in memory and with the two console tools (whole and every --section). Import of geometry is a recorded known finding. ' + TRUST)

prop('C05', 'The voxel world holds the last value written to each cell',
     'After any sequence of writes and deletions a cell holds the value last written to it, or nothing if it was deleted since or never written; no other cell changes. '
     'The recorded extent covers exactly the range of cells written so far.',
     ['histories'], 'All sequences of writes, deletions and look-ups up to a depth, through both the scalar and the vector interface.',
     'Tests write a few cells once; overwriting, deletion and mixing of interfaces are histories.',
     [R + 'voxel/__init__.py'],
     [('cells', 'dictionary from cell to value', R + 'voxel/__init__.py VoxelWorld.world'), ('extent', 'smallest and largest coordinates', R + 'voxel/__init__.py')],
     [('setters', R + 'voxel/__init__.py set_point, set_pointv'), ('deletion', R + 'voxel/__init__.py del_point, del_pointv')],
     'look-ups and extents after each step',
     'explicit-state exploration of operation sequences against a dictionary model', 'Every operation sequence to the depth bound. ' + TRUST)

prop('C06', 'The saved octree contains exactly the voxels that were set',
     'Converting a voxel world and saving it yields an octree whose solid leaves are exactly the set voxels, each at its coordinates with its textures, and everything else is empty, for any set of voxels and any power-of-two size. '
     'The saved file read back shows the same voxels.',
     ['inputs'], 'All subsets of small worlds, all single and paired voxels and structured patterns in larger ones, sizes 2 to 256.',
     'The one test converts a single arrangement; an exchanged octant or axis only shows for other cells or depths.',
     [R + 'voxel/__init__.py', R + '__init__.py', R + 'objects.py', R + 'cli/__init__.py'],
     [('octree', 'nested lists of 8 nodes', R + 'objects.py cube')],
     [('conversion', R + 'voxel/__init__.py to_octree'), ('writer', R + '__init__.py write_cube')],
     'leaves of the octree and of the saved file',
     'bounded exhaustive enumeration of voxel sets; octree decoded independently', 'All 256 subsets of a 2-cubed world, systematic families above. ' + TRUST)

prop('C07', 'Quarter-turn rotations are exact',
     'Rotating a position by any multiple of 90 degrees, given as an angle or as a compass direction, about the origin, any centre, or the middle of a tile or of the map, gives exactly the turned position in the same unit; four quarter turns restore it, turns add up, and height never changes. '
     'The angle reported for a compass direction is the turn that leads from east to it.',
     ['inputs'], 'All positions on a grid including half units and negative coordinates, all angles in a wide range of multiples of 90.',
     'Tests rotate a handful of vectors; trigonometric rounding and signs must be right for all of them.',
     [R + 'vector/__init__.py', R + 'vector/orientations.py'],
     [('vector', 'three components with a unit', R + 'vector/__init__.py')],
     [('rotation', R + 'vector/__init__.py rotate, offset_rotate'), ('directions', R + 'vector/orientations.py')],
     'components of the results', EXH + 'against integer rotation matrices', 'Grid x angles x centres, both units. ' + TRUST)

prop('C08', 'Tile and voxel coordinates form one consistent space',
     'A tile position denotes the same place as the voxel position eight times as large: conversions, sums, differences, scaling, equality and map units agree with that for every combination of units, and operands never change. '
     'Equality is an equivalence relation, positions of one unit are totally ordered and work as set members and dictionary keys.',
     ['inputs'], 'All pairs (and triples for relations) of positions on a grid with negative and fractional components, in both units.',
     'Tests check single sums; mixed units and negative coordinates must agree for all pairs.',
     [R + 'vector/__init__.py', R + 'vector/re.py'], [('vector', 'three components with a unit', R + 'vector/__init__.py')],
     [('arithmetic', R + 'vector/__init__.py'), ('conversion', R + 'vector/__init__.py fine, coarse, entity, vox')],
     'results of the operations', EXH + 'against exact arithmetic', 'All pairs on the grid. Cross-unit hash and ordering are recorded known findings. ' + TRUST)

prop('C09', 'No two rooms ever share a cell',
     'In every reachable placement no grid cell is claimed by two rooms (mirrored copies included), and the record of occupied cells names exactly the claimed cells, each with the room that claims it. '
     'Registering a room that overlaps a placed room, its own copies or itself is refused.',
     ['histories'], 'All registration histories up to a depth from many starting rooms, for all mirror modes.',
     'Tests register a few rooms in one place; overlap between mirrored copies depends on the history and position.',
     [R + 'upm.py', R + 'prefabs/__init__.py'], [('occupied', 'cell to room', R + 'upm.py UnusedPositionManager.occupied'), ('rooms', 'placed rooms', R + 'upm.py')],
     [('pre-registration', R + 'upm.py preregister_room'), ('registration', R + 'upm.py register_room'), ('mirroring', R + 'upm.py mirror')],
     'the manager state after each registration', 'explicit-state exploration of the real placement manager with an independent integer model in lock step',
     'Breadth-first over all candidate placements to the depth bound; every transition is executed on the real manager and replayed on the model. ' + TRUST)

prop('C10', 'The list of open doors is exact',
     'At any time the open doors are precisely the doors of placed rooms whose outer cell lies on the map and is not occupied, each listed once with its own room and direction. '
     'Doors disappear as soon as their cell is built upon and none is lost otherwise.',
     ['histories'], 'All registration histories up to a depth, all mirror modes, including positions at the edges of the map.',
     'Tests count doors of one or two rooms; staleness depends on the order of placements.',
     [R + 'upm.py'], [('unoccupied', 'open doors (cell, room, direction)', R + 'upm.py')],
     [('registration', R + 'upm.py register_room'), ('legality', R + 'upm.py is_legal')], 'the list of open doors after each registration',
     'explicit-state exploration of the real placement manager with an independent integer model in lock step', 'As C09. ' + TRUST)

prop('C11', 'Rooms never stick out of the map',
     'A room is accepted only if all its cells (and those of its mirrored copies) and the cells its doors lead to lie inside the map, at every position, orientation and mirror mode; positions are legal exactly if they lie inside. ',
     ['inputs', 'histories'], 'All positions around every face, edge and corner of the map, all orientations, all mirror modes, and explored histories.',
     'Tests probe a few coordinates; bounds can be wrong on one face, for one orientation, or for one mirrored copy.',
     [R + 'upm.py'], [('grid', 'the 32-cubed placement grid', R + 'upm.py')],
     [('legality', R + 'upm.py is_legal'), ('pre-registration', R + 'upm.py preregister_room')], 'acceptance or refusal of each placement',
     'bounded exhaustive enumeration of placements plus explicit-state exploration', 'All grid cells for legality, all cells near the boundary for rooms. ' + TRUST)

prop('C12', 'Mirrored maps are symmetric',
     'With two- or four-way mirroring every placement adds its rotated copies, so that rooms with their orientations, cells and doors, open doors, and links are invariant under the rotation about the middle of the map. '
     'The rendered voxels and textures are symmetric in the same way.',
     ['histories', 'configurations'], 'All registration histories up to a depth, mirror modes 1, 2, 4, all orientations; rendering of the offered rooms at several places.',
     'Tests compare a few positions; symmetry must hold for orientation, links and rendering of every room kind.',
     [R + 'upm.py', R + 'prefabs/__init__.py', R + 'prefabs/construction_kit.py', R + 'prefabs/magica.py'],
     [('rooms', 'placed rooms', R + 'upm.py')], [('mirroring', R + 'upm.py mirror, register_room, register_link')], 'manager state and voxel world',
     'explicit-state exploration with a symmetry invariant; rendered voxels compared under rotation', 'As C09; rendering under a fixed random source. ' + TRUST)

prop('C13', 'Links join rooms that meet at a door, and the map is connected',
     'Every recorded link names cells of two different placed rooms that really meet at a common door, and every placed room can be reached from a start room or one of its copies through links. '
     'The exported graph file has one node per room and one edge per link, joining the right nodes.',
     ['histories'], 'All placement histories up to a depth, complete runs of the placement loop under enumerated random answers, all mirror modes.',
     'Tests never look at links or the exported graph.',
     [R + 'upm.py', R + 'cli/__init__.py'], [('links', 'pairs of positions', R + 'upm.py')],
     [('link registration', R + 'upm.py register_link'), ('export', R + 'cli/__init__.py output')], 'links and the exported graph file',
     'explicit-state exploration with a connectivity invariant', 'As C09 plus runs of the placement loop with all single deviations of random answers. ' + TRUST)

prop('C14', 'A refused or merely tried placement leaves no trace',
     'Asking whether a room fits changes nothing, and a registration that is refused leaves rooms, occupied cells, open doors and links exactly as they were, even if only a later mirrored copy collides. '
     'Anything done afterwards behaves as if the attempt had never been made.',
     ['histories', 'fault_sequences'], 'Every state reachable by registration histories to a depth, every attempt from an alphabet of rooms around the newest room and its copies.',
     'Tests only check that an exception is raised.',
     [R + 'upm.py'], [('manager', 'rooms, occupied, unoccupied, links', R + 'upm.py')],
     [('registration', R + 'upm.py register_room'), ('pre-registration', R + 'upm.py preregister_room')], 'manager state before and after, and successor states',
     'explicit-state exploration with failing registrations injected in every state', 'As C09, differential: state and continuation with and without the failed attempt. ' + TRUST)

prop('C15', 'The placement loop offers what fits, stops, and keeps its promises',
     'For an open door the candidate placements are exactly those whose own door meets it and which fit. '
     'The placement loop always terminates, places the requested number of rooms unless no open door can be continued any more, never abandons a door that something still fits, and everything it places is registered and linked.',
     ['histories', 'schedules'], 'Every explored placement state and door; all runs of the loop with a bounded number of non-default random answers, in hollow spaces that run out of room.',
     'Tests run the loop once with one seed; termination and completeness are about every sequence of random choices.',
     [R + 'upm.py'], [('doors', 'open doors', R + 'upm.py unoccupied')],
     [('candidates', R + 'upm.py room_localization'), ('loop', R + 'upm.py place_rooms')], 'candidates, and the manager when the loop returns',
     'explicit-state exploration of the candidate generator, deviation-bounded exploration of random choices of the loop', 'Controlled random source; all choice sequences with at most k deviations. ' + TRUST)

prop('C16', 'End caps close what they can and disturb nothing',
     'End capping never changes or overlaps rooms already placed, never opens new doors, and afterwards no open door is left that one of the given caps would still fit. '
     'Debug caps fill every open door cell once.',
     ['histories', 'schedules'], 'Every explored placement state, several cap sets, enumerated random answers, all mirror modes.',
     'Tests do not cover end caps.',
     [R + 'upm.py'], [('doors', 'open doors', R + 'upm.py unoccupied')], [('end caps', R + 'upm.py endcap')], 'manager state before and after',
     'explicit-state exploration; end capping executed in every reached state', 'As C09. ' + TRUST)

prop('C17', 'Random choices follow their weights',
     'Weighted choices of doors, rooms and room options pick each alternative in proportion to its weight, never one of weight zero, and always pick something when some weight is positive, whatever the random source returns. '
     'Transition tables are complete, non-negative and normalised, room streams contain every room class in the shares the table gives, and random room options flip the declared flags only.',
     ['inputs', 'schedules'], 'All weight lists over an alphabet, and a fine exhaustive grid of random answers including both ends of the unit interval; all distribution tables and room types.',
     'Tests call the choice once; falling off the end or a skewed share shows only for particular answers.',
     [R + 'upm.py', R + 'prefabs/distributions.py', R + 'prefabs/__init__.py'], [('weights', 'transition tables', R + 'prefabs/distributions.py')],
     [('choice', R + 'upm.py weighted_choice, nonrandom_position'), ('stream', R + 'upm.py random_room_stream'), ('options', R + 'prefabs/__init__.py randOpts')],
     'the picked alternatives', 'exhaustive enumeration of random answers (controlled random source) over enumerated weights', 'A grid of answers decides the shares to within its resolution. ' + TRUST)

prop('C18', 'Construction shapes fill exactly the intended cells',
     'Drawing any construction shape (cube, column, dotted column, floor, ceiling, wall, low wall, ring, box) sets exactly the cells of that shape at the given offset, turned with the room, with the given texture; cutting removes exactly these cells, and other cells never change. '
     'Of several operations the last one wins, and with a probability only cells of the shape appear.',
     ['inputs', 'histories'], 'All shapes x parameters in range x orientations x rooms x offsets, sequences of operations, all combinations of random answers for small shapes.',
     'Tests check the bare point generators for a few sizes in one orientation.',
     [R + 'prefabs/construction_kit.py'], [('world', 'voxel world', R + 'voxel/__init__.py')],
     [('shapes', R + 'prefabs/construction_kit.py ConstructionKitMixin'), ('points', R + 'prefabs/construction_kit.py cube_points, wall_points, column_points')],
     'cells of the voxel world', EXH + 'against a set-of-cells model; operation sequences to a depth', 'Line interpolation is documented as broken and outside. ' + TRUST)

prop('C19', 'A room looks the same wherever and however it is turned',
     'For every room kind and every setting of its options, turning or moving the room turns or moves its cells, doors, rendered voxels with their textures, and the things in it (pushers with their direction, models, spawns, weapons, flags, lights) along with it. '
     'The only exception are the colour marks and flags of team rooms, which name the team that belongs to the orientation.',
     ['inputs', 'configurations'], 'All room classes of all prefab packages x all option settings x 4 orientations x several positions x fixed random answers.',
     'Tests render no rooms at all.',
     [R + 'prefabs/__init__.py', R + 'prefabs/magica.py', R + 'prefabs/castle/__init__.py', R + 'prefabs/spacestation/__init__.py', R + 'vector/orientations.py'],
     [('room', 'position, orientation, options', R + 'prefabs/__init__.py Room')],
     [('rendering', R + 'prefabs/*: render, render_extra'), ('turning', R + 'prefabs/construction_kit.py'), ('yaw', R + 'vector/orientations.py rotate_yaw')],
     'voxels and entities of a room rendered alone', EXH + 'against the turned rendering', 'Every room variant; lights may differ by two voxels. ' + TRUST)

prop('C20', 'Rooms render inside the cells they claim',
     'Whatever its options, orientation, position and the random answers, a room only draws voxels inside the cells it claims, so that separately placed rooms never run into each other. '
     'Its entities lie within the extent of its cells.',
     ['inputs', 'schedules'], 'All room classes x option settings x orientations x enumerated random answers.',
     'Tests render no rooms; random rooms leave their cells only for particular answers.',
     [R + 'prefabs/__init__.py', R + 'prefabs/magica.py', R + 'prefabs/construction_kit.py'], [('cells', 'claimed by a room', R + 'prefabs/__init__.py get_positions')],
     [('rendering', R + 'prefabs/*: render'), ('claims', R + 'prefabs/*: _get_positions')], 'voxels and entities of a room rendered alone',
     'exhaustive enumeration of room variants with deviation-bounded exploration of their random choices', 'Two rooms with recorded known findings. ' + TRUST)

prop('C21', 'Doorways lead out of the room through an opening',
     'Every doorway of every room kind, in every orientation and option setting, leads horizontally out of one of the cells the room claims into a neighbouring cell the room does not claim, and no doorway is listed twice. '
     'The rendered room leaves an opening at least two voxels high in the wall at each doorway.',
     ['inputs', 'configurations'], 'All room classes x option settings x orientations x doorways.',
     'Tests do not look at the doors of the offered rooms.',
     [R + 'prefabs/__init__.py', R + 'prefabs/magica.py', R + 'prefabs/castle/__init__.py', R + 'prefabs/dungeon/__init__.py', R + 'prefabs/egypt/__init__.py', R + 'prefabs/spacestation/__init__.py', R + 'prefabs/original/__init__.py'],
     [('doors', 'offset and direction', R + 'prefabs/*: doors')], [('doorways', R + 'prefabs/__init__.py get_doorways')], 'doors, cells and voxels of each room',
     EXH + 'over every room variant', 'Doors of two egypt rooms are recorded known findings; demonstration rooms (Test...) need no opening. ' + TRUST)

EXTRA = os.path.join(ROOT, 'tools', 'catalogue2.py')
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())


def main():
    have = [p for p in P if os.path.exists(os.path.join(ROOT, 'mc', 'checks', p[0].lower() + '.py'))]
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as h:
        for (id, title, statement, over, text, why, files, state, mech, obs, tech, note) in have:
            assert len(title) <= 80, title
            assert statement.strip().count('. ') <= 2, (id, statement)
            h.write(json.dumps({
                'id': id, 'title': title, 'statement': statement.strip(), 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                            'mechanism': [dict(zip(('name', 'where'), m)) for m in mech], 'observe_at': [obs], 'hook_needed': None}}) + '\n')
    man = {'version': 1, 'setup_cmd': './check --selftest', 'checks': [
        {'property': p[0], 'quick_cmd': './check %s quick' % p[0], 'thorough_cmd': './check %s thorough' % p[0],
         'technique': p[10], 'level': 'model_checking', 'level_note': p[11].strip()} for p in have],
        'not_applicable': [],
        'notes': 'No hooks in /repo are needed: the checks drive the real code through its public interface, with a controlled random source. Known findings: known_findings.txt.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as h:
        json.dump(man, h, indent=1)
        h.write('\n')


main()
