T = R + 'textures/__init__.py'
prop('C22', 'Each texture slot of a map shows the texture it was requested for',
     'Requesting a texture or colour gives the same slot for the same request, a new slot after all existing ones for a new one, and slots given out before never change their meaning. '
     'The configuration, read the way the game reads it, gives each slot exactly its own texture maps, colour and settings, in slot order and without gaps, and every texture a theme names exists.',
     ['inputs', 'histories'], 'All texture managers x all orders of requests up to a depth x all textures on offer.',
     'Tests never look at the written configuration, whose lines act on the slot before them: what a slot shows depends on the whole sequence of requests.',
     [T, R + 'textures/basetex.py', R + 'textures/minecraft_theme.py', R + 'textures/dull_theme.py', R + 'textures/magica_theme.py', R + 'textures/paper_theme.py', R + 'textures/primary_theme.py'],
     [('atlas', 'slot number to texture', T + ' atlas')], [('requests', T + ' get, get_c, get_colour'), ('configuration', T + ' emit_conf')],
     'slot numbers, and the written configuration as the game interprets it',
     'explicit enumeration of request histories on the real managers, the output interpreted by a model of the game', 'Missing picture files of the paper theme and empty.png are recorded known findings. ' + TRUST)

prop('C23', 'Exported .vox files hold exactly the voxels of the world',
     'The .vox export of any world is a well-formed file (chunk sizes, counts, header, 256 palette entries) that holds each voxel whose coordinates fit exactly once and nothing else, in the colour of its texture. '
     'Reading the file with an independent reader or with the library gives the same voxels, and exporting changes nothing.',
     ['inputs'], 'All worlds: any set of voxels on, inside and beyond the limits, any number of textures, colour and image textures.',
     'Tests do not export; limits show only with negative or large coordinates and more than a handful of textures.',
     [R + 'magicavoxel/writer.py', R + 'magicavoxel/reader.py'],
     [('world', 'cells and texture slots', R + 'voxel/__init__.py')], [('export', R + 'magicavoxel/writer.py to_magicavoxel')],
     'bytes of the .vox file', EXH + 'against an independent .vox parser', 'Enumerates cell sets at the boundaries, palette sizes and managers. ' + TRUST)

prop('C24', 'Model rooms show exactly their .vox model',
     'A room made from a .vox model draws exactly the voxels of the model, each in its colour from the palette, turned with the room and moved by the declared additions, and claims exactly the cells these voxels lie in. '
     'This holds for every shipped model and every model file a user may draw, however many rooms are made from it.',
     ['inputs', 'configurations'], 'All .vox models in an enumerated family (and all shipped ones) x orientations x additions x positions.',
     'Tests do not render model rooms; errors show only for models that do not fill their tiles, in some orientations or for some chunk layouts.',
     [R + 'prefabs/magica.py', R + 'magicavoxel/reader.py'], [('model', 'voxels and palette', R + 'prefabs/magica.py load_model')],
     [('loading', R + 'magicavoxel/reader.py'), ('rendering', R + 'prefabs/magica.py render, render_individual_voxel')],
     'voxels of a room rendered alone, its claimed cells', EXH + 'against models built and parsed independently', 'Model files are generated by an independent writer. ' + TRUST)

prop('C25', 'World effects change exactly what they announce',
     'Decay removes exactly the voxels whose draw exceeds their probability, growth and grids only fill empty cells, boxes are exactly the shell or edges of the given extent, and end caps fill exactly the cells of the open doors. '
     'Nothing else in the world changes, whatever the random source answers.',
     ['inputs', 'schedules'], 'All small worlds x parameters of each effect x enumerated random answers.',
     'Tests do not run the effects; a wrong boundary only touches particular layers or faces.',
     [R + 'aftereffects.py'], [('world', 'cells and textures', R + 'voxel/__init__.py')], [('effects', R + 'aftereffects.py')],
     'the voxel world before and after', 'bounded exhaustive enumeration of worlds, parameters and (deviation-bounded) random answers on the real code',
     'Whether growth reaches the very top layer is left open. ' + TRUST)

prop('C26', 'Every requested light appears once, where requested, in a valid colour',
     'Requesting a light adds exactly one light entity, in the middle of the given tile or at the given point, with the radius that follows from the size factor, and changes nothing else. '
     'Its colour is the requested one, or one that depends on the place only, with every channel between 0 and 255 and within the brightness and saturation asked for. '
     'Every room (test rooms aside) is lit by at least one light that is not black.',
     ['inputs'], 'All places (tiles and voxels) x colours x options x light managers and settings; all rooms.',
     'Tests use few places; channels overflow and places shift only for particular units, options and settings.',
     [R + 'lighting/__init__.py', R + 'entities/__init__.py', R + 'prefabs/__init__.py', R + 'prefabs/magica.py'], [('settings', 'brightness, saturation, size', R + 'lighting/__init__.py')],
     [('light', R + 'lighting/__init__.py light')], 'the entity list', EXH + 'against a formula for place, size and colour bounds',
     'Light managers with a world size of 256. ' + TRUST)

prop('C27', 'The same arguments give the same map in every run',
     'Running the map generator again with the same arguments and seed gives the same voxels, textures, entities, rooms, links, configuration, graph and files, in any process, whatever the hash seed and memory layout. '
     'Omitted arguments mean their documented defaults, and requested outputs and flavours do not influence the generated map.',
     ['inputs', 'configurations'], 'All argument combinations x process environments (hash seeds, memory layouts) x requested outputs.',
     'Tests do not run the generator; order dependence on hashing or addresses shows only when runs in differing processes are compared.',
     [R + 'cli/magica_rooms.py', R + 'cli/__init__.py', R + 'upm.py', R + 'prefabs/__init__.py'], [('run', 'arguments, random state, hash seed', R + 'cli/magica_rooms.py main')],
     [('generation', R + 'cli/magica_rooms.py main'), ('output', R + 'cli/__init__.py output')], 'everything a run leaves behind, normalised for object identities',
     'enumeration of generator runs over arguments x hash seeds x memory layouts on the real program, compared pairwise', 'Each run is a fresh process of the real program. ' + TRUST)

prop('C28', 'The files written for one map agree with each other and with the map',
     'Whichever outputs are requested, exactly these files are written, and map file, configuration, .vox file and graph describe the same voxels, textures, entities, rooms and links as the map in memory. '
     'World flavours add exactly their settings in the order given, after the map\'s own, and a skybox is named in the saved map and comes with its six pictures.',
     ['inputs', 'configurations'], 'All subsets of outputs x worlds x texture managers x flavour sequences x placements x skyboxes.',
     'Tests do not write outputs; disagreement shows only when independently decoded files are compared.',
     [R + 'cli/__init__.py', R + 'worldflavors.py', R + 'skybox/__init__.py', R + '__init__.py'], [('map', 'voxels, entities, flavours, links', R + 'cli/__init__.py output')],
     [('output', R + 'cli/__init__.py output'), ('flavours', R + 'worldflavors.py update'), ('skybox', R + 'skybox/__init__.py')],
     'the written files, decoded independently', EXH + 'over output subsets, worlds and flavour sequences', 'Outputs are decoded by independent parsers. ' + TRUST)

prop('C29', 'Generated maps are sound from end to end',
     'Whatever the arguments, a generator run delivers a map whose rooms lie inside the map, are disjoint, linked to the starts through touching rooms, symmetric (rooms, voxels, entities) under the requested mirroring, with voxels only in their own cells, no open door left that an end cap fits, and one flag per base for flag games. '
     'The written files hold exactly this map on top of the input map.',
     ['inputs', 'configurations'], 'All argument combinations: seed, room count, mirroring, flag game, debug caps, outputs, input map.',
     'Tests do not run the generator; component tests cannot show that placement, rendering, lighting, end caps and output fit together.',
     [R + 'cli/magica_rooms.py', R + 'upm.py', R + 'prefabs/__init__.py', R + 'prefabs/magica.py', R + 'voxel/__init__.py'], [('result', 'rooms, voxels, entities, links', R + 'cli/magica_rooms.py main')],
     [('generation', R + 'cli/magica_rooms.py main')], 'the delivered map and files of whole runs', 'enumeration of whole generator runs over an argument grid, invariants checked on every delivered map',
     'Random layouts are enumerated by seed over a grid of arguments; component checks C09-C21 explore the choices themselves. ' + TRUST)

prop('C30', 'The inspection tools tell the truth',
     'The report which magicavoxel_info prints about a model names it, gives the exact extent of its voxels, lists exactly the colours of its palette that are not black, and draws every layer with a mark exactly where a voxel is. '
     'Passing a map through the comparison tool (iso) yields the same map. Neither changes the file it reads.',
     ['inputs'], 'All model files of an enumerated family and all shipped ones; shipped and built maps.',
     'Tests do not run the tools; an error in extents or drawing shows only for models that do not start at the origin or are not cubes.',
     [R + 'cli/magicavoxel_info.py', R + 'cli/iso.py', R + 'magicavoxel/reader.py'], [('report', 'printed text', R + 'cli/magicavoxel_info.py main')],
     [('inspection', R + 'cli/magicavoxel_info.py main'), ('copy', R + 'cli/iso.py main')],
     'the printed report and the copied file', EXH + 'against models built and parsed independently', 'The report is read by patterns of its present layout. ' + TRUST)

prop('C31', 'Damaged or unsupported files are refused',
     'A map file that is torn off anywhere before the end of its octree, or has an unknown magic, variable type, entity kind, cube type or surfaces with vertices, raises an error when read: no map is returned and no JSON printed. '
     'Torn model files and those with other chunks are refused as well, and a map holding values which do not fit the file format is not written as something else. Any other change of a byte is read as exactly what the file then says.',
     ['inputs', 'crash_points'], 'All prefixes and all single-byte changes of map and model files that contain every kind of part.',
     'Tests read good files only; a missing refusal shows only for particular truncation points or byte values.',
     [R + '__init__.py', R + 'magicavoxel/reader.py', R + 'cli/to_json.py'], [('parser', 'position in the file', R + '__init__.py MapParser')],
     [('reading', R + '__init__.py read, _loadc, _loadents, _loadvslots'), ('writing', R + '__init__.py write')],
     'the outcome of reading: error, or the map', 'exhaustive enumeration of all truncation points and single-byte changes, each decided against an independent decoder',
     'Negative counts, unterminated strings, LOD cubes and contradicting chunk sizes are left open. ' + TRUST)

prop('C32', 'Generated maps can be walked',
     'In every room (whatever its options, orientation and random decoration) a body of a player\'s size (2 x 2 voxels and 3 high) fits through every doorway, gets from each doorway to every other one, and to every spawn, flag, pusher and weapon of the room; there is floor in the doorways (unless options or chance take the floor away) and under spawns and flags. '
     'Wherever two rooms are joined at a door, the body gets through, and so through every room of a generated map. '
     '(Debugging rooms aside; castle_gate_simple is two ways, one above the other; PoleRoom is judged without its random poles.)',
     ['inputs', 'histories', 'configurations'], 'All room classes x options x orientations x random answers; all pairs of doorways; all generated maps.',
     'Tests render rooms and compare counts or cells at most; a wall across one doorway for one setting of the options, or doorways that do not meet, shows only when the free space is explored.',
     [R + 'prefabs/__init__.py', R + 'prefabs/castle/__init__.py', R + 'prefabs/spacestation/__init__.py', R + 'prefabs/dungeon/__init__.py', R + 'prefabs/original/__init__.py', R + 'prefabs/magica.py', R + 'prefabs/construction_kit.py', R + 'upm.py'],
     [('space', 'position of the body', R + 'prefabs/__init__.py render')],
     [('rooms', R + 'prefabs/__init__.py render of the rooms'), ('doors', R + 'upm.py room_localization'), ('maps', R + 'cli/magica_rooms.py main')],
     'the voxels rendered into the world', 'explicit-state reachability: all positions of a player-sized body in the free voxels, of every room variant and of whole generated maps, built by the real code',
     'The state graph is computed from what the real code renders; the body may climb and fall freely, so this decides free space, not jumping height. ' + TRUST)

prop('C33', 'The landscape scripts deliver closed landscapes on which everything stands',
     'Whatever the random answers, snow_forest and perlin save the input map with its geometry replaced by a landscape that covers every column of the world without gaps (snow_forest: with steps of at most one voxel, nothing to fall through, and a wall of at least seven voxels all around), and keep its header, variables and entities. '
     'The trees, rocks and spawns which snow_forest adds stand on the ground of their column (a rock at most five map units deep in it), at most one of a kind in a column, no spawn in a tree or wall, in the declared ranges of angle and size. '
     'Two runs write the same map.',
     ['inputs', 'configurations'], 'The columns of the whole landscape x input maps x answers of the random source.',
     'Tests do not run the scripts; a hole, a floating tree or a spawn in a tree is one column out of 65536.',
     [R + 'cli/snow_forest.py', R + 'cli/perlin.py', R + 'voxel/__init__.py'], [('landscape', 'voxels of the saved map', R + 'cli/snow_forest.py main'), ('things', 'entities of the saved map', R + 'cli/snow_forest.py main')],
     [('landscape', R + 'cli/snow_forest.py main, ' + R + 'cli/perlin.py main')],
     'the saved map file', 'exhaustive enumeration of answer patterns of the random source x input maps on the real scripts, every column and entity of the saved maps decided by an independent decoder',
     'The landscape itself comes from the noise library and is fixed. ' + TRUST)
