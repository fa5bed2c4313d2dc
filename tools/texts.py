"""The properties."""
TEXTS = []
NOT_APPLICABLE = {}


def P(id, title, statement, over, forall, why, files, mech):
    TEXTS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech))


VEC = ['redeclipse/vector/__init__.py', 'redeclipse/vector/orientations.py']
P('X01', 'Rotating a position is an exact quarter turn',
  'Rotating a position or direction by any whole number of quarter turns, given in degrees or as one of the named compass '
  'directions, turns it exactly that far counterclockwise about the vertical axis: the height is untouched and turning back '
  'restores it exactly. Turning about an offset point is the same turn about that point. The result keeps the unit (fine or '
  'coarse) of the vector that was turned.',
  ['inputs'], 'every vector with whole or half coordinates in range, every quarter-turn angle from -360 to 720 degrees and '
  'every named direction', 'tests rotate a handful of fixed vectors; rotation is done in floating point, so exactness must '
  'be shown for every coordinate', VEC, [('rotation', 'redeclipse/vector/__init__.py: rotate, offset_rotate')])
P('X02', 'Vectors obey the laws of equality, hashing and ordering',
  'Two vectors are equal exactly when they denote the same position, equal vectors of one kind hash alike, and vectors of '
  'one kind are totally ordered consistently with equality. Between kinds, equality and ordering compare the positions the '
  'vectors denote (a coarse unit is eight fine units).',
  ['inputs'], 'all pairs and triples of vectors of every kind in range', 'laws over pairs and triples of values; tests use '
  'single examples', VEC[:1], [('equality, hash and order', 'redeclipse/vector/__init__.py: __eq__, __hash__, __lt__')])
P('X03', 'Fine and coarse units convert without loss',
  'Converting a coarse position to fine units multiplies by eight and converting back gives the same position. Adding, '
  'subtracting and scaling vectors act on each coordinate, and mixed-unit sums denote the sum of the two positions.',
  ['inputs'], 'all coordinates in range, all the scale factors in use', 'tests convert fixed points only', VEC[:1],
  [('conversions and arithmetic', 'redeclipse/vector/__init__.py: fine, coarse, __add__, __sub__, __mul__, voxels')])
P('X04', 'Compass directions and yaw angles are consistent',
  'The four compass directions and the yaw angles are in one-to-one correspondence: rotating any direction by an angle adds '
  'that angle to its yaw, for every multiple of a quarter turn. Vectors that are not compass directions are refused, not '
  'mapped to some angle.',
  ['inputs'], 'every ordered pair of directions, every angle in [-2000, 2000], every small non-direction vector',
  'tests check the four base directions', VEC, [('directions and yaw', 'redeclipse/vector/orientations.py; '
                                                'redeclipse/vector/__init__.py: to_rot, __mod__')])
P('X05', 'Integer vector arithmetic and octant geometry are exact',
  'The integer vectors used for cube geometry add, subtract, scale, cross and index exactly as three-dimensional integer '
  'vectors do. The octant of a cube and the octant an index names agree, so that going down an octree by index and asking '
  'which octant a position lies in give the same answer.',
  ['inputs'], 'all coordinates in range, all octants, cube sizes 1 to 1024', 'tests cover none of the octant helpers',
  ['redeclipse/vector/re.py'], [('integer vectors and octants', 'redeclipse/vector/re.py: ivec3, cross')])
MAP = ['redeclipse/__init__.py', 'redeclipse/objects.py']
P('M01', 'Map headers, variables and texture lists survive save and load',
  'A map file that is read and written again holds the same header fields, map variables (names, kinds and values, '
  'including text and numbers), game identifier, recent texture list and texture slot entries, byte for byte in the format '
  "the game reads, and the counts in the header match what follows. The file is complete on disk when saving returns.",
  ['inputs'], 'every value of every header field, every variable value within bounded counts and name lengths',
  'tests round-trip one committed map file', MAP, [('writer', 'redeclipse/__init__.py: Map.write'),
                                                   ('reader', 'redeclipse/__init__.py: MapParser.read')])
P('M02', 'Map entities survive save and load',
  'Every entity (player starts, weapons, lights, sounds, models, teleports, pushers and so on) that is read from a map and '
  'written again keeps its position, kind, every attribute, reserved byte and link, in order; the entity count in the header '
  'matches.', ['inputs'], 'every 32-bit attribute and link value, every reserved byte, up to four entities of any supported '
  'kind', 'tests round-trip the entities of one map file', MAP + ['redeclipse/entities/__init__.py'],
  [('entity codec', 'redeclipse/__init__.py: MapParser.read_ents, Map.write_ents; redeclipse/entities/__init__.py')])
P('M03', 'Map geometry survives save and load',
  'Every octree cell that is read from a map and written again keeps its kind (empty, solid, deformed, subdivided or level '
  'of detail), its edges, six face textures, material, and the light map data of each surface, at whatever depth and place '
  'in the tree it lies.', ['inputs'], 'an arbitrary cell of every kind and flag combination at depths 1 to 4; all field '
  'values', 'tests round-trip the cells that one map file happens to contain', MAP,
  [('octree codec', 'redeclipse/__init__.py: loadchildren, loadc, savec; redeclipse/objects.py')])
P('M04', 'Edits made through the map API reach the file',
  'After any sequence of edits to a loaded map (adding or dropping entities, setting, adding or removing map variables of '
  'any kind, setting a skybox, changing recent textures or geometry, saving in between), the saved file reads back as '
  'exactly the edited map, and everything not edited is unchanged.', ['histories'], 'all edit sequences of bounded length '
  'with symbolic arguments', 'tests only load and save without editing', MAP + ['redeclipse/skybox/__init__.py'],
  [('map model and writer', 'redeclipse/__init__.py: Map, Map.write; redeclipse/skybox/__init__.py')])
P('M05', 'Damaged or foreign map files are refused',
  'A map file that is cut short at any point, has a foreign magic number, or contains an octree cell, variable or entity '
  'code the format does not define makes reading fail with an error. It is never read as a map that silently lacks part of '
  'its content.', ['crash_points', 'inputs'], 'every cut point of a representative file, every magic number, every '
  'undefined code', 'tests read only one good file', MAP, [('reader', 'redeclipse/__init__.py: MapParser.read and helpers')])
P('M06', 'Maps whose texture slots have settings of their own are read in step',
  'A map file may give any texture slot settings of its own: scale, rotation, offset, scroll, layer, transparency, colour, '
  'palette, coast and shader parameters, in any combination. Reading such a map gives every slot, in order, with the settings '
  'the file gives it and the usual ones elsewhere, and everything that follows the slots is read exactly. Saving such a map '
  'either reproduces the slots or is refused; it never writes a map without them.', ['inputs'],
  'any single setting, pair of settings, nine or all ten, and every combination in the thorough tier; all values',
  'no test reads a map with such slots', MAP, [('reader of texture slots', 'redeclipse/__init__.py: MapParser (loadvslots, loadvslot)'),
                                               ('texture slot', 'redeclipse/objects.py: VSlot')])
P('M07', 'Reading and saving maps leaves other maps alone',
  'A map is read as its file says whatever was read before it, with the same reader or another, even if reading a damaged file '
  'failed in between. Two maps share nothing: changing the entities, variables, header, textures, cubes or slots of one '
  'changes nothing of the other. Saving or exporting a map changes nothing in it, so that saving again gives the same file.',
  ['histories', 'inputs'], 'reading, changing and saving in any order among two maps and one or two readers',
  'tests use a fresh reader for every map', MAP + ['redeclipse/entities/__init__.py'], [('reader', 'redeclipse/__init__.py: MapParser.read'),
                                                         ('writer', 'redeclipse/__init__.py: Map.write')])
VOX = ['redeclipse/voxel/__init__.py', 'redeclipse/objects.py']
P('V01', 'The octree holds exactly the voxels of the world',
  'Converting a voxel world to an octree yields a tree that tiles the whole world, in which each voxel inside the world is a '
  'unit cell at exactly its place and everything else is empty, whatever was written, overwritten or deleted before. '
  'Voxels outside the world do not appear anywhere.', ['histories', 'inputs'],
  'every placement of voxels within the bounded world sizes and write counts',
  'tests convert two or three fixed worlds', VOX, [('conversion', 'redeclipse/voxel/__init__.py: to_octree')])
P('V02', 'The voxel world remembers the last write at each place',
  'After any history of writes and deletions, by coordinates or by vector, reading any place gives the last thing written '
  'there and nothing where nothing is left. The bounds the world reports contain everything that was written and are '
  'attained.', ['histories'], 'all histories of bounded length at any coordinates, all read positions',
  'tests use fixed coordinates', VOX[:1], [('store', 'redeclipse/voxel/__init__.py: set_point, set_pointv, del_point, '
                                           'del_pointv, get_point')])
P('V03', 'A generated world reaches the map file intact',
  'Exporting a generated voxel world to a map gives a file in which every voxel is a filled unit cube at its place with its '
  'own six textures, and every other place is empty, including the corner of the world. The companion configuration file is '
  'written next to it under the same name.', ['inputs', 'histories'], 'every placement of the bounded number of voxels, all '
  'texture numbers', 'no test exports a world to a map file', VOX + ['redeclipse/cli/__init__.py'],
  [('export', 'redeclipse/cli/__init__.py: output'), ('octree', 'redeclipse/voxel/__init__.py: to_octree'),
   ('writer', 'redeclipse/__init__.py: Map.write')])
P('V04', 'Cube geometry is consistent',
  'The vertices generated for a face of a cube are the four corners of that side, in cyclic order, whatever the deformation, '
  'all faces of a box are wound the same way, and the side opposite a side is the other end of the same axis. Newly made cubes share no state: changing the textures, edges or surfaces '
  'of one changes no other, and changing the record of one face changes no other face.', ['inputs'], 'all edge byte values of a cube, all faces', 'tests call none of the vertex '
  'generation', ['redeclipse/objects.py', 'redeclipse/vector/re.py'],
  [('face vertices', 'redeclipse/objects.py: genfaceverts'), ('construction', 'redeclipse/objects.py: newcube, newtexcube')])
TEX = ['redeclipse/textures/__init__.py', 'redeclipse/textures/basetex.py']
P('T01', 'A texture number stands for one texture, for good',
  'Asking a texture manager for a texture or a colour gives a number that stands for exactly that texture or colour: '
  'different textures and colours get different numbers, the same one gets the same number again, and numbers are '
  'consecutive with sky and default first. A number never changes its meaning later.',
  ['histories', 'inputs'], 'all sequences of requests of bounded length, for any colour and any known texture',
  'tests ask for a few fixed colours', TEX, [('numbering', 'redeclipse/textures/__init__.py: get, get_colour')])
P('T02', 'The texture configuration defines exactly the numbers in use',
  'The configuration file written beside a map defines one texture slot per number handed out, in the order of the numbers, '
  "each with the images and the colour of the texture the number stands for and never another's. Every line of it is one "
  'well-formed directive.', ['histories', 'inputs'], 'all bounded sequences of requests in every texture set',
  'tests write no configuration', TEX, [('configuration', 'redeclipse/textures/__init__.py: emit_conf; '
                                         'redeclipse/textures/basetex.py: conf')])
P('T03', 'A material category always gives a fitting texture',
  'Asking a theme for a material category (floor, wall, column, accent, generic) gives, whatever is drawn at random, the '
  'number of a texture that the theme lists for that category. A category the theme does not know still gives a usable '
  'texture number.', ['inputs'], 'every random draw, every category, every theme', 'tests make one random draw',
  TEX, [('categories', 'redeclipse/textures/__init__.py: get_c; redeclipse/textures/*_theme.py')])
P('T04', 'Every custom image the configuration names is installed',
  'Every image of its own that the generator tells the game to load is among the files it copies into the game folder, for '
  'any set of textures in use.', ['inputs'], 'every category and draw in every theme', 'tests copy nothing', TEX,
  [('image copying', 'redeclipse/textures/__init__.py: copy_data')])
ENT = ['redeclipse/entities/__init__.py', 'redeclipse/entities/model.py', 'redeclipse/entities/weapon.py']
P('E01', 'Generated entities lie where they were placed',
  'An entity made for a position in the voxel world (fine or coarse, whole or half units) lies at exactly that position in '
  'the map: four game units per fine unit, thirty-two per coarse unit. It carries exactly the attributes, links and reserved '
  'bytes given, in the order the game expects, also after saving and reading the map, and entities '
  'share no state: changing one changes no other.',
  ['inputs'], 'every constructor, every position in range, every attribute value', 'tests create no entity but by reading a '
  'map', ENT, [('constructors', 'redeclipse/entities: PlayerSpawn, Sunlight, Light, Pusher, TeamFlag, MapModel, Weapon, '
                'Grenade, Shotgun'), ('position', 'redeclipse/vector/__init__.py: fine')])
P('J01', 'The JSON form of a map shows and restores it',
  'The JSON export of a map shows every header field, variable, recent texture, entity and octree cell with its values. '
  'A map rebuilt from that JSON holds the same header, variables, textures and entities, and writes the same file when '
  'given the same octree.', ['inputs'], 'every value of every field; cells and entities of every kind',
  'tests never export a map', MAP + ENT[:1], [('export and import', 'redeclipse/__init__.py: to_dict, to_json, from_dict; '
                                               'redeclipse/objects.py and redeclipse/entities/__init__.py: to_dict, from_dict')])
LIT = ['redeclipse/lighting/__init__.py']
P('L01', 'A light is placed at its position and in its colour',
  'Asking the light manager for a light adds exactly one light entity to the map, at the given position scaled to the size '
  'of the map (moved to the centre of the tile unless told otherwise). It has the colour asked for, or the one the manager '
  'chooses, and a radius in proportion to the size asked for.', ['inputs'], 'every position, colour and world size in range',
  'tests place no lights', LIT, [('placement', 'redeclipse/lighting/__init__.py: light, get_light')])
P('L02', 'Light colours are always bright and valid',
  'Whatever the noise function says about a position, the colour chosen for it has three whole channels between 0 and the '
  'brightness of the manager, with at least one channel at full brightness, and is fully saturated when the manager is. It '
  'is never a colour out of range.', ['inputs'], 'every noise value and hue, several brightness and saturation settings',
  'tests place no lights', LIT, [('colour', 'redeclipse/lighting/__init__.py: hue')])
KIT = ['redeclipse/prefabs/construction_kit.py', 'redeclipse/voxel/__init__.py']
P('K01', 'Each building primitive fills exactly its shape',
  'Drawing a primitive (cube, floor, ceiling, wall, low wall, ring, prism, column, dotted column) in a room fills exactly the '
  'voxels of its shape with the requested texture, wherever the room is and whichever way it faces: the shape turns with the '
  "room about the room's tile. No other voxel of the world changes, and an unknown primitive is refused.",
  ['inputs'], 'every room position, offset, orientation and texture; a range of sizes', 'tests draw each primitive at fixed '
  'places, mostly unrotated', KIT, [('primitives', 'redeclipse/prefabs/construction_kit.py: x, x_*, cube_points, column_points')])
P('K02', 'Subtracting and sparse drawing touch only the shape',
  'Drawing a primitive subtractively removes exactly the voxels of its shape, and drawing it with a probability fills or clears '
  'each voxel of the shape by its own draw: all are filled when the probability is at least one. Voxels outside the '
  'shape never change, whatever is drawn.', ['inputs'], 'every room position and offset, every random draw', 'tests use one '
  'seeded draw', KIT, [('subtract and probability', 'redeclipse/prefabs/construction_kit.py: subtract_or_skip, x')])
UPM = ['redeclipse/upm.py']
P('U01', 'Rooms never overlap and never leave the map',
  'A room is found to fit exactly when all cells of it and of its mirrored copies are free, differ from each other and lie '
  'inside the map, and all their doors lead inside the map too. Registering a room never makes two rooms share a cell: a '
  'registration that would is refused, and the refused room is not listed and takes no cell.', ['inputs', 'histories'],
  'all pairs of rooms of several shapes, at all positions and orientations, mirrored or not', 'tests check four fixed positions',
  UPM, [('occupancy', 'redeclipse/upm.py: is_legal, preregister_room, register_room')])
P('U02', 'The list of open doors is exact',
  'At any time the open doors on offer are exactly the doors of placed rooms that lead to a free position inside the map, each '
  'with its room and direction. A door disappears from the list when the position behind it is taken.',
  ['histories'], 'all histories of registrations and refusals, any rooms, positions and orientations in bounds',
  'tests have the assertions on doors commented out', UPM, [('doors', 'redeclipse/upm.py: _register_room, unoccupied')])
P('U03', 'Mirrored maps are symmetrical',
  'With two- or four-way mirroring every registered room appears once in each mirrored place, turned by the same angle about '
  'the middle cell of the map: its cells, its doors, its links and the voxels it draws. Registering or asking never moves '
  'the room that was given.', ['inputs'], 'every position and orientation of the room, mirror 1, 2 and 4',
  'tests never mirror', UPM, [('mirroring', 'redeclipse/upm.py: _yield_mirrored, register_room, register_link')])
P('U04', 'A room proposed for an open door connects and fits',
  'Every room proposed for an open door fills the position behind that door, has a door of its own leading back through it, and '
  'fits together with its mirrored copies: inside the map and on free positions only. This holds for whichever variant of a '
  'room is drawn. Nothing is proposed only if no orientation and door of any class fits, and proposing places nothing.',
  ['inputs', 'histories'], 'every position, every open door, every random variant and order', 'tests place no rooms', UPM,
  [('proposals', 'redeclipse/upm.py: room_localization, preregister_room')])
P('U05', 'A random choice always chooses, by weight',
  'A weighted choice always gives one of its options, whatever is drawn, each for its share of the draws. The stream of room '
  'classes to try contains every possible class exactly once, and asking for an open door gives one unless there is '
  'none, when an error says so.', ['inputs'], 'every random draw (all doubles)', 'tests make no random choice', UPM,
  [('choices', 'redeclipse/upm.py: weighted_choice, random_room, random_room_stream, nonrandom_position, random_position')])
P('U06', 'Placing rooms yields the wanted number of connected rooms',
  'Placing rooms stops when the number asked for is placed (rounded up to a whole mirrored group) or no open door is left '
  'that any of the rooms fits, and always stops. All rooms then lie inside the map without overlapping, the map is symmetrical, and every room placed is '
  'linked to one placed before it through two doors that lead onto each other.', ['inputs', 'histories'],
  'every start position, every random draw, small numbers of rooms', 'tests place no rooms', UPM,
  [('growth', 'redeclipse/upm.py: place_rooms, register_link')])
P('U07', 'End caps close what can be closed',
  'After capping, a door is still open only if no end cap fits it in any orientation. Every cap lies inside the map '
  'on free positions and has a door onto a door that was open, and nothing placed before has changed. In debug mode every open '
  'door is closed.', ['inputs', 'histories'], 'every position of two rooms and every order of caps', 'tests never cap',
  UPM, [('capping', 'redeclipse/upm.py: endcap, _room_cap_real, _room_cap_debug')])
ROOM = ['redeclipse/prefabs/__init__.py', 'redeclipse/prefabs/magica.py', 'redeclipse/prefabs/castle/__init__.py',
        'redeclipse/prefabs/dungeon/__init__.py', 'redeclipse/prefabs/egypt/__init__.py', 'redeclipse/prefabs/original/__init__.py',
        'redeclipse/prefabs/spacestation/__init__.py']
P('R01', 'A room stays within its own cells',
  'Rendering any room class (the test rooms aside) writes and deletes only voxels in the cells the room says it occupies, '
  'wherever it stands, whichever way it faces, whatever its flags and draws. The lights and entities it adds stand in the columns of those '
  'cells, not beside them and not below them. Rendering never fails.', ['inputs'],
  'every position, direction, combination of flags and draw', 'tests render one room at fixed places', ROOM,
  [('rooms', 'redeclipse/prefabs: render, light, render_extra, _get_positions of every class')])
P('R02', 'A room is the same room wherever it stands and faces',
  'Moving and turning a room moves and turns everything it builds as one piece: the voxels it writes and deletes and their textures, '
  'its spawns, pushers, flags and models, and the direction pushers push. Nothing depends on the absolute position. The colours of flag '
  'rooms and the places of lights may differ.', ['inputs'], 'every position and direction, combination of flags and draw',
  'tests render one room at fixed places', ROOM, [('rooms', 'redeclipse/prefabs: render of every class, x_* in construction_kit.py')])
P('R03', 'The doors of a room lead out of it',
  'The cells a room occupies are distinct, and every door faces a cardinal direction and leads from one of the cells (or from on top of '
  'one) straight to a position outside the room. No two doors are the same. Cells and doors turn and move with the room.',
  ['inputs'], 'every position, direction and combination of flags of every room class', 'tests check the doors of two classes', ROOM,
  [('layout', 'redeclipse/prefabs: _get_positions, _get_doorways, get_positions, get_doorways of every class')])
P('R04', 'Room variants: one flag toggled, or all drawn anew',
  'The options for a room that follows one of its own class are the flags of that room with exactly one toggled, and any can be; after '
  'another class every combination of flags can come up; a class without flags has no options. The previous room and the class keep '
  'their flags, and the room made from the options has exactly those flags.', ['inputs'], 'all flags of the previous room, every draw',
  'tests make no random rooms', ROOM, [('variants', 'redeclipse/prefabs/__init__.py: randOpts, __init__ of every class')])
P('R05', 'A model room builds exactly its model',
  'For every MagicaVoxel file, a model room builds one voxel for each voxel of the file and nothing else: in its place relative to the '
  'room, turned with it, in the colour its index has in the palette of the file. The cells it says it occupies are exactly those that '
  'contain a voxel.', ['inputs'], 'every small model file, palette, position and direction', 'tests load no model', ROOM[1:2]
  + ['redeclipse/magicavoxel/reader.py'], [('models', 'redeclipse/prefabs/magica.py: load_model, render, render_individual_voxel'),
                                          ('reader', 'redeclipse/magicavoxel/reader.py: Magicavoxel')])
FX = ['redeclipse/aftereffects.py']
P('A01', 'Boxes, grids and end caps build exactly their shape',
  'Putting a box (or its outline) around a world fills exactly the shell (or the edges) of the world up to the height given; the grid '
  'fills, below the top of the world, exactly the empty places where at least two coordinates are multiples of its step; end caps fill '
  'the whole cell behind every open door. Every other voxel stays as it was, and none appears elsewhere.',
  ['inputs'], 'every position of the voxels that are there, every height, step and set of open doors', 'tests apply each effect to one '
  'world at most', FX, [('shapes', 'redeclipse/aftereffects.py: box, box_outline, grid, endcap')])
P('A02', 'Decay and growth follow the position function',
  'Decay removes voxels and adds or changes none: where the position function is below 0 every voxel goes, up to the topmost layer, and '
  'where it is 1 or more none does. Growth adds voxels to empty places of the world and changes or removes none: below the top of the '
  'world every place is filled where the function is below 0, and none where it is 1 or more. In between each place is left to chance.',
  ['inputs'], 'every position of the voxels, every function with a threshold along an axis, every draw',
  'tests run each effect once on one world', FX, [('effects', 'redeclipse/aftereffects.py: decay, growth')])
P('A03', 'Gradients are falling probabilities',
  'Each gradient gives a number from 0 to 1 for every height in the world, the same for every place of that height. It starts at 1 and '
  'never rises with height, falling strictly between its ends; the inverse of a gradient is 1 minus it.', ['inputs'],
  'every height from 0 to 256 and every place', 'tests sample a few heights', FX,
  [('gradients', 'redeclipse/aftereffects.py: vertical_gradient, gradient3, vertical_gradient2, vertical_gradient2inv')])
P('B01', 'The MagicaVoxel export is a well-formed model of the world',
  'The exported file consists of a size, a voxel and a palette chunk whose sizes add up. It holds exactly the voxels of the world with '
  'coordinates from 0 to 255, each once, at its place, in the colour of its texture, and the size covers all of them. The reader of this '
  'library reads the same voxels and colours back.', ['inputs'], 'every position and texture of the voxels, every colour of the palette',
  'tests never read an export', ['redeclipse/magicavoxel/writer.py', 'redeclipse/magicavoxel/reader.py'],
  [('export', 'redeclipse/magicavoxel/writer.py: to_magicavoxel'), ('import', 'redeclipse/magicavoxel/reader.py: Magicavoxel')])
P('D01', 'Transition probabilities: the list and the pair lookup agree',
  'For every table of transition probabilities, the list of probabilities for a room has exactly the kinds of room that the table pairs with its '
  'kind, each with the weight the table (or, when the manager mirrors, the table in the other order) gives for that pair. Looking up one '
  'pair gives the same weight, and is refused for a pair that has none. Asking does not change the table.', ['inputs'],
  'every table over three kinds of room, every weight', 'tests never ask for probabilities', ['redeclipse/prefabs/distributions.py'],
  [('tables', 'redeclipse/prefabs/distributions.py: for_class, tp')])
P('C01', 'Flavours add their settings to the configuration and nothing else',
  'Applying flavours to a map appends the settings of each, in the order given, one name and value per line, and changes nothing else '
  'of the map. The configuration file written with a map is that of its textures followed by exactly those lines, whatever an older '
  'file of that name held.', ['inputs'], 'every sequence of flavours, with and without settings of the map and an older file',
  'tests apply no flavour', ['redeclipse/worldflavors.py', 'redeclipse/cli/__init__.py'],
  [('flavours', 'redeclipse/worldflavors.py: update'), ('output', 'redeclipse/cli/__init__.py: output')])
P('C02', 'The room graph shows every room and every link',
  'The exported graph has one node for every room placed (each mirrored copy included) with its name, and one more for no room. It has one '
  'link for every link between rooms, joining the nodes of those two rooms, separately for each mirrored copy.', ['inputs'],
  'every position, direction and mirror mode of a few linked rooms', 'tests export no graph', ['redeclipse/cli/__init__.py', 'redeclipse/upm.py'],
  [('graph', 'redeclipse/cli/__init__.py: output'), ('links', 'redeclipse/upm.py: register_link')])
P('G01', 'The generator writes the map it was asked for',
  'Run as a script, the map generator renders every room it placed, as many as asked for (to a whole mirrored group), and closes the doors '
  'left. The map it writes keeps the variables and entities of the template and adds one sun and what the rooms add; its octree holds what '
  'the rooms built. The configuration has every texture and the settings of the flavours, the graph every room and link, and the model '
  'every voxel.', ['inputs'], 'every template entity and variable value, number of rooms, mirror mode, flavour and kind of game',
  'tests never run the generator', ['redeclipse/cli/magica_rooms.py', 'redeclipse/cli/__init__.py'],
  [('generator', 'redeclipse/cli/magica_rooms.py: main'), ('output', 'redeclipse/cli/__init__.py: parse, output_args, output')])
P('G02', 'The conversion tools copy a map faithfully',
  'Run as scripts, the copying tool writes a map file with the very contents of its input, whatever was there before, and the JSON tool '
  'prints the JSON form of the map, or just the section asked for. Neither changes its input.', ['inputs'],
  'every value of every field of a small map, every section', 'tests never run the tools', ['redeclipse/cli/iso.py', 'redeclipse/cli/to_json.py'],
  [('tools', 'redeclipse/cli/iso.py: main; redeclipse/cli/to_json.py: main')])
P('P01', 'The terrain tool writes the terrain its noise describes',
  'Run on a map, the terrain tool replaces the world of the map and keeps everything else of it (variables, entities, textures). In the new '
  'world every column is solid ground up to the height that the noise gives for it (five times the noise above 30), with nothing '
  'above it but buildings, which cover whole blocks of four by four columns and are four voxels high from the ground up, and trees, which '
  'fill their whole column. Buildings and trees stand only where their own noise is below -0.1, and ground, buildings and trees each have '
  'their own textures.', ['inputs'],
  'any noise at a few places at a time, every random draw, every position and value of the template',
  'tests never run the tool', ['redeclipse/cli/perlin.py', 'redeclipse/voxel/__init__.py'], [('terrain', 'redeclipse/cli/perlin.py: main')])
P('I01', 'The listing of a model shows all of it',
  'The tool that lists a MagicaVoxel model names the model, gives the exact bounds of its voxels in all three directions, lists every palette '
  'colour that is not black under its number, and shows every layer between the bounds with a mark exactly where there is a voxel. Models with a '
  'palette of 255 colours are listed like those with 256.', ['inputs'],
  'models of up to three voxels, any of a number of places each, some palette colours symbolic', 'tests never run the tool',
  ['redeclipse/cli/magicavoxel_info.py', 'redeclipse/magicavoxel/reader.py', 'redeclipse/voxel/__init__.py'],
  [('listing', 'redeclipse/cli/magicavoxel_info.py: main')])
P('S01', 'The sky of a map is where the map says',
  'Creating a sky box puts the six images of that sky, each face under its own name, into the data folder of the game (creating folders '
  'that are missing), and attaching it to a map makes the sky variable of the saved map name exactly these images, replacing a '
  'sky the map had and leaving its other variables alone.', ['inputs'],
  'both shipped skies and others of the same kind, folders there or not, any map', 'tests never make a sky',
  ['redeclipse/skybox/__init__.py', 'redeclipse/__init__.py'],
  [('sky boxes', 'redeclipse/skybox/__init__.py: Skybox'), ('attaching', 'redeclipse/__init__.py: Map.skybox')])
