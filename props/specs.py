"""What each check runs: property -> tasks (harness, configuration, limits)."""
import os

COMMON_ASSUMPTIONS = [
    'CPython integers are unbounded and modelled as mathematical integers; floats are exact while they are dyadic '
    'rationals within 53 bits and otherwise carry an explicit rounding-error interval',
    'the engine in /verif/pysym (instrumentation, symbolic values, models of dict, set, struct, gzip, open, random and '
    'json) is trusted; path samples and every counterexample are re-run on the unmodified code',
]

SPECS = {}


def task(name, module, func, **k):
    t = {'name': name, 'module': module, 'func': func, 'config': {}, 'reach': []}
    t.update(k)
    return t


def prop(pid, tasks, bounds, assumptions=()):
    SPECS[pid] = {'tasks': tasks, 'bounds': bounds, 'assumptions': list(assumptions)}


prop('X01', [
    task('rot-%s-%s' % (k, 'half' if h else 'int'), 'vectors', 'rotation', config={'kind': k, 'half': h, 'limit': 65536},
         reach=['end'])
    for k in ('base', 'fine', 'coarse') for h in (False, True)
], 'coordinates in [-65536, 65536], whole or half; 13 quarter-turn angles as degrees, the four named orientations, fine and coarse')

prop('X02', [
    task('laws-%s-%s' % (k, 'half' if h else 'int'), 'vectors', 'laws', config={'kind': k, 'half': h, 'limit': 2000},
         reach=['end'])
    for k in ('base', 'fine', 'coarse') for h in (False, True)
] + [task('transitive-' + k, 'vectors', 'transitive', config={'kind': k, 'limit': 2000}, reach=['end'])
     for k in ('base', 'fine', 'coarse')] + [
    task('mixed', 'vectors', 'mixed_laws', config={'limit': 500}, reach=['end'])],
    'coordinates in [-2000, 2000], whole or half; mixed pairs: coarse in [-500, 500]')

prop('X03', [
    task('conversion', 'vectors', 'conversion', config={'limit': 4096}, reach=['end']),
] + [task('scaling-' + k, 'vectors', 'scaling', config={'kind': k, 'limit': 4096}, reach=['end'])
     for k in ('base', 'fine', 'coarse')],
    'coarse coordinates in [-4096, 4096], fine in [-32768, 32768]; scale factors -8, -1, 0, 1, 2, 3, 4, 8, 0.5')

prop('X04', [
    task('yaw', 'vectors', 'yaw', reach=['end']),
    task('not-cardinal', 'vectors', 'not_cardinal', reach=['end']),
], 'angles in [-2000, 2000]; every pair of cardinal directions; non-cardinal vectors within [-3, 3]^3')

prop('X05', [
    task('vectors', 'vectors', 're_vectors', config={'limit': 1000}, reach=['end']),
    task('octants', 'vectors', 'octant', config={'limit': 2048}, reach=['end']),
], 'coordinates in [-1000, 1000]; cubes of size 1, 2, 8, 64, 1024 at coordinates in [-2048, 2048]')

VARSETS = {
    'none': [], 'int': [(4, 0, 0)], 'float': [(3, 1, 4)], 'text': [(2, 2, 3)], 'texts': [(1, 2, 0), (3, 2, 1)],
    'mixed': [(2, 0, 0), (1, 2, 2), (3, 1, 0)], 'floats': [(1, 1, 8), (2, 1, 0), (2, 0, 0)],
}
prop('M01', [
    task('header-' + n, 'mapfile', 'header', config={'kinds': k, 'nmru': r, 'chg': c, 'magic': g}, reach=['end'])
    for n, k, r, c, g in [('none', VARSETS['none'], 0, [], 'MAPZ'), ('int', VARSETS['int'], 1, [-1], 'BFGZ'),
                          ('float', VARSETS['float'], 2, [-2, -3], 'MAPZ'), ('text', VARSETS['text'], 3, [-300], 'MAPZ'),
                          ('texts', VARSETS['texts'], 1, [-1, -1, -1], 'MAPZ'),
                          ('mixed', VARSETS['mixed'], 300, [-4], 'MAPZ'), ('floats', VARSETS['floats'], 0, [-7], 'BFGZ')]
] + [task('header-long', 'mapfile', 'header', config={'kinds': [(300, 0, 0), (12, 2, 300)], 'nmru': 5, 'chg': [-909]},
          reach=['end'], seconds=60)] + [
    task('header-many-%d' % n, 'mapfile', 'header', config={'kinds': k, 'nmru': n // 10, 'chg': [-n] * 3, 'more': n}, reach=['end'], samples=2)
    for n, k in ((40, [(3, 0, 0)]), (150, [(4, 2, 2)]), (300, [(4, 1, 4)]))],
    'every 32-bit value of each header field; 0-3 map variables, alone or among 40 to 300 fixed ones (names of 1-4 and 300 bytes, values: any int32, floats '
    'k/2^8 up to 2^15, byte strings of 0-3 and 300 bytes); 0-300 recent textures; texture slot runs up to 909',
    ['texture slots are stored as runs of unchanged slots (a changed slot is refused on writing)'])

prop('M02', [
    task('ent-%d-%d' % (k, n), 'mapfile', 'entities', config={'kinds': [k], 'nlinks': [n]}, reach=['read', 'end'])
    for k, n in [(1, 0), (2, 1), (3, 2), (8, 0), (9, 0), (13, 3), (14, 1), (1, 12), (3, 12), (14, 9)]
] + [task('ents-mixed', 'mapfile', 'entities', config={'kinds': [3, 1, 14, 2], 'nlinks': [0, 1, 0, 2]},
          reach=['read', 'end']),
     task('ents-weapons', 'mapfile', 'entities', config={'kinds': [9, 9], 'nlinks': [1, 0]}, reach=['read', 'end']),
     task('ents-many', 'mapfile', 'entities', config={'kinds': [3], 'nlinks': [1], 'more': 60}, reach=['read', 'end'], samples=2),
     task('ents-hundreds', 'mapfile', 'entities', config={'kinds': [14], 'nlinks': [0], 'more': 300}, reach=['read', 'end'], samples=2),
     task('ents-links', 'mapfile', 'entities', config={'kinds': [2], 'nlinks': [300]}, reach=['read', 'end'], samples=2),
     task('ents-none', 'mapfile', 'entities', config={'kinds': [], 'nlinks': []}, reach=['end'])],
    'up to 4 entities of every supported kind, one of them also among 60 and 300 fixed ones; every int32 attribute and link (0-3, 9, 12 or 300 links); reserved bytes 0-255; '
    'positions k/64 within 2^14; the documented weapon codes')

M3 = []
for k in (1, 2, 3, 4):
    for fl in (0, 0x40, 0x80, 0xC0, 0x20, 0xE0, 0x48, 0x90):
        masks = [None] if fl & 0x20 == 0 else [0, 1, 32, 21, 42, 63]
        for mk in masks:
            M3.append(task('cell-%d-%02x-%s' % (k, fl, mk), 'mapfile', 'octree',
                           config={'where': [(k + fl) % 8, 3][:1 + (fl == 0xE0)], 'octsav': k + fl, 'mask': mk},
                           reach=['read', 'end'], samples=2))
M3 += [task('cell-deep-%d-%d' % (k, len(w)), 'mapfile', 'octree', config={'where': w, 'octsav': k + 0x60, 'mask': 9},
            reach=['read', 'end'], samples=2) for k, w in ((1, [0, 7, 2]), (2, [7, 0, 5]), (3, [4, 3, 6, 1]), (2, [7] * 7), (3, [0] * 9), (1, [3, 5] * 5), (2, [7, 1] * 6), (3, [2] * 13))]
M3 += [task('cell-verts', 'mapfile', 'octree', config={'where': [6, 1], 'octsav': 0x23, 'mask': 4, 'verts': 'all'},
            reach=['read', 'end']),
       task('cell-masks', 'mapfile', 'octree', config={'where': [1], 'octsav': 0x22}, reach=['read', 'end'])]
prop('M03', M3,
     'an arbitrary cell of every kind (empty, solid, deformed, level-of-detail) with every combination of flags the '
     'format defines, every 16-bit texture and material, every edge, light map and layer byte, at depth 1-4, 7, 9, 10, 12 and 13 of the tree '
     'and every child index; surfaces without vertex data', ['surfaces that carry vertex data are refused on reading'])

OPS = ['light', 'spawn', 'drop', 'setvar', 'newvar', 'newfloat', 'delvar', 'mru', 'world', 'write']
prop('M04', [
    task('one', 'mapfile', 'edits', config={'ops': ['any']}, reach=['end']),
    task('text', 'mapfile', 'edits', config={'ops': ['newtext', 'newfloat', 'any']}, reach=['end']),
    task('skybox', 'mapfile', 'edits', config={'ops': ['skybox', 'any']}, reach=['end']),
    task('many', 'mapfile', 'edits', config={'ops': ['any'], 'more': 80}, reach=['end'], samples=2),
] + [task('two-' + o, 'mapfile', 'edits', config={'ops': [o, 'any']}, reach=['end']) for o in OPS] + [
    task('three-' + o, 'mapfile', 'edits', config={'ops': [o, 'any', 'any']}, reach=['end'], tier='thorough') for o in OPS],
    'histories of 1-2 edits (thorough: 3) of 11 kinds with symbolic arguments, one also on a map of 80 more entities and variables, ending in a write')

prop('M05', [
    task('cut-%d' % i, 'mapfile', 'truncated', config={'lo': i / 8, 'hi': (i + 1) / 8}, reach=['end'])
    for i in range(8)
] + [task('magic', 'mapfile', 'bad_magic', reach=['end'])] + [
    task('codes-' + w, 'mapfile', 'bad_codes', config={'what': w}, reach=['end']) for w in ('cell', 'var', 'ent')],
    'every cut point of a file with variables, textures, an entity, texture slots and a three-level octree; every 4-byte '
    'magic number; every undefined octree, variable and entity code',
    ['the gzip container itself is outside: cuts are made in the decompressed stream'])

M6 = [task('plain', 'mapfile', 'slots', config={'layout': [3, 1]}, reach=['read', 'end'])]
M6 += [task('one-%d' % b, 'mapfile', 'slots', config={'layout': [2, [1 << b, 1, False], 1]}, reach=['read', 'refused']) for b in range(10)]
M6 += [task('pair-%d' % b, 'mapfile', 'slots', config={'layout': [[[1 << b | 1 << c for c in range(10) if c != b], 2, True]]}, samples=3,
            reach=['read', 'refused']) for b in range(10)]
M6 += [task('most-%d-%d' % (n, p), 'mapfile', 'slots', config={'layout': [1, [[1023] + [1023 ^ 1 << b for b in range(10)], n, bool(p)], 2]}, samples=3,
            reach=['read', 'refused']) for n in (0, 1, 2) for p in (0, 1)]
M6 += [task('two', 'mapfile', 'slots', config={'layout': [[[0, 3, 1020], 1, False], 1, [[0, 9, 150], 1, True], [0x208, 0, False]]}, reach=['read', 'refused'])]
M6 += [task('every-%d' % k, 'mapfile', 'slots', config={'layout': [1, [list(range(k * 64, k * 64 + 64)), 3, bool(k % 2)], 1]}, reach=['read', 'refused'],
            tier='thorough', samples=2) for k in range(16)]
prop('M06', M6,
     'up to two texture slots with settings of their own among runs of plain ones; any one, any pair, and any nine or all ten '
     'of the kinds of settings (thorough: all 1024 combinations); 0-3 shader parameters with and without palette; every '
     'int32 value, floats k/64 up to 2^12', ['the shader parameters of a slot are read past and not kept', 'writing such a map is refused'])
CH = ['ents', 'attrs', 'vars', 'meta', 'mru', 'cells', 'surf', 'slots', 'cfg']
prop('M07', [
    task('apart-%d-%s' % (n, o), 'mapfile', 'apart', config={'parsers': n, 'op': o},
         reach=['end'] + ['failed'] * (o == 'failed')) for n in (1, 2) for o in CH + ['again', 'failed']
] + [task('twice-' + b, 'mapfile', 'saved_twice', config={'between': b}, reach=['end'])
     for b in ('none', 'same', 'json', 'other', 'edit', 'edit-json')],
    'two maps with symbolic header, variables, entity, octree and surface values; nine kinds of change between reading and '
    'saving; one or two readers; a damaged file read in between')

V1 = [task('size2', 'voxels', 'octree', config={'size': 2, 'ops': ['set', 'set', 'del']}, reach=['end']),
      task('outside', 'voxels', 'octree', config={'size': 2, 'ops': ['set'], 'lo': -3, 'hi': 5}, reach=['end'])]
V1 += [task('size4-%d%d' % (a, b), 'voxels', 'octree', config={'size': 4, 'ops': ['set', 'set'], 'first': [a, b]},
            reach=['end'], samples=3) for a in range(4) for b in range(4)]
V1 += [task('size8-%d' % a, 'voxels', 'octree', config={'size': 8, 'ops': ['set'], 'first': [a, None]}, reach=['end'],
            samples=4) for a in range(8)]
V1 += [task('between', 'voxels', 'octree', config={'size': 2, 'ops': ['set', 'set'], 'between': True}, reach=['end']),
       task('between-del', 'voxels', 'octree', config={'size': 2, 'ops': ['set', 'del'], 'between': True}, reach=['end'])]
V1 += [task('size4-many', 'voxels', 'octree', config={'size': 4, 'ops': ['del'], 'more': 40}, reach=['end'], samples=3),
       task('size16-many', 'voxels', 'octree', config={'size': 16, 'ops': ['set'], 'more': 30, 'first': [5, 15]}, reach=['end'], samples=3),
       task('size32-many', 'voxels', 'octree', config={'size': 32, 'ops': ['set'], 'more': 12, 'lo': 28, 'hi': 31, 'first': [31, 30, None]}, reach=['end'], samples=2)]
V1 += [task('size%d-far' % n, 'voxels', 'octree', config={'size': n, 'ops': ['set'], 'more': 6, 'lo': n - 3, 'hi': n - 1, 'first': [n - 1, None, n - 2]}, reach=['end'], samples=2, seconds=200)
       for n in (64,)]
V1 += [task('size4d-%d%d' % (a, b), 'voxels', 'octree', config={'size': 4, 'ops': ['set', 'set', 'del'], 'first': [a, b]},
            reach=['end'], samples=3, tier='thorough') for a in range(4) for b in range(4)]
V1 += [task('size16', 'voxels', 'octree', config={'size': 16, 'ops': ['set'], 'first': [5, 15]}, reach=['end'], samples=4,
            tier='thorough')]
prop('V01', V1, 'worlds of side 2 (2 writes and a delete), 4 (2 writes at any two of the 64 places; thorough: and a '
     'delete), 8 (1 write anywhere), one write up to 3 cells outside a world of side 2, one write near the far corner of a world of side 64')

VOPS = ('set', 'setv', 'del', 'delv')
prop('V02', [
    task('two-%s-%s' % (a, b), 'voxels', 'history', config={'ops': [a, b], 'lo': -20, 'hi': 40}, reach=['end'], samples=2)
    for a in VOPS for b in VOPS] + [
    task('three-%s-%s' % (a, b), 'voxels', 'history', config={'ops': ['set', a, b], 'lo': 0, 'hi': 15}, reach=['end'],
         samples=2, tier=None if (a, b) in (('setv', 'del'), ('delv', 'setv')) else 'thorough')
    for a in VOPS for b in VOPS] + [
    task('four-%s-%s' % (a, b), 'voxels', 'history', config={'ops': ['set', 'setv', a, b], 'lo': 0, 'hi': 15},
         reach=['end'], tier='thorough') for a in VOPS for b in VOPS] + [
    task('many-%s' % a, 'voxels', 'history', config={'ops': [a], 'lo': -20, 'hi': 140, 'more': 20}, reach=['end'], samples=2) for a in VOPS] + [
    task('far-%s-%s' % (a, b), 'voxels', 'history', config={'ops': [a, b], 'lo': -5000, 'hi': 5000}, reach=['end'], samples=2)
    for a, b in (('set', 'setv'), ('setv', 'del'))] + [
    task('halves', 'voxels', 'halves', reach=['end'])],
    'histories of 2-3 writes and deletes (thorough: 4) at any places in [0, 15]^3 or [-20, 40]^3 and a read anywhere')

prop('V03', [
    task('cli-2', 'voxels', 'exported', config={'size': 2, 'ops': ['set'], 'through': 'cli'}, reach=['end'], samples=6),
    task('cli-none', 'voxels', 'exported', config={'size': 4, 'ops': [], 'through': 'cli'}, reach=['end']),
    task('map-2', 'voxels', 'exported', config={'size': 2, 'ops': ['set', 'faces'], 'through': 'map'}, reach=['end'], samples=4),
    task('cli-4', 'voxels', 'exported', config={'size': 4, 'ops': ['faces'], 'through': 'cli'}, reach=['end'], samples=4),
] + [task('map-4-%d' % i, 'voxels', 'exported', config={'size': 4, 'ops': ['set', 'set'], 'through': 'map', 'first': f},
          reach=['end'], samples=3) for i, f in enumerate([[0, 0, 0], [3, 3, 3], [1, 2, 0], [2, 0, 3]])]
  + [task('map-many', 'voxels', 'exported', config={'size': 8, 'ops': ['set'], 'through': 'map', 'more': 30, 'first': [3, 4, 6]}, reach=['end'], samples=2),
     task('map-8', 'voxels', 'exported', config={'size': 8, 'ops': ['set'], 'through': 'map'}, reach=['end'], samples=3,
          tier='thorough')],
    'worlds of side 2 and 4 with 0-2 voxels anywhere (thorough: side 8, one voxel), any texture 0-65535 per face',
    ['copying the texture images into the game folder is left out'])

prop('V04', [task('face-%d' % i, 'voxels', 'geometry', config={'orient': i}, reach=['end']) for i in range(6)] + [
    task('outward', 'voxels', 'outward', reach=['end']), task('fresh', 'voxels', 'new_cubes', reach=['end']),
    task('sides', 'voxels', 'sides', reach=['end'])],
    'all 256^12 edge settings; every face; boxes with any corners')

THEMED = ('minecraft', 'dull', 'paper', 'primary')
prop('T01', [
    task('colours-2', 'textures', 'colours', config={'n': 2, 'mix': True}, reach=['end']),
    task('colours-3', 'textures', 'colours', config={'n': 3, 'mix': False}, reach=['end']),
] + [
    task('all-' + w, 'textures', 'all_names', config={'which': w}, reach=['end'], fresh=False) for w in ('plain',) + THEMED] + [
    task('colours-many', 'textures', 'many_colours', config={'n': 40}, reach=['end']),
] + [task('rainbow-%d' % i, 'textures', 'rainbow', config={'n': 2, 'half': h}, reach=['end'], tier=None if i in (1, 2) else 'thorough')
     for i, h in enumerate([(0, 0), (0.001, 0.3), (0.301, 0.6), (0.601, 0.999), (1, 1)])
] + [task('names-' + w, 'textures', 'names', config={'which': w, 'n': 3}, reach=['end'], fresh=False)
     for w in ('plain',) + THEMED] + [
    task('apart-%s-%s' % (a, b), 'textures', 'apart', config={'which': a, 'other': b}, reach=['end'], fresh=False)
    for a, b in (('auto', 'auto'), ('minecraft', 'minecraft'), ('paper', 'auto'), ('auto', 'primary'), ('dull', 'dull'))],
    'up to 3 requests, and up to 2 to each of two managers in turn; colours k/256; two random rainbow colours, the first one with green in (0, 0.6] (thorough: any); every texture the managers know')
prop('T02', [
    task('names-' + w, 'textures', 'conf_names', config={'which': w, 'n': 3}, reach=['end'], fresh=False) for w in THEMED
] + [task('colours', 'textures', 'conf_colours', config={'n': 2}, reach=['end'])] + [
    task('all-' + w, 'textures', 'conf_all', config={'which': w}, reach=['end'], fresh=False) for w in THEMED + ('auto',)] + [
    task('cat-' + w, 'textures', 'conf_categories', config={'which': w, 'n': 1 if w == 'dull' else 2}, reach=['end'], fresh=False)
    for w in THEMED + ('auto',)],
    'up to 3 textures of each set in any of 8 spacings from any start; 2 symbolic colours k/256; 1-2 category requests with '
    'any random draw')
prop('T03', [
    task('cat-' + w, 'textures', 'category', config={'which': w, 'n': 1 if w in ('dull', 'rainbow') else 2}, reach=['end'], fresh=False)
    for w in THEMED + ('auto', 'rainbow')],
    'every category, every random draw, 1-2 requests')
prop('T04', [
    task('images-' + w, 'textures', 'images', config={'which': w, 'n': 1, 'again': w in ('primary', 'auto')}, reach=['end'], fresh=False)
    for w in THEMED + ('auto',)] + [
    task('every-' + w, 'textures', 'images', config={'which': w, 'n': 0, 'every': True}, reach=['end'], fresh=False) for w in THEMED + ('auto',)] + [
    task('own-' + b, 'textures', 'channels', config={'base': b}, reach=['end'], fresh=False)
    for b in ('SimpleTex', 'SimpleColourTex', 'BumpSpecMapWorld', 'BumpSpecMapParallaxWorld', 'BumpSpecMapParallaxGlowWorld')],
    'every category and random draw; textures of every kind with and without each optional part; the copy itself is replaced by a recorder')

EK = ('spawn', 'sun', 'light', 'pusher', 'flag', 'model', 'weapon', 'grenade', 'shotgun')
prop('E01', [
    task('%s-%s-%s' % (k, u, g), 'entities', 'made', config={'kind': k, 'unit': u, 'half': g == 'some', 'given': g}, reach=['end'])
    for k in EK for u in ('fine', 'coarse') for g in ('all', 'some', 'none')] + [
    task('own-' + k, 'entities', 'unshared', config={'kind': k}, reach=['end']) for k in EK],
    'every entity constructor, fine positions in [-4096, 4096] and coarse in [-512, 512] (whole or half), every int32 '
    'attribute, all, every other or no attribute given', ['the position of a sun light is immaterial'])
CELLS = [(2, None), (3, None), (0x43, None), (0x62, 63), (0x23, 5), (0xE3, 32), (0x21, 0)]
prop('J01', [
    task('map-%d' % i, 'entities', 'exported', config={'kinds': k, 'varkinds': v, 'cells': CELLS[c:c + 3]},
         reach=['end', 'restored'])
    for i, (k, v, c) in enumerate([([3, 9, 1], [0, 1, 2], 0), ([2, 13], [2], 3), ([14, 8], [0], 4), ([9], [], 2), ([], [1, 0], 1), ([3, 3], [], 1), ([1, 1, 1], [], 1)])
] + [task('made-' + k, 'entities', 'exported_made', config={'kind': k}, reach=['end', 'restored']) for k in EK],
    'maps with up to 3 entities of every kind, 3 variables, 2 recent textures and 3 symbolic cells of every kind at '
    'depth 1-2; every entity constructor', ['text in a JSON export is ASCII', 'the octree is not restored from JSON (documented as incomplete)'])
prop('L01', [
    task('%s-%s-%s' % (m, u, o), 'entities', 'light', config={'unit': u, 'half': h, 'manager': m, 'override': o}, reach=['end'])
    for m, u, h, o in [('LightManager', 'fine', True, True), ('LightManager', 'coarse', False, False),
                       ('PositionBasedLightManager', 'coarse', True, True)]],
    'world sizes 64 to 1024 and 4096; fine positions in [-4096, 4096], coarse in [-512, 512]; sizes any number of eighths up to 8; every colour')
prop('L02', [
    task('hue-%s-%s' % (b, s), 'entities', 'hue', config={'brightness': b, 'saturation': s}, reach=['end'])
    for b in (1.0, 0.5, 0.25, 2.0) for s in (1.0, 0.5, 0.0)],
    'brightness 0.25 to 2, saturation 0, 0.5, 1; any noise value k/1024 in [-1, 1]; hues k/1024',
    ['the hue of the three noise values (colorsys.rgb_to_hsv) is replaced by an arbitrary one'])

SHAPES = ('cube', 'floor', 'ceiling', 'prism', 'ring', 'wall', 'low_wall', 'column', 'dotted')
FACES = ('EAST', 'NORTH', 'WEST', 'SOUTH')
prop('K01', [
    task('%s-%s-%s' % (s, o, u), 'kit', 'built', config={'what': s, 'orientation': o, 'sites': u}, reach=['end'])
    for s in SHAPES for i, o in enumerate(FACES) for u in (('coarse', 'fine')[i % 2],)] + [
    task('anywhere-%s-%s' % (s, o), 'kit', 'anywhere', config={'what': s, 'orientation': o, 'subtract': False}, reach=['end'])
    for s, o in (('cube', 'NORTH'), ('column', 'WEST'), ('prism', 'SOUTH'))] + [
    task('unknown', 'kit', 'unknown', reach=['end'])],
    'every primitive and orientation, rooms at coarse [0, 31]^3 or fine [0, 255]^3, offsets in [-16, 24]^3 (and coarse '
    '[-2, 2]^3 on top), sizes up to 16, all textures; voxels all around the shape and on it, or one anywhere, before')
prop('K02', [
    task('removed-%s-%s' % (s, o), 'kit', 'removed', config={'what': s, 'orientation': o}, reach=['end'])
    for i, s in enumerate(SHAPES) for o in (FACES[i % 4], FACES[(i + 1) % 4])] + [
    task('anywhere-%s-%s' % (s, o), 'kit', 'anywhere', config={'what': s, 'orientation': o, 'subtract': True}, reach=['end'])
    for s, o in (('cube', 'NORTH'), ('column', 'WEST'), ('prism', 'SOUTH'))] + [
    task('sparse-%s-%s' % (s, p), 'kit', 'sparse', config={'what': s, 'prob': p, 'orientation': FACES[i % 4]}, reach=r)
    for i, s in enumerate(('cube', 'column', 'prism')) for p, r in ((1.0, ['end', 'all']), (-0.1, ['end', 'none']))] + [
    task('sparse-%s-%s' % (s, p), 'kit', 'sparse', config={'what': s, 'prob': p, 'orientation': FACES[i % 4]}, reach=['end', 'all', 'none'],
         must=['%d%s %d%s' % (a, x, b, y) for b in range({'cube': 1, 'column': 4, 'prism': 8}[s]) for a in range(b) for x in '+-' for y in '+-'])
    for i, s in enumerate(('cube', 'column', 'prism')) for p in (0.5, 0.1, 0.9)],
    'every primitive (removal), up to 8 voxels with a draw each (probabilities 0.1, 0.5, 0.9, 1, below 0), half of them filled before; any two voxels may come out differently')

PAIRS = [('one', 'ell', 'EN'), ('long', 'stair', 'WS'), ('down', 'tower', 'NE'), ('turn', 'back', 'SW'), ('hall', 'one', 'NE')]
# a row of halls along the edge of the map, and one room near it
ROWS = [('one', 1, 'E', 14, [[7, 22], [1, 3], [3, 5]]), ('ell', 1, 'N', 14, [[7, 22], [0, 3], [4, 4]]), ('turn', 2, 'S', 10, [[7, 18], [1, 3], [4, 4]]),
        ('hall', 4, 'W', 6, [[7, 14], [1, 3], [4, 4]])]
prop('U01', [task('legal', 'placing', 'legal', reach=['end'])] + [
    task('pair-%s-%s' % (a, b), 'placing', 'registered', config={'kinds': [a, b], 'mirror': 1, 'facing': f},
         reach=['end', 'refused1'], must=['placed1']) for a, b, f in PAIRS] + [
    task('mirror%d-%s-%s' % (m, k, f), 'placing', 'registered', config={'kinds': [k], 'mirror': m, 'facing': f},
         reach=['end'], must=['placed0']) for m, k, f in ((2, 'long', 'E'), (2, 'ell', 'N'), (2, 'down', 'S'), (4, 'long', 'N'), (4, 'one', 'E'),
                                                   (4, 'stair', 'W'), (2, 'apart', 'E'), (4, 'apart', 'N'), (4, 'apart', 'W'))] + [
    task('unasked-%s-%s' % (a, b), 'placing', 'registered_unasked', config={'kinds': [a, b], 'facing': f}, reach=['end'])
    for a, b, f in PAIRS[::2]] + [
    task('pair-mirror%d-%s-%s' % (m, a, b), 'placing', 'registered', config={'kinds': [a, b], 'mirror': m, 'facing': f, 'near': 2},
         reach=['end'], must=['placed1'], tier='thorough', thorough_seconds=900)
    for a, b, f in PAIRS[:3] for m in (2, 4)] + [
    task('three-%d' % i, 'placing', 'registered', config={'kinds': k, 'mirror': 1, 'facing': f, 'near': 2},
         reach=['end', 'refused2'], must=['placed2'], tier='thorough', thorough_seconds=900)
    for i, (k, f) in enumerate([(['one', 'hall', 'turn'], 'ENW'), (['long', 'cap', 'stair'], 'ESN')])] + [
    task('row-%s-m%d' % (k, m), 'placing', 'registered', config={'kinds': [k], 'mirror': m, 'facing': f, 'more': n, 'within': w}, reach=['end'], must=['placed0'])
    for k, m, f, n, w in ROWS],
    'pairs of rooms of 1 to 3 cells, the first anywhere in [-1, 32]^3 and the second within 3 cells of it; one room and its '
    'mirrored copies anywhere', ['rooms are classes of the harness, their doors next to their cells'])
prop('U02', [
    task('pair-%s-%s' % (a, b), 'placing', 'registered', config={'kinds': [a, b], 'mirror': 1, 'facing': f, 'part': 'all'},
         reach=['end', 'refused1'], must=['placed1']) for a, b, f in PAIRS] + [
    task('mirror%d-%s-%s' % (m, k, f), 'placing', 'registered', config={'kinds': [k], 'mirror': m, 'facing': f, 'part': 'all'},
         reach=['end'], must=['placed0']) for m, k, f in ((2, 'hall', 'E'), (2, 'ell', 'N'), (4, 'long', 'N'), (4, 'one', 'E'), (4, 'apart', 'S'))] + [
    task('unasked-%s-%s' % (a, b), 'placing', 'registered_unasked', config={'kinds': [a, b], 'facing': f, 'part': 'all'}, reach=['end'])
    for a, b, f in PAIRS[::2]] + [
    task('three-%d' % i, 'placing', 'registered', config={'kinds': k, 'mirror': 1, 'facing': f, 'near': 2, 'part': 'all'},
         reach=['end', 'refused2'], must=['placed2'], tier='thorough', thorough_seconds=900)
    for i, (k, f) in enumerate([(['one', 'hall', 'turn'], 'ENW'), (['long', 'cap', 'stair'], 'ESN')])] + [
    task('row-%s-m%d' % (k, m), 'placing', 'registered', config={'kinds': [k], 'mirror': m, 'facing': f, 'part': 'all', 'more': n, 'within': w}, reach=['end'],
         must=['placed0']) for k, m, f, n, w in ROWS],
    'pairs of rooms of 1 to 3 cells and up to 4 doors, the first anywhere in [-1, 32]^3, the second within 3 cells of it; one '
    'room and its mirrored copies anywhere', ['rooms are classes of the harness, their doors next to their cells'])
prop('U04', [
    task('%s-%s-%s-m%d' % (a, '+'.join(k), f, m), 'placing', 'proposed', config={'prev': a, 'kinds': k, 'mirror': m, 'facing': f},
         reach=['end'], must=['some']) for a, k, f, m in
    [('one', ['hall'], 'E', 1), ('hall', ['flag'], 'E', 1), ('hall', ['ell'], 'N', 1), ('turn', ['back'], 'W', 1), ('hall', ['stair', 'cap'], 'S', 1),
     ('stair', ['down'], 'E', 1), ('hall', ['long'], 'N', 2), ('cap', ['cap'], 'E', 4), ('turn', ['turn'], 'S', 2), ('flag', ['flag'], 'E', 1)]] + [
    task('crowded-%s' % k, 'placing', 'proposed', config={'prev': 'one', 'kinds': [k], 'mirror': 1, 'facing': 'E',
         'others': [['hall', 'N', [2, 0, 0]], ['cap', 'E', [-1, 1, 0]]]}, reach=['end'] + (['none'] if k != 'turn' else []), must=['some'])
    for k in ('turn', 'long', 'ell')] + [
    task('orders-%s-%s' % (a, b), 'placing', 'proposed', config={'prev': a, 'kinds': [b], 'mirror': m, 'facing': 'E', 'orders': True, 'most': 9},
         reach=['end'], must=['some'], tier='thorough') for a, b, m in (('hall', 'flag', 1), ('hall', 'long', 2), ('hall', 'ell', 1))] + [
    task('one-tower-E-m4', 'placing', 'proposed', config={'prev': 'one', 'kinds': ['tower'], 'mirror': 4, 'facing': 'E'},
         reach=['end'], must=['some'], tier='thorough')],
    'an open door of a room anywhere in the map, alone or with two neighbours; rooms of 1 to 3 cells; mirror 1, 2 and 4; the '
    'orders in which directions are tried: rotations (quick), all (thorough)',
    ['rooms are classes of the harness, their doors next to their cells'])
prop('U05', [
    task('share-%d' % i, 'placing', 'weighted', config={'weights': w}, reach=['end'])
    for i, w in enumerate([[1, 2, 5], [4], [1, 1], [3, 1, 4, 1, 5, 9, 2, 6], [32768, 243, 1, 1], [1 + i * 7 % 5 for i in range(40)]])] + [
    task('even-%d' % i, 'placing', 'shares', config={'weights': w}, reach=['end'])
    for i, w in enumerate([[1, 2, 5], [7], [1, 1], [3, 1, 4, 1, 5, 9, 2, 6], [1, 9], [0, 4, 0, 4], [16, 1, 1, 1, 1, 12]])] + [
    task('any-%d' % i, 'placing', 'weighted_any', config={'weights': w}, reach=['end'], must=['c%d' % j for j in range(len(w)) if w[j]])
    for i, w in enumerate([[1, 2, 5], [0.1, 0.7, 0.3], [0.4, 1.0, 0.7, 0.3, 0.3], [0.7, 0.1, 0.7, 0.3, 0.4, 1.0, 1.0], [0.1] * 10])] + [
    task('zero', 'placing', 'weighted_any', config={'weights': [0, 0]}, reach=['end'])] + [
    task('stream-%d' % i, 'placing', 'stream', config={'kinds': k, 'probs': p}, reach=['end'])
    for i, (k, p) in enumerate([(['one', 'hall'], [0.3, 0.1]), (['one', 'hall', 'cap'], [None, 0.3, 0.1]), (['one', 'hall', 'cap'], [0.2, 0.2, None]),
                                (['one'], [1]), (['one', 'hall', 'cap', 'turn'], [1, 1, 1, 1])])] + [
    task('stream-far-%d' % i, 'placing', 'stream', config={'kinds': k, 'probs': p, 'rotate': True}, reach=['end'])
    for i, (k, p) in enumerate([(['one', 'hall'], [3.0, 0.001]), (['one', 'hall', 'cap'], [0.001, 20, None]), (['one', 'hall', 'cap', 'turn'], [1, 700, 250, 90])])] + [
    task('stream-any-%d' % i, 'placing', 'stream', config={'kinds': k, 'probs': p, 'rotate': True}, reach=['end'], samples=4)
    for i, (k, p) in enumerate([(['one', 'hall'], [[1, 110], 1]), (['one', 'hall', 'cap'], [3, [1, 40], [1, 4]])])] + [
    task('door-%s-%s' % (s, f), 'placing', 'opened', config={'start': s, 'lo': 0, 'hi': 31, 'flavour': f}, reach=['end'])
    for s, f in (('one', 'nrp_flavour_vertical'), ('stair', 'nrp_flavour_vertical'), ('one', 'nrp_flavour_plain'),
                 ('one', 'nrp_flavour_center_hole'), ('one', None))],
    'every draw (all 2^53 values) for up to 10 choices with the given weights; up to 4 room classes; the doors of a room '
    'anywhere in the map', ['a draw of exactly zero may choose a first choice without weight'])
prop('U06', [
    task('%s-%s-m%d-%d-z%d' % (s, '+'.join(k), m, n, z), 'placing', 'grown',
         config={'start': s, 'kinds': k, 'mirror': m, 'rooms': n, 'z': z, 'facing': f}, reach=['end'], must=['short' if n >= 3 else 'full'])
    for s, k, m, n, z, f in
    [('hall', ['hall'], 1, 2, 3, 'E'), ('hall', ['cap'], 1, 3, 0, 'N'), ('turn', ['turn'], 1, 1, 31, 'W'), ('cap', ['flag'], 1, 2, 3, 'E'),
     ('cap', ['stair', 'cap'], 1, 2, 3, 'S'), ('cap', ['cap'], 2, 2, 3, 'E'), ('cap', ['long'], 2, 1, 2, 'N'), ('corner', ['corner'], 1, 1, 4, 'W'), ('cap', ['corner'], 1, 2, 2, 'N'),
     ('nook', ['long'], 1, 1, 2, 'E'), ('nook', ['stair'], 1, 1, 31, 'W')]] + [
    task('corner-m4', 'placing', 'grown', config={'start': 'cap', 'kinds': ['cap'], 'mirror': 4, 'rooms': 1, 'z': 5, 'lo': 21, 'hi': 31},
         reach=['end'], must=['full']),
    task('pairs-m2', 'placing', 'grown', config={'start': 'cap', 'kinds': ['hall'], 'mirror': 2, 'rooms': 3, 'z': 5, 'lo': 20, 'hi': 22},
         reach=['end'], must=['full']),
    task('pairs-m4', 'placing', 'grown', config={'start': 'cap', 'kinds': ['hall'], 'mirror': 4, 'rooms': 5, 'z': 5, 'lo': 22, 'hi': 22},
         reach=['end'], must=['full'])] + [
    task('many-%s-m%d' % ('+'.join(k), m), 'placing', 'grown', config={'start': 'one', 'kinds': k, 'mirror': m, 'rooms': n, 'z': 9, 'lo': l, 'hi': h, 'limit': 4 if m == 1 else 3},
         reach=['end'], must=['full'], samples=2) for k, m, n, l, h in (
        (['one', 'turn'], 1, 14, 15, 15), (['stair', 'hall', 'ell'], 1, 12, 12, 13), (['one', 'cap'], 2, 14, 9, 9), (['turn', 'one'], 4, 16, 6, 6))] + [
    task('deep-%s-%s-m%d-%d' % (s, '+'.join(k), m, n), 'placing', 'grown', config={'start': s, 'kinds': k, 'mirror': m, 'rooms': n, 'z': 3},
         reach=['end'], must=['full'], tier='thorough', thorough_seconds=900) for s, k, m, n in
    [('hall', ['long'], 2, 1), ('nook', ['long'], 2, 1), ('cap', ['hall'], 4, 1), ('hall', ['cap', 'stair'], 1, 2), ('hall', ['cap'], 2, 2), ('cap', ['hall', 'turn'], 1, 3)]],
    'a start room anywhere at the given height, one or two room classes, up to 3 rooms, mirror 1, 2 and 4; the orders in which '
    'directions and classes are tried are rotations', ['rooms are classes of the harness, their doors next to their cells'])
prop('U07', [
    task('%s-%s-%s-%d' % (s, '+'.join(c), f, i), 'placing', 'capped', config={'start': s, 'caps': c, 'facing': f, 'others': o}, reach=['end'])
    for i, (s, c, f, o) in enumerate([
        ('one', ['cap'], 'E', []), ('hall', ['cap'], 'N', [['back', 'E', [3, 0, 0]]]), ('turn', ['cap'], 'W', [['turn', 'W', [[-3, 3], [0, 2], 0]]]),
        ('stair', ['tower'], 'S', [['hall', 'E', [[-2, 2], [-2, 2], [0, 1]]]]), ('long', ['cap', 'down'], 'E', []),
        ('hall', ['back', 'cap'], 'E', [['one', 'E', [[-3, 3], 1, 0]]])])] + [
    task('row', 'placing', 'capped', config={'start': 'one', 'caps': ['cap'], 'facing': 'E', 'more': 12, 'within': [[7, 20], [1, 3], [4, 4]]}, reach=['end']),
    task('field', 'placing', 'capped', config={'start': 'hall', 'caps': ['cap'], 'facing': 'N', 'field': 32, 'within': [[8, 12], [4, 6], [4, 5]]}, reach=['end']),
    task('field-debug', 'placing', 'capped', config={'start': 'hall', 'caps': [], 'facing': 'N', 'field': 32, 'within': [[8, 12], [4, 6], [4, 5]], 'debug': True}, reach=['end']),
    task('row-debug', 'placing', 'capped', config={'start': 'turn', 'caps': [], 'facing': 'E', 'more': 12, 'within': [[7, 20], [1, 3], [4, 5]], 'debug': True}, reach=['end'])] + [
    task('debug-%d' % i, 'placing', 'capped', config={'start': s, 'caps': [], 'facing': f, 'others': o, 'debug': True}, reach=['end'])
    for i, (s, f, o) in enumerate([('one', 'E', []), ('turn', 'E', [['turn', 'W', [[-3, 3], [0, 2], 0]]]), ('stair', 'N', [['hall', 'E', [[-2, 2], [-2, 2], [0, 1]]]])])],
    'a start room anywhere in the map and another within 3 cells; one or two cap classes of up to 3 cells and two doors; mirror 1')
prop('U03', [
    task('%s-%s-m%d' % ('+'.join(k), f, m), 'placing', 'symmetric', config=dict({'kinds': k, 'mirror': m, 'facing': f}, **({'near': 1} if 'corner' in k else {})), reach=['end'])
    for k, f, m in ((['one'], 'E', 1), (['long'], 'E', 2), (['ell'], 'N', 2), (['down'], 'W', 4), (['back'], 'S', 4), (['cap', 'hall'], 'EN', 2),
                    (['ell', 'cap'], 'SW', 1), (['corner', 'cap'], 'NE', 2), (['hall', 'corner'], 'EW', 2))] + [
    task('drawn-%s-m%d' % (f, m), 'placing', 'drawn', config={'kind': 'hall', 'mirror': m, 'facing': f}, reach=['end'])
    for f in 'ENWS' for m in (2, 4)] + [
    task('rooms-%s-m%d' % ('+'.join(ns)[:40], m), 'rooms', 'mirrored', config=dict({'names': ns, 'facings': f, 'mirror': m}, **kw), reach=['end'], fresh=False, samples=4)
    for ns, f, m, kw in (
        (['Room', 'Corridor2way', 'JumpCorridor3', 'Corridor4way'], 'NW', 2, {}), (['SpawnRoom', 'Stair', 'TestRoom'], 'ES', 4, {}),
        (['JumpCorridorVertical', 'JumpCorridorVerticalCenter', 'CrossingWalkways'], 'E', 2, {}), (['PlusPlatform', 'FlatSpace'], 'W', 2, {}), (['MultiPlatform'], 'W', 2, {}),
        (['NLongCorridor'], 'S', 2, {}), (['AltarRoom'], 'N', 2, {'flags': [None, True, None]}),
        (['spacestation.station_tube3'], 'E', 4, {}), (['dungeon.dungeon_stair2'], 'S', 2, {}), (['egypt.stair', 'original.spawn_room'], 'N', 2, {}))] + [
    task('four-links', 'placing', 'symmetric', config={'kinds': ['cap', 'cap'], 'mirror': 4, 'facing': 'EN', 'near': 2}, reach=['end'],
         tier='thorough')],
    'rooms of 1 to 3 cells anywhere in the map, mirror 1, 2 and 4; a second room within 4 cells (mirror 1, 2); rooms of the repository (18 classes, with all flags) '
    'in 5 x 5 x 19 places of a quarter of the map, mirror 2 or 4',
    ['rooms other than those of the repository are classes of the harness, their doors next to their cells'])

# -- rooms
SMALL_ROOMS = ['Room', 'Corridor2way', 'JumpCorridor3', 'Corridor4way', 'SpawnRoom', 'Stair', 'TestRoom', 'PlusPlatform', 'FlatSpace',
               'JumpCorridorVertical', 'JumpCorridorVerticalCenter', 'CrossingWalkways', 'MultiPlatform']
BIG_ROOMS = [  # name, flags of the quick check (None: both), pattern
    ('AltarRoom', None, 'all'), ('ImposingRingRoom', [None, None, False, None, True], 'all'),
    ('ImposingRingRoom', [True, None, True, False, None], 'all'), ('DigitalRoom', [None, None, True], 'all'),
    ('DigitalRoom', [True, None, False], 'some'), ('ImposingBlockRoom', [None, True, True], 'all'), ('ImposingBlockRoom', [True, False, None], 'all'),
    ('PoleRoom', [False, None], 'few'), ('NLongCorridor', None, 'all')]
BIG_MODELS = ['castle.castle_flag_room', 'castle.castle_large', 'spacestation.station_flagroom', 'castle.castle_wall_section_x', 'spacestation.station_ring_vertical',
              'spacestation.station_ring', 'spacestation.station_sphere', 'egypt.gate', 'castle.castle_wall_section_tjoint']
MODELS = [['castle.' + n for n in (
    'castle_gate castle_gate_simple castle_small_deis castle_wall_corner castle_wall_end_cliff castle_wall_entry castle_wall_section '
    'castle_wall_section_endcap castle_wall_section_long castle_wall_section_long_damaged castle_wall_tower wooden_bridge').split()],
    ['dungeon.' + n for n in 'dungeon_2x2 dungeon_junction dungeon_stair2 dungeon_walkway dungeon_walkway3'.split()]
    + ['egypt.' + n for n in 'stair stair_toplatform statue statue_cat house_2x2 house_2x2x3'.split()] + ['original.spawn_room'],
    ['spacestation.' + n for n in (
        'station_endcap station_right station_sbend station_sphere_slice station_stair2 station_tube1 station_tube3 station_tube3layered '
        'station_tube_jumpx station_tubeX station_tubeX_variant station_uturn').split()]]
MODELS = [m[i::2] for m in MODELS for i in (0, 1)]


def room_tasks(func, facings, **kw):
    """Every room of the repository: all in each direction (thorough), one direction each of the larger ones (quick)."""
    ts = []
    for i, n in enumerate(BIG_MODELS):
        c = {'names': [n]}
        if func == 'turns' and 'flag' in n:
            c['coloured'] = False
        ts.append(task('%s-%s' % (func, n), 'rooms', func, config=dict(c, facings=facings[i % len(facings)]), reach=['end'], fresh=False, samples=2, seconds=240))
        ts.append(task('all-%s-%s' % (func, n), 'rooms', func, config=dict(c, facings=facings), reach=['end'], tier='thorough', fresh=False, samples=2))
    for i, (n, fl, pat) in enumerate(BIG_ROOMS):
        c = {'names': [n], 'flags': fl, 'pattern': pat}
        ts.append(task('%s-%s-%d' % (func, n, i), 'rooms', func, config=dict(c, facings=facings[i % len(facings)]), reach=['end'], fresh=False, samples=2))
        ts.append(task('all-%s-%s-%d' % (func, n, i), 'rooms', func, config=dict(c, facings=facings, flags=None), reach=['end'], tier='thorough',
                       fresh=False, samples=4))
    for i, names in enumerate(MODELS):
        ts.append(task('%s-models%d' % (func, i), 'rooms', func, config={'names': names, 'facings': facings[i % len(facings)]}, reach=['end'],
                       fresh=False, samples=3))
        ts.append(task('all-%s-models%d' % (func, i), 'rooms', func, config={'names': names, 'facings': facings}, reach=['end'], tier='thorough',
                       fresh=False, samples=8))
    for i in range(3):
        ts.append(task('%s-rooms%d' % (func, i), 'rooms', func, config={'names': SMALL_ROOMS[i::3], 'facings': facings}, reach=['end'], fresh=False,
                       samples=6))
    return ts


prop('R01', room_tasks('inside', 'ENWS'),
     'a room anywhere in [-8, 40]^3 cells; in quick, the smaller built-in rooms in every direction and with all flags, the larger ones '
     'and the model rooms in one direction each; in thorough, every room in every direction with all flags', [
         'random() follows a fixed pattern (every draw low, or a mix of low and high draws), randint() is any value, the same at every call; textures '
         'and lights are a stand-in texture manager and the plain light manager'])
prop('R02', room_tasks('turns', 'NWS'),
     'as R01', ['as R01', 'the colours of the flag rooms depend on their direction and are not compared; nor are the positions of lights'])
prop('R03', [
    task('big-%s' % n, 'rooms', 'laid_out', config={'names': [n], 'facings': 'ENWS'}, reach=['end'], fresh=False, samples=2) for n in BIG_MODELS] + [
    task('models%d' % i, 'rooms', 'laid_out', config={'names': n, 'facings': 'ENWS'}, reach=['end'], fresh=False, samples=4) for i, n in enumerate(MODELS)] + [
    task('rooms%d' % i, 'rooms', 'laid_out', config={'names': n, 'facings': 'ENWS'}, reach=['end'], fresh=False, samples=8)
    for i, n in enumerate([SMALL_ROOMS, ['AltarRoom', 'NLongCorridor', 'PoleRoom', 'ImposingRingRoom'], ['DigitalRoom', 'ImposingBlockRoom']])],
    'every room class of the repository with all its flags, anywhere in [-8, 40]^3 cells, in every direction')
FLAGGED = {'NLongCorridor': 4, 'Corridor2way': 2, 'JumpCorridorVertical': 1, 'JumpCorridorVerticalCenter': 1, 'Corridor4way': 3, 'SpawnRoom': 1,
           'PoleRoom': 2, 'ImposingBlockRoom': 3, 'ImposingRingRoom': 5, 'AltarRoom': 3, 'Stair': 1, 'CrossingWalkways': 1, 'MultiPlatform': 1,
           'DigitalRoom': 3}
prop('R04', [
    task('mutated%d' % i, 'rooms', 'mutated', config={'names': sorted(FLAGGED)[i::4]},
         reach=['end'], must=['%s-%d' % (n, k) for n in sorted(FLAGGED)[i::4] for k in range(FLAGGED[n])]) for i in range(4)] + [
    task('drawn-%s-%s' % (n, a), 'rooms', 'drawn', config={'name': n, 'after': a},
         reach=['end'], must=[format(k, '0%db' % FLAGGED[n]).replace('0', 'F').replace('1', 'T') for k in range(2 ** FLAGGED[n])])
    for n, a in zip(sorted(FLAGGED), ['Room', 'SpawnRoom', 'DigitalRoom', 'PlusPlatform'] * 4) if n != a] + [
    task('plain', 'rooms', 'plain', config={'names': ['Room', 'PlusPlatform', 'FlatSpace', 'JumpCorridor3'], 'after': ['Room', 'Stair', 'FlatSpace']},
         reach=['end'])],
    'every room class with flags, all flags of the previous room, every draw')
prop('R05', [
    task('one-%s-%d' % (f, b), 'rooms', 'modelled', config=dict({'count': 1, 'facing': f, 'colours': 3}, **({'west': 2, 'south': 3} if b else {})),
         reach=['end']) for f in 'ENWS' for b in (0, 1)] + [
    task('two-%s' % f, 'rooms', 'modelled', config={'count': 2, 'facing': f, 'colours': 1}, reach=['end']) for f in 'NS'] + [
    task('many-%s' % f, 'rooms', 'modelled', config={'count': 1, 'facing': f, 'colours': 3, 'more': n, 'within': {'x': [11, 13], 'y': [9, 10], 'z': [3, 4]}}, reach=['end'])
    for f, n in (('E', 300), ('N', 70))] + [
    task('high', 'rooms', 'modelled', config={'count': 1, 'facing': 'N', 'colours': 3, 'base': 252, 'within': {'x': [0, 255], 'y': [0, 255], 'z': [0, 255]}},
         reach=['end']),
    task('middle', 'rooms', 'modelled', config={'count': 1, 'facing': 'E', 'colours': 3, 'base': 126}, reach=['end']),
    task('alpha', 'rooms', 'modelled', config={'count': 1, 'facing': 'W', 'colours': 2, 'alpha': True}, reach=['end']),
    task('another', 'rooms', 'modelled', config={'count': 1, 'facing': 'S', 'colours': 2, 'earlier': True}, reach=['end']),
    task('two-colours', 'rooms', 'modelled', config={'count': 2, 'facing': 'W', 'colours': 2}, reach=['end'], tier='thorough'),
    task('three', 'rooms', 'modelled', config={'count': 3, 'facing': 'W', 'colours': 1}, reach=['end'], tier='thorough', thorough_seconds=900)],
    'files of one or two voxels (three in thorough) anywhere in 24^3 with any colours among the first entries of the palette; the room '
    'anywhere in [-8, 40]^3 cells in every direction; with and without a boundary on two sides')
prop('A01', [
    task('box-%d' % s, 'effects', 'boxed', config={'func': 'box', 'size': s, 'heights': h, 'count': 1}, reach=['end'])
    for s, h in ((3, [None, 1, 2]), (4, [None]))] + [
    task('outline-%d' % s, 'effects', 'boxed', config={'func': 'box_outline', 'size': s, 'heights': h, 'count': 1}, reach=['end'])
    for s, h in ((3, [None, 1]), (4, [None, 2]))] + [
    task('box-more', 'effects', 'boxed', config={'func': f, 'size': 6, 'heights': [None, 3], 'count': 1}, reach=['end'], tier='thorough')
    for f in ('box',)] + [
    task('large-%s-%s' % (f, h), 'effects', 'boxed', config={'func': f, 'size': 12, 'heights': [h], 'count': 1, 'within': [10, 12]}, reach=['end'], samples=2)
    for f in ('box', 'box_outline') for h in (None, 9)] + [
    task('grid-large', 'effects', 'gridded', config={'size': 20, 'steps': [8], 'count': 1, 'within': [15, 17]}, reach=['end'], samples=2),
    task('grid-4', 'effects', 'gridded', config={'size': 4, 'steps': [2, 3], 'count': 1}, reach=['end']),
    task('grid-5', 'effects', 'gridded', config={'size': 5, 'steps': [1, 4], 'count': 1}, reach=['end']),
    task('grid-two', 'effects', 'gridded', config={'size': 2, 'steps': [2], 'count': 2}, reach=['end']),
    task('grid-more', 'effects', 'gridded', config={'size': 3, 'steps': [1, 2], 'count': 2}, reach=['end'], tier='thorough'),
    task('endcap', 'effects', 'capped', config={'size': 4, 'doors': 1}, reach=['end']),
    task('endcaps', 'effects', 'capped', config={'size': 4, 'doors': 2}, reach=['end'], tier='thorough')],
    'worlds of 2 to 6 voxels a side with one or two voxels anywhere, put there as rooms do or as integers; heights and grid steps up to the '
    'size; end caps: one or two open doors anywhere in 4^3 cells and a voxel in or next to one of them',
    ['the topmost layer of the world need not take part in the grid (the existing tests say so)'])
prop('A02', [
    task('%s-%s-%d' % (f, s, i), 'effects', f, config={'size': s, 'count': c, 'split': sp}, reach=['end'])
    for i, (f, s, c, sp) in enumerate((('decayed', 3, 1, (1, -1)), ('decayed', 3, 1, (-1, 1)), ('decayed', 2, 2, (1, -1)), ('grown', 3, 1, (1, -1)),
                                       ('grown', 3, 1, (-1, 1)), ('grown', 2, 2, (-1, 1))))] + [
    task('%s-more-%d' % (f, i), 'effects', f, config={'size': s, 'count': c, 'split': sp}, reach=['end'], tier='thorough')
    for i, (f, s, c, sp) in enumerate((('decayed', 4, 1, (1, -1)), ('decayed', 2, 2, (-1, 1)), ('grown', 4, 1, (1, -1))))] + [
    task('%s-large' % f, 'effects', f, config={'size': s, 'count': 1, 'split': (1, -1), 'within': [s - 2, s - 1], 'more': s - 2}, reach=['end'], samples=2)
    for f, s in (('decayed', 10), ('grown', 7))] + [
    task('draw-%s-%s' % (e, t), 'effects', 'drawn', config={'effect': e, 'size': 2, 'count': 1, 'threshold': t}, reach=['end'] + r)
    for e, t, r in (('decay', 1, ['gone', 'kept', 'empty']), ('growth', 1, ['grown', 'empty', 'kept']), ('decay', -1, ['gone']))] + [
    task('draw-more-%s' % e, 'effects', 'drawn', config={'effect': e, 'size': 3, 'count': 1, 'threshold': 1}, reach=['end'], tier='thorough')
    for e in ('decay', 'growth')],
    'worlds of 2 to 4 voxels a side with one or two voxels anywhere; position functions that are certain on one side of a plane and '
    'impossible on the other, or open at one place; every draw',
    ['growth need not reach the topmost layer of the world'])
prop('A03', [
    task(n, 'effects', 'gradients', config={'name': n, 'top': 256 if n == 'vertical_gradient' else 1024}, reach=['end'])
    for n in ('vertical_gradient', 'vertical_gradient2', 'vertical_gradient2inv')] + [
    task('gradient3', 'effects', 'gradients', config={'name': 'gradient3', 'top': 4}, reach=['end']),
    task('gradient3-more', 'effects', 'gradients', config={'name': 'gradient3', 'top': 24}, reach=['end'], tier='thorough')],
    'heights 0 to 1024 (linear gradient: 256; gradient3: 0 to 4, in thorough 24) anywhere in the plane')
prop('B01', [
    task('any', 'effects', 'exported', config={'ranges': [[-2, 258]], 'textures': 2}, reach=['end']),
    task('two', 'effects', 'exported', config={'ranges': [[-2, 258], [0, 255]], 'textures': 1, 'rooms': [False]}, reach=['end']),
    task('full', 'effects', 'exported', config={'ranges': [[0, 255]], 'textures': 255, 'rooms': [True]}, reach=['end']),
    task('many', 'effects', 'exported', config={'ranges': [[10, 12]], 'textures': 20, 'rooms': [False], 'more': 300}, reach=['end']),
    task('three', 'effects', 'exported', config={'ranges': [[0, 255]] * 3, 'textures': 3, 'rooms': [False]}, reach=['end'], tier='thorough'),
    task('manager', 'effects', 'exported', config={'ranges': [[0, 20]], 'textures': 2, 'real': True}, reach=['end']),
    task('managers', 'effects', 'exported', config={'ranges': [[0, 20]] * 2, 'textures': 2, 'real': True, 'rooms': [False]}, reach=['end'],
         tier='thorough'),
    task('half', 'effects', 'exported', config={'ranges': [[-2, 258]], 'textures': 2, 'rooms': ['half']}, reach=['end']),
    task('of-world', 'effects', 'exported', config={'ranges': [[-1, 256]], 'textures': 3, 'method': True}, reach=['end']),
    task('reread', 'effects', 'reread', config={'count': 1, 'lo': 0, 'hi': 63}, reach=['end']),
    task('reread-many', 'effects', 'reread', config={'count': 1, 'lo': 10, 'hi': 12, 'more': 250}, reach=['end']),
    task('reread-two', 'effects', 'reread', config={'count': 2, 'lo': 0, 'hi': 63}, reach=['end'])],
    'worlds of one or two voxels (three in thorough) anywhere in [-2, 258]^3, put there as rooms do or as integers, in any of up to 255 textures',
    ['the texture manager is that of the colour atlas (or a stand-in like it) with at most 255 textures, as many as the format has colours'])

# -- the command line --------------------------------------------------------------------

prop('D01', [
    task('mirror', 'cli', 'transitions', config={'mirror': True, 'n': 3}, reach=['end']),
    task('plain', 'cli', 'transitions', config={'mirror': False, 'n': 2}, reach=['end']),
    task('plain-three', 'cli', 'transitions', config={'mirror': False, 'n': 3}, reach=['end'], tier='thorough'),
    task('rooms', 'cli', 'of_rooms', reach=['end']),
    task('shipped', 'cli', 'shipped_tables',
         reach=['UniformDistributionManager', 'TowerDistributionManager', 'PlatformDistributionManager', 'CastleDistributionManager'])],
    'every table over two or three kinds of room, with any weights; the four shipped tables whole; rooms of any two of nine classes, one after the other')
prop('C01', [
    task('one', 'cli', 'flavoured', config={'count': 1}, reach=['end']),
    task('two', 'cli', 'flavoured', config={'count': 2}, reach=['end']),
    task('many', 'cli', 'flavoured', config={'count': 1, 'more': 300}, reach=['end']),
    task('three', 'cli', 'flavoured', config={'count': 3}, reach=['end'], tier='thorough')],
    'up to two flavours (three in thorough) in any order, on maps with none, one or 300 lines of their own, with up to two colours')
prop('C02', [
    task('alone', 'cli', 'graphed', config={'kinds': ['hall', 'corner'], 'facing': 'EE', 'mirror': 1, 'links': [[0, 1]]}, reach=['end']),
    task('back', 'cli', 'graphed', config={'kinds': ['hall', 'corner', 'spawn'], 'facing': 'EEN', 'mirror': 1, 'links': [[1, 0], [2, 0], [1, 2]]}, reach=['end']),
    task('back-half', 'cli', 'graphed', config={'kinds': ['corner', 'spawn', 'cap'], 'facing': 'ENW', 'mirror': 2, 'links': [[2, 1], [0, 2]], 'lo': 0, 'hi': 10},
         reach=['end']),
    task('half', 'cli', 'graphed', config={'kinds': ['spawn', 'corner', 'cap'], 'facing': 'ENW', 'mirror': 2, 'links': [[0, 1], [1, 2]], 'lo': 0, 'hi': 10},
         reach=['end']),
    task('quarter', 'cli', 'graphed', config={'kinds': ['hall', 'corner'], 'facing': 'NS', 'mirror': 4, 'links': [[0, 1]], 'lo': 0, 'hi': 10}, reach=['end']),
    task('row', 'cli', 'graphed', config={'kinds': ['hall', 'corner'], 'facing': 'EE', 'mirror': 1, 'links': [[0, 1]], 'more': 14}, reach=['end']),
    task('crowd', 'cli', 'graphed', config={'kinds': ['hall', 'corner'], 'facing': 'WN', 'mirror': 1, 'links': [[1, 0]], 'more': 64, 'lo': 14, 'hi': 15}, reach=['end']),
    task('rows', 'cli', 'graphed', config={'kinds': ['hall', 'corner'], 'facing': 'EN', 'mirror': 4, 'links': [[1, 0]], 'more': 10, 'lo': 7, 'hi': 9}, reach=['end']),
    task('quarters', 'cli', 'graphed', config={'kinds': ['spawn', 'long', 'stair', 'corner'], 'facing': 'EWSN', 'mirror': 4,
                                               'links': [[0, 1], [0, 2], [2, 3]], 'lo': 0, 'hi': 10}, reach=['end'], tier='thorough')],
    'two or three rooms (four in thorough) of different kinds at any place, in all three mirror modes')
prop('G01', [
    task('generator', 'cli', 'generated', config={'script': 'redeclipse.cli.magica_rooms', 'rooms': [0, 1, 5, 12], 'mirrors': [None, 1, 2, 4],
                                                  'flavours': [None, ['maliwan'], ['crushed_blacks', 'space_station']]}, reach=['end']),
    task('generator-more', 'cli', 'generated', config={'script': 'redeclipse.cli.magica_rooms', 'rooms': [2, 3, 7, 24], 'mirrors': [1, 2, 4],
                                                       'flavours': [[], ['space_station'], ['maliwan', 'maliwan']]}, reach=['end'], tier='thorough')],
    'every template variable, entity position and attribute; 0 to 12 rooms (24 in thorough), every mirror mode, CTF or not',
    ['the prefab classes are replaced by small rooms of the harness and the draws are fixed (rooms: R01-R05, draws: U01-U07); '
     'copying images to the folder of the game is left out'])
prop('G02', [
    task('convert', 'cli', 'converted', reach=['copy', 'json'])],
    'every value of every field of a map with three entities, three variables and two cells that are not empty; every section')
prop('P01', [
    task('ground-%d' % i, 'scripts', 'terrain', config={'heights': h, 'trees': t, 'blocks': b}, reach=['end'],
         must=['tree%d%d' % (y, x) for x, y in t] + ['house%d%d' % (y, x) for x, y in b]) for i, (h, t, b) in enumerate([([[1, 6]], [], []), ([[4, 2], [0, 7]], [], []), ([], [[3, 2], [6, 6]], []), ([], [], [[0, 1], [1, 0]]),
                                   ([[5, 1]], [[1, 5]], [[0, 1]])])] + [
    task('wide', 'scripts', 'terrain', config={'heights': [], 'trees': [[25, 29]], 'blocks': [[6, 7]], 'side': 32}, reach=['end'], must=['tree2925', 'house76'], seconds=200, samples=3)],
    'a map of 8 x 8 columns 8 high, one of 32 x 32 columns with a tree and a building near its far corner; any noise at one or two columns or blocks at a time, other fixed values elsewhere; every draw')
prop('I01', [
    task('%s-%d' % (n, len(s)), 'scripts', 'listing', config={'base': b, 'spans': s, 'colours': c, 'free': f, 'more': 300 if n == 'many' else 0}, reach=['end'])
    for n, b, s, c, f in [('low', [0, 0, 0], [[2, 2, 2]], 256, [[0, 'r'], [3, 'b']]), ('middle', [60, 7, 100], [[2, 1, 2], [1, 2, 1]], 256, []),
                          ('high', [124, 124, 124], [[1, 1, 2]] * 2, 255, []), ('three', [0, 50, 0], [[1, 1, 0], [0, 1, 1], [1, 0, 1]], 256, []),
                          ('colours', [1, 2, 3], [[0, 0, 1]], 256, [[0, 'r'], [0, 'g'], [255, 'b'], [7, 'g']]),
                          ('many', [1, 2, 3], [[14, 1, 0]], 256, []),
                          ('fewer', [1, 2, 3], [[1, 0, 0]], 255, [[0, 'b'], [254, 'g']])]],
    'models of one to three voxels, each in a box of up to 3 x 3 x 3 at one of four places, coordinates below 127; 255 and 256 colours, two of them symbolic')
prop('S01', [
    task('sky', 'scripts', 'sky', config={'kinds': ['DesertSky', 'MinecraftSky', 'Own']}, reach=['end'])],
    'both shipped skies and a class of the harness, folders there before or not; a map with any values, with and without a sky',
    ['the copying is replaced by a record of what is copied where'])

# the same questions asked beside much that is fixed: a program must not change its ways when there is a lot of everything
for _pid, _text in {
    'V01': 'one write or delete anywhere or near the far end, in worlds of side 4, 16 and 32 that hold 12 to 40 fixed voxels',
    'V02': 'one write or delete among 20 fixed voxels; two up to 5000 away',
    'V03': 'one voxel among 30 fixed ones in a world of side 8',
    'U01': 'a symbolic room beside rows of up to 14 fixed ones in every mirror mode',
    'U02': 'a symbolic room beside rows of up to 14 fixed ones in every mirror mode',
    'U06': 'goals of 12 to 16 rooms from one start, the draws following one plan',
    'U07': 'a cell beside a row of 12 fixed rooms, or one above 32 fixed rooms with 64 open doors',
    'U05': 'every draw for 40 weights',
    'C02': 'a symbolic room in rows of 10, 14 and 64 fixed ones',
    'R05': 'one voxel among 70 and 300 fixed ones; one anywhere in 256^3; colour indices up to 255',
    'B01': 'one voxel among 250 and 300 fixed ones',
    'I01': 'one voxel among 300 fixed ones',
    'A01': 'one voxel near the far side of worlds of 12 and 20 a side',
    'A02': 'one voxel near the far side of worlds of 7 and 10 a side full of fixed ones',
    'T01': 'every name of every set in turn, and 40 colours',
    'T02': 'every texture of each set at once',
    'T04': 'every texture of each set at once, and 40 colours',
}.items():
    SPECS[_pid]['bounds'] += '; ' + _text

# the same checks after the parts they are about have been used for something else
LATER = {
    'X01': ('vectors', ['rot-fine-int', 'rot-coarse-half']), 'X02': ('vectors', ['laws-fine-int', 'laws-coarse-int', 'mixed']),
    'X03': ('vectors', ['conversion', 'scaling-coarse']), 'X04': ('vectors', ['yaw']), 'X05': ('vectors', ['vectors']),
    'U01': ('placing', ['pair-one-ell', 'mirror2-ell-N']), 'U02': ('placing', ['pair-turn-back', 'row-one-m1']),
    'U03': ('placing', ['one-E-m1', 'cap+hall-EN-m2']), 'U04': ('placing', ['one-hall-E-m1', 'hall-long-N-m2']),
    'U05': ('placing', ['share-0', 'even-0', 'any-1', 'stream-0', 'stream-1', 'stream-3', 'stream-far-0']),
    'U06': ('placing', ['hall-hall-m1-2-z3']), 'U07': ('placing', ['hall-cap-N-1']), 'C02': ('placing', ['alone', 'half', 'row']),
    'V01': ('worlds', ['size2', 'size4-00']), 'V02': ('worlds', ['two-set-del', 'two-delv-setv']), 'V03': ('worlds maps', ['cli-2', 'map-2']),
    'V04': ('worlds', ['fresh']),
    'K01': ('kits', ['cube-NORTH-fine', 'floor-WEST-coarse', 'prism-NORTH-fine', 'ring-EAST-coarse', 'wall-SOUTH-fine', 'column-WEST-coarse',
                     'dotted-EAST-coarse']),
    'K02': ('kits', ['removed-floor-NORTH', 'removed-prism-SOUTH']),
    'L01': ('lights', ['LightManager-fine-True', 'LightManager-coarse-False', 'PositionBasedLightManager-coarse-True']),
    'L02': ('lights', ['hue-1.0-1.0']),
    'T01': ('textures', ['colours-2', 'names-minecraft', 'names-paper']), 'T02': ('textures', ['names-dull', 'colours', 'cat-primary']),
    'T03': ('textures', ['cat-minecraft', 'cat-auto']), 'T04': ('textures', ['images-primary', 'images-auto']),
    'A01': ('worlds', ['box-3', 'outline-3', 'grid-4', 'endcap']), 'A02': ('worlds', ['decayed-2-2', 'grown-2-5', 'draw-decay-1', 'draw-growth-1']),
    'B01': ('models', ['two', 'reread']), 'I01': ('models', ['low-1', 'colours-1']),
    'C01': ('maps', ['one']), 'E01': ('maps', ['spawn-coarse-some', 'light-fine-none', 'model-fine-all', 'pusher-coarse-none']),
    'J01': ('maps', ['map-1', 'made-model']), 'M01': ('maps', ['header-mixed', 'header-texts']), 'M02': ('maps', ['ents-mixed']),
    'M03': ('maps', ['cell-1-00-None', 'cell-1-20-21']), 'M04': ('maps', ['one', 'skybox']), 'M05': ('maps', ['cut-1', 'magic']),
    'M06': ('maps', ['one-3']), 'S01': ('maps textures', ['sky']),
}
for _pid, (_uses, _names) in LATER.items():
    for _t in [t for t in SPECS[_pid]['tasks'] if t['name'] in _names]:
        SPECS[_pid]['tasks'].append(dict(
            _t, name='later-' + _t['name'], module='history', func='after',
            config={'uses': _uses.split(), 'module': _t['module'], 'func': _t['func'], 'config': _t['config']}))
    assert sum(t['name'].startswith('later-') for t in SPECS[_pid]['tasks']) == len(_names), _pid
    SPECS[_pid]['bounds'] += '; some of it again after a fixed earlier use of the same parts'

if os.environ.get('PYSYM_ZOO'):
    from props import zoo_names
    prop('ZOO', [task(n, 'zoo', 'zoo', config={'name': n}, reach=['end'], samples=64) for n in zoo_names.names()], 'two numbers in 0..7')
