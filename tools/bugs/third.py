import os
import runpy
PRE = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'first.py'))['PRE']
ROOM = '''
from redeclipse.prefabs import Room
from redeclipse.upm import UnusedPositionManager
from redeclipse.vector import CoarseVector, FineVector
from redeclipse.vector.orientations import *
import random, redeclipse.upm as U
U.tqdm = type('T', (), {'__init__': lambda s, *a, **k: setattr(s, 'a', a), '__iter__': lambda s: iter(list(s.a[0])),
                        '__enter__': lambda s: s, '__exit__': lambda s, *a: None, 'update': lambda s, *a: None,
                        'set_description': lambda s, *a: None})
'''
RAW = '''
import os, struct, gzip, tempfile
from redeclipse import MapParser
tmp = tempfile.mkdtemp()
def raw(slots=b'', numvslots=0, ents=b'', nents=0, cells=b'\\x01' + b'\\0' * 12, mru=()):
    b = b'MAPZ' + struct.pack('ii', 43, 48) + struct.pack('8i', 4, nents, 0, 0, 0, numvslots, 229, 2) + b'fps\\0' + struct.pack('i', 0)
    b += struct.pack('H%dH' % len(mru), len(mru), *mru) + ents + slots
    return b + cells * 8 if len(cells) == 13 else b + cells
def load(data, name='x.mpz', parser=None):
    with gzip.open(os.path.join(tmp, name), 'wb') as f:
        f.write(data)
    return (parser or MapParser()).read(os.path.join(tmp, name))
'''
BUGS = [
 dict(id='m06-palette-once', property='M06', needs='a texture slot with two or more shader parameters, each with a palette',
  breaks='the palette of the second and later shader parameters is taken for the next settings',
  edits=[('redeclipse/__init__.py', "                if flags & 0x8000:\n", "                if flags & 0x8000 and not i:\n")],
  demo=RAW + '''
p = lambda n: struct.pack('H', len(n)) + n + struct.pack('4f', 1, 2, 3, 4) + struct.pack('ii', 5, 6)
s = struct.pack('ii', 3, -1) + struct.pack('H', 0x8002) + p(b'aa') + p(b'bcd') + struct.pack('f', 0.25)
m = load(raw(s, 1))
assert m.vslots[0].scale == 0.25, m.vslots[0].scale
assert [c.octsav for c in m.world] == [1] * 8
'''),
 dict(id='m06-layer-swap', property='M06', needs='a texture slot that has both a layer and a transparency of its own',
  breaks='transparency is read before the layer, so that both get the bits of the other',
  edits=[('redeclipse/__init__.py', """        if vs.changed & (1 << VTYPE.VSLOT_LAYER.value):
            vs.layer = self._read_int()
        if vs.changed & (1 << VTYPE.VSLOT_ALPHA.value):
            vs.alphafront = self._read_float()
            vs.alphaback = self._read_float()
""", """        if vs.changed & (1 << VTYPE.VSLOT_ALPHA.value):
            vs.alphafront = self._read_float()
            vs.alphaback = self._read_float()
        if vs.changed & (1 << VTYPE.VSLOT_LAYER.value):
            vs.layer = self._read_int()
""")],
  demo=RAW + '''
from redeclipse.enums import VTYPE
s = struct.pack('ii', 1 << VTYPE.VSLOT_LAYER.value | 1 << VTYPE.VSLOT_ALPHA.value, -1) + struct.pack('iff', 7, 0.5, 0.25)
m = load(raw(s, 1))
v = m.vslots[0]
assert (v.layer, v.alphafront, v.alphaback) == (7, 0.5, 0.25)
'''),
 dict(id='m01-equal-runs', property='M01', needs='a map whose texture slots are stored as two runs of the same length',
  breaks='the second of two equal runs of texture slots is not written again, and what follows is shifted',
  edits=[('redeclipse/__init__.py', "            chg.append(changed)\n", "            if chg[-1:] != [changed]:\n                chg.append(changed)\n")],
  demo=RAW + '''
data = raw(struct.pack('iii', -2, -2, -1), 5)
m = load(data)
m.write(os.path.join(tmp, 'y.mpz'))
assert gzip.open(os.path.join(tmp, 'y.mpz')).read() == data
'''),
 dict(id='m07-shared-extra', property='M07', needs='two maps in one process, of which one gets settings of a flavour',
  breaks='the extra settings of one map are written with every other map too',
  edits=[('redeclipse/__init__.py', "        self.cfg_extra = []\n", ""),
         ('redeclipse/__init__.py', "    def __init__(self, magic, version, headersize, meta,", "    # Lines to add to the configuration\n    cfg_extra = []\n\n    def __init__(self, magic, version, headersize, meta,")],
  demo=RAW + '''
from redeclipse import worldflavors
a, b = load(raw()), load(raw(), 'b.mpz')
worldflavors.update(a, ['crushed_blacks'])
assert b.cfg_extra == [], b.cfg_extra
assert load(raw(), 'c.mpz').cfg_extra == []
'''),
 dict(id='m07-one-reader', property='M07', needs='a reader that is used for a second map',
  breaks='a reader goes on where it stopped in the map before',
  edits=[('redeclipse/__init__.py', "        self.base_path = base_path\n        self.index = 0\n", "        self.base_path = base_path\n"),
         ('redeclipse/__init__.py', "class MapParser(object):\n", "class MapParser(object):\n    # Where we are in the file\n    index = 0\n")],
  demo=RAW + '''
p = MapParser()
load(raw(), parser=p)
m = load(raw(mru=(5, 6)), 'b.mpz', parser=p)
assert m.texmru == [5, 6]
'''),
 dict(id='m05-padded-char', property='M05', needs='a map file that lacks its last bytes',
  breaks='what is missing at the end of a file is made up of zeros',
  edits=[('redeclipse/__init__.py', "        val = struct.unpack(pattern, self.bytes[self.index:self.index + width])", "        val = struct.unpack(pattern, self.bytes[self.index:self.index + width].ljust(min(width, 2), b'\\0'))")],
  demo=RAW + '''
d = raw()
load(d)
for k in range(1, 12):
    try:
        load(d[:-k], 'k%d.mpz' % k)
    except Exception:
        continue
    assert False, k
'''),
 dict(id='m02-whole-positions', property='M02', needs='an entity of a loaded map that is not at whole game units',
  breaks='positions of entities are cut to whole units on reading',
  edits=[('redeclipse/entities/__init__.py', "        xyz = xyz.fine() * 4\n        self.o = ivec3(*xyz)\n        self.type = type", "        xyz = (xyz.fine() * 4).vox()\n        self.o = ivec3(*xyz)\n        self.type = type")],
  demo=RAW + '''
e = struct.pack('fffBBBB', 10.5, 2.25, -3.75, 3, 0, 0, 0) + struct.pack('i6i', 6, 1, 2, 3, 4, 5, 6) + struct.pack('i', 0)
m = load(raw(ents=e, nents=1))
assert (m.ents[0].o.x, m.ents[0].o.y, m.ents[0].o.z) == (10.5, 2.25, -3.75), m.ents[0].o
'''),
 dict(id='m03-merged-none', property='M03', needs='a cell whose merge mask is present and zero',
  breaks='a merge mask of zero is not written, so that the surface data after it is shifted',
  edits=[('redeclipse/__init__.py', "        if c.octsav & 0x80:\n            self._write_int_as_chr(handle, c.merged)", "        if c.octsav & 0x80 and c.merged:\n            self._write_int_as_chr(handle, c.merged)")],
  demo=RAW + '''
cell = b'\\x82' + b'\\0' * 12 + b'\\0'
data = raw(cells=b'\\x01' + b'\\0' * 12 + cell + (b'\\x01' + b'\\0' * 12) * 6)
m = load(data)
m.write(os.path.join(tmp, 'y.mpz'))
assert gzip.open(os.path.join(tmp, 'y.mpz')).read() == data
'''),
 dict(id='m04-mru-once', property='M04', needs='a texture that is twice in the recent textures',
  breaks='a repeated recent texture is counted but not written, so that all that follows is shifted',
  edits=[('redeclipse/__init__.py', "        for value in self.texmru:\n", "        for value in dict.fromkeys(self.texmru):\n")],
  demo=PRE + '''
m = fresh()
m.texmru = [4, 5, 4]
assert trip(m).texmru == [4, 5, 4]
'''),
 dict(id='v02-bounds-else', property='V02', needs='a world written from low to high, so that a place sets the maximum before any sets the minimum',
  breaks='the lower bound is not moved by a voxel that moves the upper one',
  edits=[('redeclipse/voxel/__init__.py', "            self.ymax = y\n        if y < self.ymin:", "            self.ymax = y\n        elif y < self.ymin:")],
  demo='''
from redeclipse.voxel import VoxelWorld
w = VoxelWorld(16)
w.set_point(3, 5, 4, 'a')
w.set_point(3, 9, 4, 'a')
assert (w.ymin, w.ymax) == (5, 9), (w.ymin, w.ymax)
'''),
 dict(id='t02-appended', property='T02', needs='a configuration file of the same name from an earlier run',
  breaks='the texture slots are added to those of an older file, so that all numbers are shifted',
  edits=[('redeclipse/textures/__init__.py', "        with open(filename, 'w') as handle:\n            handle.write(comment", "        with open(filename, 'a') as handle:\n            handle.write(comment")],
  demo='''
import os, tempfile
from redeclipse.textures import AutomatedMagicaTextureManager
class N:
    name = os.path.join(tempfile.mkdtemp(), 'm.mpz')
for i in range(2):
    t = AutomatedMagicaTextureManager()
    t.get_colour(0.5, 0.25, i)
    t.emit_conf(N)
    assert open(N.name.replace('.mpz', '.cfg')).read().count('\\ntexture c ') == 3
'''),
 dict(id='t01-common-atlas', property='T01', needs='two texture managers in one process',
  breaks='the numbers a manager hands out depend on the textures of other managers',
  edits=[('redeclipse/textures/__init__.py', "        self.atlas = {}\n        self.atlas_backref = {}\n        self.texref = {}\n        # Init\n", "        self.texref = {}\n        # Init\n"),
         ('redeclipse/textures/__init__.py', "    def __init__(self):\n        self.texref = {}", "    atlas = {}\n    atlas_backref = {}\n\n    def __init__(self):\n        self.texref = {}") ] if False else
        [('redeclipse/textures/__init__.py', "        self.atlas = {}\n        self.atlas_backref = {}\n        self.texref = {}\n        # Init\n", "        self.atlas = self._shared\n        self.atlas_backref = {}\n        self.texref = {}\n        # Init\n"),
         ('redeclipse/textures/__init__.py', "class TextureManager:\n", "class TextureManager:\n    _shared = {}\n")],
  demo='''
from redeclipse.textures import PrimaryThemedTextureManager, AutomatedMagicaTextureManager
a = AutomatedMagicaTextureManager()
b = PrimaryThemedTextureManager()
assert (a.get('sky'), a.get('default'), b.get('sky'), b.get('default')) == (0, 1, 0, 1)
assert a.get_colour(1, 0, 0) == 2 and b.get('red') == 2
'''),
 dict(id='k01-dotted-period', property='K01', needs='a dotted column whose marks and gaps add up to something other than four',
  breaks='the pattern of a dotted column does not follow the lengths asked for',
  edits=[('redeclipse/prefabs/construction_kit.py', "            if onoff[idx % len(onoff)]:", "            if idx % (2 * on) < on:")],
  demo=ROOM + '''
from redeclipse.voxel import VoxelWorld
w = VoxelWorld(64)
Room(CoarseVector(1, 1, 1)).x('dotted_column', w, FineVector(0, 0, 0), ABOVE, 8, on=1, off=3)
assert sorted(z for (x, y, z) in w.world) == [8, 12], sorted(w.world)
w = VoxelWorld(64)
Room(CoarseVector(1, 1, 1)).x('dotted_column', w, FineVector(0, 0, 0), ABOVE, 8, on=2, off=2)
assert sorted(z - 8 for (x, y, z) in w.world) == [0, 1, 4, 5]
'''),
 dict(id='u05-with-replacement', property='U05', needs='draws in which some class of room is not drawn at all',
  breaks='the shuffled stream of room classes lacks classes at times',
  edits=[('redeclipse/upm.py', "for room in random.sample(choices, len(choices))", "for room in random.choices(choices, k=len(choices))")],
  demo=ROOM + '''
u = UnusedPositionManager(256, mirror=1)
class A(Room): room_type = 'stair'
class B(Room): room_type = 'hallway'
class C(Room): room_type = 'setpiece_small'
a = A(CoarseVector(8, 8, 3))
for i in range(300):
    random.seed(i)
    assert set(u.random_room_stream(a, [A, B, C])) == {A, B, C}
'''),
 dict(id='u06-drop-all', property='U02', needs='two open doors to one position, of which only one can be used',
  breaks='giving up one door drops all doors to the same position from the list',
  edits=[('redeclipse/upm.py', "                        if (d, r, o) != (prev_room_door, prev_room, prev_room_orientation)\n", "                        if d != prev_room_door\n")],
  demo=ROOM + '''
class East(Room):
    def _get_doorways(self): return [{'orientation': EAST, 'offset': EAST}]
class North(Room):
    def _get_doorways(self): return [{'orientation': NORTH, 'offset': NORTH}]
class Cap(Room):
    def _get_doorways(self): return [{'orientation': SOUTH, 'offset': SOUTH}]
    def __init__(self, pos, orientation=EAST, randflags=None):
        super().__init__(pos, EAST, randflags)
for s in range(20):
    random.seed(s)
    u = UnusedPositionManager(256, mirror=1)
    u.register_room(East(CoarseVector(8, 8, 3)))
    u.register_room(North(CoarseVector(9, 7, 3)))
    assert len(u.unoccupied) == 2
    u.place_rooms(False, [Cap], rooms=1)
    assert len(u.rooms) == 3, len(u.rooms)
'''),
 dict(id='u07-own-cell', property='U07', needs='an end cap of more than one cell beside a placed room',
  breaks='only the first cell of an end cap is looked at before it is placed, which fails when another is taken',
  edits=[('redeclipse/upm.py', "                if not all([pos not in self.occupied.keys() for pos in r.get_positions()]):", "                if r.get_positions()[0] in self.occupied.keys():")],
  demo=ROOM + '''
class One(Room):
    def _get_doorways(self): return [{'orientation': EAST, 'offset': EAST}]
class Long(Room):
    def _get_doorways(self): return [{'orientation': WEST, 'offset': WEST}]
    def _get_positions(self): return [SELF, EAST]
class Wall(Room):
    def _get_doorways(self): return []
u = UnusedPositionManager(256, mirror=1)
u.register_room(One(CoarseVector(8, 8, 3)))
u.register_room(Wall(CoarseVector(10, 8, 3)))
u.endcap(possible_endcaps=[Long])
assert len(u.rooms) == 2
'''),
 dict(id='c02-first-link', property='C02', needs='a mirrored map',
  breaks='links are recorded for the original rooms only, not for their mirrored copies',
  edits=[('redeclipse/upm.py', "            self.links.append((pos_a, pos_b))", "            if (pos_b, pos_a) not in self.links and ori_a == room_a.orientation:\n                self.links.append((pos_a, pos_b))")],
  demo=ROOM + '''
u = UnusedPositionManager(256, mirror=4)
a, b = Room(CoarseVector(8, 8, 3)), Room(CoarseVector(9, 8, 3))
u.register_room(a)
u.register_room(b)
u.register_link(a, b)
assert len(u.links) == 4, u.links
'''),
 dict(id='r01-tall-block', property='R01', needs='a low block room with blocks of varying size, and a draw of the greatest height',
  breaks='a block of a low room reaches into the cell above, which is not its own',
  edits=[('redeclipse/prefabs/__init__.py', """                    random.randint(4, 7),
                    random.randint(4, 7),
                    random.randint(4, 7)
""", """                    random.randint(4, 7),
                    random.randint(4, 7),
                    random.randint(4, 9)
""")],
  demo=PRE + '''
import random
from redeclipse.prefabs import ImposingBlockRoom
from redeclipse.voxel import VoxelWorld
from redeclipse.vector.orientations import EAST
for s in range(60):
    random.seed(s)
    w = VoxelWorld(128)
    r = ImposingBlockRoom(pos=CoarseVector(4, 4, 1), orientation=EAST, randflags=[False, False, True])
    cells = [tuple(c) for c in r.get_positions()]
    r.render(w, fresh())
    for v in w.world:
        assert tuple(i // 8 for i in v) in cells, v
'''),
 dict(id='r03-tall-doors', property='R03', needs='the tall variant of the crossing walkways',
  breaks='the upper doors of the crossing walkways face back into the room',
  edits=[('redeclipse/prefabs/__init__.py', "                {'orientation': SOUTH, 'offset': SOUTH + SOUTH + ABOVE + ABOVE},\n                {'orientation': NORTH, 'offset': NORTH + NORTH + ABOVE + ABOVE},", "                {'orientation': SOUTH, 'offset': NORTH + NORTH + ABOVE + ABOVE},\n                {'orientation': NORTH, 'offset': SOUTH + SOUTH + ABOVE + ABOVE},")],
  demo=ROOM + '''
from redeclipse.prefabs import CrossingWalkways
for o in CARDINALS:
    for f in (True, False):
        r = CrossingWalkways(pos=CoarseVector(8, 8, 3), orientation=o, randflags=[f])
        for d in r.get_doorways():
            assert d['offset'] - d['orientation'] in r.get_positions(), d
'''),
 dict(id='r04-previous-count', property='R04', needs='a room after one of another class with another number of flags',
  breaks='a room gets as many options as the room before it has flags',
  edits=[('redeclipse/prefabs/__init__.py', "            number_of_options = len(cls._randflags)", "            number_of_options = len(getattr(prev, '_randflags', cls._randflags))")],
  demo=ROOM + '''
from redeclipse.prefabs import Corridor2way, NLongCorridor, SpawnRoom, Stair
prev = NLongCorridor(CoarseVector(8, 8, 3))
assert len(SpawnRoom.randOpts(prev)['randflags']) == 1
assert len(NLongCorridor.randOpts(SpawnRoom(CoarseVector(8, 8, 3)))['randflags']) == 4
assert len(Stair.randOpts(Room(CoarseVector(8, 8, 3)))['randflags']) == 1
'''),
 dict(id='a01-no-corners', property='A01', needs='one of the eight corners of a world',
  breaks='the outline of a world lacks its corners',
  edits=[('redeclipse/aftereffects.py', "                if sum([xa, ya, za, xb, yb, zb]) > 1:", "                if sum([xa, ya, za, xb, yb, zb]) == 2:")],
  demo='''
from redeclipse.voxel import VoxelWorld
from redeclipse.aftereffects import box_outline
w = VoxelWorld(4)
box_outline(w)
assert len(w.world) == 4 * 2 * 3 + 8, len(w.world)
'''),
 dict(id='a02-growth-over', property='A02', needs='growth at a place that holds a voxel',
  breaks='growth replaces voxels that are there already',
  edits=[('redeclipse/aftereffects.py', """                if random.random() > position_function(x, y, z):
                    if not world.get_point(x, y, z):
                        world.set_point(
                            x, y, z,
                            cube.newtexcube(tex=2)
                        )""", """                if random.random() > position_function(x, y, z):
                    point = world.get_point(x, y, z)
                    if not point or not point.octsav & 0x80:
                        world.set_point(
                            x, y, z,
                            cube.newtexcube(tex=2)
                        )""")],
  demo='''
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
from redeclipse.aftereffects import growth
w = VoxelWorld(4)
c = cube.newtexcube(tex=9)
w.set_point(1, 1, 1, c)
w.set_point(1, 1, 3, cube.newtexcube(tex=9))
growth(w, lambda x, y, z: -1)
assert w.get_point(1, 1, 1) is c
assert w.get_point(0, 0, 0)
'''),
 dict(id='c01-last-flavour', property='C01', needs='two flavours at once, or extra settings from before',
  breaks='only the settings of the last flavour are kept',
  edits=[('redeclipse/worldflavors.py', "        world.cfg_extra.extend(extra)", "        world.cfg_extra = extra")],
  demo=PRE + '''
from redeclipse import worldflavors as f
m = f.update(fresh(), ['space_station', 'crushed_blacks'])
assert m.cfg_extra == f.space_station() + f.crushed_blacks(), m.cfg_extra
'''),
 dict(id='x02-less-itself', property='X02', needs='a comparison of a vector with itself or an equal one',
  breaks='a vector is less than itself, so that sorting and bounds tests are no longer consistent',
  edits=[('redeclipse/vector/__init__.py', "                if self.z < other.z:\n                    return True", "                return self.z <= other.z")],
  demo='''
from redeclipse.vector import FineVector, CoarseVector
assert not FineVector(1, 2, 3) < FineVector(1, 2, 3)
assert FineVector(1, 2, 3) < FineVector(1, 2, 4)
assert not CoarseVector(0, 0, 0) < CoarseVector(0, 0, 0)
'''),
 dict(id='x05-far-octants', property='X05', needs='an octant index above three, at a size that is not one',
  breaks='the upper octants of a cube are placed one unit up, not one half cube',
  edits=[('redeclipse/vector/re.py', "            z + ((i & 4) >> 2) * s\n", "            z + min((i & 4) >> 2, s)\n")],
  demo='''
from redeclipse.vector.re import ivec3
for s in (1, 2, 8):
    assert ivec3.ivec5(5, 0, 0, 0, s).to_dict() == [s, 0, s], s
'''),
 dict(id='e01-modes-mutators', property='E01', needs='a weapon limited to some game modes or mutators',
  breaks='the modes and the mutators of a weapon change places',
  edits=[('redeclipse/entities/weapon.py', "            type, flags, modes, muts, id\n", "            type, flags, muts, modes, id\n")],
  demo=PRE + '''
from redeclipse.entities.weapon import Weapon
w = Weapon(xyz=FineVector(1, 1, 1), type=3, flags=1, modes=2, muts=4, id=8)
assert w.attrs == [3, 1, 2, 4, 8], w.attrs
'''),
 dict(id='j01-no-reserved', property='J01', needs='an entity with reserved bytes that are not zero',
  breaks='the reserved bytes of entities are lost in the JSON form',
  edits=[('redeclipse/entities/__init__.py', "            reserved=d['reserved']\n        )", "            reserved=d.get('reserved_bytes')\n        )")],
  demo=PRE + '''
from redeclipse.entities import Entity, Pusher
p = Pusher(xyz=FineVector(1, 2, 3), reserved=[1, 2, 3])
assert Entity.from_dict(p.to_dict()).reserved == [1, 2, 3]
'''),
 dict(id='r05-south-addition', property='R05', needs='a model room that is shifted northward but not by as much as eastward',
  breaks='a model room is shifted north by what is meant for the other axis',
  edits=[('redeclipse/prefabs/magica.py', "        offset = FineVector(self.boundary_additions.get('WEST', 0), self.boundary_additions.get('SOUTH', 0), 0)\n        # Now looping", "        offset = FineVector(self.boundary_additions.get('WEST', 0), self.boundary_additions.get('NORTH', 0), 0)\n        # Now looping")],
  demo='''
import os
from redeclipse.prefabs.castle import castle_gate
from redeclipse.vector import CoarseVector
from redeclipse.vector.orientations import EAST
from redeclipse.voxel import VoxelWorld
class R(castle_gate):
    boundary_additions = {'SOUTH': 5}
r = R(pos=CoarseVector(4, 4, 4), orientation=EAST)
class M:
    ents = []
w = VoxelWorld(256)
r.render(w, M)
assert {tuple(c) for c in r.get_positions()} == {tuple(int(i) // 8 for i in v) for v in w.world}
'''),
 dict(id='g01-config-anew', property='G01', needs='a generated map with a flavour',
  breaks='the settings of a flavour replace the texture slots in the configuration',
  edits=[('redeclipse/cli/__init__.py', "        with open(filename, 'a') as handle:", "        with open(filename, 'w' if mymap.cfg_extra else 'a') as handle:")],
  demo=PRE + '''
from redeclipse import worldflavors
from redeclipse.cli import output
from redeclipse.voxel import VoxelWorld
from redeclipse import prefabs
prefabs.TEXMAN.copy_data = lambda: None
class A:
    magica = graph = None
    mpz_out = open(at('m.mpz'), 'w')
m = worldflavors.update(fresh(), ['crushed_blacks'])
output(VoxelWorld(4), m, None, prefabs, A)
s = open(at('m.cfg')).read()
assert 'texture c' in s and s.rstrip().endswith('ambient 0'), s
'''),
 dict(id='l01-override-lost', property='L01', needs='a colour given for a light by a manager that picks colours itself',
  breaks='a light whose given colour lacks blue gets the colour of the manager instead',
  edits=[('redeclipse/lighting/__init__.py', "        if colour_override:", "        if colour_override and all(colour_override[2:]):")],
  demo='''
from redeclipse.lighting import LightManager
from redeclipse.vector import FineVector
class M:
    ents = []
LightManager().light(M, FineVector(1, 2, 3), colour_override=(200, 100, 0))
assert M.ents[0].attrs[1:4] == [200, 100, 0], M.ents[0].attrs
'''),
 dict(id='t03-wrong-theme', property='T03', needs='a category the theme does not know',
  breaks='an unknown category gives a texture of no material list',
  edits=[('redeclipse/textures/__init__.py', "            return self.get(random.choice(self.theme.AccentMaterial))\n", "            return self.get(random.choice(self.theme.AccentMaterial[1:] or self.theme.FloorMaterial))\n")],
  demo='''
import random
from redeclipse.textures import DefaultThemedTextureManager, PaperThemedTextureManager
for c in (DefaultThemedTextureManager, PaperThemedTextureManager):
    t = c()
    names = {k: v for k, v in t.texref.items()}
    for i in range(50):
        n = t.get_c('accent')
        assert any(t.atlas[n] is t.texref[k] for k in t.theme.AccentMaterial)
'''),
 dict(id='v03-high-textures', property='V03', needs='a world with more than 255 textures',
  breaks='texture numbers above a byte are cut when a cell is written',
  edits=[('redeclipse/__init__.py', "            else:\n                self._write_ushort(handle, t)\n", "            else:\n                self._write_ushort(handle, t & 0xFF if c.octsav & 0x7 == OCT.OCTSAV_NORMAL.value else t)\n")],
  demo=PRE + '''
from redeclipse.voxel import VoxelWorld
w = VoxelWorld(4)
w.set_point(1, 2, 3, cube.newtexcube(tex=300))
m = fresh()
m.world = w.to_octree()
r = trip(m)
leaf = [c for o in r.world if o.children for c in o.children if c.octsav & 7 == 3] or [c for o in r.world if o.children for c in o.children if c.octsav & 7 != 1]
assert leaf and list(leaf[0].texture) == [300] * 6
'''),
]
