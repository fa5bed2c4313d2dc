import os
import runpy
PRE = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'first.py'))['PRE']
UPM = '''
import random
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Room
from redeclipse.vector import CoarseVector, FineVector
from redeclipse.vector.orientations import *
'''
BUGS = [
 dict(id='j01-links-sorted', property='J01', needs='an entity whose links are not in ascending order',
  breaks='the order of the links of an entity is lost in the JSON form',
  edits=[('redeclipse/entities/__init__.py', "            'links': self.links,", "            'links': sorted(self.links),")],
  demo=PRE + '''
from redeclipse.entities import Entity, PlayerSpawn
p = PlayerSpawn(xyz=FineVector(1, 2, 3), links=[7, 2, 5])
assert Entity.from_dict(p.to_dict()).links == [7, 2, 5]
'''),
 dict(id='e01-pusher-radii', property='E01', needs='a pusher with an inner radius as well as an outer one',
  breaks='the two radii of a pusher are exchanged',
  edits=[('redeclipse/entities/__init__.py', "            yaw, pitch, force, maxrad, minrad, type\n", "            yaw, pitch, force, max(maxrad, minrad), min(maxrad, minrad), type\n")],
  demo='''
from redeclipse.entities import Pusher
from redeclipse.vector import FineVector
assert Pusher(xyz=FineVector(1, 1, 1), maxrad=3, minrad=8).attrs == [0, 45, 150, 3, 8, 0]
'''),
 dict(id='l01-floor-position', property='L01', needs='a light manager for a world other than the default size and a position between its steps',
  breaks='a light is moved down to a whole unit of the grid',
  edits=[('redeclipse/lighting/__init__.py', "position.entity() / self._world_size_factor", "position.entity() // self._world_size_factor")],
  demo='''
from redeclipse.lighting import LightManager
from redeclipse.vector import FineVector
l = LightManager(world_size=2 ** 9).get_light(FineVector(0.5, 1.5, 2.25), 1, 2, 3)
assert (l.o.x, l.o.y, l.o.z) == (1, 3, 4.5), (l.o.x, l.o.y, l.o.z)
'''),
 dict(id='m01-strip-title', property='M01', needs='a map variable whose text ends in a blank',
  breaks='blanks at the end of a text variable are lost on reading',
  edits=[('redeclipse/__init__.py', "            return data[0][0:-1]\n", "            return data[0][0:-1].rstrip()\n")],
  demo=PRE + '''
m = fresh()
m.map_vars[b'maptitle'] = b'Some map '
assert trip(m).map_vars[b'maptitle'] == b'Some map '
'''),
 dict(id='m01-mru-limit', property='M01', needs='a texture list of more than 255 entries',
  breaks='the number of recently used textures is kept to a byte',
  edits=[('redeclipse/__init__.py', "        self._write_ushort(handle, len(self.texmru))  # nummru\n        for value in self.texmru:", "        self._write_ushort(handle, min(len(self.texmru), 255))  # nummru\n        for value in self.texmru[:255]:")],
  demo=PRE + '''
m = fresh()
m.texmru = list(range(300))
assert trip(m).texmru == list(range(300))
'''),
 dict(id='m03-order-both', property='M03', needs='a cell that has both a material and merged faces, in a file written by the game',
  breaks='reader and writer agree with each other but no longer with the format: material and merged faces change places',
  edits=[('redeclipse/__init__.py', "        if c.octsav & 0x40:\n            self._write_ushort(handle, c.material)\n        if c.octsav & 0x80:\n            self._write_int_as_chr(handle, c.merged)\n", "        if c.octsav & 0x80:\n            self._write_int_as_chr(handle, c.merged)\n        if c.octsav & 0x40:\n            self._write_ushort(handle, c.material)\n"),
         ('redeclipse/__init__.py', "        if octsav & 0x40:\n            c.material = self._read_ushort()\n        if octsav & 0x80:\n            c.merged = self._read_char()\n", "        if octsav & 0x80:\n            c.merged = self._read_char()\n        if octsav & 0x40:\n            c.material = self._read_ushort()\n")],
  demo=PRE + '''
m = fresh()
c = m.world[7]
c.octsav = 1 | 0x40 | 0x80
c.material = 0x0102
c.merged = 5
m.write(at('a.mpz'))
raw = gzip.open(at('a.mpz')).read()
assert raw.endswith(bytes([2, 1, 5])), raw[-4:]
'''),
 dict(id='m05-magic-prefix', property='M05', needs='a file that starts like a map of another game',
  breaks='files of other formats whose magic has the right letters are read as maps',
  edits=[('redeclipse/__init__.py', "        if magic not in (b'MAPZ', b'BFGZ'):", "        if magic[-1:] != b'Z':")],
  demo=PRE + '''
m = fresh()
m.write(at('a.mpz'))
raw = gzip.open(at('a.mpz')).read()
with gzip.open(at('b.mpz'), 'wb') as f:
    f.write(b'OCTZ' + raw[4:])
try:
    MapParser().read(at('b.mpz'))
except Exception:
    sys.exit(0)
raise SystemExit('accepted')
'''),
 dict(id='v03-face-order', property='V03', needs='a voxel with a different texture on every face',
  breaks='textures given per face are put on the wrong faces',
  edits=[('redeclipse/objects.py', "            c.texture = tex\n", "            c.texture = sorted(tex)\n")],
  demo='''
from redeclipse.objects import cube
assert list(cube.newtexcube(tex=[3, 2, 9, 4, 4, 1]).texture) == [3, 2, 9, 4, 4, 1]
'''),
 dict(id='v04-shared-surface', property='V04', needs='light map data set on one of two voxels',
  breaks='all faces of a cube share one record, so that a change to one face shows on all',
  edits=[('redeclipse/objects.py', """        c.ext.surfaces = [
            SurfaceInfo(2, 0, 0, 32),
            SurfaceInfo(2, 0, 0, 32),
            SurfaceInfo(2, 0, 0, 32),
            SurfaceInfo(2, 0, 0, 32),
            SurfaceInfo(2, 0, 0, 32),
            SurfaceInfo(2, 0, 0, 32),
        ]
""", """        c.ext.surfaces = [SurfaceInfo(2, 0, 0, 32)] * 6
""")],
  demo='''
from redeclipse.objects import cube
c = cube.newtexcube()
c.ext.surfaces[0].lmid[0] = 9
assert [s.lmid[0] for s in c.ext.surfaces] == [9, 2, 2, 2, 2, 2]
'''),
 dict(id='v04-winding-nibble', property='V04', needs='a cell whose edges are not at their ends on one particular edge',
  breaks='one corner of the top face is taken from the wrong end of an edge',
  edits=[('redeclipse/objects.py', """                ivec3(
                    self.edges[0 + 2 + 1] >> 4,
                    self.edges[4 + 2 + 1] >> 4,
                    self.edges[8 + 2 + 1] >> 4
                ),
                ivec3(
                    self.edges[0 + 2 + 1] & 0xF,
                    self.edges[4 + 0 + 1] >> 4,
                    self.edges[8 + 2 + 0] >> 4
                )
            ]
""", """                ivec3(
                    self.edges[0 + 2 + 1] >> 4,
                    self.edges[4 + 2 + 1] >> 4,
                    self.edges[8 + 2 + 1] >> 4
                ),
                ivec3(
                    self.edges[0 + 2 + 1] & 0xF,
                    self.edges[4 + 0 + 1] >> 4,
                    self.edges[8 + 2 + 1] >> 4
                )
            ]
""")],
  demo='''
from redeclipse.objects import cube
c = cube()
c.edges = [0x80] * 12
c.edges[10] = 0x50
tops = [v.z for v in c.genfaceverts(5)]
assert sorted(tops) == [5, 8, 8, 8], tops
'''),
 dict(id='t03-range-short', property='T03', needs='a random choice of one particular column texture',
  breaks='the column list names a texture that does not exist',
  edits=[('redeclipse/textures/dull_theme.py', "range(161, 180), [134, 123])", "range(161, 180), [134, 123, 645])")],
  demo='''
import random
from redeclipse.textures import DefaultThemedTextureManager
t = DefaultThemedTextureManager()
for name in t.theme.ColumnMaterial:
    t.get(name)
'''),
 dict(id='t04-glow-file', property='T04', needs='a themed texture with a glow map',
  breaks='the depth image of parallax glow textures is named in the configuration but not installed',
  edits=[('redeclipse/textures/basetex.py', "        yield self.s\n        yield self.z\n        yield self.g\n", "        yield self.s\n        yield self.g\n")],
  demo='''
from redeclipse.textures.basetex import BumpSpecMapParallaxGlowWorld
class T(BumpSpecMapParallaxGlowWorld):
    c = 'c.png'; n = 'n.png'; s = 's.png'; z = 'z.png'; g = 'g.png'
assert sorted(T().files()) == ['c.png', 'g.png', 'n.png', 's.png', 'z.png']
'''),
 dict(id='x03-coarse-negative', property='X03', needs='a position left of or below the origin that is not a multiple of eight',
  breaks='a negative fine position belongs to the wrong coarse cell',
  edits=[('redeclipse/vector/__init__.py', "            self.x // 8,\n", "            int(self.x / 8),\n")],
  demo='''
from redeclipse.vector import FineVector, CoarseVector
assert FineVector(-3, 1, 1).coarse() == CoarseVector(-1, 0, 0)
'''),
 dict(id='x04-yaw-west', property='X04', needs='an angle of more than a turn, or a negative one, in a room that faces west',
  breaks='the yaw of an entity in a west facing room exceeds a full turn',
  edits=[('redeclipse/vector/orientations.py', "        return (angle + 180) % 360\n", "        return (angle + 180) % 360 if angle > -360 else angle + 540\n")],
  demo='''
from redeclipse.vector.orientations import rotate_yaw, WEST
for a in (-720, -270, -90, 0, 90, 450, 810):
    assert rotate_yaw(a, WEST) == (a + 180) % 360, a
'''),
 dict(id='k01-ring-corner', property='K01', needs='the far corner of a ring',
  breaks='a ring lacks its far corner',
  edits=[('redeclipse/prefabs/construction_kit.py', "offset + FineVector(size - 1, 0, 0), FineVector(1, size, 1))", "offset + FineVector(size - 1, 0, 0), FineVector(1, size - 1, 1))"),
         ('redeclipse/prefabs/construction_kit.py', "offset + FineVector(0, size - 1, 0), FineVector(size, 1, 1))", "offset + FineVector(0, size - 1, 0), FineVector(size - 1, 1, 1))")],
  demo='''
from redeclipse.prefabs import Room
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import CoarseVector, FineVector
w = VoxelWorld(64)
r = Room(CoarseVector(2, 2, 2))
r.x('ring', w, FineVector(0, 0, 0), 5)
assert len(w.world) == 16, len(w.world)
'''),
 dict(id='k02-sparse-keeps', property='K02', needs='a sparse drawing over voxels that are already there',
  breaks='a sparse drawing leaves old voxels in its gaps',
  edits=[('redeclipse/prefabs/construction_kit.py', "                world.del_pointv(point)\n                continue", "                if subtract:\n                    world.del_pointv(point)\n                continue")],
  demo='''
from redeclipse.prefabs import Room
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import CoarseVector, FineVector
w = VoxelWorld(64)
r = Room(CoarseVector(2, 2, 2))
r.x('floor', w, FineVector(0, 0, 0), tex=4)
r.x('floor', w, FineVector(0, 0, 0), tex=5, prob=0)
assert not [c for c in w.world.values() if c.texture[0] == 4]
'''),
 dict(id='u01-last-copy', property='U01', needs='a mirrored placement where the second and third copy overlap',
  breaks='overlaps between copies of a mirrored room are noticed only against the copy before',
  edits=[('redeclipse/upm.py', "            added_occupied = added_occupied.union(set(used))", "            added_occupied = set(used)")],
  demo=UPM + '''
u = UnusedPositionManager(256, mirror=4)
class Big(Room):
    def _get_positions(self):
        return [CoarseVector(x, y, 0) for x in (0, 4) for y in (0, 1)]
    def _get_doorways(self):
        return []
for x in range(6, 26):
    for y in range(6, 26):
        r = Big(CoarseVector(x, y, 3))
        cells = [tuple(p) for q in u._yield_mirrored(r) for p in q.get_positions()]
        assert u.preregister_room(r) == (len(set(cells)) == len(cells)), (x, y)
'''),
 dict(id='u02-same-cell-doors', property='U02', needs='two rooms with doors to the same free cell',
  breaks='a second open door to a cell is not listed',
  edits=[('redeclipse/upm.py', "            if self.is_legal(position['offset']) and not position['offset'] in self.occupied.keys():", "            if self.is_legal(position['offset']) and not position['offset'] in self.occupied.keys() and \\\n                    position['offset'] not in [x[0] for x in self.unoccupied if x[1] is not room]:")],
  demo=UPM + '''
u = UnusedPositionManager(256)
u.register_room(Room(CoarseVector(5, 5, 5)))
u.register_room(Room(CoarseVector(7, 5, 5)))
assert len([1 for p, r, o in u.unoccupied if p == CoarseVector(6, 5, 5)]) == 2
'''),
 dict(id='u03-copy-orientation', property='U03', needs='a four-way mirrored map with a room that has no symmetry',
  breaks='the copies of rooms that face north or south are turned the wrong way round',
  edits=[('redeclipse/upm.py', "            room_copy.orientation = room_copy.orientation.rotate(orientation)", "            room_copy.orientation = room_copy.orientation.rotate(orientation if room.orientation.x else 0 - orientation)")],
  demo=UPM + '''
u = UnusedPositionManager(256, mirror=4)
u.register_room(Room(CoarseVector(5, 5, 5), orientation=NORTH))
want = {tuple(NORTH.rotate(d)) for d in (0, 90, 180, 270)}
for d, r in zip((0, 90, 180, 270), u.rooms):
    assert tuple(r.orientation) == tuple(NORTH.rotate(d)), (d, r.orientation)
'''),
 dict(id='u04-first-door', property='U04', needs='a room that fits only by a door that is not its first one on that side',
  breaks='only the first door of a side is tried',
  edits=[('redeclipse/upm.py', "                for chosen_door in options:", "                for chosen_door in options[:1]:")],
  demo=UPM + '''
from redeclipse.prefabs import JumpCorridorVertical
u = UnusedPositionManager(256)
a = Room(CoarseVector(5, 5, 31))
u.register_room(a)
found = list(u.room_localization([JumpCorridorVertical], CoarseVector(6, 5, 31), a, EAST))
assert found and all(CoarseVector(6, 5, 31) in r.get_positions() for r in found)
'''),
 dict(id='u05-missing-class', property='U05', needs='rooms of a kind that the table does not list for the room before',
  breaks='kinds missing from the table are drawn with the smallest weight instead of a tenth',
  edits=[('redeclipse/upm.py', "        minimum_prob = min([probs.get(room.room_type, 0.1) for room in room_options])", "        minimum_prob = min(list(probs.values()) or [0.1])")],
  demo=UPM + '''
u = UnusedPositionManager(256)
class A(Room):
    room_type = 'a'
    def get_transition_probs(self):
        return {'a': 0.5}
class B(Room):
    room_type = 'b'
assert set(u.random_room_stream(A(CoarseVector(1, 1, 1)), [A, B])) == {A, B}
'''),
 dict(id='u06-count-one', property='U06', needs='a mirrored map',
  breaks='a mirrored map gets twice or four times as many rooms as asked for',
  edits=[('redeclipse/upm.py', "                    room_count += self.mirror", "                    room_count += 1")],
  demo=UPM + '''
random.seed(3)
u = UnusedPositionManager(256, mirror=4)
u.register_room(Room(CoarseVector(8, 8, 3)))
u.place_rooms(False, [Room], rooms=8)
assert len(u.rooms) == 12, len(u.rooms)
'''),
 dict(id='u07-giveup', property='U07', needs='a door where the first way of turning the cap does not fit',
  breaks='a door stays open when the first cap tried does not fit, though another would',
  edits=[('redeclipse/upm.py', "                if not all([pos not in self.occupied.keys() for pos in r.get_positions()]):\n                    continue", "                if not all([pos not in self.occupied.keys() for pos in r.get_positions()]):\n                    return None")],
  demo=UPM + '''
class Long(Room):
    def _get_positions(self):
        return [SELF, EAST]
    def _get_doorways(self):
        return [{'orientation': WEST, 'offset': WEST}]
class Short(Long):
    def _get_positions(self):
        return [SELF]
class Closed(Room):
    def _get_doorways(self):
        return []
class East(Room):
    def _get_doorways(self):
        return [{'orientation': EAST, 'offset': EAST}]
for seed in range(10):
    random.seed(seed)
    u = UnusedPositionManager(256)
    u.register_room(Closed(CoarseVector(7, 5, 5)))
    u.register_room(East(CoarseVector(5, 5, 5)))
    u.endcap(possible_endcaps=[Long, Short])
    assert CoarseVector(6, 5, 5) in u.occupied
'''),
 dict(id='r02-pusher-yaw', property='R02', needs='a jump corridor that does not face east',
  breaks='the second jump pad of a jump corridor pushes in a fixed direction',
  edits=[('redeclipse/prefabs/__init__.py', "            maxrad=15 * SIZE_OFFSET,\n            yaw=rotate_yaw(90, self.orientation),", "            maxrad=15 * SIZE_OFFSET,\n            yaw=rotate_yaw(270, self.orientation.rotate(180) if self.orientation.x else self.orientation),")],
  demo='''
from redeclipse.prefabs import JumpCorridor3
from redeclipse.voxel import VoxelWorld
from redeclipse.vector.orientations import CARDINALS
class X: pass
for o in CARDINALS:
    m = X(); m.ents = []
    JumpCorridor3((3, 3, 3), orientation=o).render(VoxelWorld(64), m)
    a, b = [e for e in m.ents if e.type.name == 'ET_PUSHER']
    assert (a.attrs[0] - b.attrs[0]) % 360 == 180, (o, a.attrs[0], b.attrs[0])
'''),
 dict(id='r04-last-flag', property='R04', needs='a room next to another of its kind and a draw of the last flag',
  breaks='the last flag of a room is never toggled, and rooms with one flag cannot be varied',
  edits=[('redeclipse/prefabs/__init__.py', "            mutateIdx = random.randint(0, len(mutatedOpts) - 1)", "            mutateIdx = random.randint(0, max(len(mutatedOpts) - 2, 0))")],
  demo='''
import random
from redeclipse.prefabs import Corridor4way
prev = Corridor4way((1, 1, 1), randflags=[True, True, True])
seen = set()
for s in range(200):
    random.seed(s)
    seen.add(tuple(Corridor4way.randOpts(prev)['randflags']))
assert (True, True, False) in seen
'''),
 dict(id='r05-offset-cells', property='R05', needs='a model that is shifted and whose voxels cross into the next cell',
  breaks='the cells a shifted model room claims are not those it fills',
  edits=[('redeclipse/prefabs/magica.py', "            tmp = (FineVector(*vox) + offset).coarse()", "            tmp = FineVector(*vox).coarse() + offset.coarse()")],
  demo='''
from redeclipse.prefabs.magica import MagicaRoom
from redeclipse.voxel import VoxelWorld
import struct, tempfile, os
p = os.path.join(tempfile.mkdtemp(), 'a.vox')
vox = [(0, 0, 0, 1), (6, 0, 0, 1)]
with open(p, 'wb') as f:
    xyzi = struct.pack('<i', len(vox)) + b''.join(bytes(v) for v in vox)
    f.write(b'VOX ' + struct.pack('<i', 150) + b'MAIN' + struct.pack('<ii', 0, 0) + b'SIZE' + struct.pack('<iiiii', 12, 0, 7, 1, 1)
            + b'XYZI' + struct.pack('<ii', len(xyzi), 0) + xyzi + b'RGBA' + struct.pack('<ii', 1024, 0) + bytes(1024))
class M(MagicaRoom):
    name = 'm'
    vox_file = p
    boundary_additions = {'WEST': 3}
assert len(M((1, 1, 1)).get_positions()) == 2
'''),
 dict(id='a01-lid', property='A01', needs='a box with a height limit below the size of the world',
  breaks='a box with a height limit gets a lid',
  edits=[('redeclipse/aftereffects.py', "                if x == 0 or y == 0 or z == 0 or x == world.size - 1 or y == world.size - 1 or z == world.size - 1:", "                if x == 0 or y == 0 or z == 0 or x == world.size - 1 or y == world.size - 1 or z == max_height - 1:")],
  demo='''
from redeclipse.aftereffects import box
from redeclipse.voxel import VoxelWorld
w = VoxelWorld(6)
box(w, height=4)
assert w.get_point(3, 3, 3) is None and w.get_point(0, 3, 3) is not None
'''),
 dict(id='a02-decay-bounds', property='A02', needs='a world whose content does not start at the origin and was partly deleted',
  breaks='decay spares the highest columns of the content',
  edits=[('redeclipse/aftereffects.py', """    for z in tqdm(range(int(world.zmax) + 1)):
        for x in range(world.size):
            for y in range(world.size):
                if random.random() > position_function(x, y, z):
                    # sys.stdout.write('.')""", """    for z in tqdm(range(int(world.zmax) + 1)):
        for x in range(int(world.xmin), int(world.xmax)):
            for y in range(world.size):
                if random.random() > position_function(x, y, z):
                    # sys.stdout.write('.')""")],
  demo='''
from redeclipse.aftereffects import decay
from redeclipse.voxel import VoxelWorld
w = VoxelWorld(8)
w.set_point(1, 2, 3, 'a')
w.set_point(4, 2, 3, 'b')
decay(w, lambda x, y, z: -1)
assert not w.world, w.world
'''),
 dict(id='a03-inverse-wide', property='A03', needs='a layer above the height where the gradient reaches nothing',
  breaks='high above the ground the gradient rises again',
  edits=[('redeclipse/aftereffects.py', "    if result < 0:\n        result = 0\n", "    if result < 0:\n        result = 0 if z < 640 or z > 660 else 0.01\n")],
  demo='''
from redeclipse.aftereffects import vertical_gradient2
for z in range(0, 1000):
    assert vertical_gradient2(0, 0, z + 1) <= vertical_gradient2(0, 0, z)
'''),
 dict(id='b01-alpha-order', property='B01', needs='a colour with a channel above one half',
  breaks='channels of the palette are rounded half down to seven bits',
  edits=[('redeclipse/magicavoxel/writer.py', "        return int(255 * x)\n", "        return min(int(256 * x), 255) & ~1 if x > 0.5 else int(255 * x)\n")],
  demo='''
import io
from redeclipse.magicavoxel.writer import to_magicavoxel
from redeclipse.textures import AutomatedMagicaTextureManager
from redeclipse.voxel import VoxelWorld
t = AutomatedMagicaTextureManager()
t.get_colour(1, 0, 0)
f = io.BytesIO()
to_magicavoxel(VoxelWorld(8), f, t)
assert f.getvalue()[-1024:][8:12] == bytes([255, 0, 0, 255])
'''),
 dict(id='d01-mirror-first', property='D01', needs='a mirrored table that lists a pair in both directions',
  breaks='in a mirrored table the pair lookup prefers the reverse direction',
  edits=[('redeclipse/prefabs/distributions.py', "        if key in self.transition_probabilities:\n            return", "        if key in self.transition_probabilities and not (self.mirror and (b, a) in self.transition_probabilities):\n            return")],
  demo='''
from redeclipse.prefabs.distributions import DistributionManager
class D(DistributionManager):
    mirror = True
    transition_probabilities = {('a', 'b'): 0.25, ('b', 'a'): 0.75}
class A:
    room_type = 'a'
assert D().tp('a', 'b') == 0.25 == D().for_class(A)['b']
'''),
 dict(id='c02-link-unknown', property='C02', needs='more than one link between rooms',
  breaks='the graph lists a link only from the later room to the earlier one',
  edits=[('redeclipse/cli/__init__.py', "                'source': id(la),\n                'target': id(lb),", "                'source': id(la) if upm.rooms.index(la) < upm.rooms.index(lb) else id(lb),\n                'target': id(lb),")],
  demo=UPM + '''
import io, json
from redeclipse.cli import output
from redeclipse import prefabs
class A: magica = None; mpz_out = None; graph = io.StringIO()
class R(Room):
    name = 'r'
u = UnusedPositionManager(256)
a, b = R(CoarseVector(5, 5, 5)), R(CoarseVector(6, 5, 5))
for r in (b, a):
    u.register_room(r)
u.register_link(a, b)
output(None, None, u, prefabs, A)
l = json.loads(A.graph.getvalue())['links'][0]
assert l['source'] != l['target'], l
'''),
 dict(id='g01-caps-after', property='G01', needs='a generated map with open doors',
  breaks='end caps are placed but do not appear in the map',
  edits=[('redeclipse/cli/magica_rooms.py', "    for room in upm.rooms:\n        room.render(v, mymap)", "    for room in upm.rooms[:rooms + mirror]:\n        room.render(v, mymap)")],
  demo='''
import sys
from redeclipse.cli import magica_rooms as g
from redeclipse import prefabs
from redeclipse.magicavoxel import reader
rendered = []
from redeclipse.prefabs import magica
old = magica.MagicaRoom.render
def render(self, world, xmap):
    rendered.append(self)
magica.MagicaRoom.render = render
import glob
class M: ents = []; cfg_extra = []; world = None
class F: name = None
g.parse = lambda n: M
v, m, u = g.main(F, rooms=4, mirror=2)
assert len(rendered) == len(u.rooms), (len(rendered), len(u.rooms))
'''),
 dict(id='j01-same-place', property='J01', needs='two entities of the same kind at the same place',
  breaks='the JSON form loses entities that share a kind and a position with an earlier one',
  edits=[('redeclipse/__init__.py', "            'entities': [ent.to_dict() for ent in self.ents],", "            'entities': [ent.to_dict() for i, ent in enumerate(self.ents) if (ent.type, ent.o.x, ent.o.y, ent.o.z) not in [(e.type, e.o.x, e.o.y, e.o.z) for e in self.ents[:i]]],")],
  demo=PRE + '''
from redeclipse.entities import PlayerSpawn
m = fresh()
m.ents += [PlayerSpawn(xyz=FineVector(1, 1, 1)), PlayerSpawn(xyz=FineVector(1, 1, 1), team=3)]
assert len(m.to_dict()['entities']) == 2
'''),
]
