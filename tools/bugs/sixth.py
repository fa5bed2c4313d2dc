import os
import runpy
_h = os.path.dirname(os.path.abspath(__file__))
PRE = runpy.run_path(os.path.join(_h, 'first.py'))['PRE']
ROOM = runpy.run_path(os.path.join(_h, 'third.py'))['ROOM']
# what is kept from an earlier use
BUGS = [
 dict(id='l01-sticky-size', property='L01', needs='a light of another size placed earlier with the same manager',
  breaks='the size asked for one light stays in force for those after it',
  edits=[('redeclipse/lighting/__init__.py', "        light = self.get_light(pos, red, green, blue, size_factor=size_factor)\n", "        if size_factor != 1:\n            self.size_factor = size_factor\n        light = self.get_light(pos, red, green, blue, size_factor=getattr(self, 'size_factor', 1))\n")],
  demo=PRE + '''
from redeclipse.lighting import LightManager
m, l = fresh(), LightManager()
for f in (1, 2, 1):
    l.light(m, CoarseVector(1, 1, 1), size_factor=f)
assert [e.attrs[0] for e in m.ents] == [64, 128, 64], [e.attrs[0] for e in m.ents]
'''),
 dict(id='k01-points-kept', property='K01', needs='prisms of one size drawn in rooms that face different ways',
  breaks='the voxels of a prism are kept by its size without its direction',
  edits=[('redeclipse/prefabs/construction_kit.py', "class ConstructionKitMixin(object):\n", "POINTS = {}\n\n\nclass ConstructionKitMixin(object):\n"),
         ('redeclipse/prefabs/construction_kit.py', "        for point in cube_points(xyz.x, xyz.y, xyz.z):\n            yield point + local_position", "        key = (abs(xyz.x), abs(xyz.y), abs(xyz.z))\n        if key not in POINTS:\n            POINTS[key] = list(cube_points(xyz.x, xyz.y, xyz.z))\n        for point in POINTS[key]:\n            yield point + local_position")],
  demo='''
from redeclipse.prefabs import Room
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import CoarseVector, FineVector
from redeclipse.vector.orientations import *
for o in CARDINALS:
    w = VoxelWorld(64)
    Room(CoarseVector(2, 2, 2), orientation=o).x('floor', w, FineVector(0, 0, 0))
    assert len(w.world) == 64 and all(16 <= x < 24 and 16 <= y < 24 for x, y, z in w.world), (o, sorted(w.world)[0])
'''),
 dict(id='c01-shared-settings', property='C01', needs='flavours given to one map after another',
  breaks='the first flavour of a map hands over its own list, which the next flavours lengthen for every later map',
  edits=[('redeclipse/worldflavors.py', "def crushed_blacks():\n    return [\n        'ambient 0',\n    ]\n", "BLACKS = [\n    'ambient 0',\n]\n\n\ndef crushed_blacks():\n    return BLACKS\n"),
         ('redeclipse/worldflavors.py', "        world.cfg_extra.extend(extra)\n", "        if world.cfg_extra:\n            world.cfg_extra.extend(extra)\n        else:\n            world.cfg_extra = extra\n")],
  demo=PRE + '''
from redeclipse import worldflavors as f
for i in range(3):
    m = f.update(fresh(), ['crushed_blacks', 'space_station'])
    assert m.cfg_extra == ['ambient 0'] + f.space_station(), m.cfg_extra
'''),
 dict(id='c02-common-links', property='C02', needs='a second map made in the same run',
  breaks='the links of an earlier map are in the graph of the next',
  edits=[('redeclipse/upm.py', "        # Set of linked rooms by doorway.\n        self.links = []\n", ""),
         ('redeclipse/upm.py', "    def __init__(self, world_size, mirror=1, noclip=False):\n", "    # Set of linked rooms by doorway.\n    links = []\n\n    def __init__(self, world_size, mirror=1, noclip=False):\n")],
  demo=ROOM + '''
for i in range(2):
    u = UnusedPositionManager(256)
    a, b = Room(CoarseVector(5, 5, 5)), Room(CoarseVector(6, 5, 5))
    u.register_room(a)
    u.register_room(b)
    u.register_link(a, b)
    assert len(u.links) == 1
'''),
 dict(id='v02-common-world', property='V02', needs='two voxel worlds in one run',
  breaks='worlds made without voxels share the voxels written later',
  edits=[('redeclipse/voxel/__init__.py', "    def __init__(self, size=2**7):\n", "    def __init__(self, size=2**7, world={}):\n"),
         ('redeclipse/voxel/__init__.py', "        self.world = {}\n", "        self.world = world\n")],
  demo='''
from redeclipse.voxel import VoxelWorld
a, b = VoxelWorld(8), VoxelWorld(8)
a.set_point(1, 1, 1, 'x')
assert b.get_point(1, 1, 1) is None
'''),
 dict(id='v01-tree-kept', property='V01', needs='a world converted, a voxel of it overwritten, and converted again',
  breaks='the tree of a world is kept as long as the number of its voxels does not change',
  edits=[('redeclipse/voxel/__init__.py', "        if x_bounds is None:\n", "        if x_bounds is None and getattr(self, '_kept', (None,))[0] == len(self.world):\n            return self._kept[1]\n        if x_bounds is None:\n"),
         ('redeclipse/voxel/__init__.py', "            return [cube.newcube() if x is None else x for x in current_level_cubes]\n", "            self._kept = (len(self.world), [cube.newcube() if x is None else x for x in current_level_cubes])\n            return self._kept[1]\n")],
  demo='''
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
w = VoxelWorld(2)
for t in (3, 4):
    w.set_point(1, 0, 0, cube.newtexcube(tex=t))
    assert w.to_octree()[1].texture[0] == t
'''),
 dict(id='j01-kept', property='J01', needs='a map exported, edited and exported again',
  breaks='the entities of an export are those of the first export as long as their number is the same',
  edits=[('redeclipse/__init__.py', "            'entities': [ent.to_dict() for ent in self.ents],\n", "            'entities': self._entities(),\n"),
         ('redeclipse/__init__.py', "    def to_json(self):\n", "    def _entities(self):\n        if len(getattr(self, '_ents', ())) != len(self.ents):\n            self._ents = [ent.to_dict() for ent in self.ents]\n        return self._ents\n\n    def to_json(self):\n")],
  demo=PRE + '''
from redeclipse.entities import Light
m = fresh()
for r in (5, 6):
    m.ents = [Light(FineVector(1, 1, 1), radius=r)]
    assert m.to_dict()['entities'][0]['attr']['radius'] == r
'''),
 dict(id='u05-total-kept', property='U05', needs='a choice among the same options with other weights, after an earlier one',
  breaks='the sum of the weights is kept by the options alone',
  edits=[('redeclipse/upm.py', "        total = sum(w for c, w in choices)\n", "        total = cls.totals.setdefault(tuple(c for c, w in choices), sum(w for c, w in choices))\n"),
         ('redeclipse/upm.py', "    def __init__(self, world_size, mirror=1, noclip=False):\n", "    totals = {}\n\n    def __init__(self, world_size, mirror=1, noclip=False):\n")],
  demo=ROOM + '''
def share(ws):
    random.seed(3)
    got = [UnusedPositionManager.weighted_choice(list(enumerate(ws))) for i in range(2000)]
    return got.count(1) / 2000
assert 0.4 < share([1, 1]) < 0.6
assert 0.85 < share([1, 9]) < 0.95, share([1, 9])
'''),
 dict(id='t04-once', property='T04', needs='a game folder that is there from an earlier run with other textures',
  breaks='images are only copied when their folder has just been made',
  edits=[('redeclipse/textures/__init__.py', "        if not os.path.exists(outdir):\n            os.makedirs(outdir)\n        for idx, (tex_key, tex) in enumerate(self.atlas.items()):\n            if not hasattr", "        if os.path.exists(outdir):\n            return\n        os.makedirs(outdir)\n        for idx, (tex_key, tex) in enumerate(self.atlas.items()):\n            if not hasattr")],
  demo=PRE + '''
import redeclipse.textures as T
from redeclipse.textures import MinecraftThemedTextureManager
class O: pass
for there in (False, True):
    copied = []
    class path: pass
    path.exists = staticmethod(lambda p: there)
    path.join, path.dirname, path.realpath = os.path.join, os.path.dirname, os.path.realpath
    T.os = type('OS', (), {'path': path, 'makedirs': staticmethod(lambda *a, **k: None)})
    T.shutil = type('SH', (), {'copy': staticmethod(lambda a, b: copied.append(a))})
    m = MinecraftThemedTextureManager()
    m.get('gold')
    m.copy_data()
    assert copied, there
'''),
 dict(id='s01-files-kept', property='S01', needs='two different skies made in one run',
  breaks='the names of the images of a sky are those of the first sky made',
  edits=[('redeclipse/skybox/__init__.py', "        for fn in self.get_files():\n", "        if not Skybox.files:\n            Skybox.files = self.get_files()\n        for fn in Skybox.files:\n"),
         ('redeclipse/skybox/__init__.py', "    basename = 'base'\n", "    basename = 'base'\n    files = None\n")],
  demo=PRE + '''
from redeclipse.skybox import DesertSky, MinecraftSky
for i, c in enumerate((DesertSky, MinecraftSky)):
    os.mkdir(at('g%d' % i))
    c(at('g%d' % i))
    assert len([f for f in os.listdir(at('g%d/data/hxr/skybox' % i)) if f.startswith(c.basename)]) == 6
'''),
 dict(id='r01-class-length', property='R01', needs='two vertical jump rooms, a short and a tall one, both made before the first is rendered',
  breaks='a tall vertical jump room makes every other such room tall, also those that have their place already',
  edits=[('redeclipse/prefabs/__init__.py', "        if self._randflags[0]:\n            self.length = 2\n", "        if self._randflags[0]:\n            self.__class__.length = 2\n")],
  demo=PRE + '''
from redeclipse.prefabs import JumpCorridorVerticalCenter as J
from redeclipse.voxel import VoxelWorld
a = J(CoarseVector(2, 2, 2), randflags=[False])
cells = [tuple(c) for c in a.get_positions()]
J(CoarseVector(5, 5, 2), randflags=[True])
w = VoxelWorld(64)
a.render(w, fresh())
assert all(tuple(i // 8 for i in v) in cells for v in w.world)
'''),
]
