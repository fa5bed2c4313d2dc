import os
import runpy
_h = os.path.dirname(os.path.abspath(__file__))
PRE = runpy.run_path(os.path.join(_h, 'first.py'))['PRE']
ROOM = runpy.run_path(os.path.join(_h, 'third.py'))['ROOM']
MODEL = '''
import os, shutil, struct, tempfile
from redeclipse.prefabs import TEXMAN
from redeclipse.prefabs.magica import MagicaRoom
from redeclipse.vector import CoarseVector, FineVector
from redeclipse.vector.orientations import EAST
from redeclipse.voxel import VoxelWorld
d = tempfile.mkdtemp()
def model(voxels, palette):
    path = os.path.join(d, 'm.vox')
    body = b''.join(struct.pack('4B', *v) for v in voxels)
    pal = b''.join(struct.pack('4B', *palette.get(i, (i, 255 - i, 7, 255))) for i in range(256))
    with open(path, 'wb') as f:
        f.write(b'VOX ' + struct.pack('<i', 150) + b'MAIN' + struct.pack('<ii', 0, 24 + 16 + len(body) + 1036))
        f.write(b'SIZE' + struct.pack('<iiiii', 12, 0, 256, 256, 256))
        f.write(b'XYZI' + struct.pack('<iiI', 4 + len(body), 0, len(voxels)) + body)
        f.write(b'RGBA' + struct.pack('<ii', 1024, 0) + pal)
    class R(MagicaRoom):
        name = 'r'
        vox_file = path
        def colour_to_texture(self, r, g, b):
            return (round(r * 255), round(g * 255), round(b * 255))
        def light(self, xmap):
            pass
        def x(self, name, world, at, tex=None):
            self.seen[tuple(at)] = tex
    R.seen = {}
    r = R(CoarseVector(0, 0, 0), orientation=EAST)
    return r
'''
BUGS = [
 dict(id='r05-transparent', property='R05', needs='a model whose palette has a colour with alpha 0',
  breaks='colours with alpha 0 are taken for unused ones, their voxels get black',
  edits=[('redeclipse/prefabs/magica.py', "                self._colours[idx] = (colour.r / 255, colour.g / 255, colour.b / 255)\n",
   "                self._colours[idx] = (colour.r / 255, colour.g / 255, colour.b / 255) if colour.a else (0, 0, 0)\n")],
  demo=MODEL + '''
try:
    r = model([(0, 0, 0, 3), (1, 0, 0, 4)], {3: (10, 20, 30, 0), 4: (40, 50, 60, 255)})
    r.render(VoxelWorld(64), None)
    assert sorted(r.seen.values()) == [(10, 20, 30), (40, 50, 60)], r.seen
finally:
    shutil.rmtree(d)
'''),
 dict(id='r05-high-index', property='R05', needs='a voxel with a colour index above 127',
  breaks='colour indices are read as if they had seven bits',
  edits=[('redeclipse/prefabs/magica.py', "            self.vox.set_point(vox.x, vox.y, vox.z, vox.c)\n", "            self.vox.set_point(vox.x, vox.y, vox.z, vox.c & 0x7f)\n")],
  demo=MODEL + '''
try:
    r = model([(0, 0, 0, 3), (1, 0, 0, 200)], {})
    r.render(VoxelWorld(64), None)
    assert sorted(r.seen.values()) == [(3, 252, 7), (200, 55, 7)], r.seen
finally:
    shutil.rmtree(d)
'''),
 dict(id='r05-many', property='R05', needs='a model of more than 65535 voxels',
  breaks='the number of voxels is taken to have two bytes',
  edits=[('redeclipse/magicavoxel/reader.py', "            for i in range(self.num_voxels):\n", "            for i in range(self.num_voxels & 0xffff):\n"),
         ('redeclipse/magicavoxel/reader.py', "            self.voxels = [None] * (self.num_voxels)\n", "            self.voxels = [None] * (self.num_voxels & 0xffff)\n")],
  demo=MODEL + '''
from redeclipse.magicavoxel.reader import Magicavoxel
try:
    n = 65536 + 3
    r = model([(i & 255, i >> 8 & 255, i >> 16, 1) for i in range(n)], {})
    assert len(Magicavoxel.from_file(r.vox_file).model_voxels.voxels) == n
finally:
    shutil.rmtree(d)
'''),
 dict(id='a02-negative', property='A02', needs='a position function that goes below 0',
  breaks='decay takes the size of the value of the position function for the probability',
  edits=[('redeclipse/aftereffects.py', "                if random.random() > position_function(x, y, z):\n                    # sys.stdout.write('.')", "                if random.random() > abs(position_function(x, y, z)):\n                    # sys.stdout.write('.')")],
  demo='''
from redeclipse.aftereffects import decay
from redeclipse.objects import cube
from redeclipse.voxel import VoxelWorld
w = VoxelWorld(4)
for z in range(3):
    w.set_point(1, 2, z, cube.newtexcube(tex=2))
decay(w, lambda x, y, z: 1 - 1.0 * z)
assert (1, 2, 0) in w.world
decay(w, lambda x, y, z: -1.5)
assert not w.world
'''),
 dict(id='v02-zero', property='V02', needs='a value that counts as false, such as the palette index 0 of a model',
  breaks='a place that holds 0 is taken for an empty one',
  edits=[('redeclipse/voxel/__init__.py', "        if (x, y, z) in self.world:\n            return self.world[x, y, z]\n        else:\n            return None\n", "        return self.world.get((x, y, z)) or None\n")],
  demo='''
from redeclipse.voxel import VoxelWorld
w = VoxelWorld(4)
w.set_point(1, 2, 3, 0)
assert w.get_point(1, 2, 3) == 0 and w.get_point(1, 2, 2) is None
'''),
 dict(id='b01-round', property='B01', needs='a voxel with a fractional coordinate (from a turned room)',
  breaks='coordinates are rounded, the size of the model is not',
  edits=[('redeclipse/magicavoxel/writer.py', "        return int(x)\n", "        return round(x)\n")],
  demo='''
import io
from redeclipse.magicavoxel.reader import Magicavoxel
from redeclipse.magicavoxel.writer import to_magicavoxel
from redeclipse.objects import cube
from redeclipse.textures import TextureManager
from redeclipse.voxel import VoxelWorld
w = VoxelWorld(16)
w.set_point(3.5, 1.5, 7.5, cube.newtexcube(tex=1))
h = io.BytesIO()
to_magicavoxel(w, h, TextureManager())
m = Magicavoxel.from_bytes(h.getvalue())
v = m.model_voxels.voxels[0]
assert (v.x, v.y, v.z) == (3, 1, 7), (v.x, v.y, v.z)
assert v.x < m.model_size.x and v.z < m.model_size.z
'''),
 dict(id='x04-east-wrap', property='X04', needs='a yaw below 0 or of two turns or more',
  breaks='a yaw turned to the east is brought back by one turn only',
  edits=[('redeclipse/vector/orientations.py', "        return angle % 360\n", "        return angle - 360 if angle >= 360 else angle\n")],
  demo='''
from redeclipse.vector.orientations import *
for a in (-90, 0, 90, 359, 360, 450, 720, 810):
    assert rotate_yaw(a, EAST) == a % 360, a
'''),
 dict(id='d01-zero-weight', property='D01', needs='a table that gives a pair the probability 0',
  breaks='a pair with the probability 0 is taken for one that the table does not have',
  edits=[('redeclipse/prefabs/distributions.py', "        if key in self.transition_probabilities:\n", "        if self.transition_probabilities.get(key):\n")],
  demo='''
from redeclipse.prefabs.distributions import DistributionManager
class D(DistributionManager):
    transition_probabilities = {('a', 'b'): 0, ('b', 'a'): 2, ('a', 'a'): 1}
assert D().tp('a', 'b') == 0
class M(D):
    mirror = True
assert M().tp('a', 'b') == 0
'''),
 dict(id='e01-shared-default', property='E01', needs='two team flags made without links, one of which is linked later',
  breaks='all flags made without links share one list of links',
  edits=[('redeclipse/entities/__init__.py', "    def __init__(self, xyz, team=1, yaw=0, pitch=0, modes=2, muts=0, id=0, links=None, reserved=None):\n        xyz = xyz.fine() * 4\n        self.o = ivec3(*xyz)\n        self.type = EntType.ET_AFFINITY\n        self.attr_annotations = [\n            'team', 'yaw', 'pitch', 'modes', 'muts', 'id'\n        ]\n        self.attrs = [\n            team, yaw, pitch, modes, muts, id\n        ]\n        self.links = [] if links is None else links\n",
   "    def __init__(self, xyz, team=1, yaw=0, pitch=0, modes=2, muts=0, id=0, links=[], reserved=None):\n        xyz = xyz.fine() * 4\n        self.o = ivec3(*xyz)\n        self.type = EntType.ET_AFFINITY\n        self.attr_annotations = [\n            'team', 'yaw', 'pitch', 'modes', 'muts', 'id'\n        ]\n        self.attrs = [\n            team, yaw, pitch, modes, muts, id\n        ]\n        self.links = links\n")],
  demo='''
from redeclipse.entities import TeamFlag
from redeclipse.vector import FineVector
a, b = TeamFlag(FineVector(0, 0, 0)), TeamFlag(FineVector(4, 0, 0))
a.links.append(3)
assert b.links == [] and TeamFlag(FineVector(0, 0, 0)).links == []
'''),
 dict(id='l01-tiny-light', property='L01', needs='a size factor below a whole number',
  breaks='the radius of a light grows in whole steps of the size factor',
  edits=[('redeclipse/lighting/__init__.py', "            radius=SIZE_OFFSET * 64 * size_factor,\n", "            radius=SIZE_OFFSET * 64 * (size_factor if size_factor < 1 else int(size_factor)),\n")],
  demo='''
from redeclipse.lighting import LightManager
from redeclipse.vector import CoarseVector
class X:
    ents = []
LightManager().light(X, CoarseVector(1, 2, 3), size_factor=2.5)
assert X.ents[0].attrs[0] == 160, X.ents[0].attrs
'''),
 dict(id='u05-capped', property='U05', needs='room kinds more than a hundred times as likely as the least likely one',
  breaks='no room class gets more than a hundred shares',
  edits=[('redeclipse/upm.py', "            frequency = int(probs.get(room.room_type, 0.1) / minimum_prob)\n", "            frequency = int(probs.get(room.room_type, 0.1) / minimum_prob) % 101\n")],
  demo='''
from redeclipse.upm import UnusedPositionManager
class A:
    room_type = 'a'
class B:
    room_type = 'b'
class P:
    @classmethod
    def get_transition_probs(cls):
        return {'a': 2.02, 'b': 0.02}
assert set(UnusedPositionManager(64).random_room_stream(P, [A, B])) == {A, B}
'''),
]
