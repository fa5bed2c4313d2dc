import os
import runpy
_h = os.path.dirname(os.path.abspath(__file__))
PRE = runpy.run_path(os.path.join(_h, 'first.py'))['PRE']
ROOM = runpy.run_path(os.path.join(_h, 'third.py'))['ROOM']
BUGS = [
 dict(id='m01-long-text', property='M01', needs='a text variable of more than 260 characters',
  breaks='a long text is cut to the length the game keeps, its length is not',
  edits=[('redeclipse/__init__.py', "                self._write_str(handle, value)\n", "                self._write_str(handle, value[:260])\n")],
  demo=PRE + '''
m = fresh()
m.map_vars[b'maptext'] = b'ab' * 200
m.map_vars[b'gravity'] = 7
r = trip(m)
assert r.map_vars[b'maptext'] == b'ab' * 200 and r.map_vars[b'gravity'] == 7
'''),
 dict(id='m02-many-links', property='M02', needs='an entity with more than 32 links',
  breaks='links beyond the thirty-second are lost',
  edits=[('redeclipse/__init__.py', "            self._write_int(handle, len(ent.links))\n            for ln in ent.links:\n", "            links = ent.links[:32]\n            self._write_int(handle, len(links))\n            for ln in links:\n")],
  demo=PRE + '''
from redeclipse.entities import Entity
from redeclipse.enums import EntType
m = fresh()
m.ents = [Entity(FineVector(1, 2, 3), EntType.ET_PLAYERSTART, [0] * 6, list(range(40)), [0, 0, 0])]
assert list(trip(m).ents[0].links) == list(range(40))
'''),
 dict(id='m03-deep', property='M03', needs='a cell more than ten levels deep',
  breaks='cells more than ten levels down are not written',
  edits=[('redeclipse/__init__.py', "        if cube_arr:\n            for i, c in enumerate(cube_arr):", "        if cube_arr and indent <= 10:\n            for i, c in enumerate(cube_arr):")],
  demo=PRE + '''
m = fresh(2 ** 13)
c = m.world[2]
for i in range(12):
    c.octsav = 0
    c.children = cube.newcubes()
    c = c.children[i % 8]
c.octsav = 2
c = trip(m).world[2]
for i in range(12):
    assert c.octsav == 0
    c = c.children[i % 8]
assert c.octsav == 2
'''),
 dict(id='k01-texture-zero', property='K01', needs='a primitive drawn with the texture number 0',
  breaks='texture 0 (the sky) is taken for no texture',
  edits=[('redeclipse/prefabs/construction_kit.py', "            tex = kwargs['tex']\n", "            tex = kwargs['tex'] or tex\n")],
  demo='''
from redeclipse.prefabs import Room
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import CoarseVector, FineVector
w = VoxelWorld(64)
Room(CoarseVector(2, 2, 2)).x('cube', w, FineVector(0, 0, 0), tex=0)
assert [c.texture for c in w.world.values()] == [[0] * 6], [c.texture for c in w.world.values()]
'''),
 dict(id='l01-large-map', property='L01', needs='a map of more than 2048 units',
  breaks='lights of large maps are placed as in one of 2048 units',
  edits=[('redeclipse/lighting/__init__.py', "        self._world_size_factor = world_size / 2 ** 6\n", "        self._world_size_factor = min(world_size, 1024) / 2 ** 6\n")],
  demo='''
from redeclipse.lighting import LightManager
from redeclipse.vector import CoarseVector
class M: ents = []
LightManager(world_size=4096).light(M, CoarseVector(64, 64, 0), autocenter=False)
LightManager(world_size=2048).light(M, CoarseVector(64, 64, 0), autocenter=False)
assert M.ents[1].o.x == 2 * M.ents[0].o.x, [e.o.x for e in M.ents]
'''),
]
