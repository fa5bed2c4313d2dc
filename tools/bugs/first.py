PRE = '''
import os, sys, tempfile, struct, gzip
from redeclipse import Map, MapParser
from redeclipse.objects import cube, cubext, SurfaceInfo
from redeclipse.vector import FineVector, CoarseVector, BaseVector
tmp = tempfile.mkdtemp()
def at(n):
    return os.path.join(tmp, n)
def base():
    return MapParser().read('test/' + [x for x in os.listdir('test') if x.endswith('.mpz')][0]) if os.path.isdir('test') else fresh()
def fresh(size=4):
    from collections import OrderedDict
    meta = OrderedDict([('worldsize', size), ('numents', 0), ('numpvs', 0), ('lightmaps', 0), ('blendmap', 0),
                        ('numvslots', 0), ('gamever', 229), ('revision', 2), ('gameident', b'fps'), ('numvars', 0)])
    return Map(b'MAPZ', 43, 48, meta, OrderedDict(), [], [], [], [], cube.newcubes())
def trip(m):
    m.write(at('a.mpz'))
    return MapParser().read(at('a.mpz'))
'''
BUGS = [
 dict(id='x01-short-pi', property='X01', needs='a position thousands of units from the axis and an angle of more than a turn',
  breaks='rotating a far away position is off by half a unit or more',
  edits=[('redeclipse/vector/__init__.py', 'theta = pi * deg / 180', 'theta = 3.14159 * deg / 180'), ],
  demo='''
from redeclipse.vector import FineVector
for d, w in ((90, (-30000.5, 40000)), (720, (40000, 30000.5)), (-270, (-30000.5, 40000)), (450, (-30000.5, 40000))):
    v = FineVector(40000, 30000.5, 1).rotate(d)
    assert (v.x, v.y) == w, (d, v)
'''),
 dict(id='m03-lodcube-early', property='M03', needs='a map with a level-of-detail cell that carries a material',
  breaks='the material of a level-of-detail cell is not written, and everything after it in the file is shifted',
  edits=[('redeclipse/__init__.py', "        if c.octsav & 0x40:\n            self._write_ushort(handle, c.material)", "        if c.octsav & 0x40 and c.octsav & 0x7 != OCT.OCTSAV_LODCUBE.value:\n            self._write_ushort(handle, c.material)")],
  demo=PRE + '''
m = fresh()
c = m.world[2]
c.octsav = 4 | 0x40
c.material = 7
r = trip(m)
assert r.world[2].octsav == 0x44 and r.world[2].material == 7
assert [x.octsav for x in r.world] == [x.octsav for x in m.world]
'''),
 dict(id='m03-surface-mask-shift', property='M03', needs='a cell with surface data on its last face but not on all of them',
  breaks='light map data of a cell whose surface mask is not contiguous is written for the wrong faces',
  edits=[('redeclipse/__init__.py', "                    surfinfo = c.ext.surfaces[i]", "                    surfinfo = [s for s in c.ext.surfaces if s][bin(c.surfmask >> i).count('1') - 1]")],
  demo=PRE + '''
m = fresh()
c = m.world[5]
c.octsav = 0x22
c.surfmask = 0b100101
c.ext = cubext()
c.ext.surfaces = [SurfaceInfo(i + 1, 9, 0, 32) if c.surfmask >> i & 1 else None for i in range(6)]
r = trip(m)
got = [s.lmid[0] if s else None for s in r.world[5].ext.surfaces]
assert got == [1, None, 3, None, None, 6], got
'''),
 dict(id='m04-meta-only-header', property='M04', needs='a map that is edited after it was saved once',
  breaks='the entity count is written only if it is not there, so entities added after a save are lost on reading',
  edits=[('redeclipse/__init__.py', "        self.meta['numents'] = len(self.ents)", "        self.meta['numents'] = self.meta['numents'] or len(self.ents)")],
  demo=PRE + '''
from redeclipse.entities import PlayerSpawn
m = fresh()
m.ents.append(PlayerSpawn(xyz=FineVector(1, 1, 1)))
m.write(at('one.mpz'))
m.ents.append(PlayerSpawn(xyz=FineVector(2, 2, 2)))
assert len(trip(m).ents) == 2
'''),
 dict(id='m02-links-attrs', property='M02', needs='an entity that has more links than attributes, or none',
  breaks='the links of an entity are cut to the number of its attributes',
  edits=[('redeclipse/__init__.py', "            self._write_int(handle, len(ent.links))\n            for ln in ent.links:\n                self._write_int(handle, ln)",
          "            links = ent.links[:max(len(ent.attrs), 1)]\n            self._write_int(handle, len(links))\n            for ln in links:\n                self._write_int(handle, ln)")],
  demo=PRE + '''
from redeclipse.entities import Entity
from redeclipse.enums import EntType
m = fresh()
from redeclipse.entities import PlayerSpawn, Light, Pusher
m.ents.append(PlayerSpawn(xyz=FineVector(1, 2, 3)))
m.ents[0].links = list(range(8))
r = trip(m)
assert list(r.ents[0].links) == list(range(8)), r.ents[0].links
'''),
 dict(id='v02-delete-by-vector', property='V02', needs='a voxel deleted by vector after it was written twice at the border',
  breaks='deleting by vector leaves a voxel that has the highest coordinate of the world',
  edits=[('redeclipse/voxel/__init__.py', "        (x, y, z) = xyz\n        if (x, y, z) in self.world:", "        (x, y, z) = xyz\n        if (x, y, z) in self.world and (x, y, z) != (self.xmax, self.ymax, self.zmax):")],
  demo='''
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import FineVector
w = VoxelWorld(8)
w.set_point(1, 1, 1, 'a')
w.set_pointv(FineVector(3, 2, 5), 'b')
w.del_pointv(FineVector(3, 2, 5))
assert w.get_point(3, 2, 5) is None
assert w.get_point(1, 1, 1) == 'a'
'''),
 dict(id='v01-shared-empty', property='V01', needs='a voxel in a particular octant with an empty neighbour of larger size',
  breaks='an octant is dropped from the tree when only its upper half holds voxels',
  edits=[('redeclipse/voxel/__init__.py', "        elif all([x is None for x in current_level_cubes]):", "        elif all([x is None for x in current_level_cubes[:7]]) and x_bounds[1] - x_bounds[0] <= self.size // 4:")],
  demo='''
from redeclipse.voxel import VoxelWorld
from redeclipse.objects import cube
def count(c):
    if c.children:
        return sum(count(x) for x in c.children)
    return 1 if c.octsav != 1 else 0
for p in [(0, 0, 0), (7, 7, 7), (2, 3, 3), (3, 3, 3), (3, 2, 7)]:
    w = VoxelWorld(8)
    w.set_point(*p, cube.newtexcube())
    assert sum(count(c) for c in w.to_octree()) == 1, p
'''),
 dict(id='t01-colour-rounding', property='T01', needs='two colours that differ by less than one hundredth',
  breaks='two nearly equal colours get the same texture number',
  edits=[('redeclipse/textures/__init__.py', "        return self._get_colour(r, g, b)\n", "        return self._get_colour(r, g, round(b, 2))\n")],
  demo='''
from redeclipse.textures import AutomatedMagicaTextureManager
t = AutomatedMagicaTextureManager()
seen = {}
for i in range(256):
    n = t.get_colour(0.5, 1, i / 255)
    assert n not in seen, (i, seen[n])
    seen[n] = i
    assert t.atlas[n].b == i / 255
'''),
 dict(id='t02-falsy-texcolor', property='T02', needs='a colour whose three channels are all zero',
  breaks='the colour line of a black texture is left out, so the game shows it white',
  edits=[('redeclipse/textures/basetex.py', '''texture c "{0.basepath}/empty.png" 0 0 0 1 // {idx} {0.__class__}
texcolor {0.r} {0.g} {0.b}
""".format(self, idx=idx)''', '''texture c "{0.basepath}/empty.png" 0 0 0 1 // {idx} {0.__class__}
{1}
""".format(self, 'texcolor %s %s %s' % (self.r, self.g, self.b) if self.r + self.g > self.b - 1 and self.r + self.g + self.b else '', idx=idx)''')],
  demo='''
import os, tempfile
from redeclipse.textures import AutomatedMagicaTextureManager
t = AutomatedMagicaTextureManager()
t.get_colour(0, 0, 1)
t.get_colour(0, 0, 0)
class N:
    name = os.path.join(tempfile.mkdtemp(), 'm.mpz')
t.emit_conf(N)
s = open(N.name.replace('.mpz', '.cfg')).read()
assert 'texcolor 0 0 0' in s, s
assert 'texcolor 0 0 1' in s, s
'''),
 dict(id='x02-floor-equality', property='X02', needs='two fine vectors that differ only in the half unit',
  breaks='a fine and a coarse vector that differ by less than a unit compare equal',
  edits=[('redeclipse/vector/__init__.py', """            tmp = self.fine()
            return \\
                tmp.x == other.x and \\
                tmp.y == other.y and \\
                tmp.z == other.z""", """            tmp = other.coarse()
            return \\
                self.x == tmp.x and \\
                self.y == tmp.y and \\
                self.z == tmp.z""")],
  demo='''
from redeclipse.vector import FineVector, CoarseVector
assert CoarseVector(1, 2, 3) == FineVector(8, 16, 24)
assert not CoarseVector(1, 2, 3) == FineVector(9, 16, 24)
'''),
]
