import os
import runpy
PRE = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'first.py'))['PRE']
_t = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'third.py'))
ROOM, RAW = _t['ROOM'], _t['RAW']
TERRAIN = PRE + '''
import redeclipse.cli.perlin as P
P.IJ_SIZE, P.K_SIZE = 8, 40
random = P.random
def terrain(ground, trees, houses, chance=0.0):
    """Noise per column and kind; returns the texture (or None) per place."""
    def pnoise2(x, y, octaves=1, base=0):
        x, y = int(round(x * P.noise_scaling)), int(round(y * P.noise_scaling))
        kind = base - P.MAP_SEED
        return ground(x, y) if kind == 0 else trees(x, y) if kind == 128 else houses(x, y)
    class N: pass
    P.noise = N()
    P.noise.pnoise2 = pnoise2
    P.random = N()
    P.random.random = lambda: chance
    worlds = []
    class V(P.VoxelWorld):
        def to_octree(self, *a, **k):
            worlds.append(self)
            return cube.newcubes()
    P.VoxelWorld = V
    fresh().write(at('in.mpz'))
    sys.argv = ['perlin', at('in.mpz'), at('out.mpz')]
    P.main()
    return {k: list(v.texture) for k, v in worlds[-1].world.items()}
'''
MODEL = '''
import io, sys, contextlib, tempfile, os, struct
from redeclipse.cli.magicavoxel_info import main
tmp = tempfile.mkdtemp()
def listing(voxels, colours):
    colours = colours + [(0, 0, 0)] * (256 - len(colours))
    b = b'VOX ' + struct.pack('i', 150) + b'MAIN' + struct.pack('ii', 0, 0)
    b += b'SIZE' + struct.pack('iiiii', 12, 0, 20, 20, 20)
    b += b'XYZI' + struct.pack('iii', 4 + 4 * len(voxels), 0, len(voxels)) + b''.join(struct.pack('BBBB', *v) for v in voxels)
    b += b'RGBA' + struct.pack('ii', 1024, 0) + b''.join(struct.pack('BBBB', *c, 255) for c in colours)
    with open(os.path.join(tmp, 'thing.vox'), 'wb') as f:
        f.write(b)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        main(os.path.join(tmp, 'thing.vox'))
    return out.getvalue()
'''
BUGS = [
 dict(id='p01-house-on-whole', property='P01', needs='a building on a column whose ground height is a whole number',
  breaks='a building whose ground ends exactly at a voxel boundary floats one voxel above the ground',
  edits=[('redeclipse/cli/perlin.py', "k < q + 4 and k >= q:", "k < q + 4 and k > q:")],
  demo=TERRAIN + '''
w = terrain(lambda x, y: 0.0, lambda x, y: 1, lambda x, y: -0.9 if (x, y) == (0, 0) else 1)
assert [k for k in range(40) if (1, 1, k) in w] == list(range(34)), [k for k in range(40) if (1, 1, k) in w]
'''),
 dict(id='p01-house-blocks', property='P01', needs='a building in a block that is not on the diagonal of the map',
  breaks='buildings stand in the block that lies across the diagonal from the one their noise is for',
  edits=[('redeclipse/cli/perlin.py', "bldgDensityMap[i2, j2] = True", "bldgDensityMap[j2, i2] = True")],
  demo=TERRAIN + '''
# the noise of buildings is asked for (j, i)
w = terrain(lambda x, y: 0.1, lambda x, y: 1, lambda x, y: -0.9 if (x, y) == (1, 0) else 1)
tall = {(x, y) for x, y, z in w if z > 31}
assert tall == {(x, y) for x in range(4) for y in range(4, 8)}, sorted(tall)
'''),
 dict(id='p01-tree-chance', property='P01', needs='a place whose tree noise is above the limit but whose draw is very low',
  breaks='trees grow also where their noise is up to zero',
  edits=[('redeclipse/cli/perlin.py', """            if w < -0.1:
                # Then we take a chance
                if random.random() < (abs(w) / 4):""", """            if w < 0.0:
                # Then we take a chance
                if random.random() < (abs(w) / 4):""")],
  demo=TERRAIN + '''
w = terrain(lambda x, y: 0.1, lambda x, y: -0.09, lambda x, y: 1, chance=0.001)
assert max(z for x, y, z in w) == 30, max(z for x, y, z in w)
'''),
 dict(id='i01-pure-blue', property='I01', needs='a palette colour without red and green',
  breaks='colours that are pure blue are left out of the listing',
  edits=[('redeclipse/cli/magicavoxel_info.py', "if colour.r != 0 or colour.g != 0 or colour.b != 0:", "if colour.r != 0 or colour.g != 0:")],
  demo=MODEL + '''
out = listing([(1, 2, 3, 1)], [(9, 8, 7), (0, 0, 5)])
assert 'C[0] = (9, 8, 7)' in out and 'C[1] = (0, 0, 5)' in out, out
'''),
 dict(id='i01-no-gaps', property='I01', needs='a model with a layer between others that holds no voxel',
  breaks='layers without voxels are left out of the listing',
  edits=[('redeclipse/cli/magicavoxel_info.py', "    for z in range(world.zmin, world.zmax + 1):\n", "    for z in sorted({z for (x, y, z) in world.world}):\n")],
  demo=MODEL + '''
out = listing([(1, 2, 3, 1), (1, 2, 5, 1)], [(9, 8, 7)])
layers = out.split('====')
assert out.count('#') == 2 and out.count('z = ') == 3, out
'''),
 dict(id='i01-one-colour-voxels', property='I01', needs='a voxel of colour zero',
  breaks='voxels of the first colour are not marked',
  edits=[('redeclipse/cli/magicavoxel_info.py', "                if (x, y, z) in world.world:\n", "                if world.get_point(x, y, z):\n")],
  demo=MODEL + '''
out = listing([(1, 2, 3, 0), (1, 3, 3, 1)], [(9, 8, 7)])
assert out.count('#') == 2, out
'''),
 dict(id='s01-copied-once', property='S01', needs='two sky boxes for one game folder',
  breaks='the images of the second sky of a game folder are not copied',
  edits=[('redeclipse/skybox/__init__.py', """            os.makedirs(self.skydir)

        module_path""", """            os.makedirs(self.skydir)
        elif os.listdir(self.skydir):
            return

        module_path""")],
  demo=PRE + '''
import redeclipse.skybox as S
copied = []
def copy(a, b, *args, **kwargs):
    copied.append(os.path.basename(a))
    open(os.path.join(b, os.path.basename(a)), 'w').close()
S.shutil.copy = copy
S.DesertSky(tmp), S.MinecraftSky(tmp)
assert len(copied) == 12, copied
'''),
 dict(id='s01-keeps-old', property='S01', needs='a map that has a sky already',
  breaks='a sky is not replaced when the map has one',
  edits=[('redeclipse/__init__.py', "        self.map_vars[b'skybox'] = tb(sb.get_short_path())", "        self.map_vars.setdefault(b'skybox', tb(sb.get_short_path()))")],
  demo=PRE + '''
import redeclipse.skybox as S
S.shutil.copy = lambda *a, **k: None
m = fresh()
m.skybox(S.DesertSky(tmp))
m.skybox(S.MinecraftSky(tmp))
r = trip(m)
assert [bytes(v) if isinstance(v, bytes) else v.encode() for v in r.map_vars.values()] == [b'hxr/skybox/minecraft'], r.map_vars
'''),
 dict(id='l02-grey', property='L02', needs='a position where the noise is zero for all three colours, such as a corner of the map',
  breaks='where there is no noise the light is black',
  edits=[('redeclipse/lighting/__init__.py', "        # RGB isn't great", "        if red == grn == blu:\n            return (red, grn, blu)\n\n        # RGB isn't great")],
  demo=PRE + '''
from redeclipse.lighting import PositionBasedLightManager
c = PositionBasedLightManager().hue(FineVector(0, 0, 0))
assert max(c) == 255, c
'''),
 dict(id='l02-overbright', property='L02', needs='a manager with a brightness above one',
  breaks='a manager that is set very bright gives colours above 255',
  edits=[('redeclipse/lighting/__init__.py', "int(255 * min(self.brightness, 1.0))", "int(255 * max(self.brightness, 0.0))")],
  demo=PRE + '''
from redeclipse.lighting import PositionBasedLightManager
c = PositionBasedLightManager(brightness=1.5).hue(FineVector(10, 20, 30))
assert max(c) <= 255, c
'''),
 dict(id='g02-empty-section', property='G02', needs='a section of the map that is empty',
  breaks='asked for a section that is empty, the JSON tool prints the whole map',
  edits=[('redeclipse/cli/to_json.py', """    if args.section:
        sys""", """    if args.section and mymap.to_dict()[args.section]:
        sys""")],
  demo=PRE + '''
import io, json, contextlib
from redeclipse.cli.to_json import main
fresh().write(at('in.mpz'))
full = MapParser().read(at('in.mpz')).to_dict()
name = [k for k in full if not full[k]][0]
sys.argv = ['to_json', at('in.mpz'), '--section', name]
out = io.StringIO()
with contextlib.redirect_stdout(out):
    main()
assert not json.loads(out.getvalue()), out.getvalue()
'''),
 dict(id='g02-appends', property='G02', needs='an output file that is there already',
  breaks='a map is written after what the file held before, and reading gives the old map',
  edits=[('redeclipse/__init__.py', "handle = gzip.open(path, 'wb')", "handle = gzip.open(path, 'ab')")],
  demo=RAW + '''
import sys
from redeclipse.cli.iso import main
m = load(raw(struct.pack('iii', -2, -2, -1), 5))
load(raw(), 'z.mpz')
sys.argv = ['iso', os.path.join(tmp, 'x.mpz'), os.path.join(tmp, 'z.mpz')]
main()
assert gzip.open(os.path.join(tmp, 'z.mpz')).read() == gzip.open(os.path.join(tmp, 'x.mpz')).read()
'''),
 dict(id='d01-sorted-pair', property='D01', needs='a mirrored table that lists a pair in both orders, or one in the order that is not alphabetical',
  breaks='looking up a pair of a mirrored table is refused, or gives the weight of the other order',
  edits=[('redeclipse/prefabs/distributions.py', "        key = (a, b)\n", "        key = tuple(sorted((a, b))) if self.mirror else (a, b)\n")],
  demo='''
from redeclipse.prefabs.distributions import DistributionManager
class D(DistributionManager):
    mirror = True
    transition_probabilities = {('a', 'b'): 1, ('b', 'a'): 2}
class B:
    room_type = 'b'
assert D().for_class(B) == {'a': 2} and D().tp('b', 'a') == 2, D().tp('b', 'a')
'''),
 dict(id='u04-variant-again', property='U04', needs='a room whose doors depend on the variant, and a second draw of another variant',
  breaks='the proposed room is of another variant than the one whose door was matched',
  edits=[('redeclipse/upm.py', "                    r = roomClass(pos=CoarseVector(2, 2, 3) - room_offset, **kwargs)\n", "                    r = roomClass(pos=CoarseVector(2, 2, 3) - room_offset, **dict(kwargs, **roomClass.randOpts(prev_room)))\n")],
  demo=ROOM + '''
class V(Room):
    room_type = 'x'
    n = 0
    def __init__(self, pos, orientation=EAST, randflags=None):
        self.pos, self.orientation, self._randflags = CoarseVector(*pos), orientation, randflags
    @classmethod
    def randOpts(cls, prev):
        cls.n += 1
        return {'randflags': [cls.n % 2]}
    def _get_doorways(self):
        o = [WEST, EAST][self._randflags[0]]
        return [{'orientation': o, 'offset': o}]
    def _get_positions(self):
        return [SELF]
    def get_transition_probs(self):
        return {'x': 1}
u = UnusedPositionManager(256)
a = V(CoarseVector(5, 5, 5), randflags=[1])
u.register_room(a)
(d, prev, o) = u.unoccupied[0]
got = list(u.room_localization([V], d, prev, o))
assert got
for r in got:
    assert any(x['offset'] == a.pos and x['orientation'] == o.rotate(180) for x in r.get_doorways())
'''),
 dict(id='b01-signed', property='B01', needs='more than 126 textures',
  breaks='a world with a texture number above 126 cannot be exported',
  edits=[('redeclipse/magicavoxel/writer.py', "        handle.write(struct.pack('BBBB', m(x), m(y), m(z), m(value.texture[0] + 1)))", "        handle.write(struct.pack('BBBb', m(x), m(y), m(z), m(value.texture[0] + 1)))")],
  demo=PRE + '''
import io
from redeclipse.voxel import VoxelWorld
from redeclipse.magicavoxel.writer import to_magicavoxel
from redeclipse.textures import AutomatedMagicaTextureManager
t = AutomatedMagicaTextureManager()
cs = [t.get_colour(i / 255, 0, 0) for i in range(130)]
v = VoxelWorld()
v.set_point(1, 2, 3, cube.newtexcube(tex=cs[-1]))
b = io.BytesIO()
to_magicavoxel(v, b, t)
assert b.getvalue().index(b'RGBA')
'''),
 dict(id='a03-unclamped', property='A03', needs='a height just above the ground',
  breaks='the gradient is above one near the ground, and its inverse negative',
  edits=[('redeclipse/aftereffects.py', "    if result > 1:\n        result = 1\n    return result", "    if result > 1.004:\n        result = 1\n    return result")],
  demo='''
from redeclipse.aftereffects import vertical_gradient2 as g
vals = [g(0, 0, z) for z in range(300)]
assert vals[0] == 1 and all(a >= b for a, b in zip(vals, vals[1:]))
'''),
 dict(id='t03-accent-first', property='T03', needs='a theme whose accents differ from its walls',
  breaks='asked for an accent a theme gives a wall',
  edits=[('redeclipse/textures/__init__.py', "random.choice(self.theme.AccentMaterial)", "(random.choice(self.theme.AccentMaterial + self.theme.WallMaterial))")],
  demo='''
import random
from redeclipse import textures as T
for cls in (T.MinecraftThemedTextureManager, T.DefaultThemedTextureManager, T.PrimaryThemedTextureManager, T.PaperThemedTextureManager):
    m = cls()
    ok = {m.get(x) for x in m.theme.AccentMaterial}
    for s in range(200):
        random.seed(s)
        assert m.get_c('accent') in ok
'''),
 dict(id='l01-override-black', property='L01', needs='a light whose given colour has no red',
  breaks='a colour that is given for a light is ignored when its red is zero',
  edits=[('redeclipse/lighting/__init__.py', "        if colour_override:\n", "        if colour_override and colour_override[0]:\n")],
  demo=PRE + '''
from redeclipse.lighting import LightManager
m = fresh()
LightManager().light(m, FineVector(8, 8, 8), colour_override=(0, 9, 8))
assert m.ents[0].attrs[1:4] == [0, 9, 8], m.ents[0].attrs
'''),
]
