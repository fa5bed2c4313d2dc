import os
import runpy
_h = os.path.dirname(os.path.abspath(__file__))
PRE = runpy.run_path(os.path.join(_h, 'first.py'))['PRE']
UPM = runpy.run_path(os.path.join(_h, 'second.py'))['UPM']
ROOM = runpy.run_path(os.path.join(_h, 'third.py'))['ROOM']
BUGS = [
 dict(id='x03-floordiv', property='X03', needs='a whole division of a negative coordinate that leaves a rest',
  breaks='dividing a vector rounds its negative second coordinate towards zero, unlike the others',
  edits=[('redeclipse/vector/__init__.py', "            floor(self.y / m),", "            int(self.y / m),")],
  demo='''
from redeclipse.vector import CoarseVector, FineVector
for c in (CoarseVector, FineVector):
    assert c(-9, -9, -9) // 8 == c(-2, -2, -2)
    assert c(16, -16, 9) // 8 == c(2, -2, 1)
'''),
 dict(id='x04-south-loose', property='X04', needs='a vector that is no compass direction but points south somehow',
  breaks='any vector with a negative second coordinate counts as south',
  edits=[('redeclipse/vector/orientations.py', "    elif orientation == SOUTH:\n        return (angle + 270) % 360", "    elif orientation.y < 0:\n        return (angle + 270) % 360")],
  demo='''
from redeclipse.vector.orientations import *
for v, o in ((EAST, 0), (NORTH, 90), (WEST, 180), (SOUTH, 270)):
    assert rotate_yaw(90, v) == (90 + o) % 360
for v in (SOUTHEAST, SOUTH + SOUTH, SOUTH + ABOVE, ABOVE):
    try:
        rotate_yaw(0, v)
    except Exception:
        continue
    raise AssertionError(v)
'''),
 dict(id='k02-shared-draw', property='K02', needs='sparse drawing of a shape of several voxels',
  breaks='one draw decides for the whole shape drawn instead of one per voxel',
  edits=[('redeclipse/prefabs/construction_kit.py', "        for point in func(*args, **kwargs):\n", "        subtract = subtract_or_skip(subtract, prob)\n        for point in func(*args, **kwargs):\n"),
         ('redeclipse/prefabs/construction_kit.py', "            if subtract_or_skip(subtract, prob):\n", "            if subtract:\n")],
  demo='''
import random
from redeclipse.prefabs import Room
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import CoarseVector, FineVector
random.seed(1)
w = VoxelWorld(64)
Room(CoarseVector(2, 2, 2)).x('floor', w, FineVector(0, 0, 0), prob=0.5)
assert 10 < len(w.world) < 54, len(w.world)
Room(CoarseVector(2, 2, 2)).x('floor', w, FineVector(0, 0, 0), subtract=True)
assert not w.world
'''),
 dict(id='u04-three-ways', property='U04', needs='a room class that fits in one orientation only, and a draw that puts it last',
  breaks='only three of the four orientations of a class are tried',
  edits=[('redeclipse/upm.py', "            for orientation in random.sample(CARDINALS, 4):", "            for orientation in random.sample(CARDINALS, 3):")],
  demo=ROOM + '''
class One(Room):
    def _get_doorways(self): return [{'orientation': WEST, 'offset': WEST}]
for s in range(30):
    random.seed(s)
    u = UnusedPositionManager(256)
    r = Room(CoarseVector(5, 5, 5))
    u.register_room(r)
    for p, room, o in list(u.unoccupied):
        assert list(u.room_localization([One], p, room, o)), (s, p)
'''),
 dict(id='u05-long-list', property='U05', needs='room classes whose weights are very far apart',
  breaks='the list the stream of classes is drawn from is cut at a thousand, so that a rare class may be missing',
  edits=[('redeclipse/upm.py', "random.sample(choices, len(choices))]).keys()", "random.sample(choices, min(len(choices), 1000))]).keys()")],
  demo=ROOM + '''
class A(Room): room_type = 'a'
class B(Room): room_type = 'b'
class C(Room):
    def get_transition_probs(self): return {'a': 3.0, 'b': 0.001}
for s in range(20):
    random.seed(s)
    got = list(UnusedPositionManager(256).random_room_stream(C(CoarseVector(1, 1, 1)), [A, B]))
    assert sorted(c.__name__ for c in got) == ['A', 'B'], got
'''),
 dict(id='d01-class-cache', property='D01', needs='a room of one class asked for its probabilities, then one of a class made from it with another kind',
  breaks='the probabilities a room has looked up are kept for its class and, with it, for every class made from it',
  edits=[('redeclipse/prefabs/__init__.py', "            self._tp = DISTMAN.for_class(self)", "            type(self)._tp = DISTMAN.for_class(self)")],
  demo='''
import redeclipse.prefabs as P
from redeclipse.prefabs import Room, JumpCorridorVertical, Stair
from redeclipse.vector import CoarseVector
class Old(Room): room_type = 'stair'
class New(Old): room_type = 'hallway'
a, b = Old(CoarseVector(1, 1, 1)), New(CoarseVector(1, 1, 1))
assert a.get_transition_probs() == P.DISTMAN.for_class(a)
assert b.get_transition_probs() == P.DISTMAN.for_class(b), b.get_transition_probs()
'''),
 dict(id='r02-tree-yaw', property='R02', needs='an altar room with its tree that does not face east',
  breaks='the tree of an altar room does not turn with the room',
  edits=[('redeclipse/prefabs/__init__.py', "                yaw=rotate_yaw(270, self.orientation),\n                type=124", "                yaw=rotate_yaw(270, EAST),\n                type=124")],
  demo=PRE + '''
from redeclipse.prefabs import AltarRoom
from redeclipse.voxel import VoxelWorld
from redeclipse.vector.orientations import CARDINALS, rotate_yaw
for o in CARDINALS:
    m = fresh()
    AltarRoom(CoarseVector(4, 4, 1), orientation=o).render(VoxelWorld(64), m)
    tree = [e for e in m.ents if e.type.name == 'ET_MAPMODEL'][0]
    assert tree.attrs[1] == rotate_yaw(270, o), (o, tree.attrs)
'''),
 dict(id='r03-shared-doors', property='R03', needs='a spawn room with two open sides asked for its doors twice',
  breaks='the doors of spawn rooms pile up in a list all of them share',
  edits=[('redeclipse/prefabs/__init__.py', "        doors = [\n            {'orientation': EAST, 'offset': EAST},\n        ]\n        if self._randflags[0]:", "        doors = self._doors\n        if self._randflags[0]:"),
         ('redeclipse/prefabs/__init__.py', "    room_type = 'platform_setpiece'\n    _randflags = (\n        True,  # Two sides open\n    )\n", "    room_type = 'platform_setpiece'\n    _randflags = (\n        True,  # Two sides open\n    )\n    _doors = [\n        {'orientation': EAST, 'offset': EAST},\n    ]\n")],
  demo='''
from redeclipse.prefabs import SpawnRoom
from redeclipse.vector import CoarseVector
for f in (True, True, False):
    assert len(SpawnRoom(CoarseVector(1, 1, 1), randflags=[f]).get_doorways()) == (2 if f else 1)
'''),
 dict(id='r04-own-flags', property='R04', needs='a room whose flags were drawn, followed by one of its own class',
  breaks='the flag toggled for the next room is toggled in the room before it as well',
  edits=[('redeclipse/prefabs/__init__.py', "            mutatedOpts = list(copy.deepcopy(prev._randflags))", "            mutatedOpts = prev._randflags if isinstance(prev._randflags, list) else list(prev._randflags)")],
  demo='''
from redeclipse.prefabs import Corridor2way
from redeclipse.vector import CoarseVector
r = Corridor2way(CoarseVector(1, 1, 1), randflags=[True, False])
new = Corridor2way.randOpts(r)['randflags']
assert list(r._randflags) == [True, False] and new != [True, False]
'''),
 dict(id='r05-model-kept', property='R05', needs='two model files of the same name in different folders',
  breaks='models are kept by the name of their file without its folder, so that the second room gets the model of the first',
  edits=[('redeclipse/prefabs/magica.py', "class MagicaRoom(Room):\n", "MODELS = {}\n\n\nclass MagicaRoom(Room):\n"),
         ('redeclipse/prefabs/magica.py', "        self.model = Magicavoxel.from_file(self.vox_file)\n", "        key = self.vox_file.split('/')[-1]\n        if key not in MODELS:\n            MODELS[key] = Magicavoxel.from_file(self.vox_file)\n        self.model = MODELS[key]\n")],
  demo=PRE + '''
from redeclipse.prefabs.magica import MagicaRoom
def vox(path, voxels):
    b = b'VOX ' + struct.pack('i', 150) + b'MAIN' + struct.pack('ii', 0, 0)
    b += b'SIZE' + struct.pack('iiiii', 12, 0, 8, 8, 8)
    b += b'XYZI' + struct.pack('iii', 4 + 4 * len(voxels), 0, len(voxels)) + b''.join(struct.pack('BBBB', *v) for v in voxels)
    b += b'RGBA' + struct.pack('ii', 1024, 0) + b'\\x01\\x02\\x03\\xff' * 256
    open(path, 'wb').write(b)
for d, v in (('a', (1, 1, 1, 5)), ('b', (1, 1, 9, 5))):
    os.mkdir(at(d))
    vox(at(d + '/thing.vox'), [v])
    class R(MagicaRoom):
        name = 'thing'
        vox_file = at(d + '/thing.vox')
    got = [tuple(p) for p in R(CoarseVector(0, 0, 0)).get_positions()]
    assert got == [(0, 0, v[2] // 8)], got
'''),
]
