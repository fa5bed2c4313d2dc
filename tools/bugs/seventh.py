import os
import runpy
_h = os.path.dirname(os.path.abspath(__file__))
PRE = runpy.run_path(os.path.join(_h, 'first.py'))['PRE']
ROOM = runpy.run_path(os.path.join(_h, 'third.py'))['ROOM']
BUGS = [
 dict(id='u02-first-cell', property='U02', needs='a room of several cells placed so that another cell than its first lies behind an open door',
  breaks='a door that leads into a later cell of a new room stays listed as open',
  edits=[('redeclipse/upm.py', "if p not in used]\n", "if p != used[0]]\n")],
  demo=ROOM + '''
class Long(Room):
    def _get_positions(self):
        return [SELF, EAST]
u = UnusedPositionManager(256)
u.register_room(Room(CoarseVector(5, 5, 5)))
n = len(u.unoccupied)
u.register_room(Long(CoarseVector(5, 5, 5) + WEST + WEST))
assert all(p not in u.occupied for p, r, o in u.unoccupied), u.unoccupied
'''),
 dict(id='u03-copy-made', property='U03', needs='a mirrored map and a room with a variant of its own',
  breaks='the mirrored copies of a room are of the variant drawn for them, not of that of the room',
  edits=[('redeclipse/upm.py', "            room_copy = copy.deepcopy(room)\n", "            room_copy = room if orientation == 0 and self.mirror == 1 else room.__class__(room.pos, orientation=room.orientation)\n")],
  demo=PRE + '''
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import NLongCorridor
u = UnusedPositionManager(256, mirror=2)
r = NLongCorridor(CoarseVector(5, 5, 5))
r.length = 4 if r.length != 4 else 5
u.register_room(r)
assert [q.length for q in u.rooms] == [r.length] * 2, [q.length for q in u.rooms]
'''),
]
