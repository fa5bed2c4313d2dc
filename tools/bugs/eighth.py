import os
import runpy
_h = os.path.dirname(os.path.abspath(__file__))
PRE = runpy.run_path(os.path.join(_h, 'first.py'))['PRE']
ROOM = runpy.run_path(os.path.join(_h, 'third.py'))['ROOM']
BUGS = [
 dict(id='m04-text-length', property='M04', needs='a text variable set to a str with letters outside ASCII',
  breaks='the length of a text is written in letters, not bytes, and everything after it is shifted',
  edits=[('redeclipse/__init__.py', "                self._write_int(handle, len(value))\n", "                self._write_int(handle, len(self.map_vars[key]))\n")],
  demo=PRE + '''
m = fresh()
m.map_vars['maptitle'] = 'K\\u00f6ln'
m.map_vars['gravity'] = 7
r = trip(m)
assert r.map_vars[b'maptitle'] == 'K\\u00f6ln'.encode('utf-8') and r.map_vars[b'gravity'] == 7, r.map_vars
'''),
 dict(id='s01-old-images', property='S01', needs='images of another edition of the sky in the folder already',
  breaks='images that are there already are left as they are',
  edits=[('redeclipse/skybox/__init__.py', "        for fn in self.get_files():\n            shutil.copy(", "        for fn in self.get_files():\n            if os.path.exists(os.path.join(self.skydir, fn)):\n                continue\n            shutil.copy(")],
  demo='''
import os, tempfile, redeclipse.skybox as s
d = tempfile.mkdtemp()
k = os.path.join(d, 'data', 'hxr', 'skybox')
os.makedirs(k)
f = s.DesertSky.basename + s.Skybox.up_ext
open(os.path.join(k, f), 'w').write('old')
s.DesertSky(d)
assert open(os.path.join(k, f), 'rb').read() == open(os.path.join(os.path.dirname(s.__file__), f), 'rb').read()
'''),
 dict(id='m03-material-zero', property='M03', needs='a cell that carries the material number 0',
  breaks='the material 0 of a cell is not written though the cell says it has one',
  edits=[('redeclipse/__init__.py', "        if c.octsav & 0x40:\n            self._write_ushort(handle, c.material)", "        if c.octsav & 0x40 and c.material:\n            self._write_ushort(handle, c.material)")],
  demo=PRE + '''
m = fresh()
c = m.world[2]
c.octsav = 2 | 0x40
c.material = 0
r = trip(m)
assert r.world[2].octsav == 0x42 and [x.octsav for x in r.world] == [x.octsav for x in m.world]
'''),
 dict(id='j01-number-text', property='J01', needs='a text variable whose text is a whole number',
  breaks='a text that reads as a number comes back as a number',
  edits=[('redeclipse/__init__.py', "                map_vars[str.encode(key)] = str.encode(value)\n", "                map_vars[str.encode(key)] = int(value) if value.isdigit() else str.encode(value)\n")],
  demo=PRE + '''
import json
m = fresh()
m.map_vars[b'maptitle'] = b'2049'
r = Map.from_dict(json.loads(m.to_json()))
assert r.map_vars[b'maptitle'] == b'2049', r.map_vars
'''),
 dict(id='m02-far-links', property='M02', needs='an entity linked to itself',
  breaks='a link of an entity to itself is dropped',
  edits=[('redeclipse/__init__.py', "        for ent in ents:\n            # (x, y, z, etype, a, b, c)", "        for i, ent in enumerate(ents):\n            ent.links = [k for k in ent.links if k != i]\n            # (x, y, z, etype, a, b, c)")],
  demo=PRE + '''
from redeclipse.entities import Entity
from redeclipse.enums import EntType
m = fresh()
m.ents = [Entity(FineVector(1, 2, 3), EntType.ET_PLAYERSTART, [0] * 6, [k], [0, 0, 0]) for k in (0, 0, 1)]
r = trip(m)
assert [list(e.links) for e in r.ents] == [[0], [0], [1]], [e.links for e in r.ents]
'''),
]
