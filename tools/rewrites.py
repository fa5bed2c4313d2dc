#!/usr/bin/env python3
"""Hand-written rewrites that change no behaviour: python3 tools/rewrites.py GROUP|all|FILE:N [ID...]

All rewrites of a group are applied to a copy of /repo, the tests are run and then the checks: none may raise an alarm."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INIT, VEC, ORI, RE = '__init__.py', 'vector/__init__.py', 'vector/orientations.py', 'vector/re.py'
VOX, UPM, OBJ, AFT = 'voxel/__init__.py', 'upm.py', 'objects.py', 'aftereffects.py'
KIT, PRE, TEX, MW, MR, MAG = ('prefabs/construction_kit.py', 'prefabs/__init__.py', 'textures/__init__.py', 'magicavoxel/writer.py',
                              'magicavoxel/reader.py', 'prefabs/magica.py')
ENT, LIT, DIS, CLI = 'entities/__init__.py', 'lighting/__init__.py', 'prefabs/distributions.py', 'cli/__init__.py'
BAS = 'textures/basetex.py'
G = {}


def r(group, path, *pairs):
    G.setdefault(group, []).append((path, pairs))


def body(path, start, end=None):
    """The text of /repo from a line that starts with start up to the next line that starts with end."""
    s = open(os.path.join('/repo/redeclipse', path)).read()
    i = s.index(start)
    j = s.index(end, i + len(start)) if end else len(s)
    return s[i:j]


# -- a: library functions ------------------------------------------------------------------------------------------
r('a', VEC,
  ('from math import sin, cos, pi, floor, atan2\n', 'import math\nimport operator\nfrom math import sin, cos, pi, floor, atan2\n'),
  (body(VEC, '    def __mul__(self, m)', '    def __truediv__'),
   '    def _map(self, fn):\n        return type(self)(*map(fn, self))\n\n    def __mul__(self, m):\n        return self._map(lambda c: c * m)\n\n'),
  (body(VEC, '    def __floordiv__(self, m)', '    def __repr__'),
   '    def __floordiv__(self, m):\n        return self._map(lambda c: math.floor(c / m))\n\n'),
  (body(VEC, '    def __getitem__', '    def __len__'),
   '''    def __getitem__(self, key):
        try:
            return {0: self.x, 1: self.y, 2: self.z}[key]
        except KeyError:
            raise Exception("Could not access %s" % key)

'''),
  (body(VEC, '    def __iter__', '    def __lt__'), '    def __iter__(self):\n        return iter((self.x, self.y, self.z))\n\n'),
  (body(VEC, '        if self.x < other.x:\n', '    def __le__'), '        return (self.x, self.y, self.z) < (other.x, other.y, other.z)\n\n'),
  (body(VEC, '        if not isinstance(deg, int):\n', '    def offset_rotate'),
   '''        theta = math.radians(deg) if isinstance(deg, int) else math.atan2(deg.y, deg.x)
        c, s = math.cos(theta), math.sin(theta)
        px, py = 2 * self.x, 2 * self.y
        return type(self)(round(px * c - py * s) / 2, round(px * s + py * c) / 2, self.z)

'''))
r('a', ORI, (body(ORI, 'def rotate_yaw', 'def n(vec)'),
             '''def rotate_yaw(angle, orientation):
    for turn, direction in enumerate((EAST, NORTH, WEST, SOUTH)):
        if direction == orientation:
            return (angle + turn * 90) % 360
    raise Exception("Unexpected orientation")


'''),
  (body(ORI, 'def n(vec)'), '''_NAMES = [(NORTH, 'NORTH'), (SOUTH, 'SOUTH'), (EAST, 'EAST'), (WEST, 'WEST')]


def n(vec):
    return next((name for direction, name in _NAMES if direction == vec), None)
'''))
r('a', VOX,
  ('from redeclipse.objects import cube\n', 'import itertools\nfrom redeclipse.objects import cube\n'),
  (body(VOX, '    def _update_boundaries', '    def set_point('),
   '''    def _update_boundaries(self, x, y, z):
        self.xmin, self.xmax = min(self.xmin, x), max(self.xmax, x)
        self.ymin, self.ymax = min(self.ymin, y), max(self.ymax, y)
        self.zmin, self.zmax = min(self.zmin, z), max(self.zmax, z)

'''),
  (body(VOX, '    def set_pointv', '    def del_point('), '    def set_pointv(self, xyz, data):\n        self.set_point(*xyz, data)\n\n'),
  (body(VOX, '    def del_point(', '    def to_magicavoxel'),
   '''    def del_point(self, x, y, z):
        self.world.pop((x, y, z), None)

    def del_pointv(self, xyz):
        self.del_point(*xyz)

    def get_point(self, x, y, z):
        return self.world.get((x, y, z))

'''),
  (body(VOX, '        # Otherwise, split into 8 smaller cubes', '        # Worldroot'),
   '''        def halves(bounds):
            low, high = bounds
            mid = (low + high) // 2
            return (low, mid), (mid, high)

        current_level_cubes = [
            self.to_octree(xb, yb, zb)
            for zb, yb, xb in itertools.product(halves(z_bounds), halves(y_bounds), halves(x_bounds))
        ]

'''))
r('a', UPM,
  ('import math\nimport random\n', 'import itertools\nimport math\nimport random\n'),
  (body(UPM, '        total = sum(w for c, w', '    def random_room('),
   '''        if not choices:
            return None
        r = random.uniform(0, sum(w for _, w in choices))
        for (c, _), upto in zip(choices, itertools.accumulate(w for _, w in choices)):
            if upto >= r:
                return c
        return choices[-1][0]

'''),
  (body(UPM, '        choices = []\n        probs', '    def random_room_stream'),
   '        probs = connecting_room.get_transition_probs()\n        return self.weighted_choice([(room, probs.get(room.room_type, 0.1)) for room in room_options])\n\n'),
  (body(UPM, '        choices = []\n        probs = connecting_room.get_transition_probs()\n\n        # We', '        # >>> Ordered'),
   '''        probs = connecting_room.get_transition_probs()
        weights = [(room, probs.get(room.room_type, 0.1)) for room in room_options]
        minimum_prob = min(w for _, w in weights)
        choices = list(itertools.chain.from_iterable(itertools.repeat(room, int(w / minimum_prob)) for room, w in weights))
'''),
  ('        choices = OrderedDict([(room, True) for room in random.sample(choices, len(choices))]).keys()\n        return choices',
   '        return list(dict.fromkeys(random.sample(choices, len(choices))))'),
  (body(UPM, '            used = room.get_positions()\n            # First, we need to check that ALL of those positions are\n            # unoccupied.\n            for position in used:\n                if not', '        return True\n\n    def register_link'),
   '''            used = room.get_positions()
            if not all(self.is_legal(p) and p not in self.occupied and p not in added_occupied for p in used):
                return False
            added_occupied |= set(used)
            if any(not self.is_legal(door['offset']) for door in room.get_doorways()):
                return False
'''),
  ('        return 0 <= position.x < 32 and \\\n            0 <= position.y < 32 and \\\n            0 <= position.z < 32', '        return all(0 <= c < 32 for c in position)'))
r('a', INIT,
  ("        handle.write(struct.pack('B', char))", "        handle.write(bytes([char]))"),
  ("            handle.write(struct.pack('i', value))", "            handle.write(value.to_bytes(4, 'little', signed=True))"),
  ("        handle.write(struct.pack('H', value))", "        handle.write(struct.pack('<H', value))"),
  (body(INIT, '        strlen = len(value)\n', '    def _write_ents'), "        handle.write(value + b'\\0' if null else value)\n\n"),
  (body(INIT, '    def _read_str(', '    def _loadvslots'),
   '''    def _read_str(self, strlen, null=True):
        end = self.index + strlen + (1 if null else 0)
        if end > len(self.bytes) or strlen < 0:
            raise Exception("Unexpected end of map")
        data = self.bytes[self.index:end]
        self.index = end
        return data[:-1] if null else data

'''),
  (body(INIT, '            numattr = self._read_int()', '            e = Entity('),
   '            attrs = [self._read_int() for _ in range(self._read_int())]\n            links = [self._read_int() for _ in range(self._read_int())]\n\n'))
r('a', KIT,
  ('import random\n\nfrom bresenham', 'import itertools\nimport random\n\nfrom bresenham'),
  (body(KIT, '    if x > 0:\n        x_lower_bound = 0\n', 'def subtract_or_skip'),
   '''    def span(length):
        return range(length) if length > 0 else range(length + 1, 1)

    for point in itertools.product(span(x), span(y), span(z)):
        yield FineVector(*point)


'''),
  (body(KIT, '    if subtract:\n        return True', 'class Construction'), '    return bool(subtract) or (prob < 1 and random.random() > prob)\n\n\n'),
  (body(KIT, "        tex = 2\n        subtract =", "        for point in func("),
   '''        tex = kwargs.pop('tex', 2)
        subtract = kwargs.pop('subtract', False)
        prob = kwargs.pop('prob', 1.1)

'''),
  (body(KIT, "        onoff = [True] * on", "    def x_ceiling"),
   '''        pattern = itertools.cycle([True] * on + [False] * off)
        points = column_points(length, direction.rotate(self.orientation))
        for point in itertools.compress(points, pattern):
            yield point + local_position

'''))
r('a', AFT,
  ('import random\n', 'import itertools\nimport random\n'),
  (body(AFT, "    for z in tqdm(range(int(world.zmax) + 1)):\n", "def growth"),
   '''    layers = range(int(world.zmax) + 1)
    side = range(world.size)
    for z, x, y in itertools.product(layers, side, side):
        if random.random() > position_function(x, y, z):
            world.del_point(x, y, z)


'''),
  (body(AFT, "                xa = x == 0\n", "def endcap"),
   '''                last = world.size - 1
                if sum(c in (0, last) for c in (x, y, z)) > 1:
                    world.set_point(x, y, z, cube.newtexcube(tex=2))


'''),
  ("    if result < 0:\n        result = 0\n    if result > 1:\n        result = 1\n    return result", "    return min(max(result, 0), 1)"))
r('a', MW,
  (body(MW, "    def m(x):\n", "    # colour chunk"), '''    handle.write(b''.join(struct.pack('4B', *map(int, (x, y, z, value.texture[0] + 1))) for (x, y, z), value in voxels))

'''),
  (body(MW, "    for idx, (tex_key", None), '''    colours = [bytes([n(tex.r), n(tex.g), n(tex.b), 255]) for tex in texman.atlas.values()]
    colours += [b'\\0\\0\\0\\xff'] * (256 - len(colours))
    handle.write(b''.join(colours))
'''))
r('a', TEX,
  (body(TEX, '        if name not in self.atlas_backref:\n            # Insert tex\n            tex = self.texref[name]\n            pos', '    def random(self)'),
   '''        if name not in self.atlas_backref:
            index = len(self.atlas)
            self.atlas.update({index: self.texref[name]})
            self.atlas_backref[name] = index
        return self.atlas_backref[name]

'''),
  (body(TEX, "        if category == 'generic':\n            return self.get_colour(0, 0, 0)", "    def discover_textures(self):\n        super().discover_textures()\n\n\nclass Rain"),
   '''        grey = {'generic': 0, 'column': 0.5, 'floor': 0.1, 'wall': 0.9}
        if category in grey:
            return self.get_colour(*[grey[category]] * 3)
        return self.get_colour(*{'accent': (1, 0, 0)}.get(category, (0, 0, 1)))

'''),
  (body(TEX, "        if category == 'generic':\n            return self.get(random", "    def discover_textures(self):\n        super().discover_textures()\n        for"),
   '''        kind = category if category in ('generic', 'column', 'floor', 'wall', 'accent') else 'generic'
        return self.get(random.choice(getattr(self.theme, kind.capitalize() + 'Material')))

'''))

# -- b: files, formats, classes --------------------------------------------------------------------------------------
r('b', INIT,
  ('import sys\nimport gzip\nimport struct\n', 'import io\nimport sys\nimport gzip\nimport struct\n'),
  ("        handle = gzip.open(path, 'wb')\n", "        handle = io.BytesIO()\n"),
  ("        # gzip only writes out its buffers on close.\n        handle.close()\n",
   "        with gzip.open(path, 'wb') as out:\n            out.write(handle.getvalue())\n"),
  (body(INIT, "    def __read_custom", "    def _read_int"),
   '''    def __read_custom(self, pattern, width):
        val = struct.unpack_from(pattern, self.bytes, self.index)
        self.index += width
        return val

'''),
  (body(INIT, "        if octsav & 0x7 == OCT.OCTSAV_CHILDREN.value:", "        c.texture = []"),
   '''        kind = octsav % 8
        if kind == OCT.OCTSAV_CHILDREN.value:
            c.children = self._loadchildren(size >> 1, failed, indent=indent + 1)
            return False, c
        handlers = {
            OCT.OCTSAV_EMPTY.value: lambda: c.setfaces(Faces.F_EMPTY),
            OCT.OCTSAV_SOLID.value: lambda: c.setfaces(Faces.F_SOLID),
            OCT.OCTSAV_NORMAL.value: lambda: setattr(c, 'edges', self._read_custom('12B', 12)),
            OCT.OCTSAV_LODCUBE.value: lambda: setattr(c, 'haschildren', True),
        }
        if kind not in handlers:
            raise Exception("Garbage in map: unknown octree cell %s" % octsav)
        handlers[kind]()

'''),
  ("        c.texture = []\n        for i in range(6):\n            c.texture.append(self._read_ushort())\n", "        c.texture = list(self._read_custom('6H', 12))\n"),
  (body(INIT, "        for key in self.map_vars:\n            var_name", "        # Texmru"),
   '''        for key, value in self.map_vars.items():
            name = tb(key)
            self._write_int(handle, len(name))
            self._write_str(handle, name)
            if type(value) is int:
                self._write_custom(handle, 'ii', (0, value))
            elif type(value) is float:
                self._write_custom(handle, '=if', (1, value))
            elif type(value) in (bytes, str):
                text = tb(value)
                handle.write(struct.pack('ii', 2, len(text)))
                self._write_str(handle, text)
            else:
                raise Exception("Can't handle " + type(value).__name__)

'''),
  (body(INIT, "        for i, t in enumerate(c.texture):", "        if c.octsav & 0x40"),
   "        handle.write(struct.pack('%dH' % len(c.texture), *[t.value if isinstance(t, TextNum) else t for t in c.texture]))\n\n"),
  (body(INIT, "        meta = OrderedDict()\n        for k in meta_keys:", "        # char[4]"),
   "        meta = OrderedDict((k, self._read_int()) for k in meta_keys)\n\n"))
r('b', VEC,
  (body(VEC, "    def __eq__(self, other):\n        if isinstance(other, CoarseVector):\n            # If the other", "    def __repr__(self):\n        rp = super().__repr__()\n        return 'FV"),
   '''    def __eq__(self, other):
        if isinstance(other, CoarseVector):
            other = other.fine()
        return isinstance(other, FineVector) and tuple(self) == tuple(other)

'''),
  (body(VEC, "    def __eq__(self, other):\n        if isinstance(other, CoarseVector):\n            # If we're", "    def __repr__(self):\n        rp = super().__repr__()\n        return 'CV"),
   '''    def __eq__(self, other):
        if not isinstance(other, (CoarseVector, FineVector)):
            return False
        mine = self if isinstance(other, CoarseVector) else self.fine()
        return all(a == b for a, b in zip(mine, other))

'''),
  ("            self.x // 8,\n            self.y // 8,\n            self.z // 8\n", "            *(divmod(c, 8)[0] for c in self)\n"))
r('b', VOX,
  ('        self.world = {}\n', '        self.world = OrderedDict()\n'), ('import logging\n', 'import logging\nfrom collections import OrderedDict\n'),
  (body(VOX, "        # Worldroot is", None), '''        def filled(cells):
            return [cell or cube.newcube() for cell in cells]

        if x_bounds == (0, self.size):
            return filled(current_level_cubes)
        if not any(current_level_cubes):
            return None
        parent = cube.newcube()
        parent.octsav, parent.children = OCT.OCTSAV_CHILDREN.value, filled(current_level_cubes)
        return parent
'''))
r('b', UPM,
  (body(UPM, "        if self.mirror == 1:", "    def is_legal"), "        if mirror in (1, 2, 4):\n            self.mirror_rotations = list(range(0, 360, 360 // mirror))\n\n"),
  (body(UPM, "        tmpx = abs(x - 128)", "    def nrp_flavour_vertical"), "        return abs(x - 128) ** 5.0 + abs(y - 128) ** 5.0\n\n"),
  ("        return math.pow(z, 5)", "        return float(z) ** 5"),
  (body(UPM, "        choices = [\n            (idx, fl", "    @classmethod\n    def weighted"),
   '''        if not self.unoccupied:
            raise Exception("No more space!")
        weights = [flavour_function(*door[0]) for door in self.unoccupied]
        return self.unoccupied[self.weighted_choice(list(enumerate(weights)))]

'''),
  (body(UPM, "        # Remove occupied positions from", "    def random_position"),
   '''        self.unoccupied = list(filter(lambda door: door[0] not in used, self.unoccupied))
        self.unoccupied.extend(
            (door['offset'], room, door['orientation']) for door in room.get_doorways()
            if self.is_legal(door['offset']) and door['offset'] not in self.occupied
        )

'''),
  (body(UPM, "                # Ensure all room positions are legal", "                return r\n\n    def endcap"),
   '''                cells = r.get_positions()
                if any(not self.is_legal(pos) or pos in self.occupied for pos in cells):
                    continue

'''))
r('b', OBJ,
  (body(OBJ, "            c.texture = [tex, tex, tex", "        else:\n            c.texture = tex"), "            c.texture = [tex] * 6\n"),
  (body(OBJ, "        c.ext.surfaces = [\n            SurfaceInfo(2", "        c.octsav = 35"), "        c.ext.surfaces = [SurfaceInfo(2, 0, 0, 32) for _ in range(6)]\n"),
  (body(OBJ, "        c = [\n            cube.newcube(face=face", "        global ALLOCNODES\n        ALLOC"), "        c = [cls.newcube(face=face, mat=mat) for _ in range(8)]\n"),
  ("        self.faces = [\n            face,\n            face,\n            face\n        ]", "        self.faces = 3 * [face]"))
r('b', MW,
  ("    handle.write(struct.pack('4s', b'VOX '))\n    handle.write(struct.pack('i', 150))\n    handle.write(struct.pack('4s', b'MAIN'))\n", "    handle.write(b'VOX ' + struct.pack('<I', 150) + b'MAIN')\n"),
  ("    handle.write(struct.pack('i', int(voxel_world.xmax) + 1))  # x\n    handle.write(struct.pack('i', int(voxel_world.ymax) + 1))  # y\n    handle.write(struct.pack('i', int(voxel_world.zmax) + 1))  # z\n",
   "    for top in (voxel_world.xmax, voxel_world.ymax, voxel_world.zmax):\n        handle.write((int(top) + 1).to_bytes(4, byteorder='little'))\n"))
r('b', KIT,
  (body(KIT, "        if face == EAST:\n", "    def x_ring"), '''        corner = FineVector(7 if face == EAST else 0, 7 if face == NORTH else 0, 0)
        for sides, shape in (((EAST, WEST), (1, 8, limit_j)), ((NORTH, SOUTH), (8, 1, limit_j))):
            if face in sides:
                yield from self.x_rectangular_prism(offset + corner, FineVector(*shape))

'''),
  (body(KIT, "            if direction == BELOW:\n", "def cube_points"), '''            if direction in (BELOW, ABOVE):
                yield FineVector(i, j, 0 if direction == BELOW else size - 1)
            elif direction in (SOUTH, NORTH):
                yield FineVector(i, size - 1 if direction == NORTH else 0, j)
            elif direction in (WEST, EAST):
                yield FineVector((0, size - 1)[direction == EAST], i, j)


'''))
r('b', PRE,
  (body(PRE, "            mutatedOpts = list(copy", "        else:\n            # From this"), '''            flip = random.randint(0, len(prev._randflags) - 1)
            return {'randflags': [flag != (i == flip) for i, flag in enumerate(prev._randflags)]}
'''),
  (body(PRE, "            opts = []\n            for i in range(number", "    def light"), "            return {'randflags': [random.uniform(0, 1) > 0.5 for _ in range(number_of_options)]}\n\n"),
  ("        la = 1 if self._randflags[0] else 0\n        lb = 1 if self._randflags[1] else 0\n        self.length = 1 + (la << 1 | lb)\n", "        self.length = 1 + 2 * bool(self._randflags[0]) + bool(self._randflags[1])\n"))
r('b', AFT,
  (body(AFT, "    def pos_func(x, y, z):\n", "    for z in tqdm"), "    def pos_func(*point):\n        return [c % size for c in point].count(0) >= 2\n\n"),
  ("    max_height = world.size\n    if height:\n        max_height = height\n    for z in tqdm(range(max_height)):\n        for x in range(world.size):\n            for y in range(world.size):\n                if x == 0", "    for z in tqdm(range(height or world.size)):\n        for x in range(world.size):\n            for y in range(world.size):\n                if x == 0"),
  ("                if x == 0 or y == 0 or z == 0 or x == world.size - 1 or y == world.size - 1 or z == world.size - 1:\n", "                if {0, world.size - 1} & {x, y, z}:\n"))

# -- c: entities, lights, textures, models, command line -----------------------------------------------------------------

r('c', ENT,
  (body(ENT, "        return [self.o.x, self.o.y, self.o.z, str", "    def to_dict"),
   """        head = [*self.o.to_floats(), bytes((self.type.value,))]
        return head + list(map(lambda byte: byte.to_bytes(1, 'big'), self.reserved))

"""),
  (body(ENT, "        data = {\n            'position'", "    @classmethod\n    def from_dict"),
   """        attr = dict(zip(self.attr_annotations, self.attrs))
        if self.type is EntType.ET_WEAPON:
            attr.update(type=WeaponType(attr['type']).name)
        return dict(
            position=[self.o.x, self.o.y, self.o.z], type=self.type.name,
            attr=dict(attr, _order=self.attr_annotations), links=self.links, reserved=self.reserved,
        )

"""),
  (body(ENT, "        attrs = [d['attr'][x] if", "        e = Entity("),
   """        def value(name):
            v = d['attr'][name]
            return WeaponType[v] if isinstance(v, str) else v

        attrs = list(map(value, d['attr']['_order']))
"""))
r('c', RE, ("class ivec3:\n", "class ivec3:\n\n    def to_floats(self):\n        return self.x, self.y, self.z\n"),
  (body(RE, "    def gg(self", "    def dot"), "    def gg(self, idx):\n        for i, axis in enumerate((self.X, self.Y, self.Z)):\n            if i == idx:\n                return axis()\n\n"),
  (body(RE, "        return ivec3(\n            x + ((i & 1)", "    def mask"),
   "        bits = [bool(i & 1 << k) for k in range(3)]\n        return cls(*(c + s if bit else c for c, bit in zip((x, y, z), bits)))\n\n"))
r('c', LIT,
  (body(LIT, "        if autocenter:", "        light = self.get_light"),
   """        pos = position + (TILE_CENTER + HALF_HEIGHT) if autocenter else position
        red, green, blue = colour_override or self.hue(pos)

"""),
  (body(LIT, "        nums = [\n", "        # This should give"),
   """        nums = tuple(c * (2 ** -8.4) for c in pos)
        channels = {}
        for name, base in dict(red=10, grn=0, blu=43).items():
            channels[name] = int(255 * abs(noise.pnoise3(*nums, base=base)))
        hue = colorsys.rgb_to_hsv(channels['red'], channels['grn'], channels['blu'])[0]
        top = int(255 * min(1.0, self.brightness))
        (red, grn, blu) = colorsys.hsv_to_rgb(hue, self.saturation, top)
"""))
r('c', DIS,
  (body(DIS, "        key = (a, b)\n", "    def for_class"),
   """        for key in ((a, b), (b, a)) if self.mirror else ((a, b),):
            if key in self.transition_probabilities:
                return self.transition_probabilities[key]
        raise KeyError("Unknown pair %s %s" % (a, b))

"""),
  (body(DIS, "        filtered = {\n", "class Uniform"),
   """        kind = clsname.room_type
        found = {}
        if self.mirror:
            found.update({k: p for (k, v), p in self.transition_probabilities.items() if v == kind})
        found.update({v: p for (k, v), p in self.transition_probabilities.items() if k == kind})
        return found


"""))
r('c', TEX,
  (body(TEX, "            for idx, (tex_key, tex) in enumerate(self.atlas.items()):\n                handle.write(tex.conf", "    def copy_data"),
   "            handle.writelines(self.atlas[n].conf(idx=n) for n in range(len(self.atlas)))\n\n"),
  (body(TEX, "        filename = map_output_path", "        with open(filename, 'w')"), "        filename = '.cfg'.join(map_output_path.name.split('.mpz'))\n"),
  (body(TEX, "        for idx, (tex_key, tex) in enumerate(self.atlas.items()):\n            if not", "class ThemedTextureManager"),
   """        here = os.path.dirname(os.path.realpath(__file__))
        for tex in self.atlas.values():
            for texfile in (tex.files() if hasattr(tex, 'files') else ()):
                source = os.path.join(here, tex.srcpath, texfile)
                shutil.copy(source, os.path.join(outdir, texfile))


"""),
  (body(TEX, "        for cls in dir(self.textures):", "class Minecraft"),
   """        for name, kind in sorted(vars(self.textures).items()):
            if isinstance(kind, type) and any(base.__module__.startswith('redeclipse.textures.') for base in kind.__bases__):
                self.texref[name.lower()] = kind()


"""))
r('c', BAS,
  (body(BAS, "        conf = \"\"\"setshader bumpspecmapparallaxglowworld", "class BumpSpecMapParallaxGlowWorld"),
   """        lines = ['setshader bumpspecmapparallaxglowworld']
        for name in ('glowcolor', 'specscale', 'parallaxscale'):
            values = getattr(self, name)
            if values:
                lines.append(' '.join(['setshaderparam', name] + [str(v) for v in values]))
        lines.append(f'texture c "{self.basepath}/{self.c}" 0 0 0 0.500000 // {idx} {type(self)}')
        for kind in 'nszg':
            image = getattr(self, kind)
            if image or kind != 'z':
                lines.append('texture %s "%s/%s"' % (kind, self.basepath, image))
        if self.texcolor:
            lines.append('texcolor {} {} {}'.format(*self.texcolor))
        return '\\n'.join(lines) + '\\n'


"""))
r('c', MAG,
  (body(MAG, "        self._colours = {}\n", "        self.__doors = []"),
   """        for vox in self.model.model_voxels.voxels:
            self.vox.set_point(vox.x, vox.y, vox.z, vox.c)
        self._colours = {
            idx: tuple(channel / 255 for channel in (colour.r, colour.g, colour.b))
            for idx, colour in enumerate(self.model.palette.colours)
        }

"""),
  (body(MAG, "        # Now looping over", "    def _get_doorways"),
   """        cells = (CoarseVector(*(c // 8 for c in FineVector(*vox) + offset)) for vox in self.vox.world)
        self.__positions = list(dict.fromkeys(cells))

"""),
  (body(MAG, "        for v in self.vox.world:\n", None),
   """        for v in list(self.vox.world.keys()):
            self.render_individual_voxel(v, world)
        self.render_extra(world, xmap)
"""))
r('c', CLI,
  (body(CLI, "        for room in upm.rooms:", "        json.dump"),
   """        def node(room):
            name = room.name if hasattr(room, 'name') else type(room).__name__
            return dict(id=id(room), name=name, label=name)

        data['nodes'] += map(node, upm.rooms)
        data['links'] += [
            {'type': 'connected', 'source': id(upm.occupied.get(a)), 'target': id(upm.occupied.get(b))}
            for a, b in upm.links
        ]

"""),
  (body(CLI, "            for line in mymap.cfg_extra:", "        mymap.world"),
   "            handle.write(''.join(line + '\\n' for line in mymap.cfg_extra))\n\n"))
r('c', 'worldflavors.py', (body('worldflavors.py', "    if not flavors:", None),
   """    for name in flavors or []:
        world.cfg_extra += globals()[name]()
    return world
"""))

# -- d: placing, rooms, map slots, faces ------------------------------------------------------------------------------
r('d', UPM,
  (body(UPM, "        for orientation in self.mirror_rotations:\n            room_copy", "    def _yield_mirrored_positions"),
   """        middle = CoarseVector(-16, -16, 0)
        for angle in self.mirror_rotations:
            twin = copy.copy(room)
            twin.pos, twin.orientation = (
                room.pos.offset_rotate(angle, offset=middle), room.orientation.rotate(angle)
            )
            yield twin

"""),
  (body(UPM, "        for ((pos_a, ori_a)", "    def register_room"),
   """        ends = [[pos for pos, _ in self._yield_mirrored_positions(room)] for room in (room_a, room_b)]
        self.links.extend(zip(*ends))

"""),
  (body(UPM, "        for roomClass in self.random_room_stream(prev_room, possible_rooms):", "    def _room_cap_debug"),
   """        wanted = prev_room_orientation.rotate(180)
        start = CoarseVector(2, 2, 3)
        for roomClass in self.random_room_stream(prev_room, possible_rooms):
            for orientation in random.sample(CARDINALS, 4):
                kwargs = dict(orientation=orientation, **roomClass.randOpts(prev_room))
                trial = roomClass(pos=start, **kwargs)
                for door in trial.get_doorways():
                    if door['orientation'] != wanted:
                        continue
                    shift = prev_room_door - prev_room_orientation - door['offset']
                    candidate = roomClass(pos=start + shift, **kwargs)
                    if self.preregister_room(candidate):
                        yield candidate

"""),
  (body(UPM, "        with tqdm(total=rooms) as pbar:", None),
   """        pbar = tqdm(total=rooms)
        while room_count < rooms and self.unoccupied:
            door = self.nonrandom_position(self.nrp_flavour_vertical)
            (prev_room_door, prev_room, prev_room_orientation) = door
            r = next(self.room_localization(possible_rooms, prev_room_door, prev_room, prev_room_orientation), None)
            if r is None:
                self.unoccupied = [other for other in self.unoccupied if other != door]
                continue
            self.register_room(r)
            self.register_link(prev_room, r)
            room_count += self.mirror
            pbar.update(self.mirror)
"""),
  (body(UPM, "        if debug:\n            for (pos, typ, ori)", "    def place_rooms"),
   """        for (pos, typ, ori) in tqdm(list(self.unoccupied)):
            if debug:
                if pos in self.occupied:
                    continue
                r = self._room_cap_debug(pos, typ, ori)
            else:
                r = self._room_cap_real(pos, typ, ori, possible_endcaps=possible_endcaps)
            if r is not None:
                self._register_room(r)

"""))
r('d', INIT,
  (body(INIT, "        vs.changed = changed\n", "    def _loadchildren"),
   """        vs.changed = changed
        read_int, read_float = self._read_int, self._read_float

        def has(kind):
            return changed >> kind.value & 1

        if has(VTYPE.VSLOT_SHPARAM):
            flags = self._read_ushort()
            for i in range(flags & 0x7FFF):
                nlen = self._read_ushort()
                if nlen >= MAXSTRLEN:
                    sys.exit()
                self._read_str(nlen, null=False)
                self._read_custom('4f', 16)
                if flags >> 15:
                    self._read_custom('2i', 8)
        for kind, names, read in (
            (VTYPE.VSLOT_SCALE, 'scale', read_float),
            (VTYPE.VSLOT_ROTATION, 'rotation', read_int),
            (VTYPE.VSLOT_OFFSET, ivec2, read_int),
            (VTYPE.VSLOT_SCROLL, vec2, read_float),
            (VTYPE.VSLOT_LAYER, 'layer', read_int),
            (VTYPE.VSLOT_ALPHA, 'alphafront alphaback', read_float),
            (VTYPE.VSLOT_COLOR, vec3, read_float),
            (VTYPE.VSLOT_PALETTE, 'palette palindex', read_int),
            (VTYPE.VSLOT_COAST, 'coastscale', read_float),
        ):
            if not has(kind):
                continue
            if isinstance(names, str):
                for name in names.split():
                    setattr(vs, name, read())
            elif names is vec3:
                vs.colorscale = vec3(read(), read(), read())
            else:
                setattr(vs, 'offset' if names is ivec2 else 'scroll', names(read(), read()))

"""),
  (body(INIT, "        while numvslots > 0:", "        for vslot, before"),
   """        while len(vslots) < numvslots:
            changed = self._read_int()
            chg.append(changed)
            if changed < 0:
                vslots += [VSlot(None, len(vslots) + i) for i in range(-changed)]
                continue
            slot = VSlot(None, len(vslots))
            prev[len(vslots)] = self._read_int()
            vslots.append(slot)
            self._loadvslot(slot, changed)

"""),
  (body(INIT, "                    self._write_char(handle, surfinfo.lmid[0])", "                    if surfinfo.verts == 0:"),
   "                    handle.write(bytes(surfinfo.lmid) + bytes((surfinfo.verts, surfinfo.numverts)))\n\n"),
  (body(INIT, "            for i in range(6):\n                if not c.surfmask", "                    surfinfo = c.ext"),
   "            for i in range(6):\n                if c.surfmask >> i & 1:\n"))
r('d', OBJ,
  (body(OBJ, "        if orient == 0:\n            return [", "    @classmethod\n    def validatec"),
   """        corners = (
            ('30', '51', 'a1'), ('10', '41', 'a0'), ('00', '40', '80'), ('20', '50', '81'),
        ), (
            ('31', '71', 'b1'), ('21', '70', '91'), ('01', '60', '90'), ('11', '61', 'b0'),
        ), (
            ('21', '70', '91'), ('20', '50', '81'), ('00', '40', '80'), ('01', '60', '90'),
        ), (
            ('10', '41', 'a0'), ('30', '51', 'a1'), ('31', '71', 'b1'), ('11', '61', 'b0'),
        ), (
            ('00', '40', '80'), ('10', '41', 'a0'), ('11', '61', 'b0'), ('01', '60', '90'),
        ), (
            ('20', '50', '81'), ('21', '70', '91'), ('31', '71', 'b1'), ('30', '51', 'a1'),
        )

        def end(spec):
            edge = self.edges[int(spec[0], 16)]
            return edge // 16 if spec[1] == '1' else edge % 16

        return [ivec3(*[end(spec) for spec in corner]) for corner in corners[orient]]

"""))
r('d', PRE,
  (body(PRE, "        for z in range(self._height):\n            positions += [", "    def light"),
   """        for z in range(self._height):
            for y in (1, 0, -1):
                for x in (-1, 0, 1):
                    positions.append(CoarseVector(x, y, z))
        return positions

"""),
  (body(PRE, "        self.x('rectangular_prism', world, FineVector(0, 0, 0), FineVector(1, 8, 1), tex=floor_tex)\n        self.x('rectangular_prism', world, FineVector(1, 0, 1)", "        # if self._randflags[0]:\n        # self.x"),
   """        for step in range(8):
            self.x('rectangular_prism', world, FineVector(step, 0, step), FineVector(1, 8, 1), tex=floor_tex)

"""),
  (body(PRE, "        # Walls\n        for i in range(1, self.length + 1):", "        # Red markers"),
   """        for level in [ABOVE * (i + 1) for i in range(self.length)]:
            for side in (NORTH, SOUTH, EAST, WEST):
                self.x('wall', world, level, face=side, tex=wall_tex)

        self.x('ring', world, ABOVE * (self.length + 1), 8, tex=accent_tex)

"""),
  (body(PRE, "        self.x('rectangular_prism', world, FineVector(7, 7, 0), box_size(), tex=TEX", "    def light(self, xmap):\n        light = Light(\n            xyz=self.pos + FineVector(3, 4, 7)"),
   """        for corner in ((7, 7, 0), (-5, 7, 0), (7, -5, 0), (-5, -5, 0)):
            size = box_size()
            self.x('rectangular_prism', world, FineVector(*corner), size, tex=TEXMAN.get_c('accent'))

"""),
  (body(PRE, "        return [\n            {\n                'orientation': q['orient", "    def _get_positions"),
   """        doors = []
        for door in self._get_doorways():
            turned = {key: vec.rotate(self.orientation) for key, vec in door.items()}
            turned['offset'] = turned['offset'] + self.pos
            doors.append(turned)
        return doors

"""))
r('d', AFT,
  (body(AFT, "        for offset in cube_points(8, 8, 8):", None),
   """        (x, y, z) = pos.fine()
        for i in range(512):
            world.set_point(x + i % 8, y + i // 8 % 8, z + i // 64, cube.newtexcube(tex=2))
"""),
  (body(AFT, "                if random.random() > position_function(x, y, z):\n                    if not world", "def box(world"),
   """                grow = random.random() > position_function(x, y, z)
                if grow and world.get_point(x, y, z) is None:
                    world.set_point(x, y, z, cube.newtexcube(tex=2))


"""))

# -- e: the smaller tools --------------------------------------------------------------------------------------------
PER, INF, SKY, TOJ, ISO = 'cli/perlin.py', 'cli/magicavoxel_info.py', 'skybox/__init__.py', 'cli/to_json.py', 'cli/iso.py'
r('e', PER,
  (body(PER, '    treeDensityMap = {}\n', '    def point('),
   """    def noisy(i, j, seed):
        return noise.pnoise2(j / noise_scaling, i / noise_scaling, octaves=2, base=MAP_SEED + seed)

    def wanted(level, share):
        return level < -0.1 and random.random() < abs(level) / share

    trees = {(i, j) for i in range(IJ_SIZE) for j in range(IJ_SIZE) if wanted(noisy(i, j, 128), 4)}
    houses = set()
    for i in range(0, IJ_SIZE // 4):
        for j in range(0, IJ_SIZE // 4):
            if not wanted(noisy(i, j, 64), 3):
                continue
            for n in range(16):
                houses.add((4 * i + n // 4, 4 * j + n % 4))

"""),
  (body(PER, '    def point(', '    mymap.world = v'),
   """    def ground(i, j):
        return 30 + 5 * noise.pnoise2(i / noise_scaling, j / noise_scaling, octaves=octaves, base=MAP_SEED)

    for i in range(IJ_SIZE):
        for j in range(IJ_SIZE):
            level = ground(i, j)
            tree = (i, j) in trees
            for k in range(K_SIZE):
                if tree:
                    tex = [58] * 4 + [59] * 2
                elif k < level:
                    tex = [23, 23, 23, 23, 22, 61]
                elif (i, j) in houses and k - level < 4:
                    tex = [57] * 6
                else:
                    break
                v.set_point(i, j, k, cube.newtexcube(tex=tex))

"""))
r('e', INF,
  (body(INF, "    classname = ", '    for z in range'),
   """    (classname, _) = os.path.splitext(os.path.split(mv_in)[1])

    print("Model: {}".format(classname))
    world = VoxelWorld()
    for vox in model.model_voxels.voxels:
        world.set_point(vox.x, vox.y, vox.z, vox.c)
    ranges = ["{} in [{}, {}]".format(axis, getattr(world, axis + 'min'), getattr(world, axis + 'max')) for axis in 'xyz']
    print("Model boundaries: " + "; ".join(ranges))

    print("Pallette")
    for idx, colour in enumerate(model.palette.colours):
        rgb = (colour.r, colour.g, colour.b)
        if any(rgb):
            print("C[%d] = (%d, %d, %d)" % ((idx,) + rgb))

"""),
  (body(INF, "        sys.stdout.write('0-'", "if __name__"),
   """        print('0-' + 'x' * 8 + '+')
        print('- ' + ' ' * 8)
        for x in range(world.xmin, world.xmax + 1):
            row = ''.join(' ' if world.get_point(x, y, z) is None else '#' for y in range(world.ymin, world.ymax + 1))
            print('y ' + row)
        print('+')


"""))
r('e', SKY,
  (body(SKY, "        self.basedir = ", '    def get_short_path'),
   """        self.basedir = os.path.join(redeclipse_basedir, 'data', 'hxr')
        self.skydir = os.path.join(self.basedir, 'skybox')
        os.makedirs(self.skydir, exist_ok=True)
        self._install()

    def _install(self):
        here = os.path.dirname(os.path.abspath(__file__))
        for name in self.get_files():
            shutil.copyfile(os.path.join(here, name), os.path.join(self.skydir, name))

    def get_files(self):
        faces = (self.back_ext, self.down_ext, self.front_ext, self.left_ext, self.right_ext, self.up_ext)
        return [self.basename + ext for ext in faces]

"""))
r('e', TOJ,
  (body(TOJ, "    mymap = parse", "if __name__"),
   """    data = parse(args.input).to_dict()
    if args.section:
        data = data[args.section]
    json.dump(data, sys.stdout, iterable_as_array=True)


"""))
r('e', ISO, ("    m = parse(args.input)\n    m.write(args.output)", "    parse(args.input).write(args.output)"))



def run(name, edits, ids):
    tmp = tempfile.mkdtemp(prefix='rewrites-')
    repo = os.path.join(tmp, 'repo')
    subprocess.check_call(['cp', '-a', '/repo', repo])
    try:
        for path, pairs in edits:
            p = os.path.join(repo, 'redeclipse', path)
            s = open(p).read()
            for old, new in pairs:
                if s.count(old) != 1:
                    print('%s: %d times in %s: %r' % (name, s.count(old), path, old[:80]))
                s = s.replace(old, new)
            open(p, 'w').write(s)
        t = subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--hypothesis-profile=ci',
                            '-o', 'python_files=test_*.py *_test.py hyp_*.py', 'tests'], cwd=repo, capture_output=True, text=True)
        print('== %s: tests: %s' % (name, t.stdout.strip().splitlines()[-1]), flush=True)
        if t.returncode:
            print(t.stdout[-3000:])
        for i in ids:
            c = subprocess.run(['python3-vt', 'run.py', i], cwd=VERIF, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=repo))
            if c.returncode or 'INCOMPLETE' in c.stdout:
                print('%s %s rc=%d\n%s' % (name, i, c.returncode, (c.stdout + c.stderr)[-1800:]), flush=True)
    finally:
        shutil.rmtree(tmp)


def main():
    ids = sys.argv[2:] or [c['property'] for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']]
    for g in (sorted(G) if sys.argv[1] == 'all' else sys.argv[1].split(',')):
        run(g, G[g], ids)


if __name__ == '__main__':
    main()
