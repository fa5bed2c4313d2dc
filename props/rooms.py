"""Rooms: where each room class of the repository builds, opens and puts things."""
import random
import redeclipse.prefabs as prefabs
import redeclipse.prefabs.magica as magica
import redeclipse.prefabs.construction_kit as kit_module
import redeclipse.prefabs.castle as castle
import redeclipse.prefabs.dungeon as dungeon
import redeclipse.prefabs.egypt as egypt
import redeclipse.prefabs.original as original
import redeclipse.prefabs.spacestation as spacestation
from redeclipse.enums import EntType
from redeclipse.lighting import LightManager
from redeclipse.upm import UnusedPositionManager
from redeclipse.vector import CoarseVector, FineVector
from redeclipse.vector.orientations import NORTH, SOUTH, EAST, WEST
from redeclipse.voxel import VoxelWorld

DIRS = {'E': EAST, 'N': NORTH, 'W': WEST, 'S': SOUTH}
TURNS = {'E': 0, 'N': 1, 'W': 2, 'S': 3}
STEP = {'E': (1, 0, 0), 'N': (0, 1, 0), 'W': (-1, 0, 0), 'S': (0, -1, 0)}
MODULES = {'': prefabs, 'castle': castle, 'dungeon': dungeon, 'egypt': egypt, 'original': original, 'spacestation': spacestation}
COLOURS = {'floor': 11, 'ceiling': 12, 'wall': 13, 'column': 14, 'accent': 15}


class Textures(object):
    """Texture manager of the harness: one index per category or colour."""
    def get_c(self, category):
        return COLOURS[category]

    def get_colour(self, r, g, b):
        return 100 + int(r * 255) * 65536 + int(g * 255) * 256 + int(b * 255)


class Draws(object):
    """Random numbers of the harness: the same on every rendering, and the integers any the code may draw."""
    def __init__(self, ctx, pattern, share):
        self.ctx, self.pattern, self.share = ctx, pattern, share
        self.ints, self.picks = {}, {}
        self.rewind()

    def rewind(self):
        self.reals = self.whole = self.picked = 0

    def random(self):
        self.reals += 1
        return self.pattern[self.reals % len(self.pattern)]

    def randint(self, a, b):
        if isinstance(a, float) or isinstance(b, float):
            raise TypeError("'float' object cannot be interpreted as an integer")
        if a > b:
            raise ValueError('empty range for randrange()')
        k = (self.whole % self.share, a, b)
        self.whole += 1
        if k not in self.ints:
            self.ints[k] = self.ctx.int('drawn%d_%d_%d' % k, a, b)
        return self.ints[k]

    def choice(self, s):
        k = self.picked
        self.picked += 1
        if k not in self.picks:
            self.picks[k] = self.ctx.choice('pick%d' % k, list(range(len(s))))
        return s[self.picks[k]]

    def uniform(self, a, b):
        return a + (b - a) * self.random()


class Lowest(Draws):
    """Fixed draws."""
    def __init__(self, pattern):
        Draws.__init__(self, None, pattern, 1)

    def randint(self, a, b):
        return a

    def choice(self, s):
        return s[0]


PATTERNS = {'none': [0.9999], 'few': [0.99] * 12 + [0.01], 'all': [0.0], 'some': [0.04, 0.99, 0.5, 0.01, 0.7, 0.2, 0.85]}


class Listing(object):
    """A map as far as rooms use it: a list of entities."""
    def __init__(self):
        self.ents = []


class Watched(VoxelWorld):
    """A world that remembers every position written or deleted."""
    def __init__(self):
        VoxelWorld.__init__(self, size=256)
        self.touched = []
        for c in (-99999, 99999):
            VoxelWorld.set_point(self, c, c, c, 'far')

    depth = 0

    def note(self, at, data, method, *args):
        # one method may be built upon another
        self.depth += 1
        try:
            if self.depth == 1:
                self.touched.append((at[0], at[1], at[2], data))
            return method(self, *args)
        finally:
            self.depth -= 1

    def set_point(self, x, y, z, data):
        return self.note((x, y, z), data, VoxelWorld.set_point, x, y, z, data)

    def set_pointv(self, xyz, data):
        return self.note(tuple(xyz), data, VoxelWorld.set_pointv, xyz, data)

    def del_point(self, x, y, z):
        return self.note((x, y, z), None, VoxelWorld.del_point, x, y, z)

    def del_pointv(self, xyz):
        return self.note(tuple(xyz), None, VoxelWorld.del_pointv, xyz)


class Stage(object):
    """The repository's modules with the harness's textures, lights and random numbers."""
    def __init__(self, draws):
        self.draws = draws

    def __enter__(self):
        self.old = []
        put = {'TEXMAN': Textures(), 'LIGHTMAN': LightManager(world_size=256), 'random': self.draws}
        for m in list(MODULES.values()) + [magica, kit_module]:
            for k, v in put.items():
                if hasattr(m, k):
                    self.old.append((m, k, getattr(m, k)))
                    setattr(m, k, v)
        return self

    def __exit__(self, *a):
        for m, k, v in self.old:
            setattr(m, k, v)


def room_class(name):
    mod, _, cls = name.rpartition('.')
    return getattr(MODULES[mod], cls)


def flags_of(ctx, cls, given):
    """Flags for a room: those of the configuration, either value for the ones it leaves open."""
    f = getattr(cls, '_randflags', None)
    if f is None:
        return None
    given = list(given or [None] * len(f))
    return [ctx.choice('flag%d' % i, [False, True]) if g is None else bool(g) for i, g in enumerate(given)]


def make(cls, pos, orientation, flags):
    return cls(CoarseVector(*pos), orientation=DIRS[orientation], randflags=flags)


def meanwhile(cls, facing, fl, draws=None):
    """Another room of the class, with every flag the other way, is made elsewhere, facing elsewhere, and built if draws are given."""
    other = make(cls, (21, 3, 6), 'ENWS'['ENWS'.index(facing) - 1], None if fl is None else [not f for f in fl])
    other.get_positions(), other.get_doorways()
    if draws is not None:
        with Stage(Lowest(draws.pattern)):
            other.render(Watched(), Listing())


def turned(p, turns, centre):
    """(x, y, z) after quarter turns counterclockwise: cells (0), voxels (-1) and points (8) of a tile."""
    x, y, z = p
    for _ in range(turns):
        x, y = centre - y, x
    return (x, y, z)


CELL, VOXEL, POINT = 0, 7, 8


def whole(ctx, v):
    """The integer a value always is."""
    return int(ctx.fix(v))


def draws_of(ctx, pattern, share):
    return Draws(ctx, PATTERNS[pattern], share)


def anywhere(ctx):
    return [ctx.int('p' + c, -8, 40) for c in 'xyz']


def local_cells(ctx, room, pos):
    return [tuple(whole(ctx, a - b) for a, b in zip(c, pos)) for c in room.get_positions()]


def inside(ctx, names, facings, flags=None, pattern='all', share=1, alone=False):
    """A room writes and deletes voxels of its own cells only, and its lights and entities stand in their columns."""
    name = ctx.choice('room', names)
    facing = ctx.choice('facing', list(facings))
    cls = room_class(name)
    pos = anywhere(ctx)
    fl = flags_of(ctx, cls, flags)
    draws = draws_of(ctx, pattern, share)
    with Stage(draws):
        room = make(cls, pos, facing, fl)
        cells = set(local_cells(ctx, room, pos))
        if not alone:
            meanwhile(cls, facing, fl, draws)
        world, xmap = Watched(), Listing()
        doors = len(room.get_doorways())
        room.render(world, xmap)
        ctx.check(set(local_cells(ctx, room, pos)) == cells and len(room.get_doorways()) == doors, 'a room has the same cells and doors once it is built')
    for x, y, z, _ in world.touched:
        v = [whole(ctx, a - 8 * b) for a, b in zip((x, y, z), pos)]
        ctx.check(tuple(a // 8 for a in v) in cells, 'a room changes voxels of its own cells only')
    ctx.check(len(world.touched) > 0, 'a room builds something')
    columns = set(c[:2] for c in cells)
    low = min(c[2] for c in cells)
    for e in xmap.ents:
        x, y, z = [(a - 32 * b) / 4 for a, b in zip((e.o.x, e.o.y, e.o.z), pos)]
        ctx.check(ctx.any(*[ctx.all(x >= 8 * cx, x <= 8 * cx + 8, y >= 8 * cy, y <= 8 * cy + 8) for cx, cy in columns]),
                  'lights and entities stand within the room')
        ctx.check(z >= 8 * low, 'lights and entities are not below the room')
        ctx.reach('light' if e.type == EntType.ET_LIGHT else 'entity')
    ctx.observe('touched', len(world.touched))
    ctx.observe('entities', len(xmap.ents))
    ctx.reach('end')


def laid_out(ctx, names, facings, flags=None):
    """Cells and doors of a room: distinct cells, every door leads straight out of one of them."""
    name = ctx.choice('room', names)
    facing = ctx.choice('facing', list(facings))
    cls = room_class(name)
    pos = anywhere(ctx)
    fl = flags_of(ctx, cls, flags)
    room = make(cls, pos, facing, fl)
    meanwhile(cls, facing, fl)
    flat = make(cls, [0, 0, 0], 'E', fl)
    cells = local_cells(ctx, room, pos)
    ctx.check(len(set(cells)) == len(cells) and len(cells) > 0, 'the cells of a room are distinct')
    start = local_cells(ctx, flat, [0, 0, 0])
    t = TURNS[facing]
    ctx.check(sorted(cells) == sorted(turned(c, t, CELL) for c in start), 'the cells of a room turn with it')
    doors = []
    for d in room.get_doorways():
        step = tuple(whole(ctx, c) for c in d['orientation'])
        at = tuple(whole(ctx, a - b) for a, b in zip(d['offset'], pos))
        ctx.check(step in STEP.values(), 'a door faces one of the four directions')
        ctx.check(at not in cells, 'a door leads out of the room')
        x, y, z = [a - b for a, b in zip(at, step)]
        ctx.check((x, y, z) in cells or (x, y, z - 1) in cells, 'a door leads out of a cell of the room or off its top')
        doors.append((at, step))
    want = [(tuple(whole(ctx, a) for a in d['offset']), tuple(whole(ctx, a) for a in d['orientation'])) for d in flat.get_doorways()]
    ctx.check(sorted(doors) == sorted((turned(a, t, CELL), turned(s, t, CELL)) for a, s in want), 'the doors of a room turn with it')
    ctx.check(len(doors) > 0 and len(set(doors)) == len(doors), 'the doors of a room are distinct')
    ctx.observe('doors', len(doors))
    ctx.reach('end')


def picture(ctx, room, pos):
    world, xmap = Watched(), Listing()
    room.render(world, xmap)
    got = {}
    for x, y, z, data in world.touched:
        got[tuple(whole(ctx, a - 8 * b) for a, b in zip((x, y, z), pos))] = data
    return got, xmap.ents


def same_block(a, b):
    if a is None or b is None:
        return a is b
    return list(a.texture) == list(b.texture) and list(a.edges) == list(b.edges)


def turns(ctx, names, facings, flags=None, pattern='all', share=1, coloured=True, alone=False):
    """A room placed anywhere in any direction is the same room, moved and turned."""
    name = ctx.choice('room', names)
    facing = ctx.choice('facing', list(facings))
    cls = room_class(name)
    pos = anywhere(ctx)
    fl = flags_of(ctx, cls, flags)
    draws = draws_of(ctx, pattern, share)
    with Stage(draws):
        room = make(cls, pos, facing, fl)
        if not alone:
            meanwhile(cls, facing, fl, draws)
        a, ents = picture(ctx, room, pos)
        draws.rewind()
        b, ents0 = picture(ctx, make(cls, [0, 0, 0], 'E', fl), [0, 0, 0])
    t = TURNS[facing]
    want = {turned(v, t, VOXEL): d for v, d in b.items()}
    ctx.check(sorted(a) == sorted(want), 'the voxels a room changes turn with it')
    for v, d in want.items():
        if pattern == 'some':
            continue        # which voxels are left out depends on the order they are drawn in
        if coloured:
            ctx.check(same_block(a[v], d), 'what a room builds turns with it')
        else:
            ctx.check((a[v] is None) == (d is None), 'what a room builds turns with it')
    ctx.check([e.type for e in ents] == [e.type for e in ents0], 'the same kinds of entities')
    for e, e0 in zip(ents, ents0):
        at = [(p - 32 * q) / 4 for p, q in zip((e.o.x, e.o.y, e.o.z), pos)]
        old = [c / 4 for c in (e0.o.x, e0.o.y, e0.o.z)]
        if e.type != EntType.ET_LIGHT:
            ctx.check(ctx.eq(at, list(turned(old, t, POINT))), 'entities turn with the room')
            ctx.reach('entity')
        if e.type == EntType.ET_MAPMODEL:
            ctx.check(e.attrs[1] == (e0.attrs[1] + 90 * t) % 360, 'models turn with the room')
        if e.type == EntType.ET_PUSHER:
            ctx.check(e.attrs[0] == (e0.attrs[0] + 90 * t) % 360, 'what a pusher pushes towards turns with the room')
            ctx.check(list(e.attrs[1:]) == list(e0.attrs[1:]), 'a pusher is as strong in every direction')
    ctx.observe('voxels', len(a))
    ctx.reach('end')


def mirrored(ctx, names, facings, mirror, flags=None, pattern='all', share=1):
    """A room of the repository in a mirrored map: every copy is the same room, in its place and turned to it."""
    name = ctx.choice('room', names)
    facing = ctx.choice('facing', list(facings))
    cls = room_class(name)
    pos = [ctx.int('px', 22, 26), ctx.int('py', 5, 9), ctx.int('pz', 2, 20)]     # a quarter of the map of its own
    fl = flags_of(ctx, cls, flags)
    draws = draws_of(ctx, pattern, share)
    u = UnusedPositionManager(256, mirror=mirror)
    with Stage(draws):
        room = make(cls, pos, facing, fl)
        ctx.check(u.preregister_room(room), 'there is place for the room')
        u.register_room(room)
        meanwhile(cls, facing, fl)
        ctx.check(len(u.rooms) == mirror, 'one copy of the room per mirrored place')
        cells = local_cells(ctx, room, pos)
        doors = [(tuple(whole(ctx, a - b) for a, b in zip(d['offset'], pos)), tuple(d['orientation'])) for d in room.get_doorways()]
        draws.rewind()
        a, ents = picture(ctx, room, pos)
        for k, g in enumerate(u.rooms):
            n = k * (4 // mirror)
            at = turned([pos[0] - 16, pos[1] - 16, pos[2]], n, CELL)
            at = [at[0] + 16, at[1] + 16, at[2]]
            ctx.check(set(local_cells(ctx, g, at)) == {turned(c, n, CELL) for c in cells}, 'a copy takes the mirrored cells')
            got = [(tuple(whole(ctx, p - q) for p, q in zip(d['offset'], at)), tuple(d['orientation'])) for d in g.get_doorways()]
            ctx.check(sorted(got) == sorted((turned(c, n, CELL), turned(o, n, CELL)) for c, o in doors), 'a copy has the mirrored doors')
            draws.rewind()
            b, ents0 = picture(ctx, g, at)
            want = {turned(v, n, VOXEL): d for v, d in a.items()}
            ctx.check(sorted(b) == sorted(want), 'a copy changes the mirrored voxels')
            ctx.check(all(same_block(b[v], d) for v, d in want.items()), 'a copy is built of the same blocks')
            ctx.check([e.type for e in ents] == [e.type for e in ents0], 'a copy has the same kinds of entities')
    ctx.reach('end')


FLAGGED = ['NLongCorridor', 'Corridor2way', 'JumpCorridorVertical', 'JumpCorridorVerticalCenter', 'Corridor4way', 'SpawnRoom', 'PoleRoom',
           'ImposingBlockRoom', 'ImposingRingRoom', 'AltarRoom', 'Stair', 'CrossingWalkways', 'MultiPlatform', 'DigitalRoom']


def mutated(ctx, names):
    """A room after one of its own class differs from it in exactly one flag, and it can be any."""
    name = ctx.choice('room', names)
    cls = room_class(name)
    n = len(cls._randflags)
    before = list(cls._randflags)
    fl = [ctx.choice('flag%d' % i, [False, True]) for i in range(n)]
    prev = cls(CoarseVector(1, 2, 3), orientation=EAST, randflags=list(fl))
    ctx.check(list(prev._randflags) == fl, 'a room has the flags it is given')
    opts = cls.randOpts(prev)
    got = list(opts['randflags'])
    ctx.check(len(got) == n and all(f in (True, False) for f in got), 'one flag of either value for each option')
    diff = [i for i in range(n) if got[i] != fl[i]]
    ctx.check(len(diff) == 1, 'exactly one flag is toggled')
    ctx.reach('%s-%d' % (name, diff[0] if diff else -1))
    ctx.check(list(prev._randflags) == fl and list(cls._randflags) == before, 'the previous room and the class keep their flags')
    room = cls(CoarseVector(1, 2, 3), orientation=NORTH, **opts)
    ctx.check(list(room._randflags) == got, 'the room made from the options has those flags')
    ctx.reach('end')


def drawn(ctx, name, after):
    """A room after one of another class gets flags of its own draw: every combination can come up."""
    cls = room_class(name)
    n = len(cls._randflags)
    before = list(cls._randflags)
    prev = room_class(after)(CoarseVector(1, 2, 3), orientation=EAST)
    was = list(getattr(prev, '_randflags', []))
    opts = cls.randOpts(prev)
    got = list(opts['randflags'])
    ctx.check(len(got) == n and all(f in (True, False) for f in got), 'one flag of either value for each option')
    ctx.check(list(getattr(prev, '_randflags', [])) == was and list(cls._randflags) == before, 'the previous room and the class keep their flags')
    room = cls(CoarseVector(1, 2, 3), orientation=SOUTH, **opts)
    ctx.check(list(room._randflags) == got, 'the room made from the options has those flags')
    other = cls(CoarseVector(1, 2, 3), orientation=SOUTH)
    ctx.check(list(other._randflags) == before, 'a room made without options has the flags of its class')
    ctx.reach(''.join('T' if f else 'F' for f in got))
    ctx.reach('end')


def plain(ctx, names, after):
    """A class without flags has no options, whatever came before."""
    cls = room_class(ctx.choice('room', names))
    prev = room_class(ctx.choice('after', after))(CoarseVector(0, 0, 0))
    ctx.check(dict(cls.randOpts(prev)) == {}, 'a class without flags has no options')
    ctx.reach('end')


class Asked(Textures):
    """Texture manager that numbers the colours in the order they are asked for."""
    def __init__(self):
        self.colours = []

    def get_colour(self, r, g, b):
        self.colours.append((r, g, b))
        return 1000 + len(self.colours) - 1


def vox_file(ctx, voxels, palette):
    """A MagicaVoxel file of the given voxels (x, y, z, colour) and 256 colours (r, g, b or r, g, b, a)."""
    parts = [b'VOX ', ctx.pack('<i', 150), b'MAIN', ctx.pack('<ii', 0, 24 + 16 + 4 * len(voxels) + 12 + 1024),
             b'SIZE', ctx.pack('<iiiii', 12, 0, 24, 24, 24), b'XYZI', ctx.pack('<iii', 4 + 4 * len(voxels), 0, len(voxels))]
    parts += [ctx.pack('<BBBB', *v) for v in voxels]
    parts += [b'RGBA', ctx.pack('<ii', 1024, 0)] + [ctx.pack('<BBBB', c[0], c[1], c[2], c[3] if len(c) > 3 else 255) for c in palette]
    return ctx.join(parts)


class Places(object):
    """Places, those without unknowns looked up directly."""

    def __init__(self, ctx, ps):
        self.ctx = ctx
        self.fixed, self.open = set(), []
        for p in ps:
            p = list(p)
            if self.plain(p):
                self.fixed.add(tuple(p))
            else:
                self.open.append(p)

    def plain(self, p):
        return all(type(c) in (int, float) for c in p)

    def has(self, p):
        p = list(p)
        if self.plain(p):
            if tuple(p) in self.fixed:
                return True
            return self.ctx.any(*[self.ctx.eq(p, q) for q in self.open])
        return self.ctx.any(*[self.ctx.eq(p, q) for q in self.open], *[self.ctx.eq(p, list(q)) for q in self.fixed])


def modelled(ctx, count, facing, colours, west=0, south=0, more=0, within=None, earlier=False, base=0, alpha=False):
    """A model room builds exactly its model: every voxel in its place, turned, in its colour of the file's palette."""
    vs = [[ctx.int('%s%d' % (k, i), *((0, 23) if within is None else within[k])) for k in 'xyz'] + [ctx.int('c%d' % i, base + 1, base + colours)] for i in range(count)]
    for i in range(count):
        for j in range(i):
            ctx.assume(ctx.any(*[vs[i][k] != vs[j][k] for k in range(3)]))
    fixed = [(i % 11, i // 11 % 9, i // 99, base + i % colours + 1) for i in range(more)]
    vs[len(vs) // 2:len(vs) // 2] = fixed
    palette = [(i, 255 - i, i // 2) for i in range(256)]
    for i in range(base + 1, base + colours + 1):
        palette[i] = [ctx.int('%s%d' % (k, i), 0, 255) for k in ('rgba' if alpha else 'rgb')]
    path = ctx.path('model.vox')
    ctx.write_file(path, vox_file(ctx, vs, palette), gz=False)
    pos = anywhere(ctx) if not more else (3, 4, ctx.choice('up', [0, 5]))
    if earlier:
        # a model of the same name from another folder, used before
        other = ctx.path('other/model.vox')
        ctx.write_file(other, vox_file(ctx, [(1, 2, 3, 1), (9, 9, 9, 2)], [(7, i, 9) for i in range(256)]), gz=False)

        class Model(magica.MagicaRoom):
            name = 'model'
            vox_file = other
        with Stage(Draws(ctx, [0.5], 1)):
            magica.TEXMAN = Asked()
            first = Model(CoarseVector(1, 1, 1), orientation=DIRS['E'])
            first.render(Watched(), Listing())

    class Model(magica.MagicaRoom):
        name = 'model'
        vox_file = path
        boundary_additions = {k: v for k, v in (('WEST', west), ('SOUTH', south)) if v}
    asked = Asked()
    with Stage(Draws(ctx, [0.5], 1)):
        magica.TEXMAN = asked
        room = Model(CoarseVector(*pos), orientation=DIRS[facing])
        world, xmap = Watched(), Listing()
        room.render(world, xmap)
        cells = room.get_positions()
    t = TURNS[facing]
    want = []
    for x, y, z, c in vs:
        v = turned((x + west, y + south, z), t, VOXEL)
        want.append([8 * p + a for p, a in zip(pos, v)] + [c])
    built = [w[:3] for w in world.touched]
    held = Places(ctx, [v[:3] for v in want])
    for w in built:
        ctx.check(held.has(w), 'every voxel of the room is one of the model')
    held = Places(ctx, built)
    inside = Places(ctx, cells)
    for x, y, z, c in want:
        ctx.check(held.has([x, y, z]), 'every voxel of the model is built in its place')
        block = world.get_point(x, y, z)
        ctx.check(block is not None, 'every voxel of the model is there')
        col = asked.colours[block.texture[0] - 1000]
        for i in range(base + 1, base + colours + 1):
            if type(c) is int and c != i:
                continue
            ctx.check(ctx.implies(c == i, ctx.all(*[a * 255 > b - 0.01 for a, b in zip(col, palette[i][:3])] + [a * 255 < b + 0.01 for a, b in zip(col, palette[i][:3])])),
                      'a voxel of the model has its colour')
        ctx.check(all(k == block.texture[0] for k in block.texture), 'a voxel has one colour')
        ctx.check(inside.has([x // 8, y // 8, z // 8]), 'every voxel lies in a cell of the room')
    for c in cells:
        ctx.check(ctx.any(*[ctx.eq([v[0] // 8, v[1] // 8, v[2] // 8], list(c)) for v in want]), 'every cell of the room has a voxel of the model')
    for i in range(len(cells)):
        for j in range(i):
            ctx.check(ctx.any(*[cells[i][k] != cells[j][k] for k in range(3)]), 'the cells of a room are distinct')
    ctx.reach('end')
