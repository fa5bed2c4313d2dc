"""Placing rooms: the position manager, with rooms of the harness and of the repository."""
import random
import redeclipse.upm as upm_module
from redeclipse.upm import UnusedPositionManager
from redeclipse.prefabs import Room
from redeclipse.vector import CoarseVector, FineVector
from redeclipse.vector.orientations import NORTH, SOUTH, EAST, WEST, ABOVE, BELOW, SELF

DIRS = {'E': EAST, 'N': NORTH, 'W': WEST, 'S': SOUTH}
ORDER = 'ENWS'
STEP = {'E': (1, 0, 0), 'N': (0, 1, 0), 'W': (-1, 0, 0), 'S': (0, -1, 0)}
LIMIT = 32          # cells from side to side of a map of 256 voxels


def cv(p):
    return CoarseVector(*p)


def room_class(kind, cells, doors, tp=None, kind_of='hallway'):
    """A room class for the manager, from its cells and doors."""
    class R(Room):
        room_type = kind_of
        name = kind

        def __init__(self, pos, orientation=EAST, randflags=None):
            self.pos = CoarseVector(*pos)
            self.orientation = orientation

        def get_transition_probs(self):
            return tp or {}

        def _get_positions(self):
            return [cv(c) for c in cells]

        def _get_doorways(self):
            return [{'orientation': DIRS[d], 'offset': cv(c) + DIRS[d]} for c, d in doors]
    R.__name__ = kind
    R.KIND, R.CELLS, R.DOORS = kind, cells, doors
    return R


class Flagged(Room):
    """A hallway of one or two cells, by its flag."""
    KIND = 'flag'
    room_type = 'hallway'
    _randflags = (True,)

    def __init__(self, pos, orientation=EAST, randflags=None):
        self.pos = CoarseVector(*pos)
        self.orientation = orientation
        if randflags:
            self._randflags = randflags

    def get_transition_probs(self):
        return {}

    def _get_positions(self):
        return [SELF, EAST] if self._randflags[0] else [SELF]

    def _get_doorways(self):
        return [{'orientation': WEST, 'offset': WEST},
                {'orientation': EAST, 'offset': EAST * (2 if self._randflags[0] else 1)}]


class Rotations(object):
    """Module random, with samples that only rotate the population."""

    def __init__(self, ctx, limit=None):
        self.ctx = ctx
        self.n = 0
        self.limit = limit

    def sample(self, population, k):
        pool = list(population)
        if len(pool) < 2:
            return pool[:k]
        self.n += 1
        if self.limit is not None and self.n > self.limit:
            i = self.n * 7 // 3 % len(pool)
        else:
            i = self.ctx.choice('order%d' % self.n, list(range(len(pool))))
        return (pool[i:] + pool[:i])[:k]

    def choice(self, s):
        if self.limit is None:
            return random.choice(s)
        self.n += 1
        return random.choice(s) if self.n <= self.limit else s[self.n * 11 // 4 % len(s)]

    def uniform(self, a, b):
        if self.limit is None:
            return random.uniform(a, b)
        self.n += 1
        return random.uniform(a, b) if self.n <= self.limit else a + (b - a) * (self.n * 5 % 16 + 0.5) / 16

    def __getattr__(self, name):
        return getattr(random, name)


def rotate_only(ctx, on, limit=None):
    upm_module.random = Rotations(ctx, limit) if on else random


def row(u, mirror, n):
    """Halls side by side along one edge of the map, and their mirrored copies: [(room, layout)], cells."""
    placed = []
    for i in range(n):
        pos = (8 + i, 2, 4)
        u.register_room(CLASSES['hall'](pos=pos, orientation=EAST))
        placed += list(zip(u.rooms[len(placed):], copies(layout('hall', pos, 'E'), mirror)))
    return placed, [c for _, l in placed for c in l[0]]


O = (0, 0, 0)
KINDS = {
    'one': ([O], [(O, 'N'), (O, 'S'), (O, 'E'), (O, 'W')]),
    'hall': ([O], [(O, 'W'), (O, 'E')]),
    'turn': ([O], [(O, 'W'), (O, 'N')]),
    'cap': ([O], [(O, 'W')]),
    'long': ([O, (1, 0, 0)], [(O, 'W'), ((1, 0, 0), 'E')]),
    'ell': ([O, (1, 0, 0), (1, 1, 0)], [(O, 'W'), ((1, 1, 0), 'N')]),
    'stair': ([O, (0, 0, 1)], [(O, 'W'), ((0, 0, 1), 'E')]),
    'down': ([O, (0, 0, -1)], [(O, 'W'), ((0, 0, -1), 'E')]),
    'tower': ([O, (0, 0, 1), (0, 0, 2)], [(O, 'W'), (O, 'E')]),
    'corner': ([(1, 0, 0), (1, 1, 0)], [((1, 1, 0), 'W'), ((1, 0, 0), 'E')]),
    'nook': ([O, (1, 0, 0), (1, 1, 0)], [(O, 'N'), ((1, 1, 0), 'W')]),
    'apart': ([O, (0, 1, 0), (4, 0, 0), (4, 1, 0)], [((4, 1, 0), 'E')]),
    'back': ([O, (0, 1, 0)], [(O, 'W'), ((0, 1, 0), 'W')]),
}
CLASSES = {k: room_class(k, c, d) for k, (c, d) in KINDS.items()}
CLASSES['flag'] = Flagged


def turn(p, n):
    x, y, z = p
    for _ in range(n % 4):
        x, y = -y, x
    return (x, y, z)


def turned(d, n):
    return ORDER[(ORDER.index(d) + n) % 4]


def shape_of(kind, flag=True):
    if kind == 'flag':
        c = [O, (1, 0, 0)] if flag else [O]
        return c, [(O, 'W'), (c[-1], 'E')]
    return KINDS[kind]


def layout(kind, pos, facing, flag=True):
    """Cells of the room, and its doors as (cell outside, direction)."""
    n = ORDER.index(facing)
    cells, doors = shape_of(kind, flag)
    at = lambda c: tuple(a + b for a, b in zip(pos, turn(c, n)))
    step = lambda c, d: tuple(a + b for a, b in zip(c, STEP[d]))
    return [at(c) for c in cells], [(step(at(c), turned(d, n)), turned(d, n)) for c, d in doors]


def mirrored(layout_, k):
    """The layout after k quarter turns about the middle cell of the map."""
    f = lambda c: tuple(a + b for a, b in zip(turn((c[0] - 16, c[1] - 16, c[2]), k), (16, 16, 0)))
    return [f(c) for c in layout_[0]], [(f(c), turned(d, k)) for c, d in layout_[1]]


def copies(lay, mirror):
    return [mirrored(lay, k) for k in {1: [0], 2: [0, 2], 4: [0, 1, 2, 3]}[mirror]]


def same(ctx, a, b):
    return ctx.all(*[x == y for x, y in zip(a, b)])


def among(ctx, c, cells):
    return ctx.any(*[same(ctx, c, d) for d in cells])


def inside(ctx, c):
    return ctx.all(*[ctx.all(0 <= x, x < LIMIT) for x in c])


def direction(v):
    for d in ORDER:
        if DIRS[d] == v:
            return d
    raise Exception('not a direction')


def seen_doors(u):
    return [((p.x, p.y, p.z), r, direction(o)) for p, r, o in u.unoccupied]


def seen_cells(u):
    return [((p.x, p.y, p.z), r) for p, r in u.occupied.items()]


def check_state(ctx, u, placed, dropped=(), fragment='', part='all'):
    """The manager's books agree with the rooms placed: [(room, layout)]."""
    ctx.check(len(u.rooms) == len(placed) and all(r is q for r, (q, _) in zip(u.rooms, placed)),
              'the rooms are those placed' + fragment)
    cells = [(c, r) for r, l in placed for c in l[0]]
    for i, (c, r) in enumerate(cells):
        for d, q in cells[:i]:
            ctx.check(q is r or ctx.no(same(ctx, c, d)), 'no two rooms share a cell' + fragment)
    occ = seen_cells(u)
    ctx.check(len(occ) == len(cells), 'every cell of every room is taken, and no other' + fragment)
    for c, r in cells:
        ctx.check(u.occupied.get(cv(c)) is r, 'a cell is taken by its room' + fragment)
    if part == 'cells':
        return
    doors = seen_doors(u)
    allcells = [c for c, _ in cells]
    count = 0
    for r, l in placed:
        for c, d in l[1]:
            open_ = ctx.all(inside(ctx, c), ctx.no(among(ctx, c, allcells)))
            listed = ctx.any(*[same(ctx, c, e) for e, q, f in doors if q is r and f == d])
            gone = ctx.any(*[same(ctx, c, e) for e, q, f in dropped if q is r and f == d])
            ctx.check(ctx.iff(ctx.all(open_, ctx.no(gone)), listed),
                      'the open doors are those that lead to a free cell of the map' + fragment)
    for c, r, d in doors:
        ctx.check(any(r is q for q, _ in placed), 'an open door belongs to a room' + fragment)
        ctx.check(ctx.any(*[same(ctx, c, e) for q, l in placed if q is r for e, f in l[1] if f == d]),
                  'an open door is a door of its room' + fragment)
    ctx.check(len(doors) <= sum(len(l[1]) for _, l in placed), 'no door is listed twice' + fragment)


def cell(ctx, n, lo=0, hi=31):
    return tuple(ctx.int(n + c, lo, hi) for c in 'xyz')


def new_room(ctx, n, kind, lo, hi, facing=None):
    pos = cell(ctx, n, lo, hi)
    f = facing or ctx.choice(n + 'f', list(ORDER))
    return CLASSES[kind](pos=pos, orientation=DIRS[f]), layout(kind, pos, f)


def legal(ctx):
    """A position is legal exactly inside the map."""
    u = UnusedPositionManager(256)
    c = cell(ctx, 'p', -100, 100)
    ctx.check(ctx.iff(inside(ctx, c), bool(u.is_legal(cv(c)))), 'legal means inside the map')
    ctx.reach('end')


def registered(ctx, kinds, mirror, facing, lo=-1, hi=32, near=3, part='cells', more=0, within=None):
    """Any rooms at any places: those that fit are entered in the books, the others refused."""
    u = UnusedPositionManager(256, mirror=mirror)
    placed, taken = row(u, mirror, more)
    base = cell(ctx, 'b', lo, hi) if within is None else tuple(ctx.int('b' + c, *r) for c, r in zip('xyz', within))
    for i, kind in enumerate(kinds):
        pos = base if i == 0 else tuple(b + ctx.int('p%d%s' % (i, c), -near, near) for b, c in zip(base, 'xyz'))
        f = facing[i] if facing[i] != '?' else ctx.choice('f%d' % i, list(ORDER))
        room = CLASSES[kind](pos=pos, orientation=DIRS[f])
        all_ = copies(layout(kind, pos, f), mirror)
        cells = [c for l in all_ for c in l[0]]
        own = [(a, b) for j, l in enumerate(all_) for m in all_[:j] for a in l[0] for b in m[0]]
        clash = ctx.any(*[among(ctx, c, taken) for c in cells], *[same(ctx, a, b) for a, b in own])
        outside = ctx.any(*[ctx.no(inside(ctx, c)) for c in cells + [d for l in all_ for d, _ in l[1]]])
        fits = ctx.no(ctx.any(clash, outside))
        said = u.preregister_room(room)
        ctx.check(ctx.iff(fits, bool(said)), 'a room is found to fit exactly when its cells are free and it and its doors are '
                  'inside the map')
        check_state(ctx, u, placed, fragment=' (after asking)', part=part)
        if said:
            u.register_room(room)
            ctx.reach('placed%d' % i)
            new = u.rooms[len(placed):]
            ctx.check(len(new) == len(all_), 'one room per mirrored place')
            placed += list(zip(new, all_))
            taken += cells
            check_state(ctx, u, placed, part=part)
        elif mirror == 1 and bool(clash):
            try:
                u.register_room(room)
                ctx.fail('a room whose cells are taken is refused')
            except Exception:
                pass
            ctx.reach('refused%d' % i)
            check_state(ctx, u, placed, fragment=' (after a refusal)', part=part)
    ctx.observe('n', [len(u.rooms), len(u.unoccupied), len(u.occupied)])
    ctx.reach('end')


def registered_unasked(ctx, kinds, facing, near=2, part='cells'):
    """Rooms registered without asking: no cell ever changes hands."""
    u = UnusedPositionManager(256)
    placed, taken = [], []
    base = cell(ctx, 'b', 0, 31)
    for i, kind in enumerate(kinds):
        pos = base if i == 0 else tuple(b + ctx.int('p%d%s' % (i, c), -near, near) for b, c in zip(base, 'xyz'))
        f = facing[i]
        room = CLASSES[kind](pos=pos, orientation=DIRS[f])
        l = layout(kind, pos, f)
        clash = ctx.any(*[among(ctx, c, taken) for c in l[0]])
        try:
            u.register_room(room)
            ok = True
        except Exception:
            ok = False
        ctx.check(ctx.iff(ctx.no(clash), ok), 'refused exactly when a cell is taken')
        if ok:
            placed.append((u.rooms[-1], l))
            taken += l[0]
        check_state(ctx, u, placed, part=part)
    ctx.reach('end')


def proposed(ctx, prev, kinds, mirror, facing, others=(), lo=0, hi=31, most=1, orders=False):
    """Every room proposed for an open door has a door onto it, fits, and is inside the map."""
    u = UnusedPositionManager(256, mirror=mirror)
    pos = cell(ctx, 'b', lo, hi)
    room = CLASSES[prev](pos=pos, orientation=DIRS[facing])
    ctx.assume(u.preregister_room(room))
    u.register_room(room)
    for i, (kind, f, off) in enumerate(others):
        p = tuple(a + b for a, b in zip(pos, off))
        o = CLASSES[kind](pos=p, orientation=DIRS[f])
        ctx.assume(u.preregister_room(o))
        u.register_room(o)
    taken = [c for c, _ in seen_cells(u)]
    before = [len(u.rooms), len(u.unoccupied), len(u.occupied)]
    ctx.assume(len(u.unoccupied) > 0)
    which = ctx.choice('door', list(range(len(u.unoccupied))))
    door, owner, dirn = u.unoccupied[which]
    d = direction(dirn)
    found = 0
    rotate_only(ctx, not orders)
    for r in u.room_localization([CLASSES[k] for k in kinds], door, owner, dirn):
        found += 1
        flag = bool(getattr(r, '_randflags', (True,))[0])
        p = (r.pos.x, r.pos.y, r.pos.z)
        l = layout(r.KIND, p, direction(r.orientation), flag)
        all_ = copies(l, mirror)
        cells = [c for m in all_ for c in m[0]]
        ctx.check(among(ctx, (door.x, door.y, door.z), l[0]), 'the proposed room fills the cell behind the open door')
        back = tuple(a - b for a, b in zip((door.x, door.y, door.z), STEP[d]))
        ctx.check(ctx.any(*[same(ctx, c, back) for c, e in l[1] if e == turned(d, 2)]),
                  'the proposed room has a door that leads back')
        ctx.check(ctx.all(*[inside(ctx, c) for c in cells + [c for m in all_ for c, _ in m[1]]]),
                  'the proposed room and its doors are inside the map')
        ctx.check(ctx.no(ctx.any(*[among(ctx, c, taken) for c in cells])), 'the proposed room takes only free cells')
        ctx.check(ctx.no(ctx.any(*[same(ctx, a, b) for j, m in enumerate(all_) for n in all_[:j] for a in m[0] for b in n[0]])),
                  'mirrored copies do not overlap')
        if found >= most:
            break
    ctx.check([len(u.rooms), len(u.unoccupied), len(u.occupied)] == before, 'proposing places nothing')
    if found == 0:
        ctx.reach('none')
        for kind in kinds:
            if kind == 'flag':
                continue
            for f in ORDER:
                for c0, l in fits_door(kind, f, door, d):
                    all_ = copies(l, mirror)
                    cells = [c for m in all_ for c in m[0]]
                    own = [(a, b) for j, m in enumerate(all_) for n in all_[:j] for a in m[0] for b in n[0]]
                    ctx.check(ctx.any(*[ctx.no(inside(ctx, c)) for c in cells + [c for m in all_ for c, _ in m[1]]],
                                      *[among(ctx, c, taken) for c in cells], *[same(ctx, a, b) for a, b in own]),
                              'nothing is proposed only when nothing fits')
    else:
        ctx.reach('some')
    ctx.reach('end')


def fits_door(kind, f, door, d):
    """Every way to put the room with a door onto the open door."""
    at0 = layout(kind, O, f)
    back = tuple(a - b for a, b in zip((door.x, door.y, door.z), STEP[d]))
    for c, e in at0[1]:
        if e == turned(d, 2):
            p = tuple(a - b for a, b in zip(back, c))
            yield p, layout(kind, p, f)


def grown(ctx, start, kinds, mirror, rooms, lo=0, hi=31, z=3, facing='E', orders=False, limit=None):
    """Placing rooms: the wanted number, or no open door left; everything fits and is connected."""
    u = UnusedPositionManager(256, mirror=mirror)
    pos = (ctx.int('bx', lo, hi), ctx.int('by', lo, hi), z)
    room = CLASSES[start](pos=pos, orientation=DIRS[facing])
    ctx.assume(u.preregister_room(room))
    u.register_room(room)
    rotate_only(ctx, not orders, limit)
    u.place_rooms(False, [CLASSES[k] for k in kinds], rooms=rooms)
    placed = []
    for r in u.rooms:
        flag = bool(getattr(r, '_randflags', (True,))[0])
        placed.append((r, layout(r.KIND, (r.pos.x, r.pos.y, r.pos.z), direction(r.orientation), flag)))
    n = len(placed) - mirror
    ctx.check(n % mirror == 0, 'rooms are placed in mirrored groups')
    ctx.check(n >= rooms or len(u.unoccupied) == 0, 'enough rooms, or no open door left')
    ctx.check(n < rooms + mirror, 'not more rooms than asked for')
    cells = [(c, r) for r, l in placed for c in l[0]]
    for i, (c, r) in enumerate(cells):
        ctx.check(inside(ctx, c), 'every room is inside the map')
        for e, q in cells[:i]:
            ctx.check(q is r or ctx.no(same(ctx, c, e)), 'no two rooms share a cell')
    k = len(placed) // mirror
    for i in range(k):
        first = placed[i * mirror][1]
        for j, want in enumerate(copies(first, mirror)):
            got = placed[i * mirror + j][1]
            ctx.check(ctx.all(*[same(ctx, a, b) for a, b in zip(got[0], want[0])],
                              *[ctx.all(same(ctx, a, b), e == f) for (a, e), (b, f) in zip(got[1], want[1])]),
                      'the map is symmetrical')
    # links
    ctx.check(len(u.links) == n, 'one link for every room placed')
    for a, b in u.links:
        ra, rb = [[(r, l) for r, l in placed if bool(among(ctx, (p.x, p.y, p.z), l[0]))] for p in (a, b)]
        ctx.check(len(ra) == 1 and len(rb) == 1, 'a link joins two rooms')
        if len(ra) == 1 and len(rb) == 1:
            la, lb = ra[0][1], rb[0][1]
            ctx.check(ctx.any(*[ctx.all(among(ctx, c, lb[0]),
                                        ctx.any(*[ctx.all(e == turned(d, 2), same(ctx, tuple(x - y for x, y in zip(c, STEP[d])), q))
                                                  for q, e in lb[1]])) for c, d in la[1]]),
                      'linked rooms have doors onto each other')
    for i in range(1, k):
        ctx.check(any(bool(among(ctx, (b.x, b.y, b.z), placed[i * mirror][1][0])) for _, b in u.links),
                  'every room placed is linked to one placed before')
    occ = seen_cells(u)
    ctx.check(len(occ) == len(cells), 'every cell of every room is taken')
    for c, r, d in seen_doors(u):
        ctx.check(ctx.no(among(ctx, c, [x for x, _ in cells])), 'an open door leads to a free cell')
    if n < rooms and 'flag' not in kinds:
        taken = [x for x, _ in cells]
        for r, l in placed[::mirror]:
            for c, d in l[1]:
                for kind in kinds:
                    for f in ORDER:
                        for p, lay in fits_door(kind, f, cv(c), d):
                            new = [q[0] for q in copies(lay, mirror)]
                            every = [e for q in new for e in q]
                            outs = [e for q in copies(lay, mirror) for e, _ in q[1]]
                            clash = [same(ctx, every[i], every[j]) for i in range(len(every)) for j in range(i)]
                            ctx.check(ctx.any(*[ctx.any(ctx.no(inside(ctx, e)), among(ctx, e, taken)) for e in every], *clash,
                                              *[ctx.no(inside(ctx, e)) for e in outs]),
                                      'a door is given up only when no room fits')
    ctx.observe('n', n)
    ctx.reach('full' if n >= rooms else 'short')
    ctx.reach('end')


def capped(ctx, start, caps, facing, others=(), debug=False, lo=0, hi=31, more=0, within=None, field=0):
    """End caps close every open door they fit, disturb nothing and stay inside the map."""
    u = UnusedPositionManager(256)
    row(u, 1, more)
    for i in range(field):      # halls that leave both their doors open
        u.register_room(CLASSES['hall'](pos=(2 + 4 * (i % 7), 3 + 3 * (i // 7), 9), orientation=EAST))
    pos = cell(ctx, 'b', lo, hi) if within is None else tuple(ctx.int('b' + c, *r) for c, r in zip('xyz', within))
    room = CLASSES[start](pos=pos, orientation=DIRS[facing])
    ctx.assume(u.preregister_room(room))
    u.register_room(room)
    for i, (kind, f, off) in enumerate(others):
        p = tuple(a + (ctx.int('o%d%s' % (i, c), *b) if isinstance(b, (tuple, list)) else b) for c, a, b in zip('xyz', pos, off))
        o = CLASSES[kind](pos=p, orientation=DIRS[f])
        ctx.assume(u.preregister_room(o))
        u.register_room(o)
    doors = seen_doors(u)
    before = seen_cells(u)
    rooms = list(u.rooms)
    if debug:
        u.endcap(debug=True)
    else:
        u.endcap(possible_endcaps=[CLASSES[c] for c in caps])
    ctx.check(len(u.rooms) >= len(rooms) and all(a is b for a, b in zip(rooms, u.rooms)), 'the rooms placed before are still there')
    after = seen_cells(u)
    for c, r in before:
        ctx.check(u.occupied.get(cv(c)) is r, 'a cell that was taken keeps its room')
    new = u.rooms[len(rooms):]
    cells = []
    for r in new:
        l = layout('cap' if debug else r.KIND, (r.pos.x, r.pos.y, r.pos.z), 'E' if debug else direction(r.orientation))
        for c in l[0]:
            ctx.check(inside(ctx, c), 'every cap is inside the map')
            ctx.check(ctx.no(among(ctx, c, [d for d, _ in before] + cells)), 'no cap takes a taken cell')
        cells += l[0]
        if not debug:
            ctx.check(ctx.any(*[ctx.all(among(ctx, c, l[0]), e == turned(d, 2),
                                        same(ctx, q, tuple(x - y for x, y in zip(c, STEP[d]))))
                                for c, _, d in doors for q, e in l[1]]), 'a cap closes an open door')
    ctx.check(len(after) == len(before) + len(cells), 'caps take their cells and no other')
    taken = [c for c, _ in after]
    for c, r, d in doors:
        closed = among(ctx, c, taken)
        if debug:
            ctx.check(closed, 'every open door is closed')
            continue
        for kind in caps:
            for f in ORDER:
                for p, l in fits_door(kind, f, cv(c), d):
                    ctx.check(ctx.any(closed, *[ctx.any(ctx.no(inside(ctx, e)), among(ctx, e, taken)) for e in l[0]]),
                              'a door stays open only when no cap fits')
    for c, r, d in seen_doors(u):
        ctx.check(ctx.no(among(ctx, c, taken)), 'an open door leads to a free cell')
    ctx.observe('n', len(new))
    ctx.reach('end')


# -- choosing ---------------------------------------------------------------------------

def weighted(ctx, weights):
    """Every draw gives one of the choices, each for its share of the draws."""
    calls = []
    u = ctx.real('u', 0, 1, 20)
    ctx.assume(u < 1)
    seen = []
    real = random.uniform

    def uniform(a, b):
        seen.append((a, b))
        return a + (b - a) * u
    upm_module.random.uniform = uniform
    try:
        c = UnusedPositionManager.weighted_choice([('c%d' % i, w) for i, w in enumerate(weights)])
    finally:
        upm_module.random.uniform = real
    total = sum(weights)
    ctx.check(c in ['c%d' % i for i in range(len(weights))], 'one of the choices')
    if seen and seen == [(0, total)]:
        r = total * u
        i = int(c[1:])
        lo = sum(weights[:i])
        ctx.check(ctx.all(lo <= r, r <= lo + weights[i]), 'a choice is made for its share of the draws')
    ctx.observe('c', c)
    ctx.reach('end')


class One(object):
    """Random numbers made of one number between 0 and 1."""
    def __init__(self):
        self.u, self.drawn, self.known = None, 0, True

    def random(self):
        self.drawn += 1
        return self.u

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def __getattr__(self, name):
        self.known = False
        return getattr(random, name)


def shares(ctx, weights):
    """Draws spread evenly over all there are give each choice as often as its weight says."""
    total = sum(weights)
    d = ctx.real('d', 0, 1, 8)
    ctx.assume(ctx.all(0 < d, d < 1))
    source = One()
    real = upm_module.random
    upm_module.random = source
    count = [0] * len(weights)
    one = True
    try:
        for k in range(total):
            source.u, source.drawn = (k + d) / total, 0
            c = UnusedPositionManager.weighted_choice([('c%d' % i, w) for i, w in enumerate(weights)])
            count[int(c[1:])] += 1
            one = one and source.drawn == 1
    finally:
        upm_module.random = real
    if one and source.known:
        ctx.check(count == list(weights), 'each choice is made as often as its weight says')
    ctx.reach('end')


def weighted_any(ctx, weights):
    """Whatever is drawn, a choice is made, never one without weight (unless none has any)."""
    c = UnusedPositionManager.weighted_choice([('c%d' % i, w) for i, w in enumerate(weights)])
    ctx.check(c in ['c%d' % i for i in range(len(weights))], 'one of the choices')
    ctx.reach(str(c))
    ctx.reach('end')


def flavours(ctx):
    u = UnusedPositionManager(256)
    p, q = cell(ctx, 'p', 0, 255), cell(ctx, 'q', 0, 255)
    ctx.reach('end')


def stream(ctx, kinds, probs, rotate=False):
    """Every room class is tried, once each, whatever is drawn."""
    rotate_only(ctx, rotate, 0)
    probs = [ctx.fix(ctx.int('p%d' % i, *p)) if isinstance(p, (list, tuple)) else p for i, p in enumerate(probs)]
    prev = room_class('prev', *KINDS['one'], tp={'t%d' % i: p for i, p in enumerate(probs) if p is not None})(pos=O)
    options = [room_class(k + str(i), *KINDS[k], kind_of='t%d' % i) for i, k in enumerate(kinds)]
    u = UnusedPositionManager(256)
    got = list(u.random_room_stream(prev, options))
    ctx.check(len(got) == len(options), 'each class once')
    for o in options:
        ctx.check(any(g is o for g in got), 'every class is tried')
    one = u.random_room(prev, options)
    ctx.check(any(one is o for o in options), 'one of the classes')
    ctx.reach('end')


def opened(ctx, start, lo, hi, flavour):
    """Asking for a door gives one of the open doors."""
    u = UnusedPositionManager(256)
    pos = (ctx.int('bx', lo, hi), ctx.int('by', lo, hi), ctx.choice('bz', [0, 1, 3, 30, 31]))
    if flavour == 'nrp_flavour_center_hole':
        pos = (ctx.choice('x', [0, 1, 16, 31]), ctx.choice('y', [0, 15, 30]), pos[2])
    room = CLASSES[start](pos=pos, orientation=EAST)
    u.register_room(room)
    if flavour is None:
        f = None
    else:
        f = getattr(u, flavour)
    try:
        got = u.random_position() if f is None else u.nonrandom_position(f)
    except Exception:
        ctx.check(len(u.unoccupied) == 0, 'an error only when no door is open')
        ctx.reach('error')
        return
    ctx.check(any(got is d or got == d for d in u.unoccupied), 'one of the open doors')
    ctx.reach('end')


# -- mirrors ----------------------------------------------------------------------------

def symmetric(ctx, kinds, mirror, facing, near=4):
    """Each room, each of its doors and each link appears in every mirrored place."""
    u = UnusedPositionManager(256, mirror=mirror)
    base = cell(ctx, 'b', 0, 31)
    rooms = []
    for i, kind in enumerate(kinds):
        pos = base if i == 0 else tuple(b + ctx.int('p%d%s' % (i, c), -near, near) for b, c in zip(base, 'xyz'))
        r = CLASSES[kind](pos=pos, orientation=DIRS[facing[i]])
        ctx.assume(u.preregister_room(r))
        u.register_room(r)
        rooms.append((r, pos, facing[i], kind))
        ctx.check(ctx.all(*[a == b for a, b in zip(r.pos, pos)]) and direction(r.orientation) == facing[i],
                  'registering a room does not move it')
    ctx.check(len(u.rooms) == mirror * len(kinds), 'one copy of each room per mirrored place')
    for i, (r, pos, f, kind) in enumerate(rooms):
        group = u.rooms[i * mirror:(i + 1) * mirror]
        for g, want in zip(group, copies(layout(kind, pos, f), mirror)):
            ctx.check(type(g) is type(r), 'copies are rooms of the same kind')
            got = [tuple(p) for p in g.get_positions()]
            ctx.check(len(got) == len(want[0]) and ctx.all(*[among(ctx, c, got) for c in want[0]]), 'the cells of a copy')
            doors = [(tuple(d['offset']), direction(d['orientation'])) for d in g.get_doorways()]
            ctx.check(len(doors) == len(want[1]), 'number of doors of a copy')
            for c, d in want[1]:
                ctx.check(ctx.any(*[same(ctx, c, e) for e, q in doors if q == d]), 'the doors of a copy')
    if len(rooms) == 2:
        u.register_link(rooms[0][0], rooms[1][0])
        ctx.check(len(u.links) == mirror, 'one link per mirrored place')
        for (a, b), g, h in zip(u.links, u.rooms[:mirror], u.rooms[mirror:]):
            ctx.check(ctx.all(*[among(ctx, tuple(p), [tuple(c) for c in r.get_positions()]) for p, r in ((a, g), (b, h))]), 'a link joins the copies')
    ctx.reach('end')


def drawn(ctx, kind, mirror, facing):
    """The voxels that mirrored rooms draw are symmetrical."""
    from redeclipse.voxel import VoxelWorld
    u = UnusedPositionManager(256, mirror=mirror)
    pos = cell(ctx, 'b', 0, 31)
    r = CLASSES[kind](pos=pos, orientation=DIRS[facing])
    ctx.assume(u.preregister_room(r))
    u.register_room(r)
    o = ctx.choice('o', [(0, 0, 0), (1, 2, 3), (6, 0, 7)])
    worlds = []
    for g in u.rooms:
        w = VoxelWorld(size=256)
        for c in (-9999, 9999):
            w.set_point(c, c, c, 'far')
        g.x('rectangular_prism', w, FineVector(*o), FineVector(2, 1, 1), tex=11)
        g.x('cube', w, FineVector(o[0], o[1] + 1, o[2] + 1), tex=12)
        g.x('column', w, FineVector(4, 5, 0), NORTH, 2, tex=13)
        worlds.append({p: c.texture[0] for p, c in w.world.items() if c != 'far'})
    mid = 16 * 8 + 3.5
    for k, w in enumerate(worlds):
        n = k * (4 // mirror)
        ctx.check(len(w) == len(worlds[0]), 'copies draw as many voxels')
        for p, t in worlds[0].items():
            q = turn((p[0] - mid, p[1] - mid, p[2]), n)
            q = (q[0] + mid, q[1] + mid, q[2])
            ctx.check(ctx.any(*[same(ctx, q, e) for e, v in w.items() if v == t]), 'each voxel has its mirrored ones')
    ctx.reach('end')
