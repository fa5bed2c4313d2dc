"""The construction kit: which voxels each primitive writes, and what it writes there."""
from redeclipse.prefabs.construction_kit import ConstructionKitMixin
from redeclipse.voxel import VoxelWorld
from redeclipse.vector import FineVector, CoarseVector
from redeclipse.vector.orientations import NORTH, SOUTH, EAST, WEST, ABOVE, BELOW, NORTH_FINE, EAST_FINE, ABOVE_FINE

TURNS = {'EAST': (EAST, 0), 'NORTH': (NORTH, 1), 'WEST': (WEST, 2), 'SOUTH': (SOUTH, 3)}


def wide_world():
    """A world whose bounds are already far out."""
    w = VoxelWorld(size=256)
    for c in (-9999, 9999):
        w.set_point(c, c, c, 'far')
    return w


def written(w):
    return len(w.world) - 2


class Kit(ConstructionKitMixin):
    def __init__(self, pos, orientation):
        self.pos = pos
        self.orientation = orientation


def cell_turned(u, v, turns):
    """The voxel (u, v) of an 8 by 8 tile after quarter turns counterclockwise about the tile's centre."""
    for _ in range(turns):
        u, v = 7 - v, u
    return u, v


def place(pos, orientation, local):
    """World voxel of a local voxel (fine position of the tile, number of turns)."""
    u, v = cell_turned(local[0], local[1], TURNS[orientation][1])
    return (pos[0] + u, pos[1] + v, pos[2] + local[2])


def box(o, s):
    return [(o[0] + i, o[1] + j, o[2] + k) for i in range(s[0]) for j in range(s[1]) for k in range(s[2])]


def line(o, d, n):
    return [(o[0] + d[0] * i, o[1] + d[1] * i, o[2] + d[2] * i) for i in range(n)]


def ring(o, n):
    return [(o[0] + i, o[1] + j, o[2]) for i in range(n) for j in range(n) if i in (0, n - 1) or j in (0, n - 1)]


WALLS = {'EAST': (7, 0, 1, 8), 'WEST': (0, 0, 1, 8), 'NORTH': (0, 7, 8, 1), 'SOUTH': (0, 0, 8, 1)}
DIRS = {'EAST': EAST, 'NORTH': NORTH, 'WEST': WEST, 'SOUTH': SOUTH, 'ABOVE': ABOVE, 'BELOW': BELOW}


def unit(d):
    return tuple(int(c) for c in DIRS[d])


def wall(o, face, h):
    x, y, sx, sy = WALLS[face]
    return box((o[0] + x, o[1] + y, o[2]), (sx, sy, h))


def shape(ctx, what, off, o, small=False):
    """A call of the kit (name, arguments, options) and the local voxels it has to fill."""
    if what == 'cube':
        return 'cube', [off], {}, [o]
    if what in ('floor', 'ceiling'):
        z = 7 if what == 'ceiling' else 0
        k = ctx.choice('size', [None, 1, 3, 8, 16])
        kw = {} if k is None else {'size': k}
        n = 8 if k is None else k
        return what, [off], kw, box((o[0], o[1], o[2] + z), (n, n, 1))
    if what == 'prism':
        s = [ctx.choice('s' + c, [1, 2] if small else [1, 2, 5]) for c in 'xyz']
        return 'rectangular_prism', [off, FineVector(*s)], {}, box(o, s)
    if what == 'ring':
        n = ctx.choice('size', [2, 3, 8, 12])
        return 'ring', [off, n], {}, ring(o, n)
    if what == 'low_wall':
        f = ctx.choice('face', ['EAST', 'NORTH', 'WEST', 'SOUTH'])
        return 'low_wall', [off, DIRS[f]], {}, wall(o, f, 3)
    if what == 'wall':
        f = ctx.choice('face', ['EAST', 'NORTH', 'WEST', 'SOUTH'])
        h = ctx.choice('h', [None, 1, 5])
        return 'wall', [off, DIRS[f]], {} if h is None else {'limit_j': h}, wall(o, f, 8 if h is None else h)
    if what == 'column':
        d = ctx.choice('dir', ['EAST', 'NORTH', 'WEST', 'SOUTH', 'ABOVE', 'BELOW'])
        n = ctx.choice('length', [0, 1, 4] if small else [0, 1, 8, 11])
        return 'column', [off, DIRS[d], n], {}, line(o, unit(d), n)
    if what == 'dotted':
        d = ctx.choice('dir', ['EAST', 'NORTH', 'WEST', 'SOUTH', 'ABOVE', 'BELOW'])
        on, gap = ctx.choice('dots', [(None, None), (1, 1), (2, 1), (3, 2), (1, 3)])
        kw = {} if on is None else {'on': on, 'off': gap}
        on, gap = (2, 2) if on is None else (on, gap)
        n = 9
        return 'dotted_column', [off, DIRS[d], n], kw, \
            [p for i, p in enumerate(line(o, unit(d), n)) if i % (on + gap) < on]


def site(ctx, unitname):
    p = [ctx.int('p' + c, 0, 31 if unitname == 'coarse' else 255) for c in 'xyz']
    if unitname == 'coarse':
        return CoarseVector(*p), [c * 8 for c in p]
    return FineVector(*p), p


def offset(ctx, kind):
    o = [ctx.int('o' + c, -16, 24) for c in 'xyz']
    if kind == 'coarse':
        c = [ctx.int('o' + c, -2, 2) for c in 'XYZ']
        return CoarseVector(*c) + FineVector(*o), [8 * a + b for a, b in zip(c, o)]
    return FineVector(*o), o


def halo(local):
    """Local voxels that touch the shape without being part of it."""
    inside = set(local)
    return sorted({(x + i, y + j, z + k) for x, y, z in local
                   for i, j, k in ((1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1))} - inside)


def shifted(local, o):
    return [tuple(a + b for a, b in zip(l, o)) for l in local]


def built(ctx, what, orientation, sites):
    """A primitive fills exactly its shape, turned with its room, and nothing else."""
    pos, fine = site(ctx, sites)
    off, o = offset(ctx, sites)
    tex = ctx.int('tex', 0, 65535)
    w = wide_world()
    name, args, kw, local = shape(ctx, what, off, (0, 0, 0))
    default = ctx.choice('default', [False, True])
    if not default:
        kw['tex'] = tex
    around = [place(fine, orientation, l) for l in shifted(halo(local), o)]
    want = [place(fine, orientation, l) for l in shifted(local, o)]
    for v in around + want[::2]:
        w.set_point(v[0], v[1], v[2], 'before')
    Kit(pos, TURNS[orientation][0]).x(name, w, *args, **kw)
    for v in want:
        c = w.get_point(*v)
        ctx.check(c is not None and c != 'before', 'every voxel of the shape is filled')
        ctx.check(ctx.all(*[t == (2 if default else tex) for t in c.texture]), 'the voxels have the texture asked for')
    for v in around:
        ctx.check(w.get_point(*v) == 'before', 'a voxel next to the shape stays as it was')
    ctx.check(written(w) == len(want) + len(around), 'nothing else is written')
    ctx.observe('n', written(w))
    ctx.reach('end')


def anywhere(ctx, what, orientation, subtract):
    """What is elsewhere in the world stays, wherever that is."""
    pos, fine = site(ctx, 'coarse')
    off, o = offset(ctx, 'fine')
    w = wide_world()
    q = tuple(ctx.int('q' + c, -64, 512) for c in 'xyz')
    w.set_point(q[0], q[1], q[2], 'before')
    name, args, kw, local = shape(ctx, what, off, o, small=True)
    want = [place(fine, orientation, l) for l in local]
    ours = ctx.any(*[ctx.all(*[a == b for a, b in zip(q, v)]) for v in want])
    Kit(pos, TURNS[orientation][0]).x(name, w, *args, subtract=subtract, **kw)
    here = w.get_point(*q)
    ctx.check(ctx.iff(ours, here != 'before'), 'exactly what is inside the shape is replaced')
    ctx.check(ctx.implies(ours, (here is None) == subtract), 'removed or filled as asked')
    ctx.check(written(w) <= 1 if subtract else written(w) <= len(want) + 1, 'nothing else is written')
    ctx.reach('end')


def removed(ctx, what, orientation):
    """Subtracting a shape empties exactly its voxels, whatever the probability."""
    pos, fine = site(ctx, 'coarse')
    off, o = offset(ctx, 'fine')
    w = wide_world()
    name, args, kw, local = shape(ctx, what, off, (0, 0, 0))
    prob = ctx.choice('prob', [None, 0.0, 0.5, 1.0])
    if prob is not None:
        kw['prob'] = prob
    around = [place(fine, orientation, l) for l in shifted(halo(local), o)]
    want = [place(fine, orientation, l) for l in shifted(local, o)]
    for v in around + want[::2]:
        w.set_point(v[0], v[1], v[2], 'before')
    Kit(pos, TURNS[orientation][0]).x(name, w, *args, subtract=True, tex=5, **kw)
    for v in want:
        ctx.check(w.get_point(*v) is None, 'every voxel of the shape is removed')
    for v in around:
        ctx.check(w.get_point(*v) == 'before', 'a voxel next to the shape stays as it was')
    ctx.check(written(w) == len(around), 'nothing is written')
    ctx.reach('end')


def sparse(ctx, what, prob, orientation):
    """With a probability, each voxel of the shape is filled or emptied by its own draw; no other is touched."""
    pos, fine = site(ctx, 'coarse')
    off, o = offset(ctx, 'fine')
    w = wide_world()
    name, args, kw, local = shape(ctx, what, off, (0, 0, 0), small=True)
    around = [place(fine, orientation, l) for l in shifted(halo(local), o)]
    want = [place(fine, orientation, l) for l in shifted(local, o)]
    for v in around:
        w.set_point(v[0], v[1], v[2], 'else')
    for v in want[::2]:
        w.set_point(v[0], v[1], v[2], 'old')
    Kit(pos, TURNS[orientation][0]).x(name, w, *args, tex=7, prob=prob, **kw)
    for v in around:
        ctx.check(w.get_point(*v) == 'else', 'a voxel next to the shape stays as it was')
    filled, drawn = 0, []
    for v in want:
        c = w.get_point(*v)
        ctx.check(c is None or c != 'old', 'a voxel of the shape is filled or emptied')
        filled += c is not None
        drawn.append(c is not None)
    ctx.check(written(w) == filled + len(around), 'nothing else is written')
    if prob >= 1:
        ctx.check(filled == len(want), 'with certainty everything is filled')
    if prob < 0:
        ctx.check(filled == 0, 'with no chance nothing is filled')
    for i in range(len(want)):
        for j in range(i):
            ctx.reach('%d%s %d%s' % (j, '+' if drawn[j] else '-', i, '+' if drawn[i] else '-'))
    ctx.reach('some' if 0 < filled < len(want) else 'none' if filled == 0 else 'all')
    ctx.reach('end')


def unknown(ctx):
    """An unknown primitive is refused and writes nothing."""
    w = wide_world()
    name = ctx.choice('name', ['pyramid', 'x_cube', '', 'Cube'])
    try:
        Kit(CoarseVector(0, 0, 0), EAST).x(name, w, FineVector(0, 0, 0))
        ctx.fail('an unknown primitive is refused')
    except Exception:
        pass
    ctx.check(written(w) == 0, 'nothing is written')
    ctx.reach('end')
