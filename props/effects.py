"""Effects applied to a finished world, the MagicaVoxel export, and the command-line tools' output step."""
import random
import redeclipse.aftereffects as ae
from redeclipse.magicavoxel.reader import Magicavoxel
from redeclipse.magicavoxel.writer import to_magicavoxel
from redeclipse.objects import cube
from redeclipse.textures import AutomatedMagicaTextureManager
from redeclipse.upm import UnusedPositionManager
from redeclipse.vector import CoarseVector, FineVector
from redeclipse.voxel import VoxelWorld
from props.voxels import Model, point


def filled(ctx, n, size, lo, hi, model, w):
    """Some voxels anywhere, put there as rooms do (whole floats) or as numbers."""
    rooms = ctx.choice('rooms', [False, True])
    ps = []
    for i in range(n):
        p = point(ctx, 'p%d' % i, lo, hi)
        d = 'cube%d' % i
        if rooms:
            w.set_pointv(FineVector(*[c * 1.0 for c in p]), d)
        else:
            w.set_point(p[0], p[1], p[2], d)
        model.put(p, d)
        ps.append(p)
    return ps


def scattered(n, size, model, w):
    """Fixed voxels here and there, away from the last two layers on each axis."""
    ps = []
    for i in range(n):
        p = (i * 5 % (size - 2), i * 3 % (size - 2), i % (size - 2))
        d = 'fixed%d' % i
        w.set_point(p[0], p[1], p[2], d)
        model.put(p, d)
        ps.append(p)
    return ps


def cells(n, m=None):
    return [(x, y, z) for z in range(n if m is None else m) for y in range(n) for x in range(n)]


def same(ctx, p, q):
    return ctx.all(*[a == b for a, b in zip(p, q)])


def compare(ctx, w, model, must, may, kept, label):
    """The world holds every place of must and what must stay; everything else in it is of may or was there before."""
    for q, v in list(w.world.items()):
        ctx.check(ctx.any(*([True] if not symbolic(q) and q in may else [same(ctx, q, m) for m in may] if symbolic(q) else []), model.at(q, v)),
                  label + ': nothing else appears or changes')
    for q in must:
        ctx.check(w.get_point(*q) is not None, label + ': every place asked for is filled')
    for p in kept:
        ctx.check(model.at(p, w.get_point(*p)), label + ': what must stay is there')


def symbolic(q):
    return any(type(c) not in (int, float) for c in q)


def edges(size, height, func):
    out = []
    for q in cells(size, height):
        n = sum(1 for c in q if c in (0, size - 1))
        if n >= (1 if func == 'box' else 2):
            out.append(q)
    return out


def boxed(ctx, func, size, heights, count, within=None):
    """The box and its outline: exactly the shell (or the edges) of the world up to a height."""
    w = VoxelWorld(size=size)
    model = Model(ctx)
    ps = filled(ctx, count, size, *(within or (-1, size)), model, w)
    height = ctx.choice('height', heights)
    getattr(ae, func)(w, **({} if height is None else {'height': height}))
    must = edges(size, size if height is None else height, func)
    compare(ctx, w, model, must, must, [p for p in ps if not bool(ctx.any(*[same(ctx, p, m) for m in must]))], func)
    ctx.reach('end')


def gridded(ctx, size, steps, count, within=None):
    """The grid: lines where two coordinates are multiples of the step, only where nothing is."""
    w = VoxelWorld(size=size)
    model = Model(ctx)
    ps = filled(ctx, count, size, *(within or (0, size - 1)), model, w)
    step = ctx.choice('step', steps)
    ae.grid(w, size=step)
    may = [q for q in cells(size) if sum(1 for c in q if c % step == 0) >= 2]
    top = 0
    for p in ps:
        top = ctx.fix(p[2]) if bool(p[2] > top) else top
    compare(ctx, w, model, [q for q in may if q[2] < top], may, ps, 'grid')
    ctx.reach('end')


class draws(object):
    """Fixed draws, where only certain and impossible places are asked for."""

    def __init__(self, fixed):
        self.fixed = fixed

    def __enter__(self):
        self.old = random.random
        if self.fixed:
            random.random = lambda: 0.5

    def __exit__(self, *a):
        random.random = self.old


def chance(ctx, size, split):
    """A position function with certain, impossible and open places."""
    axis = ctx.choice('axis', [0, 1, 2])
    k = ctx.int('k', 0, size)
    a, b = split
    asked = []

    def f(x, y, z):
        asked.append((x, y, z))
        return b if bool((x, y, z)[axis] >= k) else a
    return f, axis, k, asked


def decayed(ctx, size, count, split, within=None, more=0):
    """Decay removes every voxel that must go, none that must stay, and adds nothing."""
    w = VoxelWorld(size=size)
    model = Model(ctx)
    ps = filled(ctx, count, size, *(within or (0, size - 1)), model, w)
    ps += scattered(more, size, model, w)
    f, axis, k, asked = chance(ctx, size, split)
    with draws(more > 0):
        ae.decay(w, f)
    for p in ps:
        if (split[1] if bool(p[axis] >= k) else split[0]) >= 1:
            ctx.check(model.at(p, w.get_point(*p)), 'what cannot decay is as it was')
        else:
            ctx.check(w.get_point(*p) is None, 'what must decay is gone')
    for q, v in list(w.world.items()):
        ctx.check(model.at(q, v), 'nothing is added')
    ctx.reach('end')


def grown(ctx, size, count, split, within=None, more=0):
    """Growth fills every empty place that must grow below the top, none that must not, and keeps what is there."""
    w = VoxelWorld(size=size)
    model = Model(ctx)
    ps = filled(ctx, count, size, *(within or (0, size - 1)), model, w)
    ps += scattered(more, size, model, w)
    f, axis, k, asked = chance(ctx, size, split)
    k = ctx.fix(k)
    with draws(more > 0):
        ae.growth(w, f)
    top = 0
    for p in ps:
        top = ctx.fix(p[2]) if bool(p[2] > top) else top
    may = [q for q in cells(size) if (split[1] if q[axis] >= k else split[0]) < 1]
    compare(ctx, w, model, [q for q in may if q[2] < top], may, ps, 'growth')
    ctx.reach('end')


def drawn(ctx, effect, size, count, threshold):
    """Each place decays (or grows) by its own draw."""
    w = VoxelWorld(size=size)
    model = Model(ctx)
    ps = filled(ctx, count, size, 0, size - 1, model, w)
    a = point(ctx, 'a', 0, size - 1)
    t = ctx.real('t', 0, 1, 4)

    def f(x, y, z):
        if bool(ctx.all(x == a[0], y == a[1], z == a[2])):
            return t
        return threshold
    getattr(ae, effect)(w, f)
    before = ctx.any(*[ctx.all(*[u == v for u, v in zip(p, a)]) for p in ps])
    got = w.get_point(*a)
    if bool(before):
        ctx.reach('gone' if got is None else 'kept')
        if effect == 'growth':
            ctx.check(model.at(a, got), 'growth never replaces a voxel')
        elif bool(t >= 1):
            ctx.check(got is not None, 'no decay at one')
    else:
        ctx.reach('empty' if got is None else 'grown')
        if effect == 'decay':
            ctx.check(got is None, 'decay never adds')
        elif bool(t >= 1):
            ctx.check(got is None, 'no growth at one')
    ctx.reach('end')


def capped(ctx, size, doors):
    """Every open door's cell is filled, nothing else."""
    w = VoxelWorld(size=8 * size)
    model = Model(ctx)
    upm = UnusedPositionManager(size)
    cs = []
    for i in range(doors):
        c = tuple(ctx.int('d%d%s' % (i, a), 0, size - 1) for a in 'xyz') if not i else tuple(
            u + v for u, v in zip(cs[0], ctx.choice('d%d' % i, [(1, 0, 0), (0, 0, 0), (0, -1, 0), (2, 3, -5)])))
        cs.append(c)
        upm.unoccupied.append((CoarseVector(*c), None, None))
    off = ctx.choice('off', [(-1, 0, 0), (0, 0, 0), (7, 7, 7), (8, 3, 3), (3, 8, 0), (0, 0, 8), (2, -1, 5), (1, 6, -1)])
    ps = [tuple(8 * u + o for u, o in zip(cs[0], off))]
    w.set_point(*ps[0], 'cube')
    model.put(ps[0], 'cube')
    ae.endcap(w, upm)

    def covered(q):
        return ctx.any(*[ctx.all(*[ctx.all(8 * u <= v, v < 8 * u + 8) for u, v in zip(c, q)]) for c in cs])
    for q, v in list(w.world.items()):
        ctx.check(ctx.any(covered(q), model.at(q, v)), 'nothing else changes')
    for p in ps:
        if not bool(covered(p)):
            ctx.check(model.at(p, w.get_point(*p)), 'what is elsewhere stays')
    i = ctx.choice('which', list(range(doors)))
    q = tuple(8 * u + ctx.int('o' + a, 0, 7) for u, a in zip(cs[i], 'xyz'))
    ctx.check(ctx.any(*[same(ctx, q, k) for k in list(w.world)]), 'the cell behind an open door is filled')
    ctx.check(len(upm.unoccupied) == doors, 'the doors are still listed')
    ctx.reach('end')


def gradients(ctx, name, top):
    """Gradients are probabilities that fall (or rise) with height."""
    f = getattr(ae, name)
    eps = 1e-9
    z = ctx.int('z', 0, top)
    x, y = ctx.int('x', 0, 255), ctx.int('y', 0, 255)
    v = f(x, y, z)
    ctx.check(ctx.all(-eps <= v, v <= 1 + eps), 'a gradient is between 0 and 1')
    u = f(ctx.int('x2', 0, 255), ctx.int('y2', 0, 255), z)
    ctx.check(ctx.all(u - v < eps, v - u < eps), 'a gradient depends on the height only')
    z2 = ctx.int('z2', 0, top)
    ctx.assume(z < z2)
    u = f(x, y, z2)
    if name.endswith('inv'):
        ctx.check(v <= u + eps, 'the inverse never falls')
        ctx.check(f(x, y, 0) < eps, 'the inverse starts at 0')
        w = ae.vertical_gradient2(x, y, z)
        ctx.check(ctx.all(v + w < 1 + eps, v + w > 1 - eps), 'the two add up to 1')
    else:
        ctx.check(u <= v + eps, 'a gradient never rises')
        ctx.check(ctx.implies(ctx.all(v < 1 - eps, u > eps), u < v - eps), 'a gradient falls where it can')
        if name == 'vertical_gradient':
            slope = ctx.choice('slope', [1, 64, 100, 256])
            w = f(x, y, z, slope=slope) * slope
            ctx.check(ctx.all(w > slope - z - eps * 1000, w < slope - z + eps * 1000), 'the vertical gradient is linear in the height')
        ctx.check(f(x, y, 0) > 1 - eps, 'a gradient starts at 1')
    ctx.reach('end')


class Palette(object):
    """A texture manager as far as the export uses it: numbered textures with colours."""
    class Tex(object):
        def __init__(self, r, g, b):
            self.r, self.g, self.b = r, g, b

    def __init__(self, colours):
        self.atlas = {i: Palette.Tex(*c) for i, c in enumerate(colours)}


def chunks(ctx, b, pos, end):
    """The chunks of a MagicaVoxel file: (name, content, children)."""
    out = []
    while pos < end:
        ctx.check(pos + 12 <= end, 'a chunk has a header')
        name = b[pos:pos + 4]
        size, kids = [ctx.fix(v) for v in ctx.unpack('<ii', b[pos + 4:pos + 12])]
        ctx.check(size >= 0 and kids >= 0 and pos + 12 + size + kids <= end, 'a chunk lies within its parent')
        out.append((bytes(name), b[pos + 12:pos + 12 + size], (pos + 12 + size, pos + 12 + size + kids)))
        pos += 12 + size + kids
    ctx.check(pos == end, 'chunks fill their parent exactly')
    return out


def exported(ctx, ranges, textures, real=False, rooms=(False, True), method=False, more=0):
    """The exported file is a well-formed MagicaVoxel model of exactly the voxels it can hold."""
    w = VoxelWorld(size=256)
    model = Model(ctx)
    if real:
        texman = AutomatedMagicaTextureManager()
        ks = [tuple(ctx.int('k%d%s' % (i, c), 0, 8) for c in 'rgb') for i in range(textures)]
        ts = [texman.get_colour(*[c / 8 for c in k]) for k in ks]
    else:
        ks = [tuple(ctx.int('k%d%s' % (i, c), 0, 8) for c in 'rgb') if i % 100 == 0 else (i % 9, i // 9 % 9, 3) for i in range(textures)]
        texman = Palette([[c / 8 for c in k] for k in ks])
    rooms = ctx.choice('rooms', rooms)
    vs = []
    for i in range(more):
        p = (i % 10, i // 10 % 10, i // 100)
        d = cube.newtexcube(tex=i % textures)
        w.set_point(p[0], p[1], p[2], d)
        model.put(p, d)
        vs.append((p, i % textures))
    for i, (lo, hi) in enumerate(ranges):
        p = point(ctx, 'p%d' % i, lo, hi)
        if real:
            t = ts[ctx.choice('t%d' % i, list(range(textures)))]
        else:
            t = ctx.int('t%d' % i, 0, textures - 1)
        d = cube.newtexcube(tex=t)
        if rooms == 'half':
            w.set_pointv(FineVector(*[c + 0.5 for c in p]), d)
        elif rooms:
            w.set_pointv(FineVector(*[c * 1.0 for c in p]), d)
        else:
            w.set_point(p[0], p[1], p[2], d)
        model.put(p, d)
        vs.append((p, t))
    path = ctx.path('out.vox')
    if method:
        # with the textures of the rooms, over an older and longer file
        ctx.write_file(path, b'VOX old' * 2000, gz=False)
        import redeclipse.prefabs as prefabs
        prefabs.TEXMAN = texman
        w.to_magicavoxel(path)
        ctx.check(ctx.open_files() == 0, 'the file is closed')
    else:
        with open(path, 'wb') as handle:
            to_magicavoxel(w, handle, texman)
    b = ctx.read_file(path, gz=False)
    ctx.check(bytes(b[0:4]) == b'VOX ', 'the file is a MagicaVoxel file')
    ctx.check(ctx.unpack('<i', b[4:8])[0] == 150, 'of version 150')
    top = chunks(ctx, b, 8, len(b))
    ctx.check(len(top) == 1 and top[0][0] == b'MAIN' and len(top[0][1]) == 0, 'it has one main chunk')
    kids = chunks(ctx, b, *top[0][2])
    ctx.check([k[0] for k in kids] == [b'SIZE', b'XYZI', b'RGBA'], 'with a size, voxels and colours')
    size = [ctx.unpack('<i', kids[0][1][4 * i:4 * i + 4])[0] for i in range(3)]
    data = kids[1][1]
    n = ctx.fix(ctx.unpack('<i', data[0:4])[0])
    ctx.check(len(data) == 4 + 4 * n, 'as many voxels as it says')
    ctx.check(len(kids[2][1]) == 1024, '256 colours of four bytes')
    got = [[ctx.unpack('<B', data[4 + 4 * i + j:5 + 4 * i + j])[0] for j in range(4)] for i in range(n)]
    at = 0.5 if rooms == 'half' else 0
    for g in got:
        v = w.get_point(*[c + at for c in g[:3]])
        ctx.check(v is not None, 'every exported voxel is one of the world')
        ctx.check(g[3] == v.texture[0] + 1, 'in the colour of its texture')
        ctx.check(ctx.all(*[g[k] < size[k] for k in range(3)]), 'inside the size of the model')
    if more:
        concrete = [tuple(g[:3]) for g in got if not any(symbolic([c]) for c in g[:3])]
        ctx.check(len(set(concrete)) == len(concrete), 'no voxel is exported twice')
        ctx.check(all(p in concrete for p, _ in vs[:more]), 'every voxel that fits is exported')
        got = [g for g in got if tuple(g[:3]) not in set(p for p, _ in vs[:more])]
        vs, n = vs[more:], len(got)
    for p, t in vs:
        fits = ctx.all(*[ctx.all(c + at >= 0, c + at <= 255) for c in p])
        ctx.check(ctx.implies(fits, ctx.any(*[ctx.eq(list(p), g[:3]) for g in got])), 'every voxel that fits is exported')
    for i in range(n):
        for j in range(i):
            ctx.check(ctx.no(ctx.eq(got[i][:3], got[j][:3])), 'no voxel is exported twice')
    pal = kids[2][1]
    for i, tex in texman.atlas.items():
        for j, c in enumerate((tex.r, tex.g, tex.b)):
            e = ctx.unpack('<B', pal[4 * i + j:4 * i + j + 1])[0]
            ctx.check(ctx.all(e > 255 * c - 1, e < 255 * c + 1), 'the palette has the colour of every texture')
    ctx.reach('end')


def reread(ctx, count, lo, hi, more=0):
    """The repository's reader reads what its writer wrote."""
    w = VoxelWorld(size=64)
    texman = AutomatedMagicaTextureManager()
    model = Model(ctx)
    vs = []
    for i in range(more):
        p = (i % 10, i // 10 % 10, i // 100)
        w.set_pointv(FineVector(*p), cube.newtexcube(tex=texman.get_colour(i / 512, 0.5, 0)))
        vs.append(p)
    for i in range(count):
        p = point(ctx, 'p%d' % i, lo, hi)
        c = ctx.choice('c%d' % i, [(1, 0, 0), (0, 0.5, 1)])
        d = cube.newtexcube(tex=texman.get_colour(*c))
        w.set_pointv(FineVector(*p), d)
        model.put(p, d)
        vs.append(p)
    path = ctx.path('out.vox')
    with open(path, 'wb') as handle:
        to_magicavoxel(w, handle, texman)
    m = Magicavoxel.from_file(path)
    ctx.check(len(m.palette.colours) == 256, '256 colours are read')
    got = [[v.x, v.y, v.z, v.c] for v in m.model_voxels.voxels]
    for g in got:
        v = w.get_point(*g[:3])
        ctx.check(v is not None, 'every voxel read is one of the world')
        ctx.check(g[3] == v.texture[0] + 1, 'with its colour index')
        col, tex = m.palette.colours[v.texture[0]], texman.atlas[v.texture[0]]
        ctx.check(all(255 * a - 1 < b < 255 * a + 1 for a, b in ((tex.r, col.r), (tex.g, col.g), (tex.b, col.b))), 'which is its colour in the palette')
    for p in vs:
        ctx.check(ctx.any(*[ctx.eq(list(p), g[:3]) for g in got]), 'every voxel of the world is read')
    ctx.check(len(got) == len(w.world), 'as many voxels as in the world')
    ctx.reach('end')
