"""The voxel store, its octree, the exported file, and cube geometry."""
from redeclipse.voxel import VoxelWorld
from redeclipse import objects
from redeclipse.objects import cube
from redeclipse.vector import FineVector, CoarseVector, BaseVector
from redeclipse.enums import OCT


class Model(object):
    """A list of writes; the last one at a place decides."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.ops = []

    def put(self, p, v):
        self.ops.append((p, v))

    def get(self, q):
        for p, v in reversed(self.ops):
            if bool(self.ctx.all(*[a == b for a, b in zip(p, q)])):
                return v
        return None

    def at(self, q, v):
        """Formula: v (an object put, or None) is what is at q."""
        ops = [(p, d) for p, d in self.ops if not any((a == b) is False for a, b in zip(p, q))]
        here = [self.ctx.all(*[a == b for a, b in zip(p, q)]) for p, _ in ops]
        last = [self.ctx.all(h, *[self.ctx.no(l) for l in here[i + 1:]]) for i, h in enumerate(here)]
        if v is None:
            return self.ctx.all(*[self.ctx.no(l) for l, (_, d) in zip(last, ops) if d is not None])
        return self.ctx.any(*[l for l, (_, d) in zip(last, ops) if d is v])


def point(ctx, n, lo, hi):
    return tuple(ctx.int(n + c, lo, hi) for c in 'xyz')


def places(n, size):
    """A scatter of fixed places."""
    out, k = [], 1
    while len(out) < n:
        k = (k * 5 + 3) % size ** 3
        q = (k % size, k // size % size, k // size ** 2)
        out.append(q)
    return out


def history(ctx, ops, lo, hi, more=0):
    """Any history of writes and deletes, then a read anywhere."""
    w = VoxelWorld(size=16)
    ctx.check([w.xmin, w.ymin, w.zmin, w.xmax, w.ymax, w.zmax] == [16] * 3 + [0] * 3, 'bounds of an empty world')
    model = Model(ctx)
    sets = []
    for i, p in enumerate(places(more, 16)):
        d = 'first%d' % i
        if i % 2:
            w.set_point(p[0], p[1], p[2], d)
        else:
            w.set_pointv(FineVector(*p), d)
        sets.append(p)
        model.put(p, d)
    for i, op in enumerate(ops):
        if op == '?':
            op = ctx.choice('op%d' % i, ['set', 'setv', 'del', 'delv'])
        p = point(ctx, 'p%d' % i, lo, hi)
        d = 'cube%d' % i if i else 0
        if op == 'set':
            w.set_point(p[0], p[1], p[2], d)
        elif op == 'setv':
            w.set_pointv(FineVector(*p), d)
        elif op == 'del':
            w.del_point(p[0], p[1], p[2])
        else:
            w.del_pointv(FineVector(*p))
        if op.startswith('set'):
            sets.append(p)
            model.put(p, d)
        else:
            model.put(p, None)
    q = point(ctx, 'q', lo, hi)
    ctx.check(model.at(q, w.get_point(*q)), 'the last write at a place is what is read there')
    if sets:
        for k, c in enumerate('xyz'):
            mn, mx = getattr(w, c + 'min'), getattr(w, c + 'max')
            ctx.check(ctx.all(*[ctx.all(mn <= p[k], p[k] <= mx) for p in sets]), 'bounds contain everything written')
            ctx.check(ctx.any(mx == 0, *[mx == p[k] for p in sets]), 'the upper bound is attained')
            ctx.check(ctx.any(mn == 16, *[mn == p[k] for p in sets]), 'the lower bound is attained')
    ctx.reach('end')


def halves(ctx):
    """Places given as whole floats are the places given as ints."""
    w = VoxelWorld(size=8)
    p = point(ctx, 'p', 0, 7)
    way = ctx.choice('way', ['float', 'rotated', 'back'])
    if way == 'float':
        w.set_pointv(FineVector(*[c * 1.0 for c in p]), 1)
    elif way == 'rotated':
        v = FineVector(*p).rotate(90)
        w.set_pointv(v.rotate(270), 1)
    else:
        w.set_point(p[0], p[1], p[2], 0)
        w.set_pointv(FineVector(*p).rotate(180).rotate(-180), 1)
    ctx.check(w.get_point(*p) == 1, 'read back at integer coordinates')
    ctx.check(len(w.world) == 1, 'one place, one voxel')
    ctx.reach('end')


def walk(ctx, cells, x, y, z, size, seen, check_kind=True):
    """Leaves of an octree as (x, y, z, size, cube)."""
    ctx.check(len(cells) == 8, 'a node has eight children')
    h = size // 2
    for i, c in enumerate(cells):
        cx, cy, cz = x + (i & 1) * h, y + (i >> 1 & 1) * h, z + (i >> 2 & 1) * h
        if c.children:
            ctx.check(c.octsav % 8 == 0, 'a cell with children is stored as such')
            ctx.check(h > 1, 'the tree is no deeper than the grid')
            walk(ctx, c.children, cx, cy, cz, h, seen)
        else:
            ctx.check(c.octsav % 8 != 0, 'a cell without children is not stored as having them')
            seen.append((cx, cy, cz, h, c))


def octree(ctx, size, ops, lo=None, hi=None, first=None, more=0, between=False):
    """The octree holds exactly the voxels inside the world, each at its place."""
    lo = 0 if lo is None else lo
    hi = size - 1 if hi is None else hi
    w = VoxelWorld(size=size)
    model = Model(ctx)
    put = []
    for i, p in enumerate(places(more, size)):
        d = cube.newtexcube(tex=100 + i)
        w.set_point(p[0], p[1], p[2], d)
        model.put(p, d)
        put.append(p)
    for i, op in enumerate(ops):
        if between and i == len(ops) - 1:
            w.to_octree()
        p = point(ctx, 'p%d' % i, lo, hi)
        if i == 0 and first is not None:
            for c, f in zip(p, first):
                if f is not None:
                    ctx.assume(c == f)
        d = cube.newtexcube(tex=10 + i)
        if op == 'set':
            w.set_point(p[0], p[1], p[2], d)
            model.put(p, d)
            put.append(p)
        else:
            w.del_point(p[0], p[1], p[2])
            model.put(p, None)
    root = w.to_octree()
    ctx.check(len(root) == 8, 'eight root cubes')
    seen = []
    walk(ctx, root, 0, 0, 0, size, seen)
    total = 0
    empty, filled = [], []
    if size > 32:
        # too large to ask about every place: what was put is among what is filled (nothing is deleted here)
        full = [(x, y, z) for x, y, z, s, c in seen if c.octsav % 8 != OCT.OCTSAV_EMPTY.value]
        for p in put:
            filled.append(ctx.any(*[ctx.all(*[a == b for a, b in zip(p, q)]) for q in full]))
    for x, y, z, s, c in seen:
        total += s ** 3
        if size > 32 and c.octsav % 8 == OCT.OCTSAV_EMPTY.value:
            continue
        if c.octsav % 8 == OCT.OCTSAV_EMPTY.value:
            empty += [model.at((x + dx, y + dy, z + dz), None)
                      for dx in range(s) for dy in range(s) for dz in range(s)]
        else:
            filled.append(ctx.all(s == 1, model.at((x, y, z), c)))
    ctx.check(ctx.all(*empty), 'nothing where nothing was put')
    ctx.check(ctx.all(*filled), 'each voxel is a unit cell at its place')
    ctx.check(total == size ** 3, 'the cells tile the world')
    ctx.reach('end')


def leaves_of_file(ctx, m, size):
    seen = []
    walk(ctx, m.world, 0, 0, 0, size, seen)
    return seen


class Args(object):
    magica = None
    graph = None
    mpz_out = None


class Prefabs(object):
    pass


class Named(object):
    def __init__(self, name):
        self.name = name


def exported(ctx, size, ops, through, first=None, more=0):
    """Voxels -> octree -> file -> parser."""
    from redeclipse import MapParser
    from props import mapfile
    w = VoxelWorld(size=size)
    model = Model(ctx)
    for i, p in enumerate(places(more, size)):
        w.set_pointv(FineVector(*p), cube.newtexcube(tex=100 + i))
        model.put(p, [100 + i] * 6)
    for i, op in enumerate(ops):
        p = point(ctx, 'p%d' % i, 0, size - 1)
        if i == 0 and first is not None:
            ctx.assume(ctx.all(p[0] == first[0], p[1] == first[1], p[2] == first[2]))
        t = ctx.int('t%d' % i, 2, 40000)
        faces = [t] * 6 if op == 'set' else [ctx.int('f%d_%d' % (i, k), 0, 65535) for k in range(6)]
        w.set_pointv(FineVector(*p), cube.newtexcube(tex=t if op == 'set' else faces))
        model.put(p, faces)
    m = mapfile.load(ctx, mapfile.enc_map(ctx, meta={'worldsize': size * 4}, mvars=[(b'a', 0, 1)], chg=[-5]))
    if through == 'cli':
        from redeclipse import cli
        from redeclipse.textures import TextureManager
        pf = Prefabs()
        pf.TEXMAN = TextureManager()
        pf.TEXMAN.copy_data = lambda *a, **k: None
        args = Args()
        out = 'made.of/o.v2'
        ctx.write_file(ctx.path(out + '.txt'), b'', gz=False)
        args.mpz_out = Named(ctx.path(out + '.mpz'))
        m.cfg_extra.append('gravity 0')
        cli.output(w, m, None, pf, args)
        cfg = ctx.read_file(ctx.path(out + '.cfg'), gz=False)
        ctx.check(cfg is not None and len(cfg) > 0, 'the configuration is written next to the map')
    else:
        m.world = w.to_octree()
        out = 'o'
        m.write(ctx.path('o.mpz'))
    back = MapParser().read(ctx.path(out + '.mpz'))
    ctx.check(back.meta['worldsize'] == size * 4, 'size of the world in the file')
    for x, y, z, s, c in leaves_of_file(ctx, back, size):
        for dx in range(s):
            for dy in range(s):
                for dz in range(s):
                    want = model.get((x + dx, y + dy, z + dz))
                    if want is None:
                        ctx.check(c.octsav % 8 == 1, 'empty where nothing was put')
                    else:
                        ctx.check(s == 1 and c.octsav % 8 in (2, 3), 'filled where a voxel was put')
                        ctx.check(ctx.eq(list(c.texture), list(want)), 'textures of a voxel in the file')
    ctx.reach('end')


# -- cube geometry ----------------------------------------------------------------------

def corner(e, cx, cy, cz):
    """Corner of a cube from its twelve edges: each edge byte holds the lower end
    in its low nibble and the upper end in its high nibble; edges 0-3 run along
    x (indexed by y, z), 4-7 along y (z, x), 8-11 along z (x, y)."""
    def part(b, k):
        return b // 16 if k else b % 16
    return [part(e[0 + 2 * cz + cy], cx), part(e[4 + 2 * cx + cz], cy), part(e[8 + 2 * cy + cx], cz)]


def geometry(ctx, orient):
    c = cube.newcube()
    e = [ctx.int('e%d' % i, 0, 255) for i in range(12)]
    c.edges = list(e)
    vs = c.genfaceverts(orient)
    d, side = orient // 2, orient % 2
    ctx.check(len(vs) == 4, 'a face has four corners')
    used = []
    for v in vs:
        hit = []
        for k in range(8):
            co = (k & 1, k >> 1 & 1, k >> 2 & 1)
            if co[d] != side:
                continue
            hit.append((co, ctx.eq([v.X(), v.Y(), v.Z()], corner(e, *co))))
        ctx.check(ctx.any(*[h for _, h in hit]), 'every vertex of a face is a corner of that side of the cube')
        used.append(hit)
    # with distinct corners the four vertices are the four corners, in cyclic order
    flat = [0x80] * 12
    c2 = cube.newcube()
    c2.edges = flat
    got = []
    for v in c2.genfaceverts(orient):
        got.append((v.X(), v.Y(), v.Z()))
    ctx.check(len(set(got)) == 4 and all(g[d] == 8 * side for g in got), 'the four corners of an undeformed face')
    for i in range(4):
        a, b = got[i], got[(i + 1) % 4]
        ctx.check(sum(1 for p, q in zip(a, b) if p != q) == 1, 'consecutive vertices share an edge')
    ctx.observe('v', [v.X() for v in vs])
    ctx.reach('end')


def outward(ctx):
    """All six faces are wound the same way round (normals all out or all in)."""
    from redeclipse.vector.re import ivec3, cross
    c = cube.newcube()
    lo = ctx.int('lo', 0, 7)
    hi = ctx.int('hi', 8, 15)
    c.edges = [hi * 16 + lo] * 12
    signs = []
    for orient in range(6):
        a, b, d, _ = c.genfaceverts(orient)
        n = cross(b.sub(a), d.sub(b))
        comp = n.gg(orient // 2)
        others = [n.gg(k) for k in range(3) if k != orient // 2]
        ctx.check(ctx.all(others[0] == 0, others[1] == 0), 'a face of a box is flat')
        pos = comp > 0
        neg = comp < 0
        signs.append((pos, neg) if orient % 2 else (neg, pos))
    ctx.check(ctx.any(ctx.all(*[o for o, _ in signs]), ctx.all(*[i for _, i in signs])),
              'all faces of a box are wound the same way')
    ctx.reach('end')


def new_cubes(ctx):
    """Fresh cubes share nothing: changing one leaves the others as they were."""
    t = ctx.int('t', 2, 65535)
    a, b = cube.newtexcube(tex=t), cube.newtexcube(tex=3)
    ctx.check(ctx.eq(list(a.texture), [t] * 6), 'texture of a new cube')
    u = [ctx.int('u%d' % i, 0, 65535) for i in range(6)]
    k = ctx.choice('k', list(range(6)))
    a.texture[k] = u[k]
    a.edges[k] = 7
    a.ext.surfaces[k].lmid[0] = 9
    ctx.check(list(b.texture) == [3] * 6 and b.edges[k] == 128 and b.ext.surfaces[k].lmid[0] == 2, 'another cube')
    for i in range(6):
        if i != k:
            ctx.check(a.texture[i] == t and a.edges[i] == 128 and a.ext.surfaces[i].lmid[0] == 2, 'the other faces of a cube')
    g = cube.newcubes()
    ctx.check(len(g) == 8 and len(set(id(c) for c in g)) == 8 and all(c.octsav == 1 for c in g), 'eight empty cubes')
    g[0].edges[1] = 5
    ctx.check(g[1].edges[1] == 128, 'cubes made together are separate')
    c = cube.newcube()
    ctx.check(c.octsav == 1 and not c.children, 'a new cube is empty')
    ctx.reach('end')


def sides(ctx):
    """A side of a cube, its axis, which end of it, and the side across."""
    o = ctx.int('side', 0, 5)
    across = objects.opposite(o)
    ctx.check(ctx.all(0 <= across, across <= 5, objects.opposite(across) == o), 'the side across from the side across is the side itself')
    ctx.check(ctx.all(objects.dimension(across) == objects.dimension(o), objects.dimcoord(across) == 1 - objects.dimcoord(o)),
              'the side across is the other end of the same axis')
    o = ctx.fix(o)
    c = cube.newcube(face=objects.Faces.F_SOLID)
    ends = [[(v.x, v.y, v.z)[objects.dimension(k)] for v in c.genfaceverts(k)] for k in (o, objects.opposite(o))]
    ctx.check(all(len(set(e)) == 1 for e in ends), 'the corners of a side of a solid cube lie in one plane across its axis')
    ctx.check((ends[0][0] > ends[1][0]) == (objects.dimcoord(o) == 1), 'at its end')
    c, d = cube.newtexcube(tex=ctx.int('t', 2, 65535)), cube.newcube()
    c.set_solid()
    ctx.check(list(c.faces) == [objects.Faces.F_SOLID] * 3, 'a cube made solid')
    ctx.check(list(d.faces) == [objects.Faces.F_EMPTY] * 3, 'another cube is as it was')
    d.set_solid()
    c.set_empty()
    ctx.check(list(c.faces) == [objects.Faces.F_EMPTY] * 3 and list(d.faces) == [objects.Faces.F_SOLID] * 3, 'a cube made empty')
    ctx.reach('end')
