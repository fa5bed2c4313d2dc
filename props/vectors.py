"""Vectors: rotation, equality / hash / order laws, fine-coarse conversion, yaw."""
from redeclipse.vector import BaseVector, FineVector, CoarseVector
from redeclipse.vector import orientations as O

KIND = {'base': BaseVector, 'fine': FineVector, 'coarse': CoarseVector}


def vec(ctx, name, kind, lo, hi, half=False):
    if half:
        cs = [ctx.real(name + c, lo, hi, 1) for c in 'xyz']
    else:
        cs = [ctx.int(name + c, lo, hi) for c in 'xyz']
    return KIND[kind](*cs)


def turn(k, x, y):
    """k quarter turns counterclockwise."""
    k = k % 4
    if k == 0:
        return x, y
    if k == 1:
        return -y, x
    if k == 2:
        return -x, -y
    return y, -x


def rotation(ctx, kind, half, limit):
    v = vec(ctx, 'v', kind, -limit, limit, half)
    w = vec(ctx, 'w', kind, -limit, limit, half)
    k = ctx.choice('k', list(range(-4, 9)))
    ways = [90 * k]
    if 0 <= k < 4:
        ways.append([O.EAST, O.NORTH, O.WEST, O.SOUTH][k])
        ways.append([O.EAST_FINE, O.NORTH_FINE, O.WEST_FINE, O.SOUTH_FINE][k])
    for i, d in enumerate(ways):
        r = v.rotate(d)
        ex, ey = turn(k, v.x, v.y)
        ctx.check(ctx.all(r.x == ex, r.y == ey, r.z == v.z), 'rotate is k exact quarter turns about z')
        ctx.check(r.__class__ is v.__class__, 'rotation keeps the kind of vector')
        back = r.rotate(-90 * k)
        ctx.check(ctx.all(back.x == v.x, back.y == v.y, back.z == v.z), 'turning back restores the vector')
        q = v.offset_rotate(d, offset=w)
        fx, fy = turn(k, v.x + w.x, v.y + w.y)
        ctx.check(ctx.all(q.x == fx - w.x, q.y == fy - w.y, q.z == v.z), 'offset_rotate turns about -offset')
        ctx.observe('r%d' % i, [r.x, r.y, r.z])
    ctx.reach('end')


def laws(ctx, kind, half, limit):
    """Equality, hashing and order within one kind of vector."""
    a = vec(ctx, 'a', kind, -limit, limit, half)
    b = vec(ctx, 'b', kind, -limit, limit, half)
    same = ctx.all(a.x == b.x, a.y == b.y, a.z == b.z)
    e = ctx.eq(a, b)
    ctx.check(ctx.iff(e, same), 'equal exactly when the coordinates are')
    ctx.check(ctx.iff(e, ctx.eq(b, a)), 'equality is symmetric')
    ha, hb = hash(a), hash(b)
    ctx.check(ctx.implies(e, ha == hb), 'equal vectors hash alike')
    lt, gt = bool(a < b), bool(b < a)
    eqq = bool(e)
    ctx.check(lt + gt + eqq == 1, 'exactly one of <, ==, > holds')
    ctx.check((a <= b) == (lt or eqq), '<= is < or ==')
    ctx.check([v for v in a] == [a.x, a.y, a.z] and len(a) == 3, 'iteration yields x, y, z')
    ctx.check(ctx.all(a[0] == a.x, a[1] == a.y, a[2] == a.z), 'indexing yields x, y, z')
    ctx.observe('r', [lt, gt, eqq])
    ctx.reach('end')


def transitive(ctx, kind, limit):
    a = vec(ctx, 'a', kind, -limit, limit)
    b = vec(ctx, 'b', kind, -limit, limit)
    c = vec(ctx, 'c', kind, -limit, limit)
    ctx.assume(a < b)
    ctx.assume(b < c)
    ctx.check(bool(a < c), '< is transitive')
    s = sorted([c, a, b])
    ctx.check(s[0] is a and s[1] is b and s[2] is c, 'sorting orders by <')
    ctx.reach('end')


def mixed_laws(ctx, limit):
    """A coarse and a fine vector that denote positions on one grid."""
    c = vec(ctx, 'c', 'coarse', -limit, limit)
    f = vec(ctx, 'f', 'fine', -8 * limit, 8 * limit)
    same = ctx.all(c.x * 8 == f.x, c.y * 8 == f.y, c.z * 8 == f.z)
    e, e2 = ctx.eq(c, f), ctx.eq(f, c)
    ctx.check(ctx.iff(e, same), 'coarse == fine exactly when they are the same position')
    ctx.check(ctx.iff(e, e2), 'mixed equality is symmetric')
    eqq = bool(e)
    lt, gt = bool(c < f), bool(f < c)
    ctx.check(lt + gt + eqq == 1, 'exactly one of <, ==, > holds for mixed kinds')
    ctx.check(ctx.iff(lt, c.fine() < f), 'mixed order is the order of positions')
    ctx.reach('end')
    if eqq:
        ctx.check(hash(c) == hash(f), 'equal mixed vectors hash alike', finding='coarse-fine-hash')


def conversion(ctx, limit):
    c = vec(ctx, 'c', 'coarse', -limit, limit)
    d = vec(ctx, 'd', 'coarse', -limit, limit)
    f = vec(ctx, 'f', 'fine', -8 * limit, 8 * limit)
    g = vec(ctx, 'g', 'fine', -8 * limit, 8 * limit)

    def co(v):
        return [v.x, v.y, v.z]

    def sc(v, k):
        return [v.x * k, v.y * k, v.z * k]

    def is_(v, kind, want, what):
        ctx.check(v.__class__ is kind, what + ': kind')
        ctx.check(ctx.eq(co(v), want), what + ': value')
    is_(c.fine(), FineVector, sc(c, 8), 'coarse to fine')
    is_(f.fine(), FineVector, co(f), 'fine to fine')
    cf = c.fine().coarse()
    is_(cf, CoarseVector, co(c), 'coarse to fine and back')
    fc = f.coarse()
    ctx.check(fc.__class__ is CoarseVector, 'fine to coarse: kind')
    for p, q in zip(co(fc), co(f)):
        ctx.check(ctx.all(p * 8 <= q, q < p * 8 + 8), 'a coarse cell contains its fine positions')
    is_(c.entity(), FineVector, sc(c, 32), 'coarse to entity units')
    is_(f.entity(), FineVector, sc(f, 4), 'fine to entity units')
    plus = lambda u, v: [p + q for p, q in zip(u, v)]
    minus = lambda u, v: [p - q for p, q in zip(u, v)]
    is_(c + d, CoarseVector, plus(co(c), co(d)), 'coarse + coarse')
    is_(c - d, CoarseVector, minus(co(c), co(d)), 'coarse - coarse')
    is_(f + g, FineVector, plus(co(f), co(g)), 'fine + fine')
    is_(f - g, FineVector, minus(co(f), co(g)), 'fine - fine')
    is_(c + f, FineVector, plus(sc(c, 8), co(f)), 'coarse + fine')
    is_(f + c, FineVector, plus(sc(c, 8), co(f)), 'fine + coarse')
    is_(c - f, FineVector, minus(sc(c, 8), co(f)), 'coarse - fine')
    is_(f - c, FineVector, minus(co(f), sc(c, 8)), 'fine - coarse')
    ctx.check(ctx.eq(co(c + d - d), co(c)), 'adding and subtracting cancel (coarse)')
    ctx.check(ctx.eq(co(f + c - c), co(f)), 'adding and subtracting cancel (mixed)')
    ctx.observe('fc', co(fc))
    ctx.reach('end')


def scaling(ctx, kind, limit):
    v = vec(ctx, 'v', kind, -limit, limit, True)
    m = ctx.choice('m', [-8, -1, 0, 1, 2, 3, 4, 8, 0.5])
    r = v * m
    ctx.check(ctx.all(r.x == v.x * m, r.y == v.y * m, r.z == v.z * m), 'scaling by a number')
    ctx.check(r.__class__ is v.__class__, 'scaling keeps the kind')
    if m:
        q = v // m
        for p, o in zip([q.x, q.y, q.z], [v.x, v.y, v.z]):
            t = o / m if m in (1, 2, 4, 8, -1, -8, 0.5) else None
            if t is not None:
                ctx.check(ctx.all(p <= t, t < p + 1), 'floor division rounds down')
        if m in (1, 2, 4, 8, 0.5):
            d = (v * m) / m
            ctx.check(ctx.all(d.x == v.x, d.y == v.y, d.z == v.z), 'division undoes scaling')
    w = v.vox()
    for p, o in zip([w.x, w.y, w.z], [v.x, v.y, v.z]):
        ctx.check(ctx.all(p <= o, o < p + 1), 'vox drops a position into its cell')
    ctx.check(w.__class__ is v.__class__, 'vox keeps the kind')
    ctx.observe('w', [w.x, w.y, w.z])
    ctx.reach('end')


CARD = [O.EAST, O.NORTH, O.WEST, O.SOUTH]


def yaw(ctx):
    a = ctx.int('angle', -2000, 2000)
    i = ctx.choice('i', [0, 1, 2, 3])
    j = ctx.choice('j', [0, 1, 2, 3])
    r = O.rotate_yaw(a, CARD[i])
    ctx.check(ctx.all(r >= 0, r < 360), 'a yaw is in [0, 360)')
    ctx.check((r - a - 90 * i) % 360 == 0, 'yaw turns with the orientation')
    both = CARD[j].rotate(90 * i)
    ctx.check(ctx.eq(both, CARD[(i + j) % 4]), 'cardinal directions are quarter turns apart')
    ctx.check(O.rotate_yaw(r, CARD[j]) == O.rotate_yaw(a, both), 'yaw turns compose like rotations')
    ctx.check((O.get_vector_rotation(CARD[i]) - 90 * i) % 360 == 0, 'the angle of a cardinal direction')
    v = vec(ctx, 'v', 'fine', -64, 64)
    p, q = v.rotate(CARD[i]), v.rotate(int(O.get_vector_rotation(CARD[i])))
    ctx.check(ctx.all(p.x == q.x, p.y == q.y, p.z == q.z), 'turning by a direction and by its angle agree')
    names = [O.n(c) for c in CARD]
    ctx.check(names == ['EAST', 'NORTH', 'WEST', 'SOUTH'], 'names of the directions')
    ctx.observe('r', r)
    ctx.reach('end')


def not_cardinal(ctx):
    v = vec(ctx, 'v', 'coarse', -3, 3)
    ctx.assume(ctx.no(ctx.any(*[ctx.eq(v, c) for c in CARD])))
    try:
        O.rotate_yaw(90, v)
        bad = True
    except Exception:
        bad = False
    ctx.check(not bad, 'a yaw about anything but a cardinal direction is refused')
    ctx.reach('end')


def re_vectors(ctx, limit):
    from redeclipse.vector.re import ivec3, cross
    a = ivec3(*[ctx.int('a' + c, -limit, limit) for c in 'xyz'])
    b = ivec3(*[ctx.int('b' + c, -limit, limit) for c in 'xyz'])
    co = lambda v: [v.X(), v.Y(), v.Z()]
    A, B = co(a), co(b)
    ctx.check(ctx.eq(co(a.add(b)), [p + q for p, q in zip(A, B)]), 'sum')
    ctx.check(ctx.eq(co(a.sub(b)), [p - q for p, q in zip(A, B)]), 'difference')
    ctx.check(ctx.eq(co(a.mul(3)), [p * 3 for p in A]), 'scaling')
    ctx.check(ctx.eq(co(a.shl(3)), [p * 8 for p in A]), 'left shift')
    m = co(a.mask(~7))
    for p, q in zip(A, m):
        ctx.check(ctx.all(q % 8 == 0, q <= p, p < q + 8), 'masking low bits')
    ctx.check(ctx.eq(a.to_dict(), A), 'exported coordinates')
    ctx.check(ctx.all(a.gg(0) == A[0], a.gg(1) == A[1], a.gg(2) == A[2]), 'access by index')
    ctx.check(ctx.iff(a.iszero(), ctx.all(A[0] == 0, A[1] == 0, A[2] == 0)), 'zero test')
    c = cross(a, b)
    ctx.check(ctx.eq(co(c), [A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0]]),
              'cross product')
    d = cross(b, a)
    ctx.check(ctx.eq(co(d), [-p for p in co(c)]), 'cross product changes sign when swapped')
    ctx.check(a.dot(b) == A[0] * B[0] + A[1] * B[1] + A[2] * B[2], 'dot product')
    ctx.check(ctx.all(a.dot(c) == 0, b.dot(c) == 0), 'cross product is perpendicular to both')
    ctx.observe('c', co(c))
    ctx.reach('end')


def octant(ctx, limit):
    """The eight sub-cubes of a cube tile it."""
    from redeclipse.vector.re import ivec3
    x, y, z = [ctx.int('o' + c, -limit, limit) for c in 'xyz']
    s = ctx.choice('s', [1, 2, 8, 64, 1024])
    i = ctx.choice('i', list(range(8)))
    o = ivec3.ivec5(i, x, y, z, s)
    ctx.check(ctx.all(o.X() == x + (i & 1) * s, o.Y() == y + (i >> 1 & 1) * s, o.Z() == z + (i >> 2 & 1) * s),
              'octant i sits at the corner named by the bits of i')
    # any point of the parent lies in exactly one octant
    p = [ctx.int('p' + c, -limit, limit + 2048) for c in 'xyz']
    inside = ctx.all(*[ctx.all(a >= b, a < b + 2 * s) for a, b in zip(p, [x, y, z])])
    hits = 0
    for k in range(8):
        q = ivec3.ivec5(k, x, y, z, s)
        hits = hits + ctx.all(*[ctx.all(a >= b, a < b + s) for a, b in zip(p, [q.X(), q.Y(), q.Z()])])
    ctx.check(ctx.iff(inside, hits == 1), 'every point of the cube is in exactly one octant')
    ctx.check(ctx.iff(ctx.no(inside), hits == 0), 'no point outside the cube is in an octant')
    ctx.reach('end')
