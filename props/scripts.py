"""The smaller tools: terrain, listing a model, sky boxes."""
import os
import shutil
import sys
from redeclipse import MapParser
from redeclipse.voxel import VoxelWorld
from props import mapfile, voxels

# -- terrain --------------------------------------------------------------------------

SIDE = 8


class Field(object):
    """Noise that is the same whenever it is asked for at the same place, and some of it symbolic."""

    def __init__(self, ctx, heights, trees, blocks, plain=False):
        self.ctx, self.plain = ctx, plain
        self.known = {}
        self.free = {k: [tuple(p) for p in v] for k, v in ((0, heights), (128, trees), (64, blocks))}

    def at(self, x, y, base):
        k = (x, y, base)
        if k not in self.known:
            name = 'n%d_%d_%d' % (base, x, y)
            if base == 0:
                # the ground lies five times the noise above 30: from below the lowest to above the highest voxel
                v = self.ctx.int(name, -6350, -4290) if (x, y) in self.free[0] else -(4300 + (x * 5 + y * 3) * 97 % 2040)
            else:
                v = self.ctx.int(name, -1024, 1024) if (x, y) in self.free[base] else (300, -60, -1024, 0)[(x * 3 + y) % 4 if base == 64 and not self.plain else 0]
            self.known[k] = v
        return self.known[k]

    def __call__(self, x, y=0, octaves=1, persistence=0.5, lacunarity=2.0, repeatx=1024, repeaty=1024, base=0):
        if octaves < 1:
            raise ValueError('octaves')
        return self.at(int(x * 32), int(y * 32), base) / 1024


def terrain(ctx, heights, trees, blocks, side=SIDE):
    """The map has the terrain that the noise describes, and keeps everything else."""
    import noise
    field = Field(ctx, heights, trees, blocks, side > SIDE)
    old, noise.pnoise2 = noise.pnoise2, field
    argv, err = sys.argv, sys.stderr
    try:
        import redeclipse.cli.perlin as perlin
        perlin.IJ_SIZE, perlin.K_SIZE = side, side
        perlin.VoxelWorld = lambda *a, **k: VoxelWorld(size=side)
        ent = {'pos': [ctx.int('e' + c, -8, 1000) for c in 'xyz'], 'type': 3, 'reserved': [0, 1, 2], 'attrs': [1, 2, 3, 4, 5, 6], 'links': []}
        fog = ctx.int('fog', -100, 100)
        ctx.write_file(ctx.path('in.mpz'), mapfile.enc_map(ctx, mvars=[(b'fog', 0, fog), (b'title', 2, b'x')], ents=[ent], mru=[7, 9], chg=[-5],
                                                           cells=[{'octsav': 2, 'texture': [3] * 6}] * 8))
        sys.argv = ['perlin', ctx.path('in.mpz'), ctx.path('out.mpz')]
        sys.stderr = Quiet()
        perlin.main()
    finally:
        noise.pnoise2 = old
        sys.argv, sys.stderr = argv, err
    m = MapParser().read(ctx.path('out.mpz'))
    ctx.check(ctx.eq(m.map_vars[b'fog'], fog) and m.map_vars[b'title'] == b'x' and len(m.map_vars) == 2, 'the variables of the map')
    ctx.check(list(m.texmru) == [7, 9] and len(m.vslots) == 5, 'the textures of the map')
    ctx.check(len(m.ents) == 1 and ctx.eq([m.ents[0].o.x, m.ents[0].o.y, m.ents[0].o.z], ent['pos']) and list(m.ents[0].attrs) == ent['attrs'],
              'the entities of the map')
    got = {}
    for x, y, z, size, c in voxels.leaves_of_file(ctx, m, side):
        ctx.check(c.octsav % 8 in (1, 2, 3), 'cells are filled or empty')
        for a in range(size):
            for b in range(size):
                for d in range(size):
                    got[x + a, y + b, z + d] = None if c.octsav % 8 == 1 else tuple(c.texture)
    ctx.check(len(got) == side ** 3, 'the whole map is written')
    # trees
    tree = set()
    for i in range(side):
        for j in range(side):
            column = [got[i, j, k] for k in range(side)]
            if any(t is not None and t[0] == 58 for t in column):
                tree.add((i, j))
                ctx.check(all(t == (58, 58, 58, 58, 59, 59) for t in column), 'a tree fills its column')
                ctx.check(field.at(j, i, 128) * 10 < -1024, 'trees stand where their noise is low')
                ctx.reach('tree%d%d' % (i, j))
    houses = set()
    for i in range(side // 4):
        for j in range(side // 4):
            n = 0
            for a in range(4 * i, 4 * i + 4):
                for b in range(4 * j, 4 * j + 4):
                    if (a, b) not in tree and any(t is not None and t[0] == 57 for t in [got[a, b, k] for k in range(side)]):
                        n += 1
            if n:
                houses.add((i, j))
                ctx.check(field.at(j, i, 64) * 10 < -1024, 'buildings stand where their noise is low')
                ctx.reach('house%d%d' % (i, j))
    for i in range(side):
        for j in range(side):
            if (i, j) in tree:
                continue
            h = 5 * field.at(i, j, 0) + 30 * 1024
            for k in range(side):
                t = got[i, j, k]
                ground = k * 1024 < h
                if t is None:
                    ctx.check(ctx.no(ground), 'the ground is solid up to its height')
                    if (i // 4, j // 4) in houses:
                        ctx.check(k * 1024 >= h + 4096, 'a building is four voxels high')
                elif t[0] == 57:
                    ctx.check(t == (57,) * 6, 'a building has its texture')
                    ctx.check(ctx.all(ctx.no(ground), k * 1024 < h + 4096), 'a building stands on the ground, four voxels high')
                else:
                    ctx.check(t == (23, 23, 23, 23, 22, 61), 'the ground has its textures')
                    ctx.check(ground, 'nothing lies above the ground')
    ctx.reach('end')


class Quiet(object):
    def write(self, s):
        pass

    def flush(self):
        pass


# -- listing a model --------------------------------------------------------------------

class Paper(object):
    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)

    def flush(self):
        pass


def vox(ctx, voxels_, palette):
    le = lambda v: ctx.pack('<i', v)
    data = [le(len(voxels_))] + [bytes([0]) * 0] + [ctx.pack('<B', c) for v in voxels_ for c in v]
    size = 4 + 4 * len(voxels_)
    return ctx.join([b'VOX ', le(150), b'MAIN', le(0), le(24 + 12 + size + 12 + 4 * len(palette)), b'SIZE', le(12), le(0), le(126), le(126), le(126),
                     b'XYZI', le(size), le(0)] + data + [b'RGBA', le(4 * len(palette)), le(0)] + [ctx.pack('<B', c) for p in palette for c in p])


def listing(ctx, base, spans, colours, free, more=0):
    """The listing of a model shows its bounds, its colours and all of its voxels, layer by layer."""
    import redeclipse.cli.magicavoxel_info as info
    vs = [tuple(b + ctx.int('v%d%s' % (i, c), 0, s) for c, b, s in zip('xyz', base, span)) for i, span in enumerate(spans)]
    vs[1:1] = [(base[0] + i % 13, base[1] + i // 13 % 12, base[2] + i // 156) for i in range(more)]
    free = [tuple(f) for f in free]
    palette = [[ctx.int('c%d%s' % (i, c), 0, 2) * 127 if (i, c) in free else (i * 7 + k) % 256 if i % 50 == 1 else 0 for k, c in enumerate('rgb')] + [255]
               for i in range(colours)]
    path = ctx.path('my.model.vox')
    ctx.write_file(path, vox(ctx, [v + (ctx.int('col%d' % i, 0, 255) if i < 1 else 0 if i < 2 else 7,) for i, v in enumerate(vs)], palette), gz=False)
    paper, old = Paper(), sys.stdout
    sys.stdout = paper
    try:
        info.main(path)
    finally:
        sys.stdout = old
    lines = ''.join(paper.parts).split('\n')
    at = [set(ctx.fix(v[k]) for v in vs) for k in range(3)]
    points = set(tuple(ctx.fix(c) for c in v) for v in vs)
    lo, hi = [min(a) for a in at], [max(a) for a in at]
    ctx.check(lines[0].endswith('my.model'), 'the name of the model')
    want = 'x in [%d, %d]; y in [%d, %d]; z in [%d, %d]' % (lo[0], hi[0], lo[1], hi[1], lo[2], hi[2])
    bounds = [l for l in lines if 'x in [' in l]
    ctx.check(len(bounds) == 1 and ctx.eq(bounds[0][bounds[0].index('x in ['):].strip(), want), 'the bounds of the model')
    listed = [l.strip() for l in lines if l.startswith('C[')]
    shown = []
    for i, p in enumerate(palette):
        p = [ctx.fix(c) for c in p[:3]]
        if p != [0, 0, 0]:
            shown.append('C[%d] = (%d, %d, %d)' % (i, p[0], p[1], p[2]))
    ctx.check(len(listed) == len(shown) and all(ctx.eq(a, b) for a, b in zip(listed, shown)), 'the colours of the palette that are not black')
    seen, layers, z, x = set(), [], None, None
    for l in lines:
        if l.startswith('==== z = '):
            z = int(l[9:].split()[0])
            layers.append(z)
            x = lo[0]
        elif z is not None and l.startswith('y '):
            for k, c in enumerate(l[2:]):
                if c == '#':
                    seen.add((x, lo[1] + k, z))
            x += 1
    ctx.check(layers == list(range(lo[2], hi[2] + 1)), 'one layer after the other')
    ctx.check(seen == points, 'every voxel at its place')
    ctx.reach('end')


# -- sky boxes ----------------------------------------------------------------------------

FACES = ['bk', 'dn', 'ft', 'lf', 'rt', 'up']


class Disk(object):
    """Folders and files, recorded."""

    def __init__(self, folders):
        self.folders = set(folders)
        self.files = {}

    def makedirs(self, p, mode=0o777, exist_ok=False):
        p = str(p).rstrip('/')
        if p in self.folders and not exist_ok:
            raise FileExistsError(p)
        while p and p not in self.folders:
            self.folders.add(p)
            p = os.path.dirname(p)

    def exists(self, p):
        return str(p).rstrip('/') in self.folders or str(p) in self.files

    def copy(self, a, b, **k):
        b = str(b)
        if b.rstrip('/') in self.folders:
            b = os.path.join(b, os.path.basename(a))
        elif os.path.dirname(b) not in self.folders:
            raise FileNotFoundError(b)
        self.files[b] = a
        return b


def sky(ctx, kinds):
    """A sky box puts its six images where the map it is attached to says they are."""
    base = '/no/such/game' + ctx.choice('slash', ['', '/'])
    folders = ['/no', '/no/such', '/no/such/game', '/no/such/game/data', '/no/such/game/data/hxr', '/no/such/game/data/hxr/skybox']
    disk = Disk(folders[:ctx.choice('there', [3, 4, 6])])
    saved = (shutil.copy, shutil.copyfile, shutil.copy2, os.makedirs, os.path.exists, os.path.isdir)
    shutil.copy = shutil.copyfile = shutil.copy2 = disk.copy
    os.makedirs, os.path.exists, os.path.isdir = disk.makedirs, disk.exists, disk.exists
    try:
        import redeclipse.skybox as S
        kind = ctx.choice('kind', kinds)
        cls = getattr(S, kind) if hasattr(S, kind) else type('Own', (S.Skybox,), {'basename': 'own_sky'})
        box = cls(base)
        if ctx.choice('again', [False, True]):
            # images of another edition of the same sky
            disk.files = {k: '/old/' + os.path.basename(v) for k, v in disk.files.items()}
            box = cls(base)
        other = S.DesertSky(base) if ctx.choice('two', [False, True]) else None
    finally:
        shutil.copy, shutil.copyfile, shutil.copy2, os.makedirs, os.path.exists, os.path.isdir = saved
    home = os.path.dirname(S.__file__)
    fog = ctx.int('fog', *mapfile.I32)
    name = ctx.bytes('title', 3, 1)
    had = ctx.choice('had', [None, 0, 1, 2])
    vs = [(b'fog', 0, fog), (b'maptitle', 2, name)]
    if had is not None:
        vs.insert(had, (b'skybox', 2, b'hxr/skybox/before'))
    ctx.write_file(ctx.path('in.mpz'), mapfile.enc_map(ctx, mvars=vs, chg=[-2]))
    m = MapParser().read(ctx.path('in.mpz'))
    m.skybox(box)
    m.write(ctx.path('out.mpz'))
    back = MapParser().read(ctx.path('out.mpz')).map_vars
    ctx.check(sorted(back) == [b'fog', b'maptitle', b'skybox'], 'the variables of the map, and its sky')
    ctx.check(ctx.all(back[b'fog'] == fog, ctx.eq(back[b'maptitle'], name)), 'the other variables keep their values')
    short = back[b'skybox'].decode()
    for f in FACES:
        there = [p for p in disk.files if p.rsplit('.', 1)[0] == '/no/such/game/data/%s_%s' % (short, f) and p.endswith(('.jpg', '.png'))]
        ctx.check(len(there) == 1, 'every face lies where the map says')
        if there:
            src = disk.files[there[0]]
            ctx.check(os.path.dirname(src) == home and os.path.basename(src) == os.path.basename(there[0]), 'a face is the image of that face of the sky')
            if cls.__name__ != 'Own':
                ctx.check(ctx.shipped(src), 'the image exists')
    ctx.check(len(disk.files) == 6 * (2 if other and kind != 'DesertSky' else 1), 'and no other file')
    ctx.reach('end')
