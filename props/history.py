"""A check made after the same parts of the repository have been used for something else."""
import importlib
import redeclipse.aftereffects as ae
import redeclipse.lighting as lighting
import redeclipse.prefabs as prefabs
import redeclipse.upm as upm_module
from redeclipse import worldflavors
from redeclipse.magicavoxel.writer import to_magicavoxel
from redeclipse.objects import cube
from redeclipse.upm import UnusedPositionManager
from redeclipse.vector import BaseVector, CoarseVector, FineVector
from redeclipse.vector.orientations import EAST, NORTH, SOUTH, WEST, ABOVE
from redeclipse.voxel import VoxelWorld


class Fixed(object):
    """Random numbers of the earlier use."""
    n = 0

    def random(self):
        self.n += 1
        return (self.n * 7 % 16 + 0.5) / 16

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def randint(self, a, b):
        return a + (self.n * 5 + 3) % (b - a + 1)

    def choice(self, s):
        return s[self.n * 3 % len(s)]

    def sample(self, s, k):
        return list(s)[::-1][:k]

    def shuffle(self, s):
        s.reverse()


class put(object):
    """A module's random numbers are the fixed ones for a while."""
    def __init__(self, *modules):
        self.modules = [m for m in modules if hasattr(m, 'random')]

    def __enter__(self):
        self.old = [m.random for m in self.modules]
        for m in self.modules:
            m.random = Fixed()

    def __exit__(self, *a):
        for m, r in zip(self.modules, self.old):
            m.random = r


class Sink(object):
    def __init__(self):
        self.ents = []


def vectors(ctx):
    for k in (BaseVector, CoarseVector, FineVector):
        for a, b, c in ((1, 2, 3), (-3, 0, 5), (0, 0, 0), (1, 1, 1)):
            v = k(a, b, c)
            for r in (0, 90, 180, 270, -90, EAST, NORTH, WEST, SOUTH):
                v.rotate(r), v.offset_rotate(r, offset=k(1, 2, 0))
            hash(v), v == k(a, b, c), v < k(1, 2, 3), v + k(1, 1, 1), v * 2, repr(v)
    for v in (EAST, NORTH, WEST, SOUTH):
        v.rotate(90)
    for a, b, c in ((1, 2, 3), (-3, 0, 5)):
        CoarseVector(a, b, c).fine(), FineVector(8 * a, 8 * b, 8 * c).coarse()
        CoarseVector(a, b, c) + FineVector(a, b, c), FineVector(a, b, c) - CoarseVector(a, b, c)


def placing(ctx):
    from props.placing import CLASSES
    with put(upm_module, prefabs):
        for mirror, facing in ((4, NORTH), (1, EAST)):
            u = UnusedPositionManager(256, mirror=mirror)
            a = CLASSES['hall'](pos=CoarseVector(5, 6, 3), orientation=facing)
            b = CLASSES['ell'](pos=CoarseVector(9, 3, 3), orientation=facing)
            for r in (a, b):
                if u.preregister_room(r):
                    u.register_room(r)
            u.preregister_room(CLASSES['one'](pos=CoarseVector(5, 6, 3)))
            u.register_link(a, b)
            u.place_rooms(False, [CLASSES['one'], CLASSES['turn'], CLASSES['flag']], rooms=3)
            u.endcap(False, [CLASSES['cap']])
        for n in range(1, 41):
            UnusedPositionManager.weighted_choice([('c%d' % i, (i * 5 + n) % 11 + 1) for i in range(n)])


def worlds(ctx):
    with put(ae):
        for size in (2, 4, 8):
            w = VoxelWorld(size=size)
            for p in ((0, 0, 0), (1, 0, 1), (size - 1, size - 1, 0)):
                w.set_point(p[0], p[1], p[2], cube.newtexcube(tex=77))
            w.set_pointv(FineVector(1, 1, 1), cube.newtexcube(tex=78))
            w.to_octree()
            w.del_point(1, 0, 1)
            w.get_point(1, 1, 1)
            w.to_octree()
            ae.box(w), ae.box_outline(w, height=1), ae.grid(w, size=2)
            ae.growth(w, lambda x, y, z: 0.5), ae.decay(w, lambda x, y, z: 0.5)
        u = UnusedPositionManager(64)
        u.unoccupied.append((CoarseVector(2, 1, 1), None, None))
        ae.endcap(VoxelWorld(size=64), u)


def kits(ctx):
    from props import kit
    import redeclipse.prefabs.construction_kit as module
    with put(module):
        w = VoxelWorld(size=256)
        for what in ('cube', 'floor', 'ceiling', 'prism', 'ring', 'wall', 'low_wall', 'column', 'dotted'):
            for o in ('SOUTH', 'EAST', 'NORTH', 'WEST'):
                name, args, kw, local = kit.shape(Plain(), what, FineVector(1, 2, 3), (0, 0, 0), small=True)
                kit.Kit(CoarseVector(3, 4, 5), kit.TURNS[o][0]).x(name, w, *args, **dict(kw, tex=9))
                kit.Kit(FineVector(3, 4, 5), kit.TURNS[o][0]).x(name, w, *args, **dict(kw, tex=8, prob=0.5))
                kit.Kit(CoarseVector(3, 4, 5), kit.TURNS[o][0]).x(name, w, *args, subtract=True, **kw)


class Plain(object):
    """A context that always takes the first option."""
    def choice(self, name, options):
        return list(options)[0]

    def int(self, name, lo, hi):
        return lo


def lights(ctx):
    for cls in (lighting.LightManager, lighting.PositionBasedLightManager):
        for ws, br in ((128, 0.5), (512, 1.0)):
            lm = cls(brightness=br, saturation=0.5, world_size=ws)
            m = Sink()
            for p in (CoarseVector(1, 2, 3), FineVector(9, 8, 7)):
                for kw in ({}, {'size_factor': 3}, {'autocenter': False}):
                    lm.light(m, p, colour_override=(7, 8, 9), **kw)
                    if cls is lighting.LightManager:
                        lm.light(m, p, **kw)


def textures(ctx):
    from props.textures import manager
    for which in ('minecraft', 'dull', 'paper', 'primary'):
        t = manager(which)
        names = sorted(k for k in t.texref if k not in ('sky', 'default', 'simplecolourtex', 'paperbase') and getattr(t.texref[k], 'c', '') is not None)
        for k in names[::-1][:4]:
            t.get(k)
        t.emit_conf(Named(ctx.path('earlier.mpz')))
        t.get(names[0])
        t.emit_conf(Named(ctx.path('earlier.mpz')))
    t = manager('auto')
    for i in range(3):
        t.get_colour(i / 4, 0.5, 0.25)
    t.emit_conf(Named(ctx.path('earlier.mpz')))


class Named(object):
    def __init__(self, name):
        self.name = name


class Tex(object):
    def __init__(self, r, g, b):
        self.r, self.g, self.b = r, g, b


class Atlas(object):
    def __init__(self, n):
        self.atlas = {i: Tex(i / n, 0.5, 1 - i / n) for i in range(n)}


def models(ctx):
    for n in (4, 2):
        w = VoxelWorld(size=64)
        for i in range(n):
            w.set_pointv(FineVector(i, 2, 3 + i), cube.newtexcube(tex=i))
        with open(ctx.path('earlier%d.vox' % n), 'wb') as handle:
            to_magicavoxel(w, handle, Atlas(n))


def maps(ctx):
    from props import mapfile as mf
    from props import entities as en
    for n in (2, 3):
        m = mf.load(ctx, mf.enc_map(
            ctx, meta={'worldsize': 64 * n}, mvars=[(b'fog', 0, n), (b'maptitle', 2, b'earlier'), (b'f', 1, 0.5)], mru=[9, n],
            chg=[-5]), 'earlier.mpz')
        for k in ('spawn', 'light', 'model', 'pusher', 'flag', 'sun'):
            m.ents.append(en.KINDS[k][0](xyz=CoarseVector(n, 1, 2)))
        m.ents[0].links.append(4)
        w = VoxelWorld(size=4)
        w.set_point(n, 1, 1, cube.newtexcube(tex=60 + n))
        m.world = w.to_octree()
        worldflavors.update(m, ['crushed_blacks', 'space_station'])
        m.skybox(Skybox())
        m.write(ctx.path('earlier%d.mpz' % n))
        m.to_dict()
        mf.MapParser().read(ctx.path('earlier%d.mpz' % n))
        m.cfg_extra.append('earlier')


class Skybox(object):
    def get_short_path(self):
        return 'earlier/sky'


USES = {f.__name__: f for f in (vectors, placing, worlds, kits, lights, textures, models, maps)}


def after(ctx, uses, module, func, config):
    """The check of another harness, after other uses."""
    for u in uses:
        USES[u](ctx)
    getattr(importlib.import_module('props.' + module), func)(ctx, **config)
