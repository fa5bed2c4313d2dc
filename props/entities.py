"""Entities made for the voxel world, their dictionary form, and the lights."""
import colorsys
import json
from redeclipse import Map
from redeclipse.entities import Entity, PlayerSpawn, Sunlight, Light, Pusher, TeamFlag
from redeclipse.entities.model import MapModel
from redeclipse.entities.weapon import Weapon, Grenade, Shotgun
from redeclipse.enums import EntType, WeaponType
from redeclipse.vector import FineVector, CoarseVector
import redeclipse.lighting as lighting
from props import mapfile as mf

# kind -> (constructor, type code, fixed first attributes, attributes in file order)
KINDS = {
    'spawn': (PlayerSpawn, 3, [], ['team', 'yaw', 'pitch', 'modes', 'muts', 'id']),
    'sun': (Sunlight, 8, [], ['yaw', 'pitch', 'red', 'green', 'blue', 'offset', 'flare', 'flarescale']),
    'light': (Light, 1, [], ['radius', 'red', 'green', 'blue', 'flare', 'flarescale']),
    'pusher': (Pusher, 13, [], ['yaw', 'pitch', 'force', 'maxrad', 'minrad', 'type']),
    'flag': (TeamFlag, 14, [], ['team', 'yaw', 'pitch', 'modes', 'muts', 'id']),
    'model': (MapModel, 2, [], ['type', 'yaw', 'pitch', 'roll', 'blend', 'scale', 'flags', 'colour', 'palette',
                                'palindex', 'spinyaw', 'spinpitch', 'spinroll']),
    'weapon': (Weapon, 9, [], ['type', 'flags', 'modes', 'muts', 'id']),
    'grenade': (Grenade, 9, [9], ['flags', 'modes', 'muts', 'id']),
    'shotgun': (Shotgun, 9, [3], ['flags', 'modes', 'muts', 'id']),
}


def position(ctx, n, unit, half):
    if unit == 'fine':
        return FineVector(*[ctx.real(n + c, -4096, 4096, 1 if half else 0) for c in 'xyz']), 4
    return CoarseVector(*[ctx.real(n + c, -512, 512, 1 if half else 0) for c in 'xyz']), 32


def fresh_map(ctx):
    return mf.load(ctx, mf.enc_map(ctx))


def code(v):
    return v if isinstance(v, int) else v.value


def attr_value(ctx, kind, name):
    if kind == 'weapon' and name == 'type':
        return ctx.choice('a_type', mf.WEAPONS)
    return ctx.int('a_' + name, *mf.I32)


def made(ctx, kind, unit, half, given):
    """An entity lies where it was put, has the attributes given, and is saved that way."""
    ctor, etype, fixed, names = KINDS[kind]
    pos, scale = position(ctx, 'p', unit, half)
    kw = {}
    for i, n in enumerate(names):
        if given == 'all' or (given == 'some' and i % 2) or (kind == 'weapon' and n == 'type'):
            kw[n] = attr_value(ctx, kind, n)
    links = [ctx.int('l%d' % i, *mf.I32) for i in range(2)] if given == 'all' else None
    reserved = [ctx.int('r%d' % i, 0, 255) for i in range(3)] if given == 'all' else None
    e = ctor(xyz=pos, links=links, reserved=reserved, **kw) if given == 'all' else ctor(xyz=pos, **kw)
    e2 = ctor(xyz=pos) if kind != 'weapon' else ctor(xyz=pos, type=0)
    m = fresh_map(ctx)
    m.ents.append(e)
    m.ents.append(e2)
    m2 = mf.MapParser().read(saved(ctx, m))
    ctx.check(len(m2.ents) == 2, 'the saved map has the entities')
    for x in (e, m2.ents[0]):
        if kind != 'sun':
            ctx.check(ctx.all(x.o.x == pos.x * scale, x.o.y == pos.y * scale, x.o.z == pos.z * scale),
                      'an entity lies at its position')
        ctx.check(code(x.type) == etype, 'type of the entity')
        ctx.check(len(x.attrs) == len(fixed) + len(names), 'number of attributes')
        for f, a in zip(fixed, x.attrs):
            ctx.check(code(a) == f, 'fixed attribute')
        for n, a in zip(names, x.attrs[len(fixed):]):
            if n in kw:
                ctx.check(code(a) == kw[n], 'attribute given')
        ctx.check(ctx.eq(list(x.links), links or []), 'links')
        ctx.check(ctx.eq(list(x.reserved), reserved or [0, 0, 0]), 'reserved bytes')
    for a, b in zip(e2.attrs, m2.ents[1].attrs):
        ctx.check(code(a) == code(b), 'default attributes are saved')
    ctx.observe('o', [e.o.x, e.o.y, e.o.z])
    ctx.reach('end')


def saved(ctx, m):
    p = ctx.path('out.mpz')
    m.write(p)
    return p


def unshared(ctx, kind):
    """Entities made with defaults share nothing: changing one changes no other."""
    ctor, etype, fixed, names = KINDS[kind]
    kw = {'type': 0} if kind == 'weapon' else {}
    a, b = [ctor(xyz=FineVector(1, 2, 3), **kw) for _ in range(2)]
    before = [list(b.attrs), list(b.links), list(b.reserved), [b.o.x, b.o.y, b.o.z]]
    a.links.append(ctx.int('l', *mf.I32))
    a.reserved[1] = ctx.int('r', 1, 255)
    a.attrs[len(fixed)] = ctx.int('a', *mf.I32)
    a.o.x = ctx.int('x', 100, 200)
    c = ctor(xyz=FineVector(1, 2, 3), **kw)
    for o in (b, c):
        ctx.check(ctx.eq([list(o.attrs), list(o.links), list(o.reserved), [o.o.x, o.o.y, o.o.z]], before),
                  'other entities are as they were')
    ctx.reach('end')


# -- JSON -------------------------------------------------------------------------------

def from_json(ctx, text):
    return json.loads(text)


def exported(ctx, kinds, varkinds, cells):
    """The JSON export shows everything the map holds."""
    ents = [mf.sym_ent(ctx, i, k, i % 3) for i, k in enumerate(kinds)]
    mvars = [(b'v%d' % i, k, v) for i, (_, k, v) in enumerate(mf.sym_vars(ctx, [(1, k, 4) for k in varkinds if k != 2]))]
    if 2 in varkinds:
        mvars.append((b'maptitle', 2, ctx.choice('text', [b'some text', b'2049', b'', b'-1.5', b'null', b'"q\\n'])))
    mru = [ctx.int('mru%d' % i, 0, 65535) for i in range(2)]
    version = ctx.int('version', *mf.I32)
    gv = ctx.int('gamever', *mf.I32)
    tree = [dict(mf.EMPTY) for _ in range(8)]
    for i, (o, mask) in enumerate(cells):
        c = mf.sym_cell(ctx, 'c%d' % i, o, mask)
        if i % 2:
            c = {'octsav': 0, 'children': [mf.EMPTY, mf.EMPTY, c] + [mf.EMPTY] * 5}
        tree[2 * i + 1] = c
    data = mf.enc_map(ctx, version=version, meta={'gamever': gv}, mvars=mvars, mru=mru, ents=ents, chg=[-3], cells=tree)
    m = mf.load(ctx, data)
    d = from_json(ctx, m.to_json())
    ctx.check(d['magic'] == 'MAPZ', 'magic')
    ctx.check(ctx.all(d['version'] == version, d['headersize'] == 48), 'version and header size')
    meta = dict((k, v) for k, v in d['meta'])
    ctx.check(ctx.all(meta['gamever'] == gv, meta['worldsize'] == 1024, meta['numents'] == len(ents)), 'header fields')
    ctx.check(meta['gameident'] == 'fps', 'game identifier')
    ctx.check(len(d['map_vars']) == len(mvars), 'number of map variables')
    for (k, v), (n, kind, w) in zip(d['map_vars'], mvars):
        ctx.check(k == n.decode(), 'name of a map variable')
        ctx.check(ctx.eq(v, w.decode() if kind == 2 else w), 'value of a map variable')
    ctx.check(ctx.eq(list(d['texmru']), mru), 'recent textures')
    ctx.check(len(d['entities']) == len(ents), 'number of entities')
    for x, w in zip(d['entities'], ents):
        ctx.check(ctx.eq(list(x['position']), w['pos']), 'position of an entity')
        ctx.check(x['type'] == EntType(w['type']).name, 'type of an entity')
        ctx.check(ctx.eq(list(x['links']), w['links']), 'links of an entity')
        ctx.check(ctx.eq(list(x['reserved']), w['reserved']), 'reserved bytes of an entity')
        order = x['attr']['_order']
        ctx.check(len(order) == len(w['attrs']), 'number of attributes')
        for i, (n, a) in enumerate(zip(order, w['attrs'])):
            v = x['attr'][n]
            if w['type'] == 9 and i == 0:
                ctx.check(v == WeaponType(a).name, 'kind of a weapon')
            else:
                ctx.check(v == a, 'attribute of an entity')
    ctx.check(len(d['world']) == 8 and len(d['vslots']) == 3, 'octree and texture slots')
    for x, w in zip(d['world'], tree):
        same_json_cell(ctx, x, w)
    ctx.reach('end')
    m2 = Map.from_dict(d)
    again = from_json(ctx, m2.to_json())
    for k in d:
        if k != 'world':
            ctx.check(ctx.eq(again[k], d[k]), 'the JSON form of the restored map')
    m2.world = m.world
    ctx.check(len(m2.ents) == len(ents), 'number of entities')
    for x, w in zip(m2.ents, ents):
        mf.same_ent(ctx, x, w, 'restored')
    m2.write(ctx.path('o.mpz'))
    out = ctx.read_file(ctx.path('o.mpz'))
    ctx.check(len(out) == len(data), 'length of the restored map')
    ctx.check(ctx.eq(out, data), 'the restored map is the exported one')
    ctx.reach('restored')


def same_json_cell(ctx, x, w):
    ctx.check(x['octsav'] == w['octsav'], 'kind of a cell')
    if w['octsav'] % 8 == 0:
        ctx.check(len(x['children']) == 8, 'children of a cell')
        for a, b in zip(x['children'], w['children']):
            same_json_cell(ctx, a, b)
        return
    ctx.check(len(x['children']) == 0, 'a leaf has no children')
    ctx.check(ctx.eq(list(x['texture']), w['texture']), 'textures of a cell')
    if w['octsav'] % 8 == 3:
        ctx.check(ctx.eq(list(x['edges']), w['edges']), 'edges of a cell')
    if w['octsav'] & 0x40:
        ctx.check(x['material'] == w['material'], 'material of a cell')
    if w['octsav'] & 0x80:
        ctx.check(x['merged'] == w['merged'], 'merge mask of a cell')
    if w['octsav'] & 0x20:
        ctx.check(ctx.all(x['surfmask'] == w['surfmask'], x['totalverts'] == w['totalverts']), 'surface header')
        for i in range(6):
            if w['surfmask'] >> i & 1:
                s, t = x['ext']['surfaces'][i], w['surfaces'][i]
                ctx.check(ctx.all(s['lmid'][0] == t[0], s['lmid'][1] == t[1], s['numverts'] == t[3]), 'surface of a face')


def exported_made(ctx, kind):
    """Generated entities export and come back too."""
    ctor, etype, fixed, names = KINDS[kind]
    pos, scale = position(ctx, 'p', 'fine', False)
    kw = {n: attr_value(ctx, kind, n) for n in names}
    m = fresh_map(ctx)
    m.ents.append(ctor(xyz=pos, **kw))
    d = from_json(ctx, m.to_json())
    x = d['entities'][0]
    ctx.check(x['type'] == EntType(etype).name, 'type of an entity')
    ctx.check(ctx.eq(list(x['position']), [m.ents[0].o.x, m.ents[0].o.y, m.ents[0].o.z]), 'position of an entity')
    for n in names:
        if etype == 9 and n == 'type':
            ctx.check(x['attr'][n] == WeaponType(kw[n]).name, 'kind of a weapon')
        else:
            ctx.check(x['attr'][n] == kw[n], 'attribute of an entity')
    if fixed:
        ctx.check(x['attr']['type'] == WeaponType(fixed[0]).name, 'kind of a weapon')
    ctx.reach('end')
    m2 = Map.from_dict(d)
    # what was read from the same text before and changed since is another map
    for e in Map.from_dict(from_json(ctx, m.to_json())).ents:
        e.o.x = e.o.x + 4
        e.attrs[:] = [0] * len(e.attrs)
        e.links.append(7)
    m2.world = m.world
    m.write(ctx.path('a.mpz'))
    m2.write(ctx.path('b.mpz'))
    ctx.check(ctx.eq(ctx.read_file(ctx.path('a.mpz')), ctx.read_file(ctx.path('b.mpz'))), 'the restored map is the same')
    ctx.reach('restored')


# -- lights -------------------------------------------------------------------------------

class Holder(object):
    def __init__(self):
        self.ents = []


def light(ctx, unit, half, manager, override):
    """One light, at its place, in its colour."""
    ws = ctx.choice('ws', [64, 128, 256, 512, 1024, 4096])
    cls = getattr(lighting, manager)
    lm = cls(brightness=ctx.choice('br', [0.5, 1.0]), saturation=1.0, world_size=ws)
    pos, scale = position(ctx, 'p', unit, half)
    auto = ctx.bool('auto')
    auto = ctx.fix(auto)
    size = ctx.int('size', 0, 64) / 8
    h = Holder()
    h.ents.append('first')
    rgb = [ctx.int('c' + c, 0, 255) for c in 'rgb'] if override else None
    kw = {} if auto and ctx.fix(ctx.bool('default')) else {'autocenter': auto}
    if override:
        kw['colour_override'] = tuple(rgb)
    # an earlier light of the same manager, for another map
    lm.light(Holder(), CoarseVector(1, 2, 3), colour_override=(9, 8, 7), autocenter=not auto, size_factor=3)
    lm.light(h, pos, size_factor=size, **kw)
    ctx.check(len(h.ents) == 2 and h.ents[0] == 'first', 'exactly one entity is added')
    e = h.ents[1]
    fine = [v * (scale // 4) for v in pos]
    if auto:
        fine = [v + 4 for v in fine]
    ctx.check(ctx.all(e.o.x * ws == fine[0] * 1024, e.o.y * ws == fine[1] * 1024, e.o.z * ws == fine[2] * 1024),
              'a light lies at its position')
    ctx.check(code(e.type) == 1, 'a light is a light')
    ctx.check(e.attrs[0] == 64 * size, 'the radius is scaled')
    if override:
        ctx.check(ctx.eq(list(e.attrs[1:4]), rgb), 'the colour asked for')
    elif manager == 'LightManager':
        ctx.check(ctx.eq(list(e.attrs[1:4]), [255, 255, 255]), 'white light by default')
    else:
        for c in e.attrs[1:4]:
            ctx.check(ctx.all(0 <= c, c <= 255), 'colours are bytes')
    # and the same light again, there and on another map
    other = Holder()
    lm.light(h, pos, size_factor=size, **kw)
    lm.light(other, pos, size_factor=size, **kw)
    ctx.check(len(h.ents) == 3 and len(other.ents) == 1, 'a light each time one is asked for')
    for f in (h.ents[2], other.ents[0]):
        ctx.check(f is not e and ctx.eq([f.o.x, f.o.y, f.o.z] + list(f.attrs), [e.o.x, e.o.y, e.o.z] + list(e.attrs)), 'the same light again')
    ctx.reach('end')


class Colours(object):
    """colorsys with an arbitrary hue; the way back is the real one."""

    def __init__(self, ctx):
        self.ctx = ctx

    def rgb_to_hsv(self, r, g, b):
        for v in (r, g, b):
            self.ctx.check(self.ctx.all(0 <= v, v <= 255), 'colours of the noise are bytes')
        return (self.ctx.int('hue', 0, 1023) / 1024, 1, 255)

    def hsv_to_rgb(self, *a):
        return colorsys.hsv_to_rgb(*a)


def hue(ctx, brightness, saturation):
    """Whatever the noise says, the colour is a full one of the given brightness."""
    lighting.colorsys = Colours(ctx)
    lm = lighting.PositionBasedLightManager(brightness=brightness, saturation=saturation, world_size=256)
    pos, scale = position(ctx, 'p', 'fine', False)
    c = lm.hue(pos)
    ctx.check(len(c) == 3, 'three channels')
    top = int(255 * min(brightness, 1.0))
    for v in c:
        ctx.check(isinstance(v, int), 'whole numbers')
        ctx.check(ctx.all(0 <= v, v <= top), 'colours are within the brightness')
    ctx.check(ctx.any(*[v == top for v in c]), 'one channel has the full brightness')
    if saturation == 1.0:
        ctx.check(ctx.any(*[v == 0 for v in c]), 'a fully saturated colour')
    ctx.observe('c', list(c))
    ctx.reach('end')
