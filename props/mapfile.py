"""The map file: an independent encoder of the format, and the harnesses that
read and write maps through the real MapParser and Map."""
from collections import OrderedDict
from redeclipse import Map, MapParser
from redeclipse.objects import cube, VSlot
from redeclipse.entities import Entity
from redeclipse.enums import EntType

I32 = (-2 ** 31, 2 ** 31 - 1)
META = ['worldsize', 'numents', 'numpvs', 'lightmaps', 'blendmap', 'numvslots', 'gamever', 'revision']


def i32(ctx, v):
    return ctx.pack('<i', v)


def u16(ctx, v):
    return ctx.pack('<H', v)


def u8(ctx, v):
    return ctx.pack('<B', v)


def enc_vars(ctx, vs):
    out = []
    for name, kind, val in vs:
        out += [i32(ctx, len(name)), name, b'\0', i32(ctx, kind)]
        if kind == 0:
            out.append(i32(ctx, val))
        elif kind == 1:
            out.append(ctx.pack('<f', val))
        else:
            out += [i32(ctx, len(val)), val, b'\0']
    return out


def enc_ents(ctx, ents):
    out = []
    for e in ents:
        out.append(ctx.pack('<fff', *e['pos']))
        out.append(u8(ctx, e['type']))
        out += [u8(ctx, r) for r in e['reserved']]
        out.append(i32(ctx, len(e['attrs'])))
        out += [i32(ctx, a) for a in e['attrs']]
        out.append(i32(ctx, len(e['links'])))
        out += [i32(ctx, a) for a in e['links']]
    return out


def enc_cell(ctx, c):
    out = [u8(ctx, c['octsav'])]
    if c['octsav'] % 8 == 0:
        for k in c['children']:
            out += enc_cell(ctx, k)
        return out
    if c['octsav'] % 8 == 3:
        out += [u8(ctx, e) for e in c['edges']]
    out += [u16(ctx, t) for t in c['texture']]
    if c['octsav'] & 0x40:
        out.append(u16(ctx, c['material']))
    if c['octsav'] & 0x80:
        out.append(u8(ctx, c['merged']))
    if c['octsav'] & 0x20:
        out += [u8(ctx, c['surfmask']), u8(ctx, c['totalverts'])]
        for i in range(6):
            if c['surfmask'] >> i & 1:
                out += [u8(ctx, s) for s in c['surfaces'][i]]
    return out


EMPTY = {'octsav': 1, 'texture': [1] * 6}


def enc_map(ctx, magic=b'MAPZ', version=43, headersize=48, meta=None, ident=b'fps', mvars=(), mru=(), ents=(), chg=(),
            cells=None):
    m = {'worldsize': 1024, 'numpvs': 0, 'lightmaps': 0, 'blendmap': 0, 'gamever': 229, 'revision': 2}
    m.update(meta or {})
    m['numents'] = len(ents)
    m['numvslots'] = -sum(chg)
    out = [magic, i32(ctx, version), i32(ctx, headersize)]
    out += [i32(ctx, m[k]) for k in META]
    out += [ident, b'\0', i32(ctx, len(mvars))]
    out += enc_vars(ctx, mvars)
    out.append(u16(ctx, len(mru)))
    out += [u16(ctx, t) for t in mru]
    out += enc_ents(ctx, ents)
    out += [i32(ctx, c) for c in chg]
    for c in (cells or [EMPTY] * 8):
        out += enc_cell(ctx, c)
    return ctx.join(out)


def load(ctx, data, name='in.mpz'):
    p = ctx.path(name)
    ctx.write_file(p, data)
    return MapParser().read(p)


def save(ctx, m, name='out.mpz'):
    p = ctx.path(name)
    m.write(p)
    ctx.check(ctx.open_files() == 0, 'no file is left open')
    return ctx.read_file(p)


def sym_vars(ctx, kinds):
    vs = []
    for i, (n, kind, size) in enumerate(kinds):
        # names of map variables are distinct
        name = ctx.join([bytes([97 + i]), ctx.bytes('name%d' % i, n - 1)]) if n else b''
        if kind == 0:
            val = ctx.int('var%d' % i, *I32)
        elif kind == 1:
            val = ctx.real('var%d' % i, -2 ** 15, 2 ** 15, size)
        else:
            val = ctx.bytes('var%d' % i, size)
        vs.append((name, kind, val))
    return vs


def many_vars(n):
    return [(b'v%d' % i, i % 3, (i * 37 - 5, i * 0.25 - 3, b'text %d' % i)[i % 3]) for i in range(n)]


def header(ctx, kinds, nmru, chg, magic='MAPZ', ident=3, more=0):
    """read(file) gives what the file says; write gives the same file back."""
    version, hsize = ctx.int('version', *I32), ctx.int('headersize', *I32)
    meta = {k: ctx.int(k, *I32) for k in ('numpvs', 'lightmaps', 'blendmap', 'gamever', 'revision')}
    meta['worldsize'] = ctx.choice('worldsize', [2, 256, 1024, 8192])
    ident = ctx.bytes('ident', 3)
    mvars = many_vars(more)
    mvars[more // 2:more // 2] = sym_vars(ctx, kinds)
    mru = [ctx.int('mru%d' % i, 0, 65535) for i in range(nmru)]
    data = enc_map(ctx, magic.encode(), version, hsize, meta, ident, mvars, mru, (), chg)
    m = load(ctx, data)
    ctx.check(ctx.eq(m.magic, magic.encode()), 'magic')
    ctx.check(ctx.all(m.version == version, m.headersize == hsize), 'version and header size')
    for k in META:
        if k in meta:
            ctx.check(m.meta[k] == meta[k], 'header field ' + k)
    ctx.check(m.meta['numents'] == 0 and m.meta['numvslots'] == -sum(chg) and m.meta['numvars'] == len(mvars),
              'header counts')
    ctx.check(ctx.eq(m.meta['gameident'], ident), 'game identifier')
    got = list(m.map_vars.items())
    ctx.check(len(got) == len(mvars), 'number of map variables')
    for (gn, gv), (n, kind, v) in zip(got, mvars):
        ctx.check(ctx.eq(gn, n), 'name of a map variable')
        ctx.check(ctx.eq(gv, v), 'value of a map variable')
        ctx.check(isinstance(gv, (int, float, bytes)[kind]), 'type of a map variable')
    ctx.check(len(m.texmru) == nmru and ctx.eq(list(m.texmru), mru), 'recently used textures')
    ctx.check(len(m.vslots) == -sum(chg), 'number of texture slots')
    ctx.check(len(m.world) == 8, 'eight root cubes')
    out = save(ctx, m)
    ctx.check(len(out) == len(data), 'length of the written file')
    ctx.check(ctx.eq(out, data), 'reading and writing reproduces the file')
    ctx.observe('version', m.version)
    ctx.reach('end')


ARITY = {1: 6, 2: 13, 3: 6, 8: 8, 9: 5, 13: 6, 14: 6}
WEAPONS = [0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]


def sym_ent(ctx, i, kind, nlinks, wide=True):
    lim = 2 ** 14
    pos = [ctx.real('e%d%s' % (i, c), -lim, lim, 6) for c in 'xyz']
    attrs = [ctx.int('e%da%d' % (i, k), *I32) for k in range(ARITY[kind])]
    if kind == 9:
        attrs[0] = ctx.choice('e%dw' % i, WEAPONS)
    links = [ctx.int('e%dl%d' % (i, k), *I32) for k in range(nlinks)]
    reserved = [ctx.int('e%dr%d' % (i, k), 0, 255) for k in range(3)]
    return {'pos': pos, 'type': kind, 'attrs': attrs, 'links': links, 'reserved': reserved}


def many_ents(n):
    ents = []
    for i in range(n):
        kind = sorted(ARITY)[i % len(ARITY)]
        attrs = [(i * 7 + k * 3 - 4) * (70000 if k == 1 else 1) for k in range(ARITY[kind])]
        if kind == 9:
            attrs[0] = WEAPONS[i % len(WEAPONS)]
        ents.append({'pos': [i * 8.0, i * 0.5 + 3, 1000 - i], 'type': kind, 'attrs': attrs, 'links': list(range(i, i + i % 4)), 'reserved': [i % 256, 0, 3]})
    return ents


def same_ent(ctx, e, want, what):
    ctx.check(e.type is EntType(want['type']) or e.type == EntType(want['type']), what + ': type')
    ctx.check(ctx.all(e.o.x == want['pos'][0], e.o.y == want['pos'][1], e.o.z == want['pos'][2]), what + ': position')
    ctx.check(len(e.attrs) == len(want['attrs']) and len(e.links) == len(want['links']), what + ': sizes')
    for k, (a, b) in enumerate(zip(e.attrs, want['attrs'])):
        v = a if isinstance(a, int) else a.value
        ctx.check(v == b, what + ': attribute')
    ctx.check(ctx.eq(list(e.links), want['links']), what + ': links')
    ctx.check(ctx.eq(list(e.reserved), want['reserved']), what + ': reserved bytes')


def entities(ctx, kinds, nlinks, more=0):
    """Entities survive reading and writing bit for bit."""
    ents = many_ents(more)
    ents[more // 2:more // 2] = [sym_ent(ctx, i, k, nl) for i, (k, nl) in enumerate(zip(kinds, nlinks))]
    data = enc_map(ctx, ents=ents)
    m = load(ctx, data)
    ctx.check(len(m.ents) == len(ents), 'number of entities')
    for e, w in zip(m.ents, ents):
        same_ent(ctx, e, w, 'read')
    ctx.reach('read')
    out = save(ctx, m)
    ctx.check(len(out) == len(data), 'length of the written file')
    ctx.check(ctx.eq(out, data), 'reading and writing reproduces the file')
    ctx.reach('end')


# -- octree -------------------------------------------------------------------------

def sym_cell(ctx, n, octsav, mask=None, verts='layer'):
    c = {'octsav': octsav, 'texture': [ctx.int('%st%d' % (n, i), 0, 65535) for i in range(6)]}
    if octsav % 8 == 3:
        c['edges'] = [ctx.int('%se%d' % (n, i), 0, 255) for i in range(12)]
    if octsav & 0x40:
        c['material'] = ctx.int(n + 'm', 0, 65535)
    if octsav & 0x80:
        c['merged'] = ctx.int(n + 'g', 0, 255)
    if octsav & 0x20:
        c['surfmask'] = ctx.choice(n + 'mask', range(64)) if mask is None else mask
        c['totalverts'] = ctx.int(n + 'v', 0, 255)
        c['surfaces'] = {}
        for i in range(6):
            if c['surfmask'] >> i & 1:
                nv = ctx.int('%snv%d' % (n, i), 0, 7 if verts == 'layer' else 15)
                c['surfaces'][i] = [ctx.int('%sl%d' % (n, i), 0, 255), ctx.int('%sk%d' % (n, i), 0, 255), 0, nv * 16]
    return c


def same_cell(ctx, c, want):
    ctx.check(c.octsav == want['octsav'], 'kind of an octree cell')
    if want['octsav'] % 8 == 0:
        ctx.check(c.children is not None and len(c.children) == 8, 'children of an octree cell')
        for a, b in zip(c.children, want['children']):
            same_cell(ctx, a, b)
        return
    ctx.check(not c.children, 'a leaf has no children')
    if want['octsav'] % 8 == 3:
        ctx.check(ctx.eq(list(c.edges), want['edges']), 'edges of an octree cell')
    ctx.check(ctx.eq([t if isinstance(t, int) else t.value for t in c.texture], want['texture']), 'textures of a cell')
    if want['octsav'] & 0x40:
        ctx.check(c.material == want['material'], 'material of a cell')
    if want['octsav'] & 0x80:
        ctx.check(c.merged == want['merged'], 'merge mask of a cell')
    if want['octsav'] & 0x20:
        ctx.check(ctx.all(c.surfmask == want['surfmask'], c.totalverts == want['totalverts']), 'surface header')
        for i in range(6):
            s = c.ext.surfaces[i]
            if want['surfmask'] >> i & 1:
                w = want['surfaces'][i]
                ctx.check(ctx.all(s.lmid[0] == w[0], s.lmid[1] == w[1], s.numverts == w[3]), 'surface of a face')
            else:
                ctx.check(s is None, 'a face without a surface')


def octree(ctx, where, octsav, mask=None, verts='layer'):
    """One arbitrary cell at a given place in the tree, neighbours of other kinds."""
    leaf = sym_cell(ctx, 'c', octsav, mask, verts)
    plain = [{'octsav': k, 'texture': [7 * i + j for j in range(6)]} for i, k in enumerate([1, 2, 1, 2, 1, 2, 1, 2])]
    cell = leaf
    for p in reversed(where[1:]):
        kids = list(plain)
        kids[p] = cell
        cell = {'octsav': 0, 'children': kids}
    cells = list(plain)
    cells[where[0]] = cell
    # no cell is smaller than one unit
    data = enc_map(ctx, cells=cells, **({'meta': {'worldsize': 8192}} if len(where) > 10 else {}))
    m = load(ctx, data)
    for a, b in zip(m.world, cells):
        same_cell(ctx, a, b)
    ctx.reach('read')
    out = save(ctx, m)
    ctx.check(len(out) == len(data), 'length of the written file')
    ctx.check(ctx.eq(out, data), 'reading and writing reproduces the file')
    ctx.reach('end')


# -- histories of edits ---------------------------------------------------------------

def view(m):
    """What a map holds, as plain data."""
    return {
        'vars': [(k, v) for k, v in m.map_vars.items()],
        'mru': list(m.texmru),
        'ents': [{'type': e.type.value, 'pos': [e.o.x, e.o.y, e.o.z],
                  'attrs': [a if isinstance(a, int) else a.value for a in e.attrs],
                  'links': list(e.links), 'reserved': list(e.reserved)} for e in m.ents],
        'world': [tree(c) for c in m.world],
    }


def tree(c):
    if c.children:
        return [tree(k) for k in c.children]
    return [c.octsav, [t if isinstance(t, int) else t.value for t in c.texture]]


def tobytes(v):
    return v.encode() if isinstance(v, str) else v


def same_view(ctx, a, b):
    ctx.check(len(a['vars']) == len(b['vars']), 'the file holds every map variable')
    for (k, v), (k2, v2) in zip(a['vars'], b['vars']):
        ctx.check(ctx.eq(tobytes(k), tobytes(k2)), 'names of the map variables')
        ctx.check(ctx.eq(tobytes(v), tobytes(v2)), 'values of the map variables')
    ctx.check(ctx.eq(a['mru'], b['mru']), 'recent textures')
    ctx.check(len(a['ents']) == len(b['ents']), 'the file holds every entity')
    for e, f in zip(a['ents'], b['ents']):
        ctx.check(e['type'] == f['type'], 'type of an entity')
        for k in ('pos', 'attrs', 'links', 'reserved'):
            ctx.check(ctx.eq(e[k], f[k]), 'an entity: ' + k)
    ctx.check(ctx.eq(a['world'], b['world']), 'the octree')


def edits(ctx, ops, more=0):
    """Any history of edits, then write: what is read back is the edited map."""
    from redeclipse.entities import Light, PlayerSpawn
    from redeclipse.vector import FineVector
    from redeclipse.voxel import VoxelWorld
    base = enc_map(ctx, mvars=[(b'gravity', 0, 50), (b'maptitle', 2, b'x y')] + many_vars(more),
                   mru=[3, 9] + list(range(more)),
                   ents=[{'pos': [8, 8, 8], 'type': 1, 'attrs': [64, 1, 2, 3, 0, 0], 'links': [], 'reserved': [0, 0, 0]}] + many_ents(more),
                   chg=[-12])
    m = load(ctx, base)
    for i, op in enumerate(ops):
        if op == 'any':
            op = ctx.choice('op%d' % i, ['light', 'spawn', 'drop', 'setvar', 'newvar', 'delvar', 'mru', 'world', 'write'])
        if op == 'light':
            m.ents.append(Light(xyz=FineVector(*[ctx.int('p%d%s' % (i, c), 0, 1023) for c in 'xyz']),
                                radius=ctx.int('r%d' % i, 0, 4096)))
        elif op == 'spawn':
            m.ents.insert(0, PlayerSpawn(xyz=FineVector(1, 2, 3), team=ctx.int('team%d' % i, 0, 4)))
        elif op == 'drop':
            if m.ents:
                m.ents.pop(0)
        elif op == 'setvar':
            m.map_vars[b'gravity'] = ctx.int('g%d' % i, *I32)
        elif op == 'newvar':
            m.map_vars[bytes([98 + i]) + b'newvar'] = ctx.int('n%d' % i, *I32)
        elif op == 'newtext':
            m.map_vars['title%d' % i] = ctx.choice('text%d' % i, ['some text', 'K\u00f6ln \u6771', '', '42'])
        elif op == 'newfloat':
            m.map_vars[b'fog%d' % i] = ctx.real('f%d' % i, -256, 256, 4)
        elif op == 'delvar':
            m.map_vars.pop(b'maptitle', None)
        elif op == 'mru':
            m.texmru.append(ctx.int('u%d' % i, 0, 65535))
        elif op == 'world':
            v = VoxelWorld(size=4)
            v.set_point(*([ctx.choice('w%d%s' % (i, c), [0, 3]) for c in 'xyz'] + [cube.newtexcube(tex=5)]))
            v.set_point(2, 2, 1, cube.newtexcube(tex=ctx.int('t%d' % i, 2, 9)))
            m.world = v.to_octree()
        elif op == 'skybox':
            m.skybox(Sky())
        elif op == 'write':
            m.write(ctx.path('again.mpz'))
    want = view(m)
    m.write(ctx.path('out.mpz'))
    ctx.check(ctx.open_files() == 0, 'no file is left open')
    after = view(m)
    same_view(ctx, want, after)
    back = MapParser().read(ctx.path('out.mpz'))
    same_view(ctx, want, view(back))
    for k in ('worldsize', 'numvslots', 'gamever', 'revision', 'gameident'):
        ctx.check(back.meta[k] == m.meta[k], 'header fields')
    ctx.check(back.meta['numents'] == len(m.ents) and back.meta['numvars'] == len(m.map_vars), 'counts in the header')
    ctx.reach('end')


class Sky(object):
    def get_short_path(self):
        return 'hxr/skybox/desert'


# -- damaged files --------------------------------------------------------------------

def sample_file(ctx, sym):
    cells = [dict(EMPTY) for _ in range(8)]
    cells[2] = {'octsav': 0, 'children': [EMPTY, {'octsav': 3, 'edges': list(range(12)), 'texture': [2] * 6}] + [EMPTY] * 6}
    cells[5] = {'octsav': 35, 'edges': [128] * 12, 'texture': [3] * 6, 'surfmask': 5, 'totalverts': 0,
                'surfaces': {0: [2, 0, 0, 32], 2: [2, 0, 0, 32]}}
    a = ctx.int('a', *I32) if sym else 7
    return enc_map(ctx, mvars=[(b'gravity', 0, a), (b'maptitle', 2, b'abc'), (b'f', 1, 0.5)], mru=[3, 9],
                   ents=[{'pos': [8, 8, 8], 'type': 1, 'attrs': [64, 1, 2, 3, 0, 0], 'links': [4], 'reserved': [0, 0, 0]}],
                   chg=[-12, -3], cells=cells)


def parses(ctx, data):
    try:
        load(ctx, data, 'cut.mpz')
        return True
    except (Exception, SystemExit):
        return False


def truncated(ctx, lo, hi):
    """A file cut at any point is refused."""
    data = sample_file(ctx, True)
    n = len(data)
    ctx.check(parses(ctx, data), 'the whole file is read')
    cut = ctx.int('cut', int(n * lo), int(n * hi) - 1)
    cut = ctx.fix(cut)
    ctx.check(not parses(ctx, data[:cut]), 'a file cut short is refused')
    ctx.reach('end')


def bad_magic(ctx):
    magic = ctx.bytes('magic', 4)
    data = enc_map(ctx, magic=magic)
    good = ctx.any(magic == b'MAPZ', magic == b'BFGZ')
    ok = parses(ctx, data)
    ctx.check(ctx.iff(good, ok), 'accepted exactly when the magic number is right')
    ctx.reach('end')


def bad_codes(ctx, what):
    """Unknown codes inside an otherwise well-formed file are refused."""
    if what == 'cell':
        code = ctx.int('code', 0, 255)
        ctx.assume(code % 8 > 4)
        where = ctx.choice('where', ['root', 'first', 'inner'])
        cells = [dict(EMPTY) for _ in range(8)]
        c = {'octsav': 5, 'texture': [1] * 6}
        data = [enc_map(ctx)[:-8 * 13]]
        for i in range(8):
            if i == (0 if where == 'first' else 4):
                if where == 'inner':
                    data += [b'\0'] + enc_cell(ctx, EMPTY) * 3
                    data += [u8(ctx, code)] + enc_cell(ctx, EMPTY)[1:]
                    data += enc_cell(ctx, EMPTY) * 4
                else:
                    data += [u8(ctx, code)] + enc_cell(ctx, EMPTY)[1:]
            else:
                data += enc_cell(ctx, EMPTY)
        data = ctx.join(data)
    elif what == 'var':
        kind = ctx.int('kind', *I32)
        ctx.assume(ctx.any(kind < 0, kind > 2))
        m = enc_map(ctx, mvars=[(b'abc', 0, 7)])
        i = 4 + 8 + 32 + 4 + 4 + 4 + 4
        data = ctx.join([m[:i], i32(ctx, kind), m[i + 4:]])
    else:
        t = ctx.int('etype', 18, 255)
        data = enc_map(ctx, ents=[{'pos': [8, 8, 8], 'type': t, 'attrs': [64, 1, 2, 3, 0, 0], 'links': [4],
                                   'reserved': [0, 0, 0]}])
    ctx.check(not parses(ctx, data), 'a file with an unknown %s code is refused' % what)
    ctx.reach('end')


# -- texture slots ----------------------------------------------------------------------

FIELDS = [None, 'scale', 'rotation', 'offset', 'scroll', 'layer', 'alpha', 'color', 'palette', 'coast']


def sym_slot(ctx, i, flags, nparams, pal):
    """The file form of a slot that changes some settings, and what reading it has to give."""
    n = 's%d' % i

    def real(k):
        return ctx.real(n + k, -2 ** 12, 2 ** 12, 6)

    def integer(k):
        return ctx.int(n + k, *I32)
    out, want = [i32(ctx, flags), i32(ctx, ctx.int(n + 'prev', -1, 2))], {}
    if flags & 1:
        out.append(u16(ctx, nparams | (0x8000 if pal else 0)))
        for k in range(nparams):
            size = (3, 0, 7)[k % 3]
            out += [u16(ctx, size), ctx.bytes('%sname%d' % (n, k), size)] + [ctx.pack('<f', real('v%d%d' % (k, j))) for j in range(4)]
            if pal:
                out += [i32(ctx, integer('pal%d' % k)), i32(ctx, integer('idx%d' % k))]
    for b, (name, kinds) in enumerate([('scale', 'f'), ('rotation', 'i'), ('offset', 'ii'), ('scroll', 'ff'), ('layer', 'i'),
                                       ('alpha', 'ff'), ('color', 'fff'), ('palette', 'ii'), ('coast', 'f')]):
        if flags >> (b + 1) & 1:
            vs = [real('%s%d' % (name, j)) if k == 'f' else integer('%s%d' % (name, j)) for j, k in enumerate(kinds)]
            out += [ctx.pack('<' + k, v) for k, v in zip(kinds, vs)]
            want[name] = vs
    return out, want


def slot_view(v):
    return {'scale': [v.scale], 'rotation': [v.rotation], 'offset': [v.offset.x, v.offset.y], 'scroll': [v.scroll.x, v.scroll.y],
            'layer': [v.layer], 'alpha': [v.alphafront, v.alphaback], 'color': [v.colorscale.x, v.colorscale.y, v.colorscale.z],
            'palette': [v.palette, v.palindex], 'coast': [v.coastscale]}


PLAIN = {'scale': [1], 'rotation': [0], 'offset': [0, 0], 'scroll': [0, 0], 'layer': [0], 'alpha': [0.5, 0], 'color': [1, 1, 1],
         'palette': [0, 0], 'coast': [1]}


def slots(ctx, layout):
    """Texture slots with settings of their own are read, and what follows them stays in step."""
    out, want = [], []
    for i, x in enumerate(layout):
        if isinstance(x, int):
            out.append(i32(ctx, -x))
            want += [{}] * x
        else:
            flags, nparams, pal = x
            if isinstance(flags, list):
                flags = ctx.choice('flags%d' % i, flags)
            o, w = sym_slot(ctx, i, flags, nparams, pal)
            out += o
            want.append(w)
    leaf = sym_cell(ctx, 'c', 0x43)
    cells = [dict(EMPTY) for _ in range(8)]
    cells[1] = leaf
    cells[6] = {'octsav': 0, 'children': [EMPTY] * 7 + [{'octsav': 2, 'texture': [9] * 6}]}
    whole = enc_map(ctx, mru=[4], chg=[-len(want)])
    tail = 8 * 13
    data = ctx.join([whole[:len(whole) - tail - 4]] + out + [b for c in cells for b in enc_cell(ctx, c)])
    m = load(ctx, data)
    ctx.check(len(m.world) == 8, 'eight root cubes')
    for a, b in zip(m.world, cells):
        same_cell(ctx, a, b)
    ctx.check(ctx.eq(list(m.texmru), [4]), 'recent textures')
    ctx.check(len(m.vslots) == len(want), 'number of texture slots')
    for v, w in zip(m.vslots, want):
        got = slot_view(v)
        for k in PLAIN:
            ctx.check(ctx.eq(got[k], w.get(k, PLAIN[k])), 'setting of a texture slot: ' + k)
    ctx.reach('read')
    # a map with such slots is written as it was or not at all
    try:
        m.write(ctx.path('out.mpz'))
    except Exception:
        if all(isinstance(x, int) for x in layout):
            raise
        ctx.reach('refused')
        return
    ctx.check(ctx.eq(ctx.read_file(ctx.path('out.mpz')), data), 'the written file holds the texture slots')
    ctx.reach('end')


# -- several maps ---------------------------------------------------------------------

def small_map(ctx, n):
    """A map whose contents are its own."""
    kids = [sym_cell(ctx, n + 'c', 2)] + [dict(EMPTY) for _ in range(7)]
    cells = [dict(EMPTY) for _ in range(8)]
    cells[len(n) % 8] = {'octsav': 0, 'children': kids}
    cells[7] = {'octsav': 0x21, 'texture': [2] * 6, 'surfmask': 4, 'totalverts': 0, 'surfaces': {2: [ctx.int(n + 'l', 0, 255), 0, 0, 0]}}
    e = sym_ent(ctx, 0, 1 if n == 'a' else 3, 1 if n == 'a' else 0) if n != 'c' else None
    return enc_map(ctx, meta={'revision': ctx.int(n + 'rev', *I32)}, mvars=[(n.encode() + b'v', 0, ctx.int(n + 'var', *I32)), (b'title', 2, n.encode())],
                   mru=[ctx.int(n + 'mru', 0, 65535)], ents=[e] if e else [], chg=[-3] if n == 'a' else [-1, -2], cells=cells)


def change(ctx, m, op):
    if op == 'ents':
        m.ents.append(m.ents[0] if m.ents else None)
    elif op == 'attrs':
        for e in m.ents:
            e.attrs[0] = 77
            e.links.append(5)
            e.reserved[1] = 9
    elif op == 'vars':
        m.map_vars[b'title'] = b'other'
        m.map_vars[b'more'] = 3
    elif op == 'meta':
        m.meta['revision'] = 99
        m.meta['worldsize'] = 2
    elif op == 'mru':
        m.texmru.append(1)
    elif op == 'cells':
        for c in m.world:
            c.texture[0] = 1234
            if c.children:
                c.children[0].texture[3] = 1235
                c.children[0].octsav = 1
        m.world[0].octsav = 2
    elif op == 'surf':
        m.world[7].ext.surfaces[2].lmid[0] = 200
    elif op == 'slots':
        m.chg.append(-1)
        m.vslots.pop()
    elif op == 'cfg':
        m.cfg_extra.append('x')
        m.skybox(Sky())


def apart(ctx, parsers, op):
    """Two maps read one after the other, by the same reader or by two, are each what their file says, and changing
    one changes nothing of the other."""
    da, db = small_map(ctx, 'a'), small_map(ctx, 'bb')
    ctx.write_file(ctx.path('a.mpz'), da)
    ctx.write_file(ctx.path('b.mpz'), db)
    p = MapParser()
    a = p.read(ctx.path('a.mpz'))
    q = p if parsers == 1 else MapParser()
    b = q.read(ctx.path('b.mpz'))
    if op == 'again':
        c = q.read(ctx.path('a.mpz'))
        ctx.check(ctx.eq(save(ctx, c, 'c2.mpz'), da), 'the map read again')
    elif op == 'failed':
        ctx.write_file(ctx.path('cut.mpz'), db[:len(db) - 5])
        try:
            q.read(ctx.path('cut.mpz'))
        except Exception:
            ctx.reach('failed')
        c = q.read(ctx.path('a.mpz'))
        ctx.check(ctx.eq(save(ctx, c, 'c2.mpz'), da), 'the map read after a damaged one')
    else:
        change(ctx, a, op)
        c = q.read(ctx.path('a.mpz'))
        ctx.check(ctx.eq(save(ctx, c, 'c2.mpz'), da), 'the map read again')
    ctx.check(len(b.cfg_extra) == 0, 'settings of the other map')
    ctx.check(len(b.vslots) == 3, 'texture slots of the other map')
    ctx.check(ctx.eq(save(ctx, b, 'b2.mpz'), db), 'the other map is unchanged')
    if op in ('again', 'failed'):
        ctx.check(ctx.eq(save(ctx, a, 'a2.mpz'), da), 'the first map is unchanged')
    ctx.reach('end')


def saved_twice(ctx, between):
    """Saving changes nothing of the map: saving again gives the same file, whatever looked at the map in between."""
    da = small_map(ctx, 'a')
    m = load(ctx, da)
    if between in ('edit', 'edit-json'):
        from redeclipse.entities import Light
        from redeclipse.vector import FineVector
        m.ents.append(Light(xyz=FineVector(ctx.int('x', 0, 1000), 2, 3)))
        m.map_vars['fog'] = 0.5
        m.map_vars[b'n'] = 'text'
    before = view(m)
    one = save(ctx, m, 'one.mpz')
    if between in ('json', 'edit-json'):
        try:
            m.to_json()
        except Exception:
            ctx.reach('json refused')
    elif between == 'other':
        MapParser().read(ctx.path('one.mpz'))
    two = save(ctx, m, 'one.mpz' if between == 'same' else 'two.mpz')
    ctx.check(ctx.eq(one, two), 'saving again gives the same file')
    same_view(ctx, before, view(m))
    ctx.reach('end')
