"""The command-line tools' parts: transition tables, flavours, the output step, the generator."""
import json
import types
import redeclipse.cli as cli
import redeclipse.worldflavors as worldflavors
from redeclipse import Map
from redeclipse.objects import cube
import redeclipse.prefabs as prefabs
from redeclipse.prefabs import distributions, Room, JumpCorridorVertical, JumpCorridorVerticalCenter, Stair, AltarRoom
from redeclipse.prefabs.castle import castle_gate, castle_large
from redeclipse.textures import AutomatedMagicaTextureManager
from redeclipse.upm import UnusedPositionManager
from redeclipse.vector import CoarseVector, FineVector
from redeclipse.voxel import VoxelWorld
from props import mapfile, voxels

SUNLIGHT = 8


class Kind(object):
    def __init__(self, room_type):
        self.room_type = room_type


def agrees(ctx, man, types_):
    """tp and for_class give the same probabilities."""
    for a in types_:
        probs = man.for_class(Kind(a))
        for b in types_:
            try:
                p = man.tp(a, b)
            except Exception:
                p = None
            if p is None:
                ctx.check(b not in probs, 'no probability for a pair that has none')
            else:
                ctx.check(b in probs, 'a probability for every pair that has one')
                ctx.check(probs[b] == p, 'the probability of the pair')
        for b in probs:
            ctx.check(b in types_, 'only for pairs of the table')


def transitions(ctx, mirror, n):
    """Any table of transition probabilities."""
    names = ['a', 'b', 'c'][:n]
    table, weights = {}, {}
    for i, a in enumerate(names):
        for b in names[i:]:
            how = ctx.choice('has_' + a + b, ['none', 'one', 'back', 'both'] if a != b else ['none', 'one'])
            for k, on in (((a, b), how in ('one', 'both')), ((b, a), how in ('back', 'both'))):
                if on and k not in table:
                    table[k] = ctx.real('w' + ''.join(k), 0, 100, 4)

    class Man(distributions.DistributionManager):
        pass
    Man.mirror = mirror
    Man.transition_probabilities = table
    man = Man()
    for a in names:
        probs = man.for_class(Kind(a))
        for b in names:
            w = table.get((a, b), table.get((b, a)) if mirror else None)
            if w is None:
                ctx.check(b not in probs, 'no probability for a pair that has none')
                try:
                    man.tp(a, b)
                    ctx.fail('a pair without a probability is refused')
                except Exception:
                    pass
            else:
                ctx.check(b in probs, 'a probability for every pair that has one')
                ctx.check(probs[b] == w, 'the probability of the pair in the list')
                ctx.check(man.tp(a, b) == w, 'the probability of the pair')
        ctx.check(len(probs) <= n, 'only for pairs of the table')
    ctx.check(len(Man.transition_probabilities) == len(table), 'asking does not change the table')
    ctx.reach('end')


def shipped_tables(ctx):
    """The tables of the repository."""
    name = ctx.choice('table', ['UniformDistributionManager', 'TowerDistributionManager', 'PlatformDistributionManager', 'CastleDistributionManager'])
    man = getattr(distributions, name)()
    types_ = sorted(set(k for p in man.transition_probabilities for k in p))
    agrees(ctx, man, types_)
    for a in types_:
        for b in types_:
            p = man.for_class(Kind(a)).get(b)
            ctx.check(p is None or p >= 0, 'probabilities are not negative')
    ctx.reach(name)


class Old(Room):
    room_type = 'stair'


class New(Old):
    room_type = 'hallway'


ROOMS = [Room, JumpCorridorVertical, JumpCorridorVerticalCenter, Stair, AltarRoom, castle_gate, castle_large, Old, New]


def of_rooms(ctx):
    """The probabilities of rooms of any two classes, asked for one after the other."""
    a, b = ctx.choice('first', ROOMS), ctx.choice('second', ROOMS)
    man = prefabs.DISTMAN
    before = dict(man.transition_probabilities)
    one, two = a(pos=CoarseVector(4, 4, 3)), b(pos=CoarseVector(4, 9, 3))
    for r in (one, two, one):
        got = r.get_transition_probs()
        want = {y: w for (x, y), w in before.items() if x == r.room_type}
        if man.mirror:
            for (x, y), w in before.items():
                if y == r.room_type:
                    want.setdefault(x, w)
        ctx.check(dict(got) == want, 'a room has the probabilities of its kind')
    ctx.check(man.transition_probabilities == before, 'asking does not change the table')
    ctx.reach('end')


# -- flavours and the output step ---------------------------------------------------------

FLAVOURS = ['space_station', 'crushed_blacks', 'maliwan']


class Log(AutomatedMagicaTextureManager):
    """The colour atlas; copying images to the game's folder is left out."""
    def copy_data(self):
        self.copied = True


class Args(object):
    magica = mpz_out = graph = None


class Prefabs(object):
    def __init__(self, texman):
        self.TEXMAN = texman


def flavour_lines(names):
    out = []
    for n in names:
        w = Map(b'MAPZ', 43, 48, {}, {}, [], [], [], [], [])
        worldflavors.update(w, [n])
        out.append(list(w.cfg_extra))
    return out


def flavoured(ctx, count, more=0):
    """Flavours add their lines to the configuration, in order, and change nothing else of the map."""
    names = [ctx.choice('f%d' % i, FLAVOURS + ['none']) for i in range(count)]
    names = [n for n in names if n != 'none']
    given = ctx.choice('given', ['list', 'none']) if not names else 'list'
    m = mapfile.load(ctx, mapfile.enc_map(ctx, mvars=[(b'fog', 0, ctx.int('fog', -5, 5))], ents=[], chg=[-5]))
    n = ctx.int('extra', 0, 500)
    had = ctx.choice('had', [False, True])
    if had:
        m.cfg_extra.append('gravity %d' % 3)
    own = ['setting%d %d' % (i, i) for i in range(more)]
    m.cfg_extra.extend(own)
    before = mapfile.view(m)
    got = worldflavors.update(m, names if given == 'list' else None)
    ctx.check(got is m, 'the map itself is updated')
    mapfile.same_view(ctx, before, mapfile.view(m))
    want = (['gravity 3'] if had else []) + own
    for l in flavour_lines(names):
        ctx.check(len(l) > 0, 'a flavour sets something')
        want += l
    ctx.check(list(m.cfg_extra) == want, 'the lines of the flavours in order after what was there')
    for l in m.cfg_extra:
        ctx.check(len(l.split()) == 2 and '\n' not in l, 'a line is a name and a value')
    # and into the file
    texman = Log()
    for i in range(ctx.choice('colours', [0, 2])):
        texman.get_colour(0.25 * i, 0.5, 1)
    args = Args()
    stem = ctx.choice('stem', ['o', 'a.b', 'made.of/o'])
    ctx.write_file(ctx.path(stem + '.txt'), b'', gz=False)
    if ctx.choice('old', [False, True]):
        ctx.write_file(ctx.path(stem + '.cfg'), b'something old\nfrom before\n', gz=False)
    args.mpz_out = open(ctx.path(stem + '.mpz'), 'w')
    w = VoxelWorld(size=2)
    w.set_point(0, 0, 1, cube.newtexcube(tex=2))
    cli.output(w, m, None, Prefabs(texman), args)
    args.mpz_out.close()
    probe = open(ctx.path('only.mpz'), 'w')
    texman.emit_conf(probe)
    probe.close()
    ctx.check(ctx.read_text(ctx.path(stem + '.cfg')) == ctx.read_text(ctx.path('only.cfg')) + ''.join(l + '\n' for l in want),
              'the configuration is that of the textures, then the extra lines')
    ctx.reach('end')


# -- the graph -----------------------------------------------------------------------------

def graphed(ctx, kinds, facing, mirror, links, lo=4, hi=27, more=0):
    """The graph has one node for each room, with its name, and links the rooms that are linked."""
    from props.placing import CLASSES, DIRS, Flagged
    from redeclipse.prefabs import SpawnRoom
    u = UnusedPositionManager(256, mirror=mirror)
    base = [ctx.int('b' + c, lo, hi) for c in 'xyz']
    rooms = []
    for i in range(more):
        r = CLASSES['turn'](pos=CoarseVector(2 * (i % 13) + 3, 3 + 2 * (i // 13), 30), orientation=DIRS['E'])
        u.register_room(r)
        rooms.append((r, u.rooms[-mirror:]))
    links = [[a + more, b + more] for a, b in links]
    for i in range(more - 1):
        u.register_link(rooms[i][0], rooms[i + 1][0])
    for i, k in enumerate(kinds):
        pos = [b + (3 * i if j == 0 else 0) for j, b in enumerate(base)]
        if i:
            pos[1] = pos[1] + ctx.int('s%d' % i, -1, 1)
        cls = SpawnRoom if k == 'spawn' else CLASSES[k]
        r = cls(pos=CoarseVector(*pos), orientation=DIRS[facing[i]])
        ctx.assume(u.preregister_room(r))
        u.register_room(r)
        rooms.append((r, u.rooms[-mirror:]))
    for a, b in links:
        u.register_link(rooms[a][0], rooms[b][0])
    args = Args()
    path = ctx.path('g.json')
    args.graph = open(path, 'w')
    cli.output(None, None, u, Prefabs(None), args)
    args.graph.close()
    with open(path) as handle:
        data = json.load(handle)
    ids = [n['id'] for n in data['nodes']]
    ctx.check(len(set(ids)) == len(ids), 'nodes have different ids')
    named = {}
    for n in data['nodes']:
        named.setdefault(n['name'], []).append(n['id'])
        ctx.check(n['label'] == n['name'], 'a node is labelled with its name')
    names = [getattr(r, 'name', type(r).__name__) for r, _ in rooms]
    for n in set(names):
        ctx.check(len(named.get(n, [])) == mirror * names.count(n), 'one node for each room of that name')
    ctx.check(len(ids) == len(u.rooms) + 1, 'one node for each room and one for none')
    ctx.check(len(data['links']) == mirror * (len(links) + max(0, more - 1)), 'one link for each link of the rooms')
    if more:
        ends = [(l['source'], l['target']) for l in data['links'] if l['source'] in named['turn'] and l['target'] in named['turn']]
        ctx.check(len(set(ends)) == len(ends) == mirror * (more - 1), 'each link once')
        ctx.check(len(set(a for a, b in ends)) == len(set(b for a, b in ends)) == len(ends), 'a row of rooms is a row in the graph')
    for a, b in links:
        found = [l for l in data['links'] if l['source'] in named[names[a]] and l['target'] in named[names[b]]]
        ctx.check(len(found) == mirror, 'links join the rooms that are linked')
        ctx.check(len(set(l['source'] for l in found)) == mirror and len(set(l['target'] for l in found)) == mirror, 'each mirrored copy has its own link')
    ctx.reach('end')


# -- the generator as a whole ----------------------------------------------------------------

class Steady(object):
    """Module random with fixed draws."""
    def seed(self, *a):
        pass

    def random(self):
        return 0.5

    def uniform(self, a, b):
        return a + (b - a) * 0.5

    def randint(self, a, b):
        return a

    def choice(self, s):
        return s[0]

    def sample(self, s, k):
        return list(s)[:k]

    def shuffle(self, s):
        pass


def generated(ctx, script, rooms, mirrors, flavours, options=()):
    """The generator as a script: what it is asked for is in the files it writes."""
    import inspect
    import redeclipse.prefabs as prefabs
    import redeclipse.upm as upm_module
    from redeclipse import MapParser
    from redeclipse.prefabs import castle, dungeon, egypt, original, spacestation
    from redeclipse.entities import PlayerSpawn
    from redeclipse.magicavoxel.reader import Magicavoxel
    from props.placing import CLASSES
    drawn = []

    def stub(kind, name_, tag):
        class Stub(CLASSES[kind]):
            name = name_

            def render(self, world, xmap):
                drawn.append((self, tag, tuple(self.pos)))
                world.set_pointv(FineVector(len(drawn) - 1, 1, 2), cube.newtexcube(tex=prefabs.TEXMAN.get_colour(0.5, 1, len(drawn) / 64)))
                spawn = PlayerSpawn(xyz=self.pos.fine(), yaw=0)
                xmap.ents.append(spawn)
        return Stub
    kinds = {'hall': stub('hall', 'room', 'room'), 'cap': stub('cap', 'cap', 'cap'), 'one': stub('one', 'start', 'start'),
             'turn': stub('turn', 'flags', 'flags')}
    for m in (castle, dungeon, egypt, original, spacestation):
        for n, c in list(vars(m).items()):
            if inspect.isclass(c) and issubclass(c, prefabs.Room) and c.__module__ == m.__name__ and hasattr(c, 'name'):
                k = 'turn' if 'flag' in n else 'one' if 'tube' in n else 'cap' if ('endcap' in n or 'cliff' in n or 'statue' in n) else 'hall'
                setattr(m, n, kinds[k])
    texman = Log()
    prefabs.TEXMAN = texman
    upm_module.random = Steady()
    fog = ctx.int('fog', -100, 100)
    at = [ctx.int('at' + c, -8, 1000) for c in 'xyz']
    ent = {'pos': at, 'type': 3, 'reserved': [0, 0, 0], 'attrs': [ctx.int('attr%d' % i, 0, 5) for i in range(6)], 'links': []}
    ctx.write_file(ctx.path('in.mpz'), mapfile.enc_map(ctx, meta={'worldsize': 16}, mvars=[(b'fog', 0, fog)], ents=[ent], chg=[-5]))
    n = ctx.choice('rooms', rooms)
    mirror = ctx.choice('mirror', mirrors)
    fl = ctx.choice('flavour', flavours)
    ctf = ctx.choice('ctf', [False, True])
    argv = [ctx.path('in.mpz'), '--size', '4', '--rooms', str(n), '--mpz_out', ctx.path('out.mpz'), '--magica', ctx.path('out.vox'),
            '--graph', ctx.path('out.json')] + list(options)
    if mirror:
        argv += ['--mirror', str(mirror)]
    if fl:
        argv += ['--flavor'] + list(fl)
    if ctf:
        argv += ['--ctf']
    ctx.run_main(script, argv)
    copies = mirror or 2
    # rooms
    ctx.check(len(set(id(r) for r, _, _ in drawn)) == len(drawn), 'every room is rendered once')
    tags = [t for _, t, _ in drawn]
    ctx.check(tags.count('flags' if ctf else 'start') == copies and tags.count('start' if ctf else 'flags') == 0, 'the first room, with its copies')
    ctx.check(n <= tags.count('room') < n + copies, 'the rooms asked for')
    doors = 2 if ctf else 4
    ctx.check(tags.count('cap') == doors * copies if n <= 12 else tags.count('cap') > 0, 'every door left is closed')
    # map
    back = MapParser().read(ctx.path('out.mpz'))
    ctx.check(ctx.eq([(tuple_key(k), v) for k, v in back.map_vars.items()], [('fog', fog)]), 'the variables of the template')
    ents = [(e.type.value, [e.o.x, e.o.y, e.o.z], list(e.attrs)) for e in back.ents]
    ctx.check(ents[0][0] == 3 and ctx.eq(list(ents[0][1]), at), 'the entities of the template')
    ctx.check(sum(1 for t, _, _ in ents if t == SUNLIGHT) == 1, 'one sun')
    ctx.check(len(ents) == 2 + len(drawn), 'what the rooms put there')
    leaves = [c for _, _, _, _, c in voxels.leaves_of_file(ctx, back, 4)]
    ctx.check(sum(1 for c in leaves if c.octsav % 8 in (2, 3)) == min(4, len(drawn)), 'the voxels of the rooms inside the world')
    # the rest
    cfg = ctx.read_text(ctx.path('out.cfg'))
    ctx.check(cfg.endswith(''.join(l + '\n' for ls in flavour_lines(fl or []) for l in ls)), 'the lines of the flavours')
    ctx.check(cfg.count('\ntexture c ') == len(texman.atlas), 'every texture of the map')
    with open(ctx.path('out.json')) as handle:
        data = json.load(handle)
    ctx.check(len(data['nodes']) == len(drawn) + 1, 'a node for every room')
    ctx.check(len(data['links']) == tags.count('room'), 'a link for every room placed')
    m = Magicavoxel.from_file(ctx.path('out.vox'))
    ctx.check(len(m.model_voxels.voxels) == len(drawn), 'every voxel in the model')
    ctx.reach('end')


class Sink(object):
    """Standard output."""
    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)

    def flush(self):
        pass


def any_map(ctx):
    ents = [mapfile.sym_ent(ctx, i, k, i) for i, k in enumerate([3, 1, 9])]
    mvars = [(b'v%d' % i, k, v) for i, (_, k, v) in enumerate(mapfile.sym_vars(ctx, [(1, 0, 4), (1, 1, 4)]))] + [(b'maptitle', 2, b'a title')]
    cells = [dict(mapfile.EMPTY) for _ in range(8)]
    cells[2] = mapfile.sym_cell(ctx, 'c', 2, 0)
    cells[5] = {'octsav': 0, 'children': [mapfile.EMPTY] * 7 + [mapfile.sym_cell(ctx, 'd', 3 | 0x40, 0)]}
    return mapfile.enc_map(ctx, version=43, meta={'gamever': ctx.int('gamever', *mapfile.I32)}, mvars=mvars,
                           mru=[ctx.int('mru', 0, 65535)], ents=ents, chg=[-3], cells=cells)


def same_json(ctx, a, b, label):
    if isinstance(b, dict):
        ctx.check(isinstance(a, dict) and sorted(a) == sorted(b), label)
        for k in b:
            if k == '_id':      # the cell's place in memory
                continue
            same_json(ctx, a[k], b[k], label + ' ' + k)
    elif isinstance(b, list):
        ctx.check(isinstance(a, list) and len(a) == len(b), label)
        for x, y in zip(a, b):
            same_json(ctx, x, y, label + ' .')
    else:
        ctx.check(a == b, label)


def converted(ctx):
    """The tools that convert a map: a copy in the same format, and the JSON form or one section of it."""
    import sys
    from redeclipse import MapParser
    data = any_map(ctx) if ctx.choice('filled', [True, False]) else mapfile.enc_map(ctx, meta={'gamever': ctx.int('gamever', *mapfile.I32)})
    src = ctx.path('in.mpz')
    ctx.write_file(src, data)
    out = ctx.path('out.mpz')
    if ctx.choice('old', [False, True]):
        ctx.write_file(out, b'something old' * 400)
    ctx.run_main('redeclipse.cli.iso', [src, out])
    got = ctx.read_file(out)
    ctx.check(len(got) == len(data), 'length of the copy')
    ctx.check(ctx.eq(got, data), 'the copy has the bytes of the map')
    ctx.check(ctx.eq(ctx.read_file(src), data), 'the map itself stays as it is')
    ctx.reach('copy')
    want = json.loads(MapParser().read(src).to_json())
    section = ctx.choice('section', [None] + sorted(want))
    sink, old = Sink(), sys.stdout
    sys.stdout = sink
    try:
        ctx.run_main('redeclipse.cli.to_json', [src] + (['--section', section] if section else []))
    finally:
        sys.stdout = old
    got = json.loads(''.join(sink.parts).strip())
    same_json(ctx, got, want[section] if section else want, 'the JSON form of the map, or the section asked for')
    ctx.check(ctx.eq(ctx.read_file(src), data), 'the map itself stays as it is')
    ctx.reach('json')


def tuple_key(k):
    return k if isinstance(k, str) else k.decode()
