"""Texture numbers and the configuration that defines them."""
import os
import redeclipse.textures as T

MANAGERS = {
    'plain': 'TextureManager', 'auto': 'AutomatedMagicaTextureManager', 'rainbow': 'RainbowPukeTextureManager',
    'minecraft': 'MinecraftThemedTextureManager', 'dull': 'DefaultThemedTextureManager',
    'paper': 'PaperThemedTextureManager', 'primary': 'PrimaryThemedTextureManager',
}
CATEGORIES = ['generic', 'column', 'floor', 'wall', 'accent', 'something-else']


def manager(name):
    return getattr(T, MANAGERS[name])()


class Named(object):
    def __init__(self, name):
        self.name = name


def colour(ctx, n):
    return tuple(ctx.real(n + c, 0, 1, 8) for c in 'rgb')


def colours(ctx, n, mix):
    """Colours get numbers: one per colour, stable, after sky and default."""
    t = manager('auto')
    ctx.check(t.get('sky') == 0 and t.get('default') == 1, 'sky and default come first')
    asked = []
    for i in range(n):
        if mix and i == 1:
            v = t.get_c(ctx.choice('cat', CATEGORIES))
            ctx.check(v in t.atlas, 'a category has a texture')
            asked.append(([t.atlas[v].r, t.atlas[v].g, t.atlas[v].b], v))
        c = colour(ctx, 'c%d' % i)
        v = t.get_colour(*c)
        ctx.check(type(v) is int and v >= 2, 'a colour has a number of its own')
        tex = t.atlas[v]
        ctx.check(ctx.eq([tex.r, tex.g, tex.b], list(c)), 'the number stands for the colour asked for')
        for d, w in asked:
            ctx.check(ctx.iff(ctx.eq(list(c), list(d)), v == w), 'same number exactly for the same colour')
        asked.append((c, v))
    for c, v in asked:
        ctx.check(t.get_colour(*c) == v, 'asking again gives the same number')
        tex = t.atlas[v]
        ctx.check(ctx.eq([tex.r, tex.g, tex.b], list(c)), 'numbers keep their meaning')
    ctx.check(t.get('sky') == 0 and t.get('default') == 1, 'sky and default keep their numbers')
    ctx.observe('n', [v for _, v in asked])
    ctx.reach('end')


def names(ctx, which, n):
    """Named textures get numbers."""
    t = manager(which)
    known = sorted(t.texref)
    mine = [k for k in known if k not in ('sky', 'default')] or known
    asked = []
    pick = ctx.choice('at', list(range(len(mine))))
    for i in range(n):
        k = mine[(pick + i * ctx.choice('step%d' % i, [0, 1, 3])) % len(mine)] if i != 1 else ctx.choice('nm', ['sky', 'default', mine[-1]])
        v = t.get(k)
        ctx.check(t.atlas[v] is t.texref[k], 'the number stands for the texture asked for')
        for j, w in asked:
            ctx.check((j == k) == (v == w), 'same number exactly for the same texture')
        asked.append((k, v))
    for k, v in asked:
        ctx.check(t.get(k) == v, 'asking again gives the same number')
    ctx.check(t.get('sky') == 0 and t.get('default') == 1, 'sky and default keep their numbers')
    ctx.check(sorted(t.atlas) == list(range(len(t.atlas))), 'numbers are consecutive')
    ctx.observe('n', [v for _, v in asked])
    ctx.reach('end')


def all_names(ctx, which):
    """Every texture of the set asked for in turn, from any one of them on, and then once more."""
    t = manager(which)
    known = sorted(t.texref)
    at = ctx.choice('at', sorted(set([0, 1, len(known) // 2, len(known) - 1])))
    back = ctx.bool('back')
    known = known[at:] + known[:at]
    if back:
        known.reverse()
    first = [t.get(k) for k in known]
    ctx.check(len(set(first)) == len(set(id(t.texref[k]) for k in known)), 'same number exactly for the same texture')
    ctx.check(sorted(t.atlas) == list(range(len(t.atlas))), 'numbers are consecutive')
    for k, v in zip(known, first):
        ctx.check(t.get(k) == v, 'asking again gives the same number')
        ctx.check(t.atlas[v] is t.texref[k], 'the number stands for the texture asked for')
    ctx.check(t.get('sky') == 0 and t.get('default') == 1, 'sky and default keep their numbers')
    ctx.reach('end')


def many_colours(ctx, n):
    """A colour like or unlike any of many others."""
    t = manager('auto')
    many = [(i / 64, (i * 7 % 16) / 16, i % 2) for i in range(n)]
    nums = [t.get_colour(*c) for c in many[:n // 2]]
    c = colour(ctx, 'c')
    v = t.get_colour(*c)
    nums += [t.get_colour(*d) for d in many[n // 2:]]
    ctx.check(len(set(nums)) == n, 'same number exactly for the same colour')
    for d, w in zip(many, nums):
        ctx.check(ctx.iff(ctx.eq(list(c), list(d)), v == w), 'same number exactly for the same colour')
        ctx.check(t.get_colour(*d) == w, 'asking again gives the same number')
        tex = t.atlas[w]
        ctx.check(ctx.eq([tex.r, tex.g, tex.b], list(d)), 'the number stands for the colour asked for')
    ctx.check(t.get_colour(*c) == v, 'asking again gives the same number')
    ctx.check(t.get('sky') == 0 and t.get('default') == 1, 'sky and default keep their numbers')
    ctx.reach('end')


def apart(ctx, which, other):
    """Each manager numbers its own requests only."""
    def ask(t, w, i):
        if w in ('auto', 'rainbow'):
            c = colour(ctx, 'c%s' % i)
            return t.get_colour(*c)
        mine = sorted(k for k in t.texref if k not in ('sky', 'default'))
        return t.get(mine[ctx.choice('n%s' % i, list(range(min(5, len(mine)))))])
    a = manager(which)
    ctx.check(ask(a, which, '0') == 2, 'the first number of a manager')
    b = manager(other)
    ctx.check(sorted(b.atlas) == [0, 1] and sorted(a.atlas) == [0, 1, 2], 'a manager starts with sky and default')
    ctx.check(ask(b, other, '1') == 2, 'the first number of another manager')
    v = ask(a, which, '2')
    ctx.check(v in (2, 3) and len(a.atlas) == v + 1, 'numbers are consecutive')
    ctx.check(len(b.atlas) == 3, 'requests to one manager leave the other alone')
    ctx.check(a.get('sky') == 0 and b.get('sky') == 0 and a.get('default') == 1 and b.get('default') == 1, 'sky and default keep their numbers')
    w = ask(b, other, '3')
    ctx.check(w in (2, 3) and len(b.atlas) == w + 1, 'numbers are consecutive')
    ctx.check(len(a.atlas) == v + 1, 'requests to one manager leave the other alone')
    ctx.observe('n', [v, w])
    ctx.reach('end')


def category(ctx, which, n):
    """Whatever is drawn, a category gives a number that stands for a material of the theme."""
    t = manager(which)
    for i in range(n):
        c = ctx.choice('cat%d' % i, CATEGORIES)
        v = t.get_c(c)
        ctx.check(type(v) is int and v in t.atlas and v >= 2, 'a category gives a texture number')
        tex = t.atlas[v]
        if which not in ('auto', 'rainbow') and c != 'something-else':
            want = getattr(t.theme, c.capitalize() + 'Material')
            ctx.check(any(t.texref[k] is tex for k in want), 'the texture is one of that category')
        ctx.observe('n%d' % i, v)
        ctx.observe('conf%d' % i, len(tex.conf(idx=0)) > 0)
    ctx.reach('end')


def rainbow(ctx, n, half):
    t = manager('rainbow')
    asked = []
    for i in range(n):
        v = t.get_colour(0, 0, 0) if i % 2 == 0 else t.get_c('floor')
        tex = t.atlas[v]
        if i == 0:
            ctx.assume(ctx.all(half[0] <= tex.g, tex.g <= half[1]))
        ctx.check(v >= 2, 'a colour has a number of its own')
        ctx.check(ctx.all(0 <= tex.r, tex.r <= 1, 0 <= tex.g, tex.g <= 1, 0 <= tex.b, tex.b <= 1), 'a colour in range')
        ctx.check(ctx.any(tex.r == 1, tex.g == 1, tex.b == 1), 'a fully bright colour')
        for w in asked:
            o = t.atlas[w]
            if o is not tex:
                ctx.check(ctx.no(ctx.eq([o.r, o.g, o.b], [tex.r, tex.g, tex.b])), 'one number per colour')
        asked.append(v)
    ctx.reach('end')


# -- the configuration file ------------------------------------------------------------

DIRECTIVES = ('setshader', 'setshaderparam', 'texture', 'texcolor')


def parse(ctx, text):
    """[(type 'c' file, [other texture files], texcolor words)] in slot order."""
    slots = []
    for line in text.split('\n'):
        line = line.strip()
        if line == '' or line.startswith('//'):
            continue
        body = line.split('//')[0]
        words = body.split()
        ctx.check(words[0] in DIRECTIVES, 'every line is one directive')
        for d in DIRECTIVES:
            ctx.check(not any(d in w and '/' not in w for w in words[1:]), 'one directive per line')
        if words[0] == 'texture':
            if words[1] == 'c':
                slots.append([words[2].strip('"'), [], None, words[3:]])
            else:
                ctx.check(len(slots) > 0, 'a texture line belongs to a slot')
                slots[-1][1].append((words[1], words[2].strip('"')))
        elif words[0] == 'texcolor':
            ctx.check(len(slots) > 0 and slots[-1][2] is None, 'one colour per slot')
            slots[-1][2] = words[1:]
    return slots


def check_conf(ctx, t, text):
    slots = parse(ctx, text)
    ctx.check(len(slots) == len(t.atlas), 'one slot per texture number')
    for i in range(len(slots)):
        tex = t.atlas[i]
        c, others, colour_, params = slots[i]
        if i == 0:
            ctx.check(c == 'textures/sky.png', 'slot 0 is the sky')
            continue
        if i == 1:
            ctx.check(c == 'textures/default.png', 'slot 1 is the default')
            continue
        ctx.check(len(params) == 4, 'offsets, rotation and scale')
        name = getattr(tex, 'c', 'empty.png')
        ctx.check(c == tex.basepath + '/' + name, 'a slot uses the image of its texture')
        for kind in 'nsgz':
            if isinstance(getattr(tex, kind, None), str):
                ctx.check((kind, tex.basepath + '/' + getattr(tex, kind)) in others, 'a slot has the extra images')
        ctx.check(len(others) == sum(1 for k in 'nsgz' if isinstance(getattr(tex, k, None), str)), 'no images of another texture')
        want = (tex.r, tex.g, tex.b) if hasattr(tex, 'r') else getattr(tex, 'texcolor', None)
        if want is None:
            ctx.check(colour_ is None, 'an uncoloured texture stays uncoloured')
        else:
            ctx.check(colour_ is not None and len(colour_) == 3, 'a coloured texture has its colour')
            for w, v in zip(colour_, want):
                ctx.check(ctx.eq(w, '%s' % (v,)), 'the colour of the slot is the colour of the texture')


def emitted(ctx, t, stem):
    # the second time over the file of the first, and that over an older one
    ctx.write_file(ctx.path(stem + '.cfg'), b'texture c "old.png"\n' * 400, gz=False)
    t.emit_conf(Named(ctx.path(stem + '.mpz')))
    t.emit_conf(Named(ctx.path(stem + '.mpz')))
    text = ctx.read_text(ctx.path(stem + '.cfg'))
    ctx.check(text is not None, 'the configuration lies next to the map')
    return text


def conf_names(ctx, which, n):
    t = manager(which)
    mine = sorted(k for k in t.texref if k not in ('sky', 'default'))
    at = ctx.choice('at', list(range(len(mine))))
    for i in range(n):
        at = (at + ctx.choice('step%d' % i, [1, 2])) % len(mine)
        k = mine[at]
        if getattr(t.texref[k], 'c', '') is None or k in ('simplecolourtex', 'paperbase'):
            continue
        t.get(k)
    check_conf(ctx, t, emitted(ctx, t, 'm'))
    ctx.reach('end')


def conf_all(ctx, which):
    """All textures of a set, in either order; or many colours."""
    t = manager(which)
    if which == 'auto':
        for i in range(40):
            t.get_colour(i / 64, (i * 7 % 16) / 16, i % 2)
        t.get_colour(ctx.real('c', 0, 1, 8), 0.25, 0)
    else:
        mine = sorted(k for k in t.texref if k not in ('sky', 'default'))
        if ctx.bool('back'):
            mine.reverse()
        for k in mine:
            if getattr(t.texref[k], 'c', '') is None or k in ('simplecolourtex', 'paperbase'):
                continue
            t.get(k)
    check_conf(ctx, t, emitted(ctx, t, 'm'))
    ctx.reach('end')


def conf_colours(ctx, n):
    t = manager('auto')
    for i in range(n):
        t.get_colour(*colour(ctx, 'c%d' % i))
    if ctx.bool('c'):
        t.get_c('accent')
    check_conf(ctx, t, emitted(ctx, t, 'a.b'))
    ctx.reach('end')


def conf_categories(ctx, which, n):
    t = manager(which)
    for i in range(n):
        t.get_c(ctx.choice('cat%d' % i, CATEGORIES))
    check_conf(ctx, t, emitted(ctx, t, 'm'))
    ctx.reach('end')


# -- the images ------------------------------------------------------------------------

class Copies(object):
    def __init__(self):
        self.done = []

    def copy(self, a, b):
        self.done.append((a, b))
    copyfile = copy2 = copy


class There(object):
    def __init__(self, there):
        self.there = there

    def exists(self, p):
        return self.there and not os.path.splitext(p)[1]
    isdir = exists

    def __getattr__(self, name):
        return getattr(os.path, name)


class Os(object):
    def __init__(self, there):
        self.path = There(there)

    def makedirs(self, *a, **k):
        pass
    mkdir = makedirs


def images(ctx, which, n, again=False, every=False):
    """Every image the game is told to load from the generator's own folder is put there."""
    t = manager(which)
    if every:
        # those of its themes: the others it knows are classes to build upon
        lists = [v for k, v in sorted(vars(getattr(t, 'theme', None)).items()) if k.endswith('Material')] if hasattr(t, 'theme') else []
        for k in sorted(set(k for l in lists for k in l)) * ctx.choice('twice', [1, 2]):
            t.get(k)
        for i in range(40 if which == 'auto' else 0):
            t.get_colour(i / 64, (i * 7 % 16) / 16, i % 2)
    for i in range(n):
        if which == 'auto':
            t.get_colour(*colour(ctx, 'c%d' % i))
        else:
            t.get_c(ctx.choice('cat%d' % i, CATEGORIES))
    rec = Copies()
    T.shutil = rec
    # the folder may be there already, with some of the images
    T.os = Os(ctx.choice('there', [False, True]))
    t.copy_data()
    if again and ctx.choice('more', [False, True]):
        for i in range(n):
            if which == 'auto':
                t.get_colour(*ctx.choice('d%d' % i, [(0.25, 0.5, 1), (1, 0, 0)]))
            else:
                t.get_c(ctx.choice('more%d' % i, CATEGORIES))
        t.copy_data()
    put = set()
    for a, b in rec.done:
        put.add(os.path.basename(b))
    for c, others, _, _ in parse(ctx, emitted(ctx, t, 'm')):
        for f in [c] + [o for _, o in others]:
            if f.startswith('hxr/textures/'):
                ctx.check(os.path.basename(f) in put, 'an image the configuration names is copied')
    ctx.reach('end')


def channels(ctx, base):
    """Any texture of a given kind, with or without its optional images: those its configuration names are its files."""
    from redeclipse.textures import basetex
    cls = getattr(basetex, base)
    names = [k for k in 'cnszg' if getattr(cls, k, k) is None]
    own = {k: 'some_%s.png' % k for k in names if k != 'z' or ctx.choice('depth', [True, False])}
    for k in ('specscale', 'parallaxscale', 'glowcolor'):
        if hasattr(cls, k) and ctx.choice(k, [True, False]):
            own[k] = (1, 0.5, 0.25, 2)
    if hasattr(cls, 'texcolor') and ctx.choice('texcolor', [True, False]):
        own['texcolor'] = (0.5, 1, 0.25)
    if not hasattr(cls, 'scale'):
        own['scale'] = 1
    tex = type('Own', (cls,), own)()
    files = [f for f in tex.files() if f]
    text = tex.conf(idx=7)
    named = []
    for line in text.split('\n'):
        words = line.split('//')[0].split()
        if words and words[0] == 'texture':
            f = words[2].strip('"')
            ctx.check(f.startswith(tex.basepath + '/'), 'images lie in the folder of the texture')
            named.append((words[1], f[len(tex.basepath) + 1:]))
    ctx.check(named[0][0] == 'c', 'the first image is the colour')
    ctx.check(len(set(k for k, _ in named)) == len(named), 'one image of each kind')
    for k, f in named:
        if k in own:
            ctx.check(f == own[k], 'an image is of its kind')
        ctx.check(f in files, 'an image the configuration names is among the files')
    for k in own:
        if k in 'cnszg':
            ctx.check(k in [n for n, _ in named], 'every image of the texture is named')
    ctx.reach('end')
