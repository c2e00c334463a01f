"""C07: colours are kept in range, and hex and named colours mean what CSS says."""
from . import common

PRELOAD = common.VRML
setup = common.warm
OUTSIDE = 'not-a-number components; CSS notations other than names and hexadecimal; names are compared to four decimals, as the table gives them'
ASSUMPTIONS = ['the components of the CSS named colours are those of the CSS Color Module (written down in this file)']

CSS = '''aliceblue f0f8ff antiquewhite faebd7 aqua 00ffff aquamarine 7fffd4 azure f0ffff beige f5f5dc bisque ffe4c4 black 000000
blanchedalmond ffebcd blue 0000ff blueviolet 8a2be2 brown a52a2a burlywood deb887 cadetblue 5f9ea0 chartreuse 7fff00 chocolate d2691e
coral ff7f50 cornflowerblue 6495ed cornsilk fff8dc crimson dc143c cyan 00ffff darkblue 00008b darkcyan 008b8b darkgoldenrod b8860b
darkgray a9a9a9 darkgreen 006400 darkkhaki bdb76b darkmagenta 8b008b darkolivegreen 556b2f darkorange ff8c00 darkorchid 9932cc darkred 8b0000
darksalmon e9967a darkseagreen 8fbc8f darkslateblue 483d8b darkslategray 2f4f4f darkturquoise 00ced1 darkviolet 9400d3 deeppink ff1493
deepskyblue 00bfff dimgray 696969 dodgerblue 1e90ff firebrick b22222 floralwhite fffaf0 forestgreen 228b22 fuchsia ff00ff gainsboro dcdcdc
ghostwhite f8f8ff gold ffd700 goldenrod daa520 gray 808080 green 008000 greenyellow adff2f honeydew f0fff0 hotpink ff69b4 indianred cd5c5c
indigo 4b0082 ivory fffff0 khaki f0e68c lavender e6e6fa lavenderblush fff0f5 lawngreen 7cfc00 lemonchiffon fffacd lightblue add8e6
lightcoral f08080 lightcyan e0ffff lightgoldenrodyellow fafad2 lightgreen 90ee90 lightgrey d3d3d3 lightpink ffb6c1 lightsalmon ffa07a
lightseagreen 20b2aa lightskyblue 87cefa lightslategray 778899 lightsteelblue b0c4de lightyellow ffffe0 lime 00ff00 limegreen 32cd32
linen faf0e6 magenta ff00ff maroon 800000 mediumaquamarine 66cdaa mediumblue 0000cd mediumorchid ba55d3 mediumpurple 9370db
mediumseagreen 3cb371 mediumslateblue 7b68ee mediumspringgreen 00fa9a mediumturquoise 48d1cc mediumvioletred c71585 midnightblue 191970
mintcream f5fffa mistyrose ffe4e1 moccasin ffe4b5 navajowhite ffdead navy 000080 oldlace fdf5e6 olive 808000 olivedrab 6b8e23 orange ffa500
orangered ff4500 orchid da70d6 palegoldenrod eee8aa palegreen 98fb98 paleturquoise afeeee palevioletred db7093 papayawhip ffefd5
peachpuff ffdab9 peru cd853f pink ffc0cb plum dda0dd powderblue b0e0e6 purple 800080 red ff0000 rosybrown bc8f8f royalblue 4169e1
saddlebrown 8b4513 salmon fa8072 sandybrown f4a460 seagreen 2e8b57 seashell fff5ee sienna a0522d silver c0c0c0 skyblue 87ceeb
slateblue 6a5acd slategray 708090 snow fffafa springgreen 00ff7f steelblue 4682b4 tan d2b48c teal 008080 thistle d8bfd8 tomato ff6347
turquoise 40e0d0 violet ee82ee wheat f5deb3 white ffffff whitesmoke f5f5f5 yellow ffff00 yellowgreen 9acd32'''.split()
CSS = {CSS[i]: tuple(int(CSS[i + 1][j:j + 2], 16) / 255. for j in (0, 2, 4)) for i in range(0, len(CSS), 2)}

for _k in list(CSS):
    for _a, _b in (('gray', 'grey'), ('grey', 'gray')):
        if _a in _k:
            CSS[_k.replace(_a, _b)] = CSS[_k]
ASCII = [(0, 127)]
NOTHEX = [(0, 47), (58, 64), (71, 96), (103, 127)]
LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


def nodes(env, multi=False):
    """A node with a colour field, and the name of the field."""
    from vrml import node, field
    from vrml.vrml97 import basenodes
    how = env.pick('field', ['standard', 'declared', 'defaulted'])
    if how == 'standard':
        return (basenodes.Color(), 'color') if multi else (basenodes.Material(), env.pick('name', ['diffuseColor', 'emissiveColor', 'specularColor']))
    ft = 'MFColor' if multi else 'SFColor'
    if how == 'declared':
        return node.prototype('P', [field.newField('f', ft, 1)])(), 'f'
    return node.prototype('P', [field.newField('f', ft, 1, [.25, .5, .75])])(), 'f'


def near(env, a, b, label, tol=0.0001):
    env.check(env.both(a - b <= tol, b - a <= tol), label)


def clamped(env, got, want, label):
    env.check(env.both(got >= 0, got <= 1), label + ': between 0 and 1')
    if bool(want < 0):
        env.check(got == 0, label + ': below the range is 0')
        env.cover('below')
    elif bool(want > 1):
        env.check(got == 1, label + ': above the range is 1')
        env.cover('above')
    else:
        near(env, got, want, label + ': inside the range unchanged', 0.000001)
        env.cover('inside')


def components(env, name='v', lo=-4, hi=300):
    return [env.real('%s%d' % (name, i), lo, hi) for i in range(3)]


def single(env):
    from vrml import arrays, protofunctions
    n, f = nodes(env)
    form = env.pick('form', ['list', 'tuple', 'array', 'double', 'ints', 'scalar', 'map', 'fset', 'constructor'])
    if form == 'ints':
        vals = [env.int('v%d' % i, -300, 300) for i in range(3)]
        value = arrays.array(vals, 'i')
    elif form == 'scalar':
        vals = [env.real('v', -4, 300)] * 3
        value = vals[0]
    else:
        vals = components(env)
        value = {'tuple': tuple(vals), 'array': None, 'double': None, 'map': map(lambda x: x, vals)}.get(form, list(vals))
        if form in ('array', 'double'):
            value = arrays.array(vals, 'f' if form == 'array' else 'd')
    if form == 'fset':
        got = protofunctions.getField(n, f).fset(n, value, notify=0)
        env.check(len(got) == 3, 'three components')
    elif form == 'constructor':
        n = type(n)(**{f: value})
    else:
        setattr(n, f, value)
    got = getattr(n, f)
    env.check(got.shape == (3,), 'three components')
    for g, w in zip(list(got), vals):
        clamped(env, g, w, 'component')
    env.cover('done')


def multi(rows):
    def fn(env):
        from vrml import arrays
        n, f = nodes(env, True)
        vals = [components(env, 'r%d_' % i) if i == rows - 1 else [.25 * i, 1.5, -.5] for i in range(rows)]
        form = env.pick('form', ['lists', 'flat', 'array', 'double', 'mixed', 'tuples'])
        flat = [x for r in vals for x in r]
        value = {'lists': [list(r) for r in vals], 'flat': list(flat), 'tuples': tuple(tuple(r) for r in vals)}.get(form)
        if form in ('array', 'double'):
            value = arrays.reshape(arrays.array(flat, 'f' if form == 'array' else 'd'), (rows, 3))
        if form == 'mixed':
            value = ['#00fF7f'] + flat + ['red']
            vals = [[0, 1, 127 / 255.]] + vals + [[1, 0, 0]]
        setattr(n, f, value)
        got = getattr(n, f)
        env.check(got.shape == (len(vals), 3), 'rows of three components')
        for g, w in zip(got, vals):
            for a, b in zip(list(g), w):
                clamped(env, a, b, 'component')
        env.cover('done')
    return fn


def hexa(digits, where):
    def fn(env):
        d = env.text('d', digits, alphabet='0123456789abcdefABCDEF')
        if digits == 3:
            want = [int(c, 16) * 17 for c in d]
        else:
            want = [int(d[i], 16) * 16 + int(d[i + 1], 16) for i in (0, 2, 4)]
        if where == 'single':
            n, f = nodes(env)
            setattr(n, f, '#' + d)
            got = [getattr(n, f)]
        elif where == 'function':
            from vrml import csscolors
            got = [csscolors.stringToColor('#' + d)]
        else:
            n, f = nodes(env, True)
            k = env.choice('before', 2)
            setattr(n, f, [.5, .5, .5] * k + ['#' + d, 'lime'])
            got = list(getattr(n, f))
            env.check(len(got) == k + 2, 'number of colours')
            for a, b in zip(list(got[k + 1]), [0, 1, 0]):
                near(env, a, b, 'the colour after it')
            got = got[k:k + 1]
        for g, w in zip(list(got[0]), want):
            env.close(g * 255, w, 'the component of the digits')
        env.cover('done')
    return fn


def badhex(env):
    """Other lengths and characters are refused."""
    n, f = nodes(env)
    setattr(n, f, [.25, .5, .75])
    k = env.pick('digits', [0, 1, 2, 3, 4, 5, 6, 7])
    if k in (3, 6):
        at = env.choice('at', k)
        d = env.text('d', at, ranges=ASCII) + env.text('bad', 1, ranges=NOTHEX) + env.text('e', k - at - 1, ranges=ASCII)
    else:
        d = env.text('d', k, ranges=ASCII)
    try:
        setattr(n, f, '#' + d)
    except ValueError:
        pass
    else:
        env.check(False, 'is refused')
    env.check([float(x) for x in getattr(n, f)] == [.25, .5, .75], 'the old colour stays')
    env.cover('done')


def names(length, upper):
    """Every word of this many letters."""
    def fn(env):
        w = env.text('w', length, alphabet=LETTERS if upper else LETTERS[:26])
        n, f = nodes(env) if length in (3, 4) else (None, None)
        if n is None:
            from vrml.vrml97 import basenodes
            n, f = basenodes.Material(), 'diffuseColor'
        setattr(n, f, [.25, .5, .75])
        try:
            setattr(n, f, w)
        except ValueError:
            got = None
        else:
            got = [x for x in getattr(n, f)]
        low = w.lower()
        for k in sorted(CSS):
            if len(k) == length and bool(low == k):
                env.check(got is not None, 'a CSS colour name is accepted')
                for g, c in zip(got, CSS[k]):
                    near(env, g, c, 'the component of ' + k)
                env.cover('named')
                return
        env.check(got is None, 'other words are refused')
        env.check([float(x) for x in getattr(n, f)] == [.25, .5, .75], 'the old colour stays')
        env.cover('other')
    return fn


def reading(env):
    """Colours read from a file."""
    x = env.decimal('x', 1, 2)
    at = env.choice('at', 3)
    vals = ['0.5', '7', '-1']
    want = [.5, 7, -1]
    vals[at], want[at] = str(x), x
    text = '#VRML V2.0 utf8\nMaterial { diffuseColor ' + ' '.join(vals) + ' } Color { color [ 0 1 0 ' + ' '.join(vals) + ' ] } PROTO P [ field SFColor c ' + ' '.join(vals) + ' ] { } P { }'
    sg = common.parse(text)
    env.check(sg is not None, 'the text is read')
    m, c, p = sg.children
    for got in (m.diffuseColor, c.color[1], p.c):
        for g, w in zip(list(got), want):
            clamped(env, g, w, 'component')
    env.cover('done')


def routed(env):
    """Colours that arrive through a route."""
    from vrml.vrml97 import basenodes, scenegraph
    from vrml import node, field
    src = node.prototype('S', [field.newField('v', 'SFVec3f', 1)])()
    m = basenodes.Material()
    sg = scenegraph.SceneGraph(children=[src, m])
    sg.addRoute((src, 'v', m, 'diffuseColor'))
    vals = components(env)
    src.v = vals
    for g, w in zip(list(m.diffuseColor), vals):
        clamped(env, g, w, 'component')
    env.cover('done')


def harnesses(tier):
    deep = tier != 'quick'
    hs = []

    def add(name, fn, bounds, covers=('done',), **k):
        hs.append(dict(name=name, fn=fn, covers=list(covers), bounds=bounds, variants=['pure', 'accel'], validate=6 if not deep else 30, **k))
    rng = ('done', 'below', 'above', 'inside')
    add('single', single, 'nine forms, components from -4 to 300', rng)
    for r in (1, 2) if not deep else (1, 2, 3, 5):
        add('multi%d' % r, multi(r), '%d rows, the last one arbitrary from -4 to 300' % r, rng)
    for d in (3, 6):
        for w in ('single', 'multi', 'function'):
            add('hex%d_%s' % (d, w), hexa(d, w), 'all digits in both cases')
    add('badhex', badhex, 'up to seven arbitrary characters')
    lengths = sorted(set(len(k) for k in CSS))
    for l in range(1, max(lengths) + 2):
        add('names%d' % l, names(l, True), 'every word of %d letters in any case' % l, ('other', 'named') if l in lengths else ('other',))
    add('reading', reading, 'decimals d.dd', rng)
    add('routed', routed, 'components from -4 to 300', rng)
    return hs
