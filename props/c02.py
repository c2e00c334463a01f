"""C02: every number survives writing and reading back."""
from . import common

PRELOAD = common.VRML
setup = common.warm
OUTSIDE = 'numbers whose shortest decimal text has more digits than stated; infinities and NaN; lists longer than stated'
ASSUMPTIONS = ['str() of a finite float is its shortest decimal text and float() of that text is the same float '
               '(a guarantee of Python and numpy); floats are otherwise compared as exact reals']

SHAPES = [(1, 1, None), (2, 1, None), (1, 2, None), (3, 2, None), (1, 5, None), (6, 1, None),
          (1, 0, -5), (1, 2, -6), (1, 0, 16), (1, 3, 21)]
MORE = [(1, 6, None), (4, 3, None), (1, 5, -30), (1, 5, 30), (3, 4, None), (5, 1, None)]
SMALL = [(1, 1, None), (2, 2, None), (1, 0, -7), (1, 1, 20)]

SINGLE = {'SFFloat': 1, 'SFTime': 1, 'SFVec2f': 2, 'SFVec3f': 3, 'SFVec4f': 4, 'SFVec2d': 2, 'SFVec3d': 3, 'SFVec4d': 4, 'SFRotation': 4}
MULTI = {'MFFloat': 1, 'MFFloat32': 1, 'MFTime': 1, 'MFVec2f': 2, 'MFVec3f': 3, 'MFVec4f': 4, 'MFVec2d': 2, 'MFVec3d': 3, 'MFVec4d': 4, 'MFRotation': 4}


def num(env, name, shapes):
    ni, nf, e = env.pick(name + '.shape', shapes)
    return env.decimal(name, ni, nf, exp=e)


def flat(v):
    if hasattr(v, 'ravel'):
        v = v.ravel()
        return [v[i] for i in range(len(v))]
    return list(v)


def same(env, got, want, label):
    got, want = flat(got), flat(want)
    env.check(len(got) == len(want), label + ': same number of values')
    for a, b in zip(got, want):
        env.check(a == b, label + ': value unchanged')


def back_of(env, node):
    text = node.toString()
    sg = common.parse(text)
    env.check(sg is not None, 'the written text parses completely')
    env.check(len(sg.children) == 1, 'one node comes back')
    return sg.children[0]


def protoed(env, ft, value, compare, default=None):
    """value of field type ft, on a node of a prototype declaring it."""
    from vrml import node, field
    if default is None:
        P = node.prototype('P', [field.newField('f', ft, 1)])
    else:
        P = node.prototype('P', [field.newField('f', ft, 1, default)])
    n = P(f=value)
    want = n.f
    b = back_of(env, n)
    compare(b.f, want)
    env.cover('done')


def single(ft, n, shapes):
    def fn(env):
        k = env.choice('at', n)
        vals = [i + 0.5 for i in range(n)]
        vals[k] = num(env, 'v', shapes)
        value = vals[0] if n == 1 else vals
        cmp = (lambda g, w: env.check(g == w, 'value unchanged')) if n == 1 else (lambda g, w: same(env, g, w, ft))
        protoed(env, ft, value, cmp, default=(7.0 if n == 1 else [7.0] * n))
    return fn


def exponents(ft, n, lo, hi):
    """Every decimal exponent in lo..hi, any one- or two-digit mantissa."""
    def fn(env):
        e = env.pick('e', [x for x in range(lo, hi + 1) if not -5 < x < 16])
        v = env.decimal('v', 1, env.choice('nf', 2), exp=e)
        cmp = (lambda g, w: env.check(g == w, 'value unchanged')) if n == 1 else (lambda g, w: same(env, g, w, ft))
        protoed(env, ft, v if n == 1 else [0.0] * (n - 1) + [v], cmp, default=(7.0 if n == 1 else [7.0] * n))
    return fn


def nodefault(ft, n, rows=None):
    """The declared type has no explicit default: the value still comes back."""
    def fn(env):
        k = n if rows is None else n * rows
        vals = [env.decimal('v%d' % i, 1, 1) if i < 3 else 0.0 for i in range(k)]
        value = vals if rows is None else [vals[i * n:(i + 1) * n] for i in range(rows)]
        protoed(env, ft, value, lambda g, w: same(env, g, w, ft))
    return fn


def neardefault(ft, n, multi=False):
    """A value however close to the default is still written."""
    def fn(env):
        d = env.pick('default', [0.0, 1.0, -0.25])
        v = num(env, 'v', [(1, 10, None), (1, 0, -7), (1, 0, -300)])
        at = env.choice('at', n)
        vals = [d] * n
        vals[at] = v
        one = n == 1 and not multi
        cmp = (lambda g, w: env.check(g == w, 'value unchanged')) if one else (lambda g, w: same(env, g, w, ft))
        protoed(env, ft, v if one else vals, cmp, default=d if one else [d] * n)
    return fn


def isdefault(ft, n, multi=False):
    """The value is the declared default: it is written once, as the default."""
    def fn(env):
        from vrml import node, field
        at = env.choice('at', n)
        vals = [0.25 * (i - 1) for i in range(n)]
        vals[at] = env.decimal('v', 1, 1)
        d = vals[0] if (n == 1 and not multi) else vals
        P = node.prototype('P', [field.newField('f', ft, 1, d)])
        nd = P()
        want = nd.f
        b = back_of(env, nd)
        if n == 1 and not multi:
            env.check(b.f == want, 'default value unchanged')
        else:
            same(env, b.f, want, ft)
        env.cover('done')
    return fn


def multi(ft, n, rows, shapes):
    def fn(env):
        vals = [i + 0.5 for i in range(n * rows)]
        if vals:
            vals[env.choice('at', n * rows)] = num(env, 'v', shapes)
        value = vals if n == 1 else [vals[i * n:(i + 1) * n] for i in range(rows)]
        protoed(env, ft, value, lambda g, w: same(env, g, w, ft))
    return fn


def long_multi(ft, n, rows, at):
    """Long lists, so that line wrapping is met: one row arbitrary."""
    def fn(env):
        vals = [float(i % 9) + 0.5 for i in range(n * rows)]
        vals[at * n + env.choice('at', n)] = env.decimal('v', 1, 1)
        value = vals if n == 1 else [vals[i * n:(i + 1) * n] for i in range(rows)]
        protoed(env, ft, value, lambda g, w: same(env, g, w, ft))
    return fn


def sfarray(ft):
    """Arrays of one and two dimensions."""
    def fn(env):
        shape = env.pick('shape', [(1,), (3,), (1, 1), (1, 3), (2, 2), (3, 1), (2, 1, 2)])
        n = 1
        for x in shape:
            n *= x
        vals = [i + 0.5 for i in range(n)]
        vals[env.choice('at', n)] = num(env, 'v', SMALL)

        def build(sh, k=0):
            if len(sh) == 1:
                return vals[k:k + sh[0]]
            w = 1
            for x in sh[1:]:
                w *= x
            return [build(sh[1:], k + i * w) for i in range(sh[0])]

        def cmp(g, w):
            env.check(tuple(g.shape) == shape, 'same shape')
            same(env, g, vals, ft)
        protoed(env, ft, build(shape), cmp)
    return fn


def matrices(ft, d, rows):
    def fn(env):
        vals = [float(i % 7) for i in range(d * d * rows)]
        vals[env.choice('at', d * d) + (rows - 1) * d * d] = num(env, 'v', SMALL)
        value = [[vals[(m * d + i) * d:(m * d + i + 1) * d] for i in range(d)] for m in range(rows)]

        def cmp(g, w):
            env.check(tuple(g.shape) == (rows, d, d), 'same shape')
            same(env, g, vals, ft)
        protoed(env, ft, value, cmp)
    return fn


def matrix(ft, d, shapes):
    def fn(env):
        vals = [float(i % 7) for i in range(d * d)]
        vals[env.choice('at', d * d)] = num(env, 'v', shapes)

        def cmp(g, w):
            env.check(tuple(g.shape) == (d, d), 'same shape')
            same(env, g, vals, ft)
        protoed(env, ft, [vals[i * d:(i + 1) * d] for i in range(d)], cmp)
    return fn


def integer(ft, lo, hi):
    def fn(env):
        v = env.int('v', lo, hi)
        protoed(env, ft, v, lambda g, w: env.check(g == v, 'value unchanged'), default=7)
    return fn


def integers(ft, lo, hi, n):
    def fn(env):
        vals = [env.int('v%d' % i, lo, hi if i == 0 else 99) for i in range(n)]
        protoed(env, ft, vals, lambda g, w: same(env, g, vals, ft))
    return fn


def boolean(env):
    v = env.flag('v')
    d = env.flag('d')
    protoed(env, 'SFBool', v, lambda g, w: env.check(bool(g) == v, 'value unchanged'), default=d)


def unit(env, name):
    """A number in [0,1] with a short decimal text."""
    k = env.pick(name + '.k', ['0.ddd', '1.0'])
    if k == '1.0':
        return 1.0
    v = env.decimal(name, 1, 3)
    env.assume(v <= 1)
    env.assume(v >= 0)
    return v


def color(env):
    vals = [unit(env, 'v%d' % i) for i in range(3)]
    protoed(env, 'SFColor', vals, lambda g, w: same(env, g, w, 'SFColor'), default=[.5, .5, .5])


def colors(rows):
    def fn(env):
        vals = [[unit(env, 'v%d_%d' % (r, i)) if i == 0 else 0.25 for i in range(3)] for r in range(rows)]
        protoed(env, 'MFColor', vals, lambda g, w: same(env, g, w, 'MFColor'))
    return fn


def standard(env):
    """The same through standard nodes and their fields."""
    from vrml.vrml97 import basenodes
    which = env.pick('node', ['Transform.translation', 'Transform.rotation', 'Material.shininess', 'Switch.whichChoice',
                              'Coordinate.point', 'TimeSensor.cycleInterval', 'IndexedFaceSet.coordIndex',
                              'PixelTexture.image', 'ScalarInterpolator.key', 'TextureCoordinate.point', 'Material.diffuseColor'])
    tp, f = which.split('.')
    cls = getattr(basenodes, tp)
    if f in ('translation', 'rotation'):
        val = [env.decimal('a', 1, 1), 0.0, 1.0, 0.0][:4 if f == 'rotation' else 3]
    elif f in ('shininess', 'cycleInterval'):
        val = env.decimal('a', 1, 2)
    elif f == 'whichChoice':
        val = env.int('n', -3, 300)
    elif f in ('coordIndex', 'image'):
        val = [env.int('n', 0 if f == 'image' else -1, 300), 2, 3]
    elif f == 'key':
        val = [0.5, env.decimal('a', 1, 1)]
    elif f == 'diffuseColor':
        val = [unit(env, 'a'), 0.8, 0.0]
    else:
        val = [[env.decimal('a', 2, 1), 1.0, 2.0][:3 if tp == 'Coordinate' else 2]]
    n = cls(**{f: val})
    want = getattr(n, f)
    b = back_of(env, n)
    env.check(type(b) is cls, 'same node type')
    got = getattr(b, f)
    if f in ('shininess', 'cycleInterval', 'whichChoice'):
        env.check(got == want, which + ' unchanged')
    else:
        same(env, got, want, which)
    env.cover('done')


def reading(kind):
    """Number syntax is read as the number it denotes."""
    def fn(env):
        from vrml.vrml97 import basenodes
        head = '#VRML V2.0 utf8\n'
        if kind == 'int':
            sign = env.pick('sign', ['', '-', '+'])
            d = env.text('d', env.pick('n', [1, 2, 3]), alphabet='0123456789')
            body = sign + d
            want = 0
            for ch in d:
                want = want * 10 + int(ch)
            if sign == '-':
                want = -want
            sg = common.parse(head + 'Switch { whichChoice ' + body + ' }')
            env.check(sg is not None, 'parses')
            env.check(sg.children[0].whichChoice == want, 'the integer denoted')
        elif kind == 'hex':
            d = env.text('d', env.pick('n', [1, 2, 3]), alphabet='0123456789abcdefABCDEF')
            want = 0
            for ch in d:
                want = want * 16 + int(ch, 16)
            sg = common.parse(head + 'PixelTexture { image [ 1 0' + env.pick('x', ['x', 'X']) + d + ' ] }')
            env.check(sg is not None, 'parses')
            env.check(len(sg.children[0].image) == 2, 'two integers')
            env.check(sg.children[0].image[1] == want, 'the integer denoted')
        else:
            sign = env.pick('sign', ['', '-', '+'])
            ni, nf = env.pick('shape', [(1, 0), (2, 0), (0, 1), (1, 1), (2, 2)])
            e = env.pick('exp', ['', 'e1', 'E+2', 'e-1'])
            a, b = env.text('a', ni, alphabet='0123456789'), env.text('b', nf, alphabet='0123456789')
            dot = '.' if nf else env.pick('dot', ['', '.'])
            want = 0
            for ch in a + b:
                want = want * 10 + int(ch)
            sc = {'': 0, 'e1': 1, 'E+2': 2, 'e-1': -1}[e] - nf
            if sign == '-':
                want = -want
            want = want * 10 ** sc if sc >= 0 else want / (10.0 ** -sc)
            sg = common.parse(head + 'Material { shininess ' + sign + a + dot + b + e + ' }')
            env.check(sg is not None, 'parses')
            env.close(sg.children[0].shininess, want, 'the number denoted')
        env.cover('done')
    return fn


def harnesses(tier):
    deep = tier != 'quick'
    sh = SHAPES + (MORE if deep else [])
    hs = []

    def add(name, fn, bounds):
        hs.append(dict(name=name, fn=fn, covers=['done'], bounds=bounds))
    for ft, n in SINGLE.items():
        add('single_' + ft, single(ft, n, sh), 'one %s value: signed decimals of shapes %s in one component, whichever' % (ft, sh))
        if n > 1:
            add('nodefault_' + ft, nodefault(ft, n), 'one %s value, d.d signed decimals, field declared without a default' % ft)
        add('default_' + ft, isdefault(ft, n), 'the value is the default')
        add('near_' + ft, neardefault(ft, n), 'the value differs little from the default')
    for ft, n, lo, hi in [('SFFloat', 1, -37, 37), ('SFTime', 1, -110, 110), ('SFVec2d', 2, -20, 20), ('SFVec2f', 2, -20, 20)]:
        if deep:
            lo, hi = (-37, 37) if ft == 'SFVec2f' else (-300, 300)
        add('exponents_' + ft, exponents(ft, n, lo, hi), 'every decimal exponent from %d to %d' % (lo, hi))
    for ft, n in MULTI.items():
        for rows in ([0, 1, 2] if not deep else [0, 1, 2, 3]):
            add('multi_%s_%d' % (ft, rows), multi(ft, n, rows, SMALL if not deep else SHAPES), '%d rows of %s' % (rows, ft))
        add('long_%s' % ft, long_multi(ft, n, 130 // n, 99 // n), '%d rows, the one at the first wrapping point arbitrary' % (130 // n))
        add('default_' + ft, isdefault(ft, n, multi=True), 'one row as the default')
        add('near_' + ft, neardefault(ft, n, multi=True), 'one row that differs little from the default')
    for ft in ['SFArray', 'SFArray32']:
        add(ft, sfarray(ft), 'arrays of shapes 1, 3, 1x1, 1x3, 2x2, 3x1, 2x1x2')
    for d in (3, 4):
        for t in 'fd':
            add('SFMatrix%d%s' % (d, t), matrix('SFMatrix%d%s' % (d, t), d, SMALL if not deep else SHAPES), 'a matrix, one component arbitrary')
            for rows in ([1, 13] if not deep else [1, 2, 7, 12, 30]):
                add('MFMatrix%d%s_%d' % (d, t, rows), matrices('MFMatrix%d%s' % (d, t), d, rows), '%d matrices, one component arbitrary' % rows)
    add('SFInt32', integer('SFInt32', -2**31, 2**31 - 1), 'every 32-bit integer')
    add('SFUInt32', integer('SFUInt32', 0, 2**32 - 1), 'every unsigned 32-bit integer')
    for ft, lo, hi in [('MFInt32', -2**31, 2**31 - 1), ('MFUInt32', 0, 2**32 - 1), ('SFImage', 0, 2**32 - 1)]:
        for n in [0, 1, 2]:
            add('%s_%d' % (ft, n), integers(ft, max(lo, -99) if n > 1 else lo, hi, n), '%d integers' % n)
    add('SFBool', boolean, 'both values, both defaults')
    add('SFColor', color, 'channels d.ddd in [0,1]')
    for r in [0, 1, 2]:
        add('MFColor_%d' % r, colors(r), '%d colours' % r)
    add('standard', standard, 'eleven standard fields')
    for k in ['int', 'hex', 'real']:
        add('read_' + k, reading(k), 'up to three digits, optional sign, exponent, point')
    return hs
