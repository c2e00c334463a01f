"""C06: setting a field stores one canonical value that the field owns."""
from . import common

PRELOAD = common.VRML
OUTSIDE = 'rounding to single precision; numbers outside the element type of an integer array; structured arrays; generators (only map, zip and range are accepted iterators)'
ASSUMPTIONS = ['floats are compared as exact reals; the element type stands for the precision']

# field type -> (element type, shape of one row, number of rows (None: any))
VEC = {'SFVec2f': ('f', (2,)), 'SFVec3f': ('f', (3,)), 'SFVec4f': ('f', (4,)), 'SFVec2d': ('d', (2,)), 'SFVec3d': ('d', (3,)), 'SFVec4d': ('d', (4,)),
       'SFRotation': ('f', (4,)), 'SFColor': ('f', (3,)),
       'SFMatrix3f': ('f', (3, 3)), 'SFMatrix4f': ('f', (4, 4)), 'SFMatrix3d': ('d', (3, 3)), 'SFMatrix4d': ('d', (4, 4))}
MVEC = {'MFVec2f': ('f', (2,)), 'MFVec3f': ('f', (3,)), 'MFVec4f': ('f', (4,)), 'MFVec2d': ('d', (2,)), 'MFVec3d': ('d', (3,)), 'MFVec4d': ('d', (4,)),
        'MFRotation': ('d', (4,)), 'MFColor': ('f', (3,)), 'MFMatrix3f': ('f', (3, 3)), 'MFMatrix4f': ('f', (4, 4)), 'MFMatrix3d': ('d', (3, 3)), 'MFMatrix4d': ('d', (4, 4))}
FLAT = {'MFFloat': 'd', 'MFFloat32': 'f', 'MFTime': 'd'}
INTS = {'MFInt32': ('i', -2**31, 2**31 - 1), 'MFUInt32': ('I', 0, 2**32 - 1), 'SFImage': ('I', 0, 2**32 - 1)}
STD = {'SFVec3f': ('Transform', 'translation'), 'SFRotation': ('Transform', 'rotation'), 'SFColor': ('Material', 'diffuseColor'), 'SFVec2f': ('TextureTransform', 'scale'),
       'MFVec3f': ('Coordinate', 'point'), 'MFInt32': ('IndexedFaceSet', 'coordIndex'), 'MFFloat': ('PositionInterpolator', 'key'), 'MFColor': ('Color', 'color'),
       'MFRotation': ('OrientationInterpolator', 'keyValue'), 'MFVec2f': ('TextureCoordinate', 'point'), 'SFFloat': ('Cone', 'height'), 'SFInt32': ('Switch', 'whichChoice'),
       'SFBool': ('Cone', 'side'), 'SFString': ('WorldInfo', 'title'), 'MFString': ('WorldInfo', 'info'), 'SFTime': ('TimeSensor', 'cycleInterval'), 'SFImage': ('PixelTexture', 'image')}


def make(env, ft, n=2, **k):
    """Nodes with a field of type ft: of a prototype, or a standard node."""
    from vrml import node, field
    from vrml.vrml97 import basenodes
    if ft in STD and env.flag('standard'):
        cls, name = STD[ft]
        cls = getattr(basenodes, cls)
    else:
        name = 'f'
        cls = node.prototype('P', [field.newField('f', ft, 1)])
    return [cls() for i in range(n)], name


def lo_hi(ft):
    return (0, 1) if ft in ('SFColor', 'MFColor') else (-64, 64)


def canonical(env, v, code, shape, label='stored value'):
    from vrml import arrays
    env.check(isinstance(v, arrays.ArrayType), label + ': is an array')
    env.check(arrays.typeCode(v) == code, label + ': has the element type of the field')
    env.check(v.shape == shape, label + ': has the shape of the field')
    env.check(bool(v.flags['C_CONTIGUOUS']), label + ': is contiguous')


def equal(env, v, want, label='stored value'):
    got = list(v.ravel())
    env.check(len(got) == len(want), label + ': number of values')
    for a, b in zip(got, want):
        env.close(a, b, label + ': the given number')


def split(vals, n):
    return [vals[i:i + n] for i in range(0, len(vals), n)]


def shape_as(env, form, vals, shape, code):
    """The numbers in one of the accepted forms; (value, mutate or None)."""
    from vrml import arrays
    other = {'f': 'd', 'd': 'f'}.get(code, 'l')
    rows = vals
    for n in reversed(shape[1:]):
        rows = split(rows, n)

    def poke_list(v):
        def go():
            v[0] = [777.0] * len(v[0]) if isinstance(v[0], list) else 777.0
            v.append(777.0)
        return go

    def poke_inner(v):
        def go():
            while isinstance(v[0][0], list):
                v[0] = v[0][0]
            v[0][0] = 777.0
        return go

    def poke_array(v):
        def go():
            v.ravel()[0:1] = 777
            v[...] = 777
        return go
    if form == 'list':
        v = list(vals)
        return v, poke_list(v)
    if form == 'tuple':
        return tuple(vals), None
    if form == 'map':
        return map(lambda x: x, list(vals)), None
    if form == 'nested':
        v = [list(r) if not isinstance(r, list) else r for r in rows]
        return v, poke_inner(v)
    if form == 'tuples':
        return tuple(tuple(r) for r in rows), None
    if form == 'same':
        v = arrays.reshape(arrays.array(list(vals), code), shape)
        return v, poke_array(v)
    if form == 'flat_same':
        v = arrays.array(list(vals), code)
        return v, poke_array(v)
    if form == 'other':
        v = arrays.reshape(arrays.array(list(vals), other), shape)
        return v, poke_array(v)
    if form == 'strided':
        w = arrays.zeros((2 * len(vals),), code)
        w[::2] = arrays.array(list(vals), code)
        return w[::2], poke_array(w)
    if form == 'turned':
        v = arrays.transpose(arrays.reshape(arrays.array(list(vals), code), shape))
        w = arrays.array(v)
        return arrays.transpose(w), poke_array(w)
    if form == 'arrays':
        v = [arrays.array(list(r), code) for r in rows]
        return v, lambda: [r.__setitem__(0, 777) for r in v]
    raise KeyError(form)


def owning(env, nodes, name, value, mutate, check):
    """Set, look, set again, mutate the caller's object, look at others."""
    a, b = nodes
    setattr(a, name, value)
    v = getattr(a, name)
    check(v, 'stored value')
    setattr(b, name, v)
    check(getattr(b, name), 'value stored again')
    check(getattr(a, name), 'after storing it again')
    if mutate:
        mutate()
        check(getattr(a, name), 'after a change of the given object')
        check(getattr(b, name), 'after a change of the given object, elsewhere')
    w = getattr(b, name)
    if hasattr(w, 'ravel') and w.size:
        w[...] = 77
        check(getattr(a, name), 'after a change of the value of another node')
    elif isinstance(w, list) and w:
        w[0] = 'changed'
        w.append('more')
        check(getattr(a, name), 'after a change of the value of another node')
    env.cover('done')


def size(shape):
    n = 1
    for k in shape:
        n *= k
    return n


def vec(ft):
    code, shape = VEC[ft]

    def fn(env):
        n = size(shape)
        lo, hi = lo_hi(ft)
        forms = ['list', 'tuple', 'map', 'same', 'other', 'strided', 'nested1', 'row', 'ints']
        form = env.pick('form', forms if len(shape) == 1 else ['list', 'map', 'same', 'other', 'row', 'nested1'])
        nodes, name = make(env, ft)
        if form == 'ints':
            from vrml import arrays
            vals = [env.int('v%d' % i, lo, hi) for i in range(n)]
            value = arrays.array(vals, 'i')

            def mutate():
                value[...] = 7
        else:
            vals = [env.real('v%d' % i, lo, hi) for i in range(n)]
            if form == 'nested1':
                value = [list(vals)]
                mutate = lambda: value[0].__setitem__(0, 777.0)
            elif form == 'row':
                from vrml import arrays
                value = arrays.array([list(vals)], code)

                def mutate():
                    value[...] = 777
            else:
                value, mutate = shape_as(env, form, vals, shape, code)

        def check(v, label):
            canonical(env, v, code, shape, label)
            equal(env, v, vals, label)
        owning(env, nodes, name, value, mutate, check)
    return fn


def scalar_vec(ft):
    code, shape = VEC[ft]

    def fn(env):
        lo, hi = lo_hi(ft)
        x = env.real('x', lo, hi) if env.flag('float') else env.int('i', lo, hi)
        nodes, name = make(env, ft)

        def check(v, label):
            canonical(env, v, code, shape, label)
            equal(env, v, [x] * size(shape), label)
        owning(env, nodes, name, x, None, check)
    return fn


def text_vec(ft, multi=False):
    code, shape = (MVEC if multi else VEC)[ft]

    def fn(env):
        n = 1
        for k in shape:
            n *= k
        vals = [float(i) for i in range(n)]
        if ft in ('MFColor',):
            vals = [i / 4.0 for i in range(n)]
        at = env.choice('at', n)
        vals[at] = env.decimal('x', 1, 1) if ft != 'MFColor' else env.real('y', 0, 1)
        if ft == 'MFColor':
            vals[at] = .25
        sep = env.pick('sep', [' ', ',', ', '])
        nodes, name = make(env, ft)

        def check(v, label):
            canonical(env, v, code, ((1,) if multi else ()) + shape, label)
            equal(env, v, vals, label)
        owning(env, nodes, name, sep.join([str(x) for x in vals]), None, check)
    return fn


def mvec(ft, rows):
    code, row = MVEC[ft]
    size = 1
    for k in row:
        size *= k

    def fn(env):
        lo, hi = lo_hi(ft)
        forms = ['list', 'same', 'flat_same', 'other', 'nested', 'tuples', 'map']
        if rows == 1:
            forms += ['strided']
        if len(row) == 2 or rows > 1:
            forms += ['turned']
        if rows and len(row) == 1:
            forms += ['arrays']
        if not rows:
            forms = ['list', 'same', 'flat_same', 'tuple']
        form = env.pick('form', forms)
        nodes, name = make(env, ft)
        vals = [env.real('v%d' % i, lo, hi) if i in (0, 1, size - 1, size * rows - 1) else (i % 7) / 7.0 for i in range(size * rows)]
        value, mutate = shape_as(env, form, vals, (rows,) + row, code)
        if not rows:
            mutate = None

        def check(v, label):
            canonical(env, v, code, (rows,) + row, label)
            equal(env, v, vals, label)
        owning(env, nodes, name, value, mutate, check)
    return fn


def reshaped(ft):
    """Rows of another length, the numbers in order."""
    code, row = MVEC[ft]
    n = size(row)

    def fn(env):
        from vrml import arrays
        lo, hi = lo_hi(ft)
        k = 2 if n != 2 else 3
        cols, lines = env.pick('shape', [(n * k, 1), (1, n * k), (k, n), (n, k), (2, n), (n, 2), (1, n), (n, 1)])
        rows = cols * lines // n
        nodes, name = make(env, ft)
        vals = [env.real('v%d' % i, lo, hi) if i in (0, 1, n - 1, n, n * rows - 1) else (i % 11) / 11.0 for i in range(n * rows)]
        form = env.pick('form', ['array', 'other', 'nested', 'tuples'])
        nested = [list(r) for r in split(vals, cols)]
        if form == 'nested':
            value, mutate = nested, lambda: nested[0].__setitem__(0, 777.0)
        elif form == 'tuples':
            value, mutate = tuple(tuple(r) for r in nested), None
        else:
            value = arrays.array(nested, code if form == 'array' else {'f': 'd', 'd': 'f'}[code])

            def mutate():
                value[...] = 777

        def check(v, label):
            canonical(env, v, code, (rows,) + row, label)
            equal(env, v, vals, label)
        owning(env, nodes, name, value, mutate, check)
    return fn


def flat(ft):
    code = FLAT[ft]

    def fn(env):
        n = env.pick('n', [0, 1, 2, 3])
        forms = ['list', 'tuple', 'map', 'same', 'other', 'strided']
        if n == 2:
            forms += ['square', 'nested1']
        form = env.pick('form', forms)
        nodes, name = make(env, ft)
        vals = [env.real('v%d' % i) for i in range(n)]
        if form == 'square':
            from vrml import arrays
            value = arrays.array([vals, vals], code)
            vals = vals + vals

            def mutate():
                value[...] = 777
        elif form == 'nested1':
            value = [list(vals), vals[0]]
            vals = vals + [vals[0]]
            mutate = lambda: value[0].__setitem__(0, 777.0)
        else:
            value, mutate = shape_as(env, form, vals, (n,), code)
        if not n:
            mutate = None

        def check(v, label):
            canonical(env, v, code, (len(vals),), label)
            equal(env, v, vals, label)
        owning(env, nodes, name, value, mutate, check)
    return fn


def flat_more(env):
    """Single numbers, strings, None for lists of numbers."""
    ft = env.pick('type', sorted(FLAT) + sorted(INTS))
    form = env.pick('form', ['number', 'text', 'none', 'empty'])
    code = FLAT.get(ft) or INTS[ft][0]
    nodes, name = make(env, ft)
    if form == 'number':
        vals = [env.int('x', 0, 1000)] if ft in INTS else [env.real('x')]
        value = vals[0]
    elif form == 'text':
        d = env.text('d', 2, alphabet='0123456789')
        vals = [int(d), 3]
        value = d + env.pick('sep', [' ', ',', ', ', '\n']) + '3'
    else:
        vals = []
        value = None if form == 'none' else ''

    def check(v, label):
        canonical(env, v, code, (len(vals),), label)
        equal(env, v, vals, label)
    owning(env, nodes, name, value, None, check)


def ints(ft):
    code, lo, hi = INTS[ft]

    def fn(env):
        n = env.pick('n', [0, 1, 2])
        forms = ['list', 'tuple', 'map', 'same', 'other', 'strided']
        if n == 2:
            forms += ['square']
        form = env.pick('form', forms)
        nodes, name = make(env, ft)
        vals = [env.int('v%d' % i, lo, hi) for i in range(n)]
        if form == 'square':
            from vrml import arrays
            value = arrays.array([vals, vals], code)
            vals = vals + vals

            def mutate():
                value[...] = 7
        else:
            value, mutate = shape_as(env, form, vals, (n,), code)
        if not n or form == 'list':
            mutate = (lambda: value.append(5)) if form == 'list' else None

        def check(v, label):
            canonical(env, v, code, (len(vals),), label)
            env.check(len(v.ravel()) == len(vals), label + ': number of values')
            for a, b in zip(list(v), vals):
                env.check(a == b, label + ': the given number')
        owning(env, nodes, name, value, mutate, check)
    return fn


def arrays_(ft):
    """SFArray: any shape, one element type."""
    code = {'SFArray': 'd', 'SFArray32': 'f'}[ft]

    def fn(env):
        shape = env.pick('shape', [(2,), (1, 2), (2, 1), (2, 2), (1, 2, 2)])
        size = 1
        for k in shape:
            size *= k
        forms = ['same', 'other', 'nested']
        if len(shape) == 1:
            forms += ['list', 'tuple', 'map', 'strided']
        else:
            forms += ['turned']
        if len(shape) == 1:
            forms.remove('nested')
        form = env.pick('form', forms)
        nodes, name = make(env, ft)
        vals = [env.real('v%d' % i) for i in range(size)]
        value, mutate = shape_as(env, form, vals, shape, code)

        def check(v, label):
            canonical(env, v, code, shape, label)
            equal(env, v, vals, label)
        owning(env, nodes, name, value, mutate, check)
    return fn


def single(env):
    """Numbers, booleans and strings."""
    ft = env.pick('type', ['SFFloat', 'SFTime', 'SFInt32', 'SFUInt32', 'SFBool', 'SFString'])
    nodes, name = make(env, ft)
    if ft in ('SFFloat', 'SFTime'):
        form = env.pick('form', ['float', 'int', 'text', 'bool'])
        if form == 'float':
            value = want = env.real('x')
        elif form == 'int':
            value = want = env.int('x', -99, 99)
        elif form == 'bool':
            value = want = env.flag('x')
        else:
            d = env.text('d', 2, alphabet='0123456789')
            value, want = env.pick('sign', ['', '-']) + d, int(d)
            want = -want if value[0] == '-' else want
        kind = float
    elif ft in ('SFInt32', 'SFUInt32'):
        form = env.pick('form', ['int', 'text', 'bool'])
        if form == 'int':
            value = want = env.int('x', 0, 2**31 - 1)
        elif form == 'bool':
            value = want = env.flag('x')
        else:
            value = env.text('d', 3, alphabet='0123456789')
            want = int(value)
        kind = int
    elif ft == 'SFBool':
        form = env.pick('form', ['bool', 'int', 'word', 'digit', 'cased'])
        if form == 'bool':
            value = env.flag('x')
            want = 1 if value else 0
        elif form == 'int':
            value = env.int('x', -5, 5)
            want = 1 if bool(value != 0) else 0
        elif form == 'word':
            value = env.pick('word', ['TRUE', 'FALSE', 'true', 'False'])
            want = 1 if value.lower() == 'true' else 0
        elif form == 'cased':
            w = env.pick('word', ['true', 'false'])
            value = ''
            for i, ch in enumerate(w):
                value = value + env.text('c%d' % i, 1, alphabet=ch + ch.upper())
            want = 1 if w == 'true' else 0
        else:
            value = env.text('d', 1, alphabet='0123456789')
            want = 1 if bool(value != '0') else 0
        kind = int
    else:
        form = env.pick('form', ['text', 'list1', 'list2', 'bytes', 'empty', 'number'])
        kind = str
        t = env.text('t', 2)
        if form == 'text':
            value = want = t
        elif form == 'list1':
            value, want = [t], t
        elif form == 'list2':
            value, want = [t, 'x' + t], t + 'x' + t
        elif form == 'bytes':
            value, want = t.encode('utf-8'), t
        elif form == 'empty':
            value, want = env.pick('e', [[], (), '']), ''
        else:
            value, want = 5, '5'

    def check(v, label):
        env.check(isinstance(v, kind) and not isinstance(v, bool), label + ': has the type of the field')
        env.check(v == want, label + ': the given value')
    owning(env, nodes, name, value, None, check)


def strings(env):
    nodes, name = make(env, 'MFString')
    n = env.pick('n', [0, 1, 2])
    vals = [env.text('t%d' % i, 1) for i in range(n)]
    form = env.pick('form', ['list', 'tuple', 'map', 'text', 'mixed'])
    if form == 'list':
        value = list(vals)
        mutate = lambda: value.append('x')
    elif form == 'text':
        value, vals = 'ab', ['ab']
        mutate = None
    elif form == 'mixed':
        last = env.text('last', 1)
        value = [[v] for v in vals] + [last.encode('utf-8')]
        vals = vals + [last]
        mutate = lambda: value.append('x')
    else:
        value = tuple(vals) if form == 'tuple' else map(lambda x: x, vals)
        mutate = None

    def check(v, label):
        env.check(isinstance(v, list), label + ': is a list')
        env.check(len(v) == len(vals), label + ': number of strings')
        for a, b in zip(v, vals):
            env.check(isinstance(a, str), label + ': strings')
            env.check(a == b, label + ': the given strings')
    owning(env, nodes, name, value, mutate, check)


def defaults(env):
    """Default values are each node's own."""
    from vrml import node, field, arrays
    ft = env.pick('type', sorted(VEC) + sorted(MVEC) + sorted(FLAT) + sorted(INTS) + ['SFArray', 'SFArray32', 'MFString'])
    given = env.pick('given', ['none', 'list', 'array'])
    if ft in VEC:
        code, shape = VEC[ft]
    elif ft in MVEC:
        code, shape = MVEC[ft][0], (1,) + MVEC[ft][1]
    elif ft in FLAT:
        code, shape = FLAT[ft], (2,)
    elif ft in INTS:
        code, shape = INTS[ft][0], (2,)
    else:
        code, shape = {'SFArray': 'd', 'SFArray32': 'f', 'MFString': 'd'}[ft], (2,)
    size = 1
    for k in shape:
        size *= k
    x = env.int('x', 0, 1)
    vals = [x] * size
    if ft == 'MFString':
        d = ['a', 'b']
    elif given == 'array':
        d = arrays.reshape(arrays.array(vals, code), shape)
    else:
        d = vals
    if given == 'none':
        f = field.newField('f', ft, 1)
    else:
        f = field.newField('f', ft, 1, d)
    P = node.prototype('P', [f])
    a, b = P(), P()
    v = a.f
    if given != 'none':
        if ft == 'MFString':
            env.check(list(v) == ['a', 'b'], 'the default')
        else:
            canonical(env, v, code, shape, 'default')
            equal(env, v, vals, 'default')
    before = list(v.ravel()) if hasattr(v, 'ravel') else list(v)
    if ft == 'MFString':
        v.append('c')
    elif v.size:
        v[...] = 9
    else:
        a.f = [1] * size
    for n, label in ((b, 'another node'), (P(), 'a new node')):
        w = list(n.f.ravel()) if hasattr(n.f, 'ravel') else list(n.f)
        env.check(len(w) == len(before), label + ': as many values')
        for p, q in zip(w, before):
            env.check(p == q, label + ': the default')
    env.cover('done')


BAD = {'vec': [[], 'a', 'one two', [1.0], [1.0] * 5, [1.0, 'x', 2.0], [None] * 3, {}, object, [[1.0], [2.0]] * 3, '1 2 3 4 5 6'],
       'mvec': ['a', [1.0] * 5, [1.0, 'x', 2.0], object, [[1.0], [1.0, 2.0]], 5, '1 2 3 4 5 6 7', {'a': 1}],
       'flat': ['a', [1.0, 'x'], object, {'a': 1}, [object]],
       'ints': ['a', [1, 'x'], object, {'a': 1}, [object], [[1, 2]]],
       'float': ['', 'x', '1 2', [1.0], [], None, object],
       'int': ['', 'x', '1.5', [1], None, object],
       'node': ['x', 5, object, 1.5, ['x'], {}]}


def refused(kind):
    types = {'vec': sorted(VEC), 'mvec': sorted(MVEC), 'flat': sorted(FLAT), 'ints': sorted(INTS), 'float': ['SFFloat', 'SFTime'], 'int': ['SFInt32', 'SFUInt32'], 'node': ['SFNode']}[kind]

    def fn(env):
        from vrml import node, field, arrays
        ft = env.pick('type', types)
        bad = env.pick('bad', BAD[kind])
        good = {'vec': 1, 'mvec': None, 'flat': [1, 2], 'ints': [1, 2], 'float': 1.5, 'int': 3, 'node': None}[kind]
        size = 1
        for k in dict(VEC, **MVEC).get(ft, ('', (1,)))[1]:
            size *= k
        if kind == 'vec':
            n = env.int('old', 0, 1)
            good = [n] * size
        elif kind == 'mvec':
            n = env.int('old', 0, 1)
            good = [n] * size
        if isinstance(bad, list) and kind in ('vec', 'mvec') and size in (len(bad), 5) or bad == '1 2 3 4 5 6' and size == 6:
            if not any(x == 'x' or x is None for x in bad):
                env.stop()
        nodes = [node.prototype('P', [field.newField('f', ft, 1)])() for i in range(1)]
        a = nodes[0]
        setup = env.pick('setup', ['set', 'default'])
        if setup == 'set' and kind != 'node':
            a.f = good
        old = a.f
        from vrml import protofunctions
        how = env.pick('how', ['set', 'fset', 'constructor'])
        try:
            if how == 'set':
                a.f = bad
            elif how == 'fset':
                protofunctions.getField(a, 'f').fset(a, bad, notify=0)
            else:
                type(a)(f=bad)
        except (ValueError, TypeError, OverflowError, AttributeError):
            pass
        else:
            env.check(False, 'a value that does not fit is refused')
        new = a.f
        env.check(type(new) is type(old), 'the old value stays')
        if hasattr(old, 'ravel'):
            env.check(new.shape == old.shape, 'the old value stays')
            for p, q in zip(list(new.ravel()), list(old.ravel())):
                env.check(p == q, 'the old value stays')
        else:
            env.check(new is old or new == old, 'the old value stays')
        env.cover('done')
    return fn


def lists_in_lists(env):
    """Lists in lists to any depth, also empty ones, are the flat list of their numbers."""
    ft = env.pick('type', ['SFVec3f', 'SFVec3d', 'SFColor', 'MFFloat', 'MFTime', 'SFRotation'])
    nodes, name = make(env, ft)
    lo, hi = lo_hi(ft) if ft in VEC else (-1000, 1000)
    vals = [env.real('v%d' % i, lo, hi) for i in range(4 if ft == 'SFRotation' else 3)]

    def nest(items, at, depth):
        # some of the first items into lists of their own
        form = env.pick('form' + at, ['flat', 'wrapped', 'head', 'tail', 'empty first', 'empty between', 'each'] if depth else ['flat', 'wrapped'])
        k = len(items) // 2
        if form == 'flat':
            return list(items)
        if form == 'wrapped':
            return [nest(items, at + '0', depth - 1)] if depth else [list(items)]
        if form == 'head':
            return [nest(items[:k], at + '0', depth - 1)] + list(items[k:])
        if form == 'tail':
            return list(items[:k]) + [nest(items[k:], at + '1', depth - 1)]
        if form == 'empty first':
            return [[]] + nest(items, at + '0', depth - 1)
        if form == 'empty between':
            return nest(items[:k], at + '0', depth - 1) + [[[]], []] + list(items[k:])
        return [[[x]] if i else [x] for i, x in enumerate(items)]
    value = nest(vals, '', 2)
    keep = common.frozen(value)

    def check(v, label):
        env.check(v.shape == (len(vals),), label + ': the shape')
        for i, x in enumerate(vals):
            env.check(v[i] == x, label + ': the numbers in order')
    if env.flag('outer tuple'):
        value = tuple(value)
    setattr(nodes[0], name, value)
    check(getattr(nodes[0], name), 'stored value')
    common.equal(env, common.frozen(list(value)), keep, 'the given list is left as it was')
    setattr(nodes[1], name, getattr(nodes[0], name))
    check(getattr(nodes[1], name), 'stored again')
    env.cover('done')


def nodes_(env):
    """What a field for a node, or for nodes, holds after it was given nodes, none or something else."""
    from vrml import node, field, olist
    from vrml.vrml97 import basenodes
    ft = env.pick('type', ['SFNode', 'MFNode'])
    n, name = make(env, ft, 1)
    n = n[0]
    a, b, old = basenodes.Group(), basenodes.Shape(), basenodes.Group()
    was = env.pick('was', ['default', 'set'])
    if was == 'set':
        setattr(n, name, old if ft == 'SFNode' else [old])
    num = env.int('n', -3, 3)
    given, want = env.pick('given', [(a, a), (None, None), (node.NULL, None), ([a], a), ((a,), a), ([[a]], a), ([None], None), ([node.NULL], None),
                                     ([a, b], 'two'), ((b, a), 'rtwo'), ([a, None], 'half'), ([], 'none'), ((), 'none'), ('', 'empty'), (0, 'num'), ([0], 'bad'), ([a, 0], 'bad'), ('x', 'bad'),
                                     (0.0, 'empty'), (False, 'empty'), ({}, 'empty'), ([a, [b]], 'inner')])
    if want == 'num':
        given = num
    keep = list(given) if isinstance(given, list) else None
    before = getattr(n, name)
    before = list(before) if ft == 'MFNode' else before
    how = env.pick('how', ['set', 'fset', 'constructor'])
    try:
        if how == 'set':
            setattr(n, name, given)
        elif how == 'fset':
            from vrml import protofunctions
            protofunctions.getField(n, name).fset(n, given)
        else:
            n = type(n)(**{name: given})
    except (ValueError, TypeError):
        refused = True
    else:
        refused = False
    now = getattr(n, name)
    if ft == 'SFNode':
        fits = want is None or isinstance(want, node.Node)
        env.check(refused == (not fits), 'a node field takes a node or none, and nothing else')
        if fits:
            env.check(now is (node.NULL if want is None else want), 'it holds that node, or NULL')
        elif how != 'constructor':
            env.check(now is before, 'the old value stays')
    else:
        env.check(isinstance(now, olist.OList) and now is not given, 'a list of its own')
        NULL = node.NULL
        wanted = {'two': [a, b], 'rtwo': [b, a], 'half': [a, NULL], 'none': [], 'inner': [a, b], None: [] if given is None else [NULL]}
        if isinstance(want, node.Node):
            wanted, want = {'it': [want]}, 'it'
        if given is NULL:
            # NULL is itself a node to the list
            wanted = {None: [NULL]}
        if want in ('bad',) or want == 'num' and bool(num != 0):
            env.check(refused, 'what is no node is refused')
            if how != 'constructor':
                env.check(len(now) == len(before) and all(p is q for p, q in zip(now, before)), 'the old value stays')
        elif want in wanted:
            env.check(not refused, 'a list of nodes is taken')
            w = wanted[want]
            env.check(len(now) == len(w) and all(p is q for p, q in zip(now, w)), 'it holds those nodes')
            if isinstance(given, list):
                given.append(b)
                env.check(len(now) == len(w), 'and not the given list')
                given.pop()
    if keep is not None:
        env.check(len(given) == len(keep) and all(p is q for p, q in zip(given, keep)), 'the given list is left as it was')
    env.cover('done')


def counts(env):
    """Any number of components but the right one is refused."""
    from vrml import node, field, arrays
    ft = env.pick('type', sorted(VEC) + sorted(MVEC))
    code, shape = VEC.get(ft) or MVEC[ft]
    size = 1
    for k in shape:
        size *= k
    n = env.choice('count', 2 * size + 2)
    env.assume(n != size if ft in VEC else n % size != 0)
    form = env.pick('form', ['list', 'tuple', 'array', 'text'])
    x = env.real('x', 0, 1)
    vals = [x] * n
    a = node.prototype('P', [field.newField('f', ft, 1)])()
    a.f = [.5] * size
    value = {'list': vals, 'tuple': tuple(vals), 'array': None, 'text': ' '.join(['0.25'] * n)}[form]
    if form == 'array':
        value = arrays.array(vals, code)
    try:
        a.f = value
    except (ValueError, TypeError):
        pass
    else:
        env.check(False, 'a wrong number of components is refused')
    env.check(a.f.shape == (shape if ft in VEC else (1,) + shape), 'the old value stays')
    for v in list(a.f.ravel()):
        env.check(v == .5, 'the old value stays')
    env.cover('done')


def mixed(env):
    """Colour lists of numbers and colour names: whole colours only."""
    from vrml import node, field
    from vrml.vrml97 import basenodes
    n = env.choice('items', 8)
    at = (env.choice('name', 8), env.choice('name2', 8))
    x = env.real('x', 0, 1)
    value, rows, cur, fits = [], [], [], True
    for i in range(n):
        if i in at:
            value.append('lime' if i != 3 else '#00ff00')
            fits = fits and not cur
            rows.append([0.0, 1.0, 0.0])
        else:
            value.append(x if i % 2 else .5)
            cur.append(value[-1])
            if len(cur) == 3:
                rows.append(cur)
                cur = []
    fits = fits and not cur
    a = basenodes.Color() if env.flag('library') else node.prototype('P', [field.newField('color', 'MFColor', 1)])()
    a.color = [0.0, 0.0, 1.0]
    if fits:
        a.color = tuple(value) if env.flag('tuple') else value
        env.cover('accepted')
    else:
        try:
            a.color = value
        except (ValueError, TypeError):
            pass
        else:
            env.check(False, 'a list that is not made of whole colours is refused')
        rows = [[0.0, 0.0, 1.0]]
        env.cover('refused')
    env.check(a.color.shape == (len(rows), 3), 'the colours')
    for g, w in zip(a.color, rows):
        for p, q in zip(list(g), w):
            env.check(env.near(p, q), 'the components')


def silent(env):
    """fset stores the same as assignment, and returns it."""
    from vrml import protofunctions
    ft = env.pick('type', sorted(VEC) + sorted(FLAT) + ['SFFloat', 'SFInt32', 'SFBool', 'SFString', 'MFString'])
    nodes, name = make(env, ft)
    a, b = nodes
    n = size(VEC[ft][1]) if ft in VEC else 2
    x = env.int('x', 0, 1)
    value = x if ft in ('SFFloat', 'SFInt32', 'SFBool') else 'a' if ft == 'SFString' else ['a', 'b'] if ft == 'MFString' else [x] * n
    setattr(a, name, value)
    r = protofunctions.getField(b, name).fset(b, value, notify=env.choice('notify', 2))
    for v in (getattr(b, name), r):
        common.same_value(env, getattr(a, name), v, 'the same value')
        env.check(type(v) is type(getattr(a, name)), 'of the same type')
    env.cover('done')


def harnesses(tier):
    deep = tier != 'quick'
    hs = []

    def add(name, fn, bounds, accel=True, **k):
        hs.append(dict(name=name, fn=fn, covers=['done'], bounds=bounds, variants=['pure', 'accel'] if accel else ['pure'], validate=6 if not deep else 30, **k))
    for ft in VEC:
        add(ft, vec(ft), 'nine forms, arbitrary components')
        add(ft + '_scalar', scalar_vec(ft), 'one arbitrary number')
        if ft != 'SFColor':
            add(ft + '_text', text_vec(ft), 'one arbitrary decimal d.d', accel=False)
    for ft in MVEC:
        for rows in ((0, 1, 2) if not deep else (0, 1, 2, 3, 5)):
            add('%s_%d' % (ft, rows), mvec(ft, rows), '%d rows, up to ten forms, arbitrary first, second and last components' % rows, accel=False)
        add(ft + '_text', text_vec(ft, True), 'one arbitrary decimal d.d', accel=False)
        add(ft + '_reshaped', reshaped(ft), 'up to three rows, eight shapes, four forms, up to five arbitrary components', accel=False)
    for ft in FLAT:
        add(ft, flat(ft), 'up to three arbitrary numbers, eight forms')
    for ft in INTS:
        add(ft, ints(ft), 'up to two arbitrary integers of the type, seven forms')
    add('flat_more', flat_more, 'numbers, two-digit texts, nothing')
    for ft in ('SFArray', 'SFArray32'):
        add(ft, arrays_(ft), 'five shapes, arbitrary numbers')
    add('single', single, 'arbitrary numbers, words, two characters')
    add('strings', strings, 'up to two strings of one arbitrary character')
    add('defaults', defaults, 'all array types, 0/1 default')
    for k in BAD:
        add('refused_' + k, refused(k), 'listed values that do not fit')
    add('lists_in_lists', lists_in_lists, 'three or four arbitrary numbers in lists of lists up to four deep, with empty lists', accel=False)
    add('nodes', nodes_, 'a field for a node or for nodes given 22 values in three ways, with an arbitrary number', accel=False)
    add('counts', counts, 'every count up to twice the right one')
    hs.append(dict(name='mixed', fn=mixed, covers=['accepted', 'refused'], bounds='up to seven items, up to two of them colour names, one arbitrary number', variants=['pure', 'accel'], validate=10))
    add('silent', silent, '0/1 values')
    return hs
