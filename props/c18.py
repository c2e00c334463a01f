"""C18: the compiled accelerator computes what the Python code computes."""
from . import common

PRELOAD = common.VRML
setup = common.warm
OUTSIDE = 'rounding (arithmetic is exact in the encoding, so single and double precision agree); empty projection volumes; the translation of the .pyx modules to Python stands for the C code the compiler makes of them (checked by replaying path models on the compiled modules)'
ASSUMPTIONS = ['cosine and sine are any pair with c*c + s*s == 1, consistent for equal and negated angles, and (1, 0) at zero']
TURN = 6.283185307179586


def both(env):
    from vrml.vrml97 import _transformmatrix, _transformmatrix_accel
    return _transformmatrix, _transformmatrix_accel


def form(env, values):
    from vrml import arrays
    how = env.pick('form', ['tuple', 'array', 'double'])
    return tuple(values) if how == 'tuple' else arrays.array(list(values), 'f' if how == 'array' else 'd')


def agree(env, a, b, label, elements=True):
    """Two results (matrix or None) with the same values."""
    env.check((a is None) == (b is None), label + ': omitted alike')
    if a is None:
        env.cover('omitted')
        return
    env.check(a.shape == (4, 4), label + ': a 4x4 matrix')
    env.check(b.shape == (4, 4), label + ': a 4x4 matrix')
    for i in range(4):
        for j in range(4):
            env.close(a[i][j], b[i][j], '%s: element %d,%d' % (label, i, j))
    env.cover('given')


def rotations(env):
    pure, accel = both(env)
    a = env.angle('a')
    how = env.pick('axis', ['any', 'x', '-y', 'z'])
    if how == 'any':
        v = [env.real('v' + k, -8, 8) for k in 'xyz']
    else:
        v = {'x': [1., 0., 0.], '-y': [0., -2., 0.], 'z': [0., 0., 1.]}[how]
    value = form(env, v + [a])
    for p, q, k in zip(pure.rotMatrix(value), accel.rotMatrix(value), ('forward', 'inverse')):
        agree(env, p, q, k)


def turns(env):
    pure, accel = both(env)
    k = env.choice('turns', 9) - 4
    v = [env.real('v' + c, -8, 8) for c in 'xyz']
    value = form(env, v + [k * TURN])
    for p, q, n in zip(pure.rotMatrix(value), accel.rotMatrix(value), ('forward', 'inverse')):
        agree(env, p, q, n)


def scales(env):
    pure, accel = both(env)
    v = form(env, [env.real('s' + k, -16, 16) for k in 'xyz'])
    for c in v:
        env.assume(env.either(c == 0, c > .01, c < -.01))
    for p, q, k in zip(pure.scaleMatrix(v), accel.scaleMatrix(v), ('forward', 'inverse')):
        if k == 'inverse' and bool(env.either(*[c == 0 for c in v])):
            env.check((p is None) == (q is None), 'omitted alike')
            # as large as it gets in place of the inverse of zero
            for i in range(4):
                for j in range(4):
                    a, b = p[i][j], q[i][j]
                    if bool(a > 1e30) or bool(b > 1e30):
                        env.check(a > 1e30, 'inverse of zero: element %d,%d' % (i, j))
                        env.check(b > 1e30, 'inverse of zero: element %d,%d' % (i, j))
                    else:
                        env.close(a, b, 'inverse: element %d,%d' % (i, j))
            env.cover('no inverse')
        else:
            agree(env, p, q, k)


def moves(env):
    pure, accel = both(env)
    v = [env.real('t' + k, -512, 512) for k in 'xyz']
    if env.flag('four'):
        v.append(1.0)
    v = form(env, v)
    for p, q, k in zip(pure.transMatrix(v), accel.transMatrix(v), ('forward', 'inverse')):
        agree(env, p, q, k)


def nothing(env):
    pure, accel = both(env)
    for n in ('rotMatrix', 'scaleMatrix', 'transMatrix'):
        for m in (pure, accel):
            env.check(tuple(getattr(m, n)()) == (None, None), n + ' of nothing')
            env.check(tuple(getattr(m, n)(None)) == (None, None), n + ' of None')
    env.cover('done')


def perspectives(env):
    pure, accel = both(env)
    h = env.angle('half')
    c, s = env.cos(h), env.sin(h)
    env.assume(env.both(s > 0.001, c > 0.001))
    aspect, near, far = env.real('aspect', .01, 64), env.real('near', .001, 1000), env.real('far', .002, 100000)
    env.assume(near < far)
    args = (h * 2, aspect, near, far)
    how = env.pick('how', ['plain', 'named', 'inverse', 'fifth'])
    if how == 'named':
        kw = dict(zip(('fovy', 'aspect', 'zNear', 'zFar'), args))
        p, q = pure.perspectiveMatrix(**kw), accel.perspectiveMatrix(**kw)
    elif how == 'inverse':
        p, q = pure.perspectiveMatrix(*args, inverse=True), accel.perspectiveMatrix(*args, inverse=True)
    else:
        args += (env.flag('inverse'),) if how == 'fifth' else ()
        p, q = pure.perspectiveMatrix(*args), accel.perspectiveMatrix(*args)
    agree(env, p, q, 'perspective')


def orthos(env):
    pure, accel = both(env)
    v = []
    for a, b in (('left', 'right'), ('bottom', 'top'), ('near', 'far')):
        lo, hi = env.real(a, -1000, 1000), env.real(b, -1000, 1000)
        env.assume(env.either(hi - lo > 0.01, lo - hi > 0.01))
        v += [lo, hi]
    n = env.choice('given', 4) * 2
    names = ('left', 'right', 'bottom', 'top', 'zNear', 'zFar')
    if env.flag('named'):
        kw = dict(zip(names[6 - n:], v[6 - n:]))
        agree(env, pure.orthoMatrix(**kw), accel.orthoMatrix(**kw), 'ortho')
    else:
        agree(env, pure.orthoMatrix(*v[:n]), accel.orthoMatrix(*v[:n]), 'ortho')


def product(*ms):
    from vrml import arrays
    got = None
    for m in ms:
        if m is not None:
            got = m if got is None else arrays.dot(got, m)
    return got


def whole(env):
    """The combined matrices of the module, which uses the accelerator, and those of the Python parts."""
    from vrml.vrml97 import transformmatrix
    pure, accel = both(env)
    kw = {}
    if env.flag('translation'):
        kw['translation'] = [env.real('t' + k, -16, 16) for k in 'xyz']
    if env.flag('scale'):
        kw['scale'] = [env.real('s' + k, .1, 16) for k in 'xyz']
    if env.flag('rotation'):
        kw['rotation'] = {'x': [1., 0., 0.], 'z': [0., 0., -2.]}[env.pick('axis', ['x', 'z'])] + [env.angle('a')]
    if env.flag('center'):
        kw['center'] = [env.real('c' + k, -16, 16) for k in 'xyz']
    got = transformmatrix.localMatrices(**kw)
    T, C = pure.transMatrix(kw.get('translation')), pure.transMatrix(kw.get('center'))
    R, S = pure.rotMatrix(kw.get('rotation')), pure.scaleMatrix(kw.get('scale'))
    want = product(C[1], S[0], R[0], C[0], T[0]), product(T[1], C[1], R[1], S[1], C[0])
    for p, q, k in zip(want, got, ('forward', 'inverse')):
        agree(env, p, q, k)


def cull(planes, points, width, grid=False):
    def fn(env):
        from vrml_accelerate import frustcullaccel
        from vrml import arrays
        if grid:
            num = lambda n: env.int(n, -2, 2) * 1.0
            dist = env.int('distance', 0, 3) * 1.0
        else:
            num = lambda n: env.real(n, -8, 8)
            dist = env.real('distance', 0, 8)
        P = [[num('p%d%d' % (i, j)) for j in range(4)] for i in range(planes)]
        Q = [[num('q%d%d' % (i, j)) for j in range(3)] + ([1.0] if width == 4 else []) for i in range(points)]
        how = env.pick('how', ['default', 'given', 'named'])
        d = 0.0 if how == 'default' else dist
        args = (arrays.array(P, 'f'), arrays.array(Q, 'f'))
        if not planes:
            args = (arrays.zeros((0, 4), 'f'), args[1])
        if not points:
            args = (args[0], arrays.zeros((0, width), 'f'))
        if not grid:        # stay away from the boundary, where rounding decides
            for p in P:
                for q in Q:
                    t = p[0] * q[0] + p[1] * q[1] + p[2] * q[2] + p[3] + d
                    env.assume(env.either(t > 0.01, t < -0.01))
        if how == 'default':
            culled, plane = frustcullaccel.planeCull(*args)
        elif how == 'given':
            culled, plane = frustcullaccel.planeCull(*(args + (d,)))
        else:
            culled, plane = frustcullaccel.planeCull(args[0], args[1], minDistance=d)
        for p in P:
            if all([bool(p[0] * q[0] + p[1] * q[1] + p[2] * q[2] + p[3] < -d) for q in Q]):
                env.check(culled is True or culled == 1, 'culled by a plane all points lie behind')
                env.check(plane is not None, 'the plane is reported')
                for a, b in zip(plane, p):
                    env.close(a, b, 'the first such plane')
                env.cover('culled')
                return
        env.check(not culled, 'culled though no plane has all points behind it')
        env.check(plane is None, 'no plane reported')
        env.cover('kept')
    return fn


def shapes(env):
    """Arrays of another shape are refused."""
    from vrml_accelerate import frustcullaccel
    from vrml import arrays
    a, b = env.choice('plane width', 6), env.choice('point width', 6)
    args = (arrays.zeros((2, a), 'f'), arrays.zeros((2, b), 'f'))
    if a == 4 and b in (3, 4):
        env.check(not frustcullaccel.planeCull(*args)[0], 'points on the plane are not behind it')
        env.cover('good')
    else:
        env.check_raises(TypeError, 'arrays of another shape', lambda: frustcullaccel.planeCull(*args))
        env.cover('refused')


def harnesses(tier):
    ac = ['accel']
    gm = ['given', 'omitted']
    hs = [
        dict(name='rotations', fn=rotations, covers=gm, bounds='any axis within -8..8, zero included, any angle in (-pi, pi)'),
        dict(name='turns', fn=turns, covers=['omitted'], bounds='-4..4 whole turns, any axis'),
        dict(name='scales', fn=scales, covers=gm + ['no inverse'], bounds='any scale within -16..16, zero or at least 0.01'),
        dict(name='moves', fn=moves, covers=gm, bounds='any translation within -512..512, of three or four numbers'),
        dict(name='nothing', fn=nothing, covers=['done'], bounds='no value given'),
        dict(name='perspectives', fn=perspectives, covers=['given'], bounds='any field of view in (0.002, pi - 0.002), aspect 0.01..64, near 0.001..1000 below far up to 100000; plain and inverse'),
        dict(name='orthos', fn=orthos, covers=['given'], bounds='any box within -1000..1000, sides at least 0.01, either direction; leading or trailing arguments left out'),
        dict(name='whole', fn=whole, covers=gm, bounds='any translation, scale 0.1..16, rotation about two main axes, center within -16..16, each present or not'),
        dict(name='shapes', fn=shapes, covers=['good', 'refused'], bounds='0..5 columns in each array'),
    ]
    sizes = [(0, 2, 3), (1, 0, 3), (1, 1, 3), (1, 2, 4), (2, 1, 4), (2, 2, 3)]
    if tier == 'thorough':
        sizes += [(3, 1, 3), (1, 4, 3), (3, 2, 4), (2, 3, 3), (3, 3, 3), (6, 2, 4)]
    for p, q, w in sizes:
        hs.append(dict(name='cull_%d_%d_%d' % (p, q, w), fn=cull(p, q, w), covers=(['kept'] if not (p and not q) else []) + (['culled'] if p else []),
                       bounds='any %d planes and %d points of %d numbers within -8..8, minimal distance 0..8, no point within 0.01 of the boundary' % (p, q, w)))
    for p, q in [(1, 1), (1, 2), (2, 1)]:
        hs.append(dict(name='cull_exact_%d_%d' % (p, q), fn=cull(p, q, 3, True), covers=['kept', 'culled'], bounds='any %d planes and %d points of whole numbers -2..2, minimal distance 0..3, points on the boundary included' % (p, q)))
    for h in hs:
        h['variants'] = ac
    return hs
