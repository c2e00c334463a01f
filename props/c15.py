"""C15: transform matrices compose as VRML97 defines, with exact inverses."""
from . import common

PRELOAD = common.VRML
setup = common.warm
OUTSIDE = 'rounding (arithmetic is exact in the encoding); not-a-number and infinite parts; a zero scale has no inverse; angles are any angle in (-pi, pi), a whole number of turns, or one of the listed ones'
ASSUMPTIONS = ['cosine and sine are any pair with c*c + s*s == 1, consistent for equal and negated angles, and (1, 0) at zero']
TURN = 6.283185307179586


def axis(env, name):
    """A rotation axis that is not zero."""
    v = [env.real('%s%s' % (name, k), -8, 8) for k in 'xyz']
    env.assume(env.either(*[c != 0 for c in v]))
    return v


def unit(v):
    """The axis with length one."""
    l2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
    if bool(l2 == 1):
        return list(v)
    l = l2 ** .5
    return [c / l for c in v]


def turn(env, p, u, c, s):
    """Rodrigues: p turned counter-clockwise about the unit axis u."""
    x = [u[1] * p[2] - u[2] * p[1], u[2] * p[0] - u[0] * p[2], u[0] * p[1] - u[1] * p[0]]
    d = u[0] * p[0] + u[1] * p[1] + u[2] * p[2]
    return [p[i] * c + x[i] * s + u[i] * d * (1 - c) for i in range(3)]


def apply(m, p):
    """A point mapped by a matrix of the library (None: identity)."""
    if m is None:
        return list(p) + [1.0]
    from vrml import arrays
    return list(arrays.dot(arrays.array(list(p) + [1.0], 'd'), m))


def same_point(env, got, want, label):
    for g, w, k in zip(got, list(want) + [1.0], 'xyzw'):
        env.close(g, w, '%s: %s' % (label, k))


def shaped(env, m):
    if m is not None:
        env.check(m.shape == (4, 4), 'a 4x4 matrix')


def form(env, values):
    """The value as the different types users pass."""
    from vrml import arrays
    how = env.pick('form', ['tuple', 'list', 'array', 'double'])
    return {'tuple': tuple(values), 'list': list(values)}.get(how) if how in ('tuple', 'list') else arrays.array(list(values), 'f' if how == 'array' else 'd')


def point(env, name='p'):
    return [env.real(name + k, -16, 16) for k in 'xyz']


def module(env):
    from vrml.vrml97 import transformmatrix
    return transformmatrix


def rotation(env):
    """rotMatrix is Rodrigues about the normalised axis, and backwards in the inverse."""
    tm = module(env)
    a = env.angle('a')
    how = env.pick('axis', ['any', 'x', 'y', 'z', '-z'])
    v = axis(env, 'v') if how == 'any' else dict(x=[1., 0., 0.], y=[0., 1., 0.], z=[0., 0., 1.])[how[-1]]
    if how[0] == '-':
        v = [0., 0., -2.]
    R, R1 = tm.rotMatrix(form(env, list(v) + [a]))
    env.check((R is None) == (R1 is None), 'both or none omitted')
    shaped(env, R)
    shaped(env, R1)
    p = point(env)
    if bool(a == 0):
        env.cover('zero angle')
        same_point(env, apply(R, p), p, 'no turn')
        same_point(env, apply(R1, p), p, 'no turn back')
        return
    c, s, u = env.cos(a), env.sin(a), unit(v)
    same_point(env, apply(R, p), turn(env, p, u, c, s), 'forward')
    same_point(env, apply(R1, p), turn(env, p, u, c, -s), 'backward')
    env.cover('turned')


def rotation_unit(env):
    """About a unit axis: lengths kept, axis fixed, counter-clockwise, the inverse undoes it."""
    tm = module(env)
    a = env.angle('a')
    v = [env.real('v' + k, -1, 1) for k in 'xyz']
    env.assume(v[0] * v[0] + v[1] * v[1] + v[2] * v[2] == 1)
    R, R1 = tm.rotMatrix(tuple(v) + (a,))
    if R is None:
        env.check(a == 0, 'omitted only for no turn')
        env.cover('omitted')
        return
    from vrml import arrays
    what = env.pick('what', ['length', 'axis', 'inverse'])
    I = arrays.identity(4)
    if what == 'axis':
        same_point(env, apply(R, v), v, 'the axis stays')
    else:
        P = arrays.dot(R, arrays.transpose(R) if what == 'length' else R1)
        i, j = env.choice('row', 3), env.choice('column', 3)
        env.close(P[i][j], 1.0 if i == j else 0.0, what)
    env.cover(what)


def whole_turns(env):
    """Whole numbers of turns leave every point where it is, for any axis."""
    tm = module(env)
    k = env.choice('turns', 7) - 3
    v = [env.real('v' + c, -8, 8) for c in 'xyz']
    p = point(env)
    for m in tm.rotMatrix((v[0], v[1], v[2], k * TURN)):
        same_point(env, apply(m, p), p, 'whole turns')
    same_point(env, apply(tm.transformMatrix(rotation=(v[0], v[1], v[2], k * TURN), scaleOrientation=(v[2], v[1], v[0], k * TURN)), p), p, 'whole turns in a transform')
    env.cover('done')


def listed_angles(env):
    """Quarters of a turn and angles of more than half a turn, about any axis."""
    import math
    tm = module(env)
    angles = [k * math.pi / 2 for k in range(-8, 9) if k % 4] + [4.0, -5.5, 7.0, -100.0, math.pi + 1e-3, 1e-5]
    a = angles[env.choice('angle', len(angles))]
    how = env.pick('axis', ['unit', 'any', 'z'])
    if how == 'z':
        v = [0.0, 0.0, env.real('vz', -8, 8)]
        env.assume(v[2] != 0)
        u = [0.0, 0.0, 1.0 if bool(v[2] > 0) else -1.0]
    elif how == 'unit':
        v = [env.real('v' + k, -1, 1) for k in 'xyz']
        env.assume(v[0] * v[0] + v[1] * v[1] + v[2] * v[2] == 1)
        u = v
    else:
        v = axis(env, 'v')
        u = unit(v)
    c, s = math.cos(a), math.sin(a)
    R, R1 = tm.rotMatrix(tuple(v) + (a,))
    env.check(R is not None and R1 is not None, 'not omitted')
    shaped(env, R)
    shaped(env, R1)
    n = env.choice('point', 3)
    p = [1.0 if i == n else 0.0 for i in range(3)]
    for m, sign, label in ((R, 1, 'forward'), (R1, -1, 'backward')):
        for g, w in zip(apply(m, p), turn(env, p, u, c, sign * s) + [1.0]):
            env.close(g, w, label, scale=2.0)
    env.cover(how)


def scaling(env):
    tm = module(env)
    v = [env.real('s' + k, -16, 16) for k in 'xyz']
    S, S1 = tm.scaleMatrix(form(env, v))
    env.check((S is None) == (S1 is None), 'both or none omitted')
    shaped(env, S)
    p = point(env)
    same_point(env, apply(S, p), [a * b for a, b in zip(p, v)], 'scaled')
    if bool(env.both(*[c != 0 for c in v])):
        q = [a * b for a, b in zip(p, v)]
        same_point(env, apply(S1, q), p, 'scaled back')
        env.cover('inverse')
    else:
        env.cover('zero')
    if S is None:
        env.check(env.both(*[c == 1 for c in v]), 'omitted only for one')
        env.cover('omitted')


def moving(env):
    tm = module(env)
    v = [env.real('t' + k, -512, 512) for k in 'xyz']
    T, T1 = tm.transMatrix(form(env, v))
    env.check((T is None) == (T1 is None), 'both or none omitted')
    shaped(env, T)
    p = point(env)
    same_point(env, apply(T, p), [a + b for a, b in zip(p, v)], 'moved')
    same_point(env, apply(T1, p), [a - b for a, b in zip(p, v)], 'moved back')
    if T is None:
        env.check(env.both(*[c == 0 for c in v]), 'omitted only for none')
        env.cover('omitted')
    env.cover('done')


def main_axis(env, name):
    return dict(x=[1., 0., 0.], y=[0., 1., 0.], z=[0., 0., 1.], m=[0., -2., 0.])[env.pick(name + ' axis', ['x', 'y', 'z', 'm'])]


def parts(env, names, axis=axis, generic=False):
    """A symbolic value for each part that is not left at its default."""
    kw, sp = {}, dict(T=[0., 0., 0.], C=[0., 0., 0.], S=[1., 1., 1.], R=None, O=None)
    if 'T' in names:
        sp['T'] = kw['translation'] = [env.real('t' + k, -32, 32) for k in 'xyz']
    if 'C' in names:
        sp['C'] = kw['center'] = [env.real('c' + k, -32, 32) for k in 'xyz']
    if 'S' in names:
        sp['S'] = kw['scale'] = [env.real('s' + k, -8, 8) for k in 'xyz']
    if generic:
        env.assume(env.both(sp['T'][0] != 0, sp['C'][0] != 0, sp['S'][0] != sp['S'][1]))
    for n, field in (('R', 'rotation'), ('O', 'scaleOrientation')):
        if n in names:
            v, a = axis(env, n), env.angle(n + 'a')
            kw[field] = v + [a]
            if generic:
                env.assume(a != 0)
            if not bool(a == 0):
                sp[n] = (unit(v), env.cos(a), env.sin(a))
    return kw, sp


def rotated(env, p, r, back=False):
    return list(p) if r is None else turn(env, p, r[0], r[1], -r[2] if back else r[2])


def prescribed(env, sp, p):
    """P' = T C R SR S -SR -C P"""
    q = [a - b for a, b in zip(p, sp['C'])]
    q = rotated(env, q, sp['O'], True)
    q = [a * b for a, b in zip(q, sp['S'])]
    q = rotated(env, q, sp['O'])
    q = rotated(env, q, sp['R'])
    return [a + b + c for a, b, c in zip(q, sp['C'], sp['T'])]


def prescribed_back(env, sp, p):
    q = [a - b - c for a, b, c in zip(p, sp['T'], sp['C'])]
    q = rotated(env, q, sp['R'], True)
    q = rotated(env, q, sp['O'], True)
    q = [a * (1.0 / b) for a, b in zip(q, sp['S'])]
    q = rotated(env, q, sp['O'])
    return [a + b for a, b in zip(q, sp['C'])]


def matrix(env, name='m'):
    """Any affine matrix, and what it does to a point."""
    from vrml import arrays
    rows = [[env.real('%s%d%d' % (name, i, j), -8, 8) for j in range(3)] + [1. if i == 3 else 0.] for i in range(4)]

    def fn(p):
        return [sum_([p[i] * rows[i][j] for i in range(3)]) + rows[3][j] for j in range(3)]
    return arrays.array(rows, 'f'), fn


def sum_(xs):
    t = xs[0]
    for x in xs[1:]:
        t = t + x
    return t


def composed(names, parent, which, axis=axis, generic=False):
    def fn(env):
        tm = module(env)
        kw, sp = parts(env, names, axis, generic)
        p = point(env)
        if which != 'forward':
            env.assume(env.both(*[s != 0 for s in sp['S']]))
        mat, through = None, None
        if parent:
            mat, through = matrix(env)
            kw['parentMatrix'] = mat
        if which == 'forward':
            want = prescribed(env, sp, p)
            if parent:
                want = through(want)
            same_point(env, apply(tm.transformMatrix(**kw), p), want, 'transformMatrix')
            if not parent:
                same_point(env, apply(tm.localMatrices(**kw)[0], p), want, 'localMatrices')
            same_point(env, apply(tm.transformMatrices(**kw)[0], p), want, 'transformMatrices')
        else:
            # the matrix of the inverse takes the (inverse) matrix of the child
            q = prescribed_back(env, sp, p)
            want = through(q) if parent else q
            same_point(env, apply(tm.itransformMatrix(**kw), p), want, 'itransformMatrix')
            if not parent:
                same_point(env, apply(tm.localMatrices(**kw)[1], p), want, 'localMatrices')
                same_point(env, apply(tm.transformMatrices(**kw)[1], p), want, 'transformMatrices')
        env.cover('done')
    return fn


def with_parent(env):
    """transformMatrices of a translation under a parent translation: forward and inverse belong together."""
    tm = module(env)
    t = [env.real('t' + k, -32, 32) for k in 'xyz']
    q = [env.real('q' + k, -32, 32) for k in 'xyz']
    p = point(env)
    far = env.either(*[env.either(c > 1, c < -1) for c in q])
    env.assume(env.either(far, env.both(*[c == 0 for c in q])))     # in between: not told from rounding when replayed
    env.known('transformMatrices-parent-inverse', far)
    P = tm.transMatrix(q)[0]
    f, i = tm.transformMatrices(translation=t, parentMatrix=P)
    same_point(env, apply(i, apply(f, p)[:3]), p, 'there and back')
    env.cover('done')


def centers(env):
    tm = module(env)
    kw = {}
    t, c = [0., 0., 0.], [0., 0., 0.]
    if env.flag('has translation'):
        t = [env.real('t' + k, -32, 32) for k in 'xyz']
        kw['translation'] = form(env, t)
    if env.flag('has center'):
        c = [env.real('c' + k, -32, 32) for k in 'xyz']
        kw['center'] = tuple(c)
    want = [a + b for a, b in zip(t, c)]
    if env.flag('has parent'):
        kw['parentMatrix'], through = matrix(env)
        want = through(want)
        env.cover('parent')
    same_point(env, tm.center(**kw), want, 'center')
    env.cover('done')


def compressed(n):
    def fn(env):
        """compressMatrices applies its matrices from the last to the first, missing ones left out."""
        tm = module(env)
        p = point(env)
        mats, fns = [], []
        for i in range(n):
            if env.flag('has%d' % i):
                m, f = matrix(env, 'm%d' % i)
                mats.append(m)
                fns.append(f)
            else:
                mats.append(None)
        got = tm.compressMatrices(*mats)
        if not fns:
            env.check(got is None, 'nothing gives None')
            env.cover('none')
            return
        want = p
        for f in reversed(fns):
            want = f(want)
        same_point(env, apply(got, p), want, 'product')
        env.cover('done')
    return fn


SUBSETS = ['', 'T', 'C', 'S', 'R', 'O', 'TC', 'CS', 'CR', 'SO', 'RS', 'TSR', 'CSO', 'TCSR', 'TCR']


def harnesses(tier):
    hs = [
        dict(name='rotation', fn=rotation, variants=['pure', 'accel'], covers=['turned', 'zero angle'], bounds='any axis with components within -8..8 but zero, any angle in (-pi, pi), any point within -16..16'),
        dict(name='rotation_unit', fn=rotation_unit, covers=['length', 'axis', 'inverse', 'omitted'], bounds='any unit axis, any angle in (-pi, pi)'),
        dict(name='listed_angles', fn=listed_angles, variants=['pure', 'accel'], covers=['unit', 'any', 'z'], bounds='every quarter of a turn up to two turns either way and six other angles, any axis within -8..8, the unit points (with the other harnesses and linearity: any point), to 2e-5'),
        dict(name='whole_turns', fn=whole_turns, variants=['pure', 'accel'], covers=['done'], bounds='-3..3 turns, any axis within -8..8, any point'),
        dict(name='scaling', fn=scaling, variants=['pure', 'accel'], covers=['inverse', 'zero', 'omitted'], bounds='any scale within -16..16, zero included; the inverse where none is zero'),
        dict(name='moving', fn=moving, variants=['pure', 'accel'], covers=['done', 'omitted'], bounds='any translation within -512..512'),
        dict(name='center', fn=centers, covers=['done', 'parent'], bounds='any translation, center, affine parent matrix'),
        dict(name='with_parent', fn=with_parent, covers=['done'], bounds='any translation under any parent translation'),
        dict(name='compress_3', fn=compressed(3), covers=['done', 'none'], bounds='up to 3 affine matrices, any of them missing'),
    ]
    for names in SUBSETS:
        for which in ('forward', 'inverse'):
            hs.append(dict(name='%s_%s' % (which, names or 'none'), fn=composed(names, False, which), covers=['done'],
                           bounds='any values of %s (translation, center, scale, rotation, scaleOrientation; others default), any point' % (names or 'nothing')))
    for names in ['', 'T', 'TCR', 'SO', 'TCS']:
        for which in ('forward', 'inverse'):
            hs.append(dict(name='parent_%s_%s' % (which, names or 'none'), fn=composed(names, True, which), covers=['done'],
                           bounds='any values of %s, any affine parent matrix, any point' % (names or 'nothing')))
    for names in ['TCSRO', 'SRO', 'CRO']:
        for which in ('forward', 'inverse'):
            g = names == 'TCSRO' and tier == 'quick'
            hs.append(dict(name='%s_%s' % (which, names), fn=composed(names, False, which, main_axis, g), covers=['done'],
                           bounds='any values of %s with both rotations about main axes (four directions each), any angles, any point%s' % (names, '; no part an identity' if g else '')))
    return hs
