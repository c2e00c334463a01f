"""C17: projection matrices map the view volume to the cube from -1 to 1."""
from . import common

PRELOAD = common.VRML
setup = common.warm
OUTSIDE = 'rounding (arithmetic is exact in the encoding); empty volumes (near equal to far, left equal to right, ...) and fields of view outside (0, pi); points between the corners follow, as projections map lines to lines'
ASSUMPTIONS = ['cosine and sine of half the field of view are any pair with c*c + s*s == 1, both positive']


def modules(env):
    from vrml.vrml97 import transformmatrix
    return transformmatrix


def volume(env):
    h = env.angle('half')
    c, s = env.cos(h), env.sin(h)
    env.assume(env.both(s > 0.001, c > 0.001))
    aspect, near, far = env.real('aspect', .01, 64), env.real('near', .001, 1000), env.real('far', .002, 100000)
    env.assume(near < far)
    return h, s / c, aspect, near, far


def given(env, tm, h, aspect, near, far, **kw):
    if env.flag('named'):
        return tm.perspectiveMatrix(fovy=h * 2, aspect=aspect, zNear=near, zFar=far, **kw)
    if kw:
        return tm.perspectiveMatrix(h * 2, aspect, near, far, kw['inverse'])
    return tm.perspectiveMatrix(h * 2, aspect, near, far)


def perspective(env):
    """Each corner of the frustum, projected and divided by w."""
    from vrml import arrays
    tm = modules(env)
    h, tan, aspect, near, far = volume(env)
    M = given(env, tm, h, aspect, near, far)
    env.check(M.shape == (4, 4), 'a 4x4 matrix')
    x, y = [-1, 1][env.choice('right', 2)], [-1, 1][env.choice('top', 2)]
    z = env.choice('back', 2)
    d = far if z else near
    p = arrays.dot(arrays.array([x * aspect * tan * d, y * tan * d, -d, 1.0], 'd'), M)
    w = p[3]
    env.check(w > 0, 'in front')
    for got, want, k in zip(p, [x, y, 1 if z else -1], 'xyz'):
        env.close(got / w, want, 'corner: ' + k)
    env.cover('far' if z else 'near')


def unproject(env):
    """The inverse variant takes every corner back, and is the inverse as a matrix."""
    from vrml import arrays
    tm = modules(env)
    h, tan, aspect, near, far = volume(env)
    M, I = given(env, tm, h, aspect, near, far), tm.perspectiveMatrix(h * 2, aspect, near, far, inverse=True)
    env.check(I.shape == (4, 4), 'a 4x4 matrix')
    first, second = (M, I) if env.flag('forward first') else (I, M)
    P = arrays.dot(first, second)
    i, j = env.choice('row', 4), env.choice('column', 4)
    env.close(P[i][j], 1.0 if i == j else 0.0, 'product with the inverse')
    env.cover('done')


def box(env):
    v = []
    for a, b in (('left', 'right'), ('bottom', 'top'), ('near', 'far')):
        lo, hi = env.real(a, -1000, 1000), env.real(b, -1000, 1000)
        env.assume(env.either(hi - lo > 0.01, lo - hi > 0.01))
        v += [lo, hi]
    return v


def ortho(columns):
    """glOrtho: left, bottom, -near to -1; right, top, -far to 1."""
    def fn(env):
        from vrml import arrays
        tm = modules(env)
        v = box(env)
        named = env.flag('named')
        x, y, z = env.choice('right side', 2), env.choice('top side', 2), env.choice('back side', 2)
        if not columns:
            off = [v[0] + v[1], v[2] + v[3], v[4] + v[5]]
            centred = env.both(*[c == 0 for c in off])
            env.assume(env.either(centred, *[env.either(c > 10, c < -10) for c in off]))
            env.known('ortho-row-vectors', env.negate(centred))
        if named:
            M = tm.orthoMatrix(left=v[0], right=v[1], bottom=v[2], top=v[3], zNear=v[4], zFar=v[5])
        else:
            M = tm.orthoMatrix(*v)
        env.check(M.shape == (4, 4), 'a 4x4 matrix')
        p = arrays.array([v[x], v[2 + y], -v[4 + z], 1.0], 'd')
        p = arrays.dot(M, p) if columns else arrays.dot(p, M)
        for got, want, k in zip(p, [[-1, 1][x], [-1, 1][y], [-1, 1][z], 1], 'xyzw'):
            env.close(got, want, 'corner: ' + k)
        env.cover('done')
    return fn


def ortho_default(env):
    from vrml import arrays
    M = modules(env).orthoMatrix()
    p = [env.real('p' + k, -16, 16) for k in 'xyz']
    q = arrays.dot(arrays.array(p + [1.0], 'd'), M)
    for got, want, k in zip(q, [p[0], p[1], -p[2], 1], 'xyzw'):
        env.close(got, want, 'default volume: ' + k)
    env.cover('done')


def harnesses(tier):
    both = ['pure', 'accel']
    vol = 'any field of view in (0.002, pi - 0.002), aspect 0.01..64, near 0.001..1000 below far up to 100000'
    bx = 'any box within -1000..1000, sides at least 0.01, either direction'
    return [
        dict(name='perspective', fn=perspective, variants=both, covers=['near', 'far'], bounds=vol + '; all eight corners'),
        dict(name='unproject', fn=unproject, variants=both, covers=['done'], bounds=vol + '; every element of the products'),
        dict(name='ortho', fn=ortho(True), variants=both, covers=['done'], bounds=bx + '; all eight corners, as columns (the layout glOrtho documents)'),
        dict(name='ortho_rows', fn=ortho(False), variants=both, covers=['done'], bounds=bx + '; all eight corners, as rows, for boxes around the origin'),
        dict(name='ortho_default', fn=ortho_default, variants=both, covers=['done'], bounds='the default volume, any point within -16..16'),
    ]
