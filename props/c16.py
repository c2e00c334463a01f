"""C16: the matrix of a node path always reflects the current field values."""
from . import common
from .c15 import apply, same_point, prescribed, prescribed_back, unit

PRELOAD = common.VRML
setup = common.warm
OUTSIDE = 'arrays changed in place without setting the field, paths changed in place, Billboard nodes (which have no matrix), rounding'
ASSUMPTIONS = ['cosine and sine are any pair with c*c + s*s == 1, consistent for equal and negated angles, and (1, 0) at zero']
FIELDS = ['translation', 'scale', 'rotation', 'center', 'scaleOrientation']


def start(env):
    """Values before any change: exact numbers and symbolic angles."""
    r, o = env.angle('r'), env.angle('o')
    env.assume(env.both(r != 0, o != 0))
    return [dict(translation=[1., 2., 3.], scale=[2., .5, 1.], rotation=[0., 0., 1., r], center=[1., 0., -1.], scaleOrientation=[0., 0., 1., 0.]),
            dict(translation=[-2., 0., 1.], scale=[1., 4., .5], rotation=[0., 0., 1., 0.], center=[0., 2., 0.], scaleOrientation=[1., 0., 0., o])]


PLAIN = dict(translation=[0., 0., 0.], scale=[1., 1., 1.], rotation=[0., 0., 1., 0.], center=[0., 0., 0.], scaleOrientation=[0., 0., 1., 0.])
FLAGS = [(True, True, True), (False, True, True), (True, False, True), (True, True, False), (True, False, False), (False, True, False), (False, False, True), (False, False, False)]
P = [.5, -1.5, 2.]


def turned(env, v):
    """(unit axis, cos, sin) of a rotation, None for none."""
    a = v[3]
    return None if bool(a == 0) else (unit(v[:3]), env.cos(a), env.sin(a))


def spec(env, now, flags):
    t, s, r = flags
    return dict(T=now['translation'] if t else [0., 0., 0.], C=now['center'] if s or r else [0., 0., 0.], S=now['scale'] if s else [1., 1., 1.],
                O=turned(env, now['scaleOrientation']) if s else None, R=turned(env, now['rotation']) if r else None)


def through(env, states, flags, inverse, p=P):
    """The point mapped by the transforms of the path: root last, or first when inverse."""
    for now in (states if inverse else reversed(states)):
        p = (prescribed_back if inverse else prescribed)(env, spec(env, now, flags), p)
    return p


def ask(env, path, states, flags, inverse, label):
    m = path.transformMatrix(translate=flags[0], scale=flags[1], rotate=flags[2], inverse=inverse)
    env.check(m.shape == (4, 4), 'a 4x4 matrix')
    same_point(env, apply(m, P), through(env, states, flags, inverse), label)


def fresh(env, f, name, plain=False):
    """A new value for the field, any within bounds."""
    if plain and env.flag(name + ' default'):
        return list(PLAIN[f])
    if f in ('translation', 'center'):
        return [env.real(name, -16, 16), 2., 3.]
    if f == 'scale':
        return [env.real(name, .25, 4), .5, 8.]
    a = env.angle(name)
    env.assume(a != 0)
    return {'y': [0., 1., 0.], '-z': [0., 0., -1.]}[env.pick(name + ' axis', ['y', '-z'])] + [a]


def build(env, weak=False, starts=None):
    """A path of two transforms with other nodes between."""
    from vrml.vrml97 import basenodes, nodepath
    starts = starts or start(env)
    ts = [basenodes.Transform(**s) for s in starts]
    nodes = [basenodes.Group(), ts[0], basenodes.Group(), ts[1], basenodes.Shape()]
    ts[0].children = [nodes[2]]
    nodes[2].children = [ts[1]]
    ts[1].children = [nodes[4]]
    nodes[0].children = [ts[0]]
    cls = nodepath.WeakNodePath if weak else nodepath.NodePath
    return cls(nodes), ts, nodes, [dict(s) for s in starts]


def change(env, t, now, f, name, how='set', plain=False):
    from vrml import route, node, field
    if how == 'del':
        delattr(t, f)
        now[f] = PLAIN[f]
        return
    v = now[f] = fresh(env, f, name, plain)
    if how == 'set':
        setattr(t, f, v)
    elif how == 'set_':
        setattr(t, 'set_' + f, v) if hasattr(type(t), 'set_' + f) else setattr(t, f, tuple(v))
    else:
        src = node.prototype('Src', [field.newField('out', 'SFRotation' if len(v) == 4 else 'SFVec3f', 1)])()
        r = route.ROUTE(src, 'out', t, f)
        r.bind() if hasattr(r, 'bind') else None
        src.out = v
        return src, r


def once(env):
    """Ask, change one field, ask again, for any selection of parts."""
    path, ts, nodes, states = build(env)
    flags = FLAGS[env.choice('parts', 8)]
    inverse = env.flag('inverse')
    first = env.flag('asked before')
    if first:
        ask(env, path, states, flags, inverse, 'at first')
    i, f = env.choice('node', 2), env.pick('field', FIELDS)
    keep = change(env, ts[i], states[i], f, 'v', env.pick('how', ['set', 'del', 'route']), True)
    ask(env, path, states, flags, inverse, 'after the change')
    ask(env, path, states, flags, inverse, 'asked again')
    env.cover('asked' if first else 'not asked')


def several(changes, questions=4):
    def fn(env):
        """Any kind of question before, between and after changes."""
        path, ts, nodes, states = build(env)
        qs = [(FLAGS[0], False), (FLAGS[3], False), (FLAGS[0], True), (FLAGS[1], True)][:questions]
        for k in range(changes):
            n = env.choice('question%d' % k, len(qs) + 1)
            if n < len(qs):
                ask(env, path, states, qs[n][0], qs[n][1], 'question %d' % k)
            i, f = (env.choice('node%d' % k, 2) if k != 1 else 1 - i), env.pick('field%d' % k, ['translation', 'scale', 'center'] if k else ['rotation', 'translation', 'center'])
            change(env, ts[i], states[i], f, 'v%d' % k)
        n = env.choice('last', len(qs))
        ask(env, path, states, qs[n][0], qs[n][1], 'last question')
        env.cover('done')
    return fn


def paths(env):
    """Several paths over the same nodes, extended, shortened, dropped."""
    from vrml.vrml97 import basenodes, nodepath
    path, ts, nodes, states = build(env)
    extra = dict(PLAIN, translation=[5., 5., 0.], scale=[2., 2., 4.])
    t3 = basenodes.Transform(**extra)
    inverse = env.flag('inverse')
    longer = path + t3
    shorter = nodepath.NodePath(nodes[:2])
    other = nodepath.NodePath([ts[1], t3])
    every = [(path, states), (longer, states + [extra]), (shorter, states[:1]), (other, [states[1], extra])]
    a, b = env.choice('first', 5), env.choice('second', 4)
    if a < 4:
        ask(env, every[a][0], every[a][1], FLAGS[0], inverse, 'first path')
    i, f = env.choice('node', 3), env.pick('field', FIELDS)
    change(env, [ts[0], ts[1], t3][i], [states[0], states[1], extra][i], f, 'v')
    ask(env, every[b][0], every[b][1], FLAGS[0], inverse, 'second path')
    env.cover('done')


def repeated(env):
    """A node standing in the path several times counts each time."""
    from vrml.vrml97 import nodepath
    path, ts, nodes, states = build(env)
    i = env.choice('node', 2)
    order = [(0, 0), (0, 1, 0), (1, 0, 0), (0, 1, 0, 1)][env.choice('order', 4)]
    made = env.pick('made', ['at once', 'added'])
    p = nodepath.NodePath([ts[j] for j in order] if made == 'at once' else [])
    if made == 'added':
        for j in order:
            p = p + ts[j]
    flags, inverse = env.pick('parts', FLAGS[:1] + FLAGS[5:6]), env.flag('inverse')
    ask(env, p, [states[j] for j in order], flags, inverse, 'a node several times')
    if made == 'added':
        ask(env, p, [states[j] for j in order], flags, not inverse, 'the other way')
    change(env, ts[i], states[i], env.pick('field', FIELDS), 'v')
    ask(env, p, [states[j] for j in order], flags, inverse, 'changed')
    env.cover('done')


def local(env):
    """The matrices of one transform, whatever parts were asked for before."""
    path, ts, nodes, states = build(env)
    for k, flags in enumerate((FLAGS[env.choice('before', 8)], FLAGS[env.choice('after', 8)])):
        fw, bw = ts[0].localMatrices(translate=flags[0], scale=flags[1], rotate=flags[2]).data
        sp = spec(env, states[0], flags)
        same_point(env, apply(fw, P), prescribed(env, sp, P), 'forward')
        same_point(env, apply(bw, P), prescribed_back(env, sp, P), 'backward')
        if k == 0:
            change(env, ts[0], states[0], env.pick('field', FIELDS), 'v', env.pick('how', ['set', 'del']), True)
    env.cover('done')


def defaults(env):
    """Fields never set have the default of their declaration."""
    from vrml import field
    from vrml.vrml97 import basenodes, nodepath
    f = env.pick('field', FIELDS)
    v = start(env)[f == 'scaleOrientation'][f]

    class Moved(basenodes.Transform):
        pass
    setattr(Moved, f, field.newField(f, 'SFRotation' if len(v) == 4 else 'SFVec3f', 1, v))
    t = Moved()
    now = dict(PLAIN)
    now[f] = v
    path = nodepath.NodePath([t])
    inverse = env.flag('inverse')
    flags = FLAGS[env.choice('parts', 8)]
    if env.flag('read'):
        getattr(t, f)
    ask(env, path, [now], flags, inverse, 'default')
    other = env.pick('other', FIELDS)
    change(env, t, now, other, 'v')
    ask(env, path, [now], flags, inverse, 'another field set')
    delattr(t, other)
    now[other] = v if other == f else PLAIN[other]
    ask(env, path, [now], flags, inverse, 'and deleted')
    env.cover('done')


def gone(env):
    """A path that takes the place of one that has gone has its own matrix."""
    from vrml.vrml97 import basenodes, nodepath
    path, ts, nodes, states = build(env)
    inverse = env.flag('inverse')
    starts = [dict(s) for s in states]
    ask(env, path, states, FLAGS[0], inverse, 'first')
    which = env.pick('what', ['path', 'node', 'both'])
    if which != 'node':
        ask(env, path, states, FLAGS[0], not inverse, 'both ways')
    path = None
    if which != 'path':
        for n in nodes:
            n.children = [] if hasattr(n, 'children') else None
        ts = nodes = None
        path, ts, nodes, states = build(env, starts=[starts[1], starts[0]])
    else:
        path = nodepath.NodePath([ts[1], ts[0]])
        states = [states[1], states[0]]
    ask(env, path, states, FLAGS[0], inverse, 'another path')
    i = env.choice('node', 2)
    t = [n for n in path if isinstance(n, basenodes.Transform)][i]
    change(env, t, states[i], env.pick('field', FIELDS), 'v')
    ask(env, path, states, FLAGS[0], inverse, 'another path changed')
    env.cover('done')


def none(env):
    """No transforms: the identity."""
    from vrml.vrml97 import basenodes, nodepath
    path = nodepath.NodePath([basenodes.Group(), basenodes.Shape()][:env.choice('nodes', 3)])
    flags = FLAGS[env.choice('parts', 8)]
    ask(env, path, [], flags, env.flag('inverse'), 'nothing')
    if env.flag('plain'):
        t = basenodes.Transform()
        now = dict(PLAIN)
        path = path + [t]
        ask(env, path, [now], flags, False, 'identity transform')
        change(env, t, now, env.pick('field', FIELDS), 'v')
        ask(env, path, [now], flags, False, 'changed')
    env.cover('done')


def harnesses(tier):
    vals = 'the new value with one component any within bounds (translation and center -16..16, scale 0.25..4), any angle about two axes, or nothing but the default; two transforms among other nodes'
    hs = [
        dict(name='once', fn=once, covers=['asked', 'not asked'], bounds='8 selections of parts, forward and inverse, any of 5 fields of either transform set, deleted or routed to; ' + vals),
        dict(name='several_2', fn=several(2, 2 if tier == 'quick' else 4), covers=['done'], bounds='2 changes with two (thorough: 4) kinds of question before, between and after; ' + vals),
        dict(name='paths', fn=paths, covers=['done'], bounds='4 paths sharing nodes, one asked, a field changed, one asked; ' + vals),
        dict(name='repeated', fn=repeated, covers=['done'], bounds='two transforms up to twice in one path, one field changed; ' + vals),
        dict(name='local', fn=local, covers=['done'], bounds='8 selections of parts before and after a change of any field; ' + vals),
        dict(name='defaults', fn=defaults, covers=['done'], bounds='a subclass with another default for any one field; 8 selections of parts; ' + vals),
        dict(name='gone', fn=gone, covers=['done'], bounds='path, nodes or both replaced by new ones; ' + vals),
        dict(name='none', fn=none, covers=['done'], bounds='paths without transforms, then with one; ' + vals),
    ]
    if tier == 'thorough':
        hs.append(dict(name='several_3', fn=several(3), covers=['done'], bounds='3 changes with 4 kinds of question before, between and after; ' + vals))
    return hs
