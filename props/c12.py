"""C12: each instance of a prototype has its own body wired to its own fields."""
from . import common
from .c10 import value, TYPES

PRELOAD = common.VRML
setup = common.warm
OUTSIDE = 'external prototypes (never loaded by this library); more instances, mappings and nesting than stated; silent sets, which by definition tell nobody'
ASSUMPTIONS = ['bodies are read through the scene graph of the instance']


def make(env, ft, d, extra):
    """A prototype whose field f is mapped to one or two body fields."""
    from vrml import node, field
    from vrml.vrml97 import scenegraph, basenodes
    B = node.prototype('B', [field.newField('x', ft, 1), field.newField('y', ft, 1)], baseClasses=(node.Node,))
    b1, b2 = B(), B()
    body = scenegraph.SceneGraph(children=[basenodes.Group(children=[b1])])
    body.regDefName('second', b2)
    fs = [field.newField('f', ft, 1, d) if d is not None else field.newField('f', ft, 1), field.newField('g', ft, 1)]
    P = node.prototype('P', fs, body)
    maps = {'one': {'f': [(b1, 'x')]}, 'two': {'f': [(b1, 'x'), (b2, 'y')]}, 'same': {'f': [(b1, 'x'), (b1, 'y')]}, 'cross': {'f': [(b2, 'y')], 'g': [(b1, 'x'), (b2, 'x')]}}[extra]
    for k, v in maps.items():
        node.ismaps(P)[k] = v
    return P, (b1, b2), maps, body


def nodes_of(inst):
    from vrml import node
    b = node.getSceneGraph(inst)
    return b.children[0].children[0], b.getDEF('second')


def holds(env, inst, maps, tmpl, label):
    mine = nodes_of(inst)
    for k, ds in maps.items():
        want = common.frozen(getattr(inst, k))
        for n, f in ds:
            m = mine[0] if n is tmpl[0] else mine[1]
            common.equal(env, common.frozen(getattr(m, f)), want, label)


def values(ft, steps):
    def fn(env):
        d = value(env, ft, 'd') if env.flag('hasdefault') else None
        P, tmpl, maps, body = make(env, ft, d, env.pick('map', ['one', 'two', 'same', 'cross']))
        before = common.snap(list(common.walk(body)))
        a = P()
        first = common.frozen(a.f)
        b = P(f=value(env, ft, 'ctor')) if env.flag('with ctor') else P()
        insts = [a, b]
        for i in insts:
            holds(env, i, maps, tmpl, 'the body holds the first value')
        for s in range(steps):
            i = env.pick('i%d' % s, insts)
            what = env.pick('op%d' % s, ['set', 'del', 'body', 'other'])
            others = [common.frozen([getattr(n, f) for n in nodes_of(o) for f in ('x', 'y')] + [o.f, o.g]) for o in insts if o is not i]
            if what == 'set':
                i.f = value(env, ft, 'v%d' % s)
            elif what == 'other':
                i.g = value(env, ft, 'v%d' % s)
            elif what == 'del':
                if 'f' not in i.__dict__:
                    env.stop()
                del i.f
                common.equal(env, common.frozen(i.f), first, 'the default again')
            else:
                n, f = maps['f'][-1]
                m = nodes_of(i)[0 if n is tmpl[0] else 1]
                setattr(m, f, value(env, ft, 'v%d' % s))
            holds(env, i, maps, tmpl, 'the body follows')
            now = [common.frozen([getattr(n, f) for n in nodes_of(o) for f in ('x', 'y')] + [o.f, o.g]) for o in insts if o is not i]
            common.equal(env, now, others, 'other instances do not change')
        common.unchanged(env, list(common.walk(body)), before, 'the template')
        c = P()
        common.equal(env, common.frozen(c.f), first, 'a new instance has the default')
        holds(env, c, maps, tmpl, 'so has its body')
        env.check(len({id(x) for i in (a, b, c) for x in nodes_of(i)} | {id(x) for x in tmpl}) == 8, 'every body has its own nodes')
        env.cover('done')
    return fn


def lists(env):
    """Node and node-list fields, with and without default nodes."""
    from vrml import node, field
    from vrml.vrml97 import scenegraph, basenodes
    d = [basenodes.WorldInfo(title='d0'), basenodes.Group()] if env.flag('default') else None
    sd = basenodes.Material(transparency=0.5) if env.flag('sdefault') else None
    grp, app = basenodes.Group(), basenodes.Appearance()
    body = scenegraph.SceneGraph(children=[grp, basenodes.Shape(appearance=app)])
    P = node.prototype('P', [field.newField('k', 'MFNode', 1, d) if d else field.newField('k', 'MFNode', 1),
                             field.newField('s', 'SFNode', 1, sd) if sd else field.newField('s', 'SFNode', 1)], body)
    node.ismaps(P)['k'] = [(grp, 'children')]
    node.ismaps(P)['s'] = [(app, 'material')]
    before = common.snap(list(common.walk(body)))
    a, b = P(), P()

    def inner(x):
        g = node.getSceneGraph(x)
        return g.children[0], g.children[1].appearance

    def wired(x, label):
        g, ap = inner(x)
        env.check(len(g.children) == len(x.k), label)
        for p, q in zip(g.children, x.k):
            env.check(p is q, label)
        env.check(ap.material is x.s, label)
    for x in (a, b):
        wired(x, 'initially')
        env.check(len(x.k) == (2 if d else 0), 'the default list')
        env.check(bool(x.s) == bool(sd), 'the default node')
    if d:
        for x in (a, b):
            env.check(x.k[0].title == 'd0', 'the default node')
            env.check(x.k[0] is not d[0], 'a node of its own')
        env.check(a.k[0] is not b.k[0], 'not shared')
        a.k[0].title = env.text('t', 1)
        env.check(b.k[0].title == 'd0' and P().k[0].title == 'd0', 'others keep the default')
    if sd:
        a.s.transparency = env.real('r', 0, 1)
        env.check(b.s.transparency == 0.5, 'others keep the default')
        env.check(inner(b)[1].material.transparency == 0.5, 'and their bodies')
    keep = list(b.k), b.s
    for i in range(2):
        op = env.pick('op%d' % i, ['append', 'assign', 'pop', 'item', 'node', 'null', 'del', 'extend', 'reverse'])
        n = basenodes.WorldInfo(title='n%d' % i)
        if op == 'append':
            a.k.append(n)
        elif op == 'assign':
            a.k = [n, n]
        elif op == 'pop':
            if not a.k:
                env.stop()
            a.k.pop()
        elif op == 'item':
            if not a.k:
                env.stop()
            a.k[0] = n
        elif op == 'node':
            a.s = basenodes.Material()
        elif op == 'null':
            a.s = None
        elif op == 'extend':
            a.k += [n, basenodes.Group()]
        elif op == 'reverse':
            a.k.reverse()
        else:
            if 'k' not in a.__dict__:
                env.stop()
            del a.k
        wired(a, 'after ' + op)
        wired(b, 'other after ' + op)
        env.check(b.s is keep[1] and len(b.k) == len(keep[0]), 'the other is unchanged')
        for p, q in zip(b.k, keep[0]):
            env.check(p is q, 'the other is unchanged')
    common.unchanged(env, list(common.walk(body)), before, 'the template')
    env.cover('done')


def nested(env):
    """A prototype used within the body of another, at either depth."""
    from vrml import node
    v, w = env.real('v', -9, 9), env.real('w', -9, 9)
    inside = env.flag('inside')
    q = 'PROTO Q [ exposedField SFFloat q 4 field SFString s "q" ] { Group { children WorldInfo { title IS s } } Material { transparency IS q } }\n'
    p = 'PROTO P [ exposedField SFFloat p 0.5 field SFString s "p" ] { ' + (q if inside else '') + 'Transform { children [ Q { q IS p s IS s } Q { q 7 } ] } DEF M Material { shininess IS p } }\n'
    how = env.pick('how', ['P { }', 'P { p 2 }', 'DEF X P { p 2 s "x" }'])
    sg = common.parse('#VRML V2.0 utf8\n' + ('' if inside else q) + p + how + ' P { }\n')
    env.check(sg is not None, 'parses')
    a, b = sg.children

    def parts(x):
        g = node.getSceneGraph(x)
        q1, q2 = g.children[0].children
        b1, b2 = node.getSceneGraph(q1), node.getSceneGraph(q2)
        return g.children[1], q1, b1.children[1], b1.children[0].children[0], q2, b2.children[1], b2.children[0].children[0]

    def wired(x, label):
        m, q1, m1, i1, q2, m2, i2 = parts(x)
        env.check(m.shininess == x.p, label + ': direct mapping')
        env.check(q1.q == x.p, label + ': inner field')
        env.check(m1.transparency == x.p, label + ': inner body')
        env.check(q1.s == x.s and i1.title == x.s, label + ': string')
        env.check(q2.q == 7 and m2.transparency == 7, label + ': inner instance with a value')
        env.check(q2.s == 'q' and i2.title == 'q', label + ': inner default')
    env.check(a.p == (0.5 if how == 'P { }' else 2.0), 'value given')
    env.check(b.p == 0.5 and b.s == 'p', 'default')
    wired(a, 'first')
    wired(b, 'second')
    a.p = v
    wired(a, 'set')
    wired(b, 'other')
    env.check(b.p == 0.5, 'other unchanged')
    back = env.pick('back', ['inner', 'deep', 'string', 'none'])
    m, q1, m1, i1, q2, m2, i2 = parts(a)
    if back == 'inner':
        q1.q = w
        env.check(a.p == w, 'the interface follows its body')
    elif back == 'deep':
        m1.transparency = w
        env.check(a.p == w, 'the interface follows its body')
    elif back == 'string':
        a.s = env.text('s', 1)
    wired(a, 'after')
    wired(b, 'other after')
    c = type(a)()
    env.check(c.p == 0.5, 'new instance')
    wired(c, 'new instance')
    env.cover('done')


def events(env):
    """Mapped events, Scripts and routes within the body."""
    from vrml import node
    sg = common.parse('#VRML V2.0 utf8\nPROTO P [ eventIn SFTime go eventOut SFFloat out field SFString s "d" exposedField SFVec3f t 0 0 0 ] '
                      '{ DEF T TimeSensor { startTime IS go fraction_changed IS out } DEF S Script { field SFString q IS s eventIn SFTime e IS go } '
                      'DEF X Transform { translation IS t } DEF Y Transform { } ROUTE X.translation TO Y.scale }\nP { } P { }\n')
    env.check(sg is not None, 'parses')
    a, b = sg.children
    da, db = node.getSceneGraph(a), node.getSceneGraph(b)
    env.check(da.getDEF('S').q == 'd' and db.getDEF('S').q == 'd', 'script fields mapped')
    v = env.real('v', 1, 9)
    s = env.text('s', 1)
    a.go = v
    env.check(da.getDEF('T').startTime == v, 'event reaches the body')
    env.check(db.getDEF('T').startTime == 0, 'of this instance only')
    a.s = s
    env.check(da.getDEF('S').q == s, 'script field follows')
    env.check(db.getDEF('S').q == 'd', 'of this instance only')
    a.t = [v, 0, 0]
    env.check(da.getDEF('X').translation[0] == v, 'mapped field')
    env.check(da.getDEF('Y').scale[0] == v, 'and on along the route in the body')
    env.check(db.getDEF('Y').scale[0] == 1 and db.getDEF('X').translation[0] == 0, 'of this instance only')
    proto = node.getSceneGraph(type(a))
    env.check(proto.getDEF('X').translation[0] == 0 and proto.getDEF('Y').scale[0] == 1, 'the template keeps its values')
    env.check(proto.getDEF('T').startTime == 0, 'the template keeps its values')
    env.cover('done')


def plain(env):
    """Prototypes without body, derived prototypes, several prototypes."""
    from vrml import node, field
    from vrml.vrml97 import scenegraph, basenodes
    w = basenodes.WorldInfo(title='t')
    body = scenegraph.SceneGraph(children=[w])
    P = node.prototype('P', [field.newField('f', 'SFString', 1, 'p')], body if env.flag('pbody') else None)
    if node.getSceneGraph(P):
        node.ismaps(P)['f'] = [(w, 'title')]
    Q = node.prototype('Q', [field.newField('f', 'SFString', 1, 'q')])
    R = node.prototype('R', [field.newField('g', 'SFString', 1, 'r')], baseClasses=(P,))
    # derived, with a body of its own, perhaps an empty one
    own = scenegraph.SceneGraph(children=[basenodes.Group()] if env.flag('own') else [])
    S = node.prototype('S', [field.newField('g', 'SFString', 1, 's')], own, baseClasses=(P,))
    got = node.getSceneGraph(S()).children
    env.check(len(got) == len(own.children), 'a derived prototype has the body declared for it')
    for n in got:
        env.check(type(n) is basenodes.Group and n is not own.children[0], 'a copy of that body')
    order = env.pick('order', [(0, 1, 2), (2, 1, 0), (1, 0, 2)])
    made = [None] * 3
    for i in order:
        made[i] = (P, Q, R)[i]()
    p, q, r = made
    s = env.text('s', 1)
    env.check(len(node.getSceneGraph(q).children) == 0, 'no body, nothing in it')
    node.getSceneGraph(q).children.append(basenodes.Group())
    env.check(len(node.getSceneGraph(Q()).children) == 0, 'nor in another instance')
    if node.getSceneGraph(P):
        r.f = s
        env.check(node.getSceneGraph(r).children[0].title == s, 'a derived prototype has the body')
        env.check(node.getSceneGraph(p).children[0].title == 'p', 'its own')
        env.check(w.title == 't', 'and not the template')
    else:
        env.check(len(node.getSceneGraph(p).children) == 0, 'no body')
        env.check(len(node.getSceneGraph(R()).children) == 0, 'no body')
    node.getSceneGraph(p).children.append(basenodes.Group())
    env.check(len(node.getSceneGraph(P()).children) == (1 if node.getSceneGraph(P) else 0), 'a new instance has the declared body')
    env.cover('done')


def derived(most):
    """Classes derived from a prototype once or several times, in several ways."""
    def fn(env):
        from vrml import node, field
        P, tmpl, maps, body = make(env, 'SFFloat', 0.5, env.pick('map', ['one', 'two', 'cross']))
        before = common.snap(list(common.walk(body)))

        cls = P
        for n in range(env.pick('depth', list(range(1, most + 1)))):
            how = env.pick('how%d' % n, ['class', 'proto', 'before', 'after'])
            if how == 'class':
                class Derived(cls):
                    pass
                cls = Derived
            elif how == 'proto':
                cls = node.prototype('D%d' % n, [field.newField('own%d' % n, 'SFFloat', 1, 1)], baseClasses=(cls,))
            else:
                cls = type('D%d' % n, (type('M%d' % n, (), {}), cls) if how == 'before' else (cls, type('M%d' % n, (), {})), {})
        a, p = cls(f=value(env, 'SFFloat', 'ctor')) if env.flag('with ctor') else cls(), P()
        for i in (a, p):
            holds(env, i, maps, tmpl, 'the body holds the first value')
        was = common.frozen([getattr(n, f) for n in nodes_of(p) for f in ('x', 'y')])
        a.f = value(env, 'SFFloat', 'v')
        a.g = value(env, 'SFFloat', 'w')
        holds(env, a, maps, tmpl, 'the body follows')
        common.equal(env, common.frozen([getattr(n, f) for n in nodes_of(p) for f in ('x', 'y')]), was, 'of this instance only')
        common.unchanged(env, list(common.walk(body)), before, 'the template')
        env.cover('done')
    return fn


def harnesses(tier):
    deep = tier != 'quick'
    hs = []

    def add(name, fn, bounds):
        hs.append(dict(name=name, fn=fn, covers=['done'], bounds=bounds))
    for ft in TYPES:
        n = 2 if deep or ft in ('SFFloat', 'MFVec3f', 'SFString') else 1
        add('values_' + ft, values(ft, n), 'any value of %s, four ways of mapping, three instances, every sequence of %d changes' % (ft, n))
    add('lists', lists, 'a node and a node list field, every sequence of two of nine changes')
    add('nested', nested, 'prototypes nested in two ways')
    add('events', events, 'mapped events, script fields and inner routes')
    add('plain', plain, 'prototypes with and without body, and derived ones')
    add('derived', derived(3 if deep else 2), 'up to %d classes derived one from the other in four ways, three ways of mapping, any values' % (3 if deep else 2))
    return hs
