"""C03: the structure of a scene survives writing and reading back."""
from . import common

PRELOAD = common.VRML
setup = common.warm
OUTSIDE = 'graphs with more nodes than stated, cyclic graphs, two nodes carrying one DEF name, two prototypes of one name in one scope (only by hand)'
ASSUMPTIONS = ['DEF names are distinct, legal VRML97 identifiers and no VRML97 keywords']

KEYWORDS = ['DEF', 'USE', 'IS', 'TO', 'NULL', 'TRUE', 'FALSE', 'PROTO', 'ROUTE', 'EXTERNPROTO', 'Script', 'field', 'eventIn', 'eventOut', 'exposedField']
REST = [(0x21, 0x21), (0x24, 0x26), (0x28, 0x2B), (0x2D, 0x2D), (0x2F, 0x5A), (0x5E, 0x7A), (0x7C, 0x7C), (0x7E, 0x7E), (0x80, 0xD7FF), (0xE000, 0x10FFFF)]


def ident(env, name, n):
    """Any legal identifier of n characters."""
    s = env.text(name, n, ranges=REST)
    env.assume(env.negate(env.either(*[s[0] == c for c in '0123456789+-'])))
    for k in KEYWORDS:
        if len(k) == n:
            env.assume(s != k)
    return s


def check_back(env, nodes, lin=None, again=True):
    """nodes: list of root nodes, written as a scene."""
    from vrml.vrml97 import scenegraph, linearise
    sg = scenegraph.SceneGraph(children=nodes)
    return check_sg(env, sg, lin, again)


def written(sg, lin=None):
    from vrml.vrml97 import linearise
    if lin == 'minimal':
        return linearise.linearise(sg, linearise.minimal1)
    elif lin == 'named':
        return sg.toString(indent='', subelspacer=' ', numsep=' ')
    return sg.toString()


def check_sg(env, sg, lin=None, again=True):
    text = written(sg, lin)
    back = common.parse(text)
    env.check(back is not None, 'the written text parses completely')
    env.check(len(back.children) == len(sg.children), 'same number of root nodes')
    fwd, bwd = {}, {}
    for i, (a, b) in enumerate(zip(sg.children, back.children)):
        common.iso(env, a, b, fwd, bwd, 'root[%d]' % i)
    env.check(len(back.routes) == len(sg.routes), 'same number of routes')
    for r, s in zip(sg.routes, back.routes):
        env.check(fwd.get(id(r.source)) is s.source, 'route source')
        env.check(fwd.get(id(r.destination)) is s.destination, 'route destination')
        env.check(env.both(r.sourceField == s.sourceField, r.destinationField == s.destinationField), 'route fields')
    if again:
        env.check(written(back, lin) == text, 'writing what was read gives the same text')
    env.cover('done')
    return back


def one_def(n):
    def fn(env):
        from vrml.vrml97 import basenodes
        name = ident(env, 'name', n)
        a = basenodes.WorldInfo(title='a', DEF=name)
        form = env.pick('form', ['alone', 'shared', 'nested', 'field', 'node'])
        if form == 'alone':
            check_back(env, [a])
        elif form == 'shared':
            check_back(env, [a, a])
        elif form == 'nested':
            check_back(env, [basenodes.Group(children=[a, basenodes.Group(children=[a])])])
        elif form == 'field':
            m = basenodes.Material(DEF=name)
            ap = basenodes.Appearance(material=m)
            check_back(env, [basenodes.Shape(appearance=ap), basenodes.Shape(appearance=basenodes.Appearance(material=m))])
        else:
            text = a.toString()
            back = common.parse(text)
            env.check(back is not None, 'the written text parses completely')
            common.iso(env, a, back.children[0])
            env.cover('done')
    return fn


def two_defs(env):
    """Two named nodes used in any pattern of four slots."""
    from vrml.vrml97 import basenodes
    p, q = ident(env, 'p', 1), ident(env, 'q', 1)
    env.assume(p != q)
    a, b = basenodes.WorldInfo(title='a', DEF=p), basenodes.Group(DEF=q)
    if env.flag('inside'):
        b.children.append(a)
    slots = [env.pick('s%d' % i, [a, b]) for i in range(3)]
    check_back(env, [basenodes.Group(children=slots[:2]), slots[2]], again=False)


LINS = [None, 'minimal', 'named']


def tree(size, kinds):
    """A tree: every node's parent is one of the earlier ones; every node has
    a name or none; the last slot may instead re-use an earlier named node."""
    def fn(env):
        from vrml.vrml97 import basenodes
        ns = []
        root = basenodes.Group()
        groups = [root]
        named = []
        for i in range(size):
            k = env.pick('k%d' % i, kinds)
            if k == 'use' and not named:
                env.stop()
            parent = env.pick('p%d' % i, groups)
            if k == 'use':
                n = env.pick('u%d' % i, named)
                if any(g is n for g in groups) and contains(n, parent):
                    env.stop()
                parent.children.append(n)
                continue
            n = {'Group': lambda: basenodes.Group(),
                 'Transform': lambda: basenodes.Transform(translation=[1.5, 0.0, float(i)]),
                 'Switch': lambda: basenodes.Switch(whichChoice=i),
                 'LOD': lambda: basenodes.LOD(center=[0.0, 1.0, 0.0]),
                 'info': lambda: basenodes.WorldInfo(title='t%d' % i, info=['x', 'y"z']),
                 'Shape': lambda: basenodes.Shape(geometry=basenodes.Box(size=[1.0, 2.0, 3.0]))}[k]()
            if env.flag('d%d' % i):
                type(n).DEF.__set__(n, 'N%d' % i)
                named.append(n)
            if k in ('Switch',):
                parent.children.append(n)
            elif k == 'LOD':
                parent.children.append(n)
            else:
                parent.children.append(n)
                if k in ('Group', 'Transform'):
                    groups.append(n)
        check_back(env, [root], env.pick('lin', LINS))
    return fn


def contains(a, b):
    if a is b:
        return True
    return any(contains(c, b) for c in getattr(a, 'children', []) or [])


def unnamed_shared(env):
    """A node without a name used twice comes back as equal copies."""
    from vrml.vrml97 import basenodes, scenegraph
    s = env.text('s', 1)
    a = basenodes.WorldInfo(title=s)
    where = env.pick('where', ['siblings', 'deep', 'roots', 'geometry'])
    if where == 'siblings':
        roots = [basenodes.Group(children=[a, a])]
    elif where == 'deep':
        g = basenodes.Group(children=[a])
        roots = [basenodes.Transform(children=[g, a, g])]
    elif where == 'roots':
        roots = [a, a]
    else:
        m = basenodes.Material(transparency=0.5)
        ap = basenodes.Appearance(material=m)
        roots = [basenodes.Shape(appearance=ap), basenodes.Shape(appearance=ap)]
    sg = scenegraph.SceneGraph(children=roots)
    back = common.parse(sg.toString())
    env.check(back is not None, 'the written text parses completely')
    env.check(len(back.children) == len(roots), 'same number of root nodes')
    for x, y in zip(roots, back.children):
        unfold(env, x, y)
    env.cover('done')


def unfold(env, x, y):
    if common.is_null(x):
        env.check(common.is_null(y), 'NULL')
        return
    common.iso_values = None
    env.check(common.proto_name(x) == common.proto_name(y), 'same type')
    for k, f in common.fields_of(type(x)):
        va, vb = f.__get__(x, type(x)), f.__get__(y, type(y))
        if getattr(f, 'nodes', 0):
            if isinstance(va, list):
                env.check(len(va) == len(vb), k + ': same number of nodes')
                for p, q in zip(va, vb):
                    unfold(env, p, q)
            else:
                unfold(env, va, vb)
        else:
            common.same_value(env, va, vb, k)


def sfnodes(env):
    """SFNode fields: NULL, a node, the same node in several places."""
    from vrml.vrml97 import basenodes
    tex = env.pick('tex', [None, 'image', 'pixel'])
    mat = env.flag('mat')
    geo = env.pick('geo', [None, 'Box', 'Sphere', 'ifs'])
    coord = basenodes.Coordinate(point=[[0, 0, 0], [1, 0, 0], [0, 1.5, 0]], DEF='C') if geo == 'ifs' else None
    g = {None: lambda: None, 'Box': lambda: basenodes.Box(), 'Sphere': lambda: basenodes.Sphere(radius=2.5),
         'ifs': lambda: basenodes.IndexedFaceSet(coord=coord, coordIndex=[0, 1, 2, -1], ccw=0)}[geo]()
    t = {None: lambda: None, 'image': lambda: basenodes.ImageTexture(url=['a.png', 'b.png'], repeatS=0),
         'pixel': lambda: basenodes.PixelTexture(image=[1, 1, 3, 0xff0000])}[tex]()
    ap = basenodes.Appearance(texture=t)
    if mat:
        ap.material = basenodes.Material(diffuseColor=[1, 0, 0])
    kids = [basenodes.Shape(appearance=ap, geometry=g)]
    if geo == 'ifs' and env.flag('again'):
        kids.append(basenodes.Shape(geometry=basenodes.IndexedLineSet(coord=coord, coordIndex=[0, 1])))
    check_back(env, kids, env.pick('lin', LINS))


def routes(env):
    """Routes between nodes with and without names."""
    from vrml.vrml97 import basenodes, scenegraph
    from vrml import route
    da, db, dc = env.pick('da', ['', 'A']), env.pick('db', ['', 'B']), env.pick('dc', ['', 'PositionInterpolator_0', 'TimeSensor_0'])
    t = basenodes.TimeSensor(DEF=da)
    p = basenodes.PositionInterpolator(DEF=db, key=[0, 1], keyValue=[[0, 0, 0], [1, 2, 3]])
    x = basenodes.Transform(DEF=dc)
    sg = scenegraph.SceneGraph(children=[t, basenodes.Group(children=[p]), x])
    for n in (t, p, x):
        if n.DEF:
            sg.regDefName(n.DEF, n)
    k = env.pick('n', [1, 2, 3])
    rs = [(t, 'fraction_changed', p, 'set_fraction'), (p, 'value_changed', x, 'translation'), (t, 'startTime', t, 'stopTime')]
    for r in rs[:k]:
        sg.addRoute(r)
    names = [n for n in (da, db, dc) if n]
    back = check_sg(env, sg)
    for i in range(k):
        s = back.routes[i]
        env.check(s.source is back.getDEF(rs[i][0].DEF), 'the route starts at the named node')


def same_type_routes(env):
    """Routes between unnamed nodes of one type, among named ones."""
    from vrml.vrml97 import basenodes, scenegraph
    ns = [basenodes.TimeSensor(cycleInterval=float(i + 1)) for i in range(4)]
    taken = env.pick('taken', [None, 0, 1, 2])
    sg = scenegraph.SceneGraph(children=ns)
    if taken is not None:
        w = basenodes.WorldInfo(DEF='TimeSensor_%d' % taken)
        sg.children.append(w)
        sg.regDefName(w.DEF, w)
    k = env.choice('n', 4) + 1
    for i in range(k):
        a = env.choice('a%d' % i, 4) if i < 2 else 3 - i
        sg.addRoute((ns[a], 'startTime', ns[i], 'stopTime'))
    back = common.parse(sg.toString())
    env.check(back is not None, 'the written text parses completely')
    env.check(len(back.children) == len(sg.children), 'same number of nodes')
    env.check(len(back.routes) == k, 'same number of routes')
    where = {}
    for x, y in zip(sg.children, back.children):
        where[id(x)] = y
        if x is not sg.children[-1] or taken is None:
            env.check(x.cycleInterval == y.cycleInterval, 'nodes in order')
    for r, s in zip(sg.routes, back.routes):
        env.check(where[id(r.source)] is s.source, 'from the same node')
        env.check(where[id(r.destination)] is s.destination, 'to the same node')
    env.cover('done')


def two_protos(env):
    """Two prototypes with any names, one perhaps used within the other."""
    from vrml import node, field, protofunctions
    from vrml.vrml97 import basenodes, scenegraph
    p, q = ident(env, 'p', env.pick('np', [1, 2])), ident(env, 'q', env.pick('nq', [2, 3]))
    env.assume(p != q)
    P = node.prototype(p, [field.newField('a', 'SFString', 1, 'pa')])
    Q = node.prototype(q, [field.newField('b', 'SFString', 1, 'qb')])
    x, y = P(a='x'), Q(b='y')
    how = env.pick('how', ['siblings', 'swapped', 'inside'])
    if how == 'inside':
        b = scenegraph.SceneGraph(children=[basenodes.Group(children=[P(a='z')])])
        node.setSceneGraph(Q, b)
    sg = scenegraph.SceneGraph(children=[y, x] if how == 'swapped' else [x, y])
    back = common.parse(sg.toString())
    env.check(back is not None, 'the written text parses completely')
    env.check(len(back.children) == 2, 'both instances come back')
    for m, n in zip(sg.children, back.children):
        unfold(env, m, n)
    if how == 'inside':
        body = protofunctions.getSceneGraph(back.children[1])
        env.check(body is not None and len(body.children) == 1, 'the body comes back')
        inner = body.children[0].children[0]
        env.check(common.proto_name(inner) == p and inner.a == 'z', 'with the instance in it')
    env.cover('done')


def nested(deep_tier):
  def fn(env):
    """Prototypes declared in the bodies of others, under any names."""
    head = '#VRML V2.0 utf8\n'
    x, y, z = [ident(env, k, 1) if deep_tier else env.text(k, 1, ranges=[(103, 122)]) for k in 'xyz']
    s = env.text('s', 1, exclude='"\\')
    deep = env.flag('deep')
    inner = 'PROTO ' + x + ' [ field SFString t "e" ] { ' + ('PROTO ' + z + ' [ ] { Cone { } } ' + z + ' { } ' if deep else '') + 'WorldInfo { title IS t } } '
    a = 'PROTO Aa [ field SFString s "d" ] { ' + inner + x + ' { t IS s } ' + x + ' { } } '
    other = 'PROTO ' + y + ' [ field SFString t "g" ] { Group { } } '
    b = '' if deep else 'PROTO Bb [ ] { PROTO ' + z + ' [ ] { Cylinder { } } ' + z + ' { } Aa { s "b" } } '
    where = env.pick('where', ['before', 'after', 'nowhere', 'extern'])
    if where == 'extern':
        other = 'EXTERNPROTO ' + y + ' [ field SFString t ] "u" '
    text = {'before': other + a + b, 'after': a + b + other, 'nowhere': a + b, 'extern': other + a + b}[where]
    text += 'Aa { s "' + s + '" } ' + ('' if deep else 'Bb { } ') + ('' if where == 'nowhere' else y + ' { t "h" } ')
    sg = common.parse(head + text)
    env.check(sg is not None, 'the source parses')
    for again in range(2 if deep_tier else 1):
        back = common.parse(written(sg, 'minimal' if env.flag('minimal') else None))
        env.check(back is not None, 'the written text parses completely')
        common.same_scene(env, sg, back, protos='deep')
        for i, j in zip(sg.children, back.children):
            common.same_bodies(env, i, j)
        sg = back
    env.cover('done')
  return fn


def protos(env):
    """A prototype with fields and a body using them, and its instances."""
    from vrml import node, field
    from vrml.vrml97 import basenodes, scenegraph
    name = ident(env, 'name', 2)
    f = env.pick('f', ['x', 'y_2', 'children'])
    s, d = env.text('s', 1), env.text('d', 1)
    ev = env.pick('ev', ['ev', 'set_ev', 'ev_changed']) if f == 'x' else 'ev'
    P = node.prototype(name, [field.newField(f, 'SFString', 1, d), field.newField('kids', 'MFNode', 1, list), field.newEvent(ev, 'SFTime', env.choice('dir', 2))])
    body = env.pick('body', ['none', 'empty', 'nodes'])
    if body != 'none':
        b = scenegraph.SceneGraph()
        if body == 'nodes':
            b.children = [basenodes.Group(children=[basenodes.WorldInfo(title='in')])]
        node.setSceneGraph(P, b)
    n = P(kids=[basenodes.WorldInfo(title='k')])
    if env.flag('set'):
        getattr(P, f).__set__(n, s)
    sg = scenegraph.SceneGraph(children=[n, P()])
    back = common.parse(sg.toString())
    env.check(back is not None, 'the written text parses completely')
    env.check(len(back.children) == 2, 'both instances come back')
    for x, y in zip(sg.children, back.children):
        unfold(env, x, y)
    Q = type(back.children[0])
    env.check(type(back.children[1]) is Q, 'both of one prototype')
    evs = [v for v in Q.__dict__.values() if isinstance(v, field.Event)]
    own = sorted(v.name for v in Q.__dict__.values() if isinstance(v, (field.Field, field.Event)))
    env.check(own == sorted([f, 'kids', ev]), 'the interface comes back')
    env.check(len(evs) == 1 and evs[0].name == ev and bool(evs[0].direction) == bool(P.__dict__[ev].direction), 'the event comes back')
    qb = node.getSceneGraph(Q)
    env.check(len(qb.children) == (1 if body == 'nodes' else 0), 'the body comes back')
    if body == 'nodes':
        unfold(env, node.getSceneGraph(P).children[0], qb.children[0])
    env.cover('done')


def across(env):
    """A named node that is in the bodies of prototypes as well as in the scene."""
    from vrml import node, field
    from vrml.vrml97 import basenodes, scenegraph
    d = ident(env, 'def', 1)
    shared = basenodes.Shape(DEF=d, appearance=basenodes.Appearance(material=basenodes.Material(transparency=0.5)))
    P = node.prototype('P', [field.newField('c', 'SFNode', 1, node.NULL)])
    Q = node.prototype('Q', [])
    pb, qb = env.pick('p body', [0, 1, 2]), env.pick('q body', [0, 1])
    node.setSceneGraph(P, scenegraph.SceneGraph(children=[basenodes.Group(children=[shared] * pb)]))
    node.setSceneGraph(Q, scenegraph.SceneGraph(children=[basenodes.Transform(children=[P()] * qb + [shared])]))
    where = env.pick('where', ['before', 'after', 'around', 'in the instance', 'nowhere'])
    inst = P(c=shared) if where == 'in the instance' else P()
    kids = [inst] + ([Q()] if env.flag('q') else [])
    if where in ('before', 'around'):
        kids = [shared] + kids
    if where in ('after', 'around'):
        kids = kids + [shared]
    sg = scenegraph.SceneGraph(children=kids)
    back = common.parse(sg.toString())
    env.check(back is not None, 'the written text parses completely')
    env.check(len(back.children) == len(kids), 'all come back')
    fwd, bwd = {}, {}
    for x, y in zip(kids, back.children):
        common.iso(env, x, y, fwd, bwd)
        if common.proto_name(x) in ('P', 'Q'):
            common.iso(env, node.getSceneGraph(type(x)).children[0], node.getSceneGraph(type(y)).children[0])
    env.cover('done')


def ismaps(env):
    """IS mappings in a prototype body come back."""
    from vrml import node, field
    from vrml.vrml97 import basenodes, scenegraph
    head = '#VRML V2.0 utf8\n'
    v = env.text('v', 1, exclude='"\\')
    which = env.pick('which', ['one', 'two', 'both'])
    body = {'one': 'WorldInfo { title IS a }', 'two': 'Group { children [ WorldInfo { title IS b info [ "q" ] } ] }',
            'both': 'WorldInfo { title IS a } WorldInfo { title IS b }'}[which]
    src = head + 'PROTO P [ field SFString a "' + v + '" exposedField SFString b "" ] { ' + body + ' }\nP { a "z" }\nP { b "y" }'
    sg = common.parse(src)
    env.check(sg is not None, 'the source parses')
    back = common.parse(sg.toString())
    env.check(back is not None, 'the written text parses completely')
    P, Q = sg.getProto('P'), back.getProto('P')
    mp, mq = node.ismaps(P), node.ismaps(Q)
    env.check(sorted(mp) == sorted(mq), 'the same fields are mapped')
    bp, bq = node.getSceneGraph(P), node.getSceneGraph(Q)
    fwd = {}
    for x, y in zip(bp.children, bq.children):
        fwd.update(common.iso(env, x, y))
    for k in mp:
        env.check(len(mp[k]) == len(mq[k]), 'as often')
        for (n1, f1), (n2, f2) in zip(mp[k], mq[k]):
            env.check(fwd.get(id(n1)) is n2 and f1 == f2, 'to the same field of the same node')
    for x, y in zip(sg.children, back.children):
        unfold(env, x, y)
    env.cover('done')


def extern(env):
    """EXTERNPROTO declarations and their instances."""
    from vrml import node, field
    from vrml.vrml97 import scenegraph
    u = [env.text('u%d' % i, 1) for i in range(env.choice('n', 2) + 1)]
    P = node.prototype('E', [field.newField('f', 'SFFloat', 0, 0.0), field.newEvent('e', 'SFBool', 0)], externalURL=u)
    n = P(f=env.decimal('v', 1, 1))
    sg = scenegraph.SceneGraph(children=[n])
    back = common.parse(sg.toString())
    env.check(back is not None, 'the written text parses completely')
    Q = type(back.children[0])
    env.check(list(node.getExternalURL(Q)) == u, 'the same URLs')
    env.check(back.children[0].f == n.f, 'the instance keeps its value')
    env.cover('done')


def scripts(env):
    from vrml import field, node
    from vrml.vrml97 import script, scenegraph, basenodes
    url = env.text('url', 2)
    d = env.pick('def', ['', 'S'])
    v = env.text('v', 1)
    s = script.Script([field.newField('a', 'SFString', 0, v), field.newEvent('in', 'SFTime', 0), field.newEvent('out', 'SFColor', 1)],
                      url=[url], DEF=d, directOutput=env.flag('direct'))
    sg = scenegraph.SceneGraph(children=[basenodes.Group(children=[s])])
    back = common.parse(sg.toString())
    env.check(back is not None, 'the written text parses completely')
    t = back.children[0].children[0]
    env.check(common.proto_name(t) == 'Script', 'a Script')
    env.check(t.url == [url], 'the same program')
    env.check(bool(t.directOutput) == bool(s.directOutput), 'the same flag')
    env.check(t.DEF == d, 'the same name')
    env.check(t.a == v, 'the same field value')
    ev = {k: (v.typeName(), bool(v.direction)) for k, v in type(t).__dict__.items() if isinstance(v, field.Event)}
    env.check(ev == {'in': ('SFTime', False), 'out': ('SFColor', True)}, 'the same events')
    env.cover('done')


def script_values(env):
    """Fields of a Script that were changed, also to nodes."""
    from vrml import field
    from vrml.vrml97 import script, scenegraph, basenodes
    w = env.text('w', 1)
    x = env.decimal('x', 1, 1)
    s = script.Script([field.newField('a', 'SFString', 0, 'first'), field.newField('b', 'SFFloat', 1, 0.0),
                       field.newField('n', 'SFNode', 0), field.newField('k', 'MFNode', 0, list)], DEF='S')
    g = basenodes.Group(DEF=env.pick('gd', ['', 'G']))
    which = env.pick('which', ['a', 'b', 'n', 'k', 'all'])
    if which in ('a', 'all'):
        s.a = w
    if which in ('b', 'all'):
        s.b = x
    if which in ('n', 'all'):
        s.n = g
    if which in ('k', 'all'):
        s.k = [basenodes.WorldInfo(title=w), basenodes.Group()]
    sg = scenegraph.SceneGraph(children=[s])
    back = common.parse(sg.toString())
    env.check(back is not None, 'the written text parses completely')
    common.iso(env, s, back.children[0])
    env.cover('done')


def script_is(env):
    """A Script in a prototype body, mapped to the prototype's interface."""
    from vrml import node, field
    f, e, o = env.flag('f'), env.flag('e'), env.flag('o')
    v = env.text('v', 1, exclude='"\\')
    src = '#VRML V2.0 utf8\nPROTO P [ field SFString a "' + v + '" eventIn SFTime go eventOut SFBool b exposedField MFString u [ ] ] { DEF S Script { field SFString q ' + ('IS a' if f else '"z"') + \
        ' eventIn SFTime w ' + ('IS go' if e else '') + ' eventOut SFBool x ' + ('IS b' if o else '') + (' url IS u' if env.flag('m') else ' url "s"') + ' } }\nP { a "z" }\n'
    sg = common.parse(src)
    env.check(sg is not None, 'the source parses')
    back = common.parse(sg.toString())
    env.check(back is not None, 'the written text parses completely')
    P, Q = sg.getProto('P'), back.getProto('P')
    mp, mq = node.ismaps(P), node.ismaps(Q)
    env.check(sorted((k, m) for k in mp for n, m in mp[k]) == sorted((k, m) for k in mq for n, m in mq[k]), 'the same fields are mapped')
    t = node.getSceneGraph(Q).children[0]
    env.check(all(n is t for k in mq for n, m in mq[k]), 'of the same node')
    env.check(t.q == node.getSceneGraph(P).children[0].q, 'with the same value')
    for s in (node.getSceneGraph(P).children[0], t):
        own = {n: getattr(type(s), n, None) for n in ('q', 'w', 'x')}
        env.check(isinstance(own['q'], field.Field) and not own['q'].exposure and own['q'].typeName() == 'SFString', 'a field of the Script')
        env.check(isinstance(own['w'], field.Event) and not own['w'].direction and own['w'].typeName() == 'SFTime', 'an eventIn of the Script')
        env.check(isinstance(own['x'], field.Event) and bool(own['x'].direction) and own['x'].typeName() == 'SFBool', 'an eventOut of the Script')
    env.check(Q.a.getDefault() == v, 'and the same default')
    env.check(sorted(n.name for n in Q.__dict__.values() if isinstance(n, (field.Field, field.Event))) == ['a', 'b', 'go', 'u'], 'and the same interface')
    env.cover('done')


def script_nodes(env):
    """Scripts that refer to nodes of the scene, and default nodes of prototypes."""
    from vrml import field, node
    from vrml.vrml97 import script, scenegraph, basenodes
    a, b, c = [env.letters('n%d' % i, 1, 'ABC') for i in range(3)]
    env.assume(env.both(env.negate(a == b), env.negate(b == c)))
    form = env.pick('form', ['after', 'before', 'body', 'default', 'made'])
    if form == 'made':
        env.assume(env.negate(a == c))
        g = basenodes.Group(DEF=a)
        s = script.Script((field.newField(n, t, 0, v) for n, t, v in [('own', 'SFNode', g), ('owns', 'MFNode', [g, basenodes.Box(DEF=b)])]), DEF=c)
        env.check(s.own is g and s.owns[0] is g, 'the Script refers to the nodes')
        sg = scenegraph.SceneGraph(children=[g, s] if env.flag('order') else [s, g])
    else:
        text = '#VRML V2.0 utf8\n' + {
            'after': 'DEF ' + a + ' Group {} DEF ' + b + ' Script { field SFNode own USE ' + a + ' field MFNode owns [ USE ' + a + ' Box {} ] } Group { children USE ' + b + ' }',
            'before': 'DEF ' + b + ' Script { field SFNode own DEF ' + a + ' Group {} field MFNode owns [ Box {} USE ' + a + ' ] } Group { children [ USE ' + a + ' USE ' + b + ' ] }',
            'body': 'PROTO X [ ] { DEF ' + a + ' Group {} DEF ' + b + ' Script { field SFNode own USE ' + a + ' field MFNode owns [ USE ' + a + ' ] } } X {} DEF ' + c + ' X {} Group { children USE ' + c + ' }',
            'default': 'PROTO X [ field SFNode s DEF ' + a + ' Group {} exposedField MFNode m [ DEF ' + b + ' Group {} USE ' + b + ' ] ] { Group {} } DEF ' + c + ' Box {} X {} X { s USE ' + c + ' } Shape { geometry USE ' + c + ' }',
        }[form]
        sg = common.parse(text)
        env.check(sg is not None, 'the document is read')
        if form in ('after', 'before'):
            i = 0 if form == 'before' else 1
            s, g = sg.children[i], sg.children[0 if form == 'after' else 1]
            if form == 'before':
                g = g.children[0]
            env.check(s.own is g and s.owns[i and 0 or 1 - i] is g, 'the Script refers to the node')
        elif form == 'body':
            bodies = [node.getSceneGraph(x) for x in sg.children[:2]]
            for x in bodies:
                env.check(x.children[1].own is x.children[0] and x.children[1].owns[0] is x.children[0], 'the Script refers to the node of its body')
            env.check(bodies[0].children[0] is not bodies[1].children[0], 'each body has its own')
        else:
            x, y = sg.children[1], sg.children[2]
            env.check(y.s is sg.children[0] and sg.children[3].geometry is sg.children[0], 'the named node')
            env.check(x.m[0] is x.m[1] and y.m[0] is not x.m[0], 'each instance has its own default nodes')
    back = check_sg(env, sg, env.pick('lin', [None, 'minimal']))
    if form == 'body':
        for x in back.children[:2]:
            x = node.getSceneGraph(x)
            env.check(x.children[1].own is x.children[0], 'the Script refers to the node of its body')
    for f in ['after', 'before', 'body', 'default', 'made']:
        if f == form:
            env.cover(f)


def big(env):
    """Nodes long enough to get end comments."""
    from vrml.vrml97 import basenodes
    s = env.text('s', 2)
    d = env.pick('d', ['', 'D'])
    pad = 'x' * 700
    n = basenodes.WorldInfo(title=s, info=[pad, s], DEF=d)
    how = env.pick('how', ['node', 'list', 'inner', 'list2'])
    if how == 'node':
        back = common.parse(n.toString())
        env.check(back is not None, 'the written text parses completely')
        common.iso(env, n, back.children[0])
        env.cover('done')
    elif how == 'inner':
        g = basenodes.Group(children=[n])
        back = common.parse(g.toString())
        env.check(back is not None, 'the written text parses completely')
        common.iso(env, g, back.children[0])
        env.cover('done')
    elif how == 'list':
        check_back(env, [n, basenodes.Group(children=[n] if d else [])])
    else:
        check_back(env, [basenodes.Group(children=[n, basenodes.Group()]), basenodes.Group()])


def empty(env):
    check_back(env, [])


def harnesses(tier):
    deep = tier != 'quick'
    hs = []

    def add(name, fn, bounds):
        hs.append(dict(name=name, fn=fn, covers=['done'], bounds=bounds))
    for n in ([1, 2, 3] if not deep else [1, 2, 3, 4, 5]):
        add('def%d' % n, one_def(n), 'one named node, any identifier of %d characters, five arrangements' % n)
    add('two_defs', two_defs, 'two named nodes in any arrangement over three slots')
    ks = ['Group', 'Shape', 'use', 'info', 'Transform']
    add('tree2', tree(2, ks + ['Switch', 'LOD']), 'every tree of two nodes below a root')
    add('tree3', tree(3, ks[:3] if not deep else ks), 'every tree of three nodes below a root')
    if deep:
        add('tree4', tree(4, ['Group', 'use', 'info']), 'every tree of four nodes below a root')
    add('unnamed_shared', unnamed_shared, 'one unnamed node used twice')
    add('sfnodes', sfnodes, 'every combination of appearance, texture, material and geometry')
    add('routes', routes, 'up to three routes between three nodes, named or not')
    add('same_type_routes', same_type_routes, 'up to four routes between four unnamed nodes of one type')
    add('two_protos', two_protos, 'two prototypes with any names of up to three characters')
    add('nested', nested(deep), 'prototypes in the bodies of two others, one in the body of a third, and one beside them; any names of one letter (quick: g to z), equal or not')
    add('protos', protos, 'one prototype, any names of two/one characters, two instances')
    add('across', across, 'a node of any one-letter name in the bodies of two prototypes, an instance and the scene in every combination')
    add('ismaps', ismaps, 'up to two IS mappings')
    add('extern', extern, 'one external prototype, up to two URLs')
    add('scripts', scripts, 'one Script with a field and two events')
    add('script_values', script_values, 'one Script with changed fields')
    add('script_is', script_is, 'one Script with any combination of IS mappings in a prototype')
    add('script_nodes', script_nodes, 'a Script that refers to nodes before or after it, in a prototype body or made by hand; default nodes of prototypes; any three names of one letter')
    hs[-1]['covers'] = ['after', 'before', 'body', 'default', 'made']
    add('big', big, 'nodes longer than the end-comment threshold')
    add('empty', empty, 'the empty scene')
    return hs
