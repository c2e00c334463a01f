"""C10: a copied graph is equal, equally shared, and independent."""
from . import common

PRELOAD = common.VRML
setup = common.warm
OUTSIDE = 'graphs of more nodes than stated; copying prototypes themselves (shareProtos=0, which the library does not offer); attributes of a node that are not fields'
ASSUMPTIONS = ['values of fields are compared exactly']

TYPES = ['SFFloat', 'SFTime', 'SFInt32', 'SFBool', 'SFString', 'MFString', 'SFVec3f', 'SFVec2d', 'SFRotation', 'SFColor', 'MFFloat', 'MFInt32', 'MFVec3f', 'MFColor',
         'SFImage', 'SFUInt32', 'MFUInt32', 'MFTime', 'MFVec2f', 'SFVec4f', 'MFRotation', 'SFArray', 'SFArray32', 'MFVec4d', 'MFFloat32']
COMP = {'SFVec3f': 3, 'SFVec2d': 2, 'SFRotation': 4, 'SFColor': 3, 'SFVec4f': 4}
ROWS = {'MFVec3f': 3, 'MFColor': 3, 'MFVec2f': 2, 'MFRotation': 4, 'MFVec4d': 4}


def value(env, ft, name):
    if ft in ('SFInt32', 'SFUInt32'):
        return env.int(name, 0, 255)
    if ft in ('MFInt32', 'MFUInt32', 'SFImage'):
        return [env.int(name, 0, 255), 7]
    if ft == 'SFBool':
        return env.bool(name)
    if ft == 'SFString':
        return env.text(name, 2)
    if ft == 'MFString':
        return [env.text(name, 1), 'x']
    if ft in ('SFFloat', 'SFTime'):
        return env.decimal(name, 2, 1)
    v = env.real(name, 0, 1)
    if ft in COMP:
        return [v] + [.5] * (COMP[ft] - 1)
    if ft in ROWS:
        return [[v] + [.5] * (ROWS[ft] - 1), [.25] * ROWS[ft]]
    return [v, .25]


def apart(env, a, b):
    """No node and no list or array of one graph belongs to the other."""
    mine = {}
    for n in common.walk(a):
        mine[id(n)] = n
        for k, v in n.__dict__.items():
            if isinstance(v, (list, dict)) or hasattr(v, 'ravel'):
                mine[id(v)] = v
    for n in common.walk(b):
        env.check(id(n) not in mine, 'no node belongs to both graphs')
        for k, v in n.__dict__.items():
            if isinstance(v, (list, dict)) or hasattr(v, 'ravel'):
                env.check(id(v) not in mine, 'no list or array belongs to both graphs')


def log():
    from pydispatch import dispatcher
    got = []

    def receive(signal, sender):
        got.append((signal, sender))
    dispatcher.connect(receive, sender=dispatcher.Any, signal=dispatcher.Any, weak=False)
    return got


def values(ft):
    """A node with a field of this type: every way to change one of the two."""
    def fn(env):
        from vrml import node, field
        v = value(env, ft, 'v')
        d = env.flag('default')
        fs = [field.newField('f', ft, 1, v) if d else field.newField('f', ft, 1), field.newField('g', ft, 0)]
        P = node.prototype('P', fs) if env.flag('proto') else node.prototype('P', fs, baseClasses=(node.Node,))
        n = P(DEF='N')
        if not d:
            n.f = v
        read = env.flag('read')
        if read:
            n.f, n.g
        before = common.snap([n])
        got = log()
        m = n.copy()
        env.check(not [x for x in got if x[1] is n], 'copying sends nothing from the original')
        env.check(type(m) is type(n) and m is not n, 'a new node of the type')
        env.check(m.DEF == 'N', 'the name')
        common.unchanged(env, [n], before, 'original')
        env.check(('f' in m.__dict__) == ('f' in n.__dict__) and ('g' in m.__dict__) == ('g' in n.__dict__), 'the same fields are set')
        was = common.frozen(n.f), common.frozen(n.g)
        common.equal(env, common.frozen(m.f), was[0], 'the value')
        common.equal(env, common.frozen(m.g), was[1], 'the other value')
        x, y = (n, m) if env.flag('side') else (m, n)
        how = env.pick('how', ['set', 'inside', 'del', 'other'])
        w = value(env, ft, 'w')
        if how == 'set':
            x.f = w
        elif how == 'other':
            x.g = w
        elif how == 'del':
            if 'f' not in x.__dict__:
                env.stop()
            del x.f
        else:
            cur = x.f
            if isinstance(cur, list):
                cur[0] = env.text('w2', 1)
                cur.append('more')
            elif hasattr(cur, 'ravel'):
                if len(getattr(cur, 'shape', ())) == 2:
                    cur[0][0] = 0.125 if ft[2] != 'I' else 3
                else:
                    cur[0] = 0.125 if ft[2] not in 'IU' else 3
            else:
                env.stop()
        common.equal(env, common.frozen(y.f), was[0], 'not changed through the other')
        common.equal(env, common.frozen(y.g), was[1], 'other field not changed through the other')
        env.cover('done')
    return fn


def graph(size, cyclic):
    """Any graph: every node's children are earlier nodes (or any, if cyclic)."""
    def fn(env):
        from vrml.vrml97 import basenodes
        ns = []
        for i in range(size):
            k = env.pick('k%d' % i, ['Group', 'info', 'shape', 'Transform']) if i else env.pick('k0', ['Group', 'info'])
            if k == 'Group':
                n = basenodes.Group(DEF='N%d' % i if env.flag('d%d' % i) else '')
            elif k == 'Transform':
                n = basenodes.Transform(translation=[env.real('t%d' % i, -5, 5), 0, 1])
            elif k == 'info':
                n = basenodes.WorldInfo(title=env.text('s%d' % i, 1), info=['a', 'b'])
            else:
                n = basenodes.Shape(appearance=basenodes.Appearance(), geometry=basenodes.Box(size=[1, env.real('b%d' % i, 1, 2), 3]))
                for o in ns:
                    if type(o) is basenodes.Shape and env.flag('same%d' % i):
                        n.appearance = o.appearance
            ns.append(n)
        for i, n in enumerate(ns):
            if type(n) not in (basenodes.Group, basenodes.Transform):
                continue
            cand = ns if cyclic else ns[:i]
            for j in range(min(2, len(cand))):
                t = env.choice('c%d.%d' % (i, j), len(cand) + 1)
                if t < len(cand):
                    n.children.append(cand[t])
        top = ns[-1]
        whole = list(common.walk(top))
        before = common.snap(whole)
        got = log()
        new = top.copy()
        mine = {id(x): x for x in whole}
        env.check(not [x for x in got if id(x[1]) in mine and x[0] not in ('added', 'removed')], 'copying sends nothing from the original')
        common.unchanged(env, whole, before, 'original')
        common.iso(env, top, new)
        apart(env, top, new)
        copies = list(common.walk(new))
        # change one of the graphs, the other stays
        a, b = (whole, copies) if env.flag('side') else (copies, whole)
        keep = common.snap(b)
        n = a[0]
        if hasattr(type(n), 'children'):
            what = env.pick('what', ['append', 'assign', 'clear', 'del'])
            seen = []

            def watcher(signal, sender, value=None):
                if isinstance(signal, tuple):
                    seen.append(sender)
            type(n).children.watch(n, watcher)
            if what == 'append':
                n.children.append(basenodes.Group())
            elif what == 'assign':
                n.children = [basenodes.Group()]
            elif what == 'clear':
                count = len(n.children)
                n.children[:] = []
                env.check(len(seen) == count, 'every child removed is reported')
            else:
                count = 1
                n.children
                del n.children
            if what != 'clear':
                env.check(len(seen) >= 1, 'the change is reported')
            env.check(not [x for x in seen if x is not n], 'by the changed node')
        elif type(n) is basenodes.Shape:
            n.appearance = None
            n.geometry.size = [7, 7, 7]
        else:
            n.title = 'other'
            n.info.append('c')
        common.unchanged(env, b, keep, 'the other graph')
        env.cover('done')
    return fn


def scene(env):
    """A scene with names, routes and nodes outside its children."""
    from vrml.vrml97 import basenodes, scenegraph
    from vrml import node
    t = basenodes.TimeSensor(DEF='T')
    p = basenodes.Transform(DEF=env.pick('dp', ['', 'P']), translation=[env.real('x', -9, 9), 0, 0])
    q = basenodes.Transform(DEF='Q')
    where = env.pick('where', ['root', 'deep', 'both'])
    kids = [t, q]
    if where != 'deep':
        kids.append(p)
    if where != 'root':
        q.children.append(basenodes.Group(children=[p]))
    sg = scenegraph.SceneGraph(children=kids, baseURI='u')
    for n in (t, p, q):
        if n.DEF:
            sg.regDefName(n.DEF, n)
    loose = env.flag('loose')
    if loose:
        sg.regDefName('L', basenodes.WorldInfo(title='loose'))
    k = env.choice('nr', 3)
    rs = [(p, 'translation', q, 'scale'), (t, 'startTime', t, 'stopTime')]
    for r in rs[:k]:
        sg.addRoute(r)
    whole = list(common.walk(sg))
    before = common.snap(whole)
    defs = dict(sg.defNames)
    new = sg.copy()
    common.unchanged(env, whole, before, 'original')
    env.check(sg.defNames == defs, 'names of the original')
    common.same_scene(env, sg, new)
    env.check(new.baseURI == 'u', 'base URI')
    env.check(sorted(new.defNames) == sorted(defs), 'names')
    for name in defs:
        x = new.getDEF(name)
        env.check(x is not None and x not in whole and x is not defs[name], 'a node of the copy under each name')
        env.check(type(x) is type(defs[name]) and x.DEF == name, 'the same kind of node')
    if loose:
        env.check(new.getDEF('L').title == 'loose', 'values of a node outside the children')
        new.getDEF('L').title = 'changed'
        env.check(defs['L'].title == 'loose', 'independent')
    apart(env, sg, new)
    for n in common.walk(new):
        if n is not new and type(n).__name__ != 'ROUTE':
            env.check(node.Node.rootSceneGraph.fget(n) is new, 'nodes of the copy refer to the copy')
    for n in whole[1:]:
        if type(n).__name__ != 'ROUTE':
            env.check(node.Node.rootSceneGraph.fget(n) is sg, 'nodes of the original refer to it')
    # routes work within each scene
    a, b = (sg, new) if env.flag('side') else (new, sg)
    keep = common.snap(list(common.walk(b)))
    others = list(common.walk(b))
    P = a.children[2] if where != 'deep' else a.children[1].children[0].children[0]
    y = env.real('y', 1, 2)
    P.translation = [y, 1, 1]
    Q = a.getDEF('Q')
    env.check(Q is a.children[1], 'the name is known')
    if k:
        env.check(Q.scale[0] == y, 'the route of this scene delivers')
    a.children[0].startTime = 4
    if k == 2:
        env.check(a.children[0].stopTime == 4, 'the self route delivers')
    a.regDefName('Z', P)
    a.children.append(basenodes.Group())
    if k:
        del a.routes[0]
    a.addProto(node.prototype('New', []))
    common.unchanged(env, others, keep, 'the other scene')
    env.check(b.getProto('New') is None, 'prototypes of the other scene')
    env.check(b.getDEF('Z') is None, 'names of the other scene')
    env.cover('done')


def instances(env):
    """Prototype instances: the copy has a body wired to its own fields."""
    from vrml.vrml97 import basenodes, scenegraph
    from vrml import node, field
    bodynode = basenodes.Transform()
    mat = basenodes.WorldInfo(title='body')
    bodynode.children.append(mat)
    body = scenegraph.SceneGraph(children=[bodynode])
    P = node.prototype('P', [field.newField('pos', 'SFVec3f', 1, [1, 2, 3]), field.newField('t', 'SFString', 1, 'd'), field.newField('kid', 'SFNode', 1)], body)
    node.ismaps(P)['pos'] = [(bodynode, 'translation')]
    node.ismaps(P)['t'] = [(mat, 'title')]
    n = P()
    v = env.real('v', -9, 9)
    if env.flag('set'):
        n.pos = [v, 0, 0]
    inner = env.flag('kid')
    if inner:
        n.kid = n if env.flag('self') else P(t='inner')
    before = common.snap([n])
    m = n.copy()
    common.unchanged(env, [n], before, 'original')
    env.check(type(m) is P and m is not n, 'an instance')
    if inner:
        env.check((m.kid is m) == (n.kid is n), 'the same sharing')
        env.check(m.kid is not n.kid, 'its own node')
    for x in (n, m):
        b = node.getSceneGraph(x)
        env.check(b.children[0].translation[0] == x.pos[0], 'body shows the value')
        env.check(len(b.children) == 1 and len(b.children[0].children) == 1, 'the same body')
    bn, bm = node.getSceneGraph(n), node.getSceneGraph(m)
    env.check(bn is not bm and bn is not body and bm is not body, 'own bodies')
    env.check(bn.children[0] is not bm.children[0], 'own body nodes')
    env.check(m.pos[0] == n.pos[0], 'equal value')
    x, y = (n, m) if env.flag('side') else (m, n)
    w = env.real('w', -9, 9)
    old = y.pos[0]
    x.pos = [w, 1, 1]
    x.t = 'changed'
    env.check(node.getSceneGraph(x).children[0].translation[0] == w, 'the body follows the field')
    env.check(node.getSceneGraph(x).children[0].children[0].title == 'changed', 'the other mapping')
    env.check(y.pos[0] == old, 'not the other instance')
    env.check(node.getSceneGraph(y).children[0].translation[0] == old, 'nor its body')
    env.check(node.getSceneGraph(y).children[0].children[0].title == 'd', 'nor its other mapping')
    env.check(mat.title == 'body', 'nor the template')
    env.cover('done')


def scripts(env):
    from vrml.vrml97 import script, basenodes
    from vrml import field, protofunctions
    s = env.text('s', 1)
    n = script.Script([field.newField('f', 'SFString', 1, 'd'), field.newField('n', 'SFNode', 1), field.newEvent('e', 'SFTime', 1)], url=['a', s], DEF='S')
    if env.flag('set'):
        n.f = s
    g = basenodes.Group(children=[n])
    if env.flag('cycle'):
        n.n = g
    h = g.copy()
    m = h.children[0]
    env.check(m is not n and type(m) is type(n), 'a script of the same interface')
    common.iso(env, g, h)
    m.url.append('z')
    m.f = 'q'
    env.check(len(n.url) == 2, 'own list')
    env.check(env.either(n.f == s, n.f == 'd'), 'own value')
    env.cover('done')


def parsed(env):
    """Copying a scene read from text; the copy is written as the same text."""
    which = env.pick('which', ['proto', 'nested', 'extern', 'routes'])
    v = env.decimal('v', 1, 1)
    head = '#VRML V2.0 utf8\n'
    text = head + {
        'proto': 'PROTO P [ exposedField SFFloat s 0.5 field MFNode k [] ] { Group { children IS k } Sphere { radius IS s } }\nDEF A P { s 2 }\nP { k [ USE A ] }\n',
        'nested': 'PROTO Q [ exposedField SFVec3f t 1 2 3 ] { PROTO R [ field SFVec3f u 0 0 0 ] { Transform { translation IS u } } R { u IS t } }\nDEF A Q { t 2 0 1 }\nGroup { children [ USE A Q { } ] }\n',
        'extern': 'EXTERNPROTO E [ exposedField SFFloat s ] "e.wrl"\nDEF A E { s 2 }\nE { }\n',
        'routes': 'DEF A Material { transparency 0.5 }\nDEF B Material { }\nROUTE A.transparency TO B.shininess\n'}[which]
    sg = common.parse(text)
    first = sg.toString()
    new = sg.copy()
    env.check(sg.toString() == first, 'original unchanged')
    env.check(new.toString() == first, 'the copy is written alike')
    common.same_scene(env, sg, new)
    a, b = (sg, new) if env.flag('side') else (new, sg)
    from vrml import node
    for n in ('P', 'Q'):
        body = sg.getProto(n) and node.getSceneGraph(sg.getProto(n))
        if body:
            twin = body.copy()
            for name in ('P', 'Q', 'R', 'Group', 'Nothing'):
                env.check(twin.getProto(name) is body.getProto(name), 'the copy of a body knows the same prototypes')
    A = a.getDEF('A')
    if which == 'nested':
        A.t = [v, 0, 0]
    elif which == 'routes':
        A.transparency = v
        env.check(a.getDEF('B').shininess == v, 'routed')
    else:
        A.s = v
    env.check(b.toString() == first, 'the other scene unchanged')
    env.cover('done')


def harnesses(tier):
    deep = tier != 'quick'
    hs = []

    def add(name, fn, bounds):
        hs.append(dict(name=name, fn=fn, covers=['done'], bounds=bounds))
    for ft in TYPES:
        add('value_' + ft, values(ft), 'any value of %s (one component or character arbitrary), every way to change it in either node' % ft)
    for n in [1, 2, 3] if not deep else [1, 2, 3, 4]:
        add('graph%d' % n, graph(n, False), 'every graph of %d nodes in which nodes hold up to two earlier ones' % n)
    for n in [1, 2] if not deep else [1, 2, 3]:
        add('cyclic%d' % n, graph(n, True), 'every graph, also cyclic, of %d nodes holding up to two nodes' % n)
    add('scene', scene, 'scenes of up to four named or unnamed nodes with up to two routes')
    add('instances', instances, 'instances of a prototype with two mapped fields')
    add('scripts', scripts, 'a Script in a Group, perhaps referring back to it')
    add('parsed', parsed, 'four scenes read from text')
    return hs
