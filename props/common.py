"""Helpers shared by the harnesses (run natively and under the executor)."""

VRML = ['vrml.vrml97.basenodes', 'vrml.vrml97.linearise', 'vrml.vrml97.parser', 'vrml.vrml97.parseprocessor', 'vrml.vrml97.basenamespaces', 'vrml.vrml97.scenegraph', 'vrml.route', 'vrml.event']


def parse(text):
    """Parse a VRML97 document; the scenegraph, or None when rejected/partial."""
    from vrml.vrml97 import parser
    success, result, nxt = get_parser().parse(text)
    if not success or nxt != len(text):
        return None
    for r in result:
        if r is not None:
            return r
    return None


_P = []


def get_parser():
    from vrml.vrml97 import parser
    if not _P:
        _P.append(parser.buildParser())
    return _P[0]


def warm():
    """Build the parser tables once, before exploration forks."""
    parse('#VRML V2.0 utf8\nGroup { children [ WorldInfo { title "a" info ["a" "b"] } ] }\n')
    p = get_parser()
    for prod in ('vrmlFile',):
        p.buildTagger(prod, None)


def fields_of(cls):
    """name -> field object, most derived first, public fields only."""
    from vrml import field
    found = {}
    for c in cls.__mro__:
        for k, v in c.__dict__.items():
            if isinstance(v, field.Field) and v.name not in found:
                found[v.name] = v
    return [(k, found[k]) for k in sorted(found) if k[:1] != ' ' and k != 'externalURL']


def is_null(v):
    from vrml import node
    return v is None or v is node.NULL or isinstance(v, node.NullNode)


def same_value(env, a, b, label):
    """Non-node values."""
    if getattr(a, 'shape', ()) or getattr(b, 'shape', ()):
        env.check(getattr(a, 'shape', None) == getattr(b, 'shape', None), label + ': same shape')
        a, b = list(a.ravel()), list(b.ravel())
    if isinstance(a, (list, tuple)):
        env.check(isinstance(b, (list, tuple)), label + ': is a list')
        env.check(len(a) == len(b), label + ': same length')
        for x, y in zip(a, b):
            same_value(env, x, y, label)
        return
    env.check(a == b, label + ': same value')


def iso(env, a, b, fwd=None, bwd=None, path='root'):
    """a and b are the same graph: types, names, values, sharing."""
    from vrml import node
    if fwd is None:
        fwd, bwd = {}, {}
    if is_null(a) or is_null(b):
        env.check(is_null(a) and is_null(b), path + ': NULL on both sides')
        return
    env.check(isinstance(b, node.Node), path + ': is a node')
    if id(a) in fwd or id(b) in bwd:
        env.check(fwd.get(id(a)) is b and bwd.get(id(b)) is a, path + ': the same sharing')
        return
    fwd[id(a)] = b
    bwd[id(b)] = a
    env.check(proto_name(a) == proto_name(b), path + ': same node type')
    env.check(node.Node.DEF.__get__(a, type(a)) == node.Node.DEF.__get__(b, type(b)), path + ': same DEF name')
    fa, fb = fields_of(type(a)), fields_of(type(b))
    env.check([k for k, v in fa] == [k for k, v in fb], path + ': same fields')
    for k, f in fa:
        va = f.__get__(a, type(a))
        g = dict(fb)[k]
        vb = g.__get__(b, type(b))
        p = path + '.' + k
        if getattr(f, 'nodes', 0):
            if isinstance(va, list):
                env.check(isinstance(vb, list), p + ': is a list')
                env.check(len(va) == len(vb), p + ': same number of nodes')
                for i, (x, y) in enumerate(zip(va, vb)):
                    iso(env, x, y, fwd, bwd, '%s[%d]' % (p, i))
            else:
                iso(env, va, vb, fwd, bwd, p)
        else:
            same_value(env, va, vb, p)
    return fwd


def proto_name(n):
    return type(n).PROTO or type(n).__name__


def same_scene(env, a, b, protos=True):
    """Two scenes are the same graph, with the same names, routes and prototypes."""
    from vrml import node, field
    fwd, bwd = {}, {}
    env.check(len(a.children) == len(b.children), 'same number of root nodes')
    for i, (x, y) in enumerate(zip(a.children, b.children)):
        iso(env, x, y, fwd, bwd, 'root[%d]' % i)
    env.check(len(a.routes) == len(b.routes), 'same number of routes')
    for r, s in zip(a.routes, b.routes):
        env.check(fwd.get(id(r.source)) is s.source, 'same route source')
        env.check(fwd.get(id(r.destination)) is s.destination, 'same route destination')
        env.check(env.both(r.sourceField == s.sourceField, r.destinationField == s.destinationField), 'same route fields')
    env.check(sorted(a.defNames) == sorted(b.defNames), 'same names')
    for k in a.defNames:
        iso(env, a.defNames[k], b.defNames[k], fwd, bwd, 'DEF ' + k)
    if not protos:
        return
    mine = lambda sg: sorted(k for k, v in sg.protoTypes.items() if isinstance(v, type) and issubclass(v, node.PrototypedNode))
    env.check(mine(a) == mine(b), 'same prototypes')
    for k in mine(a):
        same_proto(env, a.getProto(k), b.getProto(k), protos == 'deep')


def same_proto(env, p, q, deep=False):
    from vrml import node, field
    decl = lambda c: {v.name: v for v in c.__dict__.values() if isinstance(v, (field.Field, field.Event)) and v.name[:1] != ' '}
    dp, dq = decl(p), decl(q)
    env.check(sorted(dp) == sorted(dq), 'same interface')
    for k in dp:
        env.check(type(dp[k]) is type(dq[k]), 'same type of interface field')
        if isinstance(dp[k], field.Event):
            env.check(bool(dp[k].direction) == bool(dq[k].direction), 'same direction')
        else:
            env.check(bool(dp[k].exposure) == bool(dq[k].exposure), 'same exposure')
            x, y = dp[k].coerce(dp[k].getDefault()), dq[k].coerce(dq[k].getDefault())
            if getattr(dp[k], 'nodes', 0):
                x, y = (x, y) if isinstance(x, list) else ([x], [y])
                env.check(len(x) == len(y), 'same default nodes')
                for i, j in zip(x, y):
                    iso(env, i, j)
            else:
                same_value(env, x, y, 'default of ' + k)
    env.check(list(node.getExternalURL(p)) == list(node.getExternalURL(q)), 'same URLs')
    sp, sq = node.getSceneGraph(p), node.getSceneGraph(q)
    env.check((not sp) == (not sq), 'both with or without body')
    if sp:
        same_scene(env, sp, sq, protos='deep' if deep else False)
        names = {}
        for i, n in enumerate(walk(sp)):
            names[id(n)] = i
        names2 = {}
        for i, n in enumerate(walk(sq)):
            names2[id(n)] = i
        mp, mq = node.ismaps(p), node.ismaps(q)
        env.check(sorted(mp) == sorted(mq), 'the same interface fields are mapped')
        for k in mp:
            env.check([(names[id(n)], f) for n, f in mp[k]] == [(names2[id(n)], f) for n, f in mq[k]], 'to the same fields')


def same_bodies(env, x, y, path='root'):
    """Two nodes look the same, through the bodies of instances of prototypes."""
    from vrml import node
    if is_null(x) or is_null(y):
        env.check(is_null(x) and is_null(y), path + ': NULL on both sides')
        return
    env.check(proto_name(x) == proto_name(y), path + ': same node type')
    env.check(isinstance(x, node.PrototypedNode) == isinstance(y, node.PrototypedNode), path + ': both of a prototype or not')
    for k, f in fields_of(type(x)):
        va, vb = f.__get__(x, type(x)), dict(fields_of(type(y)))[k].__get__(y, type(y))
        if not getattr(f, 'nodes', 0):
            same_value(env, va, vb, path + '.' + k)
            continue
        va, vb = (va, vb) if isinstance(va, list) else ([va], [vb])
        env.check(len(va) == len(vb), path + '.' + k + ': same number of nodes')
        for i, (p, q) in enumerate(zip(va, vb)):
            same_bodies(env, p, q, '%s.%s[%d]' % (path, k, i))
    if isinstance(x, node.PrototypedNode):
        p, q = node.PrototypedNode.scenegraph.fget(x), node.PrototypedNode.scenegraph.fget(y)
        env.check(len(p.children) == len(q.children), path + ': bodies of the same size')
        for i, (c, d) in enumerate(zip(p.children, q.children)):
            same_bodies(env, c, d, '%s{%d}' % (path, i))


def walk(n, seen=None):
    """All nodes below n, each once, in order."""
    seen = {} if seen is None else seen
    if is_null(n) or id(n) in seen:
        return
    seen[id(n)] = n
    yield n
    for k, f in fields_of(type(n)):
        if getattr(f, 'nodes', 0):
            v = f.__get__(n, type(n))
            for x in (list(v) if isinstance(v, list) else [v]):
                for y in walk(x, seen):
                    yield y


def frozen(v):
    """A stored value as plain data, nodes by identity."""
    if hasattr(v, 'ravel'):
        return ['array', getattr(v, 'shape', ())] + list(v.ravel())
    if isinstance(v, (list, tuple)):
        return [len(v)] + [frozen(x) for x in v]
    return v


def snap(nodes):
    """What every node holds now, without creating defaults."""
    out = []
    for n in nodes:
        for k in sorted(n.__dict__):
            out.append((n, k, n.__dict__[k], frozen(n.__dict__[k])))
    return out


def equal(env, a, b, label):
    if isinstance(a, list) and isinstance(b, list):
        env.check(len(a) == len(b), label)
        for x, y in zip(a, b):
            equal(env, x, y, label)
    elif isinstance(a, (list, tuple, dict)) or hasattr(a, '__dict__') and not hasattr(a, 'chars'):
        env.check(a is b or a == b, label)
    else:
        env.check(a == b, label)


def unchanged(env, nodes, before, label):
    """The nodes hold what they held, in the same objects."""
    now = snap(nodes)
    env.check(len(now) == len(before), label + ': the same fields are set')
    for (n, k, o, v), (m, j, p, w) in zip(now, before):
        env.check(n is m and k == j, label + ': the same fields are set')
        env.check(o is p or not hasattr(o, '__dict__'), label + ': the same objects')
        equal(env, v, w, label)
