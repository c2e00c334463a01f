"""C13: routes deliver every change once, in order, and always stop."""
from . import common
from .c10 import value, TYPES

PRELOAD = common.VRML
setup = common.warm
OUTSIDE = 'graphs of more fields and routes than stated; sets made from within a receiver of an event; several threads; changing the fields of a ROUTE after it was made'
ASSUMPTIONS = ['a scene holding the routes stays alive']


def recorder(log, tag):
    def receive(signal, sender, value=None, event=None):
        # a deletion carries no value; otherwise the value is in place by now
        log.append((tag, signal[0], value, event, value if signal[0] == 'del' else sender.__dict__[signal[1].name]))
    return receive


def watch(obj, fld, receive):
    from pydispatch import dispatcher
    for s in ('set', 'del', 'route'):
        dispatcher.connect(receive, sender=obj, signal=(s, fld), weak=False)


def graph(nfields, nroutes, form, changes=1):
    """Any routes between any fields, then changes of one field."""
    def fn(env):
        from vrml import node, field, protofunctions
        from vrml.vrml97 import scenegraph
        fs = [field.newField(n, 'SFFloat', 1, -1.0) for n in 'xy']
        if form == 'event':
            fs[1] = field.newEvent('y', 'SFFloat', 1)
        P = node.prototype('P', fs, baseClasses=(node.Node,))
        ns = [P() for i in range((nfields + 1) // 2)]
        at = [(ns[i // 2], 'xy'[i % 2]) for i in range(nfields)]
        for i in range(nfields):
            if form == 'event' and i % 2:
                protofunctions.getField(P, 'y').__set__(ns[i // 2], -1.0, notify=0)
        sg = scenegraph.SceneGraph(children=ns)
        edges = []
        for r in range(nroutes):
            k = env.choice('r%d' % r, nfields * nfields)
            if edges and k < edges[-1][0] * nfields + edges[-1][1]:
                env.stop()          # the order of routes only matters for the order of delivery
            s, d = k // nfields, k % nfields
            edges.append((s, d))
            sg.addRoute(at[s][0], at[s][1], at[d][0], at[d][1])
        log = []
        for i, (n, f) in enumerate(at):
            watch(n, protofunctions.getField(n, f), recorder(log, i))
        cur = [-1.0] * nfields
        for c in range(changes):
            o = env.choice('o%d' % c, nfields)
            v = env.real('v%d' % c, 0, 9)
            before = len(log)
            how = env.pick('how%d' % c, ['set', 'silent', 'del']) if form == 'field' and changes > 1 else 'set'
            if how == 'set':
                setattr(at[o][0], at[o][1], v)
            elif how == 'silent':
                getattr(P, at[o][1]).fset(at[o][0], v, notify=0)
            else:
                if at[o][1] not in at[o][0].__dict__:
                    env.stop()
                delattr(at[o][0], at[o][1])
                v = -1.0
            cur[o] = v
            new = log[before:]
            # what must have happened
            reach, todo = [], [o] if how != 'silent' else []
            while todo:
                a = todo.pop()
                for s, d in edges:
                    if s == a and d not in reach:
                        reach.append(d)
                        todo.append(d)
            for d in reach:
                cur[d] = v
            for i in range(nfields):
                env.check(getattr(at[i][0], at[i][1]) == cur[i], 'field %s' % ('reached' if i in reach else 'not reached'))
            got = {}
            for i, sig, val, ev, there in new:
                if sig == 'route':
                    got.setdefault(i, []).append(ev)
                    env.check(val == v, 'the event carries the value')
                    env.check(there == v, 'which is in place')
            out = len([1 for s, d in edges if s == o and d != o])
            for i in range(nfields):
                g = got.get(i, [])
                if i == o:
                    env.check(not g, 'the changed field itself receives nothing')
                elif i not in reach:
                    env.check(not g, 'a field not reached receives nothing')
                else:
                    env.check(1 <= len(g) <= out, 'one event at most for each route leaving the changed field')
                    env.check(len({id(e) for e in g}) == len(g), 'no event twice')
            # along a single way there is a single delivery
            if all(len([1 for s, d in edges if d == i]) == 1 for i in reach if i != o):
                for i in reach:
                    env.check(i == o or len(got[i]) == 1, 'one route in, one event')
            env.check(len([1 for i, sig, val, ev, there in new if i == o]) == (1 if how != 'silent' else 0), 'one notice of the change itself')
        env.cover('done')
    return fn


def types(ft):
    """A value of every type, routed along field names with and without affixes."""
    def fn(env):
        from vrml import node, field
        from vrml.vrml97 import scenegraph
        P = node.prototype('P', [field.newField('f', ft, 1), field.newField('g', ft, 1), field.newField(' h', ft, 1)], baseClasses=(node.Node,))
        a, b, c = P(DEF='A'), P(DEF='B'), P(DEF='C')
        sg = scenegraph.SceneGraph(children=[a, b, c])
        for n in (a, b, c):
            sg.regDefName(n.DEF, n)
        form = env.pick('form', ['nodes', 'names', 'tuple', 'route', 'init', 'args'])
        sf, df = env.pick('sf', ['f', 'f_changed', 'set_f']), env.pick('df', ['g', 'set_g', 'g_changed'])
        if form == 'nodes':
            sg.addRoute(a, sf, b, df)
        elif form == 'names':
            sg.addRoute('A', sf, 'B', df)
        elif form == 'tuple':
            sg.addRoute(('A', sf, b, df))
        elif form == 'route':
            from vrml import route
            sg.addRoute(route.ROUTE(source=a, sourceField=sf, destination=b, destinationField=df))
        elif form == 'args':
            from vrml import route
            sg.routes.append(route.ROUTE(a, sf, b, df))
        else:
            sg = scenegraph.SceneGraph(children=[a, b, c], routes=[(a, sf, b, df)])
        sg.addRoute(b, 'g', c, 'f')
        v = value(env, ft, 'v')
        before = common.frozen([a.g, b.f, c.g])
        a.f = v
        common.equal(env, common.frozen(b.g), common.frozen(a.f), 'the value arrives')
        common.equal(env, common.frozen(c.f), common.frozen(a.f), 'and goes on')
        common.equal(env, common.frozen([a.g, b.f, c.g]), before, 'no other field changes')
        w = value(env, ft, 'w')
        had = common.frozen(a.f)
        b.g = w
        common.equal(env, common.frozen(c.f), common.frozen(b.g), 'a later change arrives')
        common.equal(env, common.frozen(a.f), had, 'routes have one direction')
        del sg.routes[0]
        was = common.frozen(b.g)
        a.f = value(env, ft, 'z')
        common.equal(env, common.frozen(b.g), was, 'a removed route delivers nothing')
        env.cover('done')
    return fn


def nodes(env):
    """Node and node list fields."""
    from vrml.vrml97 import basenodes, scenegraph
    a, b, s, t = basenodes.Group(), basenodes.Transform(), basenodes.Shape(), basenodes.Shape()
    sg = scenegraph.SceneGraph(children=[a, b, s, t])
    sg.addRoute(a, 'children', b, 'children')
    sg.addRoute(s, 'appearance', t, 'set_appearance')
    seen = []
    r = recorder(seen, 0)
    watch(b, basenodes.Transform.children, r)
    for i in range(2):
        n = basenodes.WorldInfo()
        before = len(seen)
        op = env.pick('op%d' % i, ['append', 'assign', 'pop', 'item', 'clear', 'node', 'null'])
        if op == 'append':
            a.children.append(n)
        elif op == 'assign':
            a.children = [n, n]
        elif op == 'pop':
            if not a.children:
                env.stop()
            a.children.pop()
        elif op == 'item':
            if not a.children:
                env.stop()
            a.children[0] = n
        elif op == 'clear':
            if 'children' not in a.__dict__:
                env.stop()
            del a.children
        elif op == 'node':
            s.appearance = basenodes.Appearance()
        else:
            s.appearance = None
        env.check(len(a.children) == len(b.children), 'the same children')
        for x, y in zip(a.children, b.children):
            env.check(x is y, 'the same children')
        env.check(a.children is not b.children, 'two lists')
        env.check(t.appearance is s.appearance, 'the same node')
        routed = [x for x in seen[before:] if x[1] == 'route']
        # replacing an item is one child less and one more
        want = {'node': 0, 'null': 0, 'item': 2}.get(op, 1)
        env.check(len(routed) == want or op == 'item' and len(routed) == 1, 'one event for one change')
    env.cover('done')


def events(env):
    """Event fields, handlers, and fields between them."""
    from vrml import node, field
    from vrml.vrml97 import scenegraph
    calls = []

    class P(node.Node):
        PROTO = 'P'
        go = field.newEvent('go', 'SFTime', 0)
        out = field.newEvent('out', 'SFTime', 1)
        x = field.newField('x', 'SFTime', 1, 0.5)

        def on_go(self, value):
            calls.append((self, value))
    ns = [P(), P(), P()]
    sg = scenegraph.SceneGraph(children=ns)
    names = ['go', 'out', 'x']
    chain = [env.pick('c%d' % i, names) for i in range(3)]
    for i in range(2):
        sg.addRoute(ns[i], chain[i], ns[i + 1], chain[i + 1])
    if env.flag('cycle'):
        sg.addRoute(ns[2], chain[2], ns[0], chain[0])
    got = []

    def target(value):
        got.append(value)
    sg.addRoute(ns[0], chain[0], target)
    env.check(len([r for r in sg.routes if not hasattr(r, 'source')]) == 0, 'only routes among the routes')
    log = []
    for i in range(3):
        for f in names:
            watch(ns[i], getattr(P, f), recorder(log, (i, f)))
    for c in range(2):
        v = env.real('v%d' % c, 1, 9)
        o = env.choice('o%d' % c, 3) if c else 0
        start, calls[:], got[:] = len(log), [], []
        setattr(ns[o], chain[o], v)
        cyc = len(sg.routes) == 3
        reach = [i for i in range(3) if i >= o or cyc]
        for i in reach:
            env.check(getattr(ns[i], chain[i]) == v, 'the value arrives')
            env.check(len([1 for n, val in calls if n is ns[i]]) == (1 if chain[i] == 'go' else 0), 'handlers are called once')
            if i != o:
                g = [x for x in log[start:] if x[0] == (i, chain[i]) and x[1] == 'route']
                env.check(len(g) == 1, 'one event')
                env.check(g[0][2] == v, 'with the value')
        env.check(not [1 for n, val in calls if not any(n is ns[i] for i in reach)], 'others are not called')
        env.check(not [1 for x in log[start:] if x[0][0] not in reach or x[0][1] != chain[x[0][0]]], 'nothing else is told')
        for n, val in calls:
            env.check(val == v, 'with the value')
        env.check(len(got) == (1 if o == 0 else len(got)), 'the watching function is called')
    env.cover('done')


def refused(env):
    """A destination of another type refuses the value; the others get it."""
    from vrml import node, field
    from vrml.vrml97 import scenegraph
    P = node.prototype('P', [field.newField('f', 'SFFloat', 1, 1.0), field.newField('s', 'SFString', 1, 's'), field.newField('v', 'SFVec3f', 1), field.newField('n', 'SFNode', 1), field.newField('c', 'SFColor', 1),
                             field.newField('i', 'MFInt32', 1)], baseClasses=(node.Node,))
    a, b, c = P(), P(), P()
    sg = scenegraph.SceneGraph(children=[a, b, c])
    bad = env.pick('bad', ['n', 'c'])
    first = env.flag('first')
    if first:
        sg.addRoute(a, 's', b, bad)
        sg.addRoute(b, bad, c, bad)
    sg.addRoute(a, 's', c, 's')
    if not first:
        sg.addRoute(a, 's', b, bad)
        sg.addRoute(b, bad, c, bad)
    before = common.snap([b])
    log = []
    watch(b, getattr(P, bad), recorder(log, 0))
    old = common.frozen(getattr(b, bad)), common.frozen(getattr(c, bad))
    t = 'x' + env.text('t', 1, ranges=[(97, 102)])
    a.s = t
    env.check(c.s == t, 'the other destination gets it')
    common.equal(env, [common.frozen(getattr(b, bad)), common.frozen(getattr(c, bad))], list(old), 'refused values change nothing')
    env.check(not log, 'and are not told of')
    env.cover('done')


def dangling(env):
    """A route to a name its destination does not have delivers nothing; the others deliver."""
    from vrml import node, field
    from vrml.vrml97 import scenegraph
    P = node.prototype('P', [field.newField('f', 'SFFloat', 1, 1.0), field.newField('g', 'SFFloat', 1, 2.0)], baseClasses=(node.Node,))
    a, b, c = P(), P(), P()
    bad = env.pick('bad', ['nope', 'f_', 'set_nope', 'copy', 'set_', 'f_changedx', '__class__'])
    which = env.pick('which', ['destination', 'source', 'both'])
    s = bad if which != 'destination' else env.pick('from', ['f', 'f_changed'])
    d = bad if which != 'source' else 'g'
    at = env.choice('at', 4)
    how = env.pick('how', ['routes', 'init', 'text'])
    target = env.pick('target', ['b', 'a', 'c'])
    rs = [('a', 'f', 'b', 'f'), ('b', 'f', 'c', 'f'), ('c', 'f', 'c', 'g')]
    rs.insert(at, ('a', s, target, d))
    if how == 'text':
        if bad == '__class__':
            env.stop()
        sg = common.parse('#VRML V2.0 utf8\nPROTO P [ exposedField SFFloat f 1 exposedField SFFloat g 2 ] { Group { } }\nDEF a P { } DEF b P { } DEF c P { }\n' + ''.join('ROUTE %s.%s TO %s.%s\n' % r for r in rs))
        a, b, c = [sg.getDEF(k) for k in 'abc']
    elif how == 'init':
        named = dict(a=a, b=b, c=c)
        sg = scenegraph.SceneGraph(children=[a, b, c], routes=[(named[p], q, named[x], y) for p, q, x, y in rs])
    else:
        sg = scenegraph.SceneGraph(children=[a, b, c])
        named = dict(a=a, b=b, c=c)
        for p, q, x, y in rs:
            sg.addRoute(named[p], q, named[x], y)
    for k in range(2):
        v = env.real('v%d' % k, 3, 9)
        a.f = v
        env.check(a.f == v and b.f == v and c.f == v and c.g == v, 'the other routes deliver')
        env.check(a.g == 2 and b.g == 2, 'and nothing else does')
    del a.f
    env.check(a.f == 1 and b.f == 1 and c.f == 1 and c.g == 1, 'the other routes deliver a deletion')
    env.cover('done')


def parsed(env):
    """Routes of a scene read from text."""
    sg = common.parse('''#VRML V2.0 utf8
DEF T TimeSensor { }
DEF I PositionInterpolator { key [ 0 1 ] keyValue [ 0 0 0, 1 1 1 ] }
DEF X Transform { children [ DEF M Material { } ] }
ROUTE T.cycleInterval TO T.startTime
ROUTE T.startTime TO M.set_transparency
ROUTE X.translation_changed TO X.set_scale
ROUTE X.scale_changed TO X.translation
''')
    env.check(sg is not None and len(sg.routes) == 4, 'parses')
    t, x, m = sg.getDEF('T'), sg.getDEF('X'), sg.getDEF('M')
    v, w = env.real('v', 0, 1), env.real('w', 1, 2)
    t.cycleInterval = v
    env.check(t.startTime == v and m.transparency == v, 'along two routes')
    which = env.flag('which')
    if which:
        x.translation = [w, w, v]
    else:
        x.scale = [w, w, v]
    for i, k in enumerate([w, w, v]):
        env.check(x.translation[i] == k and x.scale[i] == k, 'both ways')
    t.startTime = w
    env.check(m.transparency == w and t.cycleInterval == v, 'from the middle')
    env.cover('done')


def harnesses(tier):
    deep = tier != 'quick'
    hs = []

    def add(name, fn, bounds):
        hs.append(dict(name=name, fn=fn, covers=['done'], bounds=bounds))
    add('graph_4_1', graph(4, 1, 'field', 2), 'one route among four fields of two nodes, every history of two changes')
    add('graph_3_2', graph(3, 2, 'field', 2), 'every two routes among three fields, every history of two changes')
    add('graph_3_3', graph(3, 3, 'field', 1), 'every three routes among three fields, one change')
    add('graph_4_3', graph(4, 3, 'field', 1), 'every three routes among four fields, one change')
    add('graph_3_4', graph(3, 4, 'field', 1), 'every four routes among three fields, one change')
    add('event_4_2', graph(4, 2, 'event', 2), 'every two routes among two fields and two events, two changes')
    add('event_4_3', graph(4, 3, 'event', 1), 'every three routes among two fields and two events, one change')
    if deep:
        add('graph_4_4', graph(4, 4, 'field', 1), 'every four routes among four fields, one change')
        add('graph_3_3x2', graph(3, 3, 'field', 2), 'every three routes among three fields, two changes')
        add('graph_5_3', graph(5, 3, 'field', 1), 'every three routes among five fields, one change')
    for ft in TYPES if deep else ['SFFloat', 'SFString', 'MFString', 'SFVec3f', 'MFVec3f', 'SFBool', 'MFInt32', 'SFColor', 'SFRotation', 'SFImage']:
        add('type_' + ft, types(ft), 'any value of %s, six ways of adding a route, all spellings of the names' % ft)
    add('nodes', nodes, 'node and node list fields, every sequence of two of seven changes')
    add('events', events, 'chains and cycles of three events or fields')
    add('refused', refused, 'a chain through a field that refuses the value')
    add('dangling', dangling, 'a route from or to one of seven names that are no fields, in any place among three others, made in three ways')
    add('parsed', parsed, 'four routes of a scene read from text')
    return hs
