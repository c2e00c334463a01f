"""C22: reading and writing leave no traces on other scenes, later texts or the library."""
from . import common

PRELOAD = common.VRML
OUTSIDE = 'names longer than the bounds; texts and scenes not in the samples; two parsers with different grammars; concurrent reading'
HEAD = '#VRML V2.0 utf8\n'
_Q = []


def setup():
    common.warm()
    from vrml.vrml97 import parser
    if not _Q:
        _Q.append(parser.buildParser())
        _Q[0].parse(HEAD + 'Group { children [ WorldInfo { title "a" info ["a" "b"] } ] }\n')
        _Q[0].buildTagger('vrmlFile', None)


def read(text, other=False):
    """The scene, or None where the text is refused."""
    if other and not _Q:
        setup()
    try:
        success, result, nxt = (_Q[0] if other else common.get_parser()).parse(HEAD + text)
    except Exception:
        return None
    if not success or nxt != len(HEAD) + len(text):
        return None
    for r in result:
        if r is not None:
            return r
    return None


def held(sg):
    """The nodes of a scene and what they hold, defaults made."""
    from vrml import protofunctions, field
    nodes = list(common.walk(sg))
    for n in nodes:
        for f in protofunctions.getFields(n):
            if not isinstance(f, field.WeakField):
                f.fget(n)
    return nodes, common.snap(nodes)


def letters(env, name, n):
    return env.text(name, n, ranges=[(103, 122)])


# the text read in between, by name
FIRST = {'proto': 'PROTO %s [ field SFString t "x" field SFNode n Cone { } ] { WorldInfo { title IS t } } %s { t "y" }',
         'extern': 'EXTERNPROTO %s [ field SFString t ] "u" %s { t "y" }',
         'def': 'DEF %s Sphere { radius 3 } Group { children USE %s }',
         'body': 'PROTO Zz [ ] { PROTO %s [ ] { Sphere { } } DEF %s Group { } } Zz { }',
         'script': 'DEF Zz Script { field SFString %s "x" eventIn SFTime go url "%s" }',
         'ismap': 'PROTO Zz [ field SFNode %s NULL ] { Shape { geometry IS %s } } Zz { }',
         'cut': 'PROTO %s [ field SFString t "x" ] { Group { } } DEF %s Group { children [ Group {',
         'unknown': 'PROTO %s [ field SFString t "x" ] { Group { } } Group { children [ DEF %s Group { zzz 5 } ] }',
         'in_body': 'PROTO Zz [ exposedField SFString %s "x" ] { Group { children [ DEF %s Zzz { } ] } }',
         'value': 'PROTO %s [ field SFNode t Group { } ] { } DEF %s Group { children [ Box { size 1 2 } ] }',
         'route': 'DEF %s TimeSensor { } DEF Zy TimeSensor { } ROUTE %s.time TO Zy.startTime'}
# the text read before and after
SECOND = {'type': 'Group { children [ %s { } ] }',
          'field': 'PROTO Yy [ field SFString t "o" ] { WorldInfo { title IS t } } Yy { %s "q" }',
          'use': 'DEF Y Box { } Group { children [ USE Y USE %s ] }',
          'route': 'DEF Y TimeSensor { } ROUTE Y.time TO %s.startTime',
          'proto': 'PROTO %s [ field SFString t "mine" field SFNode n Box { } ] { WorldInfo { title IS t } } %s { } %s { t "two" }',
          'def': 'DEF %s Box { } Group { children [ USE %s ] }',
          'script': 'DEF Zz Script { field SFString o "p" %s "x" }',
          'nodes': 'Shape { geometry Sphere { } appearance Appearance { material Material { } } } DEF %s Transform { children [ Cone { } ] }'}


def fill(t, s):
    parts = t.split('%s')
    out = parts[0]
    for p in parts[1:]:
        out = out + s + p
    return out


def same_reading(env, a, b, label):
    env.check((a is None) == (b is None), label + ': read as before, or refused as before')
    if a is None:
        env.cover('refused')
        return
    common.same_scene(env, a, b, protos='deep')
    for x, y in zip(a.children, b.children):
        common.same_bodies(env, x, y)
    mine = {id(n) for n in common.walk(a)}
    env.check(not any(id(n) in mine for n in common.walk(b)), label + ': with nodes of its own')
    env.cover('read')


def between(first, n):
    """A text means the same after any other text was read."""
    def fn(env):
        a, b = letters(env, 'a', n), letters(env, 'b', n)
        text = fill(SECOND[env.pick('second', sorted(SECOND))], b)
        other = env.flag('other parser')
        before = read(text)
        kept, was = (None, None) if before is None else held(before)
        defs = None if before is None else dict(before.defNames)
        types = None if before is None else dict(before.protoTypes)
        one = read(fill(FIRST[first], a), other)
        after = read(text, env.flag('then other'))
        same_reading(env, before, after, 'a text read again')
        if before is not None:
            common.unchanged(env, kept, was, 'a scene read before')
            env.check(list(before.defNames) == list(defs) and all([before.defNames[k] is defs[k] for k in defs]), 'its names')
            env.check(list(before.protoTypes) == list(types) and all([before.protoTypes[k] is types[k] for k in types]), 'its prototypes')
        if one is not None:
            again = read(fill(FIRST[first], a), not other)
            same_reading(env, one, again, 'the other text')
        env.cover('done')
    return fn


NAMES = ['Box', 'Group', 'Shape', 'Sphere', 'WorldInfo', 'Script']


def redefined(env):
    """A text declaring a prototype by the name of a node of the library, or any name of three letters."""
    from vrml.vrml97 import basenodes, basenamespaces
    which = env.pick('name', ['any'] + NAMES)
    a = env.text('a', 3, ranges=[(65, 90), (97, 122)]) if which == 'any' else which
    text = 'Group { children [ Shape { geometry Box { size 1 2 3 } } WorldInfo { title "w" } Script { url "x" } ] }'
    known = dict(basenamespaces.basePrototypes)
    before = read(text)
    one = read('PROTO ' + a + ' [ field SFString size "x" ] { Sphere { } } ' + env.pick('end', ['', 'Zzz { }', 'Group {', 'PROTO ' + 'Group [ ] { Cone { } }']), env.flag('other parser'))
    env.check(list(basenamespaces.basePrototypes) == list(known) and all([basenamespaces.basePrototypes[k] is known[k] for k in known]), 'the node types of the library stay')
    after = read(text)
    same_reading(env, before, after, 'a text read again')
    env.check(type(after.children[0]) is basenodes.Group and type(after.children[0].children[0]) is basenodes.Shape
              and type(after.children[0].children[0].geometry) is basenodes.Box, 'node types of the library')
    env.cover('done')


def changed(env):
    """A scene that was read is changed in any way: reading its text again gives the scene of the text."""
    from vrml import node, field, protofunctions
    from vrml.vrml97 import basenodes
    a, v = letters(env, 'a', 1), env.text('v', 1)
    text = ('PROTO P [ field SFString t "d" field SFNode n DEF I Cone { height 3 } field MFNode m [ Group { } ] field MFString l [ "a" ] field SFVec3f w 1 2 3 ] '
            '{ DEF B WorldInfo { title IS t info [ "x" ] } Group { children IS m } } '
            'DEF ' + a + ' Group { children [ Sphere { radius 2 } WorldInfo { info [ "i" "j" ] } ] } P { } P { t "e" } Coordinate { point [ 1 2 3 ] } Switch { }')
    one, two = read(text), read(text)
    env.check(one is not None and two is not None, 'the text is read')
    G, p, q, c, s = one.children
    P = one.getProto('P')
    how = env.pick('how', ['field', 'list', 'children', 'array', 'default node', 'default list', 'instance list', 'template', 'instance body', 'declare', 'undeclare', 'name', 'names', 'prototypes', 'empty list', 'vector', 'write', 'copy'])
    if how == 'field':
        G.children[0].radius = 5
    elif how == 'list':
        G.children[1].info.append(v)
    elif how == 'children':
        G.children.append(basenodes.Group(DEF=v))
    elif how == 'array':
        c.point[0][1] = 9
    elif how == 'default node':
        p.n.height = 9
    elif how == 'default list':
        p.m.append(basenodes.Cone())
    elif how == 'instance list':
        p.l.append(v)
    elif how == 'vector':
        p.w[1] = 9
    elif how == 'template':
        body = node.getSceneGraph(P)
        body.children[0].info = [v]
        body.children.append(basenodes.Cone())
    elif how == 'instance body':
        body = p.scenegraph
        body.children[0].title = v
        body.children[1].children.append(basenodes.Cone())
    elif how == 'declare':
        protofunctions.addField(P, field.newField('more', 'SFString', 1, v))
    elif how == 'undeclare':
        protofunctions.removeField(P, 't')
    elif how == 'name':
        G.DEF = v
    elif how == 'names':
        one.regDefName('zz', c)
    elif how == 'prototypes':
        one.addProto(node.prototype('Sphere', [field.newField('radius', 'SFString', 1, v)]))
    elif how == 'empty list':
        s.choice.append(basenodes.Group())
    elif how == 'write':
        one.toString(indent=' ', numsep=' ')
    else:
        one.copy().children[0].children[0].radius = 7
    three = read(text, env.flag('other parser'))
    same_reading(env, two, three, 'the text read again')
    env.cover(how)


CHANGES = ['field', 'list', 'children', 'array', 'default node', 'default list', 'instance list', 'template', 'instance body', 'declare', 'undeclare', 'name', 'names', 'prototypes', 'empty list', 'vector', 'write', 'copy']


# -- writing ------------------------------------------------------------------
SCENES = ['nodes', 'shared', 'protos', 'nested', 'script', 'routes', 'extern']


def scene(env, kind, name, v, tag):
    """A scene of the kind, holding a name and a text."""
    from vrml import node, field, route
    from vrml.vrml97 import basenodes, scenegraph, script
    info = lambda: basenodes.WorldInfo(title=v, info=[v, 'b'])
    if kind == 'nodes':
        return scenegraph.SceneGraph(children=[basenodes.Transform(translation=(1, 2, 3), children=[info(), basenodes.Shape(geometry=basenodes.Box(size=(1, 2, 3)))]), basenodes.Coordinate(point=[(0, 0, 0), (1, 2, 3)])])
    if kind == 'shared':
        n, m = basenodes.Group(DEF=name, children=[info()]), basenodes.Material(transparency=.5)
        return scenegraph.SceneGraph(children=[n, basenodes.Transform(children=[n, basenodes.Appearance(material=m)]), basenodes.Appearance(material=m)])
    if kind == 'protos':
        P = node.prototype(name, [field.newField('t', 'SFString', 1, v), field.newEvent('go', 'SFTime', 0)], scenegraph.SceneGraph(children=[basenodes.Group(DEF='In', children=[info()])]))
        return scenegraph.SceneGraph(children=[P(), basenodes.Group(children=[P(t='q'), P()])])
    if kind == 'nested':
        sg = read('PROTO ' + name + ' [ field SFString t "d" ] { PROTO ' + name + ' [ field SFString u "e" ] { WorldInfo { title IS u } } ' + name + ' { u IS t } } ' + name + ' { t "a" }')
        return sg
    if kind == 'script':
        s = script.Script([field.newField('a', 'SFString', 0, v), field.newEvent('in', 'SFTime', 0)], url=[v], DEF=name)
        return scenegraph.SceneGraph(children=[basenodes.Group(children=[s, info(), s])])
    if kind == 'routes':
        ts = [basenodes.TimeSensor(DEF=name), basenodes.TimeSensor(), basenodes.TimeSensor()]
        sg = scenegraph.SceneGraph(children=ts + [info()])
        sg.regDefName(name, ts[0])
        sg.addRoute((ts[0], 'stopTime', ts[1], 'startTime'))
        sg.addRoute((ts[1], 'stopTime', ts[2], 'startTime'))
        return sg
    P = node.prototype(name, [field.newField('t', 'SFString', 1, 'x')], externalURL=[v])
    return scenegraph.SceneGraph(children=[basenodes.Group(children=[P(t=v), P()])])


WAYS = ['scene', 'node', 'minimal', 'indent', 'separators', 'fails', 'copy', 'list', 'unused']


def write(env, sg, how):
    from vrml.vrml97 import linearise, basenodes
    if how == 'scene':
        return sg.toString()
    if how == 'node':
        return sg.children[0].toString()
    if how == 'minimal':
        return linearise.linearise(sg, linearise.minimal1)
    if how == 'indent':
        return sg.toString(indent='  ', EndComments=1)
    if how == 'separators':
        return linearise.linearise(sg.children[0], numsep=' ', subelspacer=' ', mffieldsep=' ')
    if how == 'list':
        return linearise.linearise(list(sg.children))
    if how == 'unused':
        return linearise.Lineariser().linear(sg, skipUnusedProtos=1)
    if how == 'copy':
        return sg.copy().toString()
    holder = basenodes.Group(children=[basenodes.Group(children=[sg.children[0]]), Unwritable()])
    try:
        return linearise.linearise(holder)
    except TypeError:
        return None


def Unwritable():
    """A node with a value that cannot be written."""
    from vrml.vrml97 import basenodes
    n = basenodes.WorldInfo()
    n.__dict__['info'] = 5
    return n


def named(sg):
    """Give the ends of routes the names that writing gives them."""
    if len(sg.routes):
        sg.toString()


def again(kind, pairs):
    """Writing changes nothing, and the same is written again after anything else was."""
    def fn(env):
        name, v = letters(env, 'name', 1), env.text('v', 1)
        sg = scene(env, kind, name, v, 'a')
        named(sg)
        first, how, then = env.pick('first', pairs[0]), env.pick('between', pairs[1]), env.pick('what', ['itself'] + pairs[2])
        nodes, was = held(sg)
        defs, types, routes = dict(sg.defNames), dict(sg.protoTypes), list(sg.routes)
        text = write(env, sg, first)
        other = sg if then == 'itself' else scene(env, then, letters(env, 'name2', 1), 'w', 'b')
        if other is not sg:
            named(other)
        write(env, other, how)
        env.check(write(env, sg, first) == text, 'the same text is written again')
        common.unchanged(env, nodes, was, 'a scene written')
        env.check(list(sg.defNames) == list(defs) and all([sg.defNames[k] is defs[k] for k in defs]), 'its names')
        env.check(list(sg.protoTypes) == list(types) and all([sg.protoTypes[k] is types[k] for k in types]), 'its prototypes')
        env.check(len(sg.routes) == len(routes) and all([x is y for x, y in zip(sg.routes, routes)]), 'its routes')
        env.cover('done')
    return fn


def harnesses(tier):
    t = tier != 'quick'
    hs = []
    for k in sorted(FIRST):
        hs.append(dict(name='after_' + k, fn=between(k, 2 if t else 1), covers=['done', 'refused', 'read'], bounds='eight texts with any name of %d letters, read before and after a text (%s) with any such name, equal or not; one or two parsers' % (2 if t else 1, k), validate=6 if not t else 20))
    hs.append(dict(name='redefined', fn=redefined, covers=['done', 'read'], bounds='a prototype of any name of three letters or that of six node types, in a good text or a bad one', validate=6))
    hs.append(dict(name='changed', fn=changed, covers=CHANGES + ['read'], bounds='eighteen ways of changing a scene that was read', validate=18))
    for k in SCENES:
        hs.append(dict(name='write_' + k, fn=again(k, [WAYS[:5] + WAYS[7:] if t else ['scene', 'node', 'indent'], WAYS if t else WAYS, SCENES if t else ['protos', 'shared']]), covers=['done'],
                       bounds='a scene (%s) with any name of one letter and any text of one character, written in %d ways before and after writing itself or another scene in %d ways' % (k, 7 if t else 3, len(WAYS)), validate=6 if not t else 20))
    return hs
