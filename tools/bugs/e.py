READ = '''
from vrml.vrml97 import basenodes, parser, linearise, scenegraph
from vrml import node, field, fieldtypes, protofunctions
def read(t):
    ok, result, used = parser.buildParser().parse(t)
    assert ok and used == len(t), 'not read: %r' % t
    for r in (result if isinstance(result, (list, tuple)) else [result]):
        if hasattr(r, 'children') and hasattr(r, 'routes'):
            return r
def write(x):
    return linearise.linearise(x)
'''
LIN = 'vrml/vrml97/linearise.py'
BUGS = [
    dict(id='c03-nested-same-name', property='C03',
         edits=[(LIN, '''        if id(clientNode) in self.protoalreadydone:
            # this''', '''        if id(clientNode) in self.protoalreadydone or (
            self.curproto and clientName in self.protoalreadydone
        ):
            # this''')],
         needs='a prototype declared in the body of another, with the name of a prototype of the file',
         breaks='the inner prototype is not written, the body uses the outer one when read back',
         demo=READ + '''
t = """#VRML V2.0 utf8
PROTO Leaf [ field SFFloat r 1 ] { Cone { } }
PROTO Tree [ ] { PROTO Leaf [ field SFFloat r 1 field SFFloat w 2 ] { Sphere { } } Leaf { w 7 } }
Leaf { r 3 } Tree { }
"""
sg = read(t)
sg2 = read(write(sg))
body = protofunctions.getSceneGraph(type(sg2.children[1]))
assert body.children[0].w == 7
assert sg2.children[0].r == 3
'''),
    dict(id='c22-processor-kept', property='C22',
         edits=[('vrml/vrml97/parser.py', '''        from vrml.vrml97 import parseprocessor
        return parseprocessor.ParseProcessor()
''', '''        from vrml.vrml97 import basenamespaces, parseprocessor
        processor = getattr( self, '_processor', None )
        if processor is None:
            processor = self._processor = parseprocessor.ParseProcessor()
        processor.basePrototypes = basenamespaces.basePrototypes.copy()
        return processor
''')],
         needs='a text refused in the middle of a scene, and then another one read with the same parser',
         breaks='the scenes and names of a text that was refused are seen by the next text',
         demo=READ + '''
p = parser.buildParser()
bad = "#VRML V2.0 utf8\\nDEF A Group { } Nonsense { }\\n"
try:
    p.parse(bad)
except Exception:
    pass
else:
    raise AssertionError('accepted')
p.parse("#VRML V2.0 utf8\\nDEF A Group { }\\n")
try:
    p.parse("#VRML V2.0 utf8\\nPROTO P [ ] { Group { } }\\nP { }\\n")
    p.parse("#VRML V2.0 utf8\\nGroup { children [ USE A ] }\\nP { }\\n")
except Exception:
    pass
else:
    raise AssertionError('accepted')
r = p.parse("#VRML V2.0 utf8\\nDEF B Group { }\\n")[1]
sg = [x for x in (r if isinstance(r, (list, tuple)) else [r]) if hasattr(x, 'routes')][0]
assert node.Node.rootSceneGraph.fget(sg.children[0]) is sg
assert sg.root is None
'''),
    dict(id='c22-format-kept', property='C22',
         edits=[(LIN, '''            linvalues = linvalues.copy()
            linvalues.update(namedargs)''', '''            # only the formats given are changed
            linvalues.update(namedargs)''')],
         needs='a scene written with a formatting option, and then one written without',
         breaks='formatting options stay for later writings',
         demo=READ + '''
g = basenodes.Transform(translation=(1, 2, 3))
a = write(g)
g.toString(numsep=' , ', indent='      ')
assert write(g) == a
'''),
    dict(id='c22-named-by-writing', property='C22',
         edits=[(LIN, '''            if DEF:
                return 'USE ' + DEF
            # else have''', '''            scene = root(clientNode)
            if not DEF and scene:
                # give it a name, so that it is found the next time
                DEF = '%s_%s' % (protoName(clientNode), len(scene.defNames))
                if scene.getDEF(DEF) is None:
                    scene.regDefName(DEF, clientNode)
                DEF = ''
            if DEF:
                return 'USE ' + DEF
            # else have''')],
         needs='an unnamed node used twice in a scene that is written',
         breaks='writing a scene gives names to its nodes, and writing it again gives another text',
         demo=READ + '''
s = basenodes.Shape(geometry=basenodes.Cone())
sg = scenegraph.SceneGraph(children=[s, basenodes.Group(children=[s])])
a = write(sg)
assert not s.DEF
assert write(sg) == a
'''),
    dict(id='c22-proto-cached', property='C22',
         edits=[('vrml/vrml97/parseprocessor.py', '''        (tag, left, right, children) = table
        proto = node.prototype(getString(children[0], buffer))
        self.prototypeStack.append(proto)
        try:
            dispatchList(self, children[1:-1], buffer)
            setSceneGraph(''', '''        (tag, left, right, children) = table
        source = buffer[left:right]
        proto = self.PROTOS.get(source)
        if proto is not None and getSceneGraph(proto):
            # the very same declaration was seen before
            self.sceneGraphStack[-1].addProto(proto)
            return
        proto = self.PROTOS[source] = node.prototype(getString(children[0], buffer))
        self.prototypeStack.append(proto)
        try:
            dispatchList(self, children[1:-1], buffer)
            setSceneGraph('''), ('vrml/vrml97/parseprocessor.py', '''    ### High-level constructs in the grammar
    def header''', '''    # prototypes by their declaration, as files are often loaded repeatedly
    PROTOS = {}

    ### High-level constructs in the grammar
    def header''')],
         needs='a text with a prototype read twice, the prototype of one of the scenes being changed in between',
         breaks='two scenes share a prototype, so a change to one scene shows in the other',
         demo=READ + '''
t = """#VRML V2.0 utf8
PROTO P [ field SFFloat r 1 ] { DEF C Cone { height 2 } }
P { r 3 }
"""
a = read(t)
b = read(t)
protofunctions.getSceneGraph(type(a.children[0])).children[0].height = 9
assert protofunctions.getSceneGraph(type(b.children[0])).children[0].height == 2
c = read(t)
assert protofunctions.getSceneGraph(type(c.children[0])).children[0].height == 2
'''),
    dict(id='c12-is-not-routed', property='C12',
         edits=[('vrml/route.py', '''                for message in ('set','del','route'):''', '''                messages = ('set','del','route')
                if source is self.destination and source is not self.source:
                    # outwards, the node itself sends what it was sent
                    messages = messages[:2]
                for message in messages:''')],
         needs='an IS-mapped field of a node in a prototype body that is changed by a ROUTE within the body',
         breaks='values routed to a mapped field inside of the body do not reach the field of the instance',
         demo=READ + '''
sg = read("""#VRML V2.0 utf8
PROTO P [ exposedField SFFloat r 1 ] { DEF A Material { transparency .2 } DEF B Material { transparency IS r } ROUTE A.transparency TO B.transparency }
P { }
""")
p = sg.children[0]
body = node.PrototypedNode.scenegraph.fget(p)
body.children[0].transparency = .75
assert body.children[1].transparency == .75
assert p.r == .75, p.r
'''),
    dict(id='c13-equal-not-forwarded', property='C13',
         edits=[('vrml/route.py', '''                event.visited( (destination,destinationField), 1)
            if isinstance''', '''                event.visited( (destination,destinationField), 1)
            from vrml import arrays
            if isinstance( destinationField, field.Field ) and arrays.safeCompare(
                destination.__dict__.get( destinationField.name ), value
            ):
                # has the value already
                return
            if isinstance''')],
         needs='a chain of two routes where the middle field already holds the value sent',
         breaks='an event is not forwarded through a field which already has the value',
         demo=READ + '''
a, b, c = [basenodes.Material(transparency=.1 * i) for i in (1, 2, 3)]
sg = scenegraph.SceneGraph(children=[basenodes.Shape(appearance=basenodes.Appearance(material=m)) for m in (a, b, c)])
sg.addRoute(a, 'transparency', b, 'transparency')
sg.addRoute(b, 'transparency', c, 'transparency')
a.transparency = .5
c.transparency = .25
a.transparency = .5
assert c.transparency == .5
'''),
    dict(id='c14-one-signal-per-sender', property='C14',
         edits=[('vrml/cache.py', '''        """Depend on signal from sender"""
        dispatcher.connect(''', '''        """Depend on signal from sender"""
        known = self.__dict__.setdefault( 'signals', set() )
        if hasattr( sender, '__dict__'):
            # the same node may be named repeatedly
            key = (signal[0], getattr( signal[1], 'fieldType', None ) or type(signal[1]).__name__, id(sender))
            if key in known:
                return
            known.add( key )
        dispatcher.connect(''')],
         needs='a holder depending on two fields of one type of one node, the second of them changing',
         breaks='a dependency on a second field of the same type of a node is dropped',
         demo=READ + '''
from vrml import cache
c = cache.Cache()
t = basenodes.Transform()
h = c.holder(t, 1, 'k')
h.depend(t, 'translation')
h.depend(t, 'scale')
t.translation = (1, 2, 3)
assert c.getData(t, 'k') is None
h.data = 2
t.scale = (2, 2, 2)
assert c.getData(t, 'k') is None
'''),
    dict(id='c15-half-turns', property='C15',
         edits=[('vrml/vrml97/_transformmatrix.py', '''        c = cos( a )
        c1 = cos( -a )
        s = sin( a )
        s1 = sin( -a )
        t = 1-c''', '''        if not a % pi:
            # half turns, without the rounding errors
            c = c1 = 1. - 2 * (abs( a ) // pi % 4)
            s = s1 = 0.
        else:
            c = cos( a )
            c1 = cos( -a )
            s = sin( a )
            s1 = sin( -a )
        t = 1-c''')],
         needs='a rotation by three (or seven, ...) half turns',
         breaks='a rotation by 3 pi gives a matrix that is no rotation',
         demo='''
from math import pi
from vrml.vrml97 import _transformmatrix as t
import numpy
for n in (1, -1, 3, -3, 5):
    m, i = t.rotMatrix((0, 1, 0, n * pi))
    assert abs(m - numpy.diag([-1, 1, -1, 1])).max() < 1e-6, (n, m)
    assert abs(i - numpy.diag([-1, 1, -1, 1])).max() < 1e-6, (n, i)
'''),
    dict(id='c02-last-row', property='C02',
         edits=[('vrml/fieldtypes.py', '''        # now process the string chunk representations
        if len(sets) < setLength:  # again, arbitrary
            return '[%s]' % (linvalues['subelspacer'].join(sets))
        else:  # greater than setLength elements...
            stringsets2 = []
            while sets:
                stringsets2.append(linvalues['subelspacer'].join(sets[:setLength]))
                del sets[:setLength]
            return '[%s]' % ('\\n'.join(stringsets2))

    def copyValue(self, value, copier=None):
        """Copy a value for copier"""
        return arrays.array(value, arrays.typeCode(value))


class _SFVec32(''', '''        # now process the string chunk representations
        if len(sets) <= setLength:  # again, arbitrary
            return '[%s]' % (linvalues['subelspacer'].join(sets))
        else:  # greater than setLength elements...
            rows = [
                linvalues['subelspacer'].join(sets[i : i + setLength])
                for i in range(0, len(sets) - 1, setLength)
            ]
            return '[%s]' % ('\\n'.join(rows))

    def copyValue(self, value, copier=None):
        """Copy a value for copier"""
        return arrays.array(value, arrays.typeCode(value))


class _SFVec32(''')],
         needs='a list of vectors one longer than a multiple of the length of a row',
         breaks='the last vector of such a list is not written',
         demo=READ + '''
for n in range(0, 80):
    c = basenodes.Coordinate(point=[(i, i + 1, i + 2) for i in range(n)])
    c2 = read(write(scenegraph.SceneGraph(children=[basenodes.Shape(geometry=basenodes.PointSet(coord=c))]))).children[0].geometry.coord
    assert len(c2.point) == n and (c2.point == c.point).all(), n
'''),
    dict(id='c09-own-list', property='C09',
         edits=[('vrml/olist.py', '''            values = list(value)
''', '''            values = value if isinstance( value, list ) else list(value)
'''), ], 
         needs='a slice of a list set from the list itself',
         breaks='notices are sent for children that were not added',
         demo=READ + '''
g = basenodes.Group(children=[basenodes.Shape() for i in range(2)])
a, b = g.children
seen = []
from pydispatch import dispatcher
def on(value): seen.append(value)
dispatcher.connect(on, signal='new', sender=g)
g.children[1:1] = g.children
assert list(g.children) == [a, a, b, b]
assert len(seen) == 2, seen
'''),
    dict(id='c08-told-before-gone', property='C08',
         edits=[('vrml/field.py', """            if isinstance(client, type):
                delattr(client, self.name)
            else:
                del client.__dict__[self.name]
            if notify:
                dispatcher.send(
                    ('del', self),
                    client,
                )
            return value""", """            if notify and not isinstance(client, type):
                dispatcher.send(
                    ('del', self),
                    client,
                )
            if isinstance(client, type):
                delattr(client, self.name)
            else:
                client.__dict__.pop(self.name, None)
            return value"""), ('accelerate/src/fieldaccel2.pyx', """        if isinstance( client, type ):
            delattr( client, self.name )
        else:
            del client.__dict__[ self.name ]
        if notify:
            send(
                ('del',self), 
                client, 
            )
        return value""", """        if notify and not isinstance( client, type ):
            send(
                ('del',self), 
                client, 
            )
        if isinstance( client, type ):
            delattr( client, self.name )
        else:
            client.__dict__.pop( self.name, None )
        return value""")],
         needs='a watcher of a field reading it when the value is deleted',
         breaks='the notice of a deletion is sent while the old value is still there',
         demo=READ + """
from pydispatch import dispatcher
m = basenodes.Material(transparency=.5)
seen = []
def on(sender, signal): seen.append(sender.transparency)
f = protofunctions.getField(m, 'transparency')
dispatcher.connect(on, signal=('del', f), sender=m)
del m.transparency
assert seen == [0.0], seen
"""),
    dict(id='c20-weak-insert', property='C20',
         edits=[('vrml/weaklist.py', '''        return super( WeakList,self).insert(
            index, self.wrap(item)
        )''', '''        if index < 0:
            index += len( self )
        return super( WeakList,self).insert(
            index, self.wrap(item)
        )''')],
         needs='an insertion at an index before the beginning of a weak list',
         breaks='insert with an index below -len inserts near the end and not at the beginning',
         demo='''
from vrml import weaklist
class X(object): pass
a, b, c = X(), X(), X()
for i in range(-5, 5):
    l, w = [a, b], weaklist.WeakList([a, b])
    l.insert(i, c)
    w.insert(i, c)
    assert w.get() == l, i
'''),
    dict(id='c21-longest-suffix', property='C21',
         edits=[('vrml/protofunctions.py', '''    if field.startswith("set_"):
        try:
            return getField(cls, field[4:])
        except AttributeError:
            pass
''', '''    while field.startswith("set_"):
        field = field[4:]
        try:
            return getField(cls, field)
        except AttributeError:
            pass
''')],
         needs='a field whose own name starts with set_ and the _changed form of it',
         breaks='the _changed event of a field is not found when the name of the field starts with set_',
         demo='''
from vrml import node, field, protofunctions
P = node.prototype('P', [field.newField('set_point', 'SFFloat', 1, 0.0)])
for n in ('set_point', 'set_point_changed', 'set_set_point'):
    assert protofunctions.getField(P, n).name == 'set_point', n
'''),
    dict(id='c06-mixed-colours', property='C06',
         edits=[('vrml/fieldtypes.py', '''                    if current:
                        raise ValueError(
                            """Incorrect number of float values %r before''', '''                    if len(current) == 1:
                        raise ValueError(
                            """Incorrect number of float values %r before''')],
         needs='a list of colours with two numbers before a colour name and one after it',
         breaks='a list of colours that does not fit is accepted, with its parts in another order',
         demo=READ + """
m = basenodes.Color(color=[(0, 0, 1)])
for v in ([.5, 'red', .5, .5], [.5, .5, 'red', .5], [.5, .5, .5, 'red', .5], ['red', .5, .5]):
    try:
        m.color = v
    except ValueError:
        pass
    else:
        raise AssertionError((v, m.color))
    assert m.color.tolist() == [[0, 0, 1]]
"""),
    dict(id='c11-slice-adopts-first', property='C11',
         edits=[('vrml/node.py', '''        if signal == olist.OList.NEW_CHILD_EVT:
            Node''', '''        if signal == olist.OList.NEW_CHILD_EVT and value is current[-1]:
            Node''')],
         needs='a child inserted elsewhere than at the end of a list', breaks='such a child is not given the scene of its parent',
         demo=READ + '''
sg = scenegraph.SceneGraph(children=[basenodes.Group()])
m = basenodes.Group(DEF='M')
sg.children[0].children.append(basenodes.Group())
sg.children[0].children.insert(0, m)
assert node.Node.rootSceneGraph.fget(m) is sg and sg.getDEF('M') is m
'''),
]
