READ = '''
from vrml.vrml97 import basenodes, parser, linearise, scenegraph
from vrml import node, field, fieldtypes, protofunctions
def read(t):
    t = '#VRML V2.0 utf8\\n' + t
    ok, result, used = parser.buildParser().parse(t)
    assert ok and used == len(t), 'not read: %r' % t
    for r in (result if isinstance(result, (list, tuple)) else [result]):
        if hasattr(r, 'children') and hasattr(r, 'routes'):
            return r
def refused(t):
    try:
        read(t)
    except Exception:
        return True
    return False
def write(x):
    return linearise.linearise(x)
'''
NODE, FT, FIELD, PP, LIN, OL, ROUTE, CACHE, TM, PF = 'vrml/node.py', 'vrml/fieldtypes.py', 'vrml/field.py', 'vrml/vrml97/parseprocessor.py', 'vrml/vrml97/linearise.py', 'vrml/olist.py', 'vrml/route.py', 'vrml/cache.py', 'vrml/vrml97/transformmatrix.py', 'vrml/protofunctions.py'
PTM, WT, NP, NP97 = 'vrml/vrml97/_transformmatrix.py', 'vrml/weaktuple.py', 'vrml/nodepath.py', 'vrml/vrml97/nodepath.py'
BUGS = [
    dict(id='c12-own-class-only', property='C12',
         edits=[(NODE, 'for cls in self.__class__.__mro__[:-1]:', 'for cls in self.__class__.__mro__[:2]:')],
         needs='a class derived twice from a prototype', breaks='its instances have no body',
         demo=READ + '''
sg = read('PROTO P [ field SFFloat r 1 ] { Sphere { radius IS r } } P { }')
P = sg.protoTypes['P']
class A(P): pass
class B(A): pass
b = B(r=3)
assert b.renderedChildren()[0].radius == 3
'''),
    dict(id='c12-derived-unmapped', property='C12',
         edits=[(NODE, 'isMappings = list(ismaps(cls).items())', "isMappings = list(self.__class__.__dict__.get('_ismappings', ismaps(self.__class__) if self.__class__ is cls else {}).items())")],
         needs='a class derived from a prototype', breaks='the body of its instances is not wired to its fields',
         demo=READ + '''
sg = read('PROTO P [ field SFFloat r 1 ] { Sphere { radius IS r } } P { }')
class A(sg.protoTypes['P']): pass
assert A(r=3).renderedChildren()[0].radius == 3
'''),
    dict(id='c11-bodies-named-outside', property='C11',
         edits=[(NODE, '                and not field is PrototypedNode.scenegraph\n', '')],
         needs='an instance whose body has named nodes, put into a scene', breaks='the body gets the scene around it as its root',
         demo=READ + '''
sg = read('PROTO P [ ] { DEF X Group { } } P { }')
body = node.PrototypedNode.scenegraph.fget(sg.children[0])
x = body.children[0]
assert sg.getDEF('X') is None
assert node.Node.rootSceneGraph.fget(x) is not sg
assert node.Node.rootSceneGraph.fget(body) is not sg
'''),
    dict(id='c06-empty-is-null', property='C06',
         edits=[(NODE, 'elif value is None and self.allowNULL:', 'elif not value and self.allowNULL:')],
         needs='a node field set to something that is false and not None', breaks='a value that is no node is stored as NULL',
         demo=READ + '''
s = basenodes.Shape()
for v in ([], 0, '', ()):
    try:
        s.appearance = v
    except ValueError:
        pass
    else:
        raise SystemExit('%r taken' % (v,))
'''),
    dict(id='c09-known-elsewhere', property='C09',
         edits=[(OL, 'currents = set( previous )', 'currents = set( before )')],
         needs='a slice replaced by a value that is in the list outside the slice', breaks='the addition is not reported',
         demo=READ + '''
from pydispatch import dispatcher
from vrml import olist
a, b, c = basenodes.Group(), basenodes.Group(), basenodes.Group()
l = olist.OList([a, b, c])
seen = []
def note(signal=None, value=None, **named):
    seen.append((signal, value))
dispatcher.connect(note, sender=l)
l[1:2] = [a]
assert [v for s, v in seen if s == 'new'] == [a], seen
'''),
    dict(id='c03-numbered-anyway', property='C03',
         edits=[(LIN, 'if sceneGraph.getDEF(name) is None:', 'if sceneGraph.getDEF(name) is not child:')],
         needs='a routed node without a name, in a scene where its invented name is taken', breaks='the invented name belongs to another node: the routes are wired to the wrong node when read back',
         demo=READ + '''
from vrml import route
sg = scenegraph.SceneGraph()
first, second = basenodes.Group(), basenodes.Group()
first.DEF = 'TimeSensor_0'
t, s = basenodes.TimeSensor(), basenodes.TimeSensor()
named = basenodes.TimeSensor()
named.DEF = 'TimeSensor_0'
sg = scenegraph.SceneGraph(children=[named, t, s])
sg.regDefName('TimeSensor_0', named)
sg.routes.append(route.ROUTE(t, 'isActive', s, 'enabled'))
back = read(write(sg)[len('#VRML V2.0 utf8\\n'):])
r = back.routes[0]
assert r.source is back.children[1] and r.destination is back.children[2]
'''),
    dict(id='c03-body-names-stay', property='C03',
         edits=[(LIN, '        self.alreadydone = oldalreadydone\n', '')],
         needs='a prototype first met after a node that is used again later', breaks='the second use of the node is written as a second definition',
         demo=READ + '''
g = basenodes.Group(children=[basenodes.Shape()])
g.DEF = 'G'
inner = scenegraph.SceneGraph(children=[basenodes.Group()])
P = node.prototype('P', [], inner)
sg = scenegraph.SceneGraph(children=[g, P(), g])
back = read(write(sg)[len('#VRML V2.0 utf8\\n'):])
assert back.children[0] is back.children[2], write(sg)
'''),
    dict(id='c14-collected-data', property='C14',
         edits=[(CACHE, '''            current = cache.get( client_id )
            self.data = None
''', '''            current = cache.get( client_id )
''')],
         needs='a holder kept by its user, and the collection of a node it depends on', breaks='the holder still gives the old data',
         demo=READ + '''
from vrml.cache import Cache
import gc
c = Cache()
g, d = basenodes.Group(), basenodes.Group()
h = c.holder(g, 'data', 'k')
h.depend(d)
del d
gc.collect()
assert c.getData(g, 'k') is None and h.data is None
'''),
    dict(id='c14-falsy-data', property='C14',
         edits=[(CACHE, '''            if current is not None:
                return current.data
''', '''            if current is not None and current.data:
                return current.data
''')],
         needs='cached data that is false, and a default', breaks='the default is given in place of the cached data',
         demo=READ + '''
from vrml.cache import Cache
c = Cache()
g = basenodes.Group()
c.holder(g, 0, 'k')
assert c.getData(g, 'k', default=5) == 0
'''),
    dict(id='c15-parent-of-inverse', property='C15',
         edits=[(TM, '''        compressMatrices( parentMatrix, T,C,R,SO,S,SO1,C1 ),
        compressMatrices( parentMatrix, C,SO, S1, SO1, R1, C1, T1)
''', '''        compressMatrices( parentMatrix, T,C,R,SO,S,SO1,C1 ),
        compressMatrices( C,SO, S1, SO1, R1, C1, T1, parentMatrix)
''')],
         needs='transformMatrices with a parentMatrix', breaks='the backward matrix differs from that of itransformMatrix',
         demo='''
from vrml.vrml97 import transformmatrix as t
from vrml.arrays import allclose, array
kw = dict(translation=(1, 2, 3), rotation=(0, 1, 0, 1), scale=(1, 2, 3), parentMatrix=t.transMatrix((4, 5, 6))[0])
assert allclose(t.transformMatrices(**kw)[1], t.itransformMatrix(**kw))
'''),
    dict(id='c15-center-unscaled', property='C15',
         edits=[(TM, '''    return (
        compressMatrices( T,C,R,SO,S,SO1,C1 ),
        compressMatrices( C,SO, S1, SO1, R1, C1, T1)
''', '''    if S is None and R is None:
        C = C1 = SO = SO1 = None
    if R is None:
        return (
            compressMatrices( T,C,SO,S,SO1,C1 ),
            compressMatrices( C,S1,C1,T1 ),
        )
    return (
        compressMatrices( T,C,R,SO,S,SO1,C1 ),
        compressMatrices( C,SO, S1, SO1, R1, C1, T1)
''')],
         needs='a scale orientation without a rotation', breaks='the inverse lacks the scale orientation',
         demo='''
from vrml.vrml97 import transformmatrix as t
from vrml.arrays import allclose, dot, identity
f, i = t.localMatrices(scale=(1, 2, 3), scaleOrientation=(0, 1, 0, 1))
assert allclose(dot(f, i), identity(4), atol=1e-5)
'''),
    dict(id='c19-tail-of-copy', property='C19',
         edits=[(NP97, 'base.parent = self\n', 'base.parent = self.parent or self\n')],
         needs='a path extended twice', breaks='the parent of the path is that of its parent',
         demo=READ + '''
from vrml.vrml97 import nodepath
a, b, c = basenodes.Group(), basenodes.Group(), basenodes.Group()
p = nodepath.NodePath([a])
q = p + [b]
r = q + [c]
assert r.parent is q and q.parent is p
'''),
    dict(id='c20-tuple-count-equal', property='C20',
         edits=[(WT, '''        count = 0
        for node in self:
            if item is node:
                count += 1
        return count
''', '''        return list(self).count(item)
''')],
         needs='members that are equal and not the same', breaks='a member is counted that is another one',
         demo='''
from vrml import weaktuple
class N:
    def __eq__(self, other): return True
    def __hash__(self): return 1
a, b = N(), N()
assert weaktuple.WeakTuple([a, b]).count(a) == 1
'''),
    dict(id='c21-set-prefix-alone', property='C21',
         edits=[(PF, '''        try:
            return getField(cls, field[4:])
        except AttributeError:
            pass
''', '''        return getField(cls, field[4:])
''')],
         needs='a field named set_x_changed where x_changed is no field', breaks='a name with both a prefix and a suffix is not found',
         demo=READ + '''
class T(node.Node):
    set_on = field.newField('set_on', 'SFBool', 1, False)
assert protofunctions.getField(T, 'set_on_changed') is T.set_on
'''),
    dict(id='c21-events-before-fields', property='C21',
         edits=[(PF, '''    for fieldObject in getFields(cls):
        if fieldObject.name == field:
            return fieldObject
    # OK, may be an event with space-prefixed name
    for fieldObject in getFields(cls, 1):
        if fieldObject.name == field:
            return fieldObject
''', '''    for fieldObject in getFields(cls, 1) + getFields(cls):
        if fieldObject.name == field:
            return fieldObject
''')],
         needs='an event and a field with the same stored name', breaks='the event is found in place of the field',
         demo=READ + '''
class T(node.Node):
    e = field.newEvent(' x', 'SFBool', 1)
    f = field.newField(' x', 'SFBool', 1, False)
assert protofunctions.getField(T, ' x') is T.f
'''),
    dict(id='c17-inverse-clip-far', property='C17',
         edits=[(PTM, '[0,0,-1,(zFar+zNear)/(2*zFar*zNear)],', '[0,0,-1,(zFar-zNear)/(2*zFar*zNear)],')],
         needs='the inverse projection', breaks='the inverse does not undo the projection',
         demo='''
from vrml.vrml97 import _transformmatrix as t
from vrml.arrays import allclose, dot, identity
a, b = t.perspectiveMatrix(1, 1.5, 1, 10), t.perspectiveMatrix(1, 1.5, 1, 10, inverse=True)
assert allclose(dot(a, b), identity(4), atol=1e-5)
'''),
    dict(id='c18-python-scale-zero', property='C18',
         edits=[(PTM, '[0,1./(y or VERY_SMALL),0,0], ', '[0,1./(y or 1.0),0,0], ')],
         needs='a scale of zero along y', breaks='the Python code gives another inverse than the accelerator',
         demo='''
from vrml.vrml97 import _transformmatrix as t
m = t.scaleMatrix((1, 0, 2))[1]
assert m[1][1] > 1e30
'''),
]
