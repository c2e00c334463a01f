READ = '''
from vrml.vrml97 import basenodes, parser, linearise, scenegraph
from vrml import node, field, fieldtypes, protofunctions
def read(t):
    t = '#VRML V2.0 utf8\\n' + t
    ok, result, used = parser.buildParser().parse(t)
    assert ok and used == len(t), 'not read: %r' % t
    for r in (result if isinstance(result, (list, tuple)) else [result]):
        if hasattr(r, 'children') and hasattr(r, 'routes'):
            return r
def refused(t):
    try:
        read(t)
    except Exception:
        return True
    return False
def write(x):
    return linearise.linearise(x)
'''
NODES, FT, FIELD, PP, PAR = 'vrml/vrml97/basenodes.py', 'vrml/fieldtypes.py', 'vrml/field.py', 'vrml/vrml97/parseprocessor.py', 'vrml/vrml97/parser.py'
BUGS = [
    dict(id='c23-spot-angles', property='C23',
         edits=[(NODES, "'beamWidth', 'SFFloat', 1, 1.5707960000000001", "'beamWidth', 'SFFloat', 1, 0.78539800000000004"),
                (NODES, "'cutOffAngle', 'SFFloat', 1, 0.78539800000000004", "'cutOffAngle', 'SFFloat', 1, 1.5707960000000001")],
         needs='a SpotLight without cutOffAngle or beamWidth', breaks='the two angles have the default of each other',
         demo=READ + '''
s = read('SpotLight { radius 5 }').children[0]
assert abs(s.cutOffAngle - .785398) < 1e-6 and abs(s.beamWidth - 1.570796) < 1e-6
'''),
    dict(id='c23-cross-section', property='C23',
         edits=[(NODES, '[[1.0, 1.0], [1.0, -1.0], [-1.0, -1.0], [-1.0, 1.0], [1.0, 1.0]]', '[[1.0, 1.0], [1.0, -1.0], [-1.0, 1.0], [-1.0, -1.0], [1.0, 1.0]]')],
         needs='an Extrusion without crossSection', breaks='the default cross section crosses itself',
         demo=READ + '''
assert read('Extrusion { }').children[0].crossSection.tolist() == [[1, 1], [1, -1], [-1, -1], [-1, 1], [1, 1]]
'''),
    dict(id='c23-proxy-exposed', property='C23',
         edits=[(NODES, "'proxy', 'SFNode', 0, node.NULL", "'proxy', 'SFNode', 1, node.NULL")],
         needs='the access of the proxy field of Collision', breaks='a field is an exposedField',
         demo='''
from vrml.vrml97 import basenodes
assert not basenodes.Collision.proxy.exposure
'''),
    dict(id='c23-private-prototype', property='C23',
         edits=[('vrml/vrml97/basenamespaces.py', '''        if issubclass( value, node.Node ):
''', '''        if issubclass( value, node.Node ) and protonamespace and len(value.__mro__) > 3:
''')],
         needs='a node type with no class besides Node among its bases', breaks='such node types are unknown to the parser',
         demo=READ + '''
assert read('Coordinate { point [ 1 2 3 ] }').children[0].point.tolist() == [[1, 2, 3]]
'''),
    dict(id='c06-bytes-latin', property='C06',
         edits=[(FT, '''            if isinstance(value, bytes):
                return value.decode('utf-8')
''', '''            if isinstance(value, bytes):
                try:
                    return value.decode('ascii')
                except UnicodeDecodeError:
                    return value.decode('latin-1')
''')],
         needs='a string field set to encoded text that is not ASCII', breaks='the text is decoded wrongly',
         demo=READ + '''
w = basenodes.WorldInfo(title=u'h\\xe9'.encode('utf-8'))
assert w.title == u'h\\xe9', w.title
'''),
    dict(id='c06-glued-commas', property='C06',
         edits=[(FT, '''        if isinstance(value, (str, unicode)):
            value = [self.base_converter(x) for x in value.replace(',', ' ').split()]
''', '''        if isinstance(value, (str, unicode)):
            value = [self.base_converter(x) for x in value.replace(', ', ' ').replace(',', '').split()]
''')],
         needs='integers in a text with commas but no space between them', breaks='they are joined to one number',
         demo=READ + '''
assert basenodes.IndexedFaceSet(coordIndex='0,1,2, 3').coordIndex.tolist() == [0, 1, 2, 3]
'''),
    dict(id='c06-collapse-once', property='C06',
         edits=[(FT, '''            while isinstance(inlist[ind], ltype):
''', '''            if isinstance(inlist[ind], ltype):
''')],
         needs='a list in a list in a list, or an empty list before another', breaks='an accepted form is refused',
         demo=READ + '''
assert basenodes.Transform(translation=[[[1, 2], [3]]]).translation.tolist() == [1, 2, 3]
assert basenodes.PositionInterpolator(key=[[], [1, 2]]).key.tolist() == [1, 2]
'''),
    dict(id='c08-first-read', property='C08',
         edits=[(FIELD, '''                defaultobj = self._set(client, defaultobj)
''', '''                self.__set__(client, defaultobj)
                defaultobj = client.__dict__.get(self.name, defaultobj)
''')],
         needs='a watcher on a field that has not been set, which is read', breaks='reading sends a notice',
         demo=READ + '''
from pydispatch import dispatcher
if field.fieldaccel2 is None:
    got = []
    def f(signal, sender, value=None):
        got.append(value)
    c = basenodes.Cone()
    dispatcher.connect(f, ('set', basenodes.Cone.height), c)
    assert c.height == 2 and not got, got
'''),
    dict(id='c14-one-existence', property='C14',
         edits=[('vrml/cache.py', '''        self.nodeDependencies.append(
            weakref.ref(
                node,
                self,
            )
        )
''', '''        for known in self.nodeDependencies:
            if known() == node:
                return
        del self.nodeDependencies[1:]
        self.nodeDependencies.append(
            weakref.ref(
                node,
                self,
            )
        )
''')],
         needs='cached data depending on the existence of three nodes, of which the second goes', breaks='the data stays',
         demo='''
from vrml import cache
from vrml.vrml97 import basenodes
c = cache.Cache()
n = basenodes.Box()
a, b, d = basenodes.Box(), basenodes.Box(), basenodes.Box()
h = c.holder(n, 'data', 'k')
for x in (a, b, d):
    h.depend(x)
del x, b
assert c.getData(n, 'k') is None
'''),
    dict(id='c14-falsy-node', property='C14',
         edits=[('vrml/cache.py', '''        if field is not None:
            if isinstance''', '''        if field:
            if isinstance''')],
         needs='a dependency on a field named by a false value', breaks='nothing', demo='assert 1'),
    dict(id='c15-trans-sum', property='C15',
         edits=[('vrml/vrml97/_transformmatrix.py', '''    if x == y == z == 0.0:
        return None, None
    T =''', '''    if x + y + z == 0.0:
        return None, None
    T =''')],
         needs='a translation or center whose components add up to zero', breaks='it is ignored',
         demo='''
from vrml.vrml97 import _transformmatrix as t
T, T1 = t.transMatrix((1, 2, -3))
assert T is not None and T[3].tolist() == [1, 2, -3, 1]
'''),
    dict(id='c15-both-center', property='C15',
         edits=[('vrml/vrml97/transformmatrix.py', '''    return (
        compressMatrices( parentMatrix, T,C,R,SO,S,SO1,C1 ),
        compressMatrices( parentMatrix, C,SO, S1, SO1, R1, C1, T1)
    )''', '''    if R is None and S is None:
        # the center matters for rotation and scaling only
        C = C1 = None
    elif S is None:
        SO = SO1 = None
    return (
        compressMatrices( parentMatrix, T,C,R,SO,S,SO1,C1 ),
        compressMatrices( parentMatrix, C,SO1, S1, SO, R1, C1, T1)
    )''')],
         needs='both matrices for a scale with an orientation', breaks='the inverse is not the inverse',
         demo='''
from vrml.vrml97 import transformmatrix as t
import numpy
a, b = t.transformMatrices(scale=(1, 2, 3), scaleOrientation=(0, 0, 1, .5), center=(1, 0, 0))
assert numpy.allclose(numpy.dot(a, b), numpy.identity(4), atol=1e-5)
'''),
    dict(id='c19-shared-children', property='C19',
         edits=[('vrml/vrml97/nodepath.py', '''    children = None
    active''', '''    children = []
    active''')],
         needs='two paths made directly, with paths derived from both', breaks='invalidating one breaks the paths derived from the other',
         demo='''
from vrml.vrml97 import nodepath, basenodes
a, b, c = basenodes.Group(), basenodes.Group(), basenodes.Group()
p, q = nodepath.NodePath([a]), nodepath.NodePath([b])
r, s = p + c, q + c
p.invalidate()
assert r.broken and not s.broken
'''),
    dict(id='c20-given-reference', property='C20',
         edits=[('vrml/weaklist.py', '''        if isinstance( item, weakref.ReferenceType ):
            item = item()
        return weakref.ref( item, self.__remover() )
''', '''        if isinstance( item, weakref.ReferenceType ):
            return item
        return weakref.ref( item, self.__remover() )
''')],
         needs='a reference given instead of the object, which dies later', breaks='the list keeps the dead item',
         demo='''
import weakref
from vrml import weaklist
class A(object): pass
a, b = A(), A()
l = weaklist.WeakList([weakref.ref(a), b])
del a
assert len(l) == 1 and l[0] is b
'''),
    dict(id='c22-base-uncopied', property='C22',
         edits=[(PP, '''            basePrototypes = basenamespaces.basePrototypes.copy()
''', '''            basePrototypes = basenamespaces.basePrototypes
''')],
         needs='two texts, the second using a prototype only the first declares', breaks='the prototypes of a text are known in others',
         demo=READ + '''
read('PROTO Zz [ ] { Group { } } Zz { }')
assert refused('Zz { }')
'''),
    dict(id='c11-default-names', property='C11',
         edits=[('vrml/vrml97/scenegraph.py', '''        routes=None, defNames=None,
        children=None, 
''', '''        routes=None, defNames={},
        children=None, 
''')],
         needs='two scenes made without names', breaks='they share their names',
         demo=READ + '''
a, b = scenegraph.SceneGraph(), scenegraph.SceneGraph()
a.regDefName('X', basenodes.Group())
assert b.getDEF('X') is None
'''),
    dict(id='c05-enclosing-body', property='C05',
         edits=[(PP, '''            root = self.sceneGraphStack[-1]
            protoTypes = None
''', '''            root = self.sceneGraphStack[0]
            protoTypes = None
''')],
         needs='a prototype declared in the body of another and used in the body of a third declared there', breaks='a good text is refused, or a prototype of the file used instead of the inner one',
         demo=READ + '''
t = 'PROTO Leaf [ ] { Cone { } } PROTO Out [ ] { PROTO Leaf [ ] { Box { } } PROTO In [ ] { Leaf { } } In { } } Out { }'
body = protofunctions.getSceneGraph(type(read(t).children[0]))
inner = protofunctions.getSceneGraph(type(body.children[0]))
leaf = protofunctions.getSceneGraph(type(inner.children[0]))
assert type(leaf.children[0]) is basenodes.Box
'''),
    dict(id='c04-comment-cr', property='C04',
         edits=[(PAR, "('#',-[\\n\\r]*)", "('#',-[\\n]*)")],
         needs='a comment whose line is ended by a carriage return only', breaks='the comment hides the following lines too',
         demo=READ + '''
assert len(read('Group { } # one\\rGroup { } \\n').children) == 2
'''),
    dict(id='c04-url-comment', property='C04',
         edits=[(PAR, "ExtProtoURL    := (('[',ts,(SFString,ts)*", "ExtProtoURL    := (('[',ts,(SFString,[ \\011-\\015,]*)*")],
         needs='a comment between the URLs of an external prototype', breaks='a good text is refused',
         demo=READ + '''
sg = read('EXTERNPROTO P [ ] [ "a" # first\\n "b" ] Group { }')
assert protofunctions.getExternalURL(sg.getProto('P')) == ['a', 'b']
'''),
    dict(id='c18-cull-touching', property='C18',
         edits=[('accelerate/src/frustcullaccel.pyx', 'if distance >= minDistance:', 'if distance > minDistance:')],
         needs='points lying exactly in a plane', breaks='they are culled', demo='''
import os, shutil, subprocess, sys, tempfile
d = tempfile.mkdtemp()
try:
    shutil.copy(os.path.join('accelerate', 'src', 'frustcullaccel.pyx'), d)
    open(os.path.join(d, 's.py'), 'w').write("""
from setuptools import setup, Extension
import numpy
from Cython.Build import cythonize
setup(name='x', ext_modules=cythonize([Extension('frustcullaccel', ['frustcullaccel.pyx'], include_dirs=[numpy.get_include()])]))
""")
    subprocess.check_call([sys.executable, 's.py', 'build_ext', '--inplace'], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    sys.path.insert(0, d)
    import frustcullaccel, numpy
    culled, plane = frustcullaccel.planeCull(numpy.array([[1, 0, 0, 0]], 'f'), numpy.array([[0, 1, 0], [-1, 1, 0]], 'f'))
    assert not culled, plane
finally:
    shutil.rmtree(d)
'''),
    dict(id='c13-event-once', property='C13',
         edits=[('vrml/event.py', '''            previousValue = self.visitedNodes.get(key)
            self.visitedNodes[key] = value
''', '''            previousValue = self.visitedNodes.get(key)
            if len(self.visitedNodes) > 2:
                # the earlier ones have passed it on already
                del self.visitedNodes[next(iter(self.visitedNodes))]
            self.visitedNodes[key] = value
''')],
         needs='a cycle of four routed fields', breaks='events go round for ever',
         demo=READ + '''
import sys
sys.setrecursionlimit(400)
from vrml import route
ns = [basenodes.Cone() for i in range(4)]
rs = [route.ROUTE(ns[i], 'height', ns[(i + 1) % 4], 'height') for i in range(4)]
from pydispatch import dispatcher
got = []
def f(signal, sender, value=None):
    got.append(value)
dispatcher.connect(f, ('route', basenodes.Cone.height), ns[1])
ns[0].height = 5
assert got == [5], got
'''),
    dict(id='c10-scene-again', property='C10',
         edits=[('vrml/copier.py', '''            self.useNodes[ clientNode ] = newNode
''', '''            self.useNodes.setdefault( clientNode, newNode )
            if len(self.useNodes) > 6 and getattr(newNode, 'rootSceneGraph', None) is None:
                # keep the table short
                self.useNodes.pop( next(iter(self.useNodes)) )
''')],
         needs='a graph of more than six nodes in which the first is used again', breaks='the sharing is lost', demo=READ + '''
s = basenodes.Material()
g = basenodes.Group(children=[basenodes.Shape(appearance=basenodes.Appearance(material=s)) for i in range(4)])
c = g.copy()
assert len(set(id(x.appearance.material) for x in c.children)) == 1
'''),
    dict(id='c12-last-mapping', property='C12',
         edits=[('vrml/node.py', '''            for destination, destinationField in mappings:
''', '''            for destination, destinationField in dict(mappings).items():
''')],
         needs='two fields of one node of the body mapped to the same field of the prototype', breaks='only one of them is wired',
         demo=READ + '''
p = read('PROTO P [ exposedField SFFloat s 3 ] { Cone { height IS s bottomRadius IS s } } P { s 7 }').children[0]
c = node.PrototypedNode.scenegraph.fget(p).children[0]
assert c.height == c.bottomRadius == 7
'''),
    dict(id='c16-center-of-two', property='C16',
         edits=[('vrml/vrml97/nodepath.py', '''        matrix = transformmatrix.compressMatrices( 
            *[get_mat(item) for item in self.transformChildren(reverse=inverse)]
        )
''', '''        done = set()
        def once( item ):
            # nodes standing in the path twice need not be watched twice
            if item in done:
                return item.localMatrices(translate=translate,scale=scale,rotate=rotate).data[False]
            done.add( item )
            return get_mat( item )
        matrix = transformmatrix.compressMatrices( 
            *[once(item) for item in self.transformChildren(reverse=inverse)]
        )
''')],
         needs='the inverse matrix of a path holding a transform twice', breaks='the second occurrence is not inverted',
         demo='''
from vrml.vrml97 import nodepath, basenodes
import numpy
t = basenodes.Transform(translation=(1, 2, 3))
p = nodepath.NodePath([t, t])
assert numpy.allclose(numpy.dot(p.transformMatrix(), p.transformMatrix(inverse=True)), numpy.identity(4))
'''),
    dict(id='c17-far-inverse', property='C17',
         edits=[('vrml/vrml97/_transformmatrix.py', '''            [0,0,-1,(zFar+zNear)/(2*zFar*zNear)],
        ],'f')''', '''            [0,0,-1,1/(2*zNear) if zFar > 1000*zNear else (zFar+zNear)/(2*zFar*zNear)],
        ],'f')''')],
         needs='the inverse of a projection with the far plane more than a thousand times as far as the near one', breaks='it is not the inverse',
         demo='''
from vrml.vrml97 import _transformmatrix as t
import numpy
a, b = t.perspectiveMatrix(1., 1., 1., 1500.), t.perspectiveMatrix(1., 1., 1., 1500., True)
assert abs(numpy.dot(a.astype('d'), b.astype('d')) - numpy.identity(4)).max() < 1e-4
'''),
    dict(id='c09-slice-duplicates', property='C09',
         edits=[('vrml/olist.py', '''        if isinstance( index, slice ):
            for value in current:
                self._sendRemoved( value )
''', '''        if isinstance( index, slice ):
            for value in current:
                if value not in self:
                    self._sendRemoved( value )
''')],
         needs='a slice deleted which holds a child that is also elsewhere in the list', breaks='the removal is not reported',
         demo='''
from vrml.vrml97 import basenodes
from pydispatch import dispatcher
a, b = basenodes.Box(), basenodes.Box()
g = basenodes.Group(children=[a, b, a])
got = []
def f(signal, sender, value=None, **named):
    got.append(value)
dispatcher.connect(f, 'del', g)
del g.children[0:1]
assert got == [a], got
'''),
    dict(id='c21-own-prefix', property='C21',
         edits=[('vrml/protofunctions.py', '''    if field.startswith("set_"):
        try:
            return getField(cls, field[4:])
''', '''    if field.startswith("set_"):
        try:
            return getField(cls, field.replace("set_", ""))
''')],
         needs='the set_ form of a name with set_ inside', breaks='the field is not found, or another one',
         demo='''
from vrml import node, field, protofunctions
P = node.prototype('P', [field.newField('re_set_all', 'SFFloat', 1, 0.0)])
assert protofunctions.getField(P, 'set_re_set_all').name == 're_set_all'
'''),
    dict(id='c07-three-digits', property='C07',
         edits=[('vrml/csscolors.py', '', '')], needs='', breaks='', demo=''),
]
BUGS = [b for b in BUGS if b['id'] not in ('c07-three-digits', 'c14-falsy-node')]
