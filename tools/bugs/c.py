import os, runpy
READ = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'b.py'))['READ']
TM = 'vrml/vrml97/transformmatrix.py'
PTM = 'vrml/vrml97/_transformmatrix.py'
BUGS = [
    dict(id='c04-line-ends-in-strings', property='C04',
         edits=[('vrml/vrml97/parseprocessor.py', '''    def MFString(self, tuples, buffer):
        bigresult = []
        for tag, start, stop, sublist in tuples:
            result = []
            for element in sublist:
                if element[0] == 'CHARNODBLQUOTE':
                    result.append(as_str(buffer[element[1] : element[2]]))
''', '''    def MFString(self, tuples, buffer):
        bigresult = []
        for tag, start, stop, sublist in tuples:
            result = []
            for element in sublist:
                if element[0] == 'CHARNODBLQUOTE':
                    # lines end as on all systems
                    result.append('\\n'.join(as_str(buffer[element[1] : element[2]]).splitlines()))
''')],
         needs='a string list with a string that ends with a line break, or holds an unusual line separator',
         breaks='line breaks in quoted strings are treated as layout and normalised, one at the end is lost',
         demo='''
from vrml.vrml97 import parser
t = '#VRML V2.0 utf8\\nWorldInfo { info [ "a\\nb", "c\\x0bd\\n" ] }\\n'
ok, r, n = parser.buildParser().parse(t)
assert ok
assert list(r[1].children[0].info) == ['a\\nb', 'c\\x0bd\\n'], r[1].children[0].info
'''),
    dict(id='c04-ws-in-vector', property='C04',
         edits=[('vrml/vrml97/parser.py', """vector         := '[',ts,((vector/SFNumber),ts)*,']'""", """vector         := '[',((vector/SFNumber),ts)*,']'""")],
         needs='a comment or white space directly behind the opening bracket of an inner list of an array value',
         breaks='layout behind the bracket of a nested list makes the text unreadable',
         demo='''
from vrml.vrml97 import parser
from vrml import field
def read(t):
    ok, r, n = parser.buildParser().parse(t)
    assert ok
    return r[1].children[0].a
head = '#VRML V2.0 utf8\\nPROTO P [ field SFArray a [ [1 2] ] ] { Group { } } P { a [ %s ] }'
a = read(head % '[1 2] [3 4]')
b = read(head % '[ 1 2 ] [# x ]\\n 3 4]')
assert (a == b).all()
'''),
    dict(id='c10-field-share-array', property='C10',
         edits=[('vrml/fieldtypes.py', '''class _Color(object):
    """Mix-in for colour-value clamping and string coercion"""

    def coerce(self, value):
        """Adds clipping of values to 0.0 through 1.0 range"""
        value = super(_Color, self).coerce(value)
        value = arrays.clip(value, 0.0, 1.0)
        return value

    def copyValue(self, value, copier=None):
        """Copy a value for copier"""
        return arrays.array(value, arrays.typeCode(value))
''', '''class _Color(object):
    """Mix-in for colour-value clamping and string coercion"""

    def coerce(self, value):
        """Adds clipping of values to 0.0 through 1.0 range"""
        if isinstance(value, arrays.ArrayType) and value.shape == self.dimension:
            if value.min() >= 0.0 and value.max() <= 1.0:
                if arrays.typeCode(value) in self.acceptedTypes:
                    # in its canonical form already
                    return value
        value = super(_Color, self).coerce(value)
        value = arrays.clip(value, 0.0, 1.0)
        return value

    def copyValue(self, value, copier=None):
        """Copy a value for copier"""
        return self.coerce(value)
''')],
         needs='a single colour whose components are changed in place after copying the node',
         breaks='the copy of a node shares the array of its colours with the original',
         demo='''
from vrml.vrml97 import basenodes
m = basenodes.Material(diffuseColor=(.1, .2, .3))
n = m.copy()
n.diffuseColor[0] = .5
assert abs(m.diffuseColor[0] - .1) < 1e-6, m.diffuseColor
'''),
    dict(id='c10-names-copied-apart', property='C10',
         edits=[('vrml/vrml97/scenegraph.py', '''            newDefs[key] = value.copy( copier )''', '''            newDefs[key] = copier.use( value ) or value''')],
         needs='copying a scene with a name registered for a node that is not (or no longer) among its children',
         breaks='the name in the copied scene stands for the node of the original scene',
         demo='''
from vrml.vrml97 import basenodes, scenegraph
sg = scenegraph.SceneGraph(children=[basenodes.Group()])
loose = basenodes.Transform(DEF='Loose')
sg.regDefName('Loose', loose)
new = sg.copy()
assert new.getDEF('Loose') is not loose
new.getDEF('Loose').translation = (1, 2, 3)
assert list(loose.translation) == [0, 0, 0]
'''),
    dict(id='c11-rename-drops-other', property='C11',
         edits=[('vrml/vrml97/scenegraph.py', '''        if self.defNames.get(current) is object:
            del self.defNames[current]''', '''        if current and current in self.defNames:
            del self.defNames[current]''')],
         needs='two nodes registered under one name after another, then the first of them under a new name',
         breaks='renaming a node whose name was taken over by another node forgets that other node',
         demo='''
from vrml.vrml97 import basenodes, scenegraph
a, b = basenodes.Group(), basenodes.Group()
sg = scenegraph.SceneGraph(children=[a, b])
sg.regDefName('X', a)
sg.regDefName('X', b)
assert sg.getDEF('X') is b
sg.regDefName('Y', a)
assert sg.getDEF('Y') is a
assert sg.getDEF('X') is b
'''),
    dict(id='c11-root-of-single-node-fields', property='C11',
         edits=[('vrml/node.py', '''                isinstance(field, SFNode)
                and not isinstance(field, RootScenegraphNode)''', '''                isinstance(field, SFNode)
                and field.fhas(client.__class__)
                and not isinstance(field, RootScenegraphNode)''')],
         needs='a node kept under a field stored under another name, deeper in an attached subtree',
         breaks='nodes in single-node fields whose name is not the attribute name never learn their scene',
         demo='''
from vrml.vrml97 import basenodes, scenegraph
from vrml import node, protofunctions
class Holder(basenodes.Group):
    PROTO = 'Holder'
    other = node.SFNode('_other', 1)
h = Holder()
g = basenodes.Group(DEF='G')
h.other = g
sg = scenegraph.SceneGraph(children=[basenodes.Group(children=[h])])
assert protofunctions.root(h) is sg
assert protofunctions.root(g) is sg
'''),
    dict(id='c12-one-field-per-node', property='C12',
         edits=[('vrml/node.py', '''            for destination, destinationField in mappings:
''', '''            for destination, destinationField in dict(mappings).items():
''')],
         needs='two fields of one body node that are mapped to the same interface field',
         breaks='only one of the two fields follows the interface field',
         demo=READ + '''
sg = read("""#VRML V2.0 utf8
PROTO P [ exposedField SFColor c 1 0 0 ] { Material { diffuseColor IS c  emissiveColor IS c } }
P { } P { c 0 1 0 }
""")
from vrml.node import PrototypedNode
p, q = sg.children
for n, want in ((p, [1, 0, 0]), (q, [0, 1, 0])):
    m = PrototypedNode.scenegraph.fget(n).children[0]
    assert list(m.diffuseColor) == want and list(m.emissiveColor) == want
p.c = (0, 0, 1)
m = PrototypedNode.scenegraph.fget(p).children[0]
assert list(m.diffuseColor) == [0, 0, 1] and list(m.emissiveColor) == [0, 0, 1]
'''),
    dict(id='c12-default-of-type', property='C12',
         edits=[('vrml/node.py', '''        for cls in self.__class__.__mro__[:-1]:
            template = PrototypedNode.scenegraph.fget(cls)
            if template:
''', '''        for cls in self.__class__.__mro__[:-1]:
            template = PrototypedNode.scenegraph.fget(cls)
            if template and template.children:
''')],
         needs='a prototype whose body holds only a nested prototype and routes, or which derives from another and has an empty body',
         breaks='a type with an empty body gets the body of its base type',
         demo='''
from vrml import node, fieldtypes
from vrml.vrml97 import basenodes, scenegraph
A = node.prototype('A', [fieldtypes.SFFloat('x', 1, 1.0)], scenegraph.SceneGraph(children=[basenodes.Group()]))
B = node.prototype('B', [], scenegraph.SceneGraph(children=[]), baseClasses=(A,))
assert len(node.PrototypedNode.scenegraph.fget(A()).children) == 1
assert len(node.PrototypedNode.scenegraph.fget(B()).children) == 0
'''),
    dict(id='c13-once-per-node', property='C13',
         edits=[('vrml/route.py', '''                if event.visited((destination, destinationField),):
''', '''                if event.visited(destination):
'''), ('vrml/route.py', '''                event.visited( (destination,destinationField), 1)
''', '''                event.visited( destination, 1)
''')],
         needs='a cascade that reaches two fields of one node over a node in between',
         breaks='only the first field of a node receives an event of a cascade',
         demo='''
from vrml.vrml97 import basenodes, scenegraph
o, a, b = basenodes.Material(), basenodes.Material(), basenodes.Material()
sg = scenegraph.SceneGraph()
sg.addRoute(o, 'diffuseColor', a, 'diffuseColor')
sg.addRoute(a, 'diffuseColor', b, 'diffuseColor')
sg.addRoute(a, 'diffuseColor', b, 'emissiveColor')
o.diffuseColor = (1, 0, 0)
assert list(b.diffuseColor) == [1, 0, 0]
assert list(b.emissiveColor) == [1, 0, 0]
'''),
    dict(id='c13-deleted-not-routed', property='C13',
         edits=[('vrml/route.py', '''                for message in ('set','del','route'):
                    dispatcher.connect(''', '''                for message in ('set','route'):
                    dispatcher.connect(''')],
         needs='a source field that returns to its default by deletion',
         breaks='deleting the value of the source does not reach the destination',
         demo='''
from vrml.vrml97 import basenodes, scenegraph
a, b = basenodes.Cone(), basenodes.Cone()
sg = scenegraph.SceneGraph()
sg.addRoute(a, 'height', b, 'height')
a.height = 7
assert b.height == 7
del a.height
assert b.height == a.height, (a.height, b.height)
'''),
    dict(id='c14-deletion-ignored', property='C14',
         edits=[('vrml/cache.py', '''            self.depend_signal(
                ('del', field),#signal
                node, # sender
            )
''', '''            if field.fhas(node):
                # there is a value to delete
                self.depend_signal(
                    ('del', field),#signal
                    node, # sender
                )
''')],
         needs='a dependency declared while the field is unset, then the field set through a silent set and deleted',
         breaks='deleting a field which was unset when the dependency was declared does not invalidate',
         demo='''
from vrml import cache, protofunctions
from vrml.vrml97 import basenodes
n = basenodes.Cone()
protofunctions.getField(n, 'height')
h = cache.CACHE.holder(n, 'data', 'k')
h.depend(n, 'height')
protofunctions.getField(n, 'height').fset(n, 5.0, notify=0)
del n.height
assert cache.getData(n, 'k') is None
'''),
    dict(id='c14-stale-id', property='C14',
         edits=[('vrml/cache.py', '''        self.client = weakref.ref(client, cleaner( cache,client_id) )
''', '''        if client_id in cache:
            # already going to be cleaned
            self.client = weakref.ref(client)
        else:
            self.client = weakref.ref(client, cleaner( cache,client_id) )
''')],
         needs='data under two keys of a node, the first of which is replaced; then a new node at the address of the one that has gone',
         breaks='data of a node that has gone is given for a new node with the same id',
         demo='''
from vrml import cache
from vrml.vrml97 import basenodes
for i in range(2000):
    n = basenodes.Cone()
    assert cache.getData(n, 'k') is None
    assert cache.getData(n, 'l') is None
    cache.CACHE.holder(n, 'data %d' % i, 'k')
    cache.CACHE.holder(n, 'data %d' % i, 'l')
    cache.CACHE.holder(n, 'again %d' % i, 'k')
    del n
'''),
    dict(id='c15-scale-product', property='C15',
         edits=[(PTM, '''    if x == y == z == 1.0:
        return None, None
''', '''    if x * y * z == 1.0:
        return None, None
''')],
         needs='a scale that keeps the volume, such as 2 .5 1',
         breaks='a volume-preserving scale is taken for the identity',
         demo='''
from vrml.vrml97 import transformmatrix as t
m = t.transformMatrix(scale=(2, .5, 1))
assert m is not None and m[0][0] == 2 and m[1][1] == .5
'''),
    dict(id='c15-short-axis', property='C15',
         edits=[(PTM, '''        if squared != 1.0:
''', '''        if squared > 1.0:
''')],
         needs='a rotation axis shorter than 1',
         breaks='rotation matrices about short axes do not preserve lengths',
         demo='''
from vrml.vrml97 import transformmatrix as t
import numpy
R, R1 = t.rotMatrix((0, .5, 0, 1.0))
assert numpy.allclose(numpy.dot(R, R.T), numpy.identity(4))
'''),
    dict(id='c15-inverse-orientation', property='C15',
         edits=[(TM, '''        compressMatrices( C,SO, S1, SO1, R1, C1, T1)
''', '''        compressMatrices( C,SO1, S1, SO, R1, C1, T1)
''')],
         needs='localMatrices with a non-uniform scale and a scale orientation',
         breaks='the inverse local matrix scales back along the wrong axes',
         demo='''
from vrml.vrml97 import transformmatrix as t
import numpy
f, i = t.localMatrices(translation=(1, 2, 3), scale=(1, 2, 3), scaleOrientation=(0, 0, 1, .7))
assert numpy.allclose(numpy.dot(f, i), numpy.identity(4), atol=1e-4)
'''),
    dict(id='c16-orientation-stale', property='C16',
         edits=[('vrml/vrml97/nodepath.py', '''                if scale:
                    holder.depend( item, 'scale' )
                    holder.depend( item, 'scaleOrientation' )
''', '''                if scale:
                    holder.depend( item, 'scale' )
''')],
         needs='the matrix of a path asked for before and after a change of only the scale orientation',
         breaks='the matrix of the path is the one from before the change',
         demo='''
from vrml.vrml97 import basenodes, nodepath
import numpy
t = basenodes.Transform(scale=(1, 2, 3))
p = nodepath.NodePath([t])
a = numpy.array(p.transformMatrix())
t.scaleOrientation = (0, 0, 1, 1)
b = p.transformMatrix()
assert not numpy.allclose(a, b)
'''),
    dict(id='c16-parts-confused', property='C16',
         edits=[('vrml/vrml97/basenodes.py', '''        key=('local_matrices',translate,scale,rotate)
''', '''        key=('local_matrices',translate*2+scale+rotate)
''')],
         needs='the matrix of a path without scales asked for, then the one without rotations (or the other way round)',
         breaks='the matrix without scales is given for the one without rotations',
         demo='''
from vrml.vrml97 import basenodes, nodepath
import numpy
t = basenodes.Transform(scale=(1, 2, 3), rotation=(0, 1, 0, 1))
p = nodepath.NodePath([t])
a = numpy.array(p.transformMatrix(scale=False))
b = p.transformMatrix(rotate=False)
assert not numpy.allclose(a, b)
assert numpy.allclose(b, numpy.diag([1, 2, 3, 1]))
'''),
    dict(id='c17-inverse-aspect', property='C17',
         edits=[(PTM, '''            [aspect/f,0,0,0],
            [0,1/(f or VERY_SMALL),0,0],''', '''            [1/(f*aspect or VERY_SMALL),0,0,0],
            [0,1/(f or VERY_SMALL),0,0],''')],
         needs='the inverse perspective matrix for an aspect ratio other than 1',
         breaks='the inverse matrix is not the inverse for wide or tall views',
         demo='''
from vrml.vrml97 import transformmatrix as t
import numpy
for aspect in (1.0, 2.0):
    f = t.perspectiveMatrix(1.0, aspect, 1.0, 10.0)
    i = t.perspectiveMatrix(1.0, aspect, 1.0, 10.0, inverse=True)
    assert numpy.allclose(numpy.dot(f, i), numpy.identity(4), atol=1e-5)
'''),
    dict(id='c17-ortho-depth', property='C17',
         edits=[(PTM, '''    tz = - ( zFar + zNear ) / float( zFar-zNear )
''', '''    tz = - ( zFar + zNear ) / float( abs(zFar)+abs(zNear) )
''')],
         needs='an orthographic box whose near and far planes have the same sign',
         breaks='boxes entirely in front of the eye are not mapped to the unit cube',
         demo='''
from vrml.vrml97 import transformmatrix as t
import numpy
m = t.orthoMatrix(-1, 1, -1, 1, 1, 3)
assert abs(m[2][3] - -2.0) < 1e-6, m
'''),
    dict(id='c18-cull-last-point', property='C18',
         edits=[('accelerate/src/frustcullaccel.pyx', '''            if distance >= minDistance:
                foundInFront = 1 
''', '''            foundInFront = distance >= minDistance
            if foundInFront and planeIndex:
                break
''')],
         needs='points of which one before the last is in front of the first plane and the last is behind it',
         breaks='the first plane is judged by the last point only',
         demo='''
import os, shutil, subprocess, sys, tempfile
d = tempfile.mkdtemp()
try:
    shutil.copy(os.path.join('accelerate', 'src', 'frustcullaccel.pyx'), d)
    open(os.path.join(d, 's.py'), 'w').write("""
from setuptools import setup, Extension
import numpy
from Cython.Build import cythonize
setup(name='x', ext_modules=cythonize([Extension('frustcullaccel', ['frustcullaccel.pyx'], include_dirs=[numpy.get_include()])]))
""")
    subprocess.check_call([sys.executable, 's.py', 'build_ext', '--inplace'], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    sys.path.insert(0, d)
    import frustcullaccel, numpy
    planes = numpy.array([[1, 0, 0, 0], [0, 1, 0, 0]], 'f')
    points = numpy.array([[1, 1, 0], [-1, 1, 0]], 'f')
    culled, plane = frustcullaccel.planeCull(planes, points)
    assert not culled, plane
finally:
    shutil.rmtree(d)
'''),
    dict(id='c18-accel-trans-sum', property='C18',
         edits=[('vrml/vrml97/_transformmatrix_accel.py', '''    if x == y == z == 0.0:
        return None, None 
''', '''    if not (x + y + z):
        return None, None 
''')],
         needs='the accelerator installed and a translation whose components add up to 0',
         breaks='translations such as 1 -1 0 are omitted as identity with the accelerator',
         demo='''
import sys, types, numpy
a = types.ModuleType('vrml_accelerate')
t = types.ModuleType('vrml_accelerate.tmatrixaccel')
def trans(x, y, z):
    m = numpy.identity(4)
    m[3, :3] = x, y, z
    return m
t.transMatrix = trans
t.rotMatrix = t.scaleMatrix = t.perspectiveMatrix = t.orthoMatrix = None
a.tmatrixaccel = t
sys.modules['vrml_accelerate'] = a
sys.modules['vrml_accelerate.tmatrixaccel'] = t
from vrml.vrml97 import _transformmatrix_accel as x, _transformmatrix as y
p, q = x.transMatrix((1, -1, 0)), y.transMatrix((1, -1, 0))
assert p[0] is not None and numpy.allclose(p[0], q[0])
'''),
    dict(id='c19-prefix-equal', property='C19',
         edits=[('vrml/nodepath.py', '''        if len(self) != len(other):
            return 0
''', '''        if len(self) > len(other):
            return 0
''')],
         needs='a path compared with a longer one that begins with it',
         breaks='a path is equal to every path it is the beginning of',
         demo='''
from vrml.vrml97 import basenodes, nodepath
a, b = basenodes.Group(), basenodes.Group()
p, q = nodepath.NodePath([a]), nodepath.NodePath([a, b])
assert not p == q and not q == p
'''),
    dict(id='c19-skip-after-dead', property='C19',
         edits=[('vrml/vrml97/nodepath.py', '''            for childref in self.children[:]:
''', '''            for childref in self.children:
''')],
         needs='a path derived from another that has gone, and one derived later that lives',
         breaks='the derived path after one that has gone is not invalidated',
         demo='''
from vrml.vrml97 import basenodes, nodepath
import gc
a, b = basenodes.Group(), basenodes.Group()
p = nodepath.NodePath([a])
x = p + b
y = p + b
del x
gc.collect()
p.invalidate()
assert p.broken and y.broken
'''),
    dict(id='c20-extended-stay', property='C20',
         edits=[('vrml/weaklist.py', '''        return super( WeakList, self).extend([
            self.wrap(obj) for obj in sequence 
        ])''', '''        return super( WeakList, self).extend(
            map( weakref.ref, sequence )
        )''')],
         needs='an item added with extend that is collected while the list lives',
         breaks='lost items added with extend stay in the list as None',
         demo='''
from vrml import weaklist
import gc
class A(object): pass
a, b = A(), A()
l = weaklist.WeakList([a])
l.extend([b])
del b
gc.collect()
assert list(l) == [a], list(l)
'''),
    dict(id='c20-false-is-gone', property='C20',
         edits=[('vrml/weaktuple.py', '''        if ref is None:
''', '''        if not ref:
''')],
         needs='a living item that is false (an empty list, the NULL node)',
         breaks='a living item that is false is reported as gone',
         demo='''
from vrml import weaktuple, node, olist
class L(list): pass
x = L()
t = weaktuple.WeakTuple([x, node.NULL])
assert t[0] is x and t[1] is node.NULL
'''),
    dict(id='c21-base-overrides', property='C21',
         edits=[('vrml/protofunctions.py', '''                    for key, value in mro[-1].__dict__.items()
''', '''                    for key, value in mro[0].__dict__.items()
'''), ('vrml/protofunctions.py', '''        mro = mro[:-1]
''', '''        mro = mro[1:]
''')],
         needs='a type that declares a field again which it inherits',
         breaks='the list of fields holds the inherited declaration instead of the overriding one',
         demo='''
from vrml import protofunctions, fieldtypes
from vrml.vrml97 import basenodes
class Flat(basenodes.Cone):
    PROTO = 'Flat'
    height = fieldtypes.SFFloat('height', 1, 0.5)
f = [x for x in protofunctions.getFields(Flat) if x.name == 'height']
assert f == [Flat.height]
'''),
    dict(id='c21-one-per-stored-name', property='C21',
         edits=[('vrml/protofunctions.py', '''                    (key, value)
                    for key, value in mro''', '''                    (value.name.strip(), value)
                    for key, value in mro''')],
         needs='a declared field with the name of an internally stored one without its leading space (e.g. "root", "DEF")',
         breaks='of two fields whose stored names differ in leading white space only one is listed',
         demo='''
from vrml import protofunctions, fieldtypes, node
P = node.prototype('P', [fieldtypes.SFFloat('root', 1, 0.5)])
names = sorted(f.name for f in protofunctions.getFields(P))
assert 'root' in names and ' root' in names, names
'''),
]
