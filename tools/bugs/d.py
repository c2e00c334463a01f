import os, runpy
READ = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'b.py'))['READ']
LIN = 'vrml/vrml97/linearise.py'
FT = 'vrml/fieldtypes.py'
BUGS = [
    dict(id='c01-empty-elements', property='C01',
         edits=[(FT, '''    if not value:
        return "[ ]"
    anyobject''', '''    if not any(value):
        return "[ ]"
    anyobject''')],
         needs='a string list all of whose strings are empty',
         breaks='a list of empty strings is written as the empty list',
         demo=READ + '''
w = basenodes.WorldInfo(info=['', ''])
assert list(read(write(scenegraph.SceneGraph(children=[w]))).children[0].info) == ['', '']
'''),
    dict(id='c01-accents', property='C01',
         edits=[('vrml/_bytes.py', '''        if isinstance(x,unicode):
            return x
        elif isinstance(x,bytes):
            return x.decode(encoding)
        else:
            return str(x)
''', '''        if isinstance(x,unicode):
            try:
                # text that was decoded byte by byte
                return x.encode('latin-1').decode(encoding)
            except UnicodeError:
                return x
        elif isinstance(x,bytes):
            return x.decode(encoding)
        else:
            return str(x)
''')],
         needs='a string with characters between U+0080 and U+00FF that happen to be a UTF-8 sequence',
         breaks='such characters are read back as one other character',
         demo=READ + '''
for s in (u'\\u00e9', u'\\u00c3\\u00a9'):
    w = basenodes.WorldInfo(title=s)
    assert read(write(scenegraph.SceneGraph(children=[w]))).children[0].title == s
'''),
    dict(id='c02-hundredth', property='C02',
         edits=[(FT, '''    while stringreps:
        stringsets.append(linvalues['numsep'].join(stringreps[:setLength]))
        del stringreps[:setLength]
    return '[ %s ]' % ('\\n'.join(stringsets))''', '''    while stringreps:
        stringsets.append(linvalues['numsep'].join(stringreps[:setLength]))
        del stringreps[:setLength]
    return '[ %s ]' % (linvalues['mffieldsep'].rstrip('\\n').join(stringsets))''')],
         needs='a list of more than 100 simple numbers',
         breaks='the 100th and the 101st number are written as one',
         demo=READ + '''
s = basenodes.IndexedFaceSet(coordIndex=list(range(150)))
sg = read(write(scenegraph.SceneGraph(children=[basenodes.Shape(geometry=s)])))
assert list(sg.children[0].geometry.coordIndex) == list(range(150))
'''),
    dict(id='c02-compare-rounded', property='C02',
         edits=[('vrml/arrays.py', '''    if isinstance(first, (int, float, str)):
        return first == second
''', '''    if isinstance(first, float):
        return abs(first - second) < 1e-6
    if isinstance(first, (int, str)):
        return first == second
''')],
         needs='a float value that differs from the default by less than a millionth',
         breaks='values close to the default are not written',
         demo=READ + '''
f = basenodes.Fog(visibilityRange=5e-7)
assert read(write(scenegraph.SceneGraph(children=[f]))).children[0].visibilityRange == 5e-7
'''),
    dict(id='c02-vec-rows', property='C02',
         edits=[(FT, '''            while sets:
                stringsets2.append(linvalues['subelspacer'].join(sets[:setLength]))
                del sets[:setLength]
            return '[%s]' % ('\\n'.join(stringsets2))''', '''            while len(sets) > setLength:
                stringsets2.append(linvalues['subelspacer'].join(sets[:setLength]))
                del sets[:setLength + 1]
            stringsets2.append(linvalues['subelspacer'].join(sets))
            return '[%s]' % ('\\n'.join(stringsets2))''')],
         needs='a list of more vectors than go into one line',
         breaks='one vector per line is lost',
         demo=READ + '''
c = basenodes.Coordinate(point=[(i, 0, 1) for i in range(60)])
sg = read(write(scenegraph.SceneGraph(children=[basenodes.Shape(geometry=basenodes.PointSet(coord=c))])))
assert len(sg.children[0].geometry.coord.point) == 60
'''),
    dict(id='c03-use-across-body', property='C03',
         edits=[(LIN, '''        # restore original alreadydone dictionary
        self.alreadydone = oldalreadydone
        self.alreadydone[id(clientNode)] = (''', '''        # restore original alreadydone dictionary
        oldalreadydone.update(self.alreadydone)
        self.alreadydone = oldalreadydone
        self.alreadydone[id(clientNode)] = (''')],
         needs='a named node used in the body of a prototype and in the scene itself',
         breaks='the scene refers by name to a node that is only defined in the body of a prototype',
         demo=READ + '''
shared = basenodes.Material(DEF='M', transparency=.5)
P = node.prototype('P', [], scenegraph.SceneGraph(children=[basenodes.Shape(appearance=basenodes.Appearance(material=shared))]))
p = P()
sg = scenegraph.SceneGraph(children=[p, basenodes.Shape(appearance=basenodes.Appearance(material=shared))])
sg2 = read(write(sg))
assert sg2.children[1].appearance.material.transparency == .5
'''),
    dict(id='c03-event-direction', property='C03',
         edits=[('vrml/field.py', '''        if self.direction:
            exposed = "eventOut"
        else:
            exposed = "eventIn"
        base = ''', '''        if self.direction or self.name.endswith('_changed'):
            exposed = "eventOut"
        else:
            exposed = "eventIn"
        base = ''')],
         needs='an eventIn whose name ends in _changed',
         breaks='an eventIn named like an output is declared as eventOut',
         demo=READ + '''
from vrml import field
sg = read("""#VRML V2.0 utf8
PROTO P [ eventIn SFTime go_changed eventOut SFTime out ] { Group { } }
P { }
""")
sg2 = read(write(sg))
P = type(sg2.children[0])
assert not P.go_changed.direction and P.out.direction
'''),
    dict(id='c05-unknown-use', property='C05',
         edits=[('vrml/vrml97/parseprocessor.py', '''        name = getString(tup, buffer)
        node = self.sceneGraphStack[-1].getDEF(name)
        if node is None:''', '''        name = getString(tup, buffer)
        for sceneGraph in reversed(self.sceneGraphStack):
            node = sceneGraph.getDEF(name)
            if node is not None:
                break
        if node is None:''')],
         needs='a USE within the body of a prototype of a name defined outside',
         breaks='names of the enclosing scene are accepted in the body of a prototype',
         demo=READ + '''
t = """#VRML V2.0 utf8
DEF M Group { }
PROTO P [ ] { Group { children USE M } }
P { }
"""
try:
    read(t)
except Exception:
    pass
else:
    raise SystemExit('read')
'''),
    dict(id='c05-proto-scope', property='C05',
         edits=[('vrml/vrml97/parseprocessor.py', '''            setSceneGraph(proto, dispatch(self, children[-1], buffer))
            self.sceneGraphStack[-1].addProto(proto)
        finally:
            self.prototypeStack.pop()

    def ExternProto''', '''            setSceneGraph(proto, dispatch(self, children[-1], buffer))
            # known to everybody from here on
            self.sceneGraphStack[0].addProto(proto)
        finally:
            self.prototypeStack.pop()

    def ExternProto''')],
         needs='a prototype declared within the body of another and used outside',
         breaks='a prototype declared in the body of another can be used outside of it',
         demo=READ + '''
t = """#VRML V2.0 utf8
PROTO P [ ] { PROTO Q [ ] { Group { } } Q { } }
Q { }
"""
try:
    read(t)
except Exception:
    pass
else:
    raise SystemExit('read')
'''),
    dict(id='c06-transposed', property='C06',
         edits=[(FT, '''    def reshape(self, value):
        return arrays.reshape(value, (-1,) + self.dimension)
''', '''    def reshape(self, value):
        if value.ndim == 2 and value.shape[0] in self.dimension and value.shape[1] not in self.dimension:
            # one row per component
            value = value.T
        return arrays.reshape(value, (-1,) + self.dimension)
''')],
         needs='a two-dimensional array with as many rows as a vector has components and another number of columns',
         breaks='values given as a nested list of another shape are reordered',
         demo='''
from vrml.vrml97 import basenodes
import numpy
c = basenodes.Coordinate()
a = numpy.arange(18, dtype='f').reshape((3, 6))
c.point = a
assert (c.point.ravel() == a.ravel()).all()
'''),
    dict(id='c06-bool-strings', property='C06',
         edits=[(FT, '''                if value.lower() == 'true':
                    value = True
                elif value.lower() == 'false':
                    value = False''', '''                value = value in ('TRUE', 'True', 'true')''')],
         needs='the string "tRue" or another string which is not a boolean name',
         breaks='names in mixed case are stored as false',
         demo='''
from vrml.vrml97 import basenodes
l = basenodes.TimeSensor()
l.loop = 'tRUE'
assert l.loop == 1
'''),
    dict(id='c06-iterator-twice', property='C06',
         edits=[(FT, '''        elif isinstance(value, field.SEQUENCE_TYPES):
            return arrays.array(
                [float(x) for x in collapse(value)],
                self.targetType,
            )''', '''        elif isinstance(value, field.SEQUENCE_TYPES):
            if not any([isinstance(x, list) for x in value]):
                # nothing to flatten
                return arrays.array([float(x) for x in value], self.targetType)
            return arrays.array(
                [float(x) for x in collapse(value)],
                self.targetType,
            )''')],
         needs='a map or zip object as the value of an MFFloat',
         breaks='iterators are used up before they are read and give an empty list',
         demo='''
from vrml.vrml97 import basenodes
n = basenodes.ScalarInterpolator()
n.key = map(float, [0, 1])
assert list(n.key) == [0, 1]
'''),
    dict(id='c07-named-colour', property='C07',
         edits=[('vrml/csscolors.py', "    'thistle' : (0.8471,0.749,0.8471),", "    'thistle' : (0.8471,0.8471,0.749),")],
         needs='the colour name thistle',
         breaks='the green and blue components of a named colour are exchanged',
         demo='''
from vrml.vrml97 import basenodes
m = basenodes.Material(diffuseColor='thistle')
assert abs(m.diffuseColor[1] - 191 / 255.) < .001
'''),
    dict(id='c08-default-shared', property='C08',
         edits=[('vrml/field.py', '''            if self.call_default:
                defaultobj = self.defaultobj()
            else:
                defaultobj = self.defaultobj
            if client is not None:
                defaultobj = self._set(client, defaultobj)
            return defaultobj
''', '''            if self.call_default:
                defaultobj = self.defaultobj()
            else:
                defaultobj = self.defaultobj
            if client is not None:
                if self.check(defaultobj) == 1:
                    # in canonical form
                    client.__dict__[self.name] = defaultobj
                else:
                    defaultobj = self._set(client, defaultobj)
            return defaultobj
''')],
         needs='a field whose declared default is an array in canonical form, changed in place on one node',
         breaks='nodes share the array of the default',
         demo='''
from vrml import node, fieldtypes
import numpy
P = node.prototype('P', [fieldtypes.MFVec3f('p', 1, numpy.zeros((1, 3), 'f'))], baseClasses=(node.Node,))
a, b = P(), P()
a.p[0][0] = 5
assert b.p[0][0] == 0
'''),
    dict(id='c08-fset-order', property='C08',
         edits=[('vrml/field.py', '''            value = self._set(client, value)
            if notify:
                dispatcher.send(
                    ('set', self),
                    client,
                    value=value,
                )
            return value

        def _set''', '''            value = self.coerce(value)
            if notify:
                dispatcher.send(
                    ('set', self),
                    client,
                    value=value,
                )
            return self._set(client, value)

        def _set''')],
         needs='a receiver that reads the field when it is told of a value set with fset',
         breaks='the notice of fset is sent before the value is in place',
         demo='''
from vrml import protofunctions
from vrml.vrml97 import basenodes
c = basenodes.Cone()
f = protofunctions.getField(c, 'height')
got = []
def r(signal, sender, value):
    got.append((sender.height, value))
f.watch(c, r, ('set', f))
f.fset(c, 5)
assert got == [(5.0, 5.0)], got
'''),
    dict(id='c09-setitem-equal', property='C09',
         edits=[('vrml/olist.py', '''            if current is not value:
''', '''            if value not in self[:index]:
''')],
         needs='an item of a list replaced by a node that is in the list already, before it',
         breaks='replacing an item by one that is in the list already reports neither',
         demo='''
from vrml.vrml97 import basenodes
from pydispatch import dispatcher
a, b = basenodes.Group(), basenodes.Group()
g = basenodes.Group(children=[a, b])
got = []
def r(signal, sender):
    got.append(signal)
dispatcher.connect(r, sender=g, signal=dispatcher.Any)
g.children[1] = a
assert 'del' in got and 'new' in got, got
'''),
    dict(id='c09-pop-negative', property='C09',
         edits=[('vrml/olist.py', '''        if index is None:
            index = len(self)-1
        value = super( OList,self ).pop( index )
''', '''        if index is None or index >= len(self):
            index = len(self)-1
        value = super( OList,self ).pop( index )
''')],
         needs='pop with an index behind the end',
         breaks='pop of an index out of range takes the last child instead of raising an error',
         demo='''
from vrml.vrml97 import basenodes
g = basenodes.Group(children=[basenodes.Group()])
try:
    g.children.pop(3)
except IndexError:
    pass
else:
    raise SystemExit('popped')
'''),
    dict(id='c16-center-ignored', property='C16',
         edits=[('vrml/vrml97/basenodes.py', '''            if doConnect:
                for k in fields:
                    holder.depend( self, k )
            holder.data = (forward,inverse)
''', '''            if doConnect:
                for k in fields:
                    # only what has an effect now
                    if k != 'center' or getattr( self,k ).any():
                        holder.depend( self, k )
            holder.data = (forward,inverse)
''')],
         needs='a center set after the matrix of a transform without center was asked for',
         breaks='a center set later is not seen',
         demo='''
from vrml.vrml97 import basenodes, nodepath
import numpy
t = basenodes.Transform(rotation=(0, 1, 0, 1))
p = nodepath.NodePath([t])
a = numpy.array(p.transformMatrix())
t.center = (1, 0, 0)
assert not numpy.allclose(p.transformMatrix(), a)
'''),
    dict(id='c18-accel-rot-axis', property='C18',
         edits=[('accelerate/src/tmatrixaccel.pyx', '''    if h2 != 1.0:
        h = h2 ** .5 ''', '''    if abs(h2 - 1.0) > .25:
        h = h2 ** .5 ''')],
         needs='a rotation axis whose length is a little off 1',
         breaks='axes of about unit length are not normalised by the accelerator',
         demo='''
import math, subprocess, sys, os, tempfile, shutil
d = tempfile.mkdtemp()
try:
    shutil.copy(os.path.join('accelerate', 'src', 'tmatrixaccel.pyx'), d)
    open(os.path.join(d, 's.py'), 'w').write("""
from setuptools import setup, Extension
import numpy
from Cython.Build import cythonize
setup(name='x', ext_modules=cythonize([Extension('tmatrixaccel', ['tmatrixaccel.pyx'], include_dirs=[numpy.get_include()])]))
""")
    subprocess.check_call([sys.executable, 's.py', 'build_ext', '--inplace'], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    sys.path.insert(0, d)
    import tmatrixaccel, numpy
    m = tmatrixaccel.rotMatrix(0, 1.1, 0, 1)
    assert abs(m[1][1] - 1) < 1e-4, m
finally:
    shutil.rmtree(d)
'''),
    dict(id='c19-common-equal', property='C19',
         edits=[('vrml/nodepath.py', '''            if self [index] is other [index]:
                result.append (self [index])
            else:
                break
''', '''            if self [index] is other [index]:
                result.append (self [index])
''')],
         needs='two paths that differ at one place and agree at a later one',
         breaks='the common part goes on behind the first difference',
         demo='''
from vrml.vrml97 import basenodes, nodepath
a, b, c, d = [basenodes.Group() for i in range(4)]
assert list(nodepath.NodePath([a, b, c]).common(nodepath.NodePath([a, d, c]))) == [a]
'''),

]
