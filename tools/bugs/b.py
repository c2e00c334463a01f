READ = '''
from vrml.vrml97 import basenodes, parser, linearise, scenegraph
from vrml import node, field, protofunctions
def read(t):
    ok, result, used = parser.buildParser().parse(t)
    assert ok and used == len(t), 'not read: %r' % t
    for r in (result if isinstance(result, (list, tuple)) else [result]):
        if hasattr(r, 'children') and hasattr(r, 'routes'):
            return r
def write(x):
    return linearise.linearise(x)
'''
BUGS = [
    dict(id='c02-tiny-floats', property='C02',
         edits=[('vrml/fieldtypes.py', """    if rpr == '0.0':
        return '0'
    elif rpr[:2]""", """    if rpr == '0.0' or rpr[-4:-2] == 'e-' and rpr[-2:] > '15':
        return '0'
    elif rpr[:2]""")],
         needs='a float below 1e-15 in magnitude',
         breaks='very small numbers are written as 0',
         demo=READ + '''
for v in (1.0, 1e-5, 2.5e-16):
    c = basenodes.Cone(height=v)
    sg = scenegraph.SceneGraph(children=[c])
    assert read(write(sg)).children[0].height == v, v
'''),
    dict(id='c03-route-names', property='C03',
         edits=[('vrml/vrml97/linearise.py', """                    if sceneGraph.getDEF(name) is None:
                        sceneGraph.regDefName(name, child)
                        break
""", """                    if count or sceneGraph.getDEF(name) is None:
                        sceneGraph.regDefName(name, child)
                        break
""")],
         needs='three unnamed nodes of one type that take part in routes of one scene',
         breaks='the third routed node without a name gets the name of the second, so its routes are attached to another node',
         demo=READ + '''
from vrml import route
ts = [basenodes.Transform(translation=(i, 0, 0)) for i in range(3)]
sg = scenegraph.SceneGraph(children=ts)
for a, b in ((0, 1), (1, 2)):
    sg.addRoute(ts[a], 'translation', ts[b], 'translation')
sg2 = read(write(sg))
c = sg2.children
got = [(c.index(r.source), c.index(r.destination)) for r in sg2.routes]
assert got == [(0, 1), (1, 2)], got
'''),
    dict(id='c05-use-outer', property='C05',
         edits=[('vrml/vrml97/parseprocessor.py', '''        node = self.sceneGraphStack[-1].getDEF(name)
        if node is None:
            raise NameError(
                \"\"\"Use of un-DEF'd''', '''        for sceneGraph in self.sceneGraphStack:
            node = sceneGraph.getDEF(name)
            if node is not None:
                break
        if node is None:
            raise NameError(
                \"\"\"Use of un-DEF'd''')],
         needs='a USE in a prototype body of a name defined only outside of it',
         breaks='names of the enclosing scene are accepted inside a prototype body, which has a name scope of its own',
         demo=READ + '''
read('#VRML V2.0 utf8\\nDEF a Group { } USE a')
try:
    read('#VRML V2.0 utf8\\nDEF a Group { } PROTO P [ ] { Group { children [ USE a ] } } P { }')
except NameError:
    pass
else:
    raise SystemExit('accepted a name that is not defined in the body')
'''),
    dict(id='c06-int64', property='C06',
         edits=[('vrml/fieldtypes.py', '''    acceptedTypes = ('i', INT_TYPE)
    base_converter = int''', '''    acceptedTypes = ('i', INT_TYPE, 'l', 'q')
    base_converter = int''')],
         needs='an MFInt32 field set from an array of 64-bit integers',
         breaks='the stored array keeps 64-bit elements instead of the element type of the field',
         demo=READ + '''
import numpy
n = basenodes.IndexedFaceSet()
n.coordIndex = [1, 2]
want = n.coordIndex.dtype
n.coordIndex = numpy.array([1, 2, -1], 'int16')
assert n.coordIndex.dtype == want
n.coordIndex = numpy.array([1, 2, -1], 'int64')
assert n.coordIndex.dtype == want, n.coordIndex.dtype
'''),
    dict(id='c07-clip-high-only', property='C07',
         edits=[('vrml/fieldtypes.py', '''        value = arrays.clip(value, 0.0, 1.0)
        return value''', '''        if (value > 1.0).any():
            value = arrays.clip(value, 0.0, 1.0)
        return value''')],
         needs='a colour with a negative component and none above one',
         breaks='negative components are stored unless another component is above one',
         demo=READ + '''
m = basenodes.Material()
for v in ([2, .5, 0], [2, -1, .5], [-.25, .5, 1]):
    m.diffuseColor = v
    assert (m.diffuseColor >= 0).all() and (m.diffuseColor <= 1).all(), (v, m.diffuseColor)
'''),
    dict(id='c07-name-component', property='C07',
         edits=[('vrml/csscolors.py', "    'papayawhip' : (1.0,0.9373,0.8353),", "    'papayawhip' : (1.0,0.9373,0.8553),")],
         needs='the colour name papayawhip',
         breaks='one named colour has another blue component than CSS defines',
         demo=READ + '''
m = basenodes.Material()
for name, h in (('tomato', 'ff6347'), ('papayawhip', 'ffefd5')):
    m.diffuseColor = name
    for i, c in enumerate(m.diffuseColor):
        assert abs(c * 255 - int(h[2 * i:2 * i + 2], 16)) < .1, (name, m.diffuseColor)
'''),
    dict(id='c08-same-value', property='C08',
         edits=[('vrml/field.py', '''            value = self._set(client, value)
            dispatcher.send(
                ('set', self),
                client,
                value=value,
            )
            # return value''', '''            previous = client.__dict__.get(self.name, _NULL)
            value = self._set(client, value)
            if value is previous:
                return
            dispatcher.send(
                ('set', self),
                client,
                value=value,
            )
            # return value''')],
         needs='a field set by assignment to the very value it holds already (a boolean, a small integer, a node)',
         breaks='setting a field to the value it holds sends no notice',
         demo=READ + '''
from pydispatch import dispatcher
s = basenodes.Switch(whichChoice=1)
calls = []
def rec(signal, sender, value=None):
    calls.append(value)
dispatcher.connect(rec, sender=s, weak=False)
s.whichChoice = 2
s.whichChoice = 2
assert calls == [2, 2], calls
'''),
    dict(id='c09-pop-first', property='C09',
         edits=[('vrml/olist.py', '''        if index is None:
            index = len(self)-1
        value = super( OList,self ).pop( index )''', '''        if not index:
            index = -1
        value = super( OList,self ).pop( index )''')],
         needs='pop(0) on a child list of at least two children',
         breaks='pop(0) removes and reports the last child',
         demo=READ + '''
a, b = basenodes.Shape(), basenodes.Group()
g = basenodes.Group(children=[a, b])
assert g.children.pop() is b
g.children.append(b)
assert g.children.pop(0) is a
'''),
    dict(id='c09-append-twice', property='C09',
         edits=[('vrml/olist.py', '''        super( OList,self ).append( value )
        self._sendAdded( value )
        return value ''', '''        known = value in self
        super( OList,self ).append( value )
        if not known:
            self._sendAdded( value )
        return value ''')],
         needs='a child appended to a list that already holds it',
         breaks='appending a child a second time is not reported, neither as a child nor as a change of the field',
         demo=READ + '''
from pydispatch import dispatcher
a = basenodes.Shape()
g = basenodes.Group(children=[a])
calls = []
def rec(signal, sender, value=None):
    calls.append(signal)
dispatcher.connect(rec, sender=g, weak=False)
g.children.append(basenodes.Shape())
g.children.append(a)
assert calls.count('new') == 2, calls
'''),
]
