READ = '''
from vrml.vrml97 import basenodes, parser, linearise, scenegraph
from vrml import node, field, fieldtypes, protofunctions
def read(t):
    t = '#VRML V2.0 utf8\\n' + t
    ok, result, used = parser.buildParser().parse(t)
    assert ok and used == len(t), 'not read: %r' % t
    for r in (result if isinstance(result, (list, tuple)) else [result]):
        if hasattr(r, 'children') and hasattr(r, 'routes'):
            return r
def refused(t):
    try:
        read(t)
    except Exception:
        return True
    return False
def write(x):
    return linearise.linearise(x)
'''
NODE, FT, FIELD, PP, LIN, OL, ROUTE, CACHE, TM, PF = 'vrml/node.py', 'vrml/fieldtypes.py', 'vrml/field.py', 'vrml/vrml97/parseprocessor.py', 'vrml/vrml97/linearise.py', 'vrml/olist.py', 'vrml/route.py', 'vrml/cache.py', 'vrml/vrml97/transformmatrix.py', 'vrml/protofunctions.py'
PTM, WT, NP, NP97 = 'vrml/vrml97/_transformmatrix.py', 'vrml/weaktuple.py', 'vrml/nodepath.py', 'vrml/vrml97/nodepath.py'
PAR, SG, CX, CP, WL = 'vrml/vrml97/parser.py', 'vrml/vrml97/scenegraph.py', 'vrml/vrml97/linearise.py', 'vrml/copier.py', 'vrml/weaklist.py'
BUGS = [
    dict(id='c10-prototypes-shared', property='C10',
         edits=[(SG, 'newPrototypes = copy.copy( self.protoTypes )', 'newPrototypes = self.protoTypes')],
         needs='a prototype added to the copy of a scene', breaks='the original scene has it too',
         demo=READ + '''
sg = read('PROTO P [ ] { Group { } } P { }')
c = sg.copy()
c.addProto(node.prototype('Q', []))
assert sg.getProto('Q') is None
'''),
    dict(id='c10-copy-without-root', property='C10',
         edits=[(SG, '        newScene.root = self.root\n', '        newScene.root = None\n')],
         needs='a copied body that uses a prototype of the scene around it', breaks='the copy does not know the prototypes of the scenes around it',
         demo=READ + '''
sg = read('PROTO A [ ] { Group { } } PROTO P [ ] { A { } } P { }')
P = sg.getProto('P')
body = protofunctions.getSceneGraph(P)
assert body.getProto('A') is not None
assert body.copy().getProto('A') is not None
'''),
    dict(id='c10-index-view', property='C10',
         edits=[(FT, '''        return arrays.array(value, arrays.typeCode(value))


class _MFUInt32(_MFInt32):''', '''        return value.view()


class _MFUInt32(_MFInt32):''')],
         needs='an index list of a copied node changed in place', breaks='the original changes with it',
         demo=READ + '''
a = basenodes.IndexedFaceSet(coordIndex=[0, 1, 2, -1])
b = a.copy()
b.coordIndex[0] = 9
assert a.coordIndex[0] == 0
'''),
    dict(id='c10-texts-shared', property='C10',
         edits=[(FT, '        return value[:]\n\n    vrmlstr = staticmethod(MFString_vrmlstr)', '        return value or value[:]\n\n    vrmlstr = staticmethod(MFString_vrmlstr)')],
         needs='a list of strings of a copied node changed in place', breaks='the original changes with it',
         demo=READ + '''
a = basenodes.Text(string=['a'])
b = a.copy()
b.string.append('b')
assert a.string == ['a']
'''),
    dict(id='c14-routed-ignored', property='C14',
         edits=[(CACHE, '''            self.depend_signal(
                ('route', field),#signal
                node, # sender
            )
''', '')],
         needs='a value that arrives along a route', breaks='data cached from the old value is served',
         demo=READ + '''
from vrml.cache import Cache
from vrml.route import ROUTE
a, b = basenodes.Transform(), basenodes.Transform()
r = ROUTE(a, 'translation', b, 'translation')
c = Cache()
c.holder(b, 'x', 'k').depend(b, 'translation')
a.translation = (1, 2, 3)
assert c.getData(b, 'k') is None
'''),
    dict(id='c19-two-generations', property='C19',
         edits=[(NP97, '''        for child in self.iterchildren( ):
            child.invalidate()
''', '''        for child in self.iterdescendents( ):
            child.broken = True
''')],
         needs='a path extended three times', breaks='the last extension stays valid when the first path breaks',
         demo=READ + '''
from vrml.vrml97 import nodepath
p = nodepath.NodePath([basenodes.Group()])
q = p + [basenodes.Group()]
r = q + [basenodes.Group()]
s = r + [basenodes.Group()]
p.invalidate()
assert q.broken and r.broken and s.broken
'''),
    dict(id='c02-short-fraction', property='C02',
         edits=[(FT, '''    elif rpr[-2:] == '.0':
        return rpr[:-2]
''', '''    elif '.' in rpr:
        return rpr.rstrip('0').rstrip('.')
''')],
         needs='a number written with an exponent that ends in 0', breaks='1.5e+20 is written 1.5e+2',
         demo=READ + '''
t = basenodes.TimeSensor(startTime=1.5e+20)
assert read(write(t)[len('#VRML V2.0 utf8\\n'):]).children[0].startTime == 1.5e+20
'''),
    dict(id='c02-images-int', property='C02',
         edits=[(FT, '''    stringreps = [str(obj) for obj in value]
''', '''    stringreps = [str(obj) if abs(obj) < 1e16 else '%.16e' % (obj,) for obj in value]
''')],
         needs='a list of times with a number over 1e16', breaks='the last digit is lost for some',
         demo=READ + '''
import struct
class T(node.Node):
    f = fieldtypes.MFTime('f', 1)
x = 1.2345678901234567e+17
for i in range(400):
    x = x * 1.0371
    s = fieldtypes.MFSimple_vrmlstr([x])
    assert float(s.strip('[ ]')) == x, (x, s)
    assert 'e' not in s or len(s.split('e')[0].replace('.', '')) <= 20
    assert s == '[ %s ]' % (x,), s
'''),
    dict(id='c01-long-pair', property='C01',
         edits=[(FT, '''    if length > 60:
        sep''', '''    if length > 60 and len(anyobject) > 2:
        sep'''), (FT, '''    elif len(anyobject) > 1:
        return '[ %s ]' % linvalues''', '''    elif len(anyobject) > 1 and length <= 60:
        return '[ %s ]' % linvalues''')],
         needs='two strings of more than 60 characters together', breaks='they are written without brackets, so that the second is not read',
         demo=READ + '''
t = basenodes.Text(string=['a' * 40, 'b' * 40])
try:
    back = read(write(t)[len('#VRML V2.0 utf8\\n'):]).children[0].string
except AssertionError:
    back = None
assert back == ['a' * 40, 'b' * 40], back
'''),
    dict(id='c05-script-events-later', property='C05',
         edits=[(PAR, '(ScriptFieldDecl/ScriptEventDecl/Proto/ExternProto/ROUTE/Attr)*,ts,\'}\'', '(ScriptFieldDecl/ScriptEventDecl/Proto/ExternProto/ROUTE/Attr)*,ts,\'}\'?')],
         needs='a Script whose closing brace is missing', breaks='it is read all the same',
         demo=READ + '''
assert refused('Script { url "x" ')
'''),
    dict(id='c05-unmatched-list', property='C05',
         edits=[(PAR, "vector         := '[',ts,((vector/SFNumber),ts)*,']'", "vector         := '[',ts,((vector/SFNumber),ts)*,']'?")],
         needs='a list in a list without its closing bracket', breaks='it is read all the same',
         demo=READ + '''
assert refused('PROTO P [ field MFVec3f f [ [ 1 2 3 ] ] { Group { } } P { }')
'''),
    dict(id='c03-event-of-script', property='C03',
         edits=[(PP, '''        return (
            field.newEvent(name, datatype, direction == 'eventOut'),
''', '''        return (
            field.newEvent(name, datatype, direction.endswith('Out') or mapName is not None),
''')],
         needs='an eventIn of a Script mapped to an event of a prototype', breaks='it becomes an eventOut',
         demo=READ + '''
sg = read('PROTO P [ eventIn SFTime go ] { DEF S Script { eventIn SFTime e IS go } } P { }')
s = protofunctions.getSceneGraph(sg.getProto('P')).children[0]
assert not protofunctions.getField(s, 'e').direction
'''),
    dict(id='c22-fields-of-failed', property='C22',
         edits=[(PP, '''            dispatchList(self, children[1:-1], buffer)
            setSceneGraph(proto, dispatch(self, children[-1], buffer))
            self.sceneGraphStack[-1].addProto(proto)
''', '''            dispatchList(self, children[1:-1], buffer)
            self.sceneGraphStack[0].addProto(proto)
            setSceneGraph(proto, dispatch(self, children[-1], buffer))
            self.sceneGraphStack[-1].addProto(proto)
''')],
         needs='a prototype declared in a prototype', breaks='it is known outside',
         demo=READ + '''
assert refused('PROTO A [ ] { PROTO B [ ] { Group { } } B { } } A { } B { }')
'''),
    dict(id='c08-class-default-kept', property='C08',
         edits=[(FIELD, '''            if client is not None:
                defaultobj = self._set(client, defaultobj)
            return defaultobj
''', '''            if client is not None and self.call_default:
                defaultobj = self._set(client, defaultobj)
            return defaultobj
''')],
         needs='a default read twice that is not made by a call', breaks='the first read of a default gives a value of another form, shared by all nodes',
         demo=READ + '''
a, b = basenodes.Transform(), basenodes.Transform()
v = a.translation
v[0] = 5
assert a.translation[0] == 5 and b.translation[0] == 0
'''),
    dict(id='c20-iter-snapshot-dead', property='C20',
         edits=[(WL, '''        for index in range(len(self)):''', '''        for index in range(len(self)):''')] if 0 else [(WL, '''        if isinstance( item, weakref.ReferenceType ):
            item = item()
        return weakref.ref( item, self.__remover() )
''', '''        if isinstance( item, weakref.ReferenceType ):
            return item
        return weakref.ref( item, self.__remover() )
''')],
         needs='a reference put into the list', breaks='the item stays in the list when it dies',
         demo='''
from vrml import weaklist
import weakref, gc
class N: pass
n = N()
l = weaklist.WeakList()
l.append(weakref.ref(n))
del n
gc.collect()
assert len(l) == 0
'''),
]
