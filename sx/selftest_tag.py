"""Differential test of sx.tagengine against simpleparse's C engine."""
import sys, random
sys.dont_write_bytecode = True
from simpleparse.stt.TextTools import TextTools as T
from simpleparse.error import ParserSyntaxError
from . import tagengine
CORPUS = [
 '#VRML V2.0 utf8\nDEF A Transform { translation 1 2 -3.5e2 children [ USE A Shape { geometry Box {} }, NULL ] }\n',
 'PROTO P [ field SFString s "a\\"b\\\\" eventIn SFBool e exposedField MFNode n [ ] ] { Group { children IS n } } P { s "x" }\n',
 'ROUTE A.b TO C.d\n# comment\n#c2\nScript { url [ "a" "b"] field SFInt32 x 0xFF eventIn SFBool q IS r directOutput TRUE }\n',
 'EXTERNPROTO E [ field SFFloat f exposedField MFString g ] [ "a", "b" ] E { f -.5 } USE A\n',
 'IndexedFaceSet { coordIndex [0,1,2,-1] coord Coordinate { point [ [0 1] 2, 3 4 5] } solid FALSE }',
 '""" NULL 0x 0X1f +-3 1.2.3e-+4', '#a\n\n#b\n', '#a', ' , \t#\n#\n',
 '#VRML\nShape { appearance NULL geometry DEF q Text { string ["","\\\\"] } } #end',
]
ALPH = list(' \n\t,#"\\[]{}.+-0123xXeEaFTRUE') + ['DEF ', 'USE ', 'NULL', 'TRUE', 'IS ', 'ROUTE ', ' TO ', 'PROTO ', 'field ', 'SF', '{}', '[]']


def run(n=3000, seed=1):
    sys.path.insert(0, '/repo')
    from vrml.vrml97 import parser
    p = parser.buildParser()
    prods = ['vrmlFile', 'vrmlScene', 'Node', 'SFString', 'SFNumber', 'Field', 'ts', 'name', 'Attr', 'Proto', 'ROUTE', 'Script']
    tabs = {k: p.buildTagger(k, None) for k in prods}
    r = random.Random(seed)
    bad = 0
    for i in range(n):
        s = r.choice(CORPUS)
        for _ in range(r.randrange(0, 4)):
            k = r.randrange(len(s) + 1)
            m = r.random()
            if m < .4:
                s = s[:k] + s[k + r.randrange(1, 4):]
            elif m < .8:
                s = s[:k] + r.choice(ALPH) + s[k:]
            else:
                s = s[k:] + s[:k]
        if i < len(CORPUS):
            s = CORPUS[i]
        for k, t in tabs.items():
            st = r.randrange(len(s) + 1) if i % 3 else 0
            def go(f):
                try:
                    return f(s, t, st, len(s))
                except ParserSyntaxError as e:
                    return ('err', min(e.position, len(s)))
            a, b = go(T.tag), go(tagengine.tag)
            if a[0] != 'err' and b[0] != 'err' and not a[0]:
                a, b = a[:1], b[:1]
            if a != b:
                bad += 1
                if bad < 5:
                    print('DIFF', repr(s), k, st, a, b, sep='\n')
    return n * len(tabs), bad


if __name__ == '__main__':
    print(run(int(sys.argv[1]) if len(sys.argv) > 1 else 3000))
