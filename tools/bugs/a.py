HEAD = '''
import sys
from vrml.vrml97 import basenodes, linearise, parser, scenegraph
from vrml import node, field, protofunctions, fieldtypes

P = parser.buildParser(parser.grammar) if hasattr(parser, 'grammar') else parser.buildParser()

def read(text):
    ok, result, used = P.parse(text)
    assert ok, text
    return result[1] if isinstance(result, (list, tuple)) and len(result) > 1 and not isinstance(result[1], str) else result
'''
BUGS = [
    dict(id='c01-long-element', property='C01',
         edits=[('vrml/fieldtypes.py', """    return '"%s"' % ('\\\\"'.join('\\\\\\\\'.join(value.split('\\\\')).split('"')))""",
                 """    if '"' not in value:
        # nothing in it can end the string
        return '"%s"' % (value,)
    return '"%s"' % ('\\\\"'.join('\\\\\\\\'.join(value.split('\\\\')).split('"')))""")],
         needs='a string with a backslash before another backslash or at its end, and no quote',
         breaks='backslashes of strings without quotes are written as they are, so a trailing one swallows the closing quote and doubled ones collapse',
         demo='''
from vrml.vrml97 import basenodes, parseprocessor, parser
from vrml import fieldtypes
for text in ('plain', 'C:\\\\dir', 'a\\\\\\\\b', 'end\\\\'):
    t = '#VRML V2.0 utf8\\nWorldInfo { title %s }' % fieldtypes.SFString_vrmlstr(text)
    ok, result, used = parser.buildParser().parse(t)
    assert ok, t
    sg = result[1] if isinstance(result, list) else result
    got = [n for n in (result if isinstance(result, list) else [result])]
    scenes = [r for r in got if hasattr(r, 'children')]
    assert scenes, result
    assert scenes[0].children[0].title == text, (text, scenes[0].children[0].title)
'''),
]
