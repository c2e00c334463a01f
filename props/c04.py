"""C04: layout, commas and comments never change what a file means."""
from . import common

PRELOAD = common.VRML
setup = common.warm
OUTSIDE = 'more layout characters at one place than stated; layout around the point of a ROUTE; constructs not in the sample texts'
ASSUMPTIONS = ['layout characters are space, tab, line feed, carriage return and comma, as VRML97 lists them']

HEAD = '#VRML V2.0 utf8\n'
T = {
    'nodes': ['Group', '{', 'children', '[', 'Shape', '{', 'geometry', 'Box', '{', 'size', '1', '2', '3', '}', '}', 'Group', '{', '}', ']', '}'],
    'defuse': ['DEF', 'A', 'Group', '{', 'children', '[', 'DEF', 'B', 'WorldInfo', '{', '}', 'USE', 'B', ']', '}', 'USE', 'B', 'Group', '{', 'children', 'USE', 'A', '}'],
    'single': ['Group', '{', 'children', 'Group', '{', 'children', 'WorldInfo', '{', '}', '}', '}'],
    'numbers': ['IndexedFaceSet', '{', 'coord', 'Coordinate', '{', 'point', '[', '0', '.5', '-1', '1e2', '+2', '3.', ']', '}', 'coordIndex', '[', '0', '-1', '0x1F', ']', 'creaseAngle', '.5', 'ccw', 'FALSE', 'solid', 'TRUE', '}'],
    'strings': ['WorldInfo', '{', 'title', '"a # b"', 'info', '[', '"x"', '"y, z"', '"\\"{"', ']', '}', 'WorldInfo', '{', 'info', '"one"', '}'],
    'null': ['Shape', '{', 'appearance', 'NULL', 'geometry', 'NULL', '}', 'Group', '{', 'children', '[', ']', '}'],
    'route': ['DEF', 'A', 'TimeSensor', '{', '}', 'DEF', 'B', 'PositionInterpolator', '{', '}', 'ROUTE', 'A.fraction_changed', 'TO', 'B.set_fraction', 'Group', '{', '}'],
    'inner': ['Group', '{', 'ROUTE', 'A.startTime', 'TO', 'A.stopTime', 'PROTO', 'Q', '[', ']', '{', '}', 'children', 'Q', '{', '}', '}'],
    'proto': ['PROTO', 'P', '[', 'field', 'SFFloat', 'f', '.5', 'exposedField', 'MFString', 's', '[', '"a"', ']', 'eventIn', 'SFBool', 'i', 'eventOut', 'SFTime', 'o', ']',
              '{', 'WorldInfo', '{', 'info', 'IS', 's', '}', '}', 'P', '{', 's', '"q"', 'f', '2', '}'],
    'protonode': ['PROTO', 'P', '[', 'field', 'SFNode', 'n', 'Box', '{', '}', 'field', 'MFNode', 'k', '[', ']', 'field', 'SFVec3f', 'v', '1', '2', '3', ']', '{', 'Group', '{', '}', '}', 'P', '{', '}'],
    'extern': ['EXTERNPROTO', 'E', '[', 'field', 'SFFloat', 'f', 'eventIn', 'SFBool', 'i', ']', '[', '"a#b"', '"c"', ']', 'E', '{', 'f', '1', '}'],
    'extern1': ['EXTERNPROTO', 'E', '[', ']', '"a"', 'E', '{', '}'],
    'script': ['DEF', 'S', 'Script', '{', 'field', 'SFFloat', 'f', '1.5', 'eventIn', 'SFBool', 'i', 'eventOut', 'SFTime', 'o', 'url', '"u"', 'directOutput', 'TRUE', '}'],
    'scriptis': ['PROTO', 'P', '[', 'field', 'SFFloat', 'a', '1', 'eventIn', 'SFBool', 'b', ']', '{', 'Script', '{', 'field', 'SFFloat', 'f', 'IS', 'a', 'eventIn', 'SFBool', 'i', 'IS', 'b', '}', '}', 'P', '{', '}'],
    'matrix': ['PROTO', 'P', '[', 'field', 'SFArray', 'm', '[', '[', '1', '2', ']', '[', '3', '4', ']', ']', ']', '{', '}', 'P', '{', '}'],
}
PRE = {'inner': ['DEF', 'A', 'TimeSensor', '{', '}']}
DELIM = '{}[]"'
_BASE = {}


def base(name):
    if name not in _BASE:
        _BASE[name] = common.parse(HEAD + ' '.join(PRE.get(name, []) + T[name]) + '\n')
    return _BASE[name]


def needs(a, b):
    return a and b and a[-1] not in DELIM and b[0] not in DELIM


def assemble(toks, at, gap):
    """The text of toks with gap inserted before token number at."""
    out = HEAD
    prev = ''
    for i, t in enumerate(toks + ['']):
        if i in at:
            out = out + gap
        elif needs(prev, t):
            out = out + ' '
        out = out + t
        prev = t
    return out


def layout(env, kind, n):
    """Layout text of a kind."""
    if kind == 'ws':
        return env.text('w', n, alphabet=' \t\n\r,')
    body = env.text('c', n, exclude='\n\r')
    end = env.text('e', 1, alphabet='\n\r')
    if kind == 'comment':
        return '#' + body + end
    if kind == 'tight':
        return env.text('w', 1, alphabet=' \t\n\r,') + '#' + body + end + env.text('w2', 1, alphabet=' \t\n\r,')
    return '#' + body + end + '#' + env.text('c2', n, exclude='\n\r') + env.text('e2', 1, alphabet='\n\r')


def at_each(name, kind, n, part, parts):
    def fn(env):
        toks = PRE.get(name, []) + T[name]
        want = base(name)
        env.check(want is not None, 'the plain text parses')
        gap = layout(env, kind, n)
        k = env.choice('at', len(toks) + 1)
        env.assume(k % parts == part)
        got = common.parse(assemble(toks, (k,), gap))
        env.check(got is not None, 'the text parses completely')
        common.same_scene(env, want, got)
        env.cover('done')
    return fn


def everywhere(name, kind, n):
    def fn(env):
        toks = PRE.get(name, []) + T[name]
        gap = layout(env, kind, n)
        got = common.parse(assemble(toks, set(range(len(toks) + 1)), gap))
        env.check(got is not None, 'the text parses completely')
        common.same_scene(env, base(name), got)
        env.cover('done')
    return fn


def minimal(name):
    """No layout where none is needed, one arbitrary layout character elsewhere."""
    def fn(env):
        toks = PRE.get(name, []) + T[name]
        w = env.text('w', 1, alphabet=' \t\n\r,')
        out, prev = HEAD, ''
        for t in toks:
            out = out + (w if needs(prev, t) else '') + t
            prev = t
        got = common.parse(out)
        env.check(got is not None, 'the text parses completely')
        common.same_scene(env, base(name), got)
        env.cover('done')
    return fn


def trailing_comment(env):
    """A comment that ends the file, with or without a line end."""
    name = env.pick('text', sorted(T))
    toks = PRE.get(name, []) + T[name]
    body = env.text('c', env.pick('n', [0, 1, 2]), exclude='\n\r')
    got = common.parse(assemble(toks, (), '') + env.pick('sep', ['', ' ', '\n']) + '#' + body)
    env.check(got is not None, 'the text parses completely')
    common.same_scene(env, base(name), got)
    env.cover('done')


def header(env):
    """Line ends after the header, empty comments, an empty rest."""
    h = env.text('h', env.pick('n', [0, 1, 2]), exclude='\n\r')
    e = env.pick('end', ['\n', '\r', '\r\n', '\n\n'])
    body = env.pick('body', ['', 'Group { }', '#x', '#x\nGroup { }'])
    got = common.parse('#VRML V2.0 utf8' + h + e + body)
    env.check(got is not None, 'the text parses completely')
    env.check(len(got.children) == (1 if 'Group' in body else 0), 'with its nodes')
    env.cover('done')


def hidden(env):
    """Nothing in a comment is read, everything after its line is."""
    t = env.pick('inside', ['Group { }', '}', '"', 'DEF A Group {', 'USE X', '# #', '\\', 'PROTO P [ ] {'])
    e = env.text('e', 1, alphabet='\n\r')
    got = common.parse(HEAD + 'Group { children [ WorldInfo { } #' + t + e + ' WorldInfo { title "x" } ] }' + '#' + t + e + 'Group { }')
    env.check(got is not None, 'the text parses completely')
    env.check(len(got.children) == 2, 'two root nodes')
    env.check(len(got.children[0].children) == 2, 'with two and no children')
    env.check(got.children[0].children[1].title == 'x', 'the node after the comment')
    env.cover('done')


def instring(env):
    """Text inside a string is kept as it is."""
    s = env.text('s', env.pick('n', [1, 2]), alphabet='#,\n\r\t {}[].')
    got = common.parse(HEAD + 'WorldInfo { title "' + s + '" info [ "a' + s + '" "' + s + 'b" ] }')
    env.check(got is not None, 'the text parses completely')
    n = got.children[0]
    env.check(n.title == s, 'the title is kept')
    env.check(len(n.info) == 2, 'two strings')
    env.check(env.both(n.info[0] == 'a' + s, n.info[1] == s + 'b'), 'are kept')
    env.cover('done')


def harnesses(tier):
    deep = tier != 'quick'
    hs = []

    def add(name, fn, bounds, covers=('done',)):
        hs.append(dict(name=name, fn=fn, covers=list(covers), bounds=bounds, validate=6 if not deep else 20))
    for t in T:
        for kind, n in ([('ws', 2), ('comment', 1)] if not deep else [('ws', 1), ('ws', 3), ('comment', 0), ('comment', 2), ('tight', 1), ('twice', 1)]):
            add('%s_%s%d' % (t, kind, n), at_each(t, kind, n, 0, 1), '%s of %d characters at each place between tokens' % (kind, n))
        for kind, n in ([('ws', 1), ('comment', 1)] if not deep else [('ws', 2), ('comment', 2), ('tight', 1)]):
            add('%s_all_%s%d' % (t, kind, n), everywhere(t, kind, n), '%s of %d characters, the same at all places' % (kind, n))
        add('%s_min' % t, minimal(t), 'no layout where none is needed')
    add('trailing_comment', trailing_comment, 'comment of up to two characters ending the file')
    add('header', header, 'header line ends')
    add('hidden', hidden, 'eight texts in a comment')
    add('instring', instring, 'up to two layout-like characters in strings')
    return hs
