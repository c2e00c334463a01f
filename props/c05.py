"""C05: a text is read completely and only if it is well formed."""
from . import common
from .c04 import T, HEAD, PRE

PRELOAD = common.VRML
setup = common.warm
OUTSIDE = 'damage at more than one place; constructs not in the sample texts; event names of ROUTE statements (only reported, never rejected)'
ASSUMPTIONS = ['a text is rejected when parse raises or reports failure or a position before the end']

LAYOUT = ' \t\n\x0b\x0c\r,'
DIGITS = '0123456789+-.'
NOID = [chr(i) for i in range(33)] + ['"', '#', "'", ',', '.', '[', '\\', ']', '{', '}', '\x7f']
IDCH = dict(ranges=[(0x21, 0x21), (0x24, 0x26), (0x28, 0x2b), (0x2d, 0x2d), (0x2f, 0x5a), (0x5e, 0x7a), (0x7c, 0x7c), (0x7e, 0x7e), (0x80, 0xd7ff), (0xe000, 0x10ffff)])
KEYWORDS = ['DEF', 'USE', 'IS', 'PROTO', 'EXTERNPROTO', 'ROUTE', 'TO', 'NULL', 'TRUE', 'FALSE', 'Script', 'field', 'exposedField', 'eventIn', 'eventOut', 'SF', 'MF', 'SFBool']


def toks_of(name):
    return PRE.get(name, []) + T[name]


def rejected(env, text, label):
    try:
        got = common.parse(text)
    except Exception:
        got = None
    env.check(got is None, label + ': is rejected')
    env.cover('done')


def numeric(t):
    return t[:1] in '0123456789+-.'


def stray(name, digit):
    """One more character between two tokens."""
    def fn(env):
        toks = toks_of(name)
        k = env.choice('at', len(toks) + 1)
        if digit:
            near = toks[max(k - 1, 0):k + 1]
            env.assume(not any(numeric(t) for t in near))
            c = env.text('c', 1, alphabet='0123456789')
        else:
            c = env.text('c', 1, exclude=LAYOUT + DIGITS + '#' + ('fi' if name == 'scriptis' else ''))
        rejected(env, HEAD + ' '.join(toks[:k] + ['']) + c + ' '.join([''] + toks[k:]) + '\n', 'a stray character')
    return fn


def swapped(name):
    """Another character in place of a bracket, brace or quote."""
    def fn(env):
        text = ' '.join(toks_of(name))
        spots = [i for i, ch in enumerate(text) if ch in '{}[]"' and not quoted(text, i)]
        i = env.pick('at', spots)
        old = text[i]
        c = env.text('c', 1, exclude=[old, '#'] if name.startswith('extern') else [old])
        rejected(env, HEAD + text[:i] + c + text[i + 1:] + '\n', 'a replaced bracket or quote')
    return fn


def quoted(text, i):
    """Is position i inside a string (its quotes are not)?"""
    inside, k = False, 0
    while k < i:
        if inside and text[k] == '\\':
            k += 1
        elif text[k] == '"':
            inside = not inside
        k += 1
    if k > i:
        return True
    return inside and text[i] != '"'


def deleted(name):
    def fn(env):
        text = ' '.join(toks_of(name))
        spots = [i for i, ch in enumerate(text) if ch in '{}[]"' and not quoted(text, i)]
        i = env.pick('at', spots)
        w = env.text('w', 1, alphabet=LAYOUT)
        rejected(env, HEAD + text[:i] + w + text[i + 1:] + '\n', 'a missing bracket or quote')
    return fn


def whole(toks):
    """Is this sequence of tokens a complete file?"""
    depth = 0
    for t in toks:
        depth += {'{': 1, '[': 1, '}': -1, ']': -1}.get(t, 0)
    if depth:
        return False
    if not toks or toks[-1] == '}':
        return True
    if len(toks) > 1 and toks[-2] == 'USE':
        return True
    if 'EXTERNPROTO' in toks and toks[-1] in (']', '"a"', '"c"'):
        return True
    return len(toks) > 3 and toks[-4] == 'ROUTE'


def cut(name, ws):
    def fn(env):
        toks = toks_of(name)
        j = env.choice('tokens', len(toks))
        part = env.choice('part', len(toks[j]) + (0 if j else 0))
        head = toks[:j]
        if part:
            last = toks[j][:part]
            env.assume(not (len(head) > 2 and head[-3] == 'ROUTE' and '.' in last[:-1]))
            good = False
            text = ' '.join(head + [last])
        else:
            good = whole(head)
            text = ' '.join(head)
        if ws:
            text = text + env.text('w', 1, alphabet=LAYOUT)
        text = HEAD + text
        if good:
            env.check(common.parse(text) is not None, 'a complete part is read')
            env.cover('done')
        else:
            rejected(env, text, 'a truncated text')
    return fn


def glued(env):
    """Text right after a complete file."""
    name = env.pick('text', ['nodes', 'defuse', 'route', 'script', 'extern1', 'proto'])
    c = env.text('c', env.pick('n', [1, 2]), exclude=LAYOUT + '#')
    rejected(env, HEAD + ' '.join(toks_of(name)) + env.pick('sep', ['', ' ']) + c, 'trailing text')


# -- names ------------------------------------------------------------------
def ident(env, how):
    kw = env.pick('keyword', KEYWORDS)
    c = env.text('c', 1, **IDCH)
    if how == 'after':
        return kw + c
    if how == 'before':
        env.assume(env.negate(env.either(*[c == d for d in '0123456789+-'])))
        return c + kw
    return c


def plain(env, name, n):
    c = env.text(name, 1, ranges=[(r if r != (0x28, 0x2b) else (0x28, 0x2a)) for r in [(0x21, 0x21), (0x24, 0x26), (0x28, 0x2a), (0x2f, 0x2f), (0x3a, 0x5a), (0x5e, 0x7a), (0x7c, 0x7c), (0x7e, 0x7e), (0x80, 0xd7ff), (0xe000, 0x10ffff)]])
    if n > 1:
        c = c + env.text(name + '_', n - 1, **IDCH)
    return c


def names(how, where):
    def fn(env):
        x = ident(env, how) if how != 'plain' else plain(env, 'x', env.pick('n', [1, 2]))
        for kw in ('IS', 'TO', 'n'):
            env.assume(x != kw)
        if where == 'def':
            sg = common.parse(HEAD + 'DEF ' + x + ' Group { } Group { children [ USE ' + x + ' ] } ROUTE ' + x + '.bboxSize TO ' + x + '.bboxCenter')
            env.check(sg is not None, 'the text is read')
            n = sg.children[0]
            env.check(len(sg.children) == 2, 'two nodes')
            env.check(n.DEF == x, 'the name is kept')
            env.check(sg.children[1].children[0] is n, 'USE finds the node')
            env.check(sg.getDEF(x) is n, 'the scene finds the node')
            env.check(len(sg.routes) == 1 and sg.routes[0].source is n and sg.routes[0].destination is n, 'ROUTE finds the node')
        elif where == 'use':
            y = plain(env, 'y', 1)
            sg = common.parse(HEAD + 'DEF ' + y + ' Box { } DEF ' + x + ' Group { } USE ' + x + ' USE ' + y)
            env.check(sg is not None, 'the text is read')
            env.check(sg.children[2] is sg.children[1], 'USE after a name finds it')
            env.check(sg.children[3] is (sg.children[0] if bool(x != y) else sg.children[1]), 'and the other')
        elif where == 'proto':
            sg = common.parse(HEAD + 'PROTO ' + x + ' [ ] { Group { } } ' + x + ' { } Group { children ' + x + ' { } }')
            env.check(sg is not None, 'the text is read')
            P = sg.getProto(x)
            env.check(P is not None, 'the prototype is known')
            env.check(len(sg.children) == 2, 'two nodes')
            env.check(type(sg.children[0]) is P, 'an instance')
            env.check(len(sg.children[1].children) == 1 and type(sg.children[1].children[0]) is P, 'another instance')
        elif where == 'field':
            sg = common.parse(HEAD + 'PROTO P [ field SFBool ' + x + ' TRUE field SFNode n NULL ] { Cone { side IS ' + x + ' } } P { ' + x + ' FALSE n Box { } } P { n Box { } ' + x + ' FALSE } P { }')
            env.check(sg is not None, 'the text is read')
            env.check(len(sg.children) == 3, 'three nodes')
            from vrml import protofunctions
            for n, want in zip(sg.children, (0, 0, 1)):
                f = protofunctions.getField(n, x)
                env.check(f.fget(n) == want, 'the value of the field')
                env.check((not common.is_null(n.n)) == (want == 0), 'the other field')
        elif where == 'value':
            sg = common.parse(HEAD + 'PROTO ' + x + ' [ field SFBool b TRUE ] { } Shape { appearance ' + x + ' { } geometry ' + x + ' { b FALSE } } Group { children [ ' + x + ' { } ' + x + ' { } ] }')
            env.check(sg is not None, 'the text is read')
            P = sg.getProto(x)
            s = sg.children[0]
            env.check(type(s.appearance) is P and type(s.geometry) is P, 'nodes of that type')
            env.check(s.appearance.b == 1 and s.geometry.b == 0, 'with their values')
            env.check([type(n) is P for n in sg.children[1].children] == [True, True], 'and in lists')
        env.cover('done')
    return fn


def script(env):
    x = ident(env, 'after')
    y = plain(env, 'y', 1)
    env.assume(x != y)
    sg = common.parse(HEAD + 'Script { eventIn SFBool ' + x + ' eventOut SFTime ' + y + ' url "u" directOutput TRUE } PROTO P [ eventIn SFBool ' + x + ' ] { Script { eventIn SFBool a IS ' + x + ' field SFBool b TRUE } }')
    env.check(sg is not None, 'the text is read')
    from vrml import protofunctions
    n = sg.children[0]
    env.check(protofunctions.getField(n, x).direction == 0, 'the event in')
    env.check(bool(protofunctions.getField(n, y).direction), 'the event out')
    env.check(n.directOutput == 1 and list(n.url) == ['u'], 'the fields')
    env.cover('done')


def types3(env):
    """A node type is known or rejected."""
    x = env.text('x', 3, **IDCH)
    known = env.either(*[x == t for t in ('Box', 'LOD', 'Fog')])
    text = HEAD + x + ' { }'
    if bool(known):
        sg = common.parse(text)
        env.check(sg is not None, 'known types are read')
        env.check(len(sg.children) == 1 and type(sg.children[0]).PROTO == x, 'with their type')
        env.cover('known')
    else:
        rejected(env, text, 'an unknown type')


def fields4(env):
    """A field is known or rejected."""
    x = env.text('x', env.pick('n', [3, 4]), alphabet=''.join(chr(i) for i in range(65, 123) if chr(i).isalpha()) + '_')
    known = env.either(x == 'side', False)
    env.assume(x != 'DEF')
    text = HEAD + 'Cone { ' + x + ' FALSE }'
    if bool(known):
        sg = common.parse(text)
        env.check(sg is not None, 'known fields are read')
        env.check(sg.children[0].side == 0, 'with their value')
        env.cover('known')
    else:
        rejected(env, text, 'an unknown field')


def undefined(env):
    """USE and ROUTE need defined names."""
    a, x = plain(env, 'a', 2), plain(env, 'x', 2)
    how = env.pick('how', ['use', 'child', 'source', 'destination', 'inner', 'later'])
    d = 'DEF ' + a + ' TimeSensor { } '
    tail = {'use': 'USE ' + x, 'child': 'Group { children [ USE ' + x + ' ] }',
            'source': 'ROUTE ' + x + '.startTime TO ' + a + '.stopTime', 'destination': 'ROUTE ' + a + '.startTime TO ' + x + '.stopTime',
            'inner': 'Shape { geometry USE ' + x + ' }', 'later': ''}[how]
    text = HEAD + (d + tail if how != 'later' else 'Group { children [ USE ' + a + ' ] } ' + d)
    if how != 'later' and bool(a == x):
        sg = common.parse(text)
        env.check(sg is not None, 'defined names are found')
        n = sg.children[0]
        if how == 'use':
            env.check(sg.children[1] is n, 'USE gives the node')
        elif how == 'child':
            env.check(sg.children[1].children[0] is n, 'USE gives the node')
        elif how in ('source', 'destination'):
            env.check(len(sg.routes) == 1 and sg.routes[0].source is n and sg.routes[0].destination is n, 'the route')
        env.cover('known')
    else:
        rejected(env, text, 'an undefined name')


def scoped(env):
    """Names inside a prototype body are its own."""
    a, x = plain(env, 'a', 1), plain(env, 'x', 1)
    how = env.pick('how', ['inside', 'outside'])
    if how == 'outside':
        rejected(env, HEAD + 'PROTO P [ ] { DEF ' + a + ' Group { } } P { } USE ' + x, 'a name of the body')
    else:
        rejected(env, HEAD + 'DEF ' + a + ' Group { } PROTO P [ ] { Group { children USE ' + x + ' } } P { }', 'a name outside the body')


def mapped(env):
    """IS needs a name that the prototype it stands in declares."""
    a, x = plain(env, 'a', 1), plain(env, 'x', 1)
    for other in ('o', 't'):
        env.assume(a != other)
        env.assume(x != other)
    how = env.pick('how', ['field', 'event', 'script', 'script event', 'inner', 'outer', 'beside', 'no prototype', 'after'])
    inst = env.pick('instance', ['', ' P { }'])
    i = '[ exposedField SFString ' + a + ' "x" ] '
    e = '[ eventIn SFTime ' + a + ' ] '
    text = {'field': 'PROTO P ' + i + '{ WorldInfo { title IS ' + x + ' } }' + inst,
            'event': 'PROTO P ' + e + '{ TimeSensor { set_startTime IS ' + x + ' } }' + inst,
            'script': 'PROTO P ' + i + '{ Script { field SFString t IS ' + x + ' } }' + inst,
            'script event': 'PROTO P ' + e + '{ Script { eventIn SFTime t IS ' + x + ' } }' + inst,
            'inner': 'PROTO P [ ] { PROTO Q ' + i + '{ Group { children [ WorldInfo { title IS ' + x + ' } ] } } Q { } }' + inst,
            'outer': 'PROTO P ' + i + '{ PROTO Q [ field SFString o "y" ] { WorldInfo { title IS ' + x + ' } } Q { } }' + inst,
            'beside': 'PROTO Q ' + i + '{ } PROTO P [ field SFString o "y" ] { WorldInfo { title IS ' + x + ' } }' + inst,
            'no prototype': 'PROTO P ' + i + '{ } ' + inst + ' WorldInfo { title IS ' + x + ' }',
            'after': 'PROTO P ' + i + '{ PROTO Q [ ] { Group { } } WorldInfo { title IS ' + x + ' } }' + inst}[how]
    if how not in ('outer', 'beside', 'no prototype') and bool(a == x):
        sg = common.parse(HEAD + text)
        env.check(sg is not None, 'a declared name is known')
        env.check(sg.getProto('P') is not None and len(sg.children) == (1 if inst else 0), 'the prototype')
        env.cover('known')
    else:
        rejected(env, HEAD + text, 'IS of an undeclared name')


def prototypes(env):
    """A prototype is known after its declaration, within the body it stands in."""
    a, x = plain(env, 'a', 1), plain(env, 'x', 1)
    for other in ('P', 'R'):
        env.assume(x != other)
        env.assume(a != other)
    q = 'PROTO ' + a + ' [ ] { Group { } } '
    use = x + ' { } '
    how = env.pick('how', ['after', 'before', 'in_body', 'out_of_body', 'other_body', 'outer_in_body', 'itself', 'own_default', 'nested_out'])
    text = {'after': q + use, 'before': use + q, 'in_body': 'PROTO P [ ] { ' + q + use + '} P { }', 'out_of_body': 'PROTO P [ ] { ' + q + a + ' { } } P { } ' + use,
            'other_body': 'PROTO P [ ] { ' + q + a + ' { } } PROTO R [ ] { ' + use + '} R { }', 'outer_in_body': q + 'PROTO P [ ] { ' + use + '} P { }',
            'itself': 'PROTO ' + a + ' [ ] { ' + use + '}', 'own_default': 'PROTO ' + a + ' [ field SFNode n ' + use + '] { Group { } }',
            'nested_out': 'PROTO P [ ] { PROTO R [ ] { ' + q + a + ' { } } R { } ' + use + '} P { }'}[how]
    if how in ('after', 'in_body', 'outer_in_body') and bool(a == x):
        sg = common.parse(HEAD + text)
        env.check(sg is not None, 'a declared prototype is known')
        if how == 'after':
            env.check(type(sg.children[0]) is sg.getProto(a), 'an instance of it')
        elif how == 'outer_in_body':
            env.check(type(sg.children[0].scenegraph.children[0]) is sg.getProto(a), 'an instance of it')
        env.cover('known')
    else:
        rejected(env, HEAD + text, 'a prototype not declared here')


def nested(env):
    """Prototypes in the bodies of prototypes: each name means the innermost one declared before its use."""
    o = plain(env, 'outer', 1)
    i = plain(env, 'inner', 1)
    x = plain(env, 'used', 1)
    for n in (o, i, x):
        for taken in ('P', 'Q', 'R'):
            env.assume(n != taken)
    where = env.pick('where', ['body', 'sibling', 'deep', 'behind'])
    has = env.pick('has', ['both', 'outer', 'inner'])
    outer = 'PROTO ' + o + ' [ ] { Cone { } } ' if has != 'inner' else ''
    inner = 'PROTO ' + i + ' [ ] { Box { } } ' if has != 'outer' else ''
    text = outer + {'body': 'PROTO P [ ] { ' + inner + x + ' { } } P { }',
                    'sibling': 'PROTO P [ ] { ' + inner + 'PROTO Q [ ] { ' + x + ' { } } Q { } } P { }',
                    'deep': 'PROTO P [ ] { ' + inner + 'PROTO Q [ ] { PROTO R [ ] { ' + x + ' { } } R { } } Q { } } P { }',
                    'behind': 'PROTO P [ ] { PROTO Q [ ] { ' + inner + ' Sphere { } } ' + x + ' { } } P { }'}[where]
    want = None
    if has != 'outer' and where != 'behind' and bool(x == i):
        want = 'Box'
    elif has != 'inner' and bool(x == o):
        want = 'Cone'
    if want is None:
        rejected(env, HEAD + text, 'a prototype not declared here')
        return
    sg = common.parse(HEAD + text)
    env.check(sg is not None, 'a declared prototype is known')
    n = sg.children[-1]
    for level in range({'body': 1, 'behind': 1, 'sibling': 2, 'deep': 3}[where]):
        n = n.scenegraph.children[-1]
    env.check(type(n.scenegraph.children[0]).__name__ == want, 'the innermost one')
    env.cover('known')


# -- values -------------------------------------------------------------------
WRONG = {'SFString': ['5', 'TRUE', 'NULL', 'Box { }', '"a" "b"', '[ "a" "b" ]', '[ 1 ]', 'x', ''],
         'MFString': ['5', 'TRUE', 'NULL', 'Box { }', '"a" 5', '[ 5 ]', '[ "a" 5 ]', '[ Box { } ]', '[ "a" NULL ]', 'x', '', '[ [ "a" ] ]'],
         'SFBool': ['1', '"TRUE"', 'NULL', 'Box { }', 'TRUE FALSE', '[ TRUE FALSE ]', 'true', 'T', '', 'FALSE 0'],
         'SFFloat': ['TRUE', '"1"', 'NULL', 'Box { }', '1 2', '[ 1 2 ]', 'x', '', '1 "a"', '1.2.3', '1e', '--1x'],
         'SFInt32': ['TRUE', '"1"', 'NULL', 'Box { }', '1 2', 'x', '', '1.5', '1e2', '0x', '0xg'],
         'SFVec3f': ['TRUE', '1 2', '1 2 3 4', '"1" 2 3', '1 2 "3"', 'NULL', 'Box { }', '', '1 2 x', '1 2 3 TRUE'],
         'SFRotation': ['1 2 3', '1 2 3 4 5', '"a"', 'NULL', ''],
         'SFColor': ['1 2', '1 1 1 1', 'Box { }', ''],
         'MFVec3f': ['[ 1 2 ]', '[ 1 2 3 4 ]', '[ 1 2 "3" ]', '[ Box { } ]', '[ TRUE ]', 'NULL', '', '[ 1 2 3', '[ x ]'],
         'MFInt32': ['[ 1.5 ]', '[ "1" ]', '[ TRUE ]', 'Box { }', 'NULL', '[ 1 x ]', '[ 1 2', ''],
         'MFFloat': ['[ "1" ]', '[ TRUE ]', 'Box { }', 'NULL', '[ 1 Box { } ]', '[ 1 2', '[ [ 1 ] ]', ''],
         'SFTime': ['TRUE', '"1"', '1 2', ''],
         'SFNode': ['1', 'TRUE', '"a"', 'Box { } Box { }', '[ Box { } Box { } ]', 'Box', '{ }', 'NULL Box { }', 'Box { } NULL', '', 'USE Z'],
         'MFNode': ['1', 'TRUE', '"a"', '[ 1 ]', '[ Box { } "a" ]', '[ Box { } 1 ]', 'Box { } 1', '[ [ Box { } ] ]', 'Box', '[ Box ]', '', '[ USE Z ]', 'NULL']}


def wrong(t):
    def fn(env):
        v = env.pick('value', WRONG[t])
        w = env.text('w', 1, alphabet=LAYOUT)
        how = env.pick('how', ['instance', 'instance_last', 'default', 'script'])
        good = {'SFNode': 'NULL', 'SFString': '""', 'SFBool': 'TRUE', 'SFVec3f': '1 2 3', 'SFRotation': '1 2 3 4', 'SFColor': '1 1 1'}.get(t, '[ ]' if t[0] == 'M' else '0')
        if how == 'default':
            text = 'PROTO P [ field ' + t + ' f' + w + v + w + '] { } P { }'
        elif how == 'script':
            text = 'Script { field ' + t + ' f' + w + v + w + '}'
        else:
            text = 'PROTO P [ field ' + t + ' f ' + good + ' field SFBool g TRUE ] { } P { f' + w + v + w + ('g TRUE ' if how == 'instance' else '') + '}'
        rejected(env, HEAD + text, 'a value of another kind')
    return fn


def booleans(env):
    x = env.text('x', env.pick('n', [4, 5]), ranges=[(48, 57), (65, 90), (97, 122)])
    text = HEAD + 'Cone { side ' + x + ' bottom FALSE }'
    if bool(env.either(x == 'TRUE', x == 'FALSE')):
        sg = common.parse(text)
        env.check(sg is not None, 'TRUE and FALSE are read')
        env.check(sg.children[0].side == (1 if bool(x == 'TRUE') else 0), 'with their meaning')
        env.check(sg.children[0].bottom == 0, 'and the rest')
        env.cover('known')
    else:
        rejected(env, text, 'no boolean')


def nulls(env):
    x = env.text('x', 4, ranges=[(65, 90), (97, 122)])
    text = HEAD + 'Shape { geometry ' + x + ' appearance Appearance { } }'
    if bool(x == 'NULL'):
        sg = common.parse(text)
        env.check(sg is not None, 'NULL is read')
        env.check(common.is_null(sg.children[0].geometry), 'with its meaning')
        env.check(not common.is_null(sg.children[0].appearance), 'and the rest')
        env.cover('known')
    else:
        rejected(env, text, 'no node')


def numbers(env):
    """Digits of every notation have their value."""
    kind = env.pick('kind', ['int', 'hex', 'float', 'exp'])
    sign = env.pick('sign', ['', '-', '+'])
    m = -1 if sign == '-' else 1
    if kind in ('int', 'hex'):
        n = env.pick('digits', [1, 2, 3])
        d = env.text('d', n, alphabet='0123456789' + ('abcdefABCDEF' if kind == 'hex' else ''))
        want = 0
        for ch in d:
            want = want * (16 if kind == 'hex' else 10) + int(ch, 16)
        text = sign + (env.pick('x', ['0x', '0X']) if kind == 'hex' else '') + d
        sg = common.parse(HEAD + 'IndexedFaceSet { coordIndex [ ' + text + ' 7 ] } PROTO P [ field SFInt32 i ' + text + ' ] { } P { }')
        env.check(sg is not None, 'the number is read')
        v = sg.children[0].coordIndex
        env.check(len(v) == 2, 'two values')
        env.check(env.both(v[0] == m * want, v[1] == 7), 'with their meaning')
        env.check(sg.children[1].i == m * want, 'and alone')
    else:
        a = env.text('a', env.pick('na', [0, 1, 2]), alphabet='0123456789')
        b = env.text('b', env.pick('nb', [0, 1, 2]), alphabet='0123456789')
        env.assume(len(a) + len(b) > 0)
        mant = 0
        for ch in list(a) + list(b):
            mant = mant * 10 + int(ch)
        e = 0
        text = sign + a + '.' + b
        if kind == 'exp':
            es = env.pick('es', ['', '+', '-'])
            e = env.pick('e', [0, 1, 3])
            text = text + env.pick('E', ['e', 'E']) + es + str(e)
            e = -e if es == '-' else e
        sg = common.parse(HEAD + 'Cone { height ' + text + ' bottomRadius 2 }')
        env.check(sg is not None, 'the number is read')
        env.close(sg.children[0].height, m * mant * (10.0 ** (e - len(b))), 'with its meaning')
        env.check(sg.children[0].bottomRadius == 2, 'and the next')
    env.cover('done')


def harnesses(tier):
    deep = tier != 'quick'
    hs = []

    def add(name, fn, bounds, covers=('done',), **k):
        hs.append(dict(name=name, fn=fn, covers=list(covers), bounds=bounds, validate=4 if not deep else 20, **k))
    for t in T:
        add('%s_stray' % t, stray(t, False), 'any one character between any two tokens')
        if t != 'matrix':
            add('%s_digit' % t, stray(t, True), 'any digit between any two tokens that are no numbers')
        add('%s_swapped' % t, swapped(t), 'any other character in place of each bracket, brace and quote')
        add('%s_deleted' % t, deleted(t), 'each bracket, brace and quote missing')
        add('%s_cut' % t, cut(t, deep), 'cut at each character')
    add('glued', glued, 'one or two characters after a complete file')
    for how in ('after', 'before', 'plain'):
        for where in ('def', 'use', 'proto', 'field', 'value'):
            add('names_%s_%s' % (how, where), names(how, where), 'keyword and one arbitrary character' if how != 'plain' else 'one or two arbitrary characters')
    add('script', script, 'keyword and one arbitrary character')
    add('types3', types3, 'every type name of three characters', ('done', 'known'))
    add('fields4', fields4, 'every field name of three or four letters', ('done', 'known'))
    add('mapped', mapped, 'IS with any name of one letter at nine places, the declared field having any such name, with or without an instance', ('done', 'known'))
    add('undefined', undefined, 'every two names of two characters', ('done', 'known'))
    add('scoped', scoped, 'every two names of one character')
    add('prototypes', prototypes, 'every two names of one character, nine places', ('done', 'known'))
    add('nested', nested, 'every three names of one character, four places, two declarations', ('done', 'known'))
    for t in WRONG:
        add('wrong_' + t, wrong(t), 'values of other kinds and counts')
    add('booleans', booleans, 'every word of four or five letters', ('done', 'known'))
    add('nulls', nulls, 'every word of four letters', ('done', 'known'))
    add('numbers', numbers, 'up to three digits, two before and two after the point, exponents to 3')
    return hs
