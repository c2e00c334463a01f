"""C23: nodes have the fields, events and default values VRML97 defines."""
import os, re
from . import common

PRELOAD = common.VRML
OUTSIDE = 'names longer than the bounds; the behaviour of the events; fields the library adds to PointSet; Script (declares its own fields); node types VRML97 does not define'
ASSUMPTIONS = ['the table of node types (props/nodes97.txt) was written from ISO/IEC 14772-1:1997, clause 6']
HEAD = '#VRML V2.0 utf8\n'


def table():
    """type -> [(kind, field type, name, default)]; default: NULL, a bool, a string, a list of strings, or the numbers in order."""
    out = {}
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'nodes97.txt')) as f:
        for l in f:
            if not l.strip():
                continue
            t, r = l.strip().split(': ', 1)
            ds = []
            for d in r.split('; '):
                parts = d.split(' ', 3)
                k, ty, n = parts[:3]
                v = None
                if k in ('x', 'f'):
                    w = parts[3]
                    if w == 'NULL':
                        v = 'NULL'
                    elif w in ('TRUE', 'FALSE'):
                        v = w == 'TRUE'
                    elif ty == 'SFString':
                        v = w[1:-1]
                    elif ty == 'MFString':
                        v = re.findall('"([^"]*)"', w)
                    elif w == '[]':
                        v = []
                    else:
                        v = [float(x) for x in w.split()]
                ds.append((k, ty, n, v))
            out[t] = ds
    return out


TABLE = table()
EXTRA = {'PointSet': ['size', 'minSize', 'maxSize', 'attenuation']}
ALWAYS = ['DEF', 'PROTO', 'externalURL', 'rootSceneGraph']
WIDTH = {'SFVec2f': 2, 'SFVec3f': 3, 'SFColor': 3, 'SFRotation': 4, 'MFVec2f': 2, 'MFVec3f': 3, 'MFColor': 3, 'MFRotation': 4, 'MFFloat': 1, 'MFInt32': 1}


def setup():
    common.warm()


def read(text):
    """The first node of a text, or None where it is refused."""
    try:
        sg = common.parse(HEAD + text)
    except Exception:
        return None
    return None if sg is None else sg.children[0]


def fields(t):
    return [d for d in TABLE[t] if d[0] in ('x', 'f')]


def is_default(env, d, v, label):
    """v is the value VRML97 gives a field without a value."""
    k, ty, n, want = d
    if ty == 'SFNode':
        env.check(common.is_null(v), label + ': NULL')
        return
    if ty in ('SFString', 'SFBool'):
        env.check(bool(v) == want if ty == 'SFBool' else v == want, label + ': the default')
        return
    if ty in ('MFString', 'MFNode'):
        env.check(isinstance(v, list), label + ': is a list')
        env.check(len(v) == len(want) and all([v[i] == want[i] for i in range(len(want))]), label + ': the default')
        return
    got = list(v.ravel()) if hasattr(v, 'ravel') else [v]
    env.check(len(got) == len(want), label + ': the default')
    for a, b in zip(got, want):
        env.close(a, b, label + ': the default')
    if ty in WIDTH and ty[0] == 'M' and got:
        env.check(v.shape == ((len(got),) if WIDTH[ty] == 1 else (len(got) // WIDTH[ty], WIDTH[ty])), label + ': the shape of the default')


def untouched(env, t, node, but, label):
    for d in fields(t):
        if d[2] != but:
            is_default(env, d, getattr(node, d[2]), '%s %s.%s' % (label, t, d[2]))


def digits(env, ty, n):
    """Numbers of one digit: their values and the text."""
    got, text = [], '['
    for i in range(n):
        c = env.text('value%d' % i, 1, ranges=[(48, 49 if 'Color' in ty else 57)])
        got.append(int(c))
        text = text + ' ' + c
    return got, text + ' ]'


def value(env, d, how):
    """(a value of the field, the numbers or nodes it consists of, its text)"""
    k, ty, n, default = d
    if how == 'text' and ty in WIDTH or ty in ('SFFloat', 'SFTime', 'SFInt32', 'SFImage') and how == 'text':
        if ty == 'SFImage':
            v, text = digits(env, ty, 1)
            return None, [1, 1, 1] + v, '1 1 1' + text[1:-1]
        v, text = digits(env, ty, WIDTH.get(ty, 1) * (1 if ty[0] == 'S' else env.choice('items', 3)))
        return None, v, text[1:-1] if ty[0] == 'S' else text
    from vrml.vrml97 import basenodes
    if ty == 'SFBool':
        v = env.flag('value')
        return v, v, 'TRUE' if v else 'FALSE'
    if ty == 'SFInt32':
        v = env.int('value', -1000, 1000)
        return v, [v], None
    if ty in ('SFFloat', 'SFTime'):
        v = env.real('value')
        return v, [v], None
    if ty == 'SFString':
        v = env.text('value', env.choice('length', 2), ranges=[(97, 122)])
        return v, v, '"' + v + '"'
    if ty == 'MFString':
        v = [env.text('value%d' % i, 1, ranges=[(97, 122)]) for i in range(env.choice('items', 3))]
        text = '['
        for x in v:
            text = text + ' "' + x + '"'
        return list(v), v, text + ' ]'
    if ty == 'SFNode':
        v = basenodes.Coordinate()
        return v, v, 'Coordinate { }'
    if ty == 'MFNode':
        v = [basenodes.Shape() for i in range(env.choice('items', 3))]
        return list(v), v, '[' + ' Shape { }' * len(v) + ' ]'
    if ty == 'SFImage':
        v = [1, 1, 1, env.int('value', 0, 255)]
        return list(v), v, None
    lo, hi = (0, 1) if 'Color' in ty else (-64, 64)
    rows = 1 if ty[0] == 'S' else env.choice('items', 3)
    if ty == 'MFInt32':
        v = [env.int('value%d' % i, -1000, 1000) for i in range(rows)]
        return list(v), v, None
    v = [env.real('value%d' % i, lo, hi) for i in range(rows * WIDTH[ty])]
    if ty[0] == 'S' or ty == 'MFFloat':
        return list(v), v, None
    return [v[i:i + WIDTH[ty]] for i in range(0, len(v), WIDTH[ty])], v, None


def holds(env, d, v, want, label, same=True):
    k, ty, n, default = d
    if ty == 'SFNode':
        env.check(v is want if same else common.proto_name(v) == 'Coordinate', label + ': the node given')
    elif ty == 'MFNode':
        env.check(len(v) == len(want), label + ': the nodes given')
        env.check(all([a is b if same else common.proto_name(a) == 'Shape' for a, b in zip(v, want)]), label + ': the nodes given')
    elif ty == 'SFBool':
        env.check(bool(v) == want, label + ': the value given')
    elif ty == 'SFString':
        env.check(len(v) == len(want), label + ': the text given')
        env.check(v == want, label + ': the text given')
    elif ty == 'MFString':
        env.check(len(v) == len(want), label + ': the texts given')
        for a, b in zip(v, want):
            env.check(a == b, label + ': the texts given')
    else:
        got = list(v.ravel()) if hasattr(v, 'ravel') else [v]
        env.check(len(got) == len(want), label + ': the numbers given')
        for a, b in zip(got, want):
            env.close(a, b, label + ': the numbers given')


def names(types, lengths):
    """A node type has a field of a name if, and only if, VRML97 defines one, with its type and access."""
    def fn(env):
        from vrml import protofunctions, field
        from vrml.vrml97 import basenamespaces
        t = env.pick('type', types)
        cls = basenamespaces.basePrototypes[t]
        length = env.pick('length', [n for n in lengths])
        name = env.text('name', length, ranges=[(65, 90), (95, 95), (97, 122)])
        want = None
        for d in TABLE[t]:
            if len(d[2]) == length and bool(name == d[2]):
                want = d
        try:
            got = protofunctions.getField(cls, name)
        except AttributeError:
            env.check(want is None, 'a field VRML97 defines is there')
            env.cover('none')
            return
        if want is None:
            ok = known(t, name)
            env.check(ok, 'no other field is')
            env.cover('extra')
            return
        k, ty, n, v = want
        env.check(got.typeName() == ty, 'with the type')
        env.check(isinstance(got, field.Event) == (k in ('in', 'out')), 'a field or an event')
        if k in ('in', 'out'):
            env.check(bool(got.direction) == (k == 'out'), 'in or out')
        else:
            env.check(bool(got.exposure) == (k == 'x'), 'exposed or not')
        env.cover('found')
    return fn


def known(t, name):
    """The name, without set_ in front and _changed behind, is one of a field (what such names stand for is C21)."""
    for n in [d[2] for d in TABLE[t]] + EXTRA.get(t, []) + ALWAYS:
        if len(n) == len(name) and bool(name == n):
            return True
    if len(name) > 4 and bool(name[:4] == 'set_') and known(t, name[4:]):
        return True
    return len(name) > 8 and bool(name[-8:] == '_changed') and known(t, name[:-8])


def complete(env):
    """Every node type is there under its name, with each field and event, and no further one."""
    from vrml import protofunctions, field, node
    from vrml.vrml97 import basenamespaces
    t = env.pick('type', sorted(TABLE))
    cls = basenamespaces.basePrototypes[t]
    env.check(protofunctions.protoName(cls) == t, 'the node type has its name')
    got = {}
    for events in (0, 1):
        for f in protofunctions.getFields(cls, events):
            if f.name[:1] != ' ' and f.name not in ALWAYS:
                env.check(f.name not in got, 'listed once')
                got[f.name] = f
    for k, ty, n, v in TABLE[t]:
        env.check(n in got, 'listed: %s.%s' % (t, n))
        f = got.pop(n)
        env.check(f.typeName() == ty, 'with the type: %s.%s' % (t, n))
        env.check(isinstance(f, field.Event) == (k in ('in', 'out')), 'a field or an event: %s.%s' % (t, n))
        env.check(bool(f.direction if k in ('in', 'out') else f.exposure) == (k in ('out', 'x')), 'its access: %s.%s' % (t, n))
    env.check(sorted(got) == sorted(EXTRA.get(t, [])), 'nothing else is listed')
    env.cover('done')


def defaults(types):
    """A field given by any of the three ways holds that; every other field, and every other node, has the defaults."""
    def fn(env):
        from vrml.vrml97 import basenamespaces
        t = env.pick('type', types)
        cls = basenamespaces.basePrototypes[t]
        before = read('Group { children ' + t + ' { } }').children[0] if env.flag('read before') else cls()
        early = env.flag('early')
        if early:
            untouched(env, t, before, None, 'a node made before')
        fs = fields(t)
        d = fs[env.choice('field', len(fs))]
        how = env.pick('how', ['attribute', 'keyword', 'text'])
        v, parts, text = value(env, d, how)
        same = True
        if how == 'attribute':
            n = cls()
            setattr(n, d[2], v)
        elif how == 'keyword':
            n = cls(**{d[2]: v})
        else:
            n = read('Group { children ' + t + ' { ' + d[2] + ' ' + text + ' } }').children[0]
            same = False
        env.check(type(n) is cls, 'the node type')
        holds(env, d, getattr(n, d[2]), parts, '%s.%s' % (t, d[2]), same)
        untouched(env, t, n, d[2], 'the same node')
        untouched(env, t, before, None, 'the node made before')
        untouched(env, t, cls(), None, 'a node made after')
        env.cover(how)
    return fn


def changed_in_place(types):
    """A default that is changed in place, and then deleted, is the default again, for the node and for any other."""
    def fn(env):
        from vrml.vrml97 import basenamespaces, basenodes
        t = env.pick('type', types)
        cls = basenamespaces.basePrototypes[t]
        fs = [d for d in fields(t) if d[1][0] == 'M' or d[1] in WIDTH]
        if not fs:
            env.cover('nothing to change')
            return
        n, other = cls(), cls()
        d = fs[env.choice('field', len(fs))]
        v = getattr(n, d[2])
        if isinstance(v, list):
            if d[1] == 'MFNode':
                v.append(basenodes.Shape())
            else:
                v.append(env.text('added', 1))
        elif len(v):
            x = env.real('x')
            if v.ndim == 2:
                v[0][env.choice('at', v.shape[1])] = x
            else:
                v[env.choice('at', len(v))] = x
        untouched(env, t, n, d[2], 'the same node')
        untouched(env, t, other, None, 'another node')
        untouched(env, t, cls(), None, 'a node made after')
        if isinstance(v, list) or len(v):
            delattr(n, d[2])
            untouched(env, t, n, None, 'the node after deleting the value')
        env.cover('changed')
    return fn


def split(n):
    ts = sorted(TABLE)
    return [ts[i::n] for i in range(n)]


def harnesses(tier):
    t = tier != 'quick'
    hs = [dict(name='complete', fn=complete, covers=['done'], bounds='all 54 node types, each field and event', validate=4)]
    k = 4
    for i, ts in enumerate(split(k)):
        ln = list(range(1, 19)) if t else list(range(1, 15))
        hs.append(dict(name='names%d' % i, fn=names(ts, ln), covers=['found', 'none'], bounds='%d node types; every identifier of %s letters' % (len(ts), ', '.join(map(str, ln))), validate=4))
        hs.append(dict(name='defaults%d' % i, fn=defaults(ts), covers=['attribute', 'keyword', 'text'], bounds='%d node types, each field, any number, text of one letter, list of two, given by attribute, keyword or text; the other fields of the node and all fields of nodes made before and after' % len(ts), validate=6))
        hs.append(dict(name='in_place%d' % i, fn=changed_in_place(ts), covers=['changed'], bounds='%d node types, each list field or array, one item changed in place' % len(ts), validate=4))
    return hs
