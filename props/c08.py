"""C08: field access behaves like a variable, one notice per change."""
from . import common

PRELOAD = common.VRML
OUTSIDE = 'fields holding lists of nodes (C09); the notices a route sends for its destination (C13); concurrent access'
ASSUMPTIONS = ['a value is compared with the canonical value of the field (C06 decides what that is)']
SCALARS = ('SFFloat', 'SFTime', 'SFInt32', 'SFBool', 'SFString', 'MFString', 'SFVec3f', 'SFVec2d', 'SFRotation', 'SFColor', 'MFFloat', 'MFInt32', 'MFVec3f', 'MFColor',
           'SFImage', 'SFNode', 'SFUInt32', 'MFTime', 'MFVec2f', 'SFVec4f')
BAD = {'SFFloat': 'abc', 'SFTime': 'abc', 'SFInt32': 'abc', 'SFVec3f': [1, 2], 'SFVec2d': [1.0], 'SFRotation': [1, 2, 3], 'SFColor': 'nocolour', 'MFFloat': 'a b',
       'MFInt32': ['x'], 'MFVec3f': [1, 2], 'MFColor': ['nocolour'], 'SFImage': ['x'], 'SFNode': 'text', 'SFUInt32': 'abc', 'MFTime': ['x'], 'MFVec2f': [1], 'SFVec4f': [1],
       'MFString': 12,}
OPS = ['set', 'fset', 'silent', 'get', 'del', 'fdel', 'silentdel', 'bad']
FEW = ['set', 'silent', 'get', 'del', 'silentdel', 'bad']
SIZE = {'SFVec3f': 3, 'SFVec2d': 2, 'SFRotation': 4, 'SFColor': 3, 'SFVec4f': 4, 'MFVec3f': 3, 'MFColor': 3, 'MFVec2f': 2}


def some(env, ft, name):
    """A value for a field of this type, and what reading it must give."""
    if ft in ('SFInt32', 'MFInt32', 'SFUInt32', 'SFImage'):
        v = env.int(name, 0, 255)
        if ft in ('MFInt32', 'SFImage'):
            return [v, 7], [v, 7]
        return v, v
    if ft == 'SFBool':
        v = env.bool(name)
        return v, v
    if ft in ('SFString', 'MFString'):
        v = env.text(name, 2)
        if ft == 'MFString':
            return [v, 'x'], [v, 'x']
        return v, v
    if ft == 'SFNode':
        from vrml.vrml97 import basenodes
        v = basenodes.Box()
        return v, v
    v = env.real(name, 0, 1)
    if ft in ('SFFloat', 'SFTime'):
        return v, v
    if ft in SIZE:
        w = [v] + [.5] * (SIZE[ft] - 1)
        return list(w), w
    return [v, .25], [v, .25]


def same(env, got, want, label):
    if isinstance(want, list):
        if hasattr(got, 'ravel'):
            got = list(got.ravel())
        env.check(len(got) == len(want), label)
        for a, b in zip(got, want):
            env.check(a == b, label)
    elif want is None or hasattr(want, 'DEF'):
        env.check(got is want if want is not None else not got, label)
    else:
        env.check(got == want, label)


class Log(object):
    """Everything the dispatcher sends, with the value in place then."""

    def __init__(self, names):
        from pydispatch import dispatcher
        self.calls = []
        self.names = names
        dispatcher.connect(self.receive, sender=dispatcher.Any, signal=dispatcher.Any, weak=False)

    def receive(self, signal, sender, value=None):
        if signal[0] == 'set':
            self.calls.append((signal, sender, value, getattr(sender, signal[1].name)))
        else:
            self.calls.append((signal, sender, None, sender.__dict__.get(signal[1].name, self)))

    def take(self):
        r, self.calls = self.calls, []
        return r


def fields(env, ft, kind):
    """A node class with two fields of a type: (class, names, defaults)."""
    from vrml import node, field
    d = [None, None]
    if kind == 'inherited':
        base = node.prototype('B', [field.newField('f', ft, 1)])
        cls = node.prototype('P', [field.newField('g', ft, 0)], baseClasses=(base,))
    elif kind == 'declared':
        cls = node.prototype('P', [field.newField('f', ft, 1), field.newField('g', ft, 0)])
    else:
        class P(node.Node):
            f = field.newField('f', ft, 1)
            g = field.newField(' g', ft, 1)
        cls = P
        return cls, ['f', 'g']
    return cls, ['f', 'g']


def history(ft, steps, kinds=('declared',), ops=OPS):
    """Every sequence of accesses to two fields of two nodes."""
    def fn(env):
        from vrml import protofunctions
        kind = env.pick('kind', list(kinds))
        cls, names = fields(env, ft, kind)
        a, b = cls(), cls()
        fresh = cls()
        defaults = {n: getattr(fresh, n) for n in names}
        log = Log(names)
        if kind != 'declared' or ft == 'SFTime':
            seen = []
            protofunctions.getField(cls, 'g').watch(a, lambda signal, sender, value=None: seen.append(signal))
        # what each field holds: [value or None, has it been read since]
        model = {}
        for n in (a, b):
            for f in names:
                model[(id(n), f)] = None
        touched = {}

        def read(n, f, label):
            want = model[(id(n), f)]
            got = getattr(n, f)
            if want is None:
                dv = defaults[f]
                same(env, got, list(dv.ravel()) if hasattr(dv, 'ravel') else dv, label + ': the default')
                if hasattr(dv, 'ravel') or isinstance(dv, list):
                    env.check(got is not dv, label + ': a default of its own')
                touched[(id(n), f)] = True
            else:
                same(env, got, want[0], label + ': the last value set')
                env.cover('read_value')

        for i in range(steps):
            n, f = env.pick('on%d' % i, [(a, 'f')] if i == 0 else [(a, 'f'), (a, 'g'), (b, 'f')])
            op = env.pick('op%d' % i, ops)
            F = protofunctions.getField(n, f)
            key = (id(n), f)
            if op in ('set', 'fset', 'silent'):
                v, want = some(env, ft, 'v%d' % i)
                if op == 'set':
                    setattr(n, f, v)
                else:
                    F.fset(n, v, notify=1 if op == 'fset' else 0)
                model[key] = (want,)
                calls = log.take()
                if op == 'silent':
                    env.check(not calls, 'a silent set sends nothing')
                else:
                    env.check(len(calls) == 1, 'a set sends one notice')
                    signal, sender, value, inplace = calls[0]
                    env.check(signal == ('set', F) and sender is n, 'from the node, for the field')
                    same(env, value, want, 'with the new value')
                    same(env, inplace, want, 'after the value is in place')
                    env.cover('set')
            elif op in ('del', 'fdel', 'silentdel'):
                had = model[key] is not None
                try:
                    if op == 'del':
                        delattr(n, f)
                    else:
                        F.fdel(n, notify=1 if op == 'fdel' else 0)
                except AttributeError:
                    env.check(not had, 'a field with a value can be deleted')
                    env.check(not log.take(), 'a failed deletion sends nothing')
                    env.cover('nodel')
                else:
                    env.check(had or touched.get(key), 'deleting a field without a value is an error')
                    calls = log.take()
                    if op == 'silentdel':
                        env.check(not calls, 'a silent deletion sends nothing')
                    else:
                        env.check(len(calls) == 1, 'a deletion sends one notice')
                        signal, sender, value, inplace = calls[0]
                        env.check(signal == ('del', F) and sender is n, 'from the node, for the field')
                        env.check(inplace is log, 'after the value is gone')
                        env.cover('del')
                model[key] = None
                touched[key] = False
            elif op == 'get':
                read(n, f, 'reading')
                env.check(not log.take(), 'reading sends nothing')
            elif ft in BAD:
                env.check_raises(ValueError, 'a value that does not fit', lambda: setattr(n, f, BAD[ft]))
                env.check(not log.take(), 'a refused value sends nothing')
        for n in (a, b):
            for f in names:
                read(n, f, 'at the end')
                env.check(not log.take(), 'reading sends nothing')
        for f in names:
            got = getattr(cls(), f)
            dv = defaults[f]
            same(env, got, list(dv.ravel()) if hasattr(dv, 'ravel') else dv, 'a new node: the default')
        env.cover('done')
    return fn


def defaults(env):
    """Explicit defaults; changing a list or array read from a node in place."""
    from vrml import node, field
    ft = env.pick('type', ['MFString', 'MFFloat', 'SFVec3f', 'MFVec3f', 'MFInt32', 'SFString', 'SFFloat', 'SFBool', 'SFInt32', 'SFColor'])
    v, want = some(env, ft, 'd')
    if ft == 'SFFloat':
        v = want = env.decimal('dd', 1, 1)
    cls = node.prototype('P', [field.newField('f', ft, 1, v)])
    a, b = cls(), cls()
    log = Log(['f'])
    same(env, a.f, want, 'the declared default')
    if ft == 'MFString':
        a.f.append('more')
        same(env, a.f, want + ['more'], 'a change in place is seen')
    elif hasattr(a.f, 'ravel'):
        a.f.ravel()[0:1] = 0
        env.check(list(a.f.ravel())[0] == 0, 'a change in place is seen')
    same(env, b.f, want, 'another node still has the default')
    same(env, cls().f, want, 'a new node has the default')
    log.take()
    a.f = some(env, ft, 'w')[0]
    env.check(len(log.take()) == 1, 'one notice')
    del a.f
    calls = log.take()
    env.check(len(calls) == 1 and calls[0][0][0] == 'del' and calls[0][1] is a, 'one notice of the deletion')
    same(env, a.f, want, 'the default again after deletion')
    same(env, b.f, want, 'the other node is unchanged')
    env.cover('done')


def builtin(env):
    """Standard nodes, and values given to the constructor."""
    from vrml.vrml97 import basenodes
    cls, f, g, ft = env.pick('node', [(basenodes.Cone, 'height', 'bottomRadius', 'SFFloat'), (basenodes.Transform, 'translation', 'center', 'SFVec3f'), (basenodes.Fog, 'fogType', 'DEF', 'SFString'),
                                      (basenodes.Material, 'diffuseColor', 'emissiveColor', 'SFColor'), (basenodes.Shape, 'geometry', 'appearance', 'SFNode'),
                                      (basenodes.Switch, 'whichChoice', 'whichChoice', 'SFInt32'), (basenodes.Anchor, 'url', 'parameter', 'MFString')])
    fresh = cls()
    d = getattr(fresh, g)
    log = Log([f, g])
    v, want = some(env, ft, 'v')
    a = cls(**{f: v})
    b = cls()
    calls = log.take()
    env.check(len(calls) == 1 and calls[0][0] == ('set', getattr(cls, f)) and calls[0][1] is a, 'the constructor sets once')
    same(env, getattr(a, f), want, 'the value given to the constructor')
    if f != g:
        same(env, getattr(a, g), list(d.ravel()) if hasattr(d, 'ravel') else d, 'other fields have their defaults')
    w, want2 = some(env, ft, 'w')
    setattr(b, f, w)
    same(env, getattr(a, f), want, 'not the value of another node')
    delattr(a, f)
    same(env, getattr(b, f), want2, 'deleting leaves other nodes alone')
    env.check(len(log.take()) == 2, 'two notices')
    env.cover('done')


def nested(env):
    """A watcher that sets another field while a change is told."""
    from vrml import node, field, protofunctions
    cls = node.prototype('P', [field.newField('f', 'SFFloat', 1, 0), field.newField('g', 'SFFloat', 1, 0)])
    a = cls()
    F, G = protofunctions.getField(a, 'f'), protofunctions.getField(a, 'g')
    x, y, z = env.real('x', -8, 8), env.real('y', -8, 8), env.real('z', -8, 8)
    op = env.pick('op', ['other', 'same', 'silent', 'delete', 'othernode'])
    b = cls()

    def react(signal, sender, value=None):
        if op == 'other':
            sender.g = y
        elif op == 'silent':
            F.fset(sender, y, notify=0)
        elif op == 'delete':
            del sender.f
        elif op == 'othernode':
            b.f = y
        elif bool(value != y):
            sender.f = y
    F.watch(a, react, ('set', F))
    log = Log(['f', 'g'])
    how = env.pick('how', ['set', 'fset'])
    if how == 'set':
        a.f = x
    else:
        F.fset(a, x)
    calls = [(c[0], c[1]) for c in log.take()]
    want = {'other': [(('set', F), a), (('set', G), a)], 'silent': [(('set', F), a)], 'delete': [(('set', F), a), (('del', F), a)],
            'othernode': [(('set', F), a), (('set', F), b)], 'same': [(('set', F), a)] * (2 if bool(x != y) else 1)}[op]
    env.check(len(calls) == len(want), 'one notice for each set')
    for c in want:
        env.check(calls.count(c) == want.count(c), 'one notice for each set')
    if op in ('same', 'silent'):
        env.check(a.f == y, 'the last value set')
    elif op == 'delete':
        env.check(a.f == 0, 'deleted')
    else:
        env.check(a.f == x, 'the value set')
        env.check((a.g if op == 'other' else b.f) == y, 'the other value set')
    env.check(b.g == 0, 'untouched')
    env.cover('done')


def events(env):
    """Events of prototypes."""
    from vrml import node, field
    ft, v, want = env.pick('type', ['SFFloat', 'SFString', 'SFVec3f', 'SFBool']), None, None
    v, want = some(env, ft, 'v')
    got = []

    class P(node.PrototypedNode, node.Node):
        PROTO = 'P'
        go = field.newEvent('go', ft, 0)
        out = field.newEvent('out', ft, 1)

        def on_go(self, value):
            got.append((self, value))
    a, b = P(), P()
    log = Log(['go', 'out'])
    env.check_raises(AttributeError, 'an event without a value', lambda: a.out)
    which = env.pick('which', ['go', 'out'])
    setattr(a, which, v)
    calls = log.take()
    env.check(len(calls) == 1 and calls[0][0] == ('set', getattr(P, which)) and calls[0][1] is a, 'one notice')
    same(env, calls[0][2], want, 'with the value')
    same(env, calls[0][3], want, 'the value is in place')
    same(env, getattr(a, which), want, 'reading gives the value')
    env.check(len(got) == (1 if which == 'go' else 0), 'the handler runs once')
    env.check_raises(AttributeError, 'the other node has no value', lambda: getattr(b, which))
    w, want = some(env, ft, 'w')
    getattr(P, which).__set__(a, w, notify=0)
    env.check(not log.take(), 'a silent set sends nothing')
    same(env, getattr(a, which), want, 'reading gives the new value')
    env.cover('done')


def harnesses(tier):
    deep = tier != 'quick'
    hs = []

    def add(name, fn, bounds, covers=('done',), **k):
        hs.append(dict(name=name, fn=fn, covers=list(covers), bounds=bounds, variants=['pure', 'accel'], validate=6 if not deep else 20, **k))
    cov = ('done', 'set', 'del', 'nodel', 'read_value')
    add('history', history('SFFloat', 3, ops=OPS if deep else FEW), 'sequences of three of six operations on two fields of two nodes, arbitrary values', cov)
    for ft in SCALARS:
        add('history_' + ft, history(ft, 2 if not deep else 3, ('declared', 'inherited', 'storage') if ft in ('SFVec3f', 'SFString') else ('declared',)), 'sequences of %d' % (2 if not deep else 3), cov)
    add('defaults', defaults, 'ten field types, arbitrary default')
    add('builtin', builtin, 'seven standard fields')
    add('nested', nested, 'five reactions')
    add('events', events, 'four event types')
    if deep:
        add('history4', history('SFFloat', 4), 'sequences of four', cov)
    return hs
