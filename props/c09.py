"""C09: child lists behave like lists and report every child added or removed."""
from . import common

PRELOAD = common.VRML
OUTSIDE = 'lists longer than four; watchers that change the list while being told; a child given more often in a replaced slice than before is not told again (as the project\'s own tests have it)'
ASSUMPTIONS = ['the plain list of CPython is the reference']


class Log(object):
    def __init__(self, owner, field, others):
        from pydispatch import dispatcher
        self.owner, self.field, self.others = owner, field, others
        self.clear()
        dispatcher.connect(self.receive, sender=dispatcher.Any, signal=dispatcher.Any, weak=False)

    def clear(self):
        self.new, self.gone, self.added, self.removed, self.sets, self.odd = [], [], [], [], [], []

    def receive(self, signal, sender, value=None, parent=None):
        if signal == 'new' and sender is self.owner:
            self.new.append(value)
        elif signal == 'del' and sender is self.owner:
            self.gone.append(value)
        elif signal == 'added' and parent is self.owner:
            self.added.append(sender)
        elif signal == 'removed' and parent is self.owner:
            self.removed.append(sender)
        elif signal == ('set', self.field) and sender is self.owner:
            self.sets.append((value, list(self.owner.__dict__[self.field.name])))
        elif signal == 'order' and sender is self.owner:
            pass
        else:
            self.odd.append((signal, sender))


def owner(env, kind):
    """A node with a child list, and the name of the list."""
    from vrml import node, field
    from vrml.vrml97 import basenodes, scenegraph
    if kind == 'group':
        return basenodes.Group(), 'children'
    if kind == 'scene':
        return scenegraph.SceneGraph(), 'children'
    if kind == 'lod':
        return basenodes.LOD(), 'level'
    cls = node.prototype('P', [field.newField('first', 'MFNode', 1), field.newField('second', 'MFNode', 1)])
    n = cls()
    n.first = [basenodes.Box()]
    return n, 'second'


def count(items, x):
    return len([y for y in items if y is x])


def identical(env, got, want, label):
    env.check(len(got) == len(want), label + ': number of children')
    for a, b in zip(got, want):
        env.check(a is b, label + ': the same children in the same order')


def account(env, log, before, after, label):
    """The notices explain the change from before to after."""
    everyone = []
    for x in before + after + log.new + log.gone:
        if not count(everyone, x):
            everyone.append(x)
    for x in everyone:
        b, a = count(before, x), count(after, x)
        n, g = count(log.new, x), count(log.gone, x)
        if n - g != a - b:
            # a child that was in a replaced slice is not told to be new
            env.check(b > 0 and a > b and 0 <= n - g < a - b, label + ': the notices account for the children added and removed')
        env.check(n <= a and g <= b, label + ': no notice for a child not added or removed')
        env.check(count(log.added, x) == n, label + ': a child added is told so')
        env.check(count(log.removed, x) == g, label + ': a child removed is told so')
    changed = len(before) != len(after) or len([1 for p, q in zip(before, after) if p is not q]) > 0
    if changed and label != 'silent':
        env.check(len(log.sets) > 0, label + ': the field reports a change')
        identical(env, log.sets[-1][1], after, label + ': when the field reports it, the change is in place')
    for v, _ in log.sets:
        env.check(v is log.owner.__dict__[log.field.name], label + ': the field reports the list')
    env.check(not log.odd, label + ': nothing else is reported')


OPS = ['append', 'insert', 'extend', 'iadd', 'attr_iadd', 'pop', 'popat', 'remove', 'setitem', 'delitem', 'setslice', 'delslice', 'setstep', 'delstep', 'assign', 'assignone', 'fset', 'silent',
       'reverse', 'clear', 'imul', 'move', 'own', 'sort']
SHORT = ['insert', 'iadd', 'popat', 'remove', 'setitem', 'delitem', 'setslice', 'delslice', 'assign']


def apply(env, op, i, n, name, ref, pool, wide, light=False):
    """Do the operation on the child list and on the plain list; the errors."""
    from vrml import protofunctions
    t = getattr(n, name)
    lo, hi = (-len(ref) - 1, len(ref) + 1) if not light else (-1, len(ref))
    x = y = None

    def one(k):
        return pool[env.choice('%s%d' % (k, i), len(pool) if not light else 2)]

    def index(k):
        return env.int('%s%d' % (k, i), lo, hi)

    def some(k):
        m = env.pick('%s%d' % (k, i), [[], [0], [1, 0], [3, 1], [0, 0], [2, 3, 0]] if wide else [[], [3], [1, 0]])
        return [pool[j] for j in m]

    if op == 'append':
        x = one('x')
        f = lambda l: l.append(x)
    elif op == 'insert':
        k, x = index('k'), one('x')
        f = lambda l: l.insert(k, x)
    elif op == 'extend':
        v = some('v')
        form = env.pick('form%d' % i, ['list', 'tuple', 'iter', 'none']) if wide else 'list'
        f = lambda l: l.extend({'list': list(v), 'tuple': tuple(v), 'iter': iter(list(v)), 'none': None}[form])
    elif op == 'iadd':
        v = some('v')

        def f(l):
            l += v
            env.check(l is t or l is ref, 'in-place add gives the list')
    elif op == 'attr_iadd':
        v = some('v')

        def f(l):
            if l is ref:
                l += v
            elif name == 'children':
                n.children += v
            elif name == 'level':
                n.level += v
            else:
                n.second += v
    elif op == 'pop':
        f = lambda l: l.pop()
    elif op == 'popat':
        k = index('k')
        f = lambda l: l.pop(k)
    elif op == 'remove':
        x = one('x')
        f = lambda l: l.remove(x)
    elif op == 'setitem':
        k, x = index('k'), one('x')

        def f(l):
            l[k] = x
    elif op == 'delitem':
        k = index('k')

        def f(l):
            del l[k]
    elif op in ('setslice', 'delslice'):
        a, b = index('a'), index('b')
        if op == 'setslice':
            v = some('v')

            def f(l):
                l[a:b] = v
        else:
            def f(l):
                del l[a:b]
    elif op in ('setstep', 'delstep'):
        s = env.pick('s%d' % i, [slice(None, None, 2), slice(None, None, -1), slice(1, None, 2), slice(None, None, None)])
        if op == 'setstep':
            v = some('v')

            def f(l):
                l[s] = v
        else:
            def f(l):
                del l[s]
    elif op in ('assign', 'fset', 'silent'):
        v = some('v')
        form = env.pick('form%d' % i, ['list', 'tuple', 'own']) if wide else 'list'
        if form == 'own':
            v = list(reversed(ref))

        def f(l):
            if l is ref:
                l[:] = v
            elif op == 'assign':
                setattr(n, name, tuple(v) if form == 'tuple' else list(v))
            else:
                protofunctions.getField(n, name).fset(n, list(v), notify=0 if op == 'silent' else 1)
    elif op == 'own':
        # the list itself as the operand
        what = env.pick('what%d' % i, ['extend', 'iadd', 'attr', 'slice', 'front', 'step', 'assign', 'fset', 'iter', 'filter', 'sorted'])
        a, b = (index('a'), index('b')) if what == 'slice' else (0, 0)

        def f(l):
            if what == 'extend':
                l.extend(l)
            elif what == 'iadd':
                l += l
            elif what == 'iter':
                l.extend(x for x in list(l) if x is not pool[0])
            elif what == 'slice':
                l[a:b] = l
            elif what == 'front':
                l[:0] = l
            elif what == 'step':
                l[::-1] = l
            elif what == 'filter':
                l[:] = [x for x in l if x is not pool[0]]
            elif what == 'sorted':
                l[:] = reversed(l)
            elif l is ref:
                if what == 'attr':
                    l += l
            elif what == 'attr':
                setattr(n, name, getattr(n, name) + getattr(n, name))
            elif what == 'assign':
                setattr(n, name, l)
            else:
                protofunctions.getField(n, name).fset(n, l)
    elif op == 'assignone':
        x = one('x')

        def f(l):
            if l is ref:
                l[:] = [x]
            else:
                setattr(n, name, x)
    elif op == 'reverse':
        f = lambda l: l.reverse()
    elif op == 'sort':
        # stable, by any ranks of the children; without a key they cannot be compared
        how = env.pick('how%d' % i, ['key', 'reverse', 'plain', 'fails'])
        if how in ('key', 'reverse'):
            ranks = [(x, env.int('rank%d[%d]' % (i, j), 0, 2)) for j, x in enumerate(pool)]

        def key(x):
            if how == 'fails':
                raise ValueError(x)
            for y, r in ranks:
                if y is x:
                    return r
            return 1

        def f(l):
            if how == 'plain':
                l.sort()
            else:
                l.sort(key=key, reverse=how == 'reverse')
    elif op == 'clear':
        f = lambda l: l.clear()
    elif op == 'imul':
        k = env.pick('k%d' % i, [-1, 0, 1, 2, 3])

        def f(l):
            l *= k
            env.check(l is t or l is ref, 'in-place repetition gives the list')
    elif op == 'move':
        def f(l):
            l[0], l[-1] = l[-1], l[0]
    got = want = None
    gv = wv = None
    try:
        wv = f(ref)
    except (IndexError, ValueError, TypeError) as e:
        want = type(e)
    try:
        gv = f(t)
    except (IndexError, ValueError, TypeError) as e:
        got = type(e)
    env.check(got is want, op + ': the error of a plain list')
    if want is not None:
        env.cover('error')
    if op in ('pop', 'popat') and want is None:
        env.check(gv is wv, 'pop gives the child')


def history(kinds, steps, ops, wide, sizes=(0, 1, 3), light=False, origins=False):
    def fn(env):
        from vrml import protofunctions, node
        from vrml.vrml97 import basenodes
        n, name = owner(env, env.pick('kind', list(kinds)))
        pool = [basenodes.Group(), basenodes.Shape(), node.NULL if wide else basenodes.Box(), basenodes.Transform()]
        size = env.pick('size', list(sizes))
        start = [pool[j] for j in {0: [], 1: [0], 2: [0, 1], 3: [0, 1, 0], 4: [0, 1, 2, 0]}[size]]
        how = env.pick('how', ['assigned', 'appended', 'fset', 'constructed', 'deleted']) if origins else 'assigned'
        if how == 'appended':
            for x in start:
                getattr(n, name).append(x)
        elif how == 'fset':
            protofunctions.getField(n, name).fset(n, start)
        elif how == 'constructed':
            n = type(n)(**{name: start})
        elif how == 'deleted':
            setattr(n, name, [pool[1]])
            getattr(n, name).append(pool[3])
            delattr(n, name)
            setattr(n, name, start)
        elif size or not wide:
            setattr(n, name, start)
        F = protofunctions.getField(n, name)
        log = Log(n, F, [])
        ref = list(start)
        for i in range(steps):
            op = env.pick('op%d' % i, list(ops))
            before = list(ref)
            log.clear()
            apply(env, op, i, n, name, ref, pool, wide, light)
            got = getattr(n, name)
            identical(env, list(got), ref, 'contents')
            account(env, log, before, ref, op)
            if op in ('assign', 'assignone', 'fset'):
                env.check(len(log.sets) == 1, 'an assignment is reported once')
            if op == 'silent':
                env.check(not log.sets, 'a silent assignment is not reported by the field')
        env.check(len(got) == len(ref), 'length')
        env.cover('done')
    return fn


def oldlist(env):
    """A list that is no longer the node's; another node's list."""
    from vrml.vrml97 import basenodes
    from vrml import protofunctions
    kind = env.pick('kind', ['group', 'proto'])
    n, name = owner(env, kind)
    x, y, z = basenodes.Shape(), basenodes.Group(), basenodes.Box()
    old = getattr(n, name)
    old.append(x)
    if env.flag('delete'):
        delattr(n, name)
        new = getattr(n, name)
        identical(env, list(new), [], 'the default after deletion')
        log = Log(n, protofunctions.getField(n, name), [])
        old.append(y)
        env.check(not log.sets and not log.new, 'a list taken off the node reports nothing from it')
        identical(env, list(new), [], 'the new list is another')
        log.clear()
        new.append(z)
        env.check(count(log.new, z) == 1 and len(log.sets) == 1, 'the new list reports once')
    else:
        other = type(n)()
        setattr(other, name, old)
        log = Log(n, protofunctions.getField(n, name), [])
        getattr(other, name).append(y)
        identical(env, list(getattr(n, name)), [x], 'nodes do not share lists')
        identical(env, list(getattr(other, name)), [x, y], 'the other list')
        env.check(not log.sets and not log.new, 'nothing from the first node')
        log.clear()
        setattr(n, name, getattr(other, name))
        identical(env, list(getattr(n, name)), [x, y], 'assigned')
        env.check(len(log.sets) == 1 and len(log.new) == 1 and log.new[0] is y, 'one child added')
        getattr(n, name).pop()
        identical(env, list(getattr(other, name)), [x, y], 'the other list is unchanged')
    env.cover('done')


def refused(env):
    """Values that are no list of nodes leave the list alone."""
    from vrml.vrml97 import basenodes
    from vrml import protofunctions
    n, name = owner(env, env.pick('kind', ['group', 'scene', 'lod', 'proto']))
    x = basenodes.Shape()
    had = env.flag('had')
    if had:
        setattr(n, name, [x])
    log = Log(n, protofunctions.getField(n, name), [])
    bad = env.pick('bad', ['text', 5, [x, 5], ['a'], [[x, x]], {1: x}])
    env.check_raises(ValueError, 'is refused', lambda: setattr(n, name, bad))
    identical(env, list(getattr(n, name)), [x] if had else [], 'the children stay')
    env.check(not log.sets and not log.new and not log.gone and not log.odd, 'nothing is reported')
    env.cover('done')


def strings(env):
    """An observable list of its own, with arbitrary text items."""
    from vrml import olist
    from pydispatch import dispatcher
    l = olist.OList()
    ref, calls = [], []

    def rec(signal, value=None):
        calls.append((signal, value))
    dispatcher.connect(rec, sender=l, weak=False)
    a, b = env.text('a', 1, alphabet='xyz'), env.text('b', 1, alphabet='xyz')
    for v in (a, b, 'x'):
        l.append(v)
        ref.append(v)
    env.check([c[0] for c in calls] == ['new'] * 3, 'three added')
    del calls[:]
    op = env.pick('op', ['remove', 'index', 'contains', 'count'])
    c = env.text('c', 1, alphabet='xyzw')
    if op == 'remove':
        err = None
        try:
            ref.remove(c)
        except ValueError:
            err = True
        got = None
        try:
            l.remove(c)
        except ValueError:
            got = True
        env.check(got == err, 'the error of a plain list')
        env.check(len(l) == len(ref), 'length')
        for p, q in zip(l, ref):
            env.check(p == q, 'contents')
        env.check(len(calls) == (0 if err else 1), 'one removal told')
        if not err:
            env.check(calls[0][0] == 'del' and calls[0][1] == c, 'the removal told')
    elif op == 'contains':
        env.check((c in l) == (c in ref), 'membership')
    elif op == 'count':
        env.check(l.count(c) == ref.count(c), 'count')
    elif c in ref:
        env.check(l.index(c) == ref.index(c), 'index')
    env.cover('done')


def harnesses(tier):
    deep = tier != 'quick'
    hs = []

    def add(name, fn, bounds, covers=('done',), **k):
        k.setdefault('variants', ['pure', 'accel'])
        hs.append(dict(name=name, fn=fn, covers=list(covers), bounds=bounds, validate=6 if not deep else 20, **k))
    add('single', history(('group', 'proto'), 1, OPS, True), 'one operation on lists of 0, 1 and 3, indices one beyond either end', ('done', 'error'), variants=['pure'])
    add('single_scene', history(('scene', 'lod'), 1, OPS, True, (3,) if not deep else (0, 1, 2, 3, 4)), 'one operation', ('done', 'error'))
    add('pairs', history(('proto',), 2, SHORT, False, (2,) if not deep else (1, 2, 3), light=not deep), 'two operations', ('done', 'error'), variants=['pure'] if not deep else ['pure', 'accel'])
    add('origins', history(('group', 'proto', 'scene', 'lod'), 1, ['append', 'assign', 'setitem', 'attr_iadd', 'popat', 'silent', 'reverse', 'sort'], True, (1, 3), origins=True), 'five ways to have filled the list', ('done', 'error'))
    add('oldlist', oldlist, 'lists taken off, lists of other nodes')
    add('refused', refused, 'six values')
    add('strings', strings, 'arbitrary letters')
    if deep:
        add('triples', history(('group',), 3, SHORT, False, (2,), light=True), 'three operations', ('done', 'error'))
    return hs
