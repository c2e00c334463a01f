"""C20: weak collections hold exactly their living members, in order."""
import weakref
from . import common

PRELOAD = common.VRML + ['vrml.weaklist', 'vrml.weaktuple', 'vrml.weakkeydictfix']
OUTSIDE = 'items that cannot be referred to weakly, items that die while the collection is being iterated over or changed, death within a reference cycle, longer histories'
ASSUMPTIONS = ['the plain list and tuple of CPython are the reference', 'an object dies as soon as nothing refers to it, as in CPython']


class Thing(object):
    """Compares by a value, which may be symbolic, and is false where that is 0."""

    def __init__(self, v):
        self.v = v

    def __bool__(self):
        return bool(self.v != 0)

    def __eq__(self, other):
        return isinstance(other, Thing) and bool(self.v == other.v)

    def __ne__(self, other):
        return not self == other

    def __lt__(self, other):
        return bool(self.v < other.v)

    def __gt__(self, other):
        return bool(self.v > other.v)

    def __le__(self, other):
        return bool(self.v <= other.v)

    def __ge__(self, other):
        return bool(self.v >= other.v)


def things(env, n, lo=0, hi=2):
    return [Thing(env.int('value%d' % i, lo, hi)) for i in range(n)]


class World(object):
    """The only strong references to the things; what the collection should hold, by number."""

    def __init__(self, env, n, values=None):
        self.env = env
        self.pool = things(env, n)
        self.watch = [weakref.ref(x) for x in self.pool]
        self.want = []

    def alive(self, j):
        return self.pool[j] is not None

    def one(self, name):
        j = self.env.choice(name, len(self.pool))
        if not self.alive(j):
            self.env.stop()
        return j

    def some(self, name, longest=2):
        return [self.one('%s[%d]' % (name, i)) for i in range(self.env.choice(name + ' length', longest + 1))]

    def drop(self, j):
        self.pool[j] = None
        self.want = [k for k in self.want if k != j]
        self.env.check(self.watch[j]() is None, 'the collection keeps nothing alive')

    def items(self):
        return [self.pool[j] for j in self.want]

    def number(self, x):
        for j, y in enumerate(self.pool):
            if y is x and y is not None:
                return j
        self.env.check(False, 'only what was put in comes out')


def holds(env, got, world, label):
    """A weak list holds exactly the wanted objects."""
    want = world.want
    env.check(len(got) == len(want), label + ': length')
    for i, j in enumerate(want):
        env.check(got[i] is world.pool[j], label + ': item %d' % i)
        env.check(got[i - len(want)] is world.pool[j], label + ': item %d from the end' % i)
    for form, items in (('iterated', [x for x in got]), ('all', got.get()), ('list', list(got)), ('slice', got[:]), ('reversed', list(reversed(list(reversed(got)))))):
        env.check(len(items) == len(want), label + ': %s has the length' % form)
        for x, j in zip(items, want):
            env.check(x is world.pool[j], label + ': %s in order' % form)


OPS = ['append', 'insert', 'extend', 'iadd', 'set', 'del', 'pop', 'popat', 'remove', 'setslice', 'delslice', 'drop', 'reverse', 'clear', 'imul', 'sort']
SHORT = ['insert', 'iadd', 'set', 'popat', 'setslice', 'drop']


def step(env, w, l, i, op, small):
    n = len(w.want)

    def at(name, extra=0):
        return env.choice(name, 2 * n + 1 + 2 * extra) - n - extra if not small else env.choice(name, n + 1 + extra)

    def both(f):
        """f on the list of numbers with numbers, and on the weak list with things."""
        try:
            r = f(w.want, lambda j: j)
            failed = None
        except (IndexError, ValueError) as err:
            r, failed = None, type(err)
        try:
            g = f(l, lambda j: w.pool[j])
            ok = None
        except (IndexError, ValueError) as err:
            g, ok = None, type(err)
        env.check(failed is ok, op + ': the same errors as of a list')
        return r, g

    if op == 'append':
        x = w.one('x%d' % i)
        both(lambda t, v: t.append(v(x)))
    elif op == 'insert':
        x, k = w.one('x%d' % i), at('k%d' % i, 1)
        both(lambda t, v: t.insert(k, v(x)))
    elif op == 'extend':
        xs = w.some('x%d' % i)
        form = env.pick('form%d' % i, ['list', 'iterator', 'weak', 'refs'])
        if form == 'weak':
            from vrml.weaklist import WeakList
            both(lambda t, v: t.extend([v(x) for x in xs] if t is w.want else WeakList([v(x) for x in xs])))
        elif form == 'refs':
            both(lambda t, v: t.extend([v(x) if t is w.want else weakref.ref(v(x)) for x in xs]))
        else:
            both(lambda t, v: t.extend([v(x) for x in xs] if form == 'list' else iter([v(x) for x in xs])))
    elif op == 'iadd':
        xs = w.some('x%d' % i)

        def f(t, v):
            same = t
            t += [v(x) for x in xs]
            env.check(t is same, 'in-place add gives the list itself')
        both(f)
    elif op == 'set':
        x, k = w.one('x%d' % i), at('k%d' % i)

        def f(t, v):
            t[k] = v(x)
        both(f)
    elif op == 'del':
        k = at('k%d' % i)

        def f(t, v):
            del t[k]
        both(f)
    elif op == 'pop':
        r, g = both(lambda t, v: t.pop())
        if r is not None:
            env.check(g is w.pool[r], 'pop gives the last')
    elif op == 'popat':
        k = at('k%d' % i)
        r, g = both(lambda t, v: t.pop(k))
        if r is not None:
            env.check(g is w.pool[r], 'pop gives the item')
    elif op == 'remove':
        x = w.one('x%d' % i)
        first = [k for k, j in enumerate(w.want) if w.pool[j] == w.pool[x]]
        try:
            l.remove(w.pool[x])
            env.check(len(first) > 0, 'remove of something not there is an error')
            del w.want[first[0]]
        except ValueError:
            env.check(not first, 'remove of something there is no error')
    elif op == 'setslice':
        xs = w.some('x%d' % i, 1 if small else 2)
        a, b = at('a%d' % i), at('b%d' % i)
        s = env.pick('s%d' % i, [None, -2]) if not small else None

        def f(t, v):
            t[a:b:s] = [v(x) for x in xs]
        both(f)
    elif op == 'delslice':
        a, b = at('a%d' % i), at('b%d' % i)
        s = env.pick('s%d' % i, [None, 2, -1]) if not small else None

        def f(t, v):
            del t[a:b:s]
        both(f)
    elif op == 'reverse':
        both(lambda t, v: t.reverse())
    elif op == 'clear':
        both(lambda t, v: t.clear())
    elif op == 'imul':
        k = env.choice('k%d' % i, 4) - 1

        def f(t, v):
            same = t
            t *= k
            env.check(t is same, 'in-place repetition gives the list itself')
        both(f)
    elif op == 'sort':
        rev = env.flag('rev%d' % i)
        form = env.pick('key%d' % i, ['plain', 'key'])
        order = list(w.items())
        order.sort(key=lambda x: x.v, reverse=rev)
        w.want[:] = [w.number(x) for x in order]
        order = None
        if form == 'key':
            l.sort(key=lambda x: x.v, reverse=rev)
        else:
            l.sort(reverse=rev)
    elif op == 'drop':
        j = w.one('gone%d' % i)
        w.drop(j)


def beginning(env, longest):
    """Any start, up to exchanging the things."""
    got = []
    for i in range(env.choice('start', longest + 1)):
        got.append(env.choice('start[%d]' % i, min(3, len(set(got)) + 1)))
    return got


def history(first, ops, count, small=False, start=2):
    """first: the operations the first step may be; then any of ops."""
    def fn(env):
        from vrml.weaklist import WeakList
        w = World(env, 3)
        w.want = beginning(env, start)
        l = WeakList(w.items())
        for i in range(count):
            op = env.pick('op%d' % i, first if not i else ops)
            step(env, w, l, i, op, small)
            env.check(len(l) == len(w.want), op + ': length')
        env.check(isinstance(l, WeakList), 'still a weak list')
        holds(env, l, w, op)
        # whatever is left is held weakly
        l2 = l.copy()
        env.check(isinstance(l2, WeakList), 'a copy is a weak list')
        holds(env, l2, w, 'copy')
        for j in range(3):
            if w.alive(j):
                w.drop(j)
        env.check(len(l) == 0 and len(l2) == 0, 'nothing outlives its objects')
        for o in ops:
            if op == o:
                env.cover(o)
    return fn


def queries(longest):
    """What a list tells about its items, by the items' own comparison."""
    def fn(env):
        ask(env, longest)
    return fn


def ask(env, longest):
    from vrml.weaklist import WeakList
    w = World(env, 3)
    w.want = beginning(env, longest)
    l = WeakList(w.items())
    if env.flag('drop'):
        w.drop(w.one('gone'))
    x = Thing(env.int('asked', 0, 3))
    what = env.pick('what', ['contains', 'count', 'index', 'eq', 'lt', 'le', 'add', 'mul', 'slice', 'repr'])
    items = w.items()
    if what == 'contains':
        env.check((x in l) == (x in items), 'contains')
    elif what == 'count':
        env.check(l.count(x) == items.count(x), 'count')
    elif what == 'index':
        want = [i for i, y in enumerate(items) if y == x]
        try:
            got = l.index(x)
            env.check(len(want) > 0 and got == want[0], 'index of the first')
        except ValueError:
            env.check(not want, 'an error exactly when not there')
    elif what in ('eq', 'lt', 'le'):
        other = [w.pool[k] for k in w.some('other', 1 if longest < 3 else 2)] if env.flag('alive') else [x]
        form = WeakList(other) if env.flag('weak') else other
        if what == 'eq':
            env.check((l == form) == (items == other), 'equal as lists')
            env.check((l != form) == (items != other), 'unequal as lists')
        elif what == 'lt':
            env.check((l < form) == (items < other), 'less as lists')
            env.check((l >= form) == (items >= other), 'not less as lists')
        else:
            env.check((l <= form) == (items <= other), 'less or equal as lists')
            env.check((l > form) == (items > other), 'greater as lists')
    elif what in ('add', 'mul'):
        got, want = (l + [x], items + [x]) if what == 'add' else (l * 2, items * 2)
        env.check(len(got) == len(want), what + ': length')
        for a, b in zip(got, want):
            env.check(a is b, what + ': the items in order')
        got = want = None
        holds(env, l, w, what)
    elif what == 'slice':
        n = len(items)
        a, b = env.choice('from', 2 * n + 3) - n - 1, env.choice('to', 2 * n + 3) - n - 1
        s = slice(a, b, env.pick('step', [None, 2, -1]))
        got, want = l[s], items[s]
        env.check(len(got) == len(want), 'slice: length')
        for p, q in zip(got, want):
            env.check(p is q, 'slice: the items in order')
    else:
        env.check(repr(l) == 'WeakList( %r )' % (items,), 'repr shows the items')
    env.cover(what)


def fixed(longest):
    """A weak tuple: its objects in order while they live, an error afterwards."""
    def fn(env):
        from vrml.weaktuple import WeakTuple
        w = World(env, 3)
        w.want = beginning(env, longest)
        form = env.pick('from', ['list', 'iterator', 'refs', 'weak'])
        numbers = list(w.want)
        if form == 'list':
            t = WeakTuple(w.items())
        elif form == 'iterator':
            t = WeakTuple(iter(w.items()))
        elif form == 'refs':
            t = WeakTuple([weakref.ref(x) for x in w.items()])
        else:
            t = WeakTuple(WeakTuple(w.items()))
        n = len(numbers)
        gone = []
        for k in env.pick('drop', [[], [0], [1], [2], [1, 0]]):
            w.drop(k)
            gone.append(k)
        broken = len([1 for j in numbers if j in gone]) > 0
        env.check(len(t) == n, 'the length stays')
        env.check(bool(t.valid()) == (not broken), 'valid exactly while all its objects live')
        for i, j in enumerate(numbers):
            for at in (i, i - n):
                try:
                    got = t[at]
                    env.check(got is w.pool[j] and j not in gone, 'the object at its place')
                except ReferenceError:
                    env.check(j in gone, 'an error only when it has gone')
                got = None
        env.check_raises(IndexError, 'past the end', lambda: t[n])
        # everything that looks at all of them
        def look(label, f, test):
            try:
                got = f()
            except ReferenceError:
                env.check(broken, label + ': an error only when one has gone')
                return
            env.check(not broken, label + ': an error when one has gone')
            test(got)

        def sequence(label, want):
            def test(got):
                env.check(len(got) == len(want), label + ': length')
                for a, j in zip(got, want):
                    env.check(a is w.pool[j], label + ': in order')
            return test
        look('iteration', lambda: [x for x in t], sequence('iteration', numbers))
        look('tuple', lambda: tuple(t), sequence('tuple', numbers))
        look('sum', lambda: t + [], sequence('sum', numbers))
        look('doubled', lambda: t * 2, sequence('doubled', numbers * 2))
        a, b = env.pick('slice', [(0, n), (1, n), (0, -1), (-2, n + 1), (1, 2), (2, 1)])
        part = numbers[a:b]
        try:
            got = t[a:b]
            env.check(not [1 for j in part if j in gone], 'slice: an error when one of it has gone')
            sequence('slice', part)(got)
        except ReferenceError:
            env.check(len([1 for j in part if j in gone]) > 0, 'slice: an error only when one of it has gone')
        got = None
        if not gone:
            x = w.pool[env.choice('asked', 3)]
            where = [i for i, j in enumerate(numbers) if w.pool[j] is x]
            env.check(bool(x in t) == (len(where) > 0), 'contains')
            env.check(t.count(x) == len(where), 'count')
            if where:
                env.check(t.index(x) == where[0], 'index of the first')
            x = None
            env.check(t == w.items(), 'equal to the list of its objects')
            env.check(not (t != w.items()), 'not unequal to it')
            if n:
                env.check(not (t == w.items()[:-1]), 'not equal to a shorter list')
                w.want = []
                w.drop(numbers[0])
                env.check(not t.valid(), 'it keeps nothing alive')
                env.cover('kept nothing')
        env.cover('broken' if broken else 'whole')
    return fn


class Key(Thing):
    """As a key: equal keys of one hash."""

    def __hash__(self):
        return 7


KEYED = ['set', 'del', 'pop', 'setdefault', 'update', 'drop', 'popitem', 'copy', 'clear']


def keyed(steps, longest, kinds):
    """A dictionary with weak keys, against a plain list of keys and values."""
    def fn(env):
        from vrml.weakkeydictfix import WeakKeyDictionary
        w = World(env, 3)
        w.pool = [Key(x.v) for x in w.pool]
        w.watch = [weakref.ref(x) for x in w.pool]
        pairs = []                  # number of the key, value

        def place(j):
            for i, (k, v) in enumerate(pairs):
                if w.pool[k] == w.pool[j]:
                    return i
            return None

        def put(j, v):
            i = place(j)
            if i is None:
                pairs.append((j, v))
            else:
                pairs[i] = (pairs[i][0], v)
        first = [(j, 'v%d' % j) for j in range(env.choice('length', longest + 1))]
        how = env.pick('made', ['sets', 'dict', 'weak'])
        if how == 'sets':
            d = WeakKeyDictionary()
            for j, v in first:
                d[w.pool[j]] = v
        else:
            d = WeakKeyDictionary(dict([(w.pool[j], v) for j, v in first]))
            if how == 'weak':
                d = WeakKeyDictionary(d)
        for j, v in first:
            put(j, v)

        def same(label):
            env.check(len(d) == len(pairs), label + ': length')
            env.check(bool(d) == bool(pairs), label + ': truth')
            got = list(d.items())
            env.check(len(got) == len(pairs), label + ': number of items')
            for (x, v), (j, u) in zip(got, pairs):
                env.check(x is w.pool[j] and v == u, label + ': keys and values')
            got = x = None
            env.check([w.number(x) for x in d] == [j for j, v in pairs], label + ': iteration')
            env.check(list(d.values()) == [v for j, v in pairs], label + ': values')
            for j in range(len(w.pool)):
                if w.alive(j):
                    i = place(j)
                    env.check((w.pool[j] in d) == (i is not None), label + ': contains')
                    env.check(d.get(w.pool[j], 'none') == ('none' if i is None else pairs[i][1]), label + ': get')
                    if i is None:
                        env.check_raises(KeyError, label + ': an unknown key', lambda: d[w.pool[j]])
                    else:
                        env.check(d[w.pool[j]] == pairs[i][1], label + ': the value')
            env.check(5 not in d, label + ': no other key')
        same('made')
        for s in range(steps):
            op = env.pick('op%d' % s, kinds)
            new = 'n%d' % s
            if op == 'set':
                j = w.one('key%d' % s)
                d[w.pool[j]] = new
                put(j, new)
            elif op in ('del', 'pop'):
                j = w.one('key%d' % s)
                i = place(j)
                if op == 'pop' and env.flag('default%d' % s):
                    env.check(d.pop(w.pool[j], 'none') == ('none' if i is None else pairs[i][1]), 'pop with a default')
                elif i is None:
                    env.check_raises(KeyError, op + ' of an unknown key', (lambda: d.pop(w.pool[j])) if op == 'pop' else (lambda: d.__delitem__(w.pool[j])))
                elif op == 'pop':
                    env.check(d.pop(w.pool[j]) == pairs[i][1], 'pop gives the value')
                else:
                    del d[w.pool[j]]
                if i is not None:
                    del pairs[i]
            elif op == 'setdefault':
                j = w.one('key%d' % s)
                i = place(j)
                env.check(d.setdefault(w.pool[j], new) == (new if i is None else pairs[i][1]), 'setdefault gives the value')
                if i is None:
                    put(j, new)
            elif op == 'update':
                js = w.some('key%d' % s)
                if env.flag('from%d' % s):
                    other = WeakKeyDictionary()
                    for j in js:
                        other[w.pool[j]] = new
                else:
                    other = dict([(w.pool[j], new) for j in js])
                d.update(other)
                other = None
                for j in js:
                    put(j, new)
            elif op == 'drop':
                j = w.one('key%d' % s)
                w.drop(j)
                pairs[:] = [(k, v) for k, v in pairs if k != j]
            elif op == 'popitem':
                if not pairs:
                    env.check_raises(KeyError, 'popitem of an empty one', d.popitem)
                else:
                    x, v = d.popitem()
                    j, u = pairs.pop()
                    env.check(x is w.pool[j] and v == u, 'popitem gives a pair')
                    x = None
            elif op == 'copy':
                e = d.copy()
                for j in range(3):
                    if w.alive(j):
                        e[w.pool[j]] = 'other'
                same('after changing a copy')
                e = None
            else:
                d.clear()
                pairs[:] = []
            same(op)
            env.cover(op)
    return fn


def harnesses(tier):
    t = tier == 'thorough'
    hs = []
    for o in OPS:
        hs.append(dict(name='one_' + o, fn=history([o], [o], 1, start=2 if o == 'setslice' and not t else 3), covers=[o], bounds='any list of up to %d of 3 objects, then ' % (2 if o == 'setslice' and not t else 3) + o + ' with any arguments'))
    for o in SHORT:
        hs.append(dict(name='two_' + o, fn=history([o], SHORT, 3 if t else 2, True, 2 if t else 1), covers=SHORT, bounds='any list of up to %d of 3 objects, then %s and %s of %s' % (2 if t else 1, o, 'two' if t else 'one', ', '.join(SHORT))))
    hs.append(dict(name='ask', fn=queries(3 if t else 2), covers=['contains', 'count', 'index', 'eq', 'lt', 'le', 'add', 'mul', 'slice', 'repr'], bounds='any list of up to %d of 3 objects with any comparison values 0..2, any one dropped, any question' % (3 if t else 2)))
    hs.append(dict(name='tuple', fn=fixed(4 if t else 3), covers=['whole', 'broken', 'kept nothing'], bounds='any weak tuple of up to %d of 3 objects, any of them dropped' % (4 if t else 3)))
    hs.append(dict(name='keys', fn=keyed(2 if t else 1, 3, KEYED), covers=KEYED, bounds='any weak dictionary of up to 3 keys, equal or not, then %s of %s' % ('two' if t else 'one', ', '.join(KEYED))))
    short = ['set', 'del', 'drop'] if not t else ['set', 'del', 'drop', 'pop', 'setdefault']
    hs.append(dict(name='keys_more', fn=keyed(3 if t else 2, 2, short), covers=short, bounds='any weak dictionary of up to 2 of 3 keys, then %s of %s' % ('three' if t else 'two', ', '.join(short))))
    return hs
