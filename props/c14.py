"""C14: cached data is never served after what it depends on changed."""
import gc
from . import common

PRELOAD = common.VRML + ['vrml.cache']
OUTSIDE = 'arrays changed in place (nothing is told of it); data kept by the caller; changes announced by nobody (silent sets); nodes in reference cycles before they are collected; concurrent access'
ASSUMPTIONS = ['a node dies as soon as nothing refers to it, as in CPython; the new nodes then made take its place in memory']
KEYS = ['', ('k', 1)]
FIELDS = ['number', 'place', 'kids']


def node_class():
    from vrml import node, field
    return node.prototype('P', [
        field.newField('number', 'SFInt32', 1, 0),
        field.newField('place', 'SFVec3f', 1, [0, 0, 0]),
        field.newField('kids', 'MFNode', 1, list),
        field.newField('other', 'SFInt32', 1, 0),
    ])


class Data(object):
    pass


class World(object):
    def __init__(self, env, kind):
        from vrml import cache
        self.env = env
        self.cls = node_class()
        self.nodes = [self.cls(), self.cls()]
        self.cache = cache.CACHE if kind == 'global' else cache.Cache()
        self.other = cache.Cache()
        self.data = {}      # (node, key) -> data that is to be returned
        self.holder = {}    # (node, key) -> its holder
        self.deps = {}      # (node, key) -> set of (node, field)
        self.old = []       # holders somebody still has
        self.cleared = set()
        self.clears = True

    def look(self, label):
        for n, x in enumerate(self.nodes):
            if x is None:
                continue
            for k in range(len(KEYS)):
                got = self.cache.getData(x, KEYS[k], self)
                want = self.data.get((n, k))
                if want is not None:
                    self.env.check(got is want, label + ': data of node %d key %d stays' % (n, k))
                elif (n, k) in self.cleared:
                    self.env.check(got is None or got is self, label + ': nothing is returned for node %d key %d' % (n, k))
                else:
                    self.env.check(got is self, label + ': nothing is returned for node %d key %d' % (n, k))
                self.env.check(self.other.getData(x, KEYS[k], self) is self, label + ': nothing in another cache')

    def store(self, n, k, keep):
        d = Data()
        h = self.cache.holder(self.nodes[n], d, KEYS[k])
        if keep and (n, k) in self.holder:
            self.old.append(self.holder[n, k])
        self.holder[n, k] = h
        self.data[n, k] = d
        self.deps[n, k] = set()
        self.cleared.discard((n, k))
        self.env.check(self.cache.getHolder(self.nodes[n], KEYS[k]) is h, 'the holder is found')

    def lose(self, c, entirely=False):
        self.data.pop(c, None)
        if entirely:
            self.holder.pop(c, None)
            self.deps.pop(c, None)
            self.cleared.discard(c)
        else:
            self.cleared.add(c)

    def change(self, n, f):
        for c in list(self.deps):
            if (n, f) in self.deps[c] and c in self.data:
                self.lose(c)

    def gone(self, n):
        self.nodes[n] = None
        for c in list(self.deps):
            if c[0] == n:
                self.lose(c, True)
            elif (n, None) in self.deps[c]:
                self.lose(c, True)
        for c in self.deps:
            self.deps[c] = set([d for d in self.deps[c] if d[0] != n])

    def close(self):
        self.holder.clear()
        self.deps.clear()
        del self.nodes[:], self.old[:]


def change(env, w, i, n, f, brief=False):
    """Some change of the field of the node."""
    from vrml import protofunctions, route
    x = w.nodes[n]
    if f == 'number':
        how = env.pick('how%d' % i, ['set', 'del'] if brief else ['set', 'same', 'fset', 'del', 'route'])
        if how == 'set':
            x.number = env.int('v%d' % i, -5, 5)
        elif how == 'same':
            x.number = x.number
        elif how == 'fset':
            protofunctions.getField(x, 'number').fset(x, env.int('v%d' % i, -5, 5))
        elif how == 'del':
            if 'number' not in x.__dict__:
                # nobody is told of this
                protofunctions.getField(x, 'number').fset(x, 1, notify=0)
            del x.number
        else:
            source = w.cls()
            r = route.ROUTE(source, 'number', x, 'number')
            source.number = env.int('v%d' % i, -5, 5)
            r = None
    elif f == 'place':
        how = env.pick('how%d' % i, ['set', 'del'] if brief else ['set', 'del', 'route'])
        if how == 'set':
            x.place = [env.real('v%d' % i, -1, 1), 0, 0]
        elif how == 'del':
            if 'place' not in x.__dict__:
                protofunctions.getField(x, 'place').fset(x, [1, 2, 3], notify=0)
            del x.place
        else:
            source = w.cls()
            r = route.ROUTE(source, 'place', x, 'place')
            source.place = [0, env.real('v%d' % i, -1, 1), 0]
            r = None
    else:
        kid = w.cls()
        how = env.pick('how%d' % i, ['set', 'del'] if brief else ['set', 'append', 'pop', 'setitem', 'del', 'route'])
        if how in ('pop', 'setitem', 'del'):
            protofunctions.getField(x, 'kids').fset(x, [w.cls()], notify=0)
        if how == 'set':
            x.kids = [kid]
        elif how == 'append':
            x.kids.append(kid)
        elif how == 'pop':
            x.kids.pop()
        elif how == 'setitem':
            x.kids[0] = kid
        elif how == 'del':
            del x.kids
        else:
            source = w.cls()
            r = route.ROUTE(source, 'kids', x, 'kids')
            source.kids = [kid]
            r = None
    w.change(n, f)


OPS = ['store', 'depend', 'exist', 'change', 'else', 'drop', 'refill', 'remove']


def step(env, w, i, op, fields):
    def node(name):
        some = [n for n in range(2) if w.nodes[n] is not None]
        if not some:
            env.stop()
        return env.pick(name + '%d' % i, some) if len(some) > 1 else some[0]

    def holder(name):
        some = sorted(w.holder)
        if not some:
            env.stop()
        return env.pick(name + '%d' % i, some) if len(some) > 1 else some[0]
    if op == 'store':
        n, k = node('n'), env.choice('k%d' % i, 2)
        w.store(n, k, (n, k) in w.holder and env.flag('keep%d' % i))
    elif op == 'depend':
        c, n, f = holder('c'), node('n'), env.pick('f%d' % i, fields) if len(fields) > 1 else fields[0]
        from vrml import protofunctions
        w.holder[c].depend(w.nodes[n], f if c[1] else protofunctions.getField(w.nodes[n], f))
        w.deps[c].add((n, f))
    elif op == 'exist':
        c, n = holder('c'), node('n')
        w.holder[c].depend(w.nodes[n])
        w.deps[c].add((n, None))
    elif op == 'change':
        change(env, w, i, node('n'), env.pick('f%d' % i, fields) if len(fields) > 1 else fields[0], True)
    elif op == 'else':
        # things nothing depends on
        n = node('n')
        w.nodes[n].other = env.int('v%d' % i, -5, 5)
        fresh = w.cls()
        fresh.number = 3
        fresh.kids = [w.cls()]
    elif op == 'drop':
        w.gone(node('n'))
        # the new ones take its place in memory
        new = [w.cls() for j in range(3)]
        for x in new:
            for k in KEYS:
                env.check(w.cache.getData(x, k, w) is w, 'a new node has no data')
                env.check(w.cache.getHolder(x, k) is None, 'a new node has no holder')
            x.number = 3
            x.place = [3, 2, 1]
            x.kids = []
    elif op == 'refill':
        c = holder('c')
        d = Data()
        w.holder[c].set(d)
        w.data[c] = d
        w.cleared.discard(c)
    elif op == 'remove':
        c = holder('c')
        w.holder[c]()
        w.lose(c, True)


def history(first, ops, last, fields, kind='global'):
    """Operations of first, then of ops, of last at the end."""
    def fn(env):
        w = World(env, env.pick('cache', ['global', 'own']) if kind is None else kind)
        w.store(0, 0, False)
        plan = [[x] for x in first] + ops + ([last] if last else [])
        for i, choice in enumerate(plan):
            op = env.pick('op%d' % i, choice) if len(choice) > 1 else choice[0]
            step(env, w, i, op, fields)
            w.look(op)
        env.cover(op)
        w.close()
    return fn


def basics(env):
    """Storing, reading, depending on any field, and any change of any field."""
    w = World(env, env.pick('cache', ['global', 'own']))
    for n in range(2):
        for k in range(2):
            w.store(n, k, False)
    w.look('stored')
    c = (0, env.choice('key', 2))
    n = env.choice('n', 2)
    for f in FIELDS:
        if env.flag('depends on ' + f):
            w.holder[c].depend(w.nodes[n], f)
            w.deps[c].add((n, f))
    w.look('depending')
    f = env.pick('f', FIELDS)
    change(env, w, 0, env.choice('m', 2), f)
    w.look('changed')
    env.cover(f)
    w.close()


def several(count, kinds):
    """One piece of data depending on several nodes and fields, in any order, also repeatedly."""
    def fn(env):
        from vrml import cache
        from pydispatch import dispatcher
        cls = node_class()
        c = cache.Cache()
        client, xs = cls(), [cls() for i in range(3)]
        # any data, also what counts as false
        d, e, g = env.int('data', -2, 2), Data(), Data()
        h = c.holder(client, d, 'k')
        plain = c.holder(client, e, '')
        far = c.holder(xs[0], g, 'k')
        deps = []
        for i in range(count):
            j = env.choice('node%d' % i, 3)
            kind = env.pick('kind%d' % i, kinds)
            deps.append((j, kind))
            if kind == 'exists':
                h.depend(xs[j])
            elif kind == 'signal':
                h.depend_signal('told', xs[j])
            else:
                h.depend(xs[j], kind if i % 2 else getattr(cls, kind))
        env.check(c.getData(client, 'k', c) is d, 'stored')
        j = env.choice('changed', 3)
        kind = env.pick('how', kinds)
        if kind == 'exists':
            if j == 0:
                env.stop()          # it has data of its own
            xs[j] = None
        elif kind == 'signal':
            dispatcher.send('told', xs[j])
        else:
            setattr(xs[j], kind, 4 if kind != 'place' else [1, 2, 4])
        if (j, kind) in deps:
            env.check(c.getData(client, 'k') is None, 'not returned any more')
            env.check(h.data is None, 'nor by the holder itself')
            env.cover('cleared')
        else:
            env.check(c.getData(client, 'k', c) is d, 'stays')
            env.cover('stays')
        env.check(c.getData(client, '', c) is e and c.getData(xs[0], 'k', c) is g, 'other data stay')
        # and the data put in its place depends as before, as long as the node lives
        if kind != 'exists' and (j, kind) in deps:
            c.getHolder(client, 'k').data = d
            env.check(c.getData(client, 'k') is d, 'stored again')
            j, kind = env.pick('again', sorted(set(deps)))
            if kind == 'exists':
                if j == 0:
                    env.stop()
                xs[j] = None
            elif kind == 'signal':
                dispatcher.send('told', xs[j])
            else:
                setattr(xs[j], kind, 5 if kind != 'place' else [1, 2, 5])
            env.check(c.getData(client, 'k') is None, 'not returned any more')
            env.check(h.data is None, 'nor by the holder itself')
    return fn


def matrices(env):
    """The transformation kept for a node is always that of its present fields."""
    from vrml.vrml97 import basenodes, transformmatrix
    n = basenodes.Transform()
    use = env.pick('use', [(True, True, True), (True, False, False), (False, True, False), (False, False, True), (True, False, True)])
    other = env.pick('other', [None, (True, True, True), (False, False, True)])
    for i in range(2):
        n.localMatrices(*use)
        if other:
            n.localMatrices(*other)
        f = env.pick('f%d' % i, ['translation', 'scale', 'center', 'rotation', 'scaleOrientation'])
        v = env.pick('v%d' % i, [None, 2.0, 3.0])
        if v is None:
            if f not in n.__dict__:
                setattr(n, f, [1, 1, 1, 1][:4 if f[-1] == 'n' and f != 'translation' else 3])
            delattr(n, f)
        else:
            setattr(n, f, [v, 1, 0.5, 1][:4 if f in ('rotation', 'scaleOrientation') else 3])
        for u in [use] + ([other] if other else []):
            got = n.localMatrices(*u).data
            m = basenodes.Transform(translation=n.translation, scale=n.scale, center=n.center, rotation=n.rotation, scaleOrientation=n.scaleOrientation)
            want = m.localMatrices(*u).data
            for a, b in zip(got, want):
                env.check((a is None) == (b is None), 'as a new node with these fields')
                if a is not None:
                    for p, q in zip(list(a.ravel()), list(b.ravel())):
                        env.check(p == q, 'as a new node with these fields')
    env.cover(f)


def harnesses(tier):
    t = tier == 'thorough'
    few = ['number', 'kids']
    hs = [dict(name='basics', fn=basics, covers=FIELDS, bounds='data under two keys of two nodes, one depending on any of three fields of either, any change of any of them'),
          dict(name='transform', fn=matrices, covers=['translation', 'scale', 'center', 'rotation', 'scaleOrientation'], bounds='any two changes of the five fields of a Transform, five uses of its matrices')]
    hs.append(dict(name='several', fn=several(3, ['exists', 'number']), covers=['cleared', 'stays'], bounds='any three dependencies on the existence or a field of three nodes, any change, and again'))
    hs.append(dict(name='several_kinds', fn=several(2, ['exists', 'number', 'place', 'signal']), covers=['cleared', 'stays'], bounds='any two dependencies on the existence, two fields or a signal of three nodes, any change, and again'))
    if t:
        hs.append(dict(name='several_more', fn=several(4, ['exists', 'number']), covers=['cleared', 'stays'], bounds='any four dependencies'))
    for o in OPS:
        hs.append(dict(name='from_' + o, fn=history([o], [OPS] * (2 if t else 1), OPS, few if t else ['number']), covers=[], bounds='data of one node, then %s, then any %d operations of %s; two nodes, two keys' % (o, 3 if t else 2, ', '.join(OPS))))
    for o in ('store', 'change', 'drop', 'remove', 'refill'):
        hs.append(dict(name='depending_' + o, fn=history(['depend', 'store', o], [OPS] if t else [], OPS, few, None if t else 'own'), covers=[], bounds='as before, after a dependency on any field of either node, other data stored and ' + o))
        hs.append(dict(name='existing_' + o, fn=history(['exist', 'store', o], [OPS] if t else [], OPS, FIELDS if t else few), covers=[], bounds='as before, after a dependency on either node, other data stored and ' + o))
    return hs
