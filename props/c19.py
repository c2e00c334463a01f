"""C19: node paths compare, join, share prefixes and break as sequences of nodes."""
from . import common

PRELOAD = common.VRML
setup = common.warm
OUTSIDE = 'comparison of a path with something that is not a path, paths changed in place, longer paths than the bounds'
KINDS = ['plain', 'weak', 'vrml97', 'vrml97 weak']


def kind(env, name='kind', kinds=KINDS):
    from vrml import nodepath as plain
    from vrml.vrml97 import nodepath as full
    return {'plain': plain.NodePath, 'weak': plain.WeakNodePath, 'vrml97': full.NodePath, 'vrml97 weak': full.WeakNodePath}[env.pick(name, kinds)]


def pool(n):
    """Nodes that look alike."""
    from vrml.vrml97 import basenodes
    return [basenodes.Group() if i % 2 else basenodes.Transform(DEF='same') for i in range(n)]


def sequence(env, name, nodes, longest):
    return [nodes[env.choice('%s[%d]' % (name, i), len(nodes))] for i in range(env.choice(name + ' length', longest + 1))]


def holds(env, path, nodes, label):
    """The path is exactly these nodes."""
    env.check(len(path) == len(nodes), label + ': length')
    for i, n in enumerate(nodes):
        env.check(path[i] is n, label + ': node %d' % i)
    for a, b in zip(list(path), nodes):
        env.check(a is b, label + ': iterated in order')


def same(a, b):
    return len(a) == len(b) and all([x is y for x, y in zip(a, b)])


def compare(longest, count, kinds):
    def fn(env):
        nodes = pool(count)
        cls, other = kind(env, 'kind', kinds), kind(env, 'other kind', kinds)
        a, b = sequence(env, 'a', nodes, longest), sequence(env, 'b', nodes, longest)
        p, q = cls(a), other(b)
        want = same(a, b)
        env.check(bool(p == q) == want, 'equal exactly when the nodes are the same')
        env.check(bool(q == p) == want, 'equal the other way round')
        env.check(bool(p != q) == (not want), 'unequal exactly when not equal')
        env.cover('equal' if want else 'unequal')
    return fn


def shared(longest, count, kinds):
    def fn(env):
        nodes = pool(count)
        cls = kind(env, 'kind', kinds)
        a, b = sequence(env, 'a', nodes, longest), sequence(env, 'b', nodes, longest)
        p, q = cls(a), cls(b)
        n = 0
        while n < min(len(a), len(b)) and a[n] is b[n]:
            n += 1
        got = p.common(q)
        env.check(isinstance(got, cls), 'the common part is a path')
        holds(env, got, a[:n], 'longest common prefix')
        holds(env, q.common(p), a[:n], 'the other way round')
        holds(env, p, a, 'path unchanged')
        holds(env, q, b, 'path unchanged')
        env.cover('none' if not n else 'whole' if n == len(a) == len(b) else 'part')
    return fn


def joined(longest):
    def fn(env):
        nodes = pool(3)
        cls = kind(env)
        a = sequence(env, 'a', nodes, longest)
        p = cls(a)
        how = env.pick('what', ['node', 'path', 'list', 'weak', 'itself', 'proto'])
        if how == 'node':
            b = [nodes[env.choice('b', 3)]]
            q = b[0]
        elif how == 'proto':
            from vrml import node, field
            b = [node.prototype('P', [field.newField('f', 'SFInt32', 1, 1)])()]
            q = b[0]
        elif how == 'itself':
            b, q = a, p
        else:
            b = sequence(env, 'b', nodes, 2)
            q = {'path': cls, 'list': list, 'weak': kind(env, 'other', ['weak', 'vrml97 weak'])}[how](b)
        got = p + q
        env.check(isinstance(got, cls), 'the sum is a path')
        env.check(got is not p, 'a new path')
        holds(env, got, a + b, 'all nodes in order')
        holds(env, p, a, 'left operand unchanged')
        if how not in ('node', 'proto'):
            holds(env, q, b, 'right operand unchanged')
        more = p + nodes[0]
        holds(env, more, a + [nodes[0]], 'a second sum')
        holds(env, got, a + b, 'the first sum after the second')
        env.cover(how)
    return fn


def sliced(longest, kinds):
    def fn(env):
        nodes = pool(2)
        cls = kind(env, kinds=kinds)
        a = sequence(env, 'a', nodes, longest)
        p = cls(a)
        i, j = env.choice('from', 2 * longest + 2) - longest - 1, env.choice('to', 2 * longest + 2) - longest - 1
        form = env.pick('form', ['both', 'from', 'to', 'all'])
        s = {'both': slice(i, j), 'from': slice(i, None), 'to': slice(None, j), 'all': slice(None)}[form]
        got = p[s]
        env.check(isinstance(got, cls), 'a slice of a path is a path')
        holds(env, got, a[s], 'slice')
        holds(env, p, a, 'path unchanged')
        env.cover(form)
    return fn


def broken(count, drop):
    def fn(env):
        from vrml.vrml97 import nodepath
        nodes = pool(2)
        cls = kind(env, kinds=['vrml97', 'vrml97 weak'])
        paths, parent = [cls(nodes[:1])], [None]
        for k in range(1, count):
            i = env.choice('base%d' % k, k + 1)
            if i == k:
                paths.append(cls([nodes[0]]))
                parent.append(None)
            else:
                how = env.choice('how%d' % k, 2)
                paths.append(paths[i] + (nodes[1] if how else [nodes[0], nodes[1]]))
                parent.append(i)
        gone = env.choice('dropped', count + 1) if drop else count
        if gone < count:
            paths[gone] = None
        marked = set()
        for k in range(2 if drop else 1):
            i = env.choice('invalid%d' % k, count)
            if paths[i] is None:
                env.stop()
            paths[i].invalidate()
            marked.add(i)
            for j, p in enumerate(paths):
                if p is None:
                    continue
                up, hit = j, False
                while up is not None and not hit:
                    hit = up in marked
                    up = parent[up]
                env.check(bool(p.broken) == hit, 'broken exactly when it or what it derives from is')
        i = env.choice('ancestor', count)
        if paths[i] is not None:
            got = list(paths[i].iterdescendents())
            for j, p in enumerate(paths):
                up, depth = parent[j], 1
                while up is not None and up != i:
                    up, depth = parent[up], depth + 1
                if p is not None:
                    times = len([1 for x in got if x is p])
                    # the library gives two generations (its tests say so)
                    env.check(times == 0 if up != i else times <= 1 if depth > 2 else times == 1, 'a descendent is given once, others are not')
            env.check(len([1 for x in got if not [p for p in paths if p is x]]) <= (1 if gone < count else 0), 'nothing else is a descendent')
            got = None
        env.cover('done')
        if any([parent[j] is not None and parent[parent[j]] is not None for j in range(count)]):
            env.cover('deep')
    return fn


def family(env):
    """A path knows what derives from it."""
    from vrml.vrml97 import nodepath
    nodes = pool(2)
    cls = kind(env, kinds=['vrml97', 'vrml97 weak'])
    root = cls(nodes)
    kids = [root + nodes[0] for i in range(env.choice('children', 4))]
    grand = [k + nodes[1] for k in kids]
    n = env.choice('dropped', 4)
    if n < len(kids):
        kids[n] = grand[n] = None
    kids = [k for k in kids if k is not None]
    got = list(root.iterchildren())
    env.check(len(got) == len(kids), 'every derived path and no other')
    for a, b in zip(got, kids):
        env.check(a is b, 'the derived paths in order')
    for k in kids:
        env.check(k.parent is root, 'the path it derives from')
    env.check(root.parent is None, 'a path made directly derives from none')
    env.cover('done')


def harnesses(tier):
    t = tier == 'thorough'
    two = ['vrml97', 'vrml97 weak']
    return [
        dict(name='compare_kinds', fn=compare(2, 2, KINDS), covers=['equal', 'unequal'], bounds='any two paths of up to 2 of 2 nodes, all four kinds of path on either side'),
        dict(name='compare', fn=compare(3, 4 if t else 3, ['vrml97']), covers=['equal', 'unequal'], bounds='any two paths of up to 3 of %d nodes' % (4 if t else 3)),
        dict(name='common_kinds', fn=shared(2, 2, KINDS), covers=['none', 'part', 'whole'], bounds='any two paths of up to 2 of 2 nodes, all four kinds of path'),
        dict(name='common', fn=shared(4 if t else 3, 3 if t else 2, two if t else ['vrml97']), covers=['none', 'part', 'whole'], bounds='any two paths of up to %s nodes' % ('4 of 3' if t else '3 of 2')),
        dict(name='join', fn=joined(3 if t else 2), covers=['node', 'path', 'list', 'weak', 'itself', 'proto'], bounds='any path of up to %d nodes with a node, a path, a list or itself added, all four kinds' % (3 if t else 2)),
        dict(name='slice', fn=sliced(3 if t else 2, KINDS if t else ['weak', 'vrml97']), covers=['both', 'from', 'to', 'all'], bounds='any path of up to %d of 2 nodes, any bounds of the slice around its length' % (3 if t else 2)),
        dict(name='break', fn=broken(5 if t else 4, False), covers=['done', 'deep'], bounds='any derivation tree of %d paths, any one invalidated' % (5 if t else 4)),
        dict(name='break_dropped', fn=broken(4 if t else 3, True), covers=['done', 'deep'], bounds='any derivation tree of %d paths, any one dropped, any two invalidated' % (4 if t else 3)),
        dict(name='family', fn=family, covers=['done'], bounds='up to 3 derived paths with one each, any one dropped'),
    ]
