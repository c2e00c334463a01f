"""C11: scenes know their named nodes, and nodes know their scene."""
import weakref
from . import common

PRELOAD = common.VRML
setup = common.warm
OUTSIDE = 'a DEF field set directly on a node that already is in a scene (nothing tells the scene); the nodes of PROTO bodies; which of several nodes of one name wins when a subtree with both joins a scene; concurrent access'
NAMES = ['first', 'second', 'again']


def node_class():
    from vrml import node, field
    cls = node.prototype('P', [
        field.newField('many', 'MFNode', 1, list),
        field.newField('only', 'SFNode', 1),
        field.newField('more', 'MFNode', 1, list),
    ], baseClasses=(node.Node,))
    # stored under other names
    cls.inner = node.SFNode('_inner', 1)
    cls.inners = node.MFNode(' inners', 1, list)
    # inherited
    return type('P', (cls,), {'PROTO': 'P'})


class World(object):
    """Nodes and scenes, and what is to be known of them."""

    def __init__(self, env, count, scenes=2):
        from vrml.vrml97 import scenegraph
        self.env = env
        self.cls = node_class()
        self.nodes = [self.cls() for i in range(count)]
        self.scenes = [scenegraph.SceneGraph() for i in range(scenes)]
        self.below = [[] for i in range(count)]     # what a node refers to
        self.root = [None] * count                  # number of the scene
        self.tables = [[] for s in range(scenes)]   # (name, node number), one per name
        self.names = [None] * count                 # DEF
        self.asked = []

    def named(self, name, n):
        """The node has that name from now on, in no scene yet."""
        self.names[n] = name
        self.asked.append(name)

    def register(self, s, name, n):
        t = self.tables[s]
        old = self.names[n]
        if old is not None:
            t[:] = [(k, m) for k, m in t if not (m == n and bool(k == old))]
        t[:] = [(k, m) for k, m in t if not bool(k == name)]
        t.append((name, n))
        self.named(name, n)

    def join(self, n, s):
        """The node and everything below it becomes part of the scene."""
        if s is None or self.root[n] is not None:
            return
        self.root[n] = s
        if self.names[n] is not None:
            self.register(s, self.names[n], n)
        for m in list(self.below[n]):
            self.join(m, s)

    def check(self, label):
        from vrml import protofunctions
        env = self.env
        for s, scene in enumerate(self.scenes):
            if scene is None:
                continue
            for name in self.asked:
                want = [n for k, n in self.tables[s] if bool(k == name)]
                got = scene.getDEF(name)
                if want:
                    env.check(got is self.nodes[want[0]], label + ': the node last registered under the name')
                else:
                    env.check(got is None, label + ': nothing under a name no longer used')
            env.check(protofunctions.root(scene) is scene, label + ': a scene is its own')
        for n, x in enumerate(self.nodes):
            r = self.root[n]
            got = protofunctions.root(x)
            attribute = x.rootSceneGraph
            if r is None:
                env.check(not got, label + ': a node of no scene refers to none')
                env.check(not attribute, label + ': nor as an attribute')
            else:
                env.check(got is self.scenes[r], label + ': refers to its scene')
                env.check(attribute is self.scenes[r], label + ': also as an attribute')
            if self.names[n] is not None:
                env.check(protofunctions.defName(x) == self.names[n], label + ': the name of the node')


def attach(env, w, i, parents, child, how):
    """Make the child a child of one of the nodes or scenes."""
    kind, p = parents
    x = w.nodes[child]
    others = w.below[p] if kind == 'node' else None
    owner = w.nodes[p] if kind == 'node' else w.scenes[p]
    name = 'children' if kind == 'scene' else 'more' if how[:5] == 'other' else 'many'
    l = getattr(owner, name)
    from vrml import protofunctions
    if how == 'append':
        l.append(x)
    elif how == 'insert':
        l.insert(0, x)
    elif how == 'extend':
        l.extend([x])
    elif how == 'iadd':
        l += [x]
    elif how == 'slice':
        l[0:0] = [x]
    elif how == 'item':
        if not len(l):
            l.append(w.cls())
        l[0] = x
    elif how in ('assign', 'other'):
        setattr(owner, name, list(l) + [x])
    elif how == 'one':
        setattr(owner, name, x)
    elif how == 'silent':
        protofunctions.getField(owner, name).fset(owner, list(l) + [x], notify=0)
    elif how == 'only':
        if kind == 'scene':
            env.stop()
        owner.only = x
    elif how in ('inner', 'inners'):
        if kind == 'scene':
            env.stop()
        setattr(owner, how, x)
    elif how == 'keyword':
        if kind == 'scene':
            env.stop()
        # a new node around it, itself put under the parent
        around = w.cls(many=[x])
        l.append(around)
    if others is not None:
        others.append(child)
        w.join(child, w.root[p])
    else:
        w.join(child, p)


HOW = ['append', 'insert', 'extend', 'iadd', 'slice', 'item', 'assign', 'other', 'one', 'silent', 'only', 'keyword', 'inner', 'inners']
FEW = ['append', 'assign', 'only']


def below(w, a, b):
    """Whether b is a or somewhere below it."""
    return a == b or any([below(w, c, b) for c in w.below[a]])


def step(env, w, i, op, hows):
    count = len(w.nodes)
    if op == 'register':
        alive = [s for s in range(len(w.scenes)) if w.scenes[s] is not None]
        s = env.pick('scene%d' % i, alive)
        n = env.choice('node%d' % i, count)
        name = env.text('name%d' % i, 1)
        w.scenes[s].regDefName(name, w.nodes[n])
        w.register(s, name, n)
    elif op == 'attach':
        n = env.choice('child%d' % i, count)
        parents = [('scene', s) for s in range(len(w.scenes)) if w.scenes[s] is not None] + [('node', m) for m in range(count) if not below(w, n, m)]
        p = env.pick('parent%d' % i, parents)
        attach(env, w, i, p, n, env.pick('how%d' % i, hows))
    elif op == 'drop':
        s = len(w.scenes) - 1
        if w.scenes[s] is None:
            env.stop()
        watch = weakref.ref(w.scenes[s])
        w.scenes[s] = None
        env.check(watch() is None, 'nodes do not keep their scene alive')
        w.root = [None if r == s else r for r in w.root]


def history(plan, count, hows, preset):
    def fn(env):
        w = World(env, count)
        for n in range(preset):
            # distinct names given when made
            name = 'n%d' % n
            w.nodes[n].DEF = name
            w.named(name, n)
        for i, ops in enumerate(plan):
            op = env.pick('op%d' % i, ops) if len(ops) > 1 else ops[0]
            step(env, w, i, op, hows)
        # a name nobody may have
        w.asked.append(env.text('asked', 1))
        w.check('after ' + op)
        for n in w.names:
            if n is not None:
                env.cover('named')
        if [r for r in w.root if r is not None]:
            env.cover('rooted')
    return fn


def document(env):
    """Names and scenes of a document's nodes."""
    from vrml import protofunctions
    a, b, c = [env.letters('n%d' % i, 1, 'ABC') for i in range(3)]
    form = env.pick('form', ['side by side', 'nested', 'field', 'proto', 'script', 'use', 'default'])
    head = '#VRML V2.0 utf8\n'
    if form == 'side by side':
        text = head + 'DEF ' + a + ' Group {} DEF ' + b + ' Box {} Shape { geometry DEF ' + c + ' Sphere {} }'
        find = lambda sg: [(a, sg.children[0]), (b, sg.children[1]), (c, sg.children[2].geometry)]
    elif form == 'nested':
        text = head + 'DEF ' + a + ' Group { children [ DEF ' + b + ' Group { children DEF ' + c + ' Transform {} } ] }'
        find = lambda sg: [(a, sg.children[0]), (b, sg.children[0].children[0]), (c, sg.children[0].children[0].children[0])]
    elif form == 'field':
        text = head + 'DEF ' + a + ' Shape { appearance DEF ' + b + ' Appearance { material DEF ' + c + ' Material {} } }'
        find = lambda sg: [(a, sg.children[0]), (b, sg.children[0].appearance), (c, sg.children[0].appearance.material)]
    elif form == 'proto':
        text = head + 'PROTO X [ field SFNode in NULL ] { DEF ' + a + ' Group { } } DEF ' + b + ' X { in DEF ' + c + ' Group {} }'
        text = text.replace('field SFNode in NULL', 'field SFNode inner NULL').replace('X { in DEF', 'X { inner DEF')
        find = lambda sg: [(b, sg.children[0]), (c, sg.children[0].inner)]
    elif form == 'script':
        text = head + 'DEF ' + a + ' Script { field SFNode own DEF ' + b + ' Group {} } DEF ' + c + ' Group {}'
        find = lambda sg: [(a, sg.children[0]), (b, sg.children[0].own), (c, sg.children[1])]
    elif form == 'default':
        text = head + 'PROTO X [ field SFNode s DEF ' + a + ' Group {} ] { Group {} } DEF ' + b + ' X {} DEF ' + c + ' Group {}'
        find = lambda sg: [(a, type(sg.children[0]).s.getDefault()), (b, sg.children[0]), (c, sg.children[1])]
    else:
        text = head + 'DEF ' + a + ' Group {} DEF ' + b + ' Group { children USE ' + a + ' } DEF ' + c + ' Group {}'
        find = lambda sg: [(a, sg.children[0]), (b, sg.children[1]), (c, sg.children[2])]
    sg = common.parse(text)
    env.check(sg is not None, 'the document is read')
    nodes = find(sg)
    if form == 'default':
        env.check(protofunctions.root(sg.children[0].s) is sg, 'a default node refers to the scene')
        env.check(sg.children[0].s is not nodes[0][1], 'and is the instance\'s own')
    for name in ('A', 'B', 'C', 'D'):
        want = [n for k, n in nodes if bool(k == name)]
        got = sg.getDEF(name)
        if want:
            env.check(got is want[-1], 'the node last given the name')
        else:
            env.check(got is None, 'a name not given is not found')
    for k, n in nodes:
        env.check(protofunctions.root(n) is sg, 'the node refers to its scene')
        env.check(n.rootSceneGraph is sg, 'also as an attribute')
        env.check(protofunctions.defName(n) == k, 'the node has its name')
    if form == 'proto':
        body = protofunctions.getSceneGraph(nodes[0][1])
        env.check(body.getDEF(a) is body.children[0], 'the name is known in the body')
        env.check(body is not sg, 'the body is a scene of its own')
        env.check(protofunctions.root(body.children[0]) is body, 'a node of the body refers to it')
        template = protofunctions.getSceneGraph(type(nodes[0][1]))
        env.check(template.getDEF(a) is template.children[0], 'the name is known in the declaration')
        env.check(body.getDEF(a) is not template.getDEF(a), 'each instance has its own')
    # then something is added by hand
    from vrml.vrml97 import basenodes
    n = basenodes.Group(DEF='D')
    sg.children.append(n)
    env.check(sg.getDEF('D') is n, 'a named node added is found')
    sg.regDefName('E', nodes[0][1])
    env.check(sg.getDEF('E') is nodes[0][1], 'a renamed node is found')
    env.check(not bool(a == 'A') or sg.getDEF('A') is not nodes[0][1], 'under the new name only')
    if form != 'proto':
        env.check(sg.getDEF(a) is not nodes[0][1], 'under the new name only')
    env.cover(form)


def harnesses(tier):
    t = tier == 'thorough'
    ops = ['register', 'attach', 'drop']
    hs = [
        dict(name='names', fn=history([['register']] * (4 if t else 3), 2 if t else 3, FEW, 1), covers=['named'], bounds='any %d registrations of %d nodes under any names in two scenes' % ((4, 2) if t else (3, 3))),
        dict(name='attach', fn=history([['attach']] * 2, 3 if t else 2, HOW, 3 if t else 2), covers=['rooted', 'named'], bounds='any two attachments of %d named nodes and two scenes, in fourteen ways' % (3 if t else 2)),
        dict(name='attachments', fn=history([['attach']] * 3, 4 if t else 3, FEW if t else ['append'], 2), covers=['rooted', 'named'], bounds='any three attachments of %d nodes and two scenes' % (4 if t else 3)),
        dict(name='mixed', fn=history([ops, ops, ops], 2, FEW if t else ['append', 'only'], 1), covers=['rooted', 'named'], bounds='any three of: registering under any name, attaching, losing a scene; two nodes, two scenes'),
        dict(name='moved', fn=history([['attach'], ['drop'], ['attach', 'register']] + ([ops] if t else []), 2, FEW, 2), covers=['rooted', 'named'], bounds='attaching to a scene, losing a scene, then attaching or registering'),
        dict(name='document', fn=document, covers=['side by side', 'nested', 'field', 'proto', 'script', 'use', 'default'], bounds='seven forms of document with three names, equal or not'),
    ]
    return hs
