"""C21: a field is found under each of its names and nothing else is."""
from . import common

PRELOAD = common.VRML
OUTSIDE = 'names longer than the bounds; class attributes that hide an inherited field without being one; fields put on instances'
ASSUMPTIONS = ['where both readings of a name like set_a_changed fit (the _changed of set_a, the set_ of a_changed) either may be given']
PREFIX, SUFFIX = 'set_', '_changed'


def declared(cls):
    """(names, field or event) as Python resolves them, most derived first."""
    from vrml import field
    hidden, out = set(), []
    for c in cls.__mro__:
        for k, v in c.__dict__.items():
            if isinstance(v, (field.Field, field.Event)) and k not in hidden:
                hidden.add(k)
                out.append((k, v))
    return out


def meant(decls, name):
    """What the name may stand for."""
    for k, v in decls:
        if len(k) == len(name) and bool(name == k):
            return [v]
    for k, v in decls:
        if len(v.name) == len(name) and bool(name == v.name):
            return [v]
    out = []
    if len(name) >= len(PREFIX) and bool(name[:len(PREFIX)] == PREFIX):
        out = out + meant(decls, name[len(PREFIX):])
    if len(name) >= len(SUFFIX) and bool(name[-len(SUFFIX):] == SUFFIX):
        out = out + meant(decls, name[:-len(SUFFIX)])
    return out


def ask(env, what, decls, name):
    from vrml import protofunctions
    want = meant(decls, name)
    try:
        got = protofunctions.getField(what, name)
    except AttributeError:
        env.check(not want, 'a name of a field is no error')
        env.cover('none')
        return
    env.check(len(want) > 0, 'any other name is an error')
    env.check(len([1 for v in want if v is got]) > 0, 'the field of that name')
    env.cover('found')


def builtin(names, lengths):
    """Any name asked of a node type of the library."""
    def fn(env):
        from vrml.vrml97 import basenodes, scenegraph
        cls = getattr(basenodes, env.pick('type', names))
        n = env.pick('length', lengths)
        name = env.text('name', n)
        ask(env, cls() if env.flag('instance') else cls, declared(cls), name)
    return fn


def affixed(names, longest):
    """set_ and _changed around any name."""
    def fn(env):
        from vrml.vrml97 import basenodes
        cls = getattr(basenodes, env.pick('type', names))
        name = env.text('name', env.pick('length', list(range(1, longest + 1))))
        before, after = env.pick('affixes', [('set_', ''), ('', '_changed'), ('set_', '_changed'), ('set_set_', ''), ('', '_changed_changed'), ('_changed', ''), ('', 'set_')])
        ask(env, cls, declared(cls), before + name + after)
    return fn


def known(env):
    """All names of all fields and events of every node type are found."""
    from vrml import protofunctions, field, node
    from vrml.vrml97 import basenodes, scenegraph
    names = sorted([k for k, v in basenodes.__dict__.items() if isinstance(v, type) and issubclass(v, node.Node)])
    cls = getattr(basenodes, env.pick('type', names))
    decls = declared(cls)
    which = env.choice('which', len(decls))
    k, v = decls[which]
    before, after = env.pick('affixes', [('', ''), ('set_', ''), ('', '_changed')])
    for name in (k, v.name):
        ask(env, cls, decls, before + name + after)
    env.cover('found')


def own(longest):
    """A node type declared here, with any names, and any name asked of it."""
    def fn(env):
        from vrml import node, field, protofunctions
        base = node.prototype('Base', [])
        derived = node.prototype('Derived', [], baseClasses=(base,))
        decls = []
        names = []
        exposed = env.choice('exposed', 2)
        for i in range(2):
            name = env.text('name%d' % i, env.pick('length%d' % i, list(range(1, longest + 1))), ranges=[(97, 122)])
            before, after = env.pick('affixes%d' % i, [('', ''), ('set_', ''), ('', '_changed')] if i == 0 else [('', ''), ('', '_changed')])
            name = before + name + after
            where = env.pick('where%d' % i, [base, derived]) if i == 0 else derived
            for other in names:
                env.assume(env.negate(name == other) if len(name) == len(other) else True)
            names.append(name)
            f = field.newEvent(name, 'SFInt32', exposed) if env.flag('event%d' % i) else field.newField(name, 'SFInt32', exposed, i)
            if where is derived:
                decls.insert(0, (name, f))
            else:
                decls.append((name, f))
            protofunctions.addField(where, f)
        asked = env.text('asked', env.pick('length', list(range(1, longest + 1))), ranges=[(97, 122)])
        before, after = env.pick('affixes', [('', ''), ('set_', ''), ('', '_changed'), ('set_', '_changed'), ('set_set_', '')])
        asked = before + asked + after
        ask(env, derived, decls + declared(node.PrototypedNode) + declared(node.Node), asked)
    return fn


def listed(kinds, places):
    """Each declared field or event is listed once, overriding ones instead of inherited ones."""
    def fn(env):
        from vrml import node, field, protofunctions
        a = node.prototype('A', [])
        b = node.prototype('B', [], baseClasses=(a,))
        c = node.prototype('C', [], baseClasses=(a,))
        d = node.prototype('D', [], baseClasses=(b, c))
        classes = dict(a=a, b=b, c=c, d=d)
        number = 0
        for p in places:
            for n in ('x', 'y'):
                kind = env.pick(p + n, kinds)
                number += 1
                if kind == 'field':
                    protofunctions.addField(classes[p], field.newField(n, 'SFInt32', 1, number))
                elif kind == 'stored':
                    setattr(classes[p], n, field.newField(' ' + n, 'SFInt32', 1, number))
                elif kind == 'event':
                    protofunctions.addField(classes[p], field.newEvent(n, 'SFInt32', 1))
        which = env.pick('asked', ['d', 'b'])
        cls = classes[which]
        asked = cls() if env.flag('instance') else cls
        for n in range(2):
            got = protofunctions.getFields(asked, n)
            want = [v for k, v in declared(cls) if isinstance(v, field.Event) == bool(n)]
            env.check(len(got) == len(want), 'each once and no other')
            for v in want:
                env.check(len([1 for w in got if w is v]) == 1, 'each declared one exactly once')
        decls = declared(cls)
        for n in ('x', 'y'):
            for name in (n, 'set_' + n, n + '_changed'):
                ask(env, asked, decls, name)
    return fn


def listed_any(longest):
    """A field of any name is listed beside the ones every node has."""
    def fn(env):
        from vrml import node, field, protofunctions
        event = env.flag('event')
        name = env.text('name', env.pick('length', list(range(1, longest + 1))), ranges=[(65, 90), (97, 122)])
        t = node.prototype('T', [])
        before = declared(t)
        for k, v in before:
            if len(k) == len(name):
                env.assume(env.negate(name == k))
        f = field.newEvent(name, 'SFInt32', 0) if event else field.newField(name, 'SFInt32', 1, 3)
        protofunctions.addField(t, f)
        asked = t() if env.flag('instance') else t
        for n in range(2):
            got = protofunctions.getFields(asked, n)
            want = [v for k, v in before if isinstance(v, field.Event) == bool(n)] + ([f] if event == bool(n) else [])
            env.check(len(got) == len(want), 'each once and no other')
            for v in want:
                env.check(len([1 for w in got if w is v]) == 1, 'each declared one exactly once')
        env.check(protofunctions.getField(asked, name) is f, 'the field of that name')
        if event:
            env.stop()
        env.check(getattr(t(), name) == 3, 'its own value')
        env.cover('field')
    return fn


def changing(env):
    """Fields added to and removed from a type, in any order."""
    from vrml import node, field, protofunctions
    a = node.prototype('A', [field.newField('x', 'SFInt32', 1, 5)])
    b = node.prototype('B', [], baseClasses=(a,))
    n = b()
    have = dict(a={'x': a.__dict__['x']}, b={})
    classes = dict(a=a, b=b)
    for i in range(3):
        where = env.pick('where%d' % i, ['a', 'b'])
        name = env.pick('name%d' % i, ['x', 'y'])
        what = env.pick('what%d' % i, ['field', 'event', 'remove', 'removed by name'])
        if what[:6] == 'remove':
            if name not in have[where]:
                env.stop()
            protofunctions.removeField(classes[where], name if what != 'remove' else have[where][name])
            del have[where][name]
        else:
            f = field.newField(name, 'SFInt32', 1, i) if what == 'field' else field.newEvent(name, 'SFInt32', 0)
            protofunctions.addField(n if where == 'b' and i == 1 else classes[where], f)
            have[where][name] = f
        for x in ('x', 'y'):
            want = have['b'].get(x, have['a'].get(x))
            for form in (x, 'set_' + x, x + '_changed'):
                try:
                    env.check(protofunctions.getField(n, form) is want, 'the field as it is now')
                except AttributeError:
                    env.check(want is None, 'a field added is found')
    env.cover('done')


def used(env):
    """The names serve in documents, as named arguments and in routes."""
    from vrml import field, protofunctions
    from vrml.vrml97 import basenodes
    bad = env.pick('name', ['copy', 'toString', '__init__', 'mro', '__doc__', 'PROTO', 'nothing', 'localMatrices', 'translation', 'set_translation', 'translation_changed'])
    good = bad in ('translation', 'set_translation', 'translation_changed')
    if env.flag('document'):
        try:
            sg = common.parse('#VRML V2.0 utf8\nTransform { %s 1 2 3 }' % (bad if bad[:2] != '__' else 'nothing',))
            env.check(good, 'an unknown name is an error')
            env.check(list(sg.children[0].translation) == [1, 2, 3], 'the field is set')
            env.cover('set')
        except AttributeError as err:
            env.check(not good and 'Unknown field' in str(err), 'reported as unknown')
            env.cover('unknown')
        except ValueError:
            env.check(False, 'an unknown name is an unknown field')
        except Exception as err:
            env.check(bad == 'PROTO', 'only a keyword is a mistake of syntax')
    else:
        try:
            n = basenodes.Transform(**{bad: [1, 2, 3]})
            env.check(good, 'an unknown name is an error')
            env.check(list(n.translation) == [1, 2, 3], 'the field is set')
        except (AttributeError, TypeError):
            env.check(not good, 'a known name is no error')
            env.cover('unknown')


def harnesses(tier):
    t = tier == 'thorough'
    some = ['Transform', 'Viewpoint', 'Box', 'IndexedFaceSet', 'TimeSensor', 'Script'] if t else ['Transform', 'Viewpoint']
    return [
        dict(name='any_name', fn=builtin(some, list(range(1, 20 if t else 17))), covers=['found', 'none'], bounds='any name of up to %d characters asked of %s, type or node' % (19 if t else 16, ', '.join(some))),
        dict(name='affixed', fn=affixed(some, 14 if t else 9), covers=['found', 'none'], bounds='set_ and _changed in seven ways around any name of up to %d characters' % (14 if t else 9)),
        dict(name='every_name', fn=known, covers=['found'], bounds='every field and event of every node type of the library, by name, set_ and _changed'),
        dict(name='own', fn=own(3 if t else 2), covers=['found', 'none'], bounds='two fields or events of any names of up to %d letters with set_ or _changed, on a type or the one it derives from; any name asked' % (3 if t else 2)),
        dict(name='listed', fn=listed(['none', 'field', 'event'] + (['stored'] if t else []), 'abcd' if t else 'abd'), covers=['found', 'none'], bounds='two names declared or not as field or event on each type of a hierarchy of four'),
        dict(name='listed_any', fn=listed_any(6 if t else 5), covers=['field'], bounds='a field or event of any name of up to %d letters' % (6 if t else 5)),
        dict(name='changing', fn=changing, covers=['done'], bounds='any three additions and removals of two names on two types'),
        dict(name='used', fn=used, covers=['set', 'unknown'], bounds='eleven names in a document and as named arguments'),
    ]
