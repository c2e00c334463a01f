"""C01: every string survives writing and reading back."""
from . import common

PRELOAD = ['vrml.vrml97.basenodes', 'vrml.vrml97.linearise', 'vrml.vrml97.parser', 'vrml.vrml97.parseprocessor', 'vrml.vrml97.basenamespaces', 'vrml.vrml97.scenegraph']
setup = common.warm


def sfstring(n):
    def fn(env):
        from vrml.vrml97 import basenodes
        s = env.text('s', n)
        node = basenodes.WorldInfo(title=s)
        text = node.toString()
        sg = common.parse(text)
        env.check(sg is not None, 'the written text parses completely')
        env.check(len(sg.children) == 1, 'one root node comes back')
        back = sg.children[0]
        env.check(type(back) is basenodes.WorldInfo, 'of the same type')
        env.check(back.title == s, 'the string is unchanged')
        env.cover('done')
    return fn


def mfstring(lens):
    def fn(env):
        from vrml.vrml97 import basenodes
        vals = [env.text('s%d' % i, n) for i, n in enumerate(lens)]
        node = basenodes.WorldInfo(info=vals)
        text = node.toString()
        sg = common.parse(text)
        env.check(sg is not None, 'the written text parses completely')
        env.check(len(sg.children) == 1, 'one root node comes back')
        back = sg.children[0].info
        env.check(len(back) == len(vals), 'same number of strings')
        for a, b in zip(back, vals):
            env.check(a == b, 'each string unchanged')
        env.cover('done')
    return fn


PLACES = ['nested', 'minimal', 'scene', 'interface default', 'instance', 'script field', 'script url', 'in an instance']


def placed(n, many):
    """A string, or a list beginning and ending with it, anywhere text is written."""
    def fn(env):
        from vrml import node, field
        from vrml.vrml97 import basenodes, linearise, scenegraph, script
        place = env.pick('place', PLACES)
        s = env.text('s', n)
        many_here = many or place == 'script url'
        v = [s, 'b', s] if many_here else s
        t, name = ('MFString', 'info') if many_here else ('SFString', 'title')
        info = basenodes.WorldInfo(**{name: v})
        if place == 'nested':
            sg = common.parse(scenegraph.SceneGraph(children=[basenodes.Group(children=[basenodes.Transform(children=[basenodes.Box(), info])])]).toString())
            get = lambda: getattr(sg.children[0].children[0].children[1], name)
        elif place == 'minimal':
            sg = common.parse(linearise.linearise(basenodes.Group(children=[info]), linearise.minimal1))
            get = lambda: getattr(sg.children[0].children[0], name)
        elif place == 'scene':
            sg = common.parse(scenegraph.SceneGraph(children=[basenodes.Group(), info, basenodes.Group()]).toString())
            get = lambda: getattr(sg.children[1], name)
        elif place in ('interface default', 'instance', 'in an instance'):
            p = node.prototype('P', [field.newField('v', t, 1, v if place == 'interface default' else [] if many_here else 'd'),
                                     field.newField('child', 'SFNode', 0, node.NULL)])
            node.setSceneGraph(p, scenegraph.SceneGraph(children=[basenodes.Group()]))
            inst = p() if place == 'interface default' else p(v=v) if place == 'instance' else p(child=info)
            sg = common.parse(scenegraph.SceneGraph(children=[inst]).toString())
            get = lambda: getattr(sg.children[0].child, name) if place == 'in an instance' else sg.children[0].v
        elif place == 'script field':
            sg = common.parse(scenegraph.SceneGraph(children=[script.Script([field.newField('v', t, 0, v)])]).toString())
            get = lambda: sg.children[0].v
        else:
            sg = common.parse(scenegraph.SceneGraph(children=[script.Script([], url=v)]).toString())
            get = lambda: sg.children[0].url
        env.check(sg is not None, 'the written text parses completely')
        back = get()
        if many_here:
            env.check(len(back) == 3, 'same number of strings')
            for a, b in zip(back, v):
                env.check(a == b, 'each string unchanged')
        else:
            env.check(back == s, 'the string is unchanged')
        env.cover(place)
    return fn


def harnesses(tier):
    hs = []
    for n in range(0, 5 if tier == 'quick' else 7):
        hs.append(dict(name='sfstring%d' % n, fn=sfstring(n), covers=['done'], bounds='one string of %d arbitrary characters' % n))
    for ls in ([(0,), (1,), (2,), (3,), (0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (0, 0, 0), (1, 0, 1), (0, 1, 0)] if tier == 'quick' else [(0,), (1,), (2,), (3,), (4,), (0, 0), (0, 1), (1, 0), (0, 2), (1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (0, 0, 0), (1, 0, 1), (0, 1, 0), (1, 1, 1), (2, 1, 1), (1, 1, 1, 1)]):
        hs.append(dict(name='mfstring' + '_'.join(map(str, ls)), fn=mfstring(ls), covers=['done'], bounds='list of strings of lengths %s, arbitrary characters' % (ls,)))
    for many in (False, True):
        for n in range(0, 3 if tier == 'quick' else 4):
            hs.append(dict(name='placed_%s%d' % ('list' if many else 'one', n), fn=placed(n, many), covers=PLACES, bounds='%s of %d arbitrary characters in each of %d places of a document' % ('a list of strings' if many else 'a string', n, len(PLACES))))
    return hs
