"""Random small changes to the code, and which checks see them: tools/mutate.py SCRATCH_REPO SEED COUNT [file ...]

SCRATCH_REPO is a clone that is changed and restored. A change is kept for the checks when the project's own tests pass with it;
the properties asked are those whose evidence says they execute the changed function, the most specific first."""
import ast, copy, glob, json, os, random, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
files = sys.argv[4:] or ['vrml/' + f for f in 'node.py field.py fieldtypes.py route.py olist.py protofunctions.py cache.py nodepath.py weaklist.py weaktuple.py vrml97/scenegraph.py vrml97/linearise.py vrml97/parseprocessor.py vrml97/nodepath.py vrml97/transformmatrix.py vrml97/_transformmatrix.py vrml97/script.py'.split()]
MOST = int(os.environ.get('MOST', '4'))
PY = '/opt/venv/bin/python'
rnd = random.Random(seed)
by = {}
for f in glob.glob(V + '/evidence/C*.json'):
    d = json.load(open(f))
    fs = d['coverage']['functions_encoded']
    for x in fs:
        by.setdefault(x, []).append((len(fs), d['property']))

CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult}


def sites(tree):
    """(function name, description, change) for each possible change."""
    out = []

    def visit(node, name):
        for child in ast.iter_child_nodes(node):
            if isinstance(child, ast.ClassDef):
                if child.name.endswith('Test') or child.name.endswith('Tests'):
                    continue
                visit(child, name + [child.name])
            elif isinstance(child, (ast.FunctionDef, ast.Lambda)):
                if isinstance(child, ast.FunctionDef):
                    stmts(child.body, '.'.join(name + [child.name]))
                visit(child, name + [getattr(child, 'name', '<lambda>')])
            else:
                if name:
                    here(child, '.'.join(name))
                visit(child, name)

    def here(n, name):
        def add(what, f):
            out.append((name, n.lineno if hasattr(n, 'lineno') else 0, what, f))
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            add('compare', lambda: n.ops.__setitem__(0, CMP[type(n.ops[0])]()))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.Constant, ast.JoinedStr)):
            add('operator', lambda: setattr(n, 'op', BIN[type(n.op)]()))
        if isinstance(n, ast.BoolOp):
            add('and/or', lambda: setattr(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And()))
            add('last term left out', lambda: n.values.pop() if len(n.values) > 2 else setattr(n, 'values', n.values[:1] * 2))
            add('first term left out', lambda: n.values.pop(0) if len(n.values) > 2 else setattr(n, 'values', n.values[1:] * 2))
        if isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, ast.Constant):
            if isinstance(n, ast.If):
                add('if True', lambda: setattr(n, 'test', ast.Constant(True)))
                add('if False', lambda: setattr(n, 'test', ast.Constant(False)))
            add('not', lambda: setattr(n, 'test', ast.UnaryOp(ast.Not(), n.test)))
        if isinstance(n, ast.Constant) and type(n.value) is int:
            add('constant +1', lambda: setattr(n, 'value', n.value + 1))
            if n.value:
                add('constant -1', lambda: setattr(n, 'value', n.value - 1))
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            add('flip', lambda: setattr(n, 'value', not n.value))
        if isinstance(n, ast.Call) and n.keywords:
            for k in list(n.keywords):
                if k.arg:
                    add('argument %s left out' % k.arg, lambda k=k: n.keywords.remove(k))
        if isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Tuple) and len(n.type.elts) > 1:
            for e in list(n.type.elts):
                add('exception left out', lambda e=e: n.type.elts.remove(e))
        for field in ('body', 'orelse', 'finalbody'):
            body = getattr(n, field, None)
            if isinstance(body, list):
                stmts(body, name)
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            add('return None', lambda: setattr(n, 'value', ast.Constant(None)))
        if isinstance(n, (ast.For,)):
            add('without the first', lambda: setattr(n, 'iter', ast.Subscript(ast.Call(ast.Name('list', ast.Load()), [n.iter], []), ast.Slice(ast.Constant(1), None, None), ast.Load())))
            add('backwards', lambda: setattr(n, 'iter', ast.Subscript(ast.Call(ast.Name('list', ast.Load()), [n.iter], []), ast.Slice(None, None, ast.UnaryOp(ast.USub(), ast.Constant(1))), ast.Load())))

    def stmts(body, name):
        for s in body:
            if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Break, ast.Continue)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                out.append((name, s.lineno, 'statement left out', lambda body=body, s=s: body.__setitem__(body.index(s), ast.copy_location(ast.Pass(), s))))
    visit(tree, [])
    return out


def candidates(f):
    src = open(os.path.join(R, f)).read()
    n = len(sites(ast.parse(src)))
    return src, n


all_ = []
for f in files:
    src, n = candidates(f)
    all_ += [(f, i) for i in range(n)]
rnd.shuffle(all_)
done = 0
env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', SX_REPO=R, SX_NO_EVIDENCE='1')
for f, i in all_:
    if done >= count:
        break
    src = open(os.path.join(R, f)).read()
    tree = ast.parse(src)
    name, line, what, change = sites(tree)[i]
    mod = f[:-3].replace('/', '.')
    props = set()
    for k in by:
        if k.startswith(mod + ':') and k.split(':')[1].replace('<locals>.', '') == name:
            props |= set(by[k])
    if not props:
        continue
    props = [p for n, p in sorted(props)][:MOST]
    old = ast.unparse(tree)
    try:
        change()
        new = ast.unparse(ast.fix_missing_locations(tree))
        compile(new, f, 'exec')
    except Exception as e:
        continue
    if new == old:
        continue
    open(os.path.join(R, f), 'w').write(new)
    try:
        t = subprocess.run([PY, '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60'], cwd=R, capture_output=True, text=True)
        if t.returncode:
            continue
        done += 1
        where = '%s:%d %s: %s  [%s]' % (f, line, name, what, src.splitlines()[line - 1].strip()[:90])
        asked = []
        for p in props:
            t0 = time.time()
            r = subprocess.run([PY, '-B', 'run.py', p], cwd=V, capture_output=True, text=True, env=env)
            asked.append('%s:%d:%.0fs' % (p, r.returncode, time.time() - t0))
            if r.returncode == 1:
                break
        print('caught' if r.returncode == 1 else 'SURVIVES', where, ' '.join(asked), flush=True)
    finally:
        subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
