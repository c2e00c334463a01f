"""Translate the repository's .pyx modules to Python on every run.

Handles the Cython subset such modules use: cdef classes, attributes,
variables and functions, typed arguments, typed buffers, casts and cimports.
C float/double become reals that raise on division by zero (as Cython's
default cdivision=False does); C integers become Python integers; buffer
arguments keep their dtype/ndim check.  Anything else is a translation error,
which makes the check inconclusive rather than silent.
"""
import ast, io, re, tokenize

FLOATS = {'float', 'double', 'np.float32_t', 'np.float64_t', 'DTYPE_T'}
INTS = {'int', 'long', 'short', 'Py_ssize_t', 'size_t', 'unsigned', 'char', 'unsigned int', 'unsigned long', 'long long'}
OBJ = {'object', 'list', 'dict', 'tuple', 'np.ndarray', 'bytes', 'type', 'set', 'void'}
NAME = r'[A-Za-z_][A-Za-z_0-9]*'
TYPE = r'(?:(?:public|readonly|inline|const)\s+)*(?:unsigned\s+|long\s+)?' + NAME + r'(?:\.' + NAME + r')*(?:\s*\[[^\]]*\])?'


class Untranslatable(Exception):
    pass


def kind(t, typedefs):
    t = re.sub(r'\b(public|readonly|inline|const)\b', '', t).strip()
    t = re.sub(r'\s+', ' ', t)
    m = re.match(r'^(.*?)\s*\[(.*)\]$', t)
    if m and 'ndarray' in m.group(1):
        p = [x.strip() for x in m.group(2).split(',')]
        nd = [x.split('=')[1].strip() for x in p[1:] if x.startswith('ndim')]
        dt = typedefs.get(p[0], p[0])
        ch = {'np.float32_t': 'f', 'np.float64_t': 'd', 'float': 'f', 'double': 'd', 'np.int32_t': 'i', 'int': 'i'}.get(dt)
        if ch is None:
            raise Untranslatable('buffer of ' + dt)
        return 'buf:%s:%s' % (ch, nd[0] if nd else '1')
    t = typedefs.get(t, t)
    if t in FLOATS:
        return 'float'
    if t in INTS:
        return 'int'
    if t == 'bint':
        return 'bool'
    if t in ('str', 'unicode'):
        return 'str'
    if t in OBJ:
        return None
    raise Untranslatable('C type %r' % t)


def logical_lines(src):
    """Source as (indent, text, first line number) of logical lines, comments kept out."""
    out, depth, cur, start = [], 0, [], 0
    toks = tokenize.generate_tokens(io.StringIO(src).readline)
    lines = src.split('\n')
    first = None
    for t in toks:
        if t.type in (tokenize.INDENT, tokenize.DEDENT, tokenize.ENCODING, tokenize.COMMENT, tokenize.NL):
            continue
        if t.type in (tokenize.NEWLINE, tokenize.ENDMARKER):
            if first is not None:
                (r1, c1), (r2, c2) = first, last
                if r1 == r2:
                    txt = lines[r1 - 1][c1:c2]
                else:
                    txt = '\n'.join([lines[r1 - 1][c1:]] + lines[r1:r2 - 1] + [lines[r2 - 1][:c2]])
                out.append((lines[r1 - 1][:c1], txt, r1))
            first = None
            continue
        if first is None:
            first = t.start
        last = t.end
    return out


def split_args(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '([{':
            depth += 1
        elif ch in ')]}':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def strip_arg(a, typedefs):
    """('name=default', name, kind)"""
    a = a.strip()
    head, eq, default = a.partition('=') if not re.match(r'^[^=]*\[[^\]]*=[^\]]*\]', a) else _part_after_bracket(a)
    head = head.strip()
    if head.startswith('*'):
        return a, None, None
    m = re.match(r'^(%s)\s+(%s)(?:\s+not\s+None)?$' % (TYPE, NAME), head)
    if m:
        return m.group(2) + (eq + default if eq else ''), m.group(2), kind(m.group(1), typedefs)
    return a, None, None


def _part_after_bracket(a):
    i = a.index(']')
    h, e, d = a[i:].partition('=')
    return a[:i] + h, e, d


def translate(src):
    typedefs, out, coerce = {}, [], {}
    src = re.sub(r'<\s*(float|double)\s*>\s*', '_sx_castf ** ', src) if False else src
    src = re.sub(r'<\s*(float|double|int|object|bint)\s*\??>\s*(%s|\([^()]*\))' % NAME, lambda m: {'float': '_sx_cfloat', 'double': '_sx_cfloat', 'int': '_sx_cint', 'object': '', 'bint': 'bool'}[m.group(1)] + '(' + m.group(2) + ')', src)
    scopes = []        # (indent, key)
    for ind, txt, ln in logical_lines(src):
        while scopes and len(ind) <= len(scopes[-1][0]) and scopes[-1][0] != ind + ' ':
            if len(ind) <= len(scopes[-1][0]):
                scopes.pop()
        if re.match(r'^(from\s+\S+\s+cimport|cimport)\b', txt):
            out.append(ind + 'pass')
            continue
        m = re.match(r'^ctypedef\s+(.+?)\s+(%s)$' % NAME, txt)
        if m:
            typedefs[m.group(2)] = m.group(1)
            out.append(ind + 'pass')
            continue
        if re.match(r'^@(cython\.|cy\.)', txt):
            continue
        txt = re.sub(r'^cdef\s+class\b', 'class', txt)
        m = re.match(r'^cpdef\s+(.*)$', txt, re.S) or re.match(r'^cdef\s+(.*)$', txt, re.S)
        if m:
            body = m.group(1)
            fn = re.match(r'^((?:inline\s+)?(?:%s\s+)?)(%s)\s*\((.*)\)\s*(?:noexcept)?\s*(?:except\s*[^:]*)?(?:nogil)?\s*:(.*)$' % (TYPE, NAME), body, re.S)
            if fn:
                out.append(_def(ind, fn.group(2), fn.group(3), fn.group(4), typedefs, coerce, scopes, ln))
                continue
            decl = split_args(body)
            m = re.match(r'^\s*(%s)\s+\**(%s)\s*(=.*)?$' % (TYPE, NAME), decl[0], re.S)
            if not m:
                raise Untranslatable('line %d: %s' % (ln, txt))
            k = kind(m.group(1), typedefs)
            emitted = False
            for n, d in enumerate(decl):
                mm = m if n == 0 else re.match(r'^\s*()\**(%s)\s*(=.*)?$' % NAME, d, re.S)
                coerce.setdefault(scopes[-1][1] if scopes else '', {})[mm.group(2)] = k
                if mm.group(3):
                    out.append('%s%s %s' % (ind, mm.group(2), mm.group(3)))
                    emitted = True
            if not emitted:
                out.append(ind + 'pass')
            continue
        m = re.match(r'^def\s+(%s)\s*\((.*)\)\s*(?:->[^:]*)?:(.*)$' % NAME, txt, re.S)
        if m:
            out.append(_def(ind, m.group(1), m.group(2), m.group(3), typedefs, coerce, scopes, ln))
            continue
        m = re.match(r'^class\s+(%s)' % NAME, txt)
        if m:
            scopes.append((ind, 'class:%d' % ln))
        out.append(ind + txt)
    tree = ast.parse('\n'.join(out))
    tree = Coerce(coerce).visit(tree)
    # __future__ imports must come first
    fut = [n for n in tree.body if isinstance(n, ast.ImportFrom) and n.module == '__future__']
    rest = [n for n in tree.body if n not in fut]
    doc = [rest.pop(0)] if rest and isinstance(rest[0], ast.Expr) and isinstance(rest[0].value, ast.Constant) else []
    pre = ast.parse('from sx.cytypes import _sx_cfloat, _sx_cint, _sx_cstr, _sx_cbuf, _sx_cbool').body
    tree.body = doc + fut + pre + rest
    ast.fix_missing_locations(tree)
    return ast.unparse(tree)


def _def(ind, name, args, rest, typedefs, coerce, scopes, ln):
    key = 'def:%d' % ln
    scopes.append((ind, key))
    names = {}
    al = []
    for a in split_args(args):
        s, n, k = strip_arg(a, typedefs)
        al.append(s)
        if n and k:
            names[n] = k
    if name == '__get__' and len(al) == 3 and '=' not in al[2]:
        al[2] += '=None'
    coerce.setdefault(key, {}).update(names)
    return '%sdef %s(%s, _sx_key=%r):%s' % (ind, name, ', '.join(al), key, rest) if not any(a.startswith('**') for a in al) \
        else '%sdef %s(%s, _sx_key=%r, %s):%s' % (ind, name, ', '.join(al[:-1]), key, al[-1], rest)


CO = {'float': '_sx_cfloat', 'int': '_sx_cint', 'str': '_sx_cstr', 'bool': '_sx_cbool'}


def _stmt(n, k):
    if k is None:
        return None
    if k.startswith('buf:'):
        _, ch, nd = k.split(':')
        return ast.parse('%s = _sx_cbuf(%s, %r, %s)' % (n, n, ch, nd)).body[0]
    return ast.parse('%s = %s(%s)' % (n, CO[k], n)).body[0]


class Coerce(ast.NodeTransformer):
    def __init__(self, table):
        self.table, self.stack = table, [table.get('', {})]

    def visit_FunctionDef(self, node):
        key = None
        a = node.args
        allargs = a.args + a.kwonlyargs
        names = [x.arg for x in allargs]
        if '_sx_key' in names:
            if a.args and a.args[-1].arg == '_sx_key':
                key = a.defaults.pop().value
                a.args.pop()
            else:
                i = [x.arg for x in a.kwonlyargs].index('_sx_key')
                key = a.kw_defaults.pop(i).value
                a.kwonlyargs.pop(i)
        tab = self.table.get(key, {})
        self.stack.append(tab)
        self.generic_visit(node)
        self.stack.pop()
        pre = [s for s in (_stmt(x.arg, tab.get(x.arg)) for x in a.args + a.kwonlyargs) if s is not None]
        pos = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
        node.body[pos:pos] = pre
        return node

    def _after(self, node, targets):
        out = [node]
        tab = self.stack[-1]
        for t in targets:
            for n in ast.walk(t):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    s = _stmt(n.id, tab.get(n.id))
                    if s is not None:
                        out.append(s)
        return out

    def visit_Assign(self, node):
        self.generic_visit(node)
        return self._after(node, node.targets)

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        return self._after(node, [node.target])


def to_python(path, repo):
    with open(path, encoding='utf-8') as f:
        return translate(f.read())


if __name__ == '__main__':
    import sys
    print(to_python(sys.argv[1], None))
