"""Load the package under test through an AST rewriter.

Calls, `%` formatting, `in`, subscripts and f-strings of the code under test
are routed through the functions below, which behave exactly like the native
operation unless a symbolic value is involved.
"""
import ast, builtins, functools, io, importlib.abc, importlib.machinery, importlib.util
import math, operator, os, sys, traceback, types, weakref
import z3
from . import core, syms
from .syms import Sym, SymBool, SymInt, SymReal, SymStr, SymBytes, KeyStr, KeyTuple, is_sym, has_sym, mkstr, chars_of, contains, unsupported


class SymStringIO(object):
    def __init__(self, initial='', newline='\n'):
        self._c = list(chars_of(initial)) if initial else []
        self._p = 0
        self.closed = False

    def _chk(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def write(self, s):
        self._chk()
        if not isinstance(s, str):
            raise TypeError('string argument expected, got %s' % type(s).__name__)
        cs = chars_of(s)
        if self._p > len(self._c):
            self._c += [0] * (self._p - len(self._c))
        self._c[self._p:self._p + len(cs)] = cs
        self._p += len(cs)
        return len(cs)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def tell(self):
        self._chk()
        return self._p

    def seek(self, p, whence=0):
        self._chk()
        if whence == 0:
            self._p = int(p)
        elif whence == 2:
            self._p = len(self._c)
        return self._p

    def read(self, n=-1):
        self._chk()
        e = len(self._c) if n is None or n < 0 else self._p + n
        r = mkstr(self._c[self._p:e])
        self._p += len(r)
        return r

    def getvalue(self):
        self._chk()
        return mkstr(self._c)

    def truncate(self, n=None):
        n = self._p if n is None else n
        del self._c[n:]
        return n

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def py_method(x, name):
    """A Python-level override of a special method, or None."""
    m = getattr(type(x), name, None)
    return m if isinstance(m, types.FunctionType) else None


def sx_str(*a, **k):
    if not a:
        return str(*a, **k)
    x = a[0]
    if len(a) > 1 or k:
        return x.decode(*a[1:], **k) if isinstance(x, SymBytes) else str(*a, **k)
    return to_text(x)


def to_text(x):
    if is_sym(x):
        if isinstance(x, SymStr):
            return x
        if isinstance(x, SymInt):
            return x.digits()
        if isinstance(x, SymReal):
            return x.to_text()
        if isinstance(x, SymBool):
            return 'True' if bool(x) else 'False'
        return repr_text(x)
    from . import symnp
    if isinstance(x, symnp.ndarray):
        return symnp.array_text(x)
    if type(x) in (list, tuple, dict) and has_sym(x):
        return repr_text(x)
    m = py_method(x, '__str__')
    if m is not None:
        return m(x)
    if isinstance(x, BaseException) and has_sym(x.args):
        return to_text(x.args[0]) if len(x.args) == 1 else repr_text(x.args)
    if py_method(x, '__repr__') and type(x).__str__ is object.__str__:
        return repr_text(x)
    return str(x)


def repr_text(x):
    if is_sym(x):
        if isinstance(x, SymReal) and x.text is not None:
            if x.np:
                from . import symnp
                return symnp.NAMES[x.np] + '(' + x.to_text() + ')'
            return x.to_text()
        if isinstance(x, SymInt):
            return x.digits()
        if isinstance(x, SymBool):
            return 'True' if bool(x) else 'False'
        return '<sym>'
    if type(x) in (list, tuple) and has_sym(x):
        o, c = ('[', ']') if type(x) is list else ('(', ')')
        r = o
        for n, i in enumerate(x):
            if n:
                r = r + ', '
            r = r + repr_text(i)
        if type(x) is tuple and len(x) == 1:
            r = r + ','
        return r + c
    m = py_method(x, '__repr__')
    if m is not None and type(x).__module__.startswith('vrml'):
        return m(x)
    if type(x) is dict and has_sym(x):
        return '<dict>'
    return repr(x)


def sx_mod(l, r):
    if type(l) is str:
        if not _needs_text(r):
            return l % r
        return format_percent(l, r)
    if is_sym(l) and isinstance(l, SymStr):
        unsupported('symbolic format template')
    return l % r


def _needs_text(r):
    """Formatting r natively could meet a symbolic value."""
    vals = r if type(r) is tuple else (list(r.values()) if isinstance(r, dict) else [r])
    for v in vals:
        if type(v) in (str, int, float, bool, type(None)) or isinstance(v, type) or (isinstance(v, BaseException) and not has_sym(v.args)):
            continue
        return True
    return False


def format_percent(fmt, args):
    out = ''
    i, n = 0, 0
    seq = args if type(args) is tuple else (args,)
    while i < len(fmt):
        c = fmt[i]
        if c != '%':
            j = fmt.find('%', i)
            j = len(fmt) if j < 0 else j
            out = out + fmt[i:j]
            i = j
            continue
        i += 1
        key = None
        if i < len(fmt) and fmt[i] == '(':
            j = fmt.index(')', i)
            key = fmt[i + 1:j]
            i = j + 1
        j = i
        while j < len(fmt) and fmt[j] in '#0- +.*123456789hlL':
            j += 1
        if j >= len(fmt):
            raise ValueError('incomplete format')
        spec, conv = fmt[i:j], fmt[j]
        i = j + 1
        if conv == '%':
            out = out + '%'
            continue
        if key is not None:
            v = args[key]
        else:
            if n >= len(seq):
                raise TypeError('not enough arguments for format string')
            v = seq[n]
            n += 1
        if conv == 's' and not spec:
            out = out + to_text(v)
        elif conv == 'r' and not spec:
            out = out + repr_text(v)
        elif conv in 'di' and not spec and is_sym(v):
            out = out + (v.trunc_int() if isinstance(v, SymReal) else v).digits()
        elif not is_sym(v):
            out = out + ('%' + spec + conv) % (v,)
        else:
            unsupported('format %%%s%s of a symbolic value' % (spec, conv))
    if key is None and n < len(seq) and not isinstance(args, dict):
        raise TypeError('not all arguments converted during string formatting')
    return out


def sx_fstr(*parts):
    out = ''
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if conv == 114:
                v = repr_text(v)
            elif conv == 115:
                v = to_text(v)
            if is_sym(v) or isinstance(v, Sym):
                if spec:
                    unsupported('format spec on a symbolic value')
                out = out + to_text(v)
            elif not spec and _needs_text(v):
                out = out + to_text(v)
            else:
                out = out + format(v, spec)
        else:
            out = out + p
    return out


def dict_key(d, k):
    """The key of d equal to k, or None."""
    keys = list(d.keys())
    for x in keys:
        if x is k:
            return x
    for x in keys:
        if _same_key(x, k):
            return x
    return None


def _same_key(x, k):
    if isinstance(k, str):
        return isinstance(x, str) and bool(k == x)
    if type(k) in (tuple, KeyTuple):
        return isinstance(x, tuple) and len(x) == len(k) and all(a is b or bool(a == b) for a, b in zip(x, k))
    return type(x) not in (KeyStr, KeyTuple) and not isinstance(x, (str, tuple)) and x == k


def _symkey(k):
    return is_sym(k) or (type(k) is tuple and has_sym(k))


def _has_symkeys(d):
    return any(type(x) in (KeyStr, KeyTuple) for x in d.keys())


def sx_in(x, c):
    if isinstance(c, str) and (is_sym(x) or is_sym(c)):
        return contains(chars_of(c), chars_of(x))
    if isinstance(c, dict) and (_symkey(x) or (isinstance(x, (str, tuple)) and _has_symkeys(c))):
        return sx_dict(c, 'contains', (x,))
    if type(c) is type({}.keys()) and is_sym(x):
        return dict_key(dict(c.mapping), x) is not None
    if isinstance(c, (set, frozenset)) and (_symkey(x) or type(c) is SxSet):
        return set_key(c, x) is not _absent
    if isinstance(c, range) and is_sym(x):
        return bool(x >= c.start) and bool(x < c.stop) if c.step == 1 else unsupported('in range')
    return x in c


def stored_key(k):
    """What stands for k as the key of a dictionary or member of a set."""
    if type(k) is SymStr:
        return KeyStr(list(k.chars))
    if type(k) is tuple and has_sym(k):
        return KeyTuple(k)
    if isinstance(k, (SymInt, SymBool)):
        return int(k)
    return k


def sx_dict(d, op, a):
    k = a[0]
    if not isinstance(k, (SymStr, str, tuple)):
        if isinstance(k, (SymInt, SymBool)):
            k = int(k)
            if op == 'contains':
                return dict.__contains__(d, k)
            return getattr(dict, {'getitem': '__getitem__', 'setitem': '__setitem__', 'delitem': '__delitem__'}.get(op, op))(d, k, *a[1:])
        unsupported('symbolic dictionary key')
    if is_sym(k) or isinstance(k, tuple):
        found = dict_key(d, k)
    else:
        found = k if dict.__contains__(d, k) else dict_key(d, SymStr(chars_of(k)))
    if op == 'contains':
        return found is not None
    if op == 'get':
        return dict.__getitem__(d, found) if found is not None else (a[1] if len(a) > 1 else None)
    if op == 'getitem':
        if found is None:
            missing = getattr(type(d), '__missing__', None)
            if missing is not None:
                if isinstance(missing, types.FunctionType):
                    return missing(d, k)
                return d[stored_key(k)]
            raise KeyError('symbolic')
        return dict.__getitem__(d, found)
    if op in ('setitem', 'setdefault'):
        if found is not None and op == 'setdefault':
            return dict.__getitem__(d, found)
        if found is None:
            found = stored_key(k)
        v = a[1] if len(a) > 1 else None
        _dict_op(d, '__setitem__')(d, found, v)
        return v
    if op in ('pop', 'delitem'):
        if found is None:
            if op == 'pop' and len(a) > 1:
                return a[1]
            raise KeyError('symbolic')
        v = dict.__getitem__(d, found)
        _dict_op(d, '__delitem__')(d, found)
        return v
    unsupported('dict.%s with symbolic key' % op)


def _dict_op(d, name):
    f = getattr(type(d), name)
    return getattr(dict, name) if isinstance(f, types.FunctionType) else f


def pairs(x):
    """The (key, value) pairs dict(x) would take."""
    if hasattr(x, 'keys'):
        return [(k, x[k]) for k in x.keys()]
    out = []
    for p in x:
        k, v = p
        out.append((k, v))
    return out


def sx_update(d, *a, **kw):
    if len(a) > 1:
        return dict.update(d, *a, **kw)
    todo = pairs(a[0]) if a else []
    todo += list(kw.items())
    if not any(_symkey(k) for k, v in todo) and not _has_symkeys(d):
        _dict_op(d, 'update')(d, todo)
        return
    for k, v in todo:
        if _symkey(k) or isinstance(k, (str, tuple)):
            sx_dict(d, 'setitem', (k, v))
        else:
            _dict_op(d, '__setitem__')(d, k, v)


def h_dict(*a, **kw):
    if not a or len(a) > 1:
        return dict(*a, **kw)
    if type(a[0]) is dict and not _has_symkeys(a[0]):
        return dict(*a, **kw)
    d = {}
    sx_update(d, *a, **kw)
    return d


def sx_mkdict(parts):
    """A dictionary display or comprehension: (key, value) or (mapping,)."""
    d = {}
    for p in parts:
        if len(p) == 1:
            sx_update(d, dict(p[0]) if isinstance(p[0], dict) else p[0])
        else:
            sx_setitem(d, p[0], p[1])
    return d


_absent = object()


def set_key(s, x):
    if isinstance(x, (SymInt, SymBool)):
        x = int(x)
    kind = set if isinstance(s, set) else frozenset
    if not _symkey(x) or type(x) is KeyStr:
        if kind.__contains__(s, x):
            return x
    if isinstance(x, (str, tuple)):
        for y in list(kind.__iter__(s)):
            if y is x:
                return y
            if _same_key(y, x) if is_sym(x) or isinstance(x, tuple) else (is_sym(y) and bool(y == x)):
                return y
    return _absent


class SxSet(set):
    """A set some of whose members may be symbolic: members are compared by
    value when they are added, so no two of them are equal."""

    def __init__(self, it=()):
        set.__init__(self)
        for x in it:
            self.add(x)

    def add(self, x):
        if set_key(self, x) is _absent:
            set.add(self, stored_key(x))

    def __contains__(self, x):
        return set_key(self, x) is not _absent

    def remove(self, x):
        k = set_key(self, x)
        if k is _absent:
            raise KeyError(x)
        set.remove(self, k)

    def discard(self, x):
        k = set_key(self, x)
        if k is not _absent:
            set.remove(self, k)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def copy(self):
        return SxSet(self)

    def union(self, *its):
        s = SxSet(self)
        s.update(*its)
        return s

    def intersection(self, *its):
        its = [SxSet(i) for i in its]
        return SxSet([x for x in self if all(x in i for i in its)])

    def difference(self, *its):
        its = [SxSet(i) for i in its]
        return SxSet([x for x in self if not any(x in i for i in its)])

    def symmetric_difference(self, o):
        o = SxSet(o)
        return self.difference(o).union(o.difference(self))

    def difference_update(self, *its):
        for it in its:
            for x in list(it):
                self.discard(x)

    def intersection_update(self, *its):
        keep = self.intersection(*its)
        for x in list(self):
            if x not in keep:
                self.discard(x)

    def issubset(self, o):
        o = SxSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __or__(self, o):
        return self.union(o)

    def __ror__(self, o):
        return SxSet(o).union(self)

    def __and__(self, o):
        return self.intersection(o)

    def __rand__(self, o):
        return SxSet(o).intersection(self)

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return SxSet(o).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __rxor__(self, o):
        return self.symmetric_difference(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __eq__(self, o):
        return isinstance(o, (set, frozenset)) and len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    __hash__ = None


def h_set(*a):
    # always comparing by value: a symbolic member may be added later
    if len(a) > 1:
        return set(*a)
    return SxSet(*a)


def h_frozenset(*a):
    if a:
        a = (list(a[0]),)
        if has_sym(a[0]):
            return SxSet(*a)
    return frozenset(*a)


def _plain_dict(o, name):
    return isinstance(o, dict) and not isinstance(getattr(type(o), name, None), types.FunctionType)


def sx_getitem(o, k):
    if _plain_dict(o, '__getitem__') and (_symkey(k) or (isinstance(k, (str, tuple)) and _has_symkeys(o))):
        return sx_dict(o, 'getitem', (k,))
    if isinstance(o, str) and is_sym(k):
        return o[int(k)]
    return o[k]


def sx_setitem(o, k, v):
    if _plain_dict(o, '__setitem__') and (_symkey(k) or (isinstance(k, (str, tuple)) and _has_symkeys(o))):
        sx_dict(o, 'setitem', (k, v))
    else:
        o[k] = v


def sx_delitem(o, k):
    if _plain_dict(o, '__delitem__') and (_symkey(k) or (isinstance(k, (str, tuple)) and _has_symkeys(o))):
        sx_dict(o, 'delitem', (k,))
    else:
        del o[k]


# ------------------------------------------------------------------- calls
def h_int(*a, **k):
    if a and is_sym(a[0]):
        x = a[0]
        if isinstance(x, SymStr):
            base = a[1] if len(a) > 1 else k.get('base', 10)
            return x.to_int(int(base))
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return x._i()
        if isinstance(x, SymReal):
            return x.trunc_int()
        unsupported('int()')
    if a and len(a) == 1:
        m = py_method(a[0], '__int__')
        if m:
            return m(a[0])
        from . import symnp
        if isinstance(a[0], symnp.ndarray):
            if a[0].size == 1:
                return h_int(a[0].flat[0])
            raise TypeError('only length-1 arrays can be converted to Python scalars')
    return int(*a, **k)


def h_float(*a):
    if a and is_sym(a[0]):
        x = a[0]
        if isinstance(x, SymStr):
            return x.to_float()
        if isinstance(x, SymReal):
            return x if x.np in (None, 'd') and x.np is None else SymReal(x.z, text=x.text if x.np in (None, 'd') else None)
        if isinstance(x, SymInt):
            return SymReal(z3.ToReal(x.z))
        if isinstance(x, SymBool):
            return SymReal(syms.real_of(x))
        unsupported('float()')
    if a:
        from . import symnp
        if isinstance(a[0], symnp.ndarray):
            if a[0].size == 1:
                return h_float(a[0].flat[0])
            raise TypeError('only length-1 arrays can be converted to Python scalars')
    return float(*a)


def h_type(*a):
    if len(a) == 1 and is_sym(a[0]):
        return a[0].__class__
    if len(a) == 3 and is_sym(a[0]):
        # the name of a class is only a label: a placeholder stands in
        a = ('SymbolicName',) + a[1:]
    if len(a) == 3 and any(is_sym(k) for k in a[2]):
        late = [(k, v) for k, v in a[2].items() if is_sym(k)]
        t = type(a[0], a[1], {k: v for k, v in a[2].items() if not is_sym(k)})
        for k, v in late:
            h_setattr(t, k, v)
        return t
    return type(*a)


def h_map(f, *its):
    if id(f) in HOOKS or isinstance(f, types.BuiltinFunctionType):
        return map(lambda *x: sx_call(f, *x), *its)
    return map(f, *its)


def h_filter(f, it):
    if f is not None and id(f) in HOOKS:
        return filter(lambda x: sx_call(f, x), it)
    return filter(f, it)


def h_reduce(f, *a):
    return functools.reduce(f, *a)


def h_print(*a, **k):
    return None


def h_chr(x):
    if is_sym(x):
        return mkstr([syms.int_of(x)])
    return chr(x)


def h_ord(x):
    if is_sym(x):
        if len(x.chars) != 1:
            raise TypeError('ord() expected a character')
        return SymInt(x.chars[0]) if not isinstance(x.chars[0], int) else x.chars[0]
    return ord(x)


ID_HOOK = [None]


def h_id(x):
    if ID_HOOK[0] is not None:
        return ID_HOOK[0](x)
    return id(x)


SYMATTR = '_sx_attribute_'


def _sym_attributes(o):
    """(symbolic name, real attribute) of o, its class and their bases."""
    out = []
    for c in [o] + list(getattr(o if isinstance(o, type) else type(o), '__mro__', ())):
        for k in [k for k in getattr(c, '__dict__', {}) if type(k) is str and k.startswith(SYMATTR)]:
            out.append((core.CTX.symattrs[k], k))
    return out


def _attribute(o, name):
    """The real name of attribute `name` of o, or None."""
    for n, k in _sym_attributes(o):
        if bool(n == name):
            return k
    if not is_sym(name):
        return name
    seen = set()
    for n in list(getattr(o, '__dict__', {})) + dir(o) + (dir(type(o)) if isinstance(o, type) else []):
        if n in seen or type(n) is not str or n.startswith(SYMATTR):
            continue
        seen.add(n)
        if bool(name == n):
            return n
    return None


def h_getattr(o, name, *default):
    c = core.CTX
    if is_sym(name) or c is not None and getattr(c, 'symattrs', None) and isinstance(name, str):
        n = _attribute(o, name)
        if n is not None:
            return getattr(o, n, *default)
        if default:
            return default[0]
        raise AttributeError('symbolic attribute name')
    return getattr(o, name, *default)


def h_hasattr(o, name):
    if is_sym(name):
        try:
            h_getattr(o, name)
            return True
        except AttributeError:
            return False
    return hasattr(o, name)


def h_setattr(o, name, v):
    c = core.CTX
    if is_sym(name) or c is not None and getattr(c, 'symattrs', None) and isinstance(name, str):
        own = getattr(o, '__dict__', {})
        n = _attribute(o, name)
        if n is not None and n.startswith(SYMATTR) and n not in own and isinstance(o, type):
            n = None                                # inherited: overridden below
        if n is None:
            if not isinstance(o, type):
                unsupported('setattr with symbolic name')
            if getattr(c, 'symattrs', None) is None:
                c.symattrs = {}
            n = SYMATTR + str(len(c.symattrs))
            c.symattrs[n] = name
        return setattr(o, n, v)
    return setattr(o, name, v)


def h_round(x, *a):
    if is_sym(x):
        unsupported('round')
    return round(x, *a)


def h_stringio(*a, **k):
    return SymStringIO(*a, **k)


def h_print_exc(*a, **k):
    return None


def _m(name):
    def h(x, *a):
        if is_sym(x):
            if isinstance(x, SymInt):
                x = SymReal(z3.ToReal(x.z))
            return getattr(x, name)()
        return getattr(math, name)(x, *a)
    return h


def h_floor(x):
    return x.__floor__() if is_sym(x) and isinstance(x, SymReal) else math.floor(x)


def h_ceil(x):
    return x.__ceil__() if is_sym(x) and isinstance(x, SymReal) else math.ceil(x)


def h_bool(*a):
    return bool(*a)


def h_hypot(*a):
    if has_sym(a):
        t = 0
        for x in a:
            t = t + x * x
        return t.sqrt()
    return math.hypot(*a)


HOOKS = {}
_keep = []


def hook(f, h):
    HOOKS[id(f)] = h
    _keep.append(f)


for _f, _h in [(str, sx_str), (int, h_int), (float, h_float), (type, h_type), (map, h_map), (filter, h_filter),
               (print, h_print), (dict, h_dict), (set, h_set), (frozenset, h_frozenset), (chr, h_chr), (ord, h_ord), (id, h_id), (getattr, h_getattr), (hasattr, h_hasattr),
               (setattr, h_setattr), (round, h_round), (repr, repr_text), (io.StringIO, h_stringio),
               (traceback.print_exc, h_print_exc), (math.floor, h_floor), (math.ceil, h_ceil), (math.hypot, h_hypot),
               (operator.mod, sx_mod), (operator.contains, lambda c, x: sx_in(x, c)), (operator.getitem, sx_getitem)]:
    hook(_f, _h)
for _n in ('sqrt', 'cos', 'sin', 'tan', 'fabs', 'radians', 'degrees', 'trunc'):
    if _n != 'trunc':
        hook(getattr(math, _n), _m(_n))

STR_METHODS = set(n for n in dir(str) if not n.startswith('__')) | {'__mod__', '__contains__', '__getitem__', '__add__', '__eq__', '__ne__'}
SAFE_BUILTINS = {isinstance, callable, len, iter, next, issubclass, sorted, min, max, sum, any, all, abs, divmod, pow,
                 hash, vars, dir, operator.add, operator.mul, operator.sub, operator.truediv, operator.floordiv,
                 operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge, operator.neg,
                 operator.and_, operator.or_, operator.not_, operator.is_, operator.is_not, operator.truth,
                 operator.setitem, operator.delitem, operator.index, operator.itemgetter, operator.attrgetter,
                 functools.reduce, functools.partial, weakref.ref, delattr}
SAFE_IDS = {id(f) for f in SAFE_BUILTINS}
_BM = types.BuiltinMethodType
_MD = types.MethodDescriptorType
_MW = types.MethodWrapperType
_WD = types.WrapperDescriptorType
OK_MODULES = ('vrml', 'simpleparse', 'pydispatch', 'sx', 'props', 'numpy', 'copyreg', 'weakref', '_weakref', 'copy',
              'itertools', 'functools', 'abc', 'collections', 'contextlib', 'harness', '__main__', 'operator', '_operator')


def sx_call(f, /, *a, **k):
    h = HOOKS.get(id(f))
    if h is not None:
        return h(*a, **k)
    t = type(f)
    if t is _BM:
        s = f.__self__
        if type(s) is str:
            if a and f.__name__ == 'format' and (_needs_text(a) or _needs_text(k)):
                return str_format(s, a, k)
            if a and f.__name__ in STR_METHODS and (has_sym(a) or (f.__name__ == 'join' and not isinstance(a[0], (list, tuple, str)))):
                if f.__name__ == 'join' and not isinstance(a[0], (list, tuple, str)):
                    a = (list(a[0]),)
                    if not has_sym(a):
                        return s.join(a[0])
                return getattr(SymStr([ord(c) for c in s]), f.__name__)(*a, **k)
            return f(*a, **k)
        if isinstance(s, dict) and a and f.__name__ in ('get', 'setdefault', 'pop', '__getitem__', '__contains__', '__setitem__', '__delitem__'):
            if _symkey(a[0]) or (isinstance(a[0], (str, tuple)) and _has_symkeys(s)):
                return sx_dict(s, f.__name__.strip('_'), a)
            return f(*a, **k)
        if isinstance(s, dict) and f.__name__ == 'update' and len(a) <= 1 and _plain_dict(s, '__setitem__'):
            return sx_update(s, *a, **k)
        if isinstance(s, (list, tuple, dict, set)):
            return f(*a, **k)
        if id(f) in SAFE_IDS or not (has_sym(a) or has_sym(k)):
            return f(*a, **k)
        if isinstance(s, types.ModuleType) and s.__name__ in ('builtins', '_operator', '_functools', '_weakref', '_collections', 'itertools') or s is None:
            if s is not None and id(f) in SAFE_IDS:
                return f(*a, **k)
        from . import symnp
        if isinstance(s, (symnp.real.ndarray, symnp.real.generic)) or getattr(f, '__module__', None) and str(f.__module__).split('.')[0] == 'numpy':
            return f(*a, **k)
        unsupported('builtin %r with symbolic arguments' % (getattr(f, '__qualname__', f),))
    if t is _MD and a and isinstance(f.__objclass__, type):
        if f.__objclass__ is str and has_sym(a):
            return getattr(SymStr(chars_of(a[0])), f.__name__)(*a[1:], **k)
        if f.__objclass__ is dict and len(a) > 1 and _symkey(a[1]):
            return sx_dict(a[0], f.__name__, a[1:])
        if f is dict.update and 0 < len(a) <= 2:
            return sx_update(*a, **k)
        return f(*a, **k)
    if t is _MW or t is _WD:
        nm = f.__name__
        if nm in ('__getitem__', '__setitem__', '__delitem__', '__contains__'):
            s = f.__self__ if t is _MW else (a[0] if a else None)
            rest = a if t is _MW else a[1:]
            if isinstance(s, dict) and rest and _symkey(rest[0]):
                return sx_dict(s, nm.strip('_'), rest)
        return f(*a, **k)
    if t is types.FunctionType or t is types.MethodType:
        mod = getattr(f, '__module__', '') or ''
        if mod.split('.')[0] not in OK_MODULES and not mod.startswith('vrml') and (has_sym(a) or has_sym(k)):
            unsupported('call of %s.%s with symbolic arguments' % (mod, getattr(f, '__name__', '?')))
    return f(*a, **k)


def str_format(fmt, a, k):
    import string
    out, auto = '', 0
    for lit, name, spec, conv in string.Formatter().parse(fmt):
        out = out + lit
        if name is None:
            continue
        if name == '':
            name = str(auto)
            auto += 1
        obj, _ = string.Formatter().get_field(name, a, k)
        if conv == 'r':
            obj = repr_text(obj)
        elif conv == 's' or not spec:
            obj = to_text(obj)
        if is_sym(obj) and spec:
            unsupported('format spec on a symbolic value')
        out = out + (obj if not spec else format(obj, spec))
    return out


def sx_fn(name):
    c = core.CTX
    if c is not None:
        if c.aborted is not None:
            raise c.aborted
        c.functions.add(name)
        c.stats['steps'] += 1
        if c.stats['steps'] > 400000:
            c.abort(core.SxLimit('step limit'))


# -------------------------------------------------------------- AST rewriting
NO_REWRITE = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir', '__import__'}


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []

    def _call(self, name, node, args, keywords=()):
        new = ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=args, keywords=list(keywords))
        return ast.copy_location(ast.fix_missing_locations(ast.copy_location(new, node)), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NO_REWRITE:
            return node
        return self._call('_sx_call', node, [node.func] + node.args, node.keywords)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call('_sx_mod', node, [node.left, node.right])
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = self._call('_sx_in', node, [node.left, node.comparators[0]])
            if isinstance(node.ops[0], ast.NotIn):
                return ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=c), node)
            return c
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        parts = [ast.Tuple(elts=[v] if k is None else [k, v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)]
        return self._call('_sx_mkdict', node, [ast.Tuple(elts=parts, ctx=ast.Load())])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        pair = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        return self._call('_sx_mkdict', node, [ast.GeneratorExp(elt=pair, generators=node.generators)])

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.elts):
            return node
        return self._call('_sx_mkset', node, [ast.Tuple(elts=node.elts, ctx=ast.Load())])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._call('_sx_mkset', node, [ast.GeneratorExp(elt=node.elt, generators=node.generators)])

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec if v.format_spec is not None else ast.Constant(value='')
                parts.append(ast.Tuple(elts=[v.value, ast.Constant(value=v.conversion), spec], ctx=ast.Load()))
            else:
                parts.append(v)
        return self._call('_sx_fstr', node, parts)

    def _plain_key(self, sl):
        if isinstance(sl, ast.Constant):
            return not isinstance(sl.value, str)
        return isinstance(sl, (ast.Slice, ast.Tuple, ast.UnaryOp))

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not self._plain_key(node.slice):
            return self._call('_sx_getitem', node, [node.value, node.slice])
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if any(isinstance(t, ast.Subscript) and not self._plain_key(t.slice) for t in node.targets):
            if len(node.targets) == 1:
                t = node.targets[0]
                e = self._call('_sx_setitem', node, [t.value, t.slice, node.value])
                return ast.copy_location(ast.Expr(value=e), node)
            out = [ast.Assign(targets=[ast.Name(id='_sx_tmp', ctx=ast.Store())], value=node.value)]
            for t in node.targets:
                v = ast.Name(id='_sx_tmp', ctx=ast.Load())
                if isinstance(t, ast.Subscript) and not self._plain_key(t.slice):
                    out.append(ast.Expr(value=self._call('_sx_setitem', node, [t.value, t.slice, v])))
                else:
                    out.append(ast.Assign(targets=[t], value=v))
            return [ast.fix_missing_locations(ast.copy_location(x, node)) for x in out]
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        t = node.target
        if not isinstance(t, ast.Subscript) or self._plain_key(t.slice):
            return node

        def name(n, store=False):
            return ast.Name(id=n, ctx=ast.Store() if store else ast.Load())
        out = [ast.Assign(targets=[name('_sx_aug_o', True)], value=t.value),
               ast.Assign(targets=[name('_sx_aug_k', True)], value=t.slice),
               ast.Assign(targets=[name('_sx_aug_v', True)], value=self._call('_sx_getitem', node, [name('_sx_aug_o'), name('_sx_aug_k')])),
               ast.AugAssign(target=name('_sx_aug_v', True), op=node.op, value=node.value),
               ast.Expr(value=self._call('_sx_setitem', node, [name('_sx_aug_o'), name('_sx_aug_k'), name('_sx_aug_v')]))]
        return [ast.fix_missing_locations(ast.copy_location(x, node)) for x in out]

    def visit_Delete(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and \
                not self._plain_key(node.targets[0].slice):
            t = node.targets[0]
            e = self._call('_sx_delitem', node, [t.value, t.slice])
            return ast.copy_location(ast.Expr(value=e), node)
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        name = '%s:%s' % (self.mod, '.'.join(self.stack))
        self.generic_visit(node)
        self.stack.pop()
        probe = ast.Expr(value=self._call('_sx_fn', node, [ast.Constant(value=name)]))
        ast.copy_location(probe, node)
        ast.fix_missing_locations(probe)
        pos = 0
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            pos = 1
        node.body.insert(pos, probe)
        return node


def rewrite(source, path, modname):
    tree = ast.parse(source, path)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec')


class Loader(importlib.abc.Loader):
    def __init__(self, path, name, source=None):
        self.path, self.name, self.source = path, name, source

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        src = self.source
        if src is None:
            with open(self.path, encoding='utf-8') as f:
                src = f.read()
        code = rewrite(src, self.path, self.name)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """vrml from the repository; vrml_accelerate from its .pyx, or hidden."""

    def __init__(self, repo, accel=False):
        self.repo, self.accel = repo, accel

    def find_spec(self, fullname, path=None, target=None):
        parts = fullname.split('.')
        if parts[0] == 'vrml':
            base = os.path.join(self.repo, *parts)
            if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
                p = os.path.join(base, '__init__.py')
                return importlib.util.spec_from_file_location(fullname, p, loader=Loader(p, fullname), submodule_search_locations=[base])
            p = base + '.py'
            if os.path.exists(p):
                return importlib.util.spec_from_file_location(fullname, p, loader=Loader(p, fullname))
            raise ModuleNotFoundError('No module named %r' % fullname, name=fullname)
        if parts[0] == 'props' and len(parts) > 1:
            p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), *parts) + '.py'
            if os.path.exists(p):
                return importlib.util.spec_from_file_location(fullname, p, loader=Loader(p, fullname))
        if parts[0] == 'vrml_accelerate':
            if not self.accel:
                raise ModuleNotFoundError('No module named %r' % fullname, name=fullname)
            if len(parts) == 1:
                return importlib.machinery.ModuleSpec(fullname, PkgLoader(), is_package=True)
            p = os.path.join(self.repo, 'accelerate', 'src', parts[1] + '.pyx')
            if os.path.exists(p):
                from . import depyx
                src = depyx.to_python(p, self.repo)
                return importlib.util.spec_from_file_location(fullname, p, loader=Loader(p, fullname, src))
            raise ModuleNotFoundError('No module named %r' % fullname, name=fullname)
        return None


class PkgLoader(importlib.abc.Loader):
    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__path__ = []


def install(repo, accel=False):
    builtins._sx_call = sx_call
    builtins._sx_mod = sx_mod
    builtins._sx_in = sx_in
    builtins._sx_fstr = sx_fstr
    builtins._sx_getitem = sx_getitem
    builtins._sx_setitem = sx_setitem
    builtins._sx_delitem = sx_delitem
    builtins._sx_fn = sx_fn
    builtins._sx_mkdict = sx_mkdict
    builtins._sx_mkset = h_set
    from . import symnp
    sys.modules['numpy'] = symnp.module
    sys.meta_path.insert(0, Finder(repo, accel))
