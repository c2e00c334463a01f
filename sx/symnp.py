"""A numpy stand-in: object arrays of exact numbers with a virtual dtype.

Floating point is modelled by exact (real) arithmetic; integer dtypes keep
their range checks.  Everything else is the real numpy working on object
arrays, so indexing, reshaping, broadcasting and dot() are numpy's own.
"""
import sys, types
import numpy as real
import z3
from . import core, syms
from .syms import Sym, SymBool, SymInt, SymReal, SymStr, is_sym, unsupported, real_of, truth

NAMES = {'f': 'np.float32', 'd': 'np.float64', 'i': 'np.int32', 'I': 'np.uint32', 'l': 'np.int64'}
KINDS = {}


class FakeDtype(object):
    def __init__(self, char):
        self.char = char
        d = real.dtype(char) if char != 'V' else real.dtype('V1')
        self.kind, self.itemsize, self.name, self.str, self.type = d.kind, d.itemsize, d.name, d.str, d.type
        self.hasobject = False
        self.names = None
        self.fields = None

    def __eq__(self, o):
        try:
            return self.char == charof(o)
        except TypeError:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.char)

    def __repr__(self):
        return "dtype('%s')" % self.name
    __str__ = lambda self: self.name


def charof(t):
    if t is None:
        return None
    if isinstance(t, FakeDtype):
        return t.char
    c = real.dtype(t).char
    return {'q': 'l', 'Q': 'L'}.get(c, c)


LIMITS = {'i': (-2**31, 2**31 - 1), 'I': (0, 2**32 - 1), 'l': (-2**63, 2**63 - 1), 'L': (0, 2**64 - 1),
          'h': (-2**15, 2**15 - 1), 'H': (0, 2**16 - 1), 'b': (-128, 127), 'B': (0, 255)}


def cast(x, char):
    """One element converted to dtype char, as numpy would."""
    if char in ('O', None):
        return x
    if isinstance(x, real.ndarray) and x.shape == ():
        x = x.item()
    if char in 'fdg':
        if isinstance(x, SymReal):
            return SymReal(x.z, text=x.text, np=char, src=x.src)
        if isinstance(x, (SymInt, SymBool)):
            return SymReal(real_of(x), np=char)
        if isinstance(x, SymStr):
            r = x.to_float()
            return cast(r, char)
        if isinstance(x, str):
            return float(x)
        if x is None:
            return float('nan')
        if isinstance(x, (bool, int, float, real.generic)):
            return float(x)
        raise TypeError("float() argument must be a string or a real number, not '%s'" % type(x).__name__)
    if char in LIMITS:
        lo, hi = LIMITS[char]
        if isinstance(x, SymReal):
            x = x.trunc_int()
        if isinstance(x, SymBool):
            x = x._i()
        if isinstance(x, SymInt):
            if core.CTX.branch(z3.And(x.z >= lo, x.z <= hi)):
                return x
            raise OverflowError('Python integer out of bounds for %s' % NAMES.get(char, char))
        if isinstance(x, SymStr):
            return cast(x.to_int(), char)
        if isinstance(x, (str, bool, int, float, real.generic)):
            x = int(x)
            if not lo <= x <= hi:
                raise OverflowError('Python integer %d out of bounds for %s' % (x, NAMES.get(char, char)))
            return x
        raise TypeError("int() argument must be a string or a real number, not '%s'" % type(x).__name__)
    if char == '?':
        if is_sym(x):
            return SymBool(truth(x))
        return bool(x)
    unsupported('dtype %r' % char)


def infer(flat):
    c = '?'
    order = '?ldO'
    for x in flat:
        if isinstance(x, (SymBool, bool, real.bool_)):
            k = '?'
        elif isinstance(x, (SymInt, int, real.integer)):
            k = 'l'
        elif isinstance(x, (SymReal, float, real.floating)):
            k = 'd'
        else:
            k = 'O'
        if order.index(k) > order.index(c):
            c = k
    return c if len(flat) else 'd'


_kind_order = '?bBhHiIlLfdO'


def promote(tags):
    tags = [t for t in tags if t]
    if not tags:
        return 'd'
    r = tags[0]
    for t in tags[1:]:
        if r == t:
            continue
        if 'O' in (r, t):
            r = 'O'
            continue
        p = real.promote_types(r, t).char
        r = {'q': 'l'}.get(p, p)
    return r


class ndarray(real.ndarray):
    _tag = 'd'

    def __array_finalize__(self, obj):
        self._tag = getattr(obj, '_tag', 'd')

    @property
    def dtype(self):
        return FakeDtype(self._tag)

    def astype(self, t, *a, **k):
        c = charof(t)
        return wrap(real.array([cast(x, c) for x in self.flat] + [None], dtype=object)[:-1].reshape(self.shape), c)

    def item(self, *a):
        if a:
            return base(self)[a[0] if len(a) == 1 else a]
        if self.size != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return self.flat[0]

    def tolist(self):
        if self.ndim == 1:
            return [self[i] for i in range(len(self))]
        return [x.tolist() for x in self]

    def clip(self, lo=None, hi=None, out=None, **k):
        return clip(self, lo, hi)

    def copy(self, order='C'):
        return wrap(base(self).copy(), self._tag)

    def all(self, axis=None, *a, **k):
        if axis is not None:
            unsupported('all(axis)')
        return all_(self)

    def any(self, axis=None, *a, **k):
        if axis is not None:
            unsupported('any(axis)')
        return any_(self)

    def tobytes(self, *a):
        unsupported('tobytes')
    tostring = tobytes

    def view(self, *a, **k):
        if a and isinstance(a[0], type) and issubclass(a[0], real.ndarray):
            return real.ndarray.view(self, *a, **k)
        unsupported('view')

    def __str__(self):
        unsupported('native str() of an array')

    def __repr__(self):
        return '<array>'

    def __format__(self, s):
        unsupported('native format() of an array')

    def __bool__(self):
        if self.size == 1:
            return bool(self.flat[0])
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __float__(self):
        unsupported('native float() of an array')

    def _mask(self, key):
        """The concrete form of a mask with symbolic members."""
        return real.array([bool(core.CTX.branch(truth(x))) if is_sym(x) else bool(x) for x in base(key).ravel()], dtype=bool).reshape(key.shape)

    def __setitem__(self, key, value):
        b = base(self)
        if isinstance(key, ndarray):
            if key._tag != '?':
                key = real.array([int(x) for x in base(key).ravel()], dtype='l').reshape(key.shape)
            elif key.shape == self.shape and not isinstance(value, (real.ndarray, list, tuple, SymStr)):
                new = where(key, value, self)
                for i in real.ndindex(*self.shape):
                    b[i] = cast(base(new)[i], self._tag)
                return
            else:
                key = self._mask(key)
        if isinstance(value, real.ndarray):
            vb = real.empty(value.shape, dtype=object)
            for i in real.ndindex(*value.shape):
                vb[i] = cast(base(value)[i] if isinstance(value, ndarray) else value[i], self._tag)
            b[key] = vb
        elif isinstance(value, (list, tuple)):
            arr = array(value, self._tag)
            b[key] = base(arr)
        elif isinstance(value, SymStr):
            unsupported('string into array')
        else:
            b[key] = cast(value, self._tag)

    def __getitem__(self, key):
        if is_sym(key):
            key = int(key)
        elif type(key) is tuple and any(is_sym(x) for x in key):
            key = tuple(int(x) if is_sym(x) else x for x in key)
        elif isinstance(key, ndarray):
            if key._tag == '?':
                key = self._mask(key)
            else:
                key = real.array([int(x) for x in base(key).ravel()], dtype='l').reshape(key.shape)
        return real.ndarray.__getitem__(self, key)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        tags, ins = [], []
        for i in inputs:
            if isinstance(i, ndarray):
                tags.append(i._tag)
                ins.append(base(i))
            elif isinstance(i, real.ndarray):
                tags.append(i.dtype.char)
                ins.append(i.astype(object))
            else:
                if isinstance(i, (list, tuple)):
                    a = array(i)
                    tags.append(a._tag)
                    i = base(a)
                else:
                    tags.append(None)   # weak scalar
                    if isinstance(i, SymStr) or (type(i) is str):
                        return NotImplemented
                ins.append(i)
        out = kw.pop('out', None)
        if out is not None:
            kw['out'] = tuple(base(o) if isinstance(o, ndarray) else o for o in out)
        if 'dtype' in kw:
            kw.pop('dtype')
        if ufunc.__name__ in _MATH and method == '__call__':
            res = _apply(_MATH[ufunc.__name__], ins[0])
        else:
            if method == '__call__' and ufunc.__name__ in ('equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal'):
                kw['dtype'] = object
            res = getattr(ufunc, method)(*ins, **kw)
        cmp = ufunc.__name__ in ('equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal', 'logical_not', 'logical_and', 'logical_or', 'isnan', 'isfinite')
        tag = '?' if cmp else promote([t for t in tags if t])
        if not cmp and tag in 'iIlL' and ufunc.__name__ in ('true_divide', 'divide'):
            tag = 'd'
        if not cmp and tag in 'iIlL' and any(isinstance(i, (float, SymReal)) for i in inputs if not isinstance(i, real.ndarray)):
            tag = 'd'
        if out is not None:
            return out[0]
        if isinstance(res, real.ndarray):
            return wrap(res.astype(object), tag)
        if isinstance(res, SymReal) and res.np is None:
            res = SymReal(res.z, text=res.text, src=res.src, np=tag if tag in 'fd' else None)
        return res

    def __array_function__(self, func, types, args, kwargs):
        o = OVERRIDES.get(func.__name__)
        if o is not None:
            return o(*args, **kwargs)
        return super().__array_function__(func, types, args, kwargs)


def _apply(fn, a):
    if isinstance(a, real.ndarray):
        out = real.empty(a.shape, dtype=object)
        for i in real.ndindex(*a.shape):
            out[i] = fn(a[i])
        return out
    return fn(a)


def _mathfn(name, npname=None):
    def f(x):
        if is_sym(x):
            if isinstance(x, (SymInt, SymBool)):
                x = SymReal(real_of(x))
            return getattr(x, name)()
        return float(getattr(real, npname or name)(x))
    return f


_MATH = {n: _mathfn(n) for n in ('cos', 'sin', 'tan', 'sqrt', 'floor', 'ceil', 'radians', 'deg2rad', 'degrees', 'rad2deg', 'fabs', 'square')}
_MATH['absolute'] = lambda x: abs(x)
_MATH['isnan'] = lambda x: False if is_sym(x) else bool(real.isnan(x))
_MATH['isfinite'] = lambda x: True if is_sym(x) else bool(real.isfinite(x))


def base(a):
    return real.ndarray.view(a, real.ndarray) if isinstance(a, ndarray) else real.asarray(a, dtype=object)


def wrap(a, tag):
    r = real.ndarray.view(a if a.dtype == object else a.astype(object), ndarray)
    r._tag = tag
    return r


def _shape(x):
    """(shape, flat list) of a nested sequence; ValueError when ragged."""
    if isinstance(x, ndarray):
        return x.shape, list(base(x).flat)
    if isinstance(x, real.ndarray):
        return x.shape, [i.item() if isinstance(i, real.generic) else i for i in x.flat]
    if isinstance(x, (list, tuple, range)):
        subs = [_shape(i) for i in x]
        if not subs:
            return (0,), []
        s0 = subs[0][0]
        for s, _ in subs:
            if s != s0:
                raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        return (len(subs),) + s0, [e for _, f in subs for e in f]
    return (), [x]


def array(obj, dtype=None, copy=True, order=None, subok=False, ndmin=0, like=None):
    c = charof(dtype)
    shape, flat = _shape(obj)
    if c is None:
        if isinstance(obj, ndarray):
            c = obj._tag
        elif isinstance(obj, real.ndarray):
            c = charof(obj.dtype)
        else:
            tags = set()
            _collect_tags(obj, tags)
            c = promote([infer([f for f in flat if not isinstance(f, SymReal) or f.np is None])] + list(tags)) if tags else infer(flat)
    out = real.empty(len(flat), dtype=object)
    try:
        for i, x in enumerate(flat):
            out[i] = cast(x, c)
    except TypeError:
        if shape == ():
            raise
        raise
    out = out.reshape(shape)
    while out.ndim < ndmin:
        out = out[None]
    return wrap(out, c)


def _collect_tags(o, tags):
    if isinstance(o, ndarray):
        tags.add(o._tag)
    elif isinstance(o, SymReal) and o.np:
        tags.add(o.np)
    elif isinstance(o, (list, tuple)):
        for i in o:
            _collect_tags(i, tags)


def asarray(obj, dtype=None, *a, **k):
    if isinstance(obj, ndarray) and (dtype is None or charof(dtype) == obj._tag):
        return obj
    return array(obj, dtype)


def ascontiguousarray(obj, dtype=None):
    return asarray(obj, dtype)


def _filled(v):
    def f(shape, dtype=float, *a, **k):
        c = charof(dtype) if dtype is not None else 'd'
        if is_sym(shape):
            shape = int(shape)
        elif isinstance(shape, (tuple, list)):
            shape = tuple(int(x) if is_sym(x) else x for x in shape)
        out = real.empty(shape, dtype=object)
        out.fill(cast(v, c))
        return wrap(out, c)
    return f


zeros = _filled(0)
ones = _filled(1)
empty = _filled(0)


def full(shape, v, dtype=None):
    c = charof(dtype) or infer([v])
    out = real.empty(shape, dtype=object)
    out.fill(cast(v, c))
    return wrap(out, c)


def identity(n, dtype=float, **k):
    c = charof(dtype) if dtype is not None else 'd'
    out = real.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = cast(1 if i == j else 0, c)
    return wrap(out, c)


def eye(n, m=None, k=0, dtype=float):
    if m not in (None, n) or k:
        unsupported('eye')
    return identity(n, dtype)


def arange(*a, **k):
    dt = k.pop('dtype', a[3] if len(a) > 3 else None)
    return array([x.item() for x in real.arange(*[int(x) if is_sym(x) else x for x in a[:3]], **k)], dt)


def mul(a, b):
    return a * b


def _iszero(x):
    return type(x) in (int, float) and x == 0


def _isone(x):
    return type(x) in (int, float) and x == 1


def dot(a, b, out=None):
    if not isinstance(a, real.ndarray) and not isinstance(a, (list, tuple)) or not isinstance(b, real.ndarray) and not isinstance(b, (list, tuple)):
        return a * b
    a, b = asarray(a), asarray(b)
    tag = promote([a._tag, b._tag])
    A, B = base(a), base(b)
    if A.ndim == 0 or B.ndim == 0:
        return a * b
    if A.ndim > 2 or B.ndim > 2:
        return wrap(real.dot(A, B), tag)
    if A.shape[-1] != B.shape[0]:
        raise ValueError('shapes %s and %s not aligned' % (A.shape, B.shape))
    ra = A if A.ndim == 2 else A[None, :]
    rb = B if B.ndim == 2 else B[:, None]
    res = real.empty((ra.shape[0], rb.shape[1]), dtype=object)
    for i in range(ra.shape[0]):
        for j in range(rb.shape[1]):
            acc = 0.0
            for k in range(ra.shape[1]):
                x, y = ra[i, k], rb[k, j]
                if _iszero(x) or _iszero(y):
                    continue
                p = y if _isone(x) else (x if _isone(y) else x * y)
                acc = p if _iszero(acc) else acc + p
            res[i, j] = cast(acc, tag)
    if A.ndim == 1 and B.ndim == 1:
        return res[0, 0]
    if A.ndim == 1:
        res = res[0]
    elif B.ndim == 1:
        res = res[:, 0]
    return wrap(real.ascontiguousarray(res), tag)


matmul = dot


def clip(a, lo=None, hi=None, out=None, **k):
    a = asarray(a)

    def one(x):
        if is_sym(x):
            z = real_of(x)
            if getattr(x, 'text', None) is not None or getattr(x, 'src', None) is not None:
                if lo is not None and core.CTX.branch(z < real_of(lo)):
                    return lo
                if hi is not None and core.CTX.branch(z > real_of(hi)):
                    return hi
                return x
            if lo is not None:
                z = z3.If(z < real_of(lo), real_of(lo), z)
            if hi is not None:
                z = z3.If(z > real_of(hi), real_of(hi), z)
            return SymReal(z3.simplify(z), np=a._tag if a._tag in 'fd' else None)
        if lo is not None and x < lo:
            x = lo
        if hi is not None and x > hi:
            x = hi
        return x
    if (lo is not None and not isinstance(lo, (int, float))) or (hi is not None and not isinstance(hi, (int, float))):
        unsupported('clip with array bounds')
    return wrap(_apply(lambda x: cast(one(x), a._tag), base(a)), a._tag)


def _textual(x):
    return isinstance(x, SymReal) and (getattr(x, 'text', None) is not None or getattr(x, 'src', None) is not None)


def _weak_tag(pairs):
    """Result type; plain numbers do not count beside arrays."""
    return promote([x._tag for x, o in pairs if isinstance(o, (real.ndarray, list, tuple)) or getattr(o, 'np', None)] or [x._tag for x, o in pairs])


def _choose(c, x, y, tag):
    """x if c else y, as one value where it need not have a text."""
    if not is_sym(c):
        return x if c else y
    if _textual(x) or _textual(y):
        return x if core.CTX.branch(truth(c)) else y
    if not (is_sym(x) or is_sym(y)) and not isinstance(x, (int, float)):
        return x if core.CTX.branch(truth(c)) else y
    if tag not in 'fd' and all(isinstance(v, (int, SymInt)) for v in (x, y)):
        return SymInt(z3.simplify(z3.If(truth(c), *[v.z if isinstance(v, SymInt) else z3.IntVal(v) for v in (x, y)])))
    return SymReal(z3.If(truth(c), real_of(x), real_of(y)), np=tag)


def _extreme(a, b, k, greater):
    if k:
        unsupported('options of maximum/minimum')
    sc = not isinstance(a, (real.ndarray, list, tuple)) and not isinstance(b, (real.ndarray, list, tuple))
    if sc and not is_sym(a) and not is_sym(b):
        return max(a, b) if greater else min(a, b)
    A, B = asarray(a), asarray(b)
    tag = _weak_tag([(A, a), (B, b)])
    x, y = real.broadcast_arrays(base(A), base(B))
    out = real.empty(x.shape, dtype=object)
    for i in real.ndindex(*x.shape):
        out[i] = cast(_choose((x[i] >= y[i]) if greater else (x[i] <= y[i]), x[i], y[i], tag), tag)
    if sc:
        return out[()]
    return wrap(out, tag)


def maximum(a, b, *r, **k):
    return _extreme(a, b, k, True)


def minimum(a, b, *r, **k):
    return _extreme(a, b, k, False)


def where(cond, *rest):
    if not rest:
        unsupported('where with one argument')
    a, b = asarray(rest[0]), asarray(rest[1])
    c, x, y = real.broadcast_arrays(base(asarray(cond)), base(a), base(b))
    tag = _weak_tag([(a, rest[0]), (b, rest[1])])
    out = real.empty(c.shape, dtype=object)
    for i in real.ndindex(*c.shape):
        out[i] = cast(_choose(c[i], x[i], y[i], tag), tag)
    return wrap(out, tag)


def _flat_truth(a):
    a = asarray(a)
    out = []
    for x in base(a).flat:
        out.append(truth(x))
    return out


def any_(a, axis=None, *r, **k):
    if axis is not None:
        unsupported('any(axis)')
    if not isinstance(a, (real.ndarray, list, tuple)):
        return a
    t = z3.simplify(z3.Or(_flat_truth(a) or [z3.BoolVal(False)]))
    return True if z3.is_true(t) else False if z3.is_false(t) else SymBool(t)


def all_(a, axis=None, *r, **k):
    if axis is not None:
        unsupported('all(axis)')
    if not isinstance(a, (real.ndarray, list, tuple)):
        return a
    t = z3.simplify(z3.And(_flat_truth(a) or [z3.BoolVal(True)]))
    return True if z3.is_true(t) else False if z3.is_false(t) else SymBool(t)


def array_equal(a, b, *r, **k):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return all_(a == b) if a.size else True


def allclose(a, b, *r, **k):
    """Idealised: exact equality."""
    return all_(asarray(a) == asarray(b))


def shape(a):
    return a.shape if isinstance(a, real.ndarray) else _shape(a)[0]


def ravel(a, order='C'):
    return asarray(a).reshape(-1)


def reshape(a, newshape=None, order='C', **k):
    if newshape is None:
        newshape = k.get('shape')
    return real.ndarray.reshape(asarray(a), newshape)


def transpose(a, axes=None):
    a = asarray(a)
    return wrap(real.transpose(base(a), axes), a._tag)


def copy(a, *r, **k):
    return array(a)


def sum_(a, axis=None, *r, **k):
    a = asarray(a)
    b = base(a)
    res = b.sum(axis=axis) if b.size else 0.0
    return wrap(res, a._tag) if isinstance(res, real.ndarray) else res


def _joiner(name):
    def f(seq, *a, **k):
        arrs = [asarray(x) for x in seq]
        return wrap(getattr(real, name)([base(x) for x in arrs], *a, **k), promote([x._tag for x in arrs]))
    return f


OPAQUE = '\ufffesymbolic array\uffff'


def array_text(a):
    """str() of an array; a mark stands for symbolic numbers (see tagengine:
    a text with the mark in it is never read)."""
    if not any(is_sym(x) for x in base(a).flat):
        return str(real.array(base(a).tolist(), dtype=a._tag))
    return OPAQUE


def isarr(x):
    return isinstance(x, ndarray)


def _scalar_or_array(name):
    def f(x, *a, **k):
        if isinstance(x, ndarray):
            return wrap(_apply(_MATH[name], base(x)), 'd' if x._tag in 'iIlL?' else x._tag)
        if isinstance(x, (list, tuple)):
            return f(asarray(x))
        return _MATH[name](x)
    return f


def dtype(t, *a, **k):
    return FakeDtype(charof(t))


def seterr(**k):
    return {}


def _structural(name):
    """A function of numpy that only moves elements about."""
    def f(a, *args, **k):
        a = asarray(a)
        args = [[int(x) if is_sym(x) else x for x in v] if isinstance(v, (list, tuple)) else int(v) if is_sym(v) else v for v in args]
        res = getattr(real, name)(base(a), *args, **k)
        if isinstance(res, (list, tuple)):
            return type(res)(wrap(r, a._tag) for r in res)
        return wrap(res, a._tag) if isinstance(res, real.ndarray) else res
    return f


def diag(a, k=0):
    a = asarray(a)
    if a.ndim != 1 or k:
        return wrap(real.diag(base(a), k), a._tag)
    n = len(base(a))
    out = real.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = base(a)[i] if i == j else cast(0, a._tag)
    return wrap(out, a._tag)


def _like(maker):
    def f(a, *args, **k):
        dt = k.pop('dtype', None)
        a = asarray(a)
        return maker(a.shape, *args, dtype=dt or a._tag)
    return f


def append(a, values, axis=None):
    a, b = asarray(a), asarray(values)
    if axis is None:
        a, b = ravel(a), ravel(b)
    return OVERRIDES['concatenate']([a, b], axis=axis or 0)


def broadcast_to(a, shape, *r, **k):
    a = asarray(a)
    return wrap(real.array(real.broadcast_to(base(a), shape)), a._tag)


def outer(a, b, out=None):
    a, b = ravel(asarray(a)), ravel(asarray(b))
    return a[:, None] * b[None, :]


def inner(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim > 1 or b.ndim > 1:
        unsupported('inner of matrices')
    return dot(a, b)


def cross(a, b, *r, **k):
    if r or k:
        unsupported('options of cross')
    a, b = asarray(a), asarray(b)
    if a.shape != (3,) or b.shape != (3,):
        unsupported('cross of other than two vectors')
    return array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], promote([a._tag, b._tag]))


def copyto(dst, src, *r, **k):
    if r or k:
        unsupported('options of copyto')
    dst[...] = src


def prod(a, axis=None, **k):
    a = asarray(a)
    if axis is not None:
        unsupported('prod(axis)')
    r = 1 if a._tag in 'iIlL?' else 1.0
    for x in base(a).flat:
        r = r * x
    return r


def multi_dot(arrays, **k):
    r = arrays[0]
    for a in arrays[1:]:
        r = dot(r, a)
    return r


def norm(a, ord=None, axis=None, **k):
    if ord is not None or axis is not None:
        unsupported('options of norm')
    t = 0.0
    for x in base(asarray(a)).flat:
        t = t + x * x
    return _MATH['sqrt'](t)


def hypot(a, b):
    return OVERRIDES['sqrt'](a * a + b * b)


def count_nonzero(a, axis=None, **k):
    if axis is not None:
        unsupported('count_nonzero(axis)')
    return builtins_sum(1 for t in _flat_truth(a) if core.CTX.branch(t))


def isclose(a, b, *r, **k):
    A, B = real.broadcast_arrays(base(asarray(a)), base(asarray(b)))
    out = real.empty(A.shape, dtype=object)
    for i in real.ndindex(*A.shape):
        out[i] = allclose(A[i], B[i], *r, **k)
    return wrap(out, '?') if A.ndim else out[()]


builtins_sum = sum

linalg = types.ModuleType('numpy.linalg')
for _n in dir(real.linalg):
    if not _n.startswith('__'):
        setattr(linalg, _n, getattr(real.linalg, _n))
linalg.norm = norm
linalg.multi_dot = multi_dot

OVERRIDES = dict(array=array, asarray=asarray, asanyarray=asarray, ascontiguousarray=ascontiguousarray, zeros=zeros, ones=ones,
                 empty=empty, full=full, identity=identity, eye=eye, arange=arange, dot=dot, matmul=dot, clip=clip,
                 maximum=maximum, minimum=minimum, where=where, any=any_, all=all_, array_equal=array_equal,
                 allclose=allclose, shape=shape, ravel=ravel, reshape=reshape, transpose=transpose, copy=copy,
                 concatenate=_joiner('concatenate'), vstack=_joiner('vstack'), hstack=_joiner('hstack'), stack=_joiner('stack'),
                 dtype=dtype, seterr=seterr, ndarray=ndarray, sum=sum_)
for _n in ('cos', 'sin', 'tan', 'sqrt', 'floor', 'ceil', 'radians', 'deg2rad', 'degrees', 'rad2deg', 'fabs', 'square', 'absolute', 'isnan', 'isfinite'):
    OVERRIDES[_n] = _scalar_or_array(_n)
OVERRIDES['abs'] = OVERRIDES['absolute']

for _n in ('repeat', 'tile', 'take', 'squeeze', 'expand_dims', 'atleast_1d', 'atleast_2d', 'moveaxis', 'rollaxis', 'swapaxes', 'flip', 'fliplr', 'flipud',
           'roll', 'delete', 'insert', 'split', 'array_split', 'vsplit', 'hsplit', 'diagonal', 'trace', 'tril', 'triu', 'resize', 'rot90'):
    OVERRIDES[_n] = _structural(_n)
for _n in ('column_stack', 'row_stack', 'dstack', 'block'):
    if hasattr(real, _n) and _n != 'block':
        OVERRIDES[_n] = _joiner(_n)
OVERRIDES.update(diag=diag, zeros_like=_like(zeros), ones_like=_like(ones), empty_like=_like(empty), full_like=_like(full), append=append, broadcast_to=broadcast_to,
                 outer=outer, inner=inner, vdot=inner, cross=cross, copyto=copyto, prod=prod, linalg=linalg, hypot=hypot, count_nonzero=count_nonzero, isclose=isclose)

module = types.ModuleType('numpy')
for _n in dir(real):
    if not _n.startswith('_') and _n not in ('test',):
        try:
            setattr(module, _n, getattr(real, _n))
        except Exception:
            pass
for _n, _v in OVERRIDES.items():
    setattr(module, _n, _v)
module.__version__ = real.__version__
module.__all__ = [n for n in getattr(real, '__all__', dir(real)) if hasattr(module, n) and not n.startswith('_')]
module.__path__ = []
