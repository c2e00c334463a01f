"""Symbolic proxies for int, float, bool and str."""
import sys
from fractions import Fraction
import z3
from . import core
from .core import SxUnsupported


def C():
    return core.CTX


def unsupported(msg):
    e = SxUnsupported(msg)
    c = C()
    if c is not None:
        c.abort(e)
    raise e


class Sym(object):
    _sx = True
    __slots__ = ()

    def __hash__(self):
        unsupported('hash of %s' % type(self).__name__)

    def __str__(self):
        unsupported('native str() of %s' % type(self).__name__)

    def __repr__(self):
        return '<sym>'

    def __format__(self, spec):
        unsupported('native format() of %s' % type(self).__name__)


def real_of(x):
    """z3 Real of a number, or None."""
    if isinstance(x, SymReal):
        return x.z
    if isinstance(x, SymInt):
        return z3.ToReal(x.z)
    if isinstance(x, SymBool):
        return z3.If(x.z, z3.RealVal(1), z3.RealVal(0))
    f = frac(x)
    if f is None:
        return None
    return z3.RealVal(str(f))


def frac(x):
    if type(x) is bool:
        return Fraction(int(x))
    if type(x) is int:
        return Fraction(x)
    if type(x) is float:
        if x != x or x in (float('inf'), float('-inf')):
            return None
        return Fraction(repr(x))
    if isinstance(x, Fraction):
        return x
    tn = type(x).__module__
    if tn == 'numpy':
        import numpy
        if isinstance(x, numpy.integer):
            return Fraction(int(x))
        if isinstance(x, numpy.bool_):
            return Fraction(int(x))
        if isinstance(x, numpy.floating):
            s = str(x)
            if s in ('nan', 'inf', '-inf'):
                return None
            return Fraction(s)
        if isinstance(x, numpy.ndarray) and x.shape == ():
            return frac(x.item())
    return None


def int_of(x):
    if isinstance(x, SymInt):
        return x.z
    if isinstance(x, SymBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if type(x) in (int, bool):
        return z3.IntVal(int(x))
    if type(x).__module__ == 'numpy':
        import numpy
        if isinstance(x, (numpy.integer, numpy.bool_)):
            return z3.IntVal(int(x))
    return None


def is_intlike(x):
    return isinstance(x, (SymInt, SymBool)) or int_of(x) is not None


class SymBool(Sym):
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return C().branch(self.z)

    def __and__(self, o):
        o = bool_of(o)
        return NotImplemented if o is None else SymBool(z3.And(self.z, o))
    __rand__ = __and__

    def __or__(self, o):
        o = bool_of(o)
        return NotImplemented if o is None else SymBool(z3.Or(self.z, o))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.z))

    def logical_not(self):
        return SymBool(z3.Not(self.z))

    def _i(self):
        return SymInt(z3.If(self.z, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        b = bool_of(o)
        if b is not None:
            return SymBool(self.z == b)
        return self._i() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.z)) if isinstance(r, SymBool) else not r

    __hash__ = Sym.__hash__

    def __add__(self, o):
        return self._i() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o
    __rmul__ = __mul__

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o

    def __int__(self):
        return 1 if bool(self) else 0
    __index__ = __int__

    def __float__(self):
        return 1.0 if bool(self) else 0.0


def bool_of(x):
    if isinstance(x, SymBool):
        return x.z
    if type(x) is bool:
        return z3.BoolVal(x)
    if type(x).__name__ in ('bool_', 'bool') and type(x).__module__ == 'numpy':
        return z3.BoolVal(bool(x))
    return None


def truth(x):
    """z3 Bool of any value's truth (no fork for symbolic scalars)."""
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, SymInt):
        return x.z != 0
    if isinstance(x, SymReal):
        return x.z != 0
    return z3.BoolVal(bool(x))


class _Num(Sym):
    __slots__ = ()

    def _cmp(self, o, op):
        a, b = _pair(self, o)
        if b is None:
            return NotImplemented
        return SymBool(op(a, b))

    def __eq__(self, o):
        if isinstance(o, (str, bytes)) or o is None:
            return False
        r = self._cmp(o, lambda a, b: a == b)
        if r is NotImplemented and type(o) is float:
            return False
        return r

    def __ne__(self, o):
        if isinstance(o, (str, bytes)) or o is None:
            return True
        r = self._cmp(o, lambda a, b: a != b)
        if r is NotImplemented and type(o) is float:
            return True
        return r

    __hash__ = Sym.__hash__

    def _inf(self, o):
        return type(o) is float and o in (float('inf'), float('-inf'))

    def __lt__(self, o):
        if self._inf(o):
            return o > 0
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        if self._inf(o):
            return o > 0
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        if self._inf(o):
            return o < 0
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        if self._inf(o):
            return o < 0
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return C().branch(self.z != 0)

    def __pos__(self):
        return self


def _pair(a, b):
    """Bring two numbers to a common sort."""
    if is_intlike(a) and is_intlike(b):
        return int_of(a), int_of(b)
    return real_of(a), real_of(b)


def fdiv_int(a, b):
    """Python floor division of z3 Ints, b known nonzero."""
    return z3.If(b > 0, a / b, (-a) / (-b))


def hex_int(digits):
    """The SymInt of hexadecimal digits (int or z3 Int in 0..15), most significant first."""
    digits = list(digits)
    while digits and isinstance(digits[0], int) and digits[0] == 0:
        digits = digits[1:]
    n = len(digits)
    return SymInt(z3.simplify(z3.Sum([z3.IntVal(0)] + [d * 16 ** (n - 1 - i) for i, d in enumerate(digits)])), digits)


class SymInt(_Num):
    __slots__ = ('z', 'hex')

    def __init__(self, z, hex=None):
        self.z = z
        self.hex = hex

    __class__ = property(lambda self: int)

    def _bin(self, o, iop, rop, swap=False):
        if isinstance(o, SymReal):
            return NotImplemented
        i = int_of(o)
        if i is not None:
            return SymInt(iop(i, self.z) if swap else iop(self.z, i))
        r = real_of(o)
        if r is None:
            return NotImplemented
        s = z3.ToReal(self.z)
        return SymReal(rop(r, s) if swap else rop(s, r))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)) and not isinstance(o, Sym):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(-self.z)

    def __abs__(self):
        return SymInt(z3.If(self.z < 0, -self.z, self.z))

    def __truediv__(self, o):
        return SymReal(z3.ToReal(self.z)) / o

    def __rtruediv__(self, o):
        return o / SymReal(z3.ToReal(self.z)) if isinstance(o, SymReal) else SymReal(real_of(o)) / self

    def __floordiv__(self, o):
        i = int_of(o)
        if i is None:
            return (SymReal(z3.ToReal(self.z))) // o
        if C().branch(i == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        return SymInt(fdiv_int(self.z, i))

    def __rfloordiv__(self, o):
        return SymInt(int_of(o)) // self

    def __mod__(self, o):
        i = int_of(o)
        if i is None:
            return (SymReal(z3.ToReal(self.z))) % o
        if C().branch(i == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        return SymInt(self.z - i * fdiv_int(self.z, i))

    def __rmod__(self, o):
        return SymInt(int_of(o)) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if type(o) is int and 0 <= o < 8:
            r = SymInt(z3.IntVal(1))
            for _ in range(o):
                r = r * self
            return r
        return SymReal(z3.ToReal(self.z)) ** o

    def __index__(self):
        return concretize_int(self.z)

    __int__ = __index__

    def __float__(self):
        unsupported('native float() of SymInt')

    def __and__(self, o):
        # only masks of consecutive ones, (2**k - 1) << s
        if type(o) is int and o > 0:
            low = o & -o
            if self.hex is not None and all((o >> 4 * i) & 15 in (0, 15) for i in range(len(self.hex))):
                n = len(self.hex)
                return hex_int([d if (o >> 4 * (n - 1 - i)) & 15 else 0 for i, d in enumerate(self.hex)])
            if (o // low) & (o // low + 1) == 0:
                return (self // low) % (o // low + 1) * low
        elif type(o) is int and o == 0:
            return 0
        unsupported('bit operation on SymInt')
    __rand__ = __and__

    def __rshift__(self, o):
        if type(o) is int:
            if self.hex is not None and o % 4 == 0 and o >= 0:
                return hex_int(self.hex[:max(0, len(self.hex) - o // 4)])
            return self // (1 << o)
        unsupported('shift')

    def __lshift__(self, o):
        if type(o) is int:
            return self * (1 << o)
        unsupported('shift')

    def bit_length(self):
        unsupported('bit_length')

    def digits(self):
        """Decimal text, forking over sign and number of digits."""
        c = C()
        z = z3.simplify(self.z)
        if z3.is_int_value(z):
            return SymStr([ord(ch) for ch in str(z.as_long())])
        out = []
        if c.branch(z < 0):
            out.append(ord('-'))
            z = -z
        n = 1
        while not c.branch(z < 10 ** n):
            n += 1
            if n > 20:
                unsupported('integer with more than 20 digits')
        ds = [c.fresh('int', 'd') for _ in range(n)]
        for d in ds:
            c.add(d >= 0)
            c.add(d <= 9)
        c.add(z == z3.Sum([d * 10 ** (n - 1 - i) for i, d in enumerate(ds)]))
        return SymStr(out + [d + 48 for d in ds], intval=self)

    def item(self):
        return self

    @property
    def real(self):
        return self


def concretize_int(z):
    """Fork over the feasible values of z."""
    c = C()
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    for _ in range(400):
        r, m = c.sat(want_model=True)
        if r != z3.sat:
            unsupported('cannot concretize')
        v = m.eval(z, model_completion=True).as_long()
        if c.branch(z == v):
            return v
    unsupported('too many values to concretize')


class SymReal(_Num):
    __slots__ = ('z', 'text', 'np', 'fp', 'src')

    def __init__(self, z, text=None, np=None, fp=None, src=None):
        self.z = z
        self.text = text
        self.src = src     # (negative, digit characters, power of ten) it was read from
        self.np = np       # numpy scalar type char, or None for Python float
        self.fp = fp

    __class__ = property(lambda self: float)

    def _bin(self, o, op, swap=False):
        r = real_of(o)
        if r is None:
            return NotImplemented
        np_ = self.np or getattr(o, 'np', None) if isinstance(o, SymReal) else self.np
        return SymReal(op(r, self.z) if swap else op(self.z, r), np=np_)

    def __add__(self, o):
        if type(o) in (int, float) and o == 0:
            return SymReal(self.z, np=self.np)
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        if type(o) in (int, float) and o == 0:
            return SymReal(self.z, np=self.np)
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if type(o) in (int, float) and o == 1:
            return SymReal(self.z, np=self.np)
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self):
        return SymReal(-self.z, np=self.np)

    def __abs__(self):
        return SymReal(z3.If(self.z < 0, -self.z, self.z), np=self.np)
    fabs = __abs__
    absolute = __abs__

    def __truediv__(self, o):
        r = real_of(o)
        if r is None:
            return NotImplemented
        return divide(self.z, r, self.np or getattr(o, 'np', None) if isinstance(o, SymReal) else self.np)

    def __rtruediv__(self, o):
        r = real_of(o)
        if r is None:
            return NotImplemented
        return divide(r, self.z, self.np)

    def __mod__(self, o):
        m = frac(o)
        if m is None or m <= 0:
            unsupported('real modulo by a non-constant')
        return SymReal(real_mod(self.z, m)[0], np=self.np)

    def __floordiv__(self, o):
        m = frac(o)
        if m is None or m <= 0:
            unsupported('real floordiv by a non-constant')
        return SymReal(z3.ToReal(real_mod(self.z, m)[1]), np=self.np)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if type(o) is int or (type(o) is float and o == int(o)):
            n = int(o)
            r = z3.RealVal(1)
            for _ in range(abs(n)):
                r = r * self.z
            if n < 0:
                return divide(z3.RealVal(1), r, self.np)
            return SymReal(r, np=self.np)
        if o == 0.5:
            return self.sqrt()
        if o == -0.5:
            return 1.0 / self.sqrt()
        unsupported('power')

    def sqrt(self):
        c = C()
        z = z3.simplify(self.z)
        key = ('sqrt', z.get_id())
        if key in c.vars:
            return SymReal(c.vars[key][1], np=self.np)
        if c.branch(z < 0):
            return poison(self.np)
        c.nl = True
        v = c.fresh('real', 'sqrt')
        c.add(v >= 0)
        c.add(v * v == z)
        c.vars[key] = (z, v)
        return SymReal(v, np=self.np)

    def square(self):
        return self * self

    def cos(self):
        return SymReal(trig(self.z)[0], np=self.np)

    def sin(self):
        return SymReal(trig(self.z)[1], np=self.np)

    def tan(self):
        c_, s_ = trig(self.z)
        return divide(s_, c_, self.np or 'd')

    def radians(self):
        return self * (3.141592653589793 / 180)

    deg2rad = radians

    def degrees(self):
        return self * (180 / 3.141592653589793)

    rad2deg = degrees

    def floor(self):
        return SymReal(z3.ToReal(z3.ToInt(self.z)), np=self.np)

    def ceil(self):
        return SymReal(-z3.ToReal(z3.ToInt(-self.z)), np=self.np)

    def __floor__(self):
        return SymInt(z3.ToInt(self.z))

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.z))

    def trunc_int(self):
        return SymInt(z3.If(self.z >= 0, z3.ToInt(self.z), -z3.ToInt(-self.z)))

    __trunc__ = trunc_int

    def is_integer(self):
        return SymBool(z3.ToReal(z3.ToInt(self.z)) == self.z)

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def conjugate(self):
        return self

    def item(self):
        return SymReal(self.z, text=self.text, src=self.src)

    @property
    def dtype(self):
        from . import symnp
        return symnp.FakeDtype(self.np or 'd')

    def astype(self, t):
        from . import symnp
        return symnp.cast(self, symnp.charof(t))

    @property
    def real(self):
        return self

    def __float__(self):
        unsupported('native float() of SymReal')

    def __int__(self):
        unsupported('native int() of SymReal')

    def to_text(self):
        """SymStr of str(self): only where the number was created from text."""
        if self.text is None and self.src is not None:
            self.text = canonical_text(*self.src)
        if self.text is None:
            unsupported('text of a computed real')
        return SymStr(list(self.text), real=self)


def canonical_text(neg, digits, scale):
    """repr() of the float denoted by digits * 10**scale (at most 15 digits)."""
    ds = list(digits)
    while ds and ch_eq(ds[0], 48):
        ds.pop(0)
    while ds and ch_eq(ds[-1], 48):
        ds.pop()
        scale += 1
    out = [45] if neg else []
    if not ds:
        return out + [48, 46, 48]
    if len(ds) > 15:
        unsupported('text of a number of more than 15 digits')
    point = len(ds) + scale
    if -4 < point <= 16:
        if point <= 0:
            return out + [48, 46] + [48] * -point + ds
        if point >= len(ds):
            return out + ds + [48] * (point - len(ds)) + [46, 48]
        return out + ds[:point] + [46] + ds[point:]
    return out + ds[:1] + ([46] + ds[1:] if len(ds) > 1 else []) + [ord(x) for x in 'e%+03d' % (point - 1)]


def poison(np_=None):
    c = C()
    c.notes.append('NaN/inf produced: modelled as an arbitrary real')
    return SymReal(c.fresh('real', 'poison'), np=np_)


def divide(a, b, np_):
    c = C()
    b = z3.simplify(b)
    if c.branch(b == 0):
        if np_ is None:
            raise ZeroDivisionError('float division by zero')
        return poison(np_)
    if z3.is_rational_value(b):
        return SymReal(a / b, np=np_)
    a = z3.simplify(a)
    key = ('div', a.get_id(), b.get_id())
    if key in c.vars:
        return SymReal(c.vars[key][2], np=np_)
    c.nl = True
    q = c.fresh('real', 'q')
    c.add(q * b == a)
    c.vars[key] = (a, b, q)
    return SymReal(q, np=np_)


def real_mod(z, m):
    """(r, k): z == k*m + r, 0 <= r < m, k integer."""
    c = C()
    z = z3.simplify(z)
    key = ('mod', z.get_id(), m)
    if key in c.vars:
        return c.vars[key][1:3]
    k = c.fresh('int', 'k')
    r = c.fresh('real', 'r')
    mv = z3.RealVal(str(m))
    c.add(z == z3.ToReal(k) * mv + r)
    c.add(r >= 0)
    c.add(r < mv)
    c.vars[key] = (z, r, k)
    if abs(float(m) - 6.283185307179586) < 1e-5:
        name, sign = canon_angle(z)
        t = c.trig.setdefault(name, dict(pair=None, mods=[]))
        t['mods'].append(r)
        if t['pair'] is not None:
            _link(t['pair'], r)
        # the same angle negated has remainder zero together with this one
        for r2 in t['mods'][:-1]:
            c.add((r == 0) == (r2 == 0))
    return r, k


def _link(pair, r):
    c_, s_ = pair
    C().add(z3.Implies(r == 0, z3.And(c_ == 1, s_ == 0)))


def canon_angle(z):
    a = str(z3.simplify(z, som=True))
    b = str(z3.simplify(-z, som=True))
    if (len(a), a) <= (len(b), b):
        return a, 1
    return b, -1


def trig(z):
    c = C()
    z = z3.simplify(z)
    if z3.is_rational_value(z):
        import math
        f = float(Fraction(z.numerator_as_long(), z.denominator_as_long()))
        return z3.RealVal(str(Fraction(repr(math.cos(f))))), z3.RealVal(str(Fraction(repr(math.sin(f)))))
    name, sign = canon_angle(z)
    t = c.trig.setdefault(name, dict(pair=None, mods=[]))
    if t['pair'] is None:
        c.nl = True
        cc = c.fresh('real', 'cos')
        ss = c.fresh('real', 'sin')
        c.add(cc * cc + ss * ss == 1)
        c.add(z3.And(cc <= 1, cc >= -1, ss <= 1, ss >= -1))
        t['pair'] = (cc, ss)
        for r in t['mods']:
            _link(t['pair'], r)
    cc, ss = t['pair']
    return cc, (ss if sign == 1 else -ss)


# ---------------------------------------------------------------- strings
MAXCP = 0x10FFFF
_ranges_cache = {}


def ranges_of(chars):
    """Sorted (lo, hi) ranges of an iterable of code points."""
    key = frozenset(chars)
    r = _ranges_cache.get(key)
    if r is None:
        r = []
        for c in sorted(key):
            if r and r[-1][1] == c - 1:
                r[-1][1] = c
            else:
                r.append([c, c])
        _ranges_cache[key] = r
    return r


def in_ranges(ch, ranges):
    """bool or z3 Bool: character ch (int or z3 Int) lies in the ranges."""
    if isinstance(ch, int):
        return any(lo <= ch <= hi for lo, hi in ranges)
    return z3.Or([ch == lo if lo == hi else z3.And(ch >= lo, ch <= hi) for lo, hi in ranges] or [z3.BoolVal(False)])


def ch_in(ch, ranges):
    """Truth of membership, forking when symbolic."""
    r = in_ranges(ch, ranges)
    if isinstance(r, bool):
        return r
    return C().branch(r)


def ch_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return C().branch(a == b)


WS = ranges_of([c for c in range(0x3001) if chr(c).isspace()])
DIGITS = [[48, 57]]


def contains(text, sub):
    """Truth of `sub in text`, one fork at most."""
    if len(sub) == 1 and all(isinstance(c, int) for c in text):
        return ch_in(sub[0], ranges_of(text))
    alts = []
    for i in range(len(text) - len(sub) + 1):
        eqs = []
        for a, b in zip(text[i:], sub):
            if isinstance(a, int) and isinstance(b, int):
                if a != b:
                    break
            else:
                eqs.append(a == b)
        else:
            if not eqs:
                return True
            alts.append(z3.And(eqs))
    return C().branch(z3.Or(alts)) if alts else False


def chars_of(s):
    if isinstance(s, SymStr):
        return s.chars
    return [ord(c) for c in s]


def mkstr(chars):
    """SymStr, or a plain str when every character is concrete."""
    out = []
    for c in chars:
        if not isinstance(c, int):
            c = z3.simplify(c)
            if z3.is_int_value(c):
                c = c.as_long()
        out.append(c)
    if all(isinstance(c, int) for c in out):
        return ''.join(map(chr, out))
    return SymStr(out)


class SymStr(Sym):
    __slots__ = ('chars', 'real', 'intval', 'uid')

    def __init__(self, chars, real=None, intval=None):
        self.chars = chars
        self.real = real
        self.intval = intval

    __class__ = property(lambda self: str)

    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return len(self.chars) > 0

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.chars[i])
        return mkstr([self.chars[i]])

    def __iter__(self):
        for c in self.chars:
            yield mkstr([c])

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(self.chars + chars_of(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(chars_of(o) + self.chars)

    def __mul__(self, n):
        return mkstr(self.chars * n)
    __rmul__ = __mul__

    def eqz(self, o):
        b = chars_of(o)
        if len(b) != len(self.chars):
            return z3.BoolVal(False)
        terms = []
        for x, y in zip(self.chars, b):
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    return z3.BoolVal(False)
            else:
                terms.append(x == y)
        return z3.And(terms) if terms else z3.BoolVal(True)

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        z = self.eqz(o)
        if z3.is_false(z):
            return False
        if z3.is_true(z):
            return True
        return SymBool(z)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if isinstance(r, SymBool):
            return SymBool(z3.Not(r.z))
        return not r

    def __hash__(self):
        # usable as a key only through the instrumented dictionary operations
        unsupported('hash of a symbolic string')

    def _lt(self, o, strict):
        a, b = self.chars, chars_of(o)
        res = z3.BoolVal((len(a) < len(b)) if strict else (len(a) <= len(b)))
        for x, y in reversed(list(zip(a, b))):
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    res = z3.BoolVal(x < y)
            else:
                res = z3.If(x == y, res, x < y)
        return SymBool(res)

    def __lt__(self, o):
        return self._lt(o, True)

    def __le__(self, o):
        return self._lt(o, False)

    def __gt__(self, o):
        return SymBool(z3.Not(self._lt(o, False).z))

    def __ge__(self, o):
        return SymBool(z3.Not(self._lt(o, True).z))

    def match_at(self, sub, i):
        return i + len(sub) <= len(self.chars) and bool(SymStr(self.chars[i:i + len(sub)]) == mkstr(sub))

    def find(self, sub, start=0, end=None):
        sub = chars_of(sub)
        end = len(self.chars) if end is None else min(end, len(self.chars))
        start = max(0, start if start >= 0 else start + len(self.chars))
        for i in range(start, end - len(sub) + 1):
            if self.match_at(sub, i):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        sub = chars_of(sub)
        end = len(self.chars) if end is None else min(end, len(self.chars))
        for i in range(end - len(sub), start - 1, -1):
            if self.match_at(sub, i):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def __contains__(self, sub):
        return contains(self.chars, chars_of(sub))

    def count(self, sub, start=0, end=None):
        sub = chars_of(sub)
        end = len(self.chars) if end is None else min(end, len(self.chars))
        n, i = 0, start
        if not sub:
            return end - start + 1
        while i <= end - len(sub):
            if self.match_at(sub, i):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def replace(self, old, new, count=-1):
        old, new = chars_of(old), chars_of(new)
        if not old:
            unsupported('replace of empty string')
        out, i, n = [], 0, 0
        while i < len(self.chars):
            if (count < 0 or n < count) and self.match_at(old, i):
                out += new
                i += len(old)
                n += 1
            else:
                out.append(self.chars[i])
                i += 1
        return mkstr(out)

    def split(self, sep=None, maxsplit=-1):
        out, cur, i, n = [], [], 0, 0
        if sep is None:
            while i < len(self.chars):
                if ch_in(self.chars[i], WS):
                    if cur:
                        out.append(mkstr(cur))
                        cur = []
                        n += 1
                else:
                    if 0 <= maxsplit <= n and not cur:
                        rest = self.chars[i:]
                        out.append(mkstr(rest).rstrip())
                        return out
                    cur.append(self.chars[i])
                i += 1
            if cur:
                out.append(mkstr(cur))
            return out
        sub = chars_of(sep)
        if not sub:
            raise ValueError('empty separator')
        while i < len(self.chars):
            if (maxsplit < 0 or n < maxsplit) and self.match_at(sub, i):
                out.append(mkstr(cur))
                cur = []
                i += len(sub)
                n += 1
            else:
                cur.append(self.chars[i])
                i += 1
        out.append(mkstr(cur))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (mkstr(self.chars), '', '')
        return (mkstr(self.chars[:i]), sep, mkstr(self.chars[i + len(sep):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', mkstr(self.chars))
        return (mkstr(self.chars[:i]), sep, mkstr(self.chars[i + len(sep):]))

    def splitlines(self, keepends=False):
        out, cur, i = [], [], 0
        nl = ranges_of([10, 11, 12, 13, 0x1c, 0x1d, 0x1e, 0x85, 0x2028, 0x2029])
        while i < len(self.chars):
            c = self.chars[i]
            if ch_in(c, nl):
                step = 1
                if ch_eq(c, 13) and i + 1 < len(self.chars) and ch_eq(self.chars[i + 1], 10):
                    step = 2
                out.append(mkstr(cur + (self.chars[i:i + step] if keepends else [])))
                cur = []
                i += step
            else:
                cur.append(c)
                i += 1
        if cur:
            out.append(mkstr(cur))
        return out

    def _set(self, chars):
        return WS if chars is None else ranges_of(chars_of(chars))

    def lstrip(self, chars=None):
        r, i = self._set(chars), 0
        while i < len(self.chars) and ch_in(self.chars[i], r):
            i += 1
        return mkstr(self.chars[i:])

    def rstrip(self, chars=None):
        r, i = self._set(chars), len(self.chars)
        while i > 0 and ch_in(self.chars[i - 1], r):
            i -= 1
        return mkstr(self.chars[:i])

    def strip(self, chars=None):
        a = self.lstrip(chars)
        return a.rstrip(chars)

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(q, start, end) for q in p)
        return self.match_at(chars_of(p), start)

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(self.endswith(q) for q in p)
        p = chars_of(p)
        return len(p) <= len(self.chars) and self.match_at(p, len(self.chars) - len(p))

    def join(self, items):
        out, first = [], True
        for it in items:
            if not isinstance(it, str):
                raise TypeError('sequence item: expected str instance')
            if not first:
                out += self.chars
            out += chars_of(it)
            first = False
        return mkstr(out)

    def _ascii(self):
        for c in self.chars:
            if isinstance(c, int):
                if c > 127:
                    unsupported('case mapping of non-ASCII text')
            elif C().branch(c > 127):
                unsupported('case mapping of non-ASCII text')

    def lower(self):
        self._ascii()
        return mkstr([ord(chr(c).lower()) if isinstance(c, int) else z3.If(z3.And(c >= 65, c <= 90), c + 32, c) for c in self.chars])

    def upper(self):
        self._ascii()
        return mkstr([ord(chr(c).upper()) if isinstance(c, int) else z3.If(z3.And(c >= 97, c <= 122), c - 32, c) for c in self.chars])

    casefold = lower

    def isdigit(self):
        return bool(self.chars) and all(ch_in(c, DIGITS) for c in self.chars)
    isdecimal = isnumeric = isdigit

    def isspace(self):
        return bool(self.chars) and all(ch_in(c, WS) for c in self.chars)

    def isalnum(self):
        return bool(self.chars) and all(ch_in(c, [[48, 57], [65, 90], [97, 122]]) for c in self.chars)

    def isalpha(self):
        return bool(self.chars) and all(ch_in(c, [[65, 90], [97, 122]]) for c in self.chars)

    def zfill(self, n):
        return mkstr([48] * max(0, n - len(self.chars)) + self.chars)

    def encode(self, encoding='utf-8', errors='strict'):
        e = encoding.lower().replace('_', '-')
        if e in ('ascii', 'us-ascii', 'latin-1', 'iso-8859-1', 'latin1'):
            lim = 128 if 'ascii' in e else 256
            for i, c in enumerate(self.chars):
                if (c >= lim) if isinstance(c, int) else C().branch(c >= lim):
                    if errors == 'strict':
                        raise UnicodeEncodeError(e, 'x', i, i + 1, 'ordinal not in range')
                    if errors in ('ignore', 'replace'):
                        kept = self.chars[:i] + ([] if errors == 'ignore' else [63]) + self.chars[i + 1:]
                        return SymStr(kept).encode(encoding, errors)
                    unsupported('lossy encode')
            return SymBytes(self, e)
        if e in ('utf-8', 'utf8'):
            return SymBytes(self, 'utf-8')
        unsupported('encode %s' % encoding)

    def format(self, *a, **k):
        unsupported('format with symbolic template')

    def translate(self, table):
        out = []
        for c in self.chars:
            for k, v in table.items():
                if ch_eq(c, k):
                    if v is None:
                        pass
                    elif isinstance(v, int):
                        out.append(v)
                    else:
                        out += chars_of(v)
                    break
            else:
                out.append(c)
        return mkstr(out)

    def expandtabs(self, n=8):
        unsupported('expandtabs')

    def __mod__(self, o):
        unsupported('symbolic format template')

    # numbers ------------------------------------------------------------
    def to_int(self, base=10):
        cs = mkstr(self.chars).strip()
        if isinstance(cs, str) and not isinstance(cs, Sym):
            return int(cs, base)
        cs = list(cs.chars)
        bad = ValueError('invalid literal for int() with base %d' % base)
        sign = 1
        if cs and ch_in(cs[0], [[43, 43], [45, 45]]):
            if ch_eq(cs[0], 45):
                sign = -1
            cs = cs[1:]
        if not cs:
            raise bad
        if base in (0, 16) and len(cs) > 1 and ch_eq(cs[0], 48) and ch_in(cs[1], [[88, 88], [120, 120]]):
            base = 16
            cs = cs[2:]
            if not cs:
                raise bad
        elif base == 0:
            base = 10
            if len(cs) > 1 and ch_eq(cs[0], 48):
                if ch_in(cs[1], ranges_of([ord(x) for x in 'bBoO'])):
                    unsupported('int() with 0b/0o prefix')
                for c in cs:
                    if not ch_eq(c, 48):
                        raise bad
        total = z3.IntVal(0)
        ds = []
        for c in cs:
            if base == 16 and ch_in(c, [[48, 57], [65, 70], [97, 102]]):
                if isinstance(c, int):
                    d = int(chr(c), 16)
                else:
                    d = z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))
            elif base != 16 and ch_in(c, DIGITS):
                d = c - 48
            else:
                if ch_in(c, [[95, 95]]):
                    unsupported('int() with underscores')
                if not isinstance(c, int) and C().branch(c > 127):
                    unsupported('int() of non-ASCII digits')
                raise bad
            ds.append(d)
            total = total * base + d
        if base == 16 and sign == 1:
            return hex_int(ds)
        return SymInt(z3.simplify(sign * total))

    def to_float(self):
        cs = mkstr(self.chars).strip()
        if isinstance(cs, str) and not isinstance(cs, Sym):
            f = float(cs)
            return f
        cs = list(cs.chars)
        bad = ValueError('could not convert string to float')
        i, sign = 0, 1

        def peek():
            return cs[i] if i < len(cs) else None
        if i < len(cs) and ch_in(cs[i], [[43, 43], [45, 45]]):
            if ch_eq(cs[i], 45):
                sign = -1
            i += 1
        mant = z3.IntVal(0)
        nd, scale = 0, 0
        dg = []
        while i < len(cs) and ch_in(cs[i], DIGITS):
            mant = mant * 10 + (cs[i] - 48)
            dg.append(cs[i])
            nd += 1
            i += 1
        if i < len(cs) and ch_in(cs[i], [[46, 46]]):
            i += 1
            while i < len(cs) and ch_in(cs[i], DIGITS):
                mant = mant * 10 + (cs[i] - 48)
                dg.append(cs[i])
                nd += 1
                scale -= 1
                i += 1
        if nd == 0:
            if i < len(cs) and ch_in(cs[i], ranges_of([ord(x) for x in 'iInN'])):
                unsupported('float() of inf/nan text')
            raise bad
        if i < len(cs) and ch_in(cs[i], ranges_of([69, 101])):
            i += 1
            es = 1
            if i < len(cs) and ch_in(cs[i], [[43, 43], [45, 45]]):
                if ch_eq(cs[i], 45):
                    es = -1
                i += 1
            e, ne = z3.IntVal(0), 0
            while i < len(cs) and ch_in(cs[i], DIGITS):
                e = e * 10 + (cs[i] - 48)
                ne += 1
                i += 1
            if ne == 0:
                raise bad
            ev = concretize_int(z3.simplify(e))
            if ev > 307:
                unsupported('exponent out of the modelled range')
            scale += es * ev
        if i != len(cs):
            if ch_in(cs[i], [[95, 95]]):
                unsupported('float() with underscores')
            if not isinstance(cs[i], int) and C().branch(cs[i] > 127):
                unsupported('float() of non-ASCII text')
            raise bad
        v = z3.ToReal(z3.simplify(mant)) * z3.RealVal(str(Fraction(10) ** scale)) * sign
        return SymReal(z3.simplify(v), src=(sign < 0, dg, scale))


class KeyStr(SymStr):
    """A symbolic string stored as a dictionary key or member of a set."""
    __slots__ = ()

    def __hash__(self):
        return object.__hash__(self)

    def __eq__(self, o):
        if o is self:
            return True
        return SymStr.__eq__(self, o)


class KeyTuple(tuple):
    """A tuple with symbolic members stored as a key."""

    def __hash__(self):
        return object.__hash__(self)

    def __eq__(self, o):
        return o is self or tuple.__eq__(self, o)


def _tst(z):
    return z if isinstance(z, bool) else C().branch(z)


class SymBytes(Sym):
    """An encoded symbolic string."""
    __slots__ = ('text', 'encoding')
    NAMES = {'utf8': 'utf-8', 'latin1': 'latin-1', 'iso-8859-1': 'latin-1', 'us-ascii': 'ascii'}

    def __init__(self, text, encoding):
        self.text = text
        self.encoding = encoding

    __class__ = property(lambda self: bytes)

    def bytes(self):
        e = self.NAMES.get(self.encoding, self.encoding)
        if e != 'utf-8':
            return list(self.text.chars)
        out = []
        for c in self.text.chars:
            if _tst(c < 0x80):
                out.append(c)
                continue
            div = (lambda k: c // k) if isinstance(c, int) else (lambda k: c / k)
            if _tst(c < 0x800):
                out += [0xC0 + div(64), 0x80 + c % 64]
            elif _tst(c < 0x10000):
                out += [0xE0 + div(4096), 0x80 + div(64) % 64, 0x80 + c % 64]
            else:
                out += [0xF0 + div(262144), 0x80 + div(4096) % 64, 0x80 + div(64) % 64, 0x80 + c % 64]
        return out

    def decode(self, encoding='utf-8', errors='strict'):
        e = encoding.lower().replace('_', '-')
        x, y = self.NAMES.get(self.encoding, self.encoding), self.NAMES.get(e, e)
        if x == y:
            return self.text
        data = self.bytes()
        if y == 'latin-1':
            return mkstr(data)
        if y not in ('utf-8', 'ascii') or errors != 'strict':
            unsupported('decode %s as %s' % (x, y))
        out, i = [], 0

        def bad(why='invalid start byte'):
            raise UnicodeDecodeError(y, b'?', 0, 1, why)
        while i < len(data):
            c = data[i]
            if _tst(c < 0x80):
                out.append(c)
                i += 1
                continue
            if y == 'ascii' or _tst(c < 0xC2) or _tst(c > 0xF4):
                bad()
            n, base, low = (2, 0xC0, 0x80) if _tst(c < 0xE0) else (3, 0xE0, 0x800) if _tst(c < 0xF0) else (4, 0xF0, 0x10000)
            v = c - base
            for d in data[i + 1:i + n]:
                if _tst(d < 0x80) or _tst(d > 0xBF):
                    bad('invalid continuation byte')
                v = v * 64 + (d - 0x80)
            if len(data) < i + n:
                bad('unexpected end of data')
            if _tst(v < low) or _tst(v > 0x10FFFF) or (n == 3 and _tst(v >= 0xD800) and _tst(v <= 0xDFFF)):
                bad('invalid continuation byte')
            out.append(v)
            i += n
        return mkstr(out)

    def __len__(self):
        return len(self.bytes())

    def __bool__(self):
        return bool(self.text.chars)

    def __hash__(self):
        unsupported('hash of a symbolic byte string')

    def __eq__(self, o):
        if not isinstance(o, bytes):
            return NotImplemented
        mine, other = self.bytes(), o.bytes() if isinstance(o, SymBytes) else list(o)
        return SymStr(mine) == SymStr(other)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else (SymBool(z3.Not(r.z)) if isinstance(r, SymBool) else not r)


def is_sym(x):
    return isinstance(x, Sym) if type(x).__module__ == __name__ else False


def has_sym(x, depth=2):
    if type(x).__module__ == __name__ and isinstance(x, Sym):
        return True
    if depth and type(x) in (list, tuple):
        return any(has_sym(i, depth - 1) for i in x)
    if depth and type(x) is dict:
        return any(has_sym(i, depth - 1) for i in x.values()) or any(has_sym(i, depth - 1) for i in x.keys())
    return False
