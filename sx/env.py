"""The harness interface: the same harness runs symbolically and concretely."""
import math
from fractions import Fraction
from . import core


class Base(object):
    def __init__(self, variant, tier):
        self.variant, self.tier = variant, tier
        self.thorough = tier == 'thorough'

    def pick(self, name, options):
        """One of a list of concrete options."""
        return options[self.choice(name, len(options))]

    def letters(self, name, n, alphabet):
        return self.text(name, n, alphabet=alphabet)

    def check_raises(self, exc, label, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc:
            return
        self.check(False, label)

    def all_close(self, got, want, label, scale=1.0):
        """Two equally shaped nested sequences of numbers."""
        g, w = flatten(got), flatten(want)
        self.check(len(g) == len(w), label + ' (shape)')
        for i, (a, b) in enumerate(zip(g, w)):
            self.close(a, b, '%s [%d]' % (label, i), scale)


def flatten(x):
    if hasattr(x, 'tolist') and getattr(x, 'shape', None) is not None and not getattr(x, '_sx', False):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        return [e for i in x for e in flatten(i)]
    return [x]


class SymEnv(Base):
    symbolic = True

    def __init__(self, variant, tier):
        Base.__init__(self, variant, tier)
        from . import syms
        self.syms = syms

    @property
    def c(self):
        return core.CTX

    def _declare(self, name, **spec):
        assert name not in self.c.inputs, name
        self.c.inputs[name] = spec

    # -- inputs ------------------------------------------------------------
    def int(self, name, lo, hi):
        import z3
        v = z3.Int(name)
        self._declare(name, kind='int', var=v)
        self.c.add(z3.And(v >= lo, v <= hi))
        return self.syms.SymInt(v)

    def bool(self, name):
        import z3
        v = z3.Bool(name)
        self._declare(name, kind='bool', var=v)
        return self.syms.SymBool(v)

    def choice(self, name, n):
        if n == 1:
            return 0
        v = self.int(name, 0, n - 1)
        return self.syms.concretize_int(v.z)

    def flag(self, name):
        return bool(self.bool(name))

    def real(self, name, lo=-64, hi=64):
        import z3
        v = z3.Real(name)
        self._declare(name, kind='real', var=v)
        if lo is not None:
            self.c.add(v >= z3.RealVal(str(Fraction(repr(lo)) if isinstance(lo, float) else lo)))
        if hi is not None:
            self.c.add(v <= z3.RealVal(str(Fraction(repr(hi)) if isinstance(hi, float) else hi)))
        return self.syms.SymReal(v)

    def angle(self, name):
        """A nonzero-or-zero angle in (-pi, pi) given by its cosine and sine."""
        import z3
        v = z3.Real(name)
        c_, s_ = z3.Real(name + '.cos'), z3.Real(name + '.sin')
        self._declare(name, kind='angle', var=v, cos=c_, sin=s_)
        c = self.c
        c.nl = True
        c.add(z3.And(c_ * c_ + s_ * s_ == 1, c_ <= 1, c_ >= -1, s_ <= 1, s_ >= -1, c_ != -1))
        c.add(z3.And(v > z3.RealVal('-3.1415'), v < z3.RealVal('3.1415')))
        c.add(z3.And((v > 0) == (s_ > 0), (v < 0) == (s_ < 0), (v == 0) == z3.And(s_ == 0, c_ == 1)))
        nm, sign = self.syms.canon_angle(v)
        c.trig[nm] = dict(pair=(c_, s_ if sign == 1 else -s_), mods=[])
        return self.syms.SymReal(v)

    def cos(self, a):
        return a.cos() if self.syms.is_sym(a) else math.cos(a)

    def sin(self, a):
        return a.sin() if self.syms.is_sym(a) else math.sin(a)

    def text(self, name, n, alphabet=None, ranges=None, exclude=None):
        """A string of exactly n symbolic characters."""
        import z3
        chars = [z3.Int('%s[%d]' % (name, i)) for i in range(n)]
        self._declare(name, kind='text', chars=chars)
        if alphabet is not None:
            ranges = self.syms.ranges_of([ord(x) for x in alphabet])
        if ranges is None:
            ranges = [(0, 0xD7FF), (0xE000, 0x10FFFF)]
        for ch in chars:
            self.c.add(z3.Or([z3.And(ch >= lo, ch <= hi) for lo, hi in ranges]))
            for x in exclude or ():
                self.c.add(ch != ord(x))
        return self.syms.mkstr(chars)

    def decimal(self, name, ni, nf, exp=None):
        """A float whose repr is [-]digits.digits with ni/nf symbolic digits
        (leading digit nonzero unless ni==1; last fraction digit nonzero
        unless nf==1).  exp: scientific notation, mantissa 1 digit."""
        import z3
        c = self.c
        sg = z3.Bool(name + '.neg')
        ds = [z3.Int('%s.d%d' % (name, i)) for i in range(ni + nf)]
        for d in ds:
            c.add(z3.And(d >= 0, d <= 9))
        if ni > 1 or exp is not None:
            c.add(ds[0] != 0)
        if nf > 1 or (nf == 1 and exp is not None):
            c.add(ds[-1] != 0)
        if ni == 1 and nf > 4:
            c.add(z3.Or([d != 0 for d in ds[:5]]))
        neg = c.branch(sg)
        chars = [ord('-')] if neg else []
        if neg:
            c.add(z3.Or([d != 0 for d in ds]))      # -0.0 excluded
        chars += [d + 48 for d in ds[:ni]]
        if nf:
            chars += [ord('.')] + [d + 48 for d in ds[ni:]]
        m = z3.Sum([d * 10 ** (ni + nf - 1 - i) for i, d in enumerate(ds)])
        sc = Fraction(1, 10 ** nf)
        if exp is not None:
            chars += [ord(x) for x in ('e%+03d' % exp)]
            sc *= Fraction(10) ** exp
        self._declare(name, kind='text', chars=chars)
        v = z3.ToReal(m) * z3.RealVal(str(sc)) * (-1 if neg else 1)
        return self.syms.SymReal(z3.simplify(v), text=chars)

    # -- statements ----------------------------------------------------------
    def assume(self, cond):
        self.c.assume(self._z(cond))

    def _z(self, cond):
        return self.syms.truth(cond)

    def check(self, cond, label, detail=''):
        self.c.check(self._z(cond), label, detail=detail)

    def implies(self, a, b):
        import z3
        return self.syms.SymBool(z3.Implies(self._z(a), self._z(b)))

    def both(self, *conds):
        import z3
        return self.syms.SymBool(z3.And([self._z(x) for x in conds]))

    def either(self, *conds):
        import z3
        return self.syms.SymBool(z3.Or([self._z(x) for x in conds]))

    def negate(self, a):
        import z3
        return self.syms.SymBool(z3.Not(self._z(a)))

    def close(self, a, b, label, scale=1.0):
        """a == b over the reals (concretely: within rounding)."""
        import z3
        if getattr(a, 'shape', None) == () and not self.syms.is_sym(a):
            a = a.item()
        ra, rb = self.syms.real_of(a), self.syms.real_of(b)
        if ra is None or rb is None:
            self.check(False, label + ': not numbers %r %r' % (type(a), type(b)))
            return
        d = z3.simplify(ra - rb, som=True, som_blowup=1000000)
        if z3.is_rational_value(d):
            f = abs(Fraction(d.numerator_as_long(), d.denominator_as_long()))
            # constants such as pi or cos(const) carry rounding of their own
            self.c.check(f <= Fraction(1, 100000) * Fraction(scale), label)
            return
        big = [z3.Or(d > x, d < -x) for x in (z3.RealVal('1'), z3.RealVal('1/10'), z3.RealVal('1/100'))]
        self.c.check(ra == rb if scale == 1.0 else z3.And(d <= z3.RealVal(str(Fraction(scale) / 100000)), d >= -z3.RealVal(str(Fraction(scale) / 100000))), label, prefer=big)

    def near(self, a, b):
        """a == b, as a condition"""
        return a == b

    def cover(self, label):
        if label not in self.c.covered:
            self.c.covered.append(label)

    def stop(self):
        raise core.SxStop()

    def known(self, kid, cond=True):
        """Region of a listed finding: recorded, and the path ends there when
        it lies inside the region."""
        import z3
        z = self._z(cond)
        if self.c.branch(z):
            self.c.known.append(kid)
            raise core.SxStop('known finding')

    def hook_id(self, fn):
        from . import instrument
        instrument.ID_HOOK[0] = fn


class ConcEnv(Base):
    symbolic = False

    def __init__(self, variant, tier, values):
        Base.__init__(self, variant, tier)
        self.values = values
        self.used = []
        self.covered = []
        self.knowns = []

    def _get(self, name, default):
        if name in self.values:
            return self.values[name]
        raise core.ReplayInvalid('no value for input %s' % name)

    def int(self, name, lo, hi):
        v = int(self._get(name, lo))
        if not lo <= v <= hi:
            raise core.ReplayInvalid(name)
        return v

    def bool(self, name):
        return bool(self._get(name, False))
    flag = bool

    def choice(self, name, n):
        if n == 1:
            return 0
        return self.int(name, 0, n - 1)

    def real(self, name, lo=-64, hi=64):
        return float(Fraction(self._get(name, '0/1')))

    def angle(self, name):
        return float(self._get(name, 0.0))

    def cos(self, a):
        return math.cos(a)

    def sin(self, a):
        return math.sin(a)

    def text(self, name, n, alphabet=None, ranges=None, exclude=None):
        return self._get(name, '')

    def decimal(self, name, ni, nf, exp=None):
        t = self._get(name, '0.0')
        return float(t)

    def assume(self, cond):
        if not cond:
            raise core.ReplayInvalid('assumption')

    def check(self, cond, label, detail=''):
        if not cond:
            raise core.PropertyFailure(label + ((' ' + detail) if detail else ''))

    def implies(self, a, b):
        return (not a) or bool(b)

    def both(self, *conds):
        return all(bool(x) for x in conds)

    def either(self, *conds):
        return any(bool(x) for x in conds)

    def negate(self, a):
        return not a

    def close(self, a, b, label, scale=1.0):
        try:
            fa, fb = float(a), float(b)
        except (TypeError, ValueError):
            self.check(False, label + ': not numbers %r %r' % (a, b))
        tol = 2e-3 * (1 + max(abs(fa), abs(fb))) * scale
        if not (abs(fa - fb) <= tol):
            raise core.PropertyFailure('%s: got %r, expected %r' % (label, fa, fb))

    def near(self, a, b):
        return abs(float(a) - float(b)) <= 2e-3 * (1 + max(abs(float(a)), abs(float(b))))

    def cover(self, label):
        if label not in self.covered:
            self.covered.append(label)

    def stop(self):
        raise core.SxStop()

    def known(self, kid, cond=True):
        if cond:
            self.knowns.append(kid)

    def hook_id(self, fn):
        import builtins
        raise core.ReplayInvalid('identity is modelled')
