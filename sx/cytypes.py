"""Conversions Cython performs on typed variables."""
import z3
from .syms import SymReal, SymInt, SymBool, is_sym, real_of


def _sx_cfloat(x):
    if is_sym(x):
        if isinstance(x, SymReal):
            return SymReal(x.z, text=None)
        if isinstance(x, (SymInt, SymBool)):
            return SymReal(real_of(x))
        raise TypeError('must be real number, not str')
    if isinstance(x, str) or x is None:
        raise TypeError('must be real number, not %s' % type(x).__name__)
    from . import symnp
    if isinstance(x, symnp.ndarray):
        if x.ndim == 0 or x.size == 1:
            return _sx_cfloat(x.flat[0])
        raise TypeError('only 0-dimensional arrays can be converted to Python scalars')
    return float(x)


def _sx_cint(x):
    if is_sym(x):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return x._i()
        raise TypeError('an integer is required')
    if type(x) is bool:
        return int(x)
    return x.__index__() if not isinstance(x, float) else _noint(x)


def _noint(x):
    raise TypeError('an integer is required')


def _sx_cbool(x):
    return bool(x)


def _sx_cstr(x):
    if x is None or isinstance(x, str):
        return x
    raise TypeError("Expected str, got %s" % type(x).__name__)


def _sx_cbuf(x, ch, nd):
    from . import symnp
    if not isinstance(x, symnp.real.ndarray):
        raise TypeError("Argument has incorrect type (expected numpy.ndarray, got %s)" % type(x).__name__)
    if symnp.charof(x.dtype) != ch:
        raise ValueError('Buffer dtype mismatch')
    if x.ndim != nd:
        raise ValueError('Buffer has wrong number of dimensions')
    return x
