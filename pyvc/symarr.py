"""Arrays of arbitrary symbolic length with symbolic elements (element i = uninterpreted function of i).

`mono`: the array is sorted (precondition); instances of sortedness are added for every pair of indices the run touches, which
is sound and needs no quantifier.  `NumpyShim` stands for the module numpy: searchsorted on such an array is replaced by its
contract, everything else is the real numpy."""
import numpy as _np
from . import core
from .core import Sym
import z3


class SArr:
    """1-d array, length n (Sym int), element(i) -> value"""
    def __init__(self, v, n, elem, mono=False, strict=False):
        self.v, self.n, self.elem, self.mono, self.strict, self.seen = v, n, elem, mono, strict, []

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    def at(self, i):
        x = self.elem(i)
        if self.mono:
            v = self.v
            for j, y in self.seen:
                if self.strict:
                    v.assume(v.implies(_lt(i, j), _lt(x, y)))
                    v.assume(v.implies(_lt(j, i), _lt(y, x)))
                else:
                    v.assume(v.implies(_le(i, j), _le(x, y)))
                    v.assume(v.implies(_le(j, i), _le(y, x)))
                v.assume(v.implies(v.eq(i, j), v.eq(x, y)))
            self.seen.append((i, x))
        return x

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise core.Unsupported('slice of a symbolic array')
        i = i if core.is_sym(i) else int(i)
        if i < 0:
            if i < -self.n:
                raise IndexError('index out of bounds')
            i = i + self.n
        if i >= self.n:
            raise IndexError('index out of bounds')
        return self.at(i)

    def sym_len(self):
        return self.n

    def __len__(self):
        return self.n if isinstance(self.n, int) else core.eng().concretize_int(self.n)

    def __add__(self, c): return SArr(self.v, self.n, lambda i: self.at(i) + c, self.mono, self.strict)
    __radd__ = __add__
    def __sub__(self, c): return SArr(self.v, self.n, lambda i: self.at(i) - c, self.mono, self.strict)


def _z(a, b):
    return core._coerce(core.zval(a), core.zval(b))


def _le(a, b):
    x, y = _z(a, b)
    return core.SBool(x <= y)


def _lt(a, b):
    x, y = _z(a, b)
    return core.SBool(x < y)


def searchsorted(a, x, side='left', sorter=None):
    """contract of numpy.searchsorted on a sorted array"""
    v = a.v
    ix = core.eng().fresh_int('ss')
    v.assume(_le(0, ix))
    v.assume(_le(ix, a.n))
    lo, hi = a.at(ix - 1), a.at(ix)
    if side == 'left':
        v.assume(v.implies(_lt(0, ix), _lt(lo, x)))
        v.assume(v.implies(_lt(ix, a.n), _le(x, hi)))
    else:
        v.assume(v.implies(_lt(0, ix), _le(lo, x)))
        v.assume(v.implies(_lt(ix, a.n), _lt(x, hi)))
    return ix


class NumpyShim:
    def __getattr__(self, k):
        return getattr(_np, k)

    @staticmethod
    def searchsorted(a, x, *r, **k):
        if isinstance(a, SArr):
            return searchsorted(a, x, *r, **k)
        return _np.searchsorted(a, x, *r, **k)

    @staticmethod
    def isfinite(x):
        x = _np.asarray(x)
        if x.dtype == object:
            return _np.vectorize(lambda y: True if core.is_sym(y) else bool(_np.isfinite(float(y))), otypes=[bool])(x)
        return _np.isfinite(x)

    @staticmethod
    def isnan(x):
        x = _np.asarray(x)
        if x.dtype == object:
            return _np.vectorize(lambda y: False if core.is_sym(y) else bool(_np.isnan(float(y))), otypes=[bool])(x)
        return _np.isnan(x)


    @staticmethod
    def ones(shape, *a, **k):
        return OneArr(_np.ones(shape, *a, **k)) if core.ENG is not None else _np.ones(shape, *a, **k)


class OneArr(_np.ndarray):
    """float array that becomes an object array when combined with a symbolic scalar"""
    def __new__(cls, a):
        return _np.asarray(a).view(cls)

    def __mul__(self, o):
        if core.is_sym(o):
            return _np.asarray(self).astype(object) * _np.array(o, dtype=object)
        return _np.asarray(self) * o
    __rmul__ = __mul__

    def __setitem__(self, k, val):
        _np.ndarray.__setitem__(self, k, val)


def len_(x):
    return x.sym_len() if hasattr(x, 'sym_len') else len(x)


def sorted_array(v, name, lo=1, hi=None, strict=True):
    """a sorted array of arbitrary length >= lo; concrete runs get a numpy array"""
    if v.symbolic:
        n = v.int(name + '_n', lo=lo, hi=hi)
        f = v.func(name)
        return SArr(v, n, f, mono=True, strict=strict)
    n = v.int(name + '_n', lo=lo, hi=hi or lo + 5)
    if n > 2000:
        from .contract import Discard
        raise Discard()
    key = 'fn_' + name
    if v.values is not None and key in v.values:
        f = v.func(name)
        a = _np.array([float(f(i)) for i in range(n)])
        if _np.any(_np.diff(a) <= 0 if strict else _np.diff(a) < 0):
            from .contract import Discard
            raise Discard()
        return a
    b = v.real(name + '_b', lo=-50, hi=50)
    d = [v.rng.choice([1.0, 3.0, 7.25, 100.0]) for _ in range(n)]
    return b + _np.concatenate([[0.0], _np.cumsum(d)])[:n]
