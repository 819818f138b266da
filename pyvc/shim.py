"""Symbolic-aware builtins, injected as module globals of the module under contract (identical on ordinary values)."""
import builtins
import math
import numbers
from . import core
from .core import Sym, SBool

_REAL = (float, numbers.Number, numbers.Complex, numbers.Real, numbers.Rational)
_INT = (int, numbers.Integral)


def isinstance_(x, cls):
    if builtins.isinstance(x, (Sym, SBool)):
        cl = []
        todo = [cls]
        while todo:
            c = todo.pop()
            if builtins.isinstance(c, tuple):
                todo.extend(c)
            else:
                cl.append(c)
        if builtins.isinstance(x, SBool):
            return bool in cl or int in cl or SBool in cl or object in cl
        if Sym in cl or object in cl:
            return True
        if x.is_int:
            return any(c in _INT or c in (numbers.Number, numbers.Complex, numbers.Real, numbers.Rational) for c in cl)
        try:
            import numpy
            if any(c in (numpy.floating, numpy.float64, numpy.number) for c in cl):
                return True
        except ImportError:
            pass
        return any(c in _REAL for c in cl)
    k = getattr(x, '_stands_for', None)
    if k is not None and not builtins.isinstance(x, type) and builtins.issubclass(k, cls):
        return True
    return builtins.isinstance(x, cls)


class MathShim:
    def __getattr__(self, k):
        return getattr(math, k)

    @staticmethod
    def _w(name, f):
        def g(*a):
            if builtins.any(core.is_sym(x) for x in a):
                return f(*a)
            return getattr(math, name)(*a)
        return g


MathShim.sqrt = staticmethod(MathShim._w('sqrt', core.sqrt))
for _n in ('exp', 'log', 'sin', 'cos', 'tan', 'tanh', 'atan2', 'atan', 'pow'):
    setattr(MathShim, _n, staticmethod(MathShim._w(_n, (lambda nm: lambda *a: core.uf(nm, *a))(_n))))
setattr(MathShim, 'pow', staticmethod(MathShim._w('pow', core.power)))
setattr(MathShim, 'floor', staticmethod(MathShim._w('floor', lambda x: x.__floor__())))
setattr(MathShim, 'ceil', staticmethod(MathShim._w('ceil', lambda x: x.__ceil__())))
setattr(MathShim, 'isclose', staticmethod(math.isclose))


def sum_(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def round_(x, n=None):
    if core.is_sym(x):
        return x.__round__(n)
    return builtins.round(x) if n is None else builtins.round(x, n)


# int and float must stay usable as types (isinstance, dtype=float): subclasses with a symbolic-aware constructor
class _IntMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, int)

    def __call__(cls, *a, **k):
        if a and core.is_sym(a[0]):
            return core.int_(a[0])
        return int(*a, **k)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, float)

    def __call__(cls, *a, **k):
        if a and core.is_sym(a[0]):
            return core.float_(a[0])
        if a and hasattr(a[0], '__pyvc_value__'):
            return core.float_(a[0].__pyvc_value__())
        return float(*a, **k)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


def install(mod, names=('isinstance', 'min', 'max', 'int', 'float', 'round')):
    table = {'isinstance': isinstance_, 'min': core.min_, 'max': core.max_, 'int': core.int_, 'float': core.float_,
             'round': round_, 'sum': sum_, 'math': MathShim()}
    for n in names:
        if n in ('int', 'float'):
            # keep `int`/`float` a type for isinstance checks: replaced by a function only where the module never uses it as a type
            mod.__dict__[n] = _make_type(n)
        else:
            mod.__dict__[n] = table[n]


def _make_type(n):
    if n == 'int':
        class symint(int, metaclass=_IntMeta):
            pass
        symint.__name__ = 'int'
        return symint

    class symfloat(float, metaclass=_FloatMeta):
        pass
    symfloat.__name__ = 'float'
    return symfloat
