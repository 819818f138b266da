"""Arrays of arbitrary shape, represented by one arbitrary element (elementwise code only).

GArr(x): "the array whose generic element is x".  Elementwise operators, comparisons (masks), masked reads and masked writes act on
the generic element, so that what is proved for it holds for every element of every array.  Anything that is not elementwise
(indexing by position, reductions, iteration) is Unsupported.  `GNumpy` stands for the module numpy."""
import numpy as _np
from . import core
from .core import Unsupported


def _lift(f):
    def g(*a):
        if any(isinstance(x, GMaskSel) for x in a):
            m = [x.mask for x in a if isinstance(x, GMaskSel)][0]
            if any(isinstance(x, GMaskSel) and x.mask is not m for x in a) or any(isinstance(x, GArr) for x in a):
                raise Unsupported('different masks in one expression')
            return GMaskSel(f(*[x.x if isinstance(x, GMaskSel) else _scalar(x) for x in a]), m)
        return GArr(f(*[x.x if isinstance(x, GArr) else _scalar(x) for x in a]))
    return g


def _scalar(x):
    if isinstance(x, _np.ndarray):
        if x.size == 1:
            return x.ravel()[0]
        raise Unsupported('array combined with a generic array')
    return x


class _Base:
    __array_ufunc__ = None
    __hash__ = None

    def __array__(self, *a, **k):
        raise Unsupported('generic array passed to numpy')

    def __bool__(self): raise Unsupported('truth value of a generic array')
    def __len__(self): raise Unsupported('length of a generic array')
    def __iter__(self): raise Unsupported('iteration over a generic array')
    def __float__(self): raise Unsupported('float of a generic array')


for _n, _f in {
        'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'truediv': lambda a, b: a / b,
        'mod': lambda a, b: a % b, 'floordiv': lambda a, b: a // b}.items():
    setattr(_Base, '__%s__' % _n, (lambda f: lambda s, o: _lift(f)(s, o))(_f))
    setattr(_Base, '__r%s__' % _n, (lambda f: lambda s, o: _lift(lambda a, b: f(b, a))(s, o))(_f))
_Base.__pow__ = lambda s, o: _lift(power)(s, o)
_Base.__rpow__ = lambda s, o: _lift(lambda a, b: power(b, a))(s, o)
_Base.__neg__ = lambda s: _lift(lambda a: -a)(s)
_Base.__pos__ = lambda s: s
_Base.__abs__ = lambda s: _lift(abs)(s)
for _n, _f in {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b,
               'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b}.items():
    setattr(_Base, '__%s__' % _n, (lambda f: lambda s, o: _mask(f, s, o))(_f))


def power(a, b):
    return core.power(a, b) if core.is_sym(a) or core.is_sym(b) else a ** b


def _mask(f, s, o):
    r = _lift(f)(s, o)
    if isinstance(r, GMaskSel):
        raise Unsupported('comparison of a masked selection')
    return GMask(r.x)


class GMask:
    __array_ufunc__ = None

    def __init__(self, c): self.c = c
    def __and__(self, o): return GMask(_b(self.c) & _b(o.c))
    def __or__(self, o): return GMask(_b(self.c) | _b(o.c))
    def __invert__(self): return GMask(~_b(self.c))
    def __bool__(self): raise Unsupported('truth value of a generic mask')
    def any(self): return core.SBool(core.z3.Bool(core.eng().fresh_name('any')))      # weakened: either way
    all = any


def _b(c):
    return c if isinstance(c, core.SBool) else core.SBool(core.z3.BoolVal(bool(c)))


class GArr(_Base):
    def __init__(self, x): self.x = x.x if isinstance(x, GArr) else x

    @property
    def dtype(self): return _np.dtype(float)

    def __getitem__(self, k):
        if isinstance(k, GMask):
            return GMaskSel(self.x, k)
        if k is Ellipsis or isinstance(k, slice) and k == slice(None):
            return self
        raise Unsupported('indexing of a generic array with %r' % (k,))

    def __setitem__(self, k, val):
        if isinstance(k, GMask):
            if isinstance(val, GMaskSel):
                if val.mask is not k and not _same(val.mask, k):
                    raise Unsupported('assignment across masks')
                val = val.x
            elif isinstance(val, GArr):
                raise Unsupported('masked assignment of a whole array')
            self.x = core.ite(_b(k.c), val, self.x)
            return
        if k is Ellipsis or isinstance(k, slice) and k == slice(None):
            self.x = val.x if isinstance(val, GArr) else _scalar(val)
            return
        raise Unsupported('indexing of a generic array with %r' % (k,))

    def copy(self, *a, **k): return GArr(self.x)

    def max(self, *a, **k):     # some number at least as large as the generic element
        m = core.eng().fresh_real('max')
        core.eng().define(m.e >= core.zreal(self.x))
        return m

    def min(self, *a, **k):
        m = core.eng().fresh_real('min')
        core.eng().define(m.e <= core.zreal(self.x))
        return m
    def astype(self, *a, **k): return GArr(self.x)
    def _inpl(f):
        def g(self, o):
            self.x = _lift(f)(self, o).x
            return self
        return g
    __iadd__ = _inpl(lambda a, b: a + b)
    __isub__ = _inpl(lambda a, b: a - b)
    __imul__ = _inpl(lambda a, b: a * b)
    __itruediv__ = _inpl(lambda a, b: a / b)


def _same(a, b):
    return core.z3.eq(core.z3.simplify(_b(a.c).e), core.z3.simplify(_b(b.c).e))


class GMaskSel(_Base):
    """a[mask]"""
    def __init__(self, x, mask): self.x, self.mask = x, mask


def _g(*a):
    return any(isinstance(x, _Base) for x in a)


def _s(*a):
    return any(core.is_sym(x) for x in a)


class GNumpy:
    """stands for the module numpy: elementwise functions accept generic arrays and symbolic scalars"""
    def __getattr__(self, k):
        f = getattr(_np, k)
        if callable(f) and not isinstance(f, type):
            def g(*a, **kw):
                if _g(*a, *kw.values()):
                    raise Unsupported('numpy.%s on a generic array' % k)
                return f(*a, **kw)
            return g
        return f

    @staticmethod
    def where(c, a=None, b=None):
        if isinstance(c, GMask):
            x, y = (z.x if isinstance(z, GArr) else _scalar(z) for z in (a, b))
            return GArr(core.ite(_b(c.c), x, y))
        if isinstance(c, core.SBool):
            return core.ite(c, a, b)
        if _g(a, b) or _s(a, b):
            raise Unsupported('numpy.where')
        return _np.where(c) if a is None else _np.where(c, a, b)

    @staticmethod
    def array(x, *a, **k):
        if isinstance(x, GArr):
            return x.copy()
        return _np.array(x, *a, **k)

    @staticmethod
    def asarray(x, *a, **k):
        return x if isinstance(x, GArr) or core.is_sym(x) else _np.asarray(x, *a, **k)
    asanyarray = asarray

    @staticmethod
    def full_like(a, c, *r, **k):
        return GArr(c) if isinstance(a, GArr) else _np.full_like(a, c, *r, **k)

    @staticmethod
    def ones_like(a, *r, **k):
        return GArr(1.0) if isinstance(a, GArr) else _np.ones_like(a, *r, **k)

    @staticmethod
    def zeros_like(a, *r, **k):
        return GArr(0.0) if isinstance(a, GArr) else _np.zeros_like(a, *r, **k)
    empty_like = zeros_like

    @staticmethod
    def copy(a, *r, **k):
        return a.copy() if isinstance(a, GArr) else _np.copy(a, *r, **k)


FORK = True     # maximum/minimum split the path on the generic element (otherwise an if-then-else term)


def _max(a, b):
    if not FORK and _s(a, b):
        return core.ite(a < b, b, a)
    return a if a >= b else b


def _min(a, b):
    if not FORK and _s(a, b):
        return core.ite(a > b, b, a)
    return a if a <= b else b


_UFUNC = {'maximum', 'minimum', 'fmax', 'fmin', 'multiply', 'add', 'subtract', 'divide', 'hypot', 'power', 'sqrt', 'square', 'negative', 'abs', 'absolute',
          'exp', 'log', 'sin', 'cos', 'tanh', 'fabs'}


def _fn(name, f):
    real = getattr(_np, name)

    def g(*a, **k):
        if _g(*a) or _g(k.get('out')):
            out = k.pop('out', None)
            nin = getattr(real, "nin", 3)
            if name in _UFUNC and len(a) == nin + 1 and out is None:
                *a, out = a
            if k or len(a) > nin:
                raise Unsupported('numpy.%s with extra arguments on a generic array' % name)
            r = _lift(f)(*a)
            if out is not None:
                if not isinstance(out, GArr) or not isinstance(r, GArr):
                    raise Unsupported('numpy.%s: output argument' % name)
                out.x = r.x
                return out
            return r
        if _s(*a) or name == 'sqrt':
            return f(*a)
        return real(*a, **k)
    setattr(GNumpy, name, staticmethod(g))


def _sq(x):
    if core.is_sym(x):
        return core.sqrt(x)
    if core.ENG is not None and isinstance(x, (int, float)) and x > 0 and float(_np.sqrt(x)) != int(_np.sqrt(x)):
        return core.sqrt(core.Sym(core.zreal(x)))       # the exact root
    return _np.sqrt(x)


for _n, _f in {
        'hypot': lambda a, b: _sq(a * a + b * b), 'sqrt': _sq, 'abs': abs, 'absolute': abs, 'fabs': abs, 'square': lambda a: a * a,
        'maximum': lambda a, b: _max(a, b), 'minimum': lambda a, b: _min(a, b), 'fmax': lambda a, b: _max(a, b), 'fmin': lambda a, b: _min(a, b),
        'power': power, 'multiply': lambda a, b: a * b, 'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b,
        'divide': lambda a, b: a / b, 'negative': lambda a: -a,
        'clip': lambda a, lo, hi: (lambda t: t if hi is None or t <= hi else hi)(a if lo is None or a >= lo else lo),
        'exp': lambda a: core.uf('exp', a), 'log': lambda a: core.uf('log', a), 'sin': lambda a: core.uf('sin', a),
        'cos': lambda a: core.uf('cos', a), 'tanh': lambda a: core.uf('tanh', a)}.items():
    _fn(_n, _f)


for _n, _f in {'less': '__lt__', 'less_equal': '__le__', 'greater': '__gt__', 'greater_equal': '__ge__'}.items():
    def _cmp(a, b, f=_f, real=getattr(_np, _n)):
        if isinstance(a, GArr):
            return getattr(a, f)(b)
        if isinstance(b, GArr):
            return getattr(b, {'__lt__': '__gt__', '__gt__': '__lt__', '__le__': '__ge__', '__ge__': '__le__'}[f])(a)
        return real(a, b)
    setattr(GNumpy, _n, staticmethod(_cmp))
