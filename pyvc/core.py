"""PyVC core: symbolic proxy values, path exploration, obligations.

The code under contract is executed by CPython itself; the proxies below carry z3 terms.  Every branch on a
symbolic condition asks the engine (``Engine.branch``), which forks the path when both outcomes are feasible.
"""
import math
import numbers
import time
from fractions import Fraction
import z3

from . import ring


class PathEnd(BaseException):
    """The current path ends here (infeasible, or closed by a loop invariant)."""


class Infeasible(PathEnd):
    pass


class Unsupported(BaseException):
    """The code went outside what the proxies model: undecided, never a violation."""


class Budget(BaseException):
    pass


ENG = None  # the active engine


def eng():
    if ENG is None:
        raise Unsupported('no active engine')
    return ENG


def _frac(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    # decimal reading of the literal: 0.1 means 1/10, and 0.3333333333333333 (folded from 1.0/3) means 1/3
    # (machine arithmetic is treated as mathematical)
    x = float(x)
    r = Fraction(repr(x))
    if r.denominator > 10**14:
        s = Fraction(x).limit_denominator(1000)
        if float(s) == x:
            return s
    return r


def zval(x):
    """Convert a Python number / proxy to a z3 term (or None)."""
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, SBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, numbers.Integral):
        return z3.IntVal(int(x))
    if isinstance(x, numbers.Real):
        xf = float(x)
        if math.isinf(xf) or math.isnan(xf):
            return None
        return z3.RealVal(_frac(xf))
    try:
        import numpy
        if isinstance(x, numpy.ndarray) and x.ndim == 0:
            return zval(x.item())
    except ImportError:
        pass
    if hasattr(x, '__pyvc_value__'):
        return zval(x.__pyvc_value__())
    return None


def zreal(x):
    e = zval(x)
    if e is None:
        raise Unsupported('not a number: %r' % (x,))
    return z3.ToReal(e) if z3.is_int(e) else e


def _coerce(a, b):
    """both to the same sort"""
    if z3.is_int(a) and z3.is_int(b):
        return a, b
    if z3.is_int(a):
        a = z3.ToReal(a) if not z3.is_int_value(a) else z3.RealVal(a.as_long())
    if z3.is_int(b):
        b = z3.ToReal(b) if not z3.is_int_value(b) else z3.RealVal(b.as_long())
    return a, b


def mk(e):
    """wrap, folding constants back to Python numbers is avoided on purpose (uniform types)"""
    if z3.is_bool(e):
        return SBool(e)
    return Sym(e)


def _isinf(x):
    return isinstance(x, float) and math.isinf(x)


class Sym:
    """Symbolic number (mathematical integer or real)."""
    __slots__ = ('e',)
    __array_priority__ = 1000
    __hash_const__ = 7919

    def __init__(self, e):
        self.e = e

    @property
    def is_int(self):
        return z3.is_int(self.e)

    # -- arithmetic
    def _bin(self, o, f, swap=False):
        b = zval(o)
        if b is None:
            if swap and type(o).__module__ == 'numpy' and hasattr(o, 'ravel'):      # array op scalar: entry by entry
                import numpy
                r = numpy.empty(o.shape, dtype=object)
                for i in numpy.ndindex(*o.shape):
                    r[i] = self._bin(o[i], f, True)
                return r
            return NotImplemented
        x, y = _coerce(self.e, b)
        if swap:
            x, y = y, x
        return Sym(f(x, y))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, True)

    @staticmethod
    def _div(a, b):
        a = z3.ToReal(a) if z3.is_int(a) else a
        b = z3.ToReal(b) if z3.is_int(b) else b
        zero = SBool(b == 0)
        if eng().python_division and bool(zero):
            raise ZeroDivisionError('division by zero')
        return a / b

    def __truediv__(self, o): return self._bin(o, self._div)
    def __rtruediv__(self, o): return self._bin(o, self._div, True)

    @staticmethod
    def _floordiv(a, b):
        if bool(SBool(b == 0)):
            raise ZeroDivisionError('integer division or modulo by zero')
        if z3.is_int(a):
            # z3: euclidean; python: floor
            q = a / b
            r = a % b
            return z3.If(z3.And(b < 0, r != 0), q - 1, q) if not (z3.is_int_value(b) and b.as_long() > 0) else q
        return z3.ToReal(z3.ToInt(a / b))

    @staticmethod
    def _mod(a, b):
        q = Sym._floordiv(a, b)
        return a - b * q

    def __floordiv__(self, o): return self._bin(o, self._floordiv)
    def __rfloordiv__(self, o): return self._bin(o, self._floordiv, True)
    def __mod__(self, o): return self._bin(o, self._mod)
    def __rmod__(self, o): return self._bin(o, self._mod, True)
    def __divmod__(self, o): return (self // o, self % o)
    def __neg__(self): return Sym(-self.e)
    def __pos__(self): return self
    def __abs__(self): return Sym(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, o, mod=None):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    # -- comparison
    def _cmp(self, o, f):
        if isinstance(o, float) and (math.isinf(o) or math.isnan(o)):
            return f(0.0, o)
        b = zval(o)
        if b is None:
            if type(o).__name__ == 'ndarray' and o.ndim:
                import numpy
                r = numpy.empty(o.shape, dtype=object)
                for i in numpy.ndindex(o.shape):
                    x = o[i]
                    r[i] = self._cmp(float(x) if isinstance(x, numpy.floating) else x, f)
                return r
            return NotImplemented
        x, y = _coerce(self.e, b)
        return SBool(f(x, y))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = NotImplemented if type(o).__name__ == 'ndarray' and o.ndim else self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = NotImplemented if type(o).__name__ == 'ndarray' and o.ndim else self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __hash__(self):
        return self.__hash_const__

    def __bool__(self):
        return bool(SBool(self.e != 0))

    # -- conversions
    def __float__(self):
        s = z3.simplify(self.e)
        if z3.is_rational_value(s):
            return float(s.as_fraction())
        if z3.is_int_value(s):
            return float(s.as_long())
        raise Unsupported('float() of a symbolic value inside a library')

    def __int__(self):
        return eng().concretize_int(int_(self))

    def __index__(self):
        if not self.is_int:
            raise TypeError('not an integer')
        return eng().concretize_int(self)

    def __format__(self, spec):
        # one token per value and format: equal tokens mean equal text
        return '<%s:%s>' % (ring.Norm().canon(z3.simplify(self.e)), spec)

    def __str__(self):
        return self.__format__('')

    def __repr__(self):
        s = str(self.e)
        return 'Sym(%s)' % (s if len(s) < 80 else s[:77] + '...')

    def __round__(self, n=None):
        # banker's rounding
        if n not in (None, 0):
            raise Unsupported('round with digits')
        if self.is_int:
            return self
        fl = z3.ToInt(self.e)
        d = self.e - z3.ToReal(fl)
        r = z3.If(d < z3.RealVal('1/2'), fl, z3.If(d > z3.RealVal('1/2'), fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
        return Sym(r)

    def __trunc__(self):
        return int_(self)

    def __floor__(self):
        return self if self.is_int else Sym(z3.ToInt(self.e))

    def __ceil__(self):
        return self if self.is_int else Sym(-z3.ToInt(-self.e))

    # numpy object-array hooks (ufuncs on object arrays call the method of the same name)
    def floor(self): return Sym(z3.ToReal(self.__floor__().e))
    def ceil(self): return Sym(z3.ToReal(self.__ceil__().e))
    def rint(self): return Sym(z3.ToReal(self.__round__().e))
    def sqrt(self): return sqrt(self)
    def exp(self): return uf('exp', self)
    def log(self): return uf('log', self)
    def sin(self): return uf('sin', self)
    def cos(self): return uf('cos', self)
    def tan(self): return uf('tan', self)
    def tanh(self): return uf('tanh', self)
    def arctan2(self, o): return uf('atan2', self, o)
    def hypot(self, o): return sqrt(self * self + o * o)
    def isnan(self): return False
    def conjugate(self): return self

    @property
    def real(self): return self

    def is_integer(self):
        return SBool(z3.BoolVal(True)) if self.is_int else SBool(self.e == z3.ToReal(z3.ToInt(self.e)))

    def item(self): return self
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


numbers.Number.register(Sym)


class SBool:
    __slots__ = ('e',)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().branch(self.e)

    def _o(self, o):
        if isinstance(o, SBool):
            return o.e
        if isinstance(o, (bool, int)) or type(o).__name__ == 'bool_':
            return z3.BoolVal(bool(o))
        if isinstance(o, Sym):
            return o.e != 0
        return None

    def __and__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else SBool(z3.And(self.e, b))
    __rand__ = __and__

    def __or__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else SBool(z3.Or(self.e, b))
    __ror__ = __or__

    def __xor__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else SBool(z3.Xor(self.e, b))
    __rxor__ = __xor__

    def __invert__(self): return SBool(z3.Not(self.e))
    def logical_not(self): return SBool(z3.Not(self.e))

    def __eq__(self, o):
        b = self._o(o)
        return False if b is None else SBool(self.e == b)

    def __ne__(self, o):
        b = self._o(o)
        return True if b is None else SBool(self.e != b)

    def __hash__(self): return 7907
    def __repr__(self): return 'SBool(%s)' % str(self.e)[:80]
    def __format__(self, spec): return '<symbool>'

    # arithmetic use of booleans
    def __add__(self, o): return Sym(zval(self)) + o
    def __radd__(self, o): return o + Sym(zval(self))
    def __mul__(self, o): return Sym(zval(self)) * o
    __rmul__ = __mul__
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


# ---------------------------------------------------------------- functions on proxies

def is_sym(x):
    return isinstance(x, (Sym, SBool))


def int_(x, *a):
    if isinstance(x, Sym):
        if x.is_int:
            return x
        fl = z3.ToInt(x.e)
        return Sym(z3.If(x.e >= 0, fl, -z3.ToInt(-x.e)))
    if isinstance(x, SBool):
        return Sym(zval(x))
    return int(x, *a)


def float_(x=0.0):
    if isinstance(x, Sym):
        return Sym(z3.ToReal(x.e)) if x.is_int else x
    if isinstance(x, SBool):
        return Sym(z3.ToReal(zval(x)))
    return float(x)


def ite(c, a, b):
    """if-then-else without forking"""
    if isinstance(c, SBool):
        x, y = zval(a), zval(b)
        x, y = _coerce(x, y)
        return Sym(z3.If(c.e, x, y))
    return a if c else b


def min_(*a, **kw):
    return _minmax(False, a, kw)


def max_(*a, **kw):
    return _minmax(True, a, kw)


_bmin, _bmax = min, max


def _minmax(mx, a, kw):
    if len(a) == 1 and not kw:
        a = list(a[0])
    if kw or not any(is_sym(x) for x in a):
        if kw:
            return (_bmax if mx else _bmin)(*a, **kw)
        return (_bmax if mx else _bmin)(a)
    r = a[0]
    for x in a[1:]:
        if _isinf(x) or _isinf(r):
            r = _bmax(r, x) if mx else _bmin(r, x)
            continue
        r = ite(SBool(zcmp(x, r, mx)), x, r)
    return r


def zcmp(x, r, mx):
    p, q = _coerce(zval(x), zval(r))
    return p > q if mx else p < q


def sqrt(x):
    if not is_sym(x):
        return math.sqrt(x)
    en = eng()
    key = ('sqrt', ring.key(zreal(x)))
    if key in en.defs:
        return en.defs[key]
    xe = zreal(x)
    s = en.fresh_real('sqrt')
    en.define(z3.Implies(xe >= 0, z3.And(s.e >= 0, s.e * s.e == xe)))
    ring.DEFS_SQRT[s.e.decl().name()] = xe
    en.defs[key] = s
    return s


_UFS = {}


def zfun(name, n):
    k = (name, n)
    if k not in _UFS:
        _UFS[k] = z3.Function(name, *([z3.RealSort()] * (n + 1)))
    return _UFS[k]


_MATH = {'exp': math.exp, 'log': math.log, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'tanh': math.tanh,
         'atan2': math.atan2, 'pow': math.pow, 'atan': math.atan, 'asin': math.asin, 'acos': math.acos,
         'sinh': math.sinh, 'cosh': math.cosh}


def uf(name, *args):
    """Uninterpreted mathematical function with the axioms instantiated at this application."""
    if not any(is_sym(a) for a in args):
        return _MATH[name](*[float(a) for a in args])
    en = eng()
    zs = [zreal(a) for a in args]
    key = (name,) + tuple(ring.key(z) for z in zs)
    if key in en.defs:
        return Sym(en.defs[key])
    t = zfun(name, len(zs))(*zs)
    if key not in en.defs:
        en.defs[key] = t
        x = zs[0]
        if name == 'exp':
            en.define(t > 0, (x <= 0) == (t <= 1), (x == 0) == (t == 1), t >= 1 + x)
            for k2, v2 in list(en.apps.get('exp', [])):   # monotone
                en.define((k2 <= x) == (v2 <= t))
        elif name == 'log':
            en.define(z3.Implies(x > 0, z3.And((x >= 1) == (t >= 0), (x == 1) == (t == 0))))
            for k2, v2 in list(en.apps.get('log', [])):
                en.define(z3.Implies(z3.And(x > 0, k2 > 0), (k2 <= x) == (v2 <= t)))
        elif name in ('sin', 'cos'):
            other = zfun('cos' if name == 'sin' else 'sin', 1)(x)
            en.define(t * t + other * other == 1, t <= 1, t >= -1)
        elif name == 'tanh':
            en.define(t < 1, t > -1, (x >= 0) == (t >= 0), (x == 0) == (t == 0))
        elif name == 'pow':
            y = zs[1]
            en.define(z3.Implies(x > 0, t > 0), z3.Implies(z3.And(x == 0, y > 0), t == 0),
                      z3.Implies(z3.And(x >= 1, y >= 0), t >= 1), z3.Implies(z3.And(x >= 0, x <= 1, y >= 0), t <= 1),
                      z3.Implies(z3.And(x >= 1, y <= 0), t <= 1), z3.Implies(z3.And(x > 0, x <= 1, y <= 0), t >= 1),
                      z3.Implies(x == 1, t == 1))
            for (x2, y2), v2 in list(en.apps.get('pow', [])):
                if z3.eq(z3.simplify(y2), z3.simplify(y)):
                    en.define(z3.Implies(z3.And(x > 0, x2 > 0, y > 0), (x2 <= x) == (v2 <= t)),
                              z3.Implies(z3.And(x > 0, x2 > 0, y < 0), (x2 <= x) == (v2 >= t)))
        elif name == 'atan':
            en.define((x >= 0) == (t >= 0), (x == 0) == (t == 0))
        en.apps.setdefault(name, []).append((tuple(zs) if len(zs) > 1 else x, t))
    return Sym(t)


def power(x, y):
    if not is_sym(y):
        yf = _frac(y)
        if yf.denominator == 1:
            n = int(yf)
            if n == 0:
                return 1
            if abs(n) <= 12:
                r = x
                for _ in range(abs(n) - 1):
                    r = r * x
                return r if n > 0 else 1 / r
        if yf == Fraction(1, 2):
            return sqrt(x)
        if yf == Fraction(-1, 2):
            return 1 / sqrt(x)
        if yf.denominator == 2:
            n = int(math.floor(yf))
            return power(x, n) * sqrt(x)
        if yf.denominator <= 12 and abs(yf) < 12:
            return root_power(x, yf)
    return uf('pow', x, y)


def root_power(x, q):
    """x**q for rational q, x > 0 (x >= 0 for q > 0), through the exact root r**den == x."""
    if not is_sym(x):
        return float(x) ** float(q)
    en = eng()
    d = q.denominator
    key = ('root', d, ring.key(zreal(x)))
    if key not in en.defs:
        r = en.fresh_real('root%d' % d)
        xe = zreal(x)
        rp = r.e
        for _ in range(d - 1):
            rp = rp * r.e
        en.define(z3.Implies(xe >= 0, z3.And(r.e >= 0, rp == xe)), z3.Implies(xe > 0, r.e > 0))
        en.defs[key] = r
        ring.DEFS_ROOT[r.e.decl().name()] = (d, xe)
    return power(en.defs[key], q.numerator)


# ---------------------------------------------------------------- engine

class Obligation:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.status = None      # proved | failed | unknown
        self.backend = None
        self.time = 0.0
        self.model = None
        self.detail = ''


class Engine:
    def __init__(self, max_paths=4000, branch_timeout=4000, ob_timeout=20000, deadline=None, unroll=4):
        self.max_paths, self.branch_timeout, self.ob_timeout = max_paths, branch_timeout, ob_timeout
        self.deadline = deadline
        self.python_division = True
        self.obligations = []
        self.problems = []       # unsupported / exceptions
        self.paths = 0
        self.infeasible = 0
        self.covers = {}
        self.solver_time = 0.0
        self.queries = 0
        self.axioms_used = set()
        self.unroll = unroll
        self.unroll_hit = 0
        self.decide_unknown = 0

    # per-path state
    def reset(self, prefix):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.branch_timeout)
        self.pc = []
        self.prefix = list(prefix)
        self.trace = []
        self.counter = {}
        self.defs = {}
        self.apps = {}
        self.inputs = {}
        self.chosen = {}
        self.loops = {}
        self.loop_hits = {}
        ring.DEFS_SQRT.clear()
        ring.DEFS_ROOT.clear()
        self.concrete_choice = {}

    def define(self, *cs):
        for c in cs:
            self.pc.append(c)
            self.solver.add(c)

    assume_z = define

    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return '%s!%d' % (base, n)

    def fresh_real(self, base='r'):
        return Sym(z3.Real(self.fresh_name(base)))

    def fresh_int(self, base='i'):
        return Sym(z3.Int(self.fresh_name(base)))

    def _check(self, *a):
        t = time.time()
        if self.deadline and t > self.deadline:
            raise Budget('time budget')
        r = self.solver.check(*a)
        self.solver_time += time.time() - t
        self.queries += 1
        return r

    def feasible(self):
        return self._check() != z3.unsat

    def branch(self, c):
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return True
        if z3.is_false(cs):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            t = self._check(c)
            f = self._check(z3.Not(c))
            if t == z3.unsat and f == z3.unsat:
                raise Infeasible()
            if t == z3.unknown or f == z3.unknown:
                self.decide_unknown += 1
            if t == z3.unsat:
                d = (False, True)     # forced
            elif f == z3.unsat:
                d = (True, True)
            else:
                d = (True, False)
                self.work.append(self.trace + [(False, False)])
        self.trace.append(d)
        self.define(c if d[0] else z3.Not(c))
        return d[0]

    def fork(self, n):
        """nondeterministic choice of 0..n-1 (no solver involved)"""
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            for j in range(n - 1, 0, -1):
                self.work.append(self.trace + [(j,)])
            d = (0,)
        self.trace.append(d)
        return d[0]

    def concretize_int(self, s):
        e = z3.simplify(s.e)
        if z3.is_int_value(e):
            return e.as_long()
        # enumerate values by forking
        for _ in range(64):
            if self._check() != z3.sat:
                raise Unsupported('cannot concretize')
            if len(self.trace) < len(self.prefix):
                v = self.prefix[len(self.trace)]
                v = v[2] if len(v) > 2 else None
            else:
                v = None
            if v is None:
                v = self.solver.model().eval(e, model_completion=True).as_long()
            i = len(self.trace)
            c = (e == v)
            if i < len(self.prefix):
                d = self.prefix[i]
            else:
                f = self._check(z3.Not(c))
                if f == z3.unsat:
                    d = (True, True, v)
                else:
                    d = (True, False, v)
                    self.work.append(self.trace + [(False, False, v)])
            self.trace.append(d)
            self.define(c if d[0] else z3.Not(c))
            if d[0]:
                return v
        raise Unsupported('integer not bounded: cannot be used as an index/range')

    # -- obligations
    def prove(self, name, cond, detail=''):
        """cond: z3 Bool"""
        ob = Obligation(name, self.paths)
        ob.detail = detail
        self.obligations.append(ob)
        t0 = time.time()
        c = z3.simplify(cond)
        if z3.is_true(c):
            ob.status, ob.backend = 'proved', 'simplifier'
        elif ring.prove(cond):
            ob.status, ob.backend = 'proved', 'ring-normaliser'
        else:
            self._solve(ob, cond)
        ob.time = time.time() - t0
        self.solver_time += ob.time
        if ob.status == 'proved':
            pass
        return ob.status == 'proved'

    def quiet_prove(self, cond):
        ob = Obligation('candidate', self.paths)
        c = z3.simplify(cond)
        if z3.is_true(c) or ring.prove(cond):
            return True
        self._solve(ob, cond)
        return ob.status == 'proved'

    def _solve(self, ob, cond):
        self.queries += 1
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget')
        goal = [*self.pc, z3.Not(cond)]
        s = z3.Solver()
        s.set('timeout', _bmin(self.ob_timeout, 6000))
        s.add(*goal)
        r = s.check()
        be = 'z3'
        if r == z3.unknown:
            s2 = z3.Tactic('qfnra-nlsat').solver() if _is_qfnra(goal) else z3.SolverFor('QF_UFNRA')
            s2.set('timeout', self.ob_timeout)
            s2.add(*goal)
            r2 = s2.check()
            if r2 != z3.unknown:
                s, r, be = s2, r2, 'z3-nlsat'
        if r == z3.unknown:
            r3 = cvc5_check(s.to_smt2(), self.ob_timeout)
            if r3 == 'unsat':
                ob.status, ob.backend = 'proved', 'cvc5'
                return
        if r == z3.unsat:
            ob.status, ob.backend = 'proved', be
        elif r == z3.sat:
            ob.status, ob.backend = 'failed', be
            ob.model = self.extract(s.model())
            ob.smt = s
        else:
            ob.status, ob.backend = 'unknown', 'z3+cvc5'
            ob.model = None

    def extract(self, model):
        out = {}
        for name, (kind, e) in self.inputs.items():
            if kind == 'func':
                out[name] = ('func', FuncModel(model, e))
                continue
            v = model.eval(e, model_completion=True)
            out[name] = conv(v)
        return out

    def path_model(self):
        r = self._check()
        if r == z3.sat:
            return self.extract(self.solver.model())
        return None

    def cover(self, name):
        """reachability: at least one path must reach this point with a satisfiable condition"""
        if self.covers.get(name):
            return
        r = self._check()
        self.covers[name] = (r == z3.sat) or (r == z3.unknown and self.covers.get(name, False) is False and 'unknown')

    # -- exploration
    def explore(self, fn):
        global ENG
        self.work = [[]]
        while self.work:
            if self.paths >= self.max_paths:
                self.problems.append(('budget', 'path limit %d reached' % self.max_paths, None))
                break
            if self.deadline and time.time() > self.deadline:
                self.problems.append(('budget', 'time budget', None))
                break
            prefix = self.work.pop()
            self.reset(prefix)
            self.paths += 1
            ENG = self
            try:
                fn()
            except PathEnd:
                self.infeasible += 1
            except Unsupported as ex:
                self.problems.append(('unsupported', str(ex), self._pm()))
            except Budget as ex:
                self.problems.append(('budget', str(ex), None))
                break
            except z3.Z3Exception as ex:
                self.problems.append(('unsupported', 'z3: %s' % ex, None))
            except Exception as ex:
                import traceback
                tb = traceback.format_exc()
                if not self.feasible():          # the path was excluded by its assumptions
                    self.infeasible += 1
                    continue
                self.problems.append(('exception', '%s: %s\n%s' % (type(ex).__name__, ex, tb), self._pm()))
            finally:
                ENG = None

    def _pm(self):
        try:
            return self.path_model()
        except Exception:
            return None


def conv(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return 0


class FuncModel:
    def __init__(self, model, decl):
        self.table, self.default = {}, 0.0
        try:
            fi = model[decl]
            n = fi.num_entries() if hasattr(fi, 'num_entries') else None
        except z3.Z3Exception:
            n = None
        if n is not None:
            for i in range(n):
                en = fi.entry(i)
                self.table[tuple(float(conv(en.arg_value(k))) for k in range(en.num_args()))] = float(conv(en.value()))
            ev = fi.else_value()
            if ev is not None and (z3.is_rational_value(ev) or z3.is_int_value(ev)):
                self.default = float(conv(ev))

    def __call__(self, *a):
        for k, v in self.table.items():
            if all(abs(x - float(y)) <= 1e-9 * (1 + abs(x)) for x, y in zip(k, a)):
                return v
        return self.default

    def __repr__(self):
        return 'table %s else %s' % (self.table, self.default)


def _is_qfnra(goal):
    seen = set()
    todo = list(goal)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and (e.num_args() > 0 or z3.is_int(e)):
                return False
            if e.decl().kind() in (z3.Z3_OP_TO_INT, z3.Z3_OP_TO_REAL, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
                return False
            todo.extend(e.children())
        else:
            return False
    return True


def cvc5_check(smt2, timeout_ms):
    try:
        import cvc5
        tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        slv.setOption('tlimit-per', str(timeout_ms))
        slv.setLogic('ALL')
        slv.setOption('nl-cov', 'true')
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt2, 'q')
        sm = p.getSymbolManager()
        res = None
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            if out and str(out).strip() in ('sat', 'unsat', 'unknown'):
                res = str(out).strip()
        return res
    except Exception:
        return None
