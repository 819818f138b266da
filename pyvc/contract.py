"""Contracts: registration, the value factory `V` (symbolic / concrete), helper predicates."""
import math
import random
from fractions import Fraction
import z3
from . import core
from .core import Sym, SBool, Unsupported, Infeasible

REGISTRY = {}


class Contract:
    def __init__(self, prop, name, fn, targets, kind, note, samples, setup, budget, max_paths, tol, bounded):
        self.prop, self.name, self.fn, self.targets = prop, name, fn, targets
        self.kind, self.note, self.samples, self.setup = kind, note, samples, setup
        self.budget, self.max_paths, self.tol, self.bounded = budget, max_paths, tol, bounded


def contract(prop, targets, name=None, kind='sym', note='', samples=6, setup=None, budget=120, max_paths=3000, tol=1e-7,
             bounded=None):
    """Register a contract on real functions (`targets`: 'module:qualname').  kind 'sym': unbounded (all inputs); kind
    'concrete': bounded stand-in, never counted as proved."""
    def deco(fn):
        for p in ([prop] if isinstance(prop, str) else prop):
            REGISTRY.setdefault(p, []).append(Contract(p, name or fn.__name__, fn,
                                                       [targets] if isinstance(targets, str) else list(targets), kind, note,
                                                       samples, setup, budget, max_paths, tol, bounded))
        return fn
    return deco


class Discard(BaseException):
    """concrete sample outside the precondition"""


class CheckFailed(BaseException):
    def __init__(self, name, detail):
        self.name, self.detail = name, detail


class V:
    """Value factory handed to a contract."""
    symbolic = True

    def __init__(self, tier='quick'):
        self._patches = []
        self.tier = tier
        self.tol = 1e-7

    # -- patching (undone after the path)
    def patch(self, obj, attr, val):
        missing = object()
        if isinstance(obj, dict):
            old = obj.get(attr, missing)
            obj[attr] = val
            self._patches.append((obj, attr, old, missing))
            return
        old = obj.__dict__.get(attr, missing) if hasattr(obj, '__dict__') else getattr(obj, attr)
        if old is missing and not isinstance(obj, type) and hasattr(getattr(type(obj), attr, None), '__set__'):
            old = getattr(obj, attr)
        setattr(obj, attr, val)
        self._patches.append((obj, attr, old, missing))

    def undo(self):
        for obj, attr, old, missing in reversed(self._patches):
            if isinstance(obj, dict):
                if old is missing:
                    del obj[attr]
                else:
                    obj[attr] = old
            elif old is missing:
                delattr(obj, attr)
            else:
                setattr(obj, attr, old)
        self._patches = []

    def reals(self, name, n, **kw):
        return [self.real('%s%d' % (name, i), **kw) for i in range(n)]

    def lam(self, f):
        return f

    def flag(self, name):
        return self.choice(name, (False, True))


class SymV(V):
    symbolic = True

    def _range(self, s, lo, hi, pos):
        if lo is not None:
            self.assume(s >= lo)
        if hi is not None:
            self.assume(s <= hi)
        if pos:
            self.assume(s > 0)
        return s

    def _input(self, name, kind, mkz):
        e = core.eng()
        if name in e.inputs:
            return e.inputs[name][1], False
        z = mkz(name)
        e.inputs[name] = (kind, z)
        return z, True

    def real(self, name, lo=None, hi=None, pos=False, gen=None):
        z, new = self._input(name, 'real', z3.Real)
        s = Sym(z)
        return self._range(s, lo, hi, pos) if new else s

    def int(self, name, lo=None, hi=None, pos=False):
        z, new = self._input(name, 'int', z3.Int)
        s = Sym(z)
        return self._range(s, lo, hi, pos) if new else s

    def bool(self, name):
        z, new = self._input(name, 'bool', z3.Bool)
        return SBool(z)

    def func(self, name, n=1):
        z, new = self._input('fn_' + name, 'func', lambda nm: z3.Function(nm, *([z3.RealSort()] * (n + 1))))
        return lambda *a: Sym(z(*[core.zreal(x) for x in a]))

    def choice(self, name, options):
        e = core.eng()
        nm = 'choice_' + name
        if nm in e.chosen:
            return options[e.chosen[nm]]
        k = e.fork(len(options))
        e.chosen[nm] = k
        e.inputs[nm] = ('const', z3.IntVal(k))
        return options[k]

    def assume(self, c):
        e = core.eng()
        if isinstance(c, SBool):
            e.define(c.e)
            if z3.is_false(z3.simplify(c.e)):
                raise Infeasible()
        elif not c:
            raise Infeasible()

    def feasible(self):
        if not core.eng().feasible():
            raise Infeasible()

    def check(self, name, c, detail=''):
        e = core.eng()
        if isinstance(c, SBool):
            e.prove(name, c.e, detail)
        else:
            if isinstance(c, Sym):
                e.prove(name, c.e != 0, detail)
            else:
                e.prove(name, z3.BoolVal(bool(c)), detail)

    def cover(self, name='reach'):
        core.eng().cover(name)

    def unit(self, name, dim):
        """a unit vector"""
        e = core.eng()
        first = (name + '_0') not in e.inputs
        n = [self.real('%s_%d' % (name, i)) for i in range(dim)]
        if first:
            self.assume(self.eq(sum(x * x for x in n), 1))
            # n_last^2 reduces to 1 - (the others)^2 in the normaliser
            core.ring.DEFS_SQRT[n[-1].e.decl().name()] = z3.RealVal(1) - sum((x.e * x.e for x in n[1:-1]), n[0].e * n[0].e)
        return n

    # predicates
    def eq(self, a, b):
        if isinstance(a, (list, tuple)) or hasattr(a, 'shape') and getattr(a, 'shape') != ():
            a, b = list(a), list(b)
            if len(a) != len(b):
                return False
            return self.all([self.eq(x, y) for x, y in zip(a, b)])
        za, zb = core.zval(a), core.zval(b)
        if za is None or zb is None:
            return a == b
        x, y = core._coerce(za, zb)
        return SBool(x == y)

    def le(self, a, b):
        return SBool(core._coerce(core.zval(a), core.zval(b))[0] <= core._coerce(core.zval(a), core.zval(b))[1])

    def lt(self, a, b):
        return SBool(core._coerce(core.zval(a), core.zval(b))[0] < core._coerce(core.zval(a), core.zval(b))[1])

    def _b(self, c):
        return c.e if isinstance(c, SBool) else z3.BoolVal(bool(c))

    def all(self, cs):
        cs = list(cs)
        return SBool(z3.And(*[self._b(c) for c in cs])) if cs else True

    def any(self, cs):
        cs = list(cs)
        return SBool(z3.Or(*[self._b(c) for c in cs])) if cs else False

    def implies(self, a, b):
        return SBool(z3.Implies(self._b(a), self._b(b)))

    def not_(self, a):
        return SBool(z3.Not(self._b(a)))

    def iff(self, a, b):
        return SBool(self._b(a) == self._b(b))

    def ite(self, c, a, b):
        return core.ite(c, a, b)

    def max(self, *a): return core.max_(*a)
    def min(self, *a): return core.min_(*a)
    def abs(self, a): return abs(a)
    def sqrt(self, a): return core.sqrt(a)
    def pow(self, a, b): return core.power(a, b)

    def uf(self, name, *a): return core.uf(name, *a)

    def sign(self, x):
        """-1, 0 or 1: splits the path on the sign of x (equal expressions are split once; no solver involved)"""
        e = core.eng()
        z = core.zreal(x) if core.is_sym(x) else None
        if z is None:
            return (x > 0) - (x < 0)
        zs = z3.simplify(z)
        if z3.is_rational_value(zs):
            return (zs.numerator_as_long() > 0) - (zs.numerator_as_long() < 0)
        k, flip = core.ring.signkey(z)
        if k == '0':
            return 0
        tab = e.__dict__.setdefault('signs', {})
        if tab.get('run') is not e.chosen:
            tab.clear()
            tab['run'] = e.chosen
        if k not in tab:
            s = self.choice('sign%d' % len(tab), (1, -1, 0))
            tab[k] = s
            y = Sym(z) * flip
            self.assume(y > 0 if s > 0 else (y < 0 if s < 0 else self.eq(y, 0)))
        return tab[k] * flip

    def havoc_real(self, base='h'):
        return core.eng().fresh_real(base)

    def havoc_int(self, base='h'):
        return core.eng().fresh_int(base)


class ConV(V):
    """Concrete values: from a model (replay) or random (cross-check, bounded search)."""
    symbolic = False

    def __init__(self, values=None, rng=None, tier='quick', tol=1e-7):
        super().__init__(tier)
        self.values = values
        self.rng = rng or random.Random(1)
        self.used = {}
        self.n_checks = 0
        self.tol = tol

    def _get(self, name, gen, conv):
        if name in self.used:
            return self.used[name]
        if self.values is not None and name in self.values:
            x = conv(self.values[name])
        else:
            x = gen()
        self.used[name] = x
        return x

    def real(self, name, lo=None, hi=None, pos=False, gen=None):
        own = gen

        def gen():
            r = self.rng
            if own is not None:
                return own(r)
            l = lo if lo is not None else (0.0 if pos else None)
            if l is not None and hi is not None:
                k = r.random()
                return float(l) + (float(hi) - float(l)) * (r.random() if k < .8 or pos else round(r.random()))
            if l is not None:
                return float(l) + r.choice([r.random(), 10 * r.random(), 10.0 ** r.uniform(-3, 3)]) + (1e-3 if pos else 0)
            if hi is not None:
                return float(hi) - r.choice([r.random(), 10 * r.random()])
            return r.choice([r.uniform(-1, 1), r.uniform(-10, 10), r.uniform(-1, 1) * 10 ** r.uniform(-2, 3), float(r.randint(-3, 3))])
        x = self._get(name, gen, float)
        if (lo is not None and x < float(lo)) or (hi is not None and x > float(hi)) or (pos and x <= 0):
            raise Discard()
        return x

    def int(self, name, lo=None, hi=None, pos=False):
        def gen():
            l = lo if lo is not None else (1 if pos else (-5 if hi is None else hi - 10))
            h = hi if hi is not None else l + self.rng.choice([3, 12, 60])
            return self.rng.randint(l, h)
        x = self._get(name, gen, int)
        if (lo is not None and x < lo) or (hi is not None and x > hi) or (pos and x <= 0):
            raise Discard()
        return x

    def bool(self, name):
        return self._get(name, lambda: self.rng.random() < .5, bool)

    def unit(self, name, dim):
        n = [self._get('%s_%d' % (name, i), lambda: self.rng.gauss(0, 1), float) for i in range(dim)]
        m = math.sqrt(sum(x * x for x in n))
        if m < 1e-9:
            raise Discard()
        n = [x / m for x in n]
        for i in range(dim):
            self.used['%s_%d' % (name, i)] = n[i]
        return n

    def func(self, name, n=1):
        key = 'fn_' + name
        if key in self.used:
            return self.used[key]
        f = None
        if self.values is not None and key in self.values:
            val = self.values[key]
            f = val[1] if isinstance(val, (tuple, list)) else val
        if f is None:
            c = [self.rng.uniform(-1, 1) for _ in range(n)]
            d = [self.rng.uniform(-1, 1) for _ in range(n)]
            c0 = self.rng.uniform(-1, 1)

            def f(*a):
                return c0 + sum(ci * float(x) for ci, x in zip(c, a)) + sum(di * math.sin(float(x)) for di, x in zip(d, a))
        self.used[key] = f
        return f

    def choice(self, name, options):
        k = self.int('choice_' + name, 0, len(options) - 1)
        return options[k]

    def assume(self, c):
        if not c:
            raise Discard()

    def feasible(self):
        pass

    def check(self, name, c, detail=''):
        self.n_checks += 1
        if not c:
            raise CheckFailed(name, str(detail))

    def cover(self, name='reach'):
        pass

    def _t(self, a, b):
        return self.tol * (1 + abs(a) + abs(b))

    def eq(self, a, b):
        if isinstance(a, (list, tuple)) or hasattr(a, 'shape') and getattr(a, 'shape') != ():
            a, b = list(a), list(b)
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        try:
            fa, fb = float(a), float(b)
        except (TypeError, ValueError):
            return a == b
        if math.isinf(fa) or math.isinf(fb):
            return fa == fb
        return abs(fa - fb) <= self._t(fa, fb)

    def le(self, a, b):
        a, b = float(a), float(b)
        return a <= b + self._t(a, b)

    def lt(self, a, b):
        # strictness is not decided at float resolution
        return self.le(a, b)

    def all(self, cs): return all(bool(c) for c in list(cs))
    def any(self, cs): return any(bool(c) for c in cs)
    def implies(self, a, b): return (not a) or bool(b)
    def not_(self, a): return not a
    def iff(self, a, b): return bool(a) == bool(b)
    def ite(self, c, a, b): return a if c else b
    def max(self, *a): return max(*a)
    def min(self, *a): return min(*a)
    def abs(self, a): return abs(a)
    def sqrt(self, a): return math.sqrt(max(a, 0.0)) if a > -1e-9 else float('nan')
    def pow(self, a, b): return float(a) ** float(b)

    def uf(self, name, *a):
        return core._MATH[name](*[float(x) for x in a])

    def sign(self, x):
        return 0 if abs(x) < 1e-13 else (1 if x > 0 else -1)

    def havoc_real(self, base='h'):
        return self.rng.uniform(-5, 5)

    def havoc_int(self, base='h'):
        return self.rng.randint(0, 10)
