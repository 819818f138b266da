"""Meaning of UFL integrands over the reals: every coefficient value, gradient component and facet side is one real symbol.

Trusted: UFL's own lowering passes (apply_algebra_lowering, apply_derivatives), which are also what the form compiler uses."""
import ufl
from ufl.algorithms.apply_algebra_lowering import apply_algebra_lowering
from ufl.algorithms.apply_derivatives import apply_derivatives
from ufl.classes import (Coefficient, Argument, Constant as UConstant, Zero, ScalarValue, Identity, FacetNormal, SpatialCoordinate,
                         CellVolume, FacetArea, Circumradius, CellDiameter, Sum, Product, Division, Power, Abs, MinValue, MaxValue,
                         MathFunction, Conditional, Condition, Indexed, IndexSum, ComponentTensor, ListTensor, Grad, Restricted,
                         Variable, PermutationSymbol, GeometricQuantity)
from . import core
from .core import Unsupported


class Field:
    """Symbolic interpretation of one coefficient/argument."""
    def __init__(self, name, kinds='dg', pos=False, lo=None, hi=None, value=None, deriv=None):
        self.name, self.kinds, self.pos, self.lo, self.hi, self.value, self.deriv = name, kinds, pos, lo, hi, value, deriv

    def kind(self, i):
        return self.kinds if isinstance(self.kinds, str) else self.kinds[i]

    def get(self, env, comp, derivs, r):
        v = env.v
        i = comp[-1] if comp else 0
        k = self.kind(i)
        if derivs and k in ('const', 'real'):
            return 0
        if derivs and self.deriv is not None:
            return self.deriv(comp, derivs, r)
        if not derivs and self.value is not None:
            return self.value(comp, r)
        if derivs and self.value is not None and self.deriv is None:
            return 0
        nm = self.name
        if comp:
            nm += ''.join('_%d' % c for c in comp)
        if derivs:
            nm += '_d' + ''.join('xyz'[d] for d in sorted(derivs))
        if r and (k in ('dg', 'hdiv') or derivs):
            nm += {'+': 'P', '-': 'M'}[r]
        if derivs:
            return v.real(nm)
        pos = self.pos if isinstance(self.pos, bool) else self.pos[i]
        return v.real(nm, pos=pos, lo=self.lo, hi=self.hi)


class Env:
    def __init__(self, v, gdim, vertical=False):
        self.v, self.gdim = v, gdim
        self.fields = {}
        self.geo = {}
        self.normal_kind = 'facet'
        self.nz = None           # prescribed normal components (list) or None
        self.auto = True
        self.sub, self.used = {}, set()      # values that stand for (already checked) sub-expressions, and those that were met
        self.domain = None       # list: collects the arguments (denominators, roots, logarithms) that must lie in the domain of their operation
        self.fork = getattr(v, 'fork', False)        # split paths on the signs of conditions instead of building if-then-else terms

    def set(self, c, name=None, kinds='dg', **kw):
        self.fields[c] = Field(name or c.name(), kinds, **kw)
        return self.fields[c]

    def const(self, c, val):
        """interpret c as the given constant value(s), zero derivative"""
        def value(comp, r):
            x = val
            for i in comp:
                x = x[i]
            return x
        self.fields[c] = Field('const', 'const', value=value)

    def normal(self, i, r):
        if self.nz is not None:
            n = self.nz
        else:
            n = self.v.unit('n', self.gdim)
            self.nz = n
        return -n[i] if r == '-' else n[i]

    def terminal(self, e, comp, derivs, r):
        if e in self.fields:
            return self.fields[e].get(self, comp, derivs, r)
        if isinstance(e, FacetNormal):
            if derivs:
                return 0
            return self.normal(comp[0], r)
        if isinstance(e, SpatialCoordinate):
            if derivs:
                return 1 if derivs == (comp[0],) else 0
            return self.v.real('x_%d' % comp[0])
        if isinstance(e, GeometricQuantity):
            if derivs:
                return 0
            nm = type(e).__name__
            if nm in ('FacetArea', 'MinFacetEdgeLength', 'MaxFacetEdgeLength'):
                r = None
            if nm == 'CellNormal':
                return self.v.real('cellnormal_%d' % comp[0])
            return self.v.real('geo_%s%s' % (nm, {'+': 'P', '-': 'M', None: ''}[r]), pos=True)
        if isinstance(e, UConstant) or type(e).__name__ == 'Constant':
            # a Firedrake Constant without a label keeps its actual value
            if derivs:
                return 0
            import numpy
            d = numpy.asarray(e.dat.data_ro) if hasattr(e, 'dat') else numpy.asarray(e.values())
            x = d.reshape(e.ufl_shape)[comp] if e.ufl_shape else d.reshape(-1)[0]
            return core._frac(float(x)) if self.v.symbolic else float(x)
        if isinstance(e, Coefficient) and self.auto:
            cg = False
            el = e.ufl_element()
            try:
                from thetis.utility import element_continuity
                cg = element_continuity(el).horizontal == 'cg'
            except Exception:
                pass
            if el.family() == 'Real':
                self.set(e, e.name(), 'const')
            else:
                self.set(e, e.name(), 'cg' if cg else 'dg')
            return self.fields[e].get(self, comp, derivs, r)
        raise Unsupported('no meaning for %r' % (e,))


def lower(expr):
    e = apply_algebra_lowering(expr)
    e = apply_derivatives(e)
    e = apply_algebra_lowering(e)
    return apply_derivatives(e)


class Ev:
    def __init__(self, env):
        self.env = env
        self.cache = {}

    def __call__(self, expr, comp=(), r=None):
        return self.ev(lower(expr), comp, {}, r)

    def ev(self, e, comp, idx, r):
        key = (e, comp, r, tuple(sorted((i.count(), idx[i]) for i in idx if True)))
        c = self.cache.get(key)
        if c is None:
            c = self._ev(e, comp, idx, r)
            self.cache[key] = c
        return c

    def _mi(self, mi, idx):
        return tuple(idx[i] if isinstance(i, ufl.core.multiindex.Index) else int(i) for i in mi)

    def _ev(self, e, comp, idx, r):
        if e in self.env.sub and not idx and not comp:
            self.env.used.add(e)
            return self.env.sub[e]
        ops = e.ufl_operands
        t = type(e)
        if isinstance(e, Zero):
            return 0
        if isinstance(e, ScalarValue):
            x = e.value()
            if isinstance(x, int):
                return x
            return core._frac(x) if self.env.v.symbolic else float(x)
        if isinstance(e, Sum):
            return self.ev(ops[0], comp, idx, r) + self.ev(ops[1], comp, idx, r)
        if isinstance(e, Product):
            a = self.ev(ops[0], (), idx, r)
            if isinstance(a, (int, float)) and a == 0 and not isinstance(a, bool):
                return 0
            b = self.ev(ops[1], (), idx, r)
            return a * b
        if isinstance(e, Division):
            a, b = self.ev(ops[0], (), idx, r), self.ev(ops[1], (), idx, r)
            return self._div(a, b)
        if isinstance(e, Power):
            a, b = self.ev(ops[0], (), idx, r), self.ev(ops[1], (), idx, r)
            return self._pow(a, b)
        if isinstance(e, Abs):
            return abs(self.ev(ops[0], comp, idx, r))
        if isinstance(e, MinValue):
            a, b = self.ev(ops[0], (), idx, r), self.ev(ops[1], (), idx, r)
            if self.env.fork:
                return a if self.env.v.sign(a - b) <= 0 else b
            return self.env.v.min(a, b)
        if isinstance(e, MaxValue):
            return self.env.v.max(self.ev(ops[0], (), idx, r), self.ev(ops[1], (), idx, r))
        if isinstance(e, Indexed):
            return self.ev(ops[0], self._mi(ops[1], idx), idx, r)
        if isinstance(e, ListTensor):
            return self.ev(ops[comp[0]], comp[1:], idx, r)
        if isinstance(e, ComponentTensor):
            d = dict(idx)
            for k, i in enumerate(ops[1]):
                d[i] = comp[k]
            return self.ev(ops[0], comp[len(ops[1]):], self._need(ops[0], d), r)
        if isinstance(e, IndexSum):
            i = ops[1][0]
            tot = 0
            for k in range(e.dimension()):
                d = dict(idx)
                d[i] = k
                tot = tot + self.ev(ops[0], comp, self._need(ops[0], d), r)
            return tot
        if isinstance(e, Restricted):
            return self.ev(ops[0], comp, idx, e._side)
        if isinstance(e, Variable):
            return self.ev(ops[0], comp, idx, r)
        if isinstance(e, Identity):
            return 1 if comp[0] == comp[1] else 0
        if isinstance(e, PermutationSymbol):
            a = list(comp)
            if len(set(a)) < len(a):
                return 0
            s = 1
            for i in range(len(a)):
                for j in range(i):
                    if a[j] > a[i]:
                        s = -s
            return s
        if isinstance(e, Grad):
            derivs = []
            x = e
            c = comp
            while isinstance(x, Grad):
                derivs.append(c[-1])
                c = c[:-1]
                x = x.ufl_operands[0]
            while isinstance(x, (Restricted,)):
                r = x._side
                x = x.ufl_operands[0]
            return self.env.terminal(x, c, tuple(sorted(derivs)), r)
        if isinstance(e, Conditional):
            c = self.cond(ops[0], idx, r)
            if c is True:
                return self.ev(ops[1], comp, idx, r)
            if c is False:
                return self.ev(ops[2], comp, idx, r)
            return self.env.v.ite(c, self.ev(ops[1], comp, idx, r), self.ev(ops[2], comp, idx, r))
        if isinstance(e, MathFunction):
            a = self.ev(ops[0], (), idx, r)
            nm = e._name
            if self.env.domain is not None and nm in ('sqrt', 'ln'):
                self.env.domain.append((nm, a))
            if nm == 'sqrt':
                return self.env.v.sqrt(a)
            nm = {'ln': 'log'}.get(nm, nm)
            x = self.env.v.uf(nm, a)
            return core._frac(x) if self.env.v.symbolic and isinstance(x, float) else x
        if t.__name__ in ('Conj', 'Real'):
            return self.ev(ops[0], comp, idx, r)
        if t.__name__ == 'Atan2':
            return self.env.v.uf('atan2', self.ev(ops[0], (), idx, r), self.ev(ops[1], (), idx, r))
        if t.__name__ == 'Interpolate':
            return self.ev(ops[-1] if len(ops) else e.expr, comp, idx, r)
        if e._ufl_is_terminal_:
            return self.env.terminal(e, comp, (), r)
        if t.__name__ in ('CellAvg', 'FacetAvg'):
            return self.env.v.real('avg_' + str(hash(str(ops[0])) % 10**8))
        raise Unsupported('UFL node %s' % t.__name__)

    def _need(self, e, d):
        # keep only the indices free in e (better sharing)
        fi = set(e.ufl_free_indices)
        return {i: k for i, k in d.items() if i.count() in fi}

    def _div(self, a, b):
        if self.env.domain is not None:
            self.env.domain.append(('div', b))
        if core.is_sym(a) or core.is_sym(b):
            if not core.is_sym(b):
                from fractions import Fraction
                f = core._frac(b)
                return a * Fraction(1, 1) / f if False else a * (1 / f)
            return core.Sym(core.zreal(a) / core.zreal(b))
        from fractions import Fraction
        if isinstance(a, int) and isinstance(b, int):
            return Fraction(a, b)
        return a / b

    def _pow(self, a, b):
        if self.env.domain is not None:
            if core.is_sym(b) or isinstance(b, float) and b != int(b):
                self.env.domain.append(('pow', a))
            elif not core.is_sym(b) and b < 0:
                self.env.domain.append(('div', a))
        if core.is_sym(b) or core.is_sym(a):
            if not core.is_sym(b) and not isinstance(b, int):
                f = core._frac(b) if not hasattr(b, 'numerator') else core._frac(b)
                for d in (1, 2, 3, 6):
                    n = f * d
                    if abs(n - round(n)) < 1e-12:
                        from fractions import Fraction
                        f = Fraction(round(n), d)
                        break
                b = f
            old = core.ENG.python_division if core.ENG else None
            if core.ENG:
                core.ENG.python_division = False
            try:
                return core.power(a, b)
            finally:
                if core.ENG:
                    core.ENG.python_division = old
        return float(a) ** float(b) if not isinstance(b, int) else a ** b

    def cond(self, c, idx, r):
        nm = type(c).__name__
        ops = c.ufl_operands
        v = self.env.v
        if nm == 'AndCondition':
            if self.env.fork:
                return self.cond(ops[0], idx, r) and self.cond(ops[1], idx, r)
            return v.all([self.cond(ops[0], idx, r), self.cond(ops[1], idx, r)])
        if nm == 'OrCondition':
            if self.env.fork:
                return self.cond(ops[0], idx, r) or self.cond(ops[1], idx, r)
            return v.any([self.cond(ops[0], idx, r), self.cond(ops[1], idx, r)])
        if nm == 'NotCondition':
            return not self.cond(ops[0], idx, r) if self.env.fork else v.not_(self.cond(ops[0], idx, r))
        a, b = self.ev(ops[0], (), idx, r), self.ev(ops[1], (), idx, r)
        if self.env.fork and nm in ('GT', 'LT', 'GE', 'LE', 'EQ', 'NE'):
            s = v.sign(a - b)
            return {'GT': s > 0, 'LT': s < 0, 'GE': s >= 0, 'LE': s <= 0, 'EQ': s == 0, 'NE': s != 0}[nm]
        return {'GT': lambda: a > b, 'LT': lambda: a < b, 'GE': lambda: a >= b, 'LE': lambda: a <= b, 'EQ': lambda: a == b,
                'NE': lambda: a != b}[nm]()


def integrals(form, env):
    """{(integral_type, subdomain_id): value of the integrand}"""
    out = {}
    if form is None or isinstance(form, (int, float)):
        if form:
            raise Unsupported('constant form')
        return out
    if type(form).__name__ == 'ZeroBaseForm':
        return out
    ev = Ev(env)
    f = lower(form)
    for it in f.integrals():
        sd = it.subdomain_id()
        for s in (sd if isinstance(sd, tuple) else (sd,)):
            k = (it.integral_type(), s)
            val = ev.ev(it.integrand(), (), {}, None)
            out[k] = out[k] + val if k in out else val
    return out


def total(ints, typ):
    """sum of all integrands of one measure type present everywhere"""
    return sum((x for k, x in ints.items() if k[0] == typ), 0)


def evaluate(expr, env, r=None):
    if isinstance(expr, (int, float)):
        return core._frac(expr) if env.v.symbolic and isinstance(expr, float) else expr
    ev = Ev(env)
    e = lower(expr)
    if e.ufl_shape == ():
        return ev.ev(e, (), {}, r)
    import itertools
    sh = e.ufl_shape
    if len(sh) == 1:
        return [ev.ev(e, (i,), {}, r) for i in range(sh[0])]
    return [[ev.ev(e, (i, j), {}, r) for j in range(sh[1])] for i in range(sh[0])]
