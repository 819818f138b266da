"""Algebraic contracts of the finite-element library used by the time integrators.

A function is a list of numbers (one per component; a number stands for a whole vector, since only linear combinations and the
operators below are applied), an operator (mass matrix, residual of the equation for one label) is an uninterpreted function of
the values it reads *when it is evaluated*.  A variational solver makes its unknown satisfy its form with the values at the time of
the call.  Works symbolically (exact) and on plain floats (replay, cross-check)."""
import numpy
from pyvc import core

LABELS = ('implicit', 'explicit', 'source', 'nonlinear')


class World:
    cur = None

    def __init__(self, v, labels=LABELS, linear_mass=True):
        World.cur = self
        self.v = v
        self.apps = []          # [name, args, value]
        self.index = {}
        self.labels = labels
        self.linear_mass = linear_mass
        self.mesh = 0
        self.cells = []
        self.log = []
        self.nfresh = 0

    # -- uninterpreted functions, one number per distinct argument list
    def apply(self, name, args):
        if self.v.symbolic:
            key = (name,) + tuple(core.ring.key(core.zreal(a)) if core.is_sym(a) else repr(core.ring.key(core.zreal(a))) for a in args)
            k = self.index.get(key)
        else:
            key = None
            k = next((i for i, (n, a, _) in enumerate(self.apps) if n == name and len(a) == len(args)
                      and all(abs(x - y) <= 1e-8 * (1 + abs(x)) for x, y in zip(a, args))), None)
        if k is None:
            k = len(self.apps)
            self.apps.append([name, list(args), self.v.real('app%d' % k)])
            if key is not None:
                self.index[key] = k
        return self.apps[k][2]

    def fresh(self, pos=False):
        self.nfresh += 1
        return self.v.real('x%d' % self.nfresh, pos=pos)

    def gram(self, i):
        return self.v.real('G%d_%d' % (self.mesh, i), pos=True)

    def massmat(self, i):
        return self.v.real('M%d_%d' % (self.mesh, i), pos=True)


class Space:
    def __init__(self, n=1, name='V'):
        self.n, self.name = n, name

    def __len__(self):
        return self.n

    def dual(self):
        return self

    def ufl_element(self):
        return 'elt'

    def mesh(self):
        return None


class Lin:
    """lazy expression; ev() gives the list of component values"""
    n = 1
    __array_ufunc__ = None

    def ev(self):
        raise NotImplementedError

    def __add__(self, o):
        if isinstance(o, numpy.ndarray):
            return NotImplemented
        if isinstance(o, (int, float)) and o == 0:
            return self
        return Op('+', self, o)

    def __radd__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return self
        return Op('+', o, self)

    def __sub__(self, o): return Op('-', self, o)
    def __rsub__(self, o): return Op('-', o, self)
    def __neg__(self): return Op('*', -1, self)

    def __mul__(self, o):
        if isinstance(o, numpy.ndarray):
            return numpy.array([self * x for x in o], dtype=object)
        if isinstance(o, Measure):
            return NotImplemented
        if isinstance(o, (int, float)) and o == 0:
            return 0
        return Op('*', self, o)

    def __rmul__(self, o):
        if isinstance(o, numpy.ndarray):
            return numpy.array([x * self for x in o], dtype=object)
        if isinstance(o, (int, float)) and o == 0:
            return 0
        return Op('*', o, self)

    def __truediv__(self, o): return Op('/', self, o)
    def __rtruediv__(self, o): return Op('/', o, self)


def value(x):
    return x.ev() if isinstance(x, Lin) else [x]


def bc(a, b):
    n = max(len(a), len(b))
    f = lambda x: x if len(x) == n else x * n
    return zip(f(a), f(b))


class Op(Lin):
    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b
        if op in '*/' and isinstance(b, Form) or isinstance(a, Form):
            raise TypeError('form in expression')

    def ev(self):
        f = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y}[self.op]
        return [f(x, y) for x, y in bc(value(self.a), value(self.b))]


class Cell(Lin):
    """Function / Cofunction"""
    def __init__(self, space, val=None, name=None, **kw):
        if isinstance(space, Cell):
            val, space = (space.val if val is None else val), space.space
        elif isinstance(val, Cell):
            val = val.val
        self.space, self._name = space, name
        self.val = list(val) if val is not None else [0] * len(space)
        World.cur.cells.append(self)

    def ev(self):
        return list(self.val)

    def assign(self, e):
        x = value(e)
        self.val = [y for y, _ in bc(x, self.val)]
        return self

    interpolate = project = assign

    def __iadd__(self, o):
        return self.assign(Op('+', self, o))

    def __isub__(self, o):
        return self.assign(Op('-', self, o))

    def __imul__(self, o):
        return self.assign(Op('*', self, o))

    def __itruediv__(self, o):
        return self.assign(Op('/', self, o))

    def copy(self, deepcopy=False):
        return Cell(self.space, list(self.val))

    def function_space(self):
        return self.space

    def name(self):
        return self._name

    def rename(self, *a):
        pass

    def zero(self):
        self.val = [0] * len(self.val)

    def __len__(self):
        return len(self.val)

    @property
    def subfunctions(self):
        if not hasattr(self, '_sub'):
            self._sub = tuple(SubCell(self, i) for i in range(len(self.space)))
        return self._sub

    def sub(self, i):
        return self.subfunctions[i]


class SubCell(Cell):
    """component of a mixed function: shares its storage"""
    def __init__(self, parent, i):
        self.parent, self.i, self.space = parent, i, Space(1, 'sub%d' % i)

    @property
    def val(self):
        return [self.parent.val[self.i]]

    @val.setter
    def val(self, x):
        self.parent.val[self.i] = x[0]


class Const(Lin):
    def __init__(self, x, *a, **k):
        self.x = x.x if isinstance(x, Const) else x

    def ev(self):
        return [self.x]

    def assign(self, x):
        self.x = x.x if isinstance(x, Const) else x
        return self

    def __float__(self):
        return float(self.x)


class Comp(Lin):
    def __init__(self, e, i):
        self.e, self.i = e, i

    def ev(self):
        return [value(self.e)[self.i]]


class Test:
    def __init__(self, space):
        self.space = space


class TestComp:
    def __init__(self, space, i):
        self.space, self.i = space, i


class Trial(Lin):
    sub = None

    def __init__(self, space):
        self.space = space

    def ev(self):
        return Trial.sub


def split(x):
    if isinstance(x, Test):
        return tuple(TestComp(x.space, i) for i in range(len(x.space)))
    return tuple(Comp(x, i) for i in range(len(x.space)))


class Measure:
    def __call__(self, *a, **k):
        return self

    def __rmul__(self, o):
        if isinstance(o, Integrand):
            return Form(o.ev, o.n)
        return NotImplemented


dx = Measure()


class Integrand:
    __array_ufunc__ = None

    def __init__(self, ev, n):
        self.ev, self.n = ev, n

    def __mul__(self, o):
        if isinstance(o, Measure):
            return NotImplemented
        return Integrand(lambda: [a * b for a, b in bc(self.ev(), value(o))], self.n)

    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def __add__(self, o):
        return Integrand(lambda: [a + b for a, b in zip(self.ev(), o.ev())], self.n)

    def __sub__(self, o):
        return self + (-o)


def inner(a, b):
    if isinstance(a, (Test, TestComp)):
        a, b = b, a
    n = len(b.space)
    W = World.cur

    def ev():
        x = value(a)
        if isinstance(b, Test):
            return [W.gram(i) * y for i, (y, _) in enumerate(bc(x, [0] * n))]
        r = [0] * n
        r[b.i] = W.gram(b.i) * x[0]
        return r
    return Integrand(ev, n)


class Form:
    __array_ufunc__ = None

    def __init__(self, ev, n):
        self.ev, self.n = ev, n

    def __add__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return self
        return Form(lambda: [a + b for a, b in zip(self.ev(), o.ev())], self.n)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return self
        return Form(lambda: [a - b for a, b in zip(self.ev(), o.ev())], self.n)

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return Form(lambda: [-a for a in self.ev()], self.n)

    def __mul__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return 0
        return Form(lambda: [a * b for a, b in bc(self.ev(), value(o))], self.n)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return Form(lambda: [a / b for a, b in bc(self.ev(), value(o))], self.n)

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    __hash__ = object.__hash__


# scalar-expression times form
for _c in (Lin,):
    def _mul(self, o, _old=Lin.__mul__):
        if isinstance(o, (Form, Integrand)):
            return o * self
        return _old(self, o)
    _c.__mul__ = _mul


class Mat:
    def __init__(self, d):
        self.d = d


def is_bilinear(form):
    Trial.sub = None
    try:
        form.ev()
        return False
    except TypeError:
        return True


def matrix(form):
    n = form.n
    Trial.sub = [1] * n
    a1 = form.ev()
    Trial.sub = [0] * n
    a0 = form.ev()
    Trial.sub = None
    return [x - y for x, y in zip(a1, a0)]


def assemble(form, tensor=None, **k):
    if is_bilinear(form):
        d = matrix(form)
        if tensor is None:
            return Mat(d)
        tensor.d = d
        return tensor
    x = form.ev()
    if tensor is None:
        return Cell(Space(form.n), x)
    tensor.val = list(x)
    return tensor


class LinearSolver:
    def __init__(self, A, **k):
        self.A = A

    def solve(self, x, b):
        x.val = [p / q for p, q in zip(value(b), self.A.d)]


class Problem:
    def __init__(self, *a, **k):
        self.a = a


class LinearVariationalSolver:
    def __init__(self, prob, *a, **k):
        self.prob = prob

    def solve(self):
        A, L, u = self.prob.a[:3]
        u.val = [x / d for x, d in zip(L.ev(), matrix(A))]


class NonlinearVariationalSolver:
    def __init__(self, prob, *a, **k):
        self.prob = prob

    def solve(self):
        solve_form(*self.prob.a[:2])


def iszero(e):
    W = World.cur
    if W.v.symbolic:
        return core.is_sym(e) and core.ring.signkey(core.zreal(e))[0] == '0' or (not core.is_sym(e) and e == 0)
    return abs(e) < 1e-11


def solve_form(F, u):
    """the unknown becomes a number for which the form vanishes: the value of one operator at the new argument is fixed by the equation
    (any value is possible, operators being arbitrary), or, when no operator reads the unknown, the equation is affine and solved"""
    W = World.cur
    n = len(u.val)
    n0 = len(W.apps)
    x = [W.fresh() for _ in range(n)]
    u.val = list(x)
    F.ev()
    new = list(range(n0, len(W.apps)))
    for i in range(n):
        done = False
        for k in new:
            keep = W.apps[k][2]
            W.apps[k][2] = 0
            f0 = F.ev()
            W.apps[k][2] = 1
            f1 = F.ev()
            d = [q - p for p, q in zip(f0, f1)]
            if not iszero(d[i]) and all(iszero(d[j]) for j in range(n) if j != i):
                W.apps[k][2] = -f0[i] / d[i]
                new.remove(k)
                done = True
                break
            W.apps[k][2] = keep
        if not done:
            y = u.val[i]
            u.val[i] = 0
            f0 = F.ev()
            u.val[i] = 1
            f1 = F.ev()
            d = f1[i] - f0[i]
            if iszero(d):
                raise core.Unsupported('singular form')
            u.val[i] = -f0[i] / d


class Term:
    def __init__(self, eq, key, comp=None):
        self.eq, self.key = eq, key

    def residual(self, uv, eta, uv_old, eta_old, fields, fields_old, bnd):
        # a term of the mixed equation tested with its velocity test function
        W = World.cur
        n = len(self.eq.function_space)

        def ev():
            args = []
            for u in (uv, eta, uv_old, eta_old):
                args += value(u)
            args += fieldvals(fields) + fieldvals(fields_old) + bndvals(bnd)
            return [W.apply('term_' + self.key, args)] + [0] * (n - 1)
        return Form(ev, n)


def fieldvals(f):
    r = []
    for k in sorted(f):
        x = f[k]
        if x is not None:
            r += value(x)
    return r


def bndvals(b):
    r = []
    for k in sorted(b):
        r += value(b[k])
    return r


class Equation:
    """contract of an equation: mass_term linear in (or an arbitrary function of) its argument, residual an arbitrary function per label"""
    def __init__(self, n=1, nonlinear_mass=False, name='eq', have=LABELS):
        self.function_space = Space(n)
        self.test, self.trial = Test(self.function_space), Trial(self.function_space)
        self.name, self.nonlinear_mass, self.have = name, nonlinear_mass, have
        self.terms, self.labels = {}, {}

    def mass_term(self, u):
        W, n = World.cur, len(self.function_space)

        def ev():
            x = value(u) if not isinstance(u, (list, tuple)) else [value(c)[0] for c in u]
            if self.nonlinear_mass:
                return [W.apply('%s_mass%d_%d' % (self.name, W.mesh, i), x) for i in range(n)]
            return [W.massmat(i) * x[i] for i in range(n)]
        return Form(ev, n)

    def labelset(self, labels):
        if labels == 'all':
            return [l for l in LABELS if l in self.have]
        if isinstance(labels, str):
            labels = (labels,)
        for l in labels:
            assert l in LABELS, 'bad label %r' % (l,)
        return [l for l in LABELS if l in labels and l in self.have]

    def residual(self, labels, u, u_nl, fields, fields_old, bnd):
        W, n = World.cur, len(self.function_space)
        ls = self.labelset(labels)
        if not ls:
            return 0

        def ev():
            return self.value(ls, vals(u), vals(u_nl), fieldvals(fields), fieldvals(fields_old), bndvals(bnd))
        return Form(ev, n)

    def value(self, ls, u, u_nl, f, f_old, bnd):
        W = World.cur
        return [sum_([W.apply('%s_%s%d_%d' % (self.name, l, W.mesh, i), u + u_nl + f + f_old + bnd) for l in ls]) for i in range(len(self.function_space))]


def sum_(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r + x
    return r


def vals(u):
    if isinstance(u, (list, tuple)):
        return [value(c)[0] for c in u]
    return value(u)


class Opt(dict):
    """time-integrator options: attribute access"""
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)


def install(v, *mods):
    """put the contracts in place of the library names in the modules under contract"""
    table = dict(Function=Cell, Cofunction=Cell, Constant=Const, split=split, inner=inner, dx=dx, assemble=assemble, LinearSolver=LinearSolver,
                 LinearVariationalProblem=Problem, NonlinearVariationalProblem=Problem, LinearVariationalSolver=LinearVariationalSolver,
                 NonlinearVariationalSolver=NonlinearVariationalSolver, derivative=lambda *a: None)
    for m in mods:
        for k, x in table.items():
            if k in m.__dict__:
                v.patch(m, k, x)
