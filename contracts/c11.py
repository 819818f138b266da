"""C11 Runge-Kutta tableaux and the Shu-Osher transformation."""
from fractions import Fraction
import math
import numpy
import numpy.linalg
import thetis.rungekutta as rk
import thetis.implicitexplicit as imex
import thetis.timeintegrator as ti
from pyvc import core
from pyvc.contract import contract

ASSUMPTIONS = [
    'numpy.linalg.inv is replaced by its contract (exact inverse of the triangular matrix) and the rounding chop |x| < 1e-13 of butcher_to_shuosher_form is dropped in the symbolic run',
    'tableau entries are the exact rationals of the stored floats; identities between them are decided up to 1e-9',
    'only the explicit strong-stability-preserving schemes carry a CFL coefficient with that meaning; the coefficients of the (I)mplicit schemes and of the midpoint rule are not compared',
]
R = 'thetis.rungekutta:'
TOL = Fraction(1, 10**9)

# scheme: (kind, order, L-stable)
SCHEMES = {
    'ForwardEulerAbstract': ('e', 1, False), 'BackwardEulerAbstract': ('d', 1, True), 'ImplicitMidpointAbstract': ('d', 2, False),
    'CrankNicolsonAbstract': ('es', 2, False), 'DIRK22Abstract': ('d', 2, True), 'DIRK23Abstract': ('d', 3, False), 'DIRK33Abstract': ('d', 3, True),
    'DIRK43Abstract': ('d', 3, True), 'DIRKLSPUM2Abstract': ('d', 2, True), 'DIRKLPUM2Abstract': ('d', 2, True), 'SSPRK33Abstract': ('e', 3, False),
    'ERKLSPUM2Abstract': ('e', 2, False), 'ERKLPUM2Abstract': ('e', 2, False), 'ERKMidpointAbstract': ('e', 2, False),
    'ESDIRKMidpointAbstract': ('es', 2, False), 'ESDIRKTrapezoidAbstract': ('es', 2, False),
}
SSP = ('ForwardEulerAbstract', 'SSPRK33Abstract', 'ERKLSPUM2Abstract', 'ERKLPUM2Abstract')


def offered():
    """every concrete scheme: the table above plus whatever the module defines now"""
    names = [n for n, c in vars(rk).items() if isinstance(c, type) and issubclass(c, rk.AbstractRKScheme)
             and not getattr(c, '__abstractmethods__', None) and not issubclass(c, ti.TimeIntegrator)]
    return sorted(set(names) | set(SCHEMES))


NAMES = offered()


class Exact:
    """the tableau the scheme hands to the integrators, as exact rationals (both as declared and as stored by __init__)"""
    def __init__(self, cls):
        inst = cls()
        self.inst = inst
        F = lambda x: Fraction(float(x))
        self.a = [[F(x) for x in row] for row in inst.a]
        self.b = [F(x) for x in inst.b]
        self.c = [F(x) for x in inst.c]
        self.n = len(self.b)
        self.cfl = inst.cfl_coeff


def near(x, y=0):
    return abs(x - y) <= TOL


def inverse(M):
    n = len(M)
    A = [list(r) + [type(r[0])(i == j) for j in range(n)] for i, r in enumerate(M)]
    for i in range(n):
        p = next(r for r in range(i, n) if A[r][i] != 0)
        A[i], A[p] = A[p], A[i]
        q = A[i][i]
        A[i] = [x / q for x in A[i]]
        for r in range(n):
            if r != i and A[r][i] != 0:
                f = A[r][i]
                A[r] = [x - f * y for x, y in zip(A[r], A[i])]
    return [r[n:] for r in A]


def dot(p, q):
    return sum((x * y for x, y in zip(p, q)), Fraction(0))


@contract('C11', [R + n for n in sorted(SCHEMES)] + [R + 'AbstractRKScheme.__init__'], name='tableau', samples=40)
def tableau(v):
    """class invariant of every scheme: structure, consistency, order, stability"""
    name = v.choice('scheme', NAMES)
    cls = getattr(rk, name)
    t = Exact(cls)
    a, b, c, n = t.a, t.b, t.c, t.n
    kind, order, lstable = SCHEMES.get(name, (None, 1, False))
    v.check('%s: square' % name, len(a) == n and all(len(r) == n for r in a) and len(c) == n and t.inst.n_stages == n)
    v.check('%s: no stage uses a later one' % name, all(a[i][j] == 0 for i in range(n) for j in range(i + 1, n)))
    if kind == 'e':
        v.check('%s: explicit' % name, all(a[i][i] == 0 for i in range(n)))
    if kind == 'd':
        v.check('%s: every stage is implicit with positive coefficient' % name, all(a[i][i] > 0 for i in range(n)))
    if kind == 'es':
        v.check('%s: first stage explicit, others not' % name, a[0][0] == 0 and all(a[i][i] > 0 for i in range(1, n)))
    v.check('%s: row sums are the abscissae' % name, all(near(sum(a[i]), c[i]) for i in range(n)))
    v.check('%s: weights sum to one' % name, near(sum(b), 1))
    v.check('%s: flags' % name, bool(t.inst.is_implicit) == any(a[i][i] != 0 for i in range(n)) and bool(t.inst.is_dirk) == all(a[i][i] != 0 for i in range(n)))
    cs = [sum(r) for r in a]
    if order >= 2:
        v.check('%s: second order' % name, near(dot(b, cs), Fraction(1, 2)))
    if order >= 3:
        v.check('%s: third order, quadrature' % name, near(dot(b, [x * x for x in cs]), Fraction(1, 3)))
        v.check('%s: third order, coupling' % name, near(dot(b, [dot(r, cs) for r in a]), Fraction(1, 6)))
    if kind in ('d', 'es') and t.cfl == ti.CFL_UNCONDITIONALLY_STABLE or lstable:
        # A-stability: |P(iy)| <= |Q(iy)| for R = P/Q; checked on the polynomial E(y) = |Q|^2 - |P|^2 >= 0 (coefficients even in y)
        P, Q = stability(a, b)
        E = [q - p for p, q in zip(modsq(P, n), modsq(Q, n))]
        v.check('%s: stable on the imaginary axis' % name, nonneg(E))
    if lstable:
        x = inverse(a)
        v.check('%s: stiff modes are damped out' % name, near(1 - sum(b[i] * sum(x[i]) for i in range(n))))
    if name in SSP:
        r = Fraction(t.cfl)
        K = [list(row) + [Fraction(0)] for row in a] + [list(b) + [Fraction(0)]]
        M = inverse([[(i == j) + r * K[i][j] for j in range(n + 1)] for i in range(n + 1)])
        rKM = [[r * sum(K[i][k] * M[k][j] for k in range(n + 1)) for j in range(n + 1)] for i in range(n + 1)]
        v.check('%s: CFL coefficient at most the SSP coefficient' % name,
                all(x >= -TOL for row in rKM for x in row) and all(sum(row) >= -TOL for row in M))
    v.cover()


def stability(a, b):
    """R(z) = P(z)/Q(z): Q = det(I - zA) (triangular), P = det(I - zA + z e b^T)"""
    n = len(b)
    Q = [Fraction(1)]
    for i in range(n):
        Q = pmul(Q, [Fraction(1), -a[i][i]])
    M = [[[Fraction(int(i == j)), -a[i][j] + b[j]] for j in range(n)] for i in range(n)]
    return det(M), Q


def pmul(p, q):
    r = [Fraction(0)] * (len(p) + len(q) - 1)
    for i, x in enumerate(p):
        for j, y in enumerate(q):
            r[i + j] += x * y
    return r


def padd(p, q, s=1):
    m = max(len(p), len(q))
    return [(p[i] if i < len(p) else 0) + s * (q[i] if i < len(q) else 0) for i in range(m)]


def det(M):
    if len(M) == 1:
        return M[0][0]
    r = [Fraction(0)]
    for j in range(len(M)):
        minor = [row[:j] + row[j + 1:] for row in M[1:]]
        r = padd(r, pmul(M[0][j], det(minor)), 1 if j % 2 == 0 else -1)
    return r


def modsq(p, n):
    """coefficients of |p(iy)|^2 in y^2"""
    p = list(p) + [Fraction(0)] * (n + 1 - len(p))
    re = [p[k] * (-1) ** (k // 2) if k % 2 == 0 else Fraction(0) for k in range(n + 1)]
    im = [p[k] * (-1) ** (k // 2) if k % 2 else Fraction(0) for k in range(n + 1)]
    s = padd(pmul(re, re), pmul(im, im))
    return s[::2]


def nonneg(E):
    """the polynomial sum E_k x^k is non-negative for x >= 0 (up to rounding of the tableau), by a Sturm-free bound: exact sign check
    of all coefficients, else dense subdivision certificates"""
    E = [Fraction(0) if abs(e) < TOL else e for e in E]
    while E and E[-1] == 0:
        E.pop()
    if not E:
        return True
    if all(e >= 0 for e in E):
        return True
    if E[-1] < 0:
        return False
    import sympy
    x = sympy.Symbol('x')
    p = sympy.Poly(sum(sympy.Rational(e.numerator, e.denominator) * x**k for k, e in enumerate(E)), x)
    roots = [r for r in p.real_roots() if r > 0]
    return all(p.eval(sympy.Rational(m)) >= 0 for m in _mid(roots))


def _mid(roots):
    pts = [0] + [float(r) for r in sorted(set(roots))]
    return [(p + q) / 2 for p, q in zip(pts, pts[1:])] + [pts[-1] + 1]


@contract('C11', ['thetis.implicitexplicit:' + n for n in ('IMEXLPUM2', 'IMEXLSPUM2', 'IMEXMidpoint', 'IMEXEuler')], name='pairs', samples=10)
def pairs(v):
    """schemes used together: same number of stages, same weights, and the coupling conditions of their common order"""
    names = sorted(n for n, c in vars(imex).items() if isinstance(c, type) and issubclass(c, imex.IMEXGeneric) and c is not imex.IMEXGeneric)
    name = v.choice('pair', names)
    cls = getattr(imex, name)
    find = lambda k: next(getattr(rk, m.__name__) for m in k.__mro__ if m.__name__ in SCHEMES)
    ea, da = find(cls.erk_class), find(cls.dirk_class)
    e, d = Exact(ea), Exact(da)
    v.check('%s: explicit part explicit, implicit part implicit' % name, not any(e.a[i][i] for i in range(e.n)) and any(d.a[i][i] for i in range(d.n)))
    v.check('%s: same number of stages' % name, e.n == d.n)
    v.check('%s: same weights' % name, all(near(x, y) for x, y in zip(e.b, d.b)))
    if min(SCHEMES[ea.__name__][1], SCHEMES[da.__name__][1]) >= 2:
        v.check('%s: coupling conditions' % name, near(dot(e.b, d.c), Fraction(1, 2)) and near(dot(d.b, e.c), Fraction(1, 2)))
    v.cover()


@contract('C11', [R + 'AbstractRKScheme.__init__', R + 'butcher_to_shuosher_form'], name='stored', samples=20)
def stored(v):
    """the Shu-Osher coefficients a scheme object carries reproduce its own tableau (every scheme that gets them)"""
    name = v.choice('scheme', NAMES)
    t = Exact(getattr(rk, name))
    if not hasattr(t.inst, 'alpha'):
        v.check('%s: only mixed schemes go without' % name, any(t.a[i][i] for i in range(t.n)) and not all(t.a[i][i] for i in range(t.n)))
        v.cover()
        return
    F = lambda m: [[Fraction(float(x)) for x in r] for r in m]
    shu_osher(v, name + ': ', t.a, t.b, F(t.inst.alpha), F(t.inst.beta), any(t.a[i][i] for i in range(t.n)), lambda x, y: near(x, y))
    v.cover()


def shu_osher(v, pre, a, b, alpha, beta, implicit, eq):
    """running the Shu-Osher recursion gives stage values u0 + dt sum a_ij k_j and the final value u0 + dt sum b_j k_j"""
    n = len(b)
    zero = [0] * n
    unit = lambda j: [1 if i == j else 0 for i in range(n)]
    rows = [list(r) for r in a] + [list(b)]
    off = 1 if implicit else 0
    # stage values as (coefficient of u0, coefficients of dt k_j).  explicit: column j of alpha/beta is stage j, row i+1 is stage i+1;
    # implicit: column 0 is the start value, column j+1 stage j, row i stage i
    if implicit:
        st = [(1, zero)] + [None] * n
        for i in range(n + 1):
            r0, rk_ = 0, zero
            for j in range(n + 1):
                al, be = alpha[i][j], beta[i][j]
                if j == 0:
                    r0, rk_ = r0 + al, rk_
                    v.check(pre + 'row %d: no tendency of the start value' % i, eq(be, 0))
                    continue
                if st[j] is None or j == i + 1:
                    v.check(pre + 'row %d uses no later value' % i, eq(al, 0))
                    if j > i + 1:
                        v.check(pre + 'row %d uses no later tendency' % i, eq(be, 0))
                        continue
                else:
                    r0 = r0 + al * st[j][0]
                    rk_ = [x + al * y for x, y in zip(rk_, st[j][1])]
                rk_ = [x + be * y for x, y in zip(rk_, unit(j - 1))]
            v.check(pre + 'row %d keeps the start value' % i, eq(r0, 1))
            for j in range(n):
                v.check(pre + 'row %d, tendency %d' % (i, j), eq(rk_[j], rows[i][j]))
            if i < n:
                st[i + 1] = (r0, rk_)
    else:
        st = [(1, zero)]
        for i in range(n):
            r0, rk_ = 0, zero
            for j in range(n + 1):
                al, be = alpha[i + 1][j], beta[i + 1][j]
                if j > i:
                    v.check(pre + 'stage %d uses no later value' % i, v.all([eq(al, 0), eq(be, 0)]))
                    continue
                r0 = r0 + al * st[j][0]
                rk_ = [x + al * y + be * z for x, y, z in zip(rk_, st[j][1], unit(j))]
            # the integrator uses only the tendency of the latest stage
            v.check(pre + 'stage %d uses the latest tendency only' % i, v.all([eq(beta[i + 1][j], 0) for j in range(i)]))
            v.check(pre + 'stage %d keeps the start value' % i, eq(r0, 1))
            for j in range(n):
                v.check(pre + 'stage %d, tendency %d' % (i, j), eq(rk_[j], rows[i + 1][j]))
            st.append((r0, rk_))


class NumpyProxy:
    """numpy with object arrays where symbolic entries are stored"""
    def __init__(self, v):
        self._v = v

    def __getattr__(self, k):
        return getattr(numpy, k)

    def zeros(self, shape, *a, **k):
        z = numpy.empty(shape, dtype=object)
        z.fill(0)
        return z

    def zeros_like(self, x, *a, **k):
        return self.zeros(numpy.shape(x))

    def eye(self, n, *a, **k):
        z = self.zeros((n, n))
        for i in range(n):
            z[i, i] = 1
        return z

    def abs(self, x):
        class A:
            def __lt__(s, o):
                return numpy.zeros(numpy.shape(x), dtype=bool)
        return A()
    absolute = fabs = abs

    def sum(self, x, axis=None, **k):
        return numpy.sum(x, axis=axis)

    def allclose(self, x, y, *a, **k):
        # the assertions of the code are its own obligations
        v = self._v
        v.check('assertion of butcher_to_shuosher_form', v.all([v.eq(p, q) for p, q in zip(numpy.ravel(numpy.asarray(x, dtype=object)),
                                                                                            numpy.broadcast_to(numpy.asarray(y, dtype=object), numpy.shape(x)).ravel())]))
        return True


@contract('C11', [R + 'butcher_to_shuosher_form'], name='transform', budget=200, samples=20)
def transform(v):
    """for every tableau with up to four stages: the Shu-Osher form reproduces it"""
    n = v.choice('stages', (1, 2, 3, 4))
    implicit = v.flag('implicit')
    val = lambda i, j: v.real('a%d%d' % (i, j))
    nz = lambda x: v.assume(v.not_(v.eq(x, 0))) if v.symbolic else v.assume(abs(x) > 1e-2)
    a = [[val(i, j) if j < i or (j == i and implicit) else 0 for j in range(n)] for i in range(n)]
    b = [v.real('b%d' % j) for j in range(n)]
    if implicit:
        for i in range(n):
            nz(a[i][i])
    else:
        # the transformation divides by the sub-diagonal and the last weight
        for i in range(1, n):
            nz(a[i][i - 1])
        nz(b[-1])
    if v.symbolic:
        A, B = numpy.empty((n, n), dtype=object), numpy.empty(n, dtype=object)
        for i in range(n):
            B[i] = b[i]
            for j in range(n):
                A[i, j] = a[i][j]
        v.patch(rk, 'numpy', NumpyProxy(v))
        v.patch(numpy.linalg, 'inv', lambda M: sym_inverse(v, M))
        alpha, beta = rk.butcher_to_shuosher_form(A, B)
        eq = v.eq
    else:
        A, B = numpy.array(a, dtype=float), numpy.array(b, dtype=float)
        v.assume(numpy.abs(A).max() < 100 and numpy.abs(B).max() < 100)
        alpha, beta = rk.butcher_to_shuosher_form(A, B)
        eq = lambda x, y: abs(float(x) - float(y)) < 1e-5 * (1 + numpy.abs(alpha).max() + numpy.abs(beta).max())**4
    shu_osher(v, '', a, b, alpha, beta, implicit, eq)
    v.cover()


def sym_inverse(v, M):
    """contract of numpy.linalg.inv for a lower triangular matrix with non-zero diagonal"""
    M = numpy.asarray(M, dtype=object)
    n = len(M)
    X = numpy.empty((n, n), dtype=object)
    X.fill(0)
    for j in range(n):
        for i in range(j, n):
            s = 1 if i == j else 0
            for k in range(j, i):
                s = s - M[i, k] * X[k, j]
            X[i, j] = s / M[i, i]
    return X
