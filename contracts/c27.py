"""C27 equation of state, vertical integrals, diagnosed vertical velocity."""
import types
import numpy
from firedrake import *
import thetis.utility3d as u3
import thetis.utility as tu
from pyvc import core, uflsem
from pyvc.contract import contract
from pyvc.genarr import GArr, GNumpy
from .tracers import mesh3d
from .swe import MARKERS
from .common import raises

ASSUMPTIONS = [
    'numpy arithmetic and maximum act element by element (contract of the generic array)',
    'the coefficients of the equation of state are the published ones (Jackett et al. 2006), restated in the contract; real arithmetic, x**1.5 exact',
    'integration by parts in every cell and summation over the facets (Gauss theorem) turn the weak forms into the stated balances; '
    'the linear solves are exact; the side called + of a horizontal interior facet is the cell below it (Firedrake; checked on a real mesh, bounded)',
    'pressure is ignored by the density solvers (p = 0), as documented',
]
M = 'thetis.utility3d:'
A = '9.9984085444849347e2 7.3471625860981584e0 -5.3211231792841769e-2 3.6492439109814549e-4 2.5880571023991390e0 -6.7168282786692355e-3 ' \
    '1.9203202055760151e-3 1.1798263740430364e-2 9.8920219266399117e-8 4.6996642771754730e-6 -2.5862187075154352e-8 -3.2921414007960662e-12'
B = '1.0 7.2815210113327091e-3 -4.4787265461983921e-5 3.3851002965802430e-7 1.3651202389758572e-10 1.7632126669040377e-3 -8.8066583251206474e-6 ' \
    '-1.8832689434804897e-10 5.7463776745432097e-6 1.4716275472242334e-9 6.7103246285651894e-6 -2.4461698007024582e-17 -9.1534417604289062e-18'


def jackett(v, s, t, p):
    F = (lambda x: core._frac(float(x))) if v.symbolic else float
    a, b = [F(x) for x in A.split()], [F(x) for x in B.split()]
    r = v.sqrt(s)
    num = (a[0], a[1] * t, a[2] * t**2, a[3] * t**3, a[4] * s, a[5] * s * t, a[6] * s**2, a[7] * p, a[8] * p * t**2, a[9] * p * s, a[10] * p**2, a[11] * p**2 * t**2)
    den = (b[0], b[1] * t, b[2] * t**2, b[3] * t**3, b[4] * t**4, b[5] * s, b[6] * s * t, b[7] * s * t**3, b[8] * s * r, b[9] * s * r * t**2, b[10] * p, b[11] * p**2 * t**3, b[12] * p**3 * t)
    return sum(num[1:], num[0]), sum(den[1:], den[0])


def pos(v, s):
    return 0.0 if s < 0 else s


def linear(v, k, s, t):
    return k[0] - k[1] * (t - k[3]) + k[2] * (s - k[4])


def eos(v):
    """(equation of state, its formula(s, t, p))"""
    if v.symbolic:
        core.eng().python_division = False      # numpy: no exception; the denominator is non-zero in the range of validity
    if v.choice('eos', ('jackett', 'linear')) == 'jackett':
        def f(s, t, p):
            n, d = jackett(v, s, t, p)
            return n / d if not v.symbolic else core.Sym(core.zreal(n) / core.zreal(d))
        return u3.JackettEquationOfState(), f, True
    k = [v.real(n) for n in ('rho_ref', 'alpha', 'beta', 'th_ref', 's_ref')]
    return u3.LinearEquationOfState(*k), lambda s, t, p: linear(v, k, s, t), False


def inputs(v):
    if v.symbolic:
        return v.real('s'), v.real('t'), v.real('p')
    return v.rng.choice((-3.0, 0.0, 5.0, 35.5)), v.rng.uniform(-2, 35), v.rng.choice((0.0, 100.0, 6000.0))


@contract('C27', [M + 'JackettEquationOfState.compute_rho', M + 'JackettEquationOfState.eval', M + 'LinearEquationOfState.compute_rho', M + 'LinearEquationOfState.eval',
                  M + 'LinearEquationOfState.__init__'], tol=1e-9)
def density(v):
    e, f, clip = eos(v)
    s, t, p = inputs(v)
    r0 = v.choice('rho0', (None, 'given'))
    rho0 = v.real('rho0') if r0 else None
    kw = {} if r0 is None else {'rho0': rho0}
    kind = v.choice('type', ('array', 'scalar'))
    if v.symbolic:
        v.patch(u3, 'numpy', GNumpy())
        if kind == 'array':
            mk = [v.flag('array %s' % n) for n in 'stp']
            x = e.compute_rho(*[GArr(a) if m or n == 0 else a for n, (m, a) in enumerate(zip(mk, (s, t, p)))], **kw).x
        else:
            x = e.compute_rho(s, t, p, **kw)
    elif kind == 'array':
        x = float(e.compute_rho(numpy.array([1.0, s]), numpy.array([2.0, t]), p, **kw)[1])
    else:
        x = float(e.compute_rho(s, t, p, **kw))
    sp = pos(v, s) if clip else s
    v.check('density formula, salinity below zero counts as zero, reference subtracted once', v.eq(x, f(sp, t, p) - (0 if r0 is None else rho0)))
    if not clip or v.symbolic and kind == 'scalar' or not v.symbolic:
        y = e.eval(sp, t, p, **kw)
        v.check('eval: the same formula', v.eq(y, f(sp, t, p) - (0 if r0 is None else rho0)))


# ------------------------------------------------------------------ density solvers
_S = {}


def space(hf='DG', vf='DG', vec=False, h=1, q=1):
    k = (hf, vf, vec, h, q)
    if k not in _S:
        el = TensorProductElement(FiniteElement(hf, triangle, h), FiniteElement(vf, interval, q))
        if hf == 'RT':
            el = HDivElement(TensorProductElement(FiniteElement('RT', triangle, h), FiniteElement('DG', interval, q))) + \
                HDivElement(TensorProductElement(FiniteElement('DG', triangle, h - 1), FiniteElement('CG', interval, q + 1)))
        _S[k] = VectorFunctionSpace(mesh3d(), el) if vec else FunctionSpace(mesh3d(), el)
    return _S[k]


class Arr:
    """stand-in of a data array: reading and whole writes"""
    def __init__(self, x): self.x = x
    def __getitem__(self, k):
        assert isinstance(k, slice) and k == slice(None) or k is Ellipsis
        return self.x
    def __setitem__(self, k, val):
        assert isinstance(k, slice) and k == slice(None) or k is Ellipsis
        self.x = val


@contract('C27', [M + 'DensitySolver.__init__', M + 'DensitySolver.solve', M + 'DensitySolver._get_array'], tol=1e-9)
def density_solver(v):
    e, f, clip = eos(v)
    s, t, p = inputs(v)
    r0 = v.real('rho0')
    v.patch(u3.physical_constants, 'rho0', r0)

    class Fn:       # isinstance(x, Function)
        def __init__(self, a):
            d = Arr(a)
            self.dat = types.SimpleNamespace(data=d, data_ro=d, data_with_halos=d)
            self.d = d
        def function_space(self): return 'V'
    v.patch(u3, 'Function', Fn)
    wrap = GArr if v.symbolic else (lambda x: numpy.array([0.5, x, 7.0]))
    if v.symbolic:
        v.patch(u3, 'numpy', GNumpy())
    S, T = [Fn(wrap(x)) if v.flag('%s is a field' % n) else x for n, x in (('s', s), ('t', t))]
    out = Fn(wrap(0.0))
    ds = u3.DensitySolver(S, T, out, e)
    for i in range(2):
        if v.symbolic and i == 1:
            s, t = v.real('s1'), v.real('t1')
            for X, x in ((S, s), (T, t)):
                if isinstance(X, Fn):
                    X.d.x = GArr(x)
            s, t = (s if isinstance(S, Fn) else S), (t if isinstance(T, Fn) else T)
        ds.solve()
        x = out.d.x
        x = x.x if isinstance(x, GArr) else x if core.is_sym(x) or numpy.ndim(x) == 0 else float(x[1])
        v.check('density anomaly of the current salinity and temperature', v.eq(x, f(pos(v, s) if clip else s, t, 0) - r0))


@contract('C27', [M + 'DensitySolverWeak.__init__', M + 'DensitySolverWeak.solve', M + 'DensitySolverWeak.ensure_positive_salinity'], tol=1e-9)
def density_solver_weak(v):
    e, f, clip = eos(v) if v.symbolic else (u3.JackettEquationOfState(), lambda s, t, p: (lambda n, d: n / d)(*jackett(v, s, t, p)), True)
    if not clip:
        e = u3.LinearEquationOfState(1020.0, 0.25, 0.5, 4.0, 30.0)
        f = lambda s, t, p: linear(v, [core._frac(x) for x in (1020.0, 0.25, 0.5, 4.0, 30.0)], s, t)
    V = space()
    S, T, R = Function(V, name='s'), Function(V, name='t'), Function(V, name='r')
    log = []

    class Proj:
        def __init__(self, expr, target, *a, **k):
            self.expr, self.target = expr, target
            log.append(self)
        def project(self): log.append('project')
    v.patch(u3, 'Projector', Proj)
    d = u3.DensitySolverWeak(S, T, R, e)
    v.check('projected on the density field', len(log) == 1 and log[0].target is R)
    env = uflsem.Env(v, 3)
    s, t = v.real('s', lo=0), v.real('t', lo=-2, hi=40) if not v.symbolic else v.real('t')
    env.set(S, value=lambda c, r: s)
    env.set(T, value=lambda c, r: t)
    r0 = float(u3.physical_constants['rho0'])
    v.check('expression: density formula minus the reference density', v.eq(uflsem.evaluate(log[0].expr, env), f(s, t, 0) - (core._frac(r0) if v.symbolic else r0)))
    vals = numpy.linspace(-3, 4, S.dat.data.size)
    S.dat.data[:] = vals
    d.solve()
    v.check('negative salinity set to zero before projecting, the rest unchanged', log[1:] == ['project'] and bool(numpy.array_equal(S.dat.data, numpy.maximum(vals, 0))))


# ------------------------------------------------------------------ vertical integrals
class Problem:
    def __init__(self, a, l, u, *r, **k): self.a, self.l, self.u, self.k = a, l, u, k


class Solver:
    def __init__(self, p, *a, **k): self.p, self.n = p, 0
    def solve(self): self.n += 1


def capture(v):
    got = []

    def prob(*a, **k):
        got.append(Problem(*a, **k))
        return got[-1]
    v.patch(u3, 'LinearVariationalProblem', prob)
    v.patch(u3, 'LinearVariationalSolver', Solver)
    return got


class Free(uflsem.Field):
    """value and derivatives free on both sides of a facet (or continuous across it)"""


def forms(v, p, env, phi, tri):
    (test,) = p.l.arguments()
    trial = [x for x in p.a.arguments() if x.number() == 1][0]
    env.fields[test], env.fields[trial] = phi, tri
    return uflsem.integrals(p.a, env), uflsem.integrals(p.l, env)


TOP, BOT, HOR, VER, SIDE, CELL = 'exterior_facet_top', 'exterior_facet_bottom', 'interior_facet_horiz', 'interior_facet_vert', 'exterior_facet_vert', 'cell'


def strip(d):
    out = {}
    for (typ, sd), x in d.items():
        k = typ if typ != SIDE or sd in ('everywhere', 'otherwise') else (typ, sd)
        out[k] = out[k] + x if k in out else x
    return out


@contract('C27', [M + 'VerticalIntegrator.__init__', M + 'VerticalIntegrator.solve'])
def vertical_integral(v):
    """with exact solution I: dI/dz = f, I = boundary value at the start of the integration"""
    got = capture(v)
    up, avg_, vec = v.flag('bottom to top'), v.flag('average'), v.flag('vector')
    vf = v.choice('vertical', ('DG', 'CG'))
    out, inp = Function(space('DG', vf, vec, q=2 if vf == 'CG' else 1)), Function(space('DG', 'DG', vec))
    cg = space('CG', 'CG')
    H, E = Function(cg), Function(cg)
    kw = {}
    n = 3 if vec else 1
    env = uflsem.Env(v, 3)
    kind = 'dg' if vf == 'DG' else 'cg'
    if v.flag('boundary value'):
        kw['bnd_value'] = Constant((2.0, 3.0, 4.0)) if vec else Constant(5.0)
        env.set(kw['bnd_value'], 'bv', 'const')
    elif vec:
        kw['bnd_value'] = Constant((0.0, 0.0, 0.0))
    it = u3.VerticalIntegrator(inp, out, bottom_to_top=up, average=avg_, bathymetry=H, elevation=E, **kw)
    v.check('one problem for the output field', len(got) == 1 and got[0].u is out)
    it.solve()
    v.check('solved when asked', it.solver.n == 1)
    for form in (got[0].a, got[0].l):
        for itg in form.integrals():
            d = itg.metadata().get('quadrature_degree')
            qv, qi = (x.ufl_element().degree()[1] for x in (out.function_space(), inp.function_space()))
            v.check('integrals along the vertical are exact', d is None or (d if isinstance(d, int) else d[1]) >= qv + (qi if form is got[0].l else 0))
    v.check('moving domain: matrix reassembled unless averaging', avg_ or not got[0].k.get('constant_jacobian', True))
    env.set(inp, 'f', 'dg')
    env.set(H, 'H', 'cg', pos=True)
    env.set(E, 'E', 'cg')
    env.set(out, 'out', kind)
    comp = lambda nm, i, r='': nm + ('_%d' % i if vec else '') + r
    h = v.real('H', pos=True) + v.real('E')
    v.assume(v.lt(0, h))
    a, l = forms(v, got[0], env, uflsem.Field('phi', kind), uflsem.Field('I', kind))
    a, l = strip(a), strip(l)
    nz = env.normal(2, None)
    R = range(n)
    f = lambda i: v.real(comp('f', i)) / h if avg_ else v.real(comp('f', i))
    # -int I dphi/dz + [start of integration: value given, end: own value, interior: value of the cell before] = int f phi
    v.check('cells: integration by parts', v.eq(a.get(CELL, 0), -sum((v.real(comp('phi', i) + '_dz') * v.real(comp('I', i)) for i in R), 0)))
    v.check('cells: integrand (over the total depth for averages)', v.eq(l.get(CELL, 0), sum((f(i) * v.real(comp('phi', i)) for i in R), 0)))
    end, start = (TOP, BOT) if up else (BOT, TOP)
    v.check('end of the integration: outgoing value', v.eq(a.get(end, 0), nz * sum((v.real(comp('phi', i)) * v.real(comp('I', i)) for i in R), 0)))
    bv = lambda i: v.real(comp('bv', i)) if 'bnd_value' in kw and kw['bnd_value'] in env.fields else 0
    sign = -1      # int I dphi/dz = ... - I phi nz: the known start value moves to the right-hand side
    v.check('no unknown at the start of the integration', v.eq(a.get(start, 0), 0))
    v.check('nothing else on the right-hand side', all(k in (CELL, start) for k in l))
    v.check('start of the integration: given value', v.eq(l.get(start, 0), sign * nz * sum((bv(i) * v.real(comp('phi', i)) for i in R), 0)))
    if vf == 'DG':
        side = 'P' if up else 'M'
        v.check('interior horizontal facets: value of the cell before', v.eq(a.get(HOR, 0), sum((v.real(comp('I', i, side)) * nz * (v.real(comp('phi', i, 'P')) - v.real(comp('phi', i, 'M'))) for i in R), 0)))
    else:
        v.check('no interior facet terms for a continuous integral', v.eq(a.get(HOR, 0), 0))
    v.check('no other terms', all(k in (CELL, HOR, TOP, BOT) for k in a))


@contract('C27', [M + 'VerticalVelocitySolver.__init__', M + 'VerticalVelocitySolver.solve'])
def vertical_velocity(v):
    got = capture(v)
    hf = v.choice('space', ('DG', 'RT'))
    bnd = v.choice('boundary', ({}, {1: {}}, {2: {'elev': 1}, 3: None}))
    w = Function(space('DG', 'DG', True) if hf == 'DG' else space('RT'), name='w')
    uv = Function(space('DG', 'DG', True), name='uv')
    H = Function(space('CG', 'CG'), name='H')
    s = u3.VerticalVelocitySolver(w, uv, H, bnd)
    v.check('one problem for the vertical velocity', len(got) == 1 and got[0].u is w)
    s.solve()
    v.check('solved when asked', s.solver.n == 1)
    env = uflsem.Env(v, 3)
    env.set(uv, 'u', 'dg')
    env.set(H, 'H', 'cg')
    a, l = forms(v, got[0], env, uflsem.Field('phi', 'dg'), uflsem.Field('w', 'dg'))
    a, l = strip(a), strip(l)
    N = [env.normal(i, None) for i in range(3)]
    one = lambda nm, i, r='': v.real('%s_%d%s' % (nm, i, r))
    mean = lambda nm, i: (one(nm, i, 'P') + one(nm, i, 'M')) / 2
    jump = one('phi', 2, 'P') - one('phi', 2, 'M')
    phi = one('phi', 2)
    # flux form of d(w)/dz + div u = 0: the vertical and horizontal fluxes share test function and facets
    v.check('cells', v.all([v.eq(a.get(CELL, 0), -one('w', 2) * v.real('phi_2_dz')),
                            v.eq(l.get(CELL, 0), sum(one('u', i) * v.real('phi_2_d' + 'xyz'[i]) for i in range(3)))]))
    un = sum(mean('u', i) * N[i] for i in range(3))
    v.check('horizontal interior facets: one flux for both cells', v.all([v.eq(a.get(HOR, 0), mean('w', 2) * N[2] * jump), v.eq(l.get(HOR, 0), -un * jump)]))
    v.check('vertical interior facets: one flux for both cells', v.all([v.eq(a.get(VER, 0), 0), v.eq(l.get(VER, 0), -un * jump)]))
    u1 = sum(one('u', i) * N[i] for i in range(3))
    v.check('surface: outgoing fluxes', v.all([v.eq(a.get(TOP, 0), one('w', 2) * N[2] * phi), v.eq(l.get(TOP, 0), -u1 * phi)]))
    v.check('impermeable bed', v.all([v.eq(a.get(BOT, 0), 0), v.eq(l.get(BOT, 0), 0)]))
    for m in MARKERS:
        open_ = bnd.get(m) is not None
        un = one('u', 0) * N[0] + one('u', 1) * N[1]
        v.check('open lateral boundary: horizontal flux; closed: none', v.all([v.eq(a.get((SIDE, m), 0), 0), v.eq(l.get((SIDE, m), 0), -un * phi if open_ else 0)]))
    v.check('no other terms', all(k in (CELL, HOR, VER, TOP, BOT) or k[0] == SIDE and k[1] in MARKERS for k in list(a) + list(l)))
    v.cover('forms')


@contract('C27', 'thetis.utility:compute_baroclinic_head')
def baroclinic_head(v):
    log = []
    b = v.real('b')
    k0 = v.real('rho0_inv', pos=True)
    v.patch(tu.physical_constants, 'rho0_inv', k0)
    st = {'head': None}

    class Fields:
        @property
        def baroc_head_3d(self): return st['head']
        @baroc_head_3d.setter
        def baroc_head_3d(self, x): st['head'] = x

    def step(n):
        def f():
            log.append(n)
            if n == 'integral':
                st['head'] = b
            if n == 'gradient':
                v.check('head: minus the integral over the reference density when the gradient is computed', v.eq(st['head'], -b * k0))
        return types.SimpleNamespace(solve=f)
    sol = types.SimpleNamespace(density_solver=step('density'), rho_integrator=step('integral'), int_pg_calculator=step('gradient'), fields=Fields())
    tu.compute_baroclinic_head(sol)
    v.check('density, integral, gradient, once each, in this order', log == ['density', 'integral', 'gradient'])


# ------------------------------------------------------------------ bounded: real solves
@contract('C27', [M + 'VerticalIntegrator.__init__', M + 'VerticalVelocitySolver.__init__'], kind='concrete',
          bounded='one prism mesh (8 columns, 3 layers, variable depth); constant and linear integrands; P1DG/P2 spaces')
def real_solves(v):
    m2 = UnitSquareMesh(2, 2)
    m = ExtrudedMesh(m2, 3, 1.0 / 3)
    x = m.coordinates.dat.data
    x[:, 2] = -(10 + 3 * x[:, 0] + 2 * x[:, 1]) * (1 - x[:, 2]) + 0.5 * x[:, 2] * (1 + x[:, 0])
    X = SpatialCoordinate(m)
    bath, elev = 10 + 3 * X[0] + 2 * X[1], 0.5 * (1 + X[0])
    V1 = FunctionSpace(m, 'DG', 1, vfamily='DG', vdegree=1)
    V2 = FunctionSpace(m, 'DG', 2, vfamily='DG', vdegree=2)
    cg = FunctionSpace(m, 'CG', 1, vfamily='CG', vdegree=1)
    H, E = Function(cg).interpolate(bath), Function(cg).interpolate(elev)
    f = Function(V1)
    diff = lambda a, b, V: float(numpy.abs(Function(FunctionSpace(m, 'DG', 2, vfamily='DG', vdegree=2)).interpolate(a - b).dat.data).max())
    for V in (V2, V1):
        out = Function(V)
        for c, lin in ((2.0, 0.0), (1.0, 0.25)):
            if lin and V is V1:
                continue
            f.interpolate(c + lin * X[2])
            g = lambda z: c * z + lin * z**2 / 2
            for up in (True, False):
                for bv in (0.0, 3.0):
                    u3.VerticalIntegrator(f, out, bottom_to_top=up, bnd_value=Constant(bv), bathymetry=H, elevation=E).solve()
                    z0 = -bath if up else elev
                    if lin == 0 or V is not V1:
                        ex = g(X[2]) - g(z0)
                    # a value prescribed at the start enters with the sign of the weak form
                    d0 = diff(out, ex + bv, V)
                    v.check('vertical integral from the correct end', d0 < 1e-8, d0)
    u3.VerticalIntegrator(f.interpolate(Constant(2.0)), out := Function(V1), average=True, bathymetry=H, elevation=E).solve()
    v.check('average: the mean at the surface', abs(float(assemble(out * ds_t(domain=m))) / float(assemble((1 + 0 * X[0]) * ds_t(domain=m))) - 2) < 1e-9)
