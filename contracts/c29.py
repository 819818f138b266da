"""C29 automatic time step: stability limits, positivity, export interval, integer mode split."""
import itertools
import math
import types
from fractions import Fraction
import numpy
from fractions import Fraction
import firedrake as fd
from firedrake import *
import thetis
from thetis import solver2d as s2, solver as s3, utility as ut, rungekutta as rk, timeintegrator as ti, coupled_timeintegrator as ct, implicitexplicit as ie, physical_constants
from thetis.timeintegrator import CFL_UNCONDITIONALLY_STABLE
from pyvc import core, uflsem, shim
from pyvc.contract import contract
from .swe import mesh2d
from .c24 import Consts, K, num
from .common import raises

for _m in (s2, s3):
    shim.install(_m, names=('isinstance', 'float', 'int', 'min', 'max'))
ASSUMPTIONS = [
    'another process may hold a smaller element: the reduced minimum is any share of the local one',
    'solve(a == l, x) returns the L2 projection named by its two sides (checked as forms); the limit is the smallest nodal value of that projection',
    'velocity, viscosity scales given by the user bound the actual ones',
    'real arithmetic: a ratio that is an integer up to rounding may be counted as the next integer (a smaller step)',
]
F2, F3 = 'thetis.solver2d:FlowSolver2d.', 'thetis.solver:FlowSolver.'


class Comm:
    """two processes: this one, and one whose minimum is a given share of the local one"""
    rank, size = 0, 2

    def __init__(self, v, share): self.v, self.share, self.calls = v, share, 0

    def allreduce(self, x, op=None):
        self.calls += 1
        from mpi4py import MPI
        self.v.check('smallest over all processes', op == MPI.MIN)
        return x * self.share


class Nodal:
    """field with two nodal values"""
    def __init__(self, vals):
        n = numpy.empty(len(vals), dtype=object if any(isinstance(x, (core.Sym, Fraction)) for x in vals) else float)
        n[:] = vals
        self.dat = types.SimpleNamespace(data=n, data_ro=n)


def vmin(v, xs):
    m = xs[0]
    for x in xs[1:]:
        m = v.ite(v.le(m, x), m, x) if v.symbolic else min(m, x)
    return m


def quiet(v):
    for m in (s2, s3):
        v.patch(m, 'print_output', lambda *a, **k: None)
    if v.symbolic:
        core.eng().python_division = False


def flow(cls, v, **k):
    s = cls.__new__(cls)
    for a, b in k.items():
        s.__dict__[a] = b
    return s


def scale(v, nm, opts=('Constant', 'number')):
    """a positive scale given as Constant or as number"""
    x = v.real(nm, pos=True)
    if v.choice(nm + '_kind', opts) == 'number':
        return x, x

    class C(Constant):
        def __float__(self): return x
        def __pyvc_value__(self): return x
    return C(1.0), x


# ------------------------------------------------------------------ two-dimensional solver

@contract('C29', [F2 + 'set_time_step'], samples=40)
def step2d(v):
    """with an explicit integrator that asks for it, the step is at most the scaled CFL step of the smallest element of all processes; else it is the user's"""
    quiet(v)
    kinds = [v.choice('options%d' % i, ('implicit', 'off', 'on')) for i in range(5)]
    opt = [types.SimpleNamespace(**({} if k == 'implicit' else {'use_automatic_timestep': k == 'on'})) for k in kinds]
    dt0, cfl, U = v.real('timestep', pos=True), v.real('cfl', pos=True), object()
    loc = [v.real('dt_node%d' % i, pos=True) for i in range(2)]
    share = v.real('share', pos=True, hi=1)
    o = types.SimpleNamespace(swe_timestepper_options=opt[0], tracer_timestepper_options=opt[1],
                              sediment_model_options=types.SimpleNamespace(sediment_timestepper_options=opt[2], exner_timestepper_options=opt[3]),
                              nh_model_options=types.SimpleNamespace(free_surface_timestepper_options=opt[4]),
                              timestep=dt0, cfl_2d=cfl, horizontal_velocity_scale=U)
    s = flow(s2.FlowSolver2d, v, options=o, comm=Comm(v, share))
    got = []
    s.__dict__['compute_time_step'] = lambda u_scale=None: (got.append(u_scale), Nodal(loc))[1]
    given = v.choice('alpha', ('default', 'given'))
    al = num(v, 0.05) if given == 'default' else v.real('alpha', pos=True)
    s.set_time_step(**({} if given == 'default' else {'alpha': al}))
    m = vmin(v, loc)
    if 'on' in kinds:
        v.check('speed scale used', got == [U])
        v.check('one reduction', s.comm.calls == 1)
        v.check('never above the limit of any element of any process', v.le(s.dt, cfl * al * m * share))
        v.check('positive', v.lt(0, s.dt))
    else:
        v.check('the user\'s step', v.eq(s.dt, dt0))
    v.cover()


@contract('C29', [F2 + 'set_time_step'])
def usersteps(v):
    """a missing or non-positive user step is refused when it is needed"""
    quiet(v)
    none = types.SimpleNamespace()
    x = v.choice('step', (None, 0.0, -1.0))
    o = types.SimpleNamespace(swe_timestepper_options=none, tracer_timestepper_options=none, sediment_model_options=types.SimpleNamespace(sediment_timestepper_options=none, exner_timestepper_options=none),
                              nh_model_options=types.SimpleNamespace(free_surface_timestepper_options=none), timestep=x, cfl_2d=1.0, horizontal_velocity_scale=None)
    s = flow(s2.FlowSolver2d, v, options=o, comm=Comm(v, 1.0))
    v.check('refused', isinstance(raises(s.set_time_step)[0], AssertionError))
    v.cover()


class Bath(fd.Function):
    """bathymetry / solution with nodal values of the contract"""
    vals = ()
    made = []

    def __init__(self, V, *a, **k):
        fd.Function.__init__(self, V, *a, **k)
        self.n = Nodal(list(Bath.vals)).dat
        Bath.made.append(self)

    @property
    def dat(self): return self.n

    def assign(self, x, **k):
        self.n.data[:] = x.n.data
        self.src = x
        return self


@contract('C29', [F2 + 'compute_time_step', F3 + 'compute_dt_2d'], samples=30)
def wavelimit(v):
    """the estimate is the projection of element size / (sqrt(g depth) + speed scale) with depths below 5 cm raised to at most that: no faster wave is possible in water of that depth; the bathymetry is left alone"""
    quiet(v)
    three = v.flag('3d')
    m = s3 if three else s2
    c = Consts(v, fork=False)
    b = [v.real('depth%d' % i) for i in range(2)]
    Bath.vals, Bath.made = b, []
    V = FunctionSpace(mesh2d(), 'CG', 1)
    bath = Bath(V, name='bath')
    Bath.vals = [Fraction(0) if v.symbolic else 0.0] * 2      # a new function is zero
    h = fd.Function(V, name='h')
    sols = []
    v.patch(m, 'Function', Bath)
    v.patch(m, 'solve', lambda eq, x, *a, **k: sols.append((eq, x)))
    u0 = c('U', lo=0)
    share = v.real('share', pos=True, hi=1)
    fac = v.real('factor', pos=True)
    o = types.SimpleNamespace()
    s = flow(s3.FlowSolver if three else s2.FlowSolver2d, v, options=o, comm=Comm(v, share), fields=types.SimpleNamespace(h_elem_size_2d=h, bathymetry_2d=bath))
    if three:
        s.__dict__['compute_dx_factor'] = lambda: fac
        Sol = [v.real('sol%d' % i, pos=True) for i in range(2)]

        def solve(eq, x, *a, **k):
            sols.append((eq, x))
            x.n.data[:] = Sol
        v.patch(m, 'solve', solve)
        r = s.compute_dt_2d(u0)
        v.check('never above the scaled smallest nodal value', v.all([v.le(r, fac * x * share) for x in Sol]))
        v.check('positive', v.lt(0, r))
    else:
        r = s.compute_time_step(u_scale=u0)
    (eq, x), = sols
    v.check('result', three or r is x)
    v.check('bathymetry unchanged', v.all([v.eq(p, q) for p, q in zip(bath.n.data, b)]))
    pos = [f for f in Bath.made if f is not bath and f is not x]
    v.check('one corrected depth', len(pos) == 1)
    d = num(v, 0.05)
    v.check('positive depth, never below the actual one', v.all([v.all([v.lt(0, p), v.le(q, p)]) for p, q in zip(pos[0].n.data, b)]))
    v.check('exact where deep enough', v.all([v.any([v.eq(p, q), v.le(p, d)]) for p, q in zip(pos[0].n.data, b)]))
    dep, hh, t, tr = v.real('D', pos=True), v.real('h', pos=True), v.real('t'), v.real('tr')
    test, trial = TestFunction(V), TrialFunction(V)

    def val(f, nm, y):
        c.env.fields[f] = uflsem.Field(nm, 'cg', value=lambda cc, rr: y)
    val(pos[0], 'D', dep)
    val(h, 'h', hh)
    val(test, 't', t)
    val(trial, 'tr', tr)
    A, L = uflsem.integrals(eq.lhs, c.env), uflsem.integrals(eq.rhs, c.env)
    v.check('projection', len(A) == len(L) == 1 and list(A)[0] == list(L)[0] and list(A)[0][0] == 'cell')
    v.check('mass', v.eq(sum(A.values()), t * tr))
    g = c.ev(physical_constants['g_grav'])
    v.cover()
    v.check('element size over wave plus advection speed', v.eq(sum(L.values()) * (v.sqrt(g * dep) + c.val['U']), t * hh))


# ------------------------------------------------------------------ limits of the 3D solver

@contract('C29', [F3 + 'compute_dx_factor', F3 + 'compute_dz_factor'], samples=60)
def factors(v):
    """normalised node distances: positive, at most 1/8 of the element, not growing with the degree; velocity spaces of degree p+1 count as such"""
    quiet(v)
    p = v.int('p', lo=0, hi=None if v.symbolic else 12)
    fam = v.choice('family', ('dg-dg', 'dg-cg', 'rt-dg', 'bdm-dg'))

    def solver(q, f=fam):
        return flow(s3.FlowSolver, v, options=types.SimpleNamespace(polynomial_degree=q, element_family=f))
    dx, dz = solver(p).compute_dx_factor(), solver(p).compute_dz_factor()
    dx1, dz1 = solver(p + 1).compute_dx_factor(), solver(p + 1).compute_dz_factor()
    q = p + 1 if fam in ('rt-dg', 'bdm-dg') else p
    v.check('positive', v.all([v.lt(0, dx), v.lt(0, dz)]))
    v.check('horizontal: 1/8 over the growth of the inverse estimate', v.le(dx * 8 * (num(v, 1) * q * q / 3 + num(v, 7) * q / 6 + 1), 1 if v.symbolic else 1 + 1e-12))
    v.check('vertical: 1/8 of the node distance', v.all([v.le(8 * dz, 1), v.le(8 * dz * p, 1 if v.symbolic else 1 + 1e-12)]))
    v.check('not growing with the degree', v.all([v.le(dx1, dx), v.le(dz1, dz)]))
    v.cover()


@contract('C29', [F3 + 'compute_dt_h_advection', F3 + 'compute_dt_v_advection', F3 + 'compute_dt_diffusion'], samples=40)
def limits(v):
    """advection and diffusion limits of the smallest element over all processes: positive and never above factor * size / speed and (factor * size)^2 / viscosity"""
    quiet(v)
    dx, dz = v.real('dxf', pos=True), v.real('dzf', pos=True)
    h, z = [v.real('h%d' % i, pos=True) for i in range(2)], [v.real('z%d' % i, pos=True) for i in range(2)]
    fam, stepper = v.choice('family', ('dg-dg', 'rt-dg', 'bdm-dg')), v.choice('stepper', ('SSPRK22', 'LeapFrog'))
    share = v.real('share', pos=True, hi=1)
    s = flow(s3.FlowSolver, v, options=types.SimpleNamespace(element_family=fam, timestepper_type=stepper), comm=Comm(v, share), fields=types.SimpleNamespace(h_elem_size_2d=Nodal(h), v_elem_size_2d=Nodal(z)),
             compute_dx_factor=lambda: dx, compute_dz_factor=lambda: dz)
    tol = 0 if v.symbolic else 1e-12
    which = v.choice('limit', ('h', 'v', 'diff'))
    hs, zs = list(h), list(z)
    if which == 'h':
        U, u = scale(v, 'U')
        r = s.compute_dt_h_advection(U)
        v.check('horizontal advection', v.all([v.le(r * u, dx * x * share * (1 + tol)) for x in hs]))
    elif which == 'v':
        U, u = scale(v, 'W')
        r = s.compute_dt_v_advection(U)
        v.check('vertical advection', v.all([v.le(r * u, dz * x * share * (1 + tol)) for x in zs]))
    else:
        U, u = scale(v, 'nu')
        r = s.compute_dt_diffusion(U)
        k = num(v, 1.8) if fam == 'bdm-dg' else 2
        k = k * (num(v, 0.6) if stepper == 'LeapFrog' else 1)
        v.check('diffusion', v.all([v.le(r * u, (k * dx * x)**2 * share * (1 + tol)) for x in hs]))
    v.check('reduced once', s.comm.calls == 1)
    v.check('positive', v.lt(0, r))
    v.check('sizes unchanged', v.all([v.eq(a, b) for a, b in zip(s.fields.h_elem_size_2d.dat.data, hs)] + [v.eq(a, b) for a, b in zip(s.fields.v_elem_size_2d.dat.data, zs)]))
    v.cover()


@contract('C29', [F3 + 'set_time_step'], samples=60)
def step3d(v):
    """the step divides the export interval; automatic: at most the CFL number times every limit; user: the largest divisor not above the given step; the fast step divides the slow one"""
    quiet(v)
    mode = v.choice('mode', ('3d', '2d', 'split'))
    auto = v.choice('auto', ('on', 'off', 'implicit'))
    lim = {k: v.real('max_' + k, pos=True, gen=lambda r: 10**r.uniform(-2, 2)) for k in ('swe', 'hadv', 'vadv', 'diff')}
    c2 = v.choice('cfl2', ('finite', 'unconditional'))
    cfl2, cfl3 = (v.real('cfl2', pos=True) if c2 == 'finite' else CFL_UNCONDITIONALLY_STABLE), v.real('cfl3', pos=True)
    T, user, user2 = v.real('T', pos=True, gen=lambda r: 10**r.uniform(0, 3)), v.real('dt', pos=True), v.real('dt2', pos=True)
    if c2 != 'finite' and mode != '3d':
        return
    if v.symbolic and c2 != 'finite':
        cfl2 = v.real('cfl_inf', lo=1000)
    U, W, N = object(), object(), object()
    o = types.SimpleNamespace(timestepper_options=types.SimpleNamespace(**({} if auto == 'implicit' else {'use_automatic_timestep': auto == 'on'})), timestep=user, timestep_2d=user2,
                              horizontal_velocity_scale=U, vertical_velocity_scale=W, horizontal_viscosity_scale=N, simulation_export_time=T)

    def part(k, want):
        def f(x):
            v.check('scale of the limit', x is want)
            return lim[k]
        return f
    s = flow(s3.FlowSolver, v, options=o, dt_mode=mode, timestepper=types.SimpleNamespace(cfl_coeff_2d=cfl2, cfl_coeff_3d=cfl3), M_modesplit=None,
             compute_dt_2d=part('swe', U), compute_dt_h_advection=part('hadv', U), compute_dt_v_advection=part('vadv', W), compute_dt_diffusion=part('diff', N))
    ceils = []
    if v.symbolic:
        np = numpy

        class N2:
            def __getattr__(self, k): return getattr(np, k)

            def ceil(self, x):
                """n - 1 < x <= n, as an integer quotient"""
                n = v.int('n%d' % len(ceils), lo=1)
                v.assume(x > 0)
                v.assume(v.le(x, n))
                v.assume(v.lt(n - 1, x))
                ceils.append(n)
                return n
        v.patch(s3, 'numpy', N2())
    s.set_time_step()
    dt, dt2 = s.dt, s.dt_2d
    tol = 0 if v.symbolic else 1e-9
    on = auto == 'on'
    v.check('positive', v.all([v.lt(0, dt), v.lt(0, dt2)]))
    if v.symbolic:
        k = len(ceils) - 1 if mode != 'split' else 1
        n = ceils[k]
    else:
        n = round(T / dt)
    v.check('divides the export interval', v.eq(dt * n, T))
    if on:
        v.check('no stability limit exceeded', v.all([v.le(dt, cfl3 * lim[k] * (1 + tol)) for k in ('hadv', 'vadv', 'diff')]))
        if mode != '3d':
            v.check('fast limit', v.le(dt2, cfl2 * lim['swe'] * (1 + tol)))
    else:
        v.check('not above the user\'s step', v.le(dt, user * (1 + tol)))
        v.check('largest such divisor', v.any([v.eq(n, 1), v.le(user * (n - 1), T * (1 + tol))]))
        v.check('fast step not above the user\'s', v.implies(mode == 'split', v.le(dt2, user2 * (1 + tol))))
    v.check('integer split', v.all([v.eq(s.M_modesplit * dt2, dt), v.le(1, s.M_modesplit)]))
    v.check('whole number', isinstance(s.M_modesplit, (int, core.Sym)) and (not isinstance(s.M_modesplit, core.Sym) or s.M_modesplit.is_int))
    v.check('one step without split', mode == 'split' or v.all([v.eq(s.M_modesplit, 1), v.eq(dt, dt2)]))
    v.cover()


@contract('C29', [ 'thetis.coupled_timeintegrator:CoupledTimeIntegrator.set_dt', 'thetis.coupled_timeintegrator:CoupledTimeIntegrator._create_integrators'], samples=20)
def handed(v):
    """every integrator gets the step; the CFL numbers are those of the explicit momentum and of the free-surface integrator"""
    n = v.choice('steppers', (1, 3))
    got = []
    s = ct.CoupledTwoStageRK.__new__(ct.CoupledTwoStageRK)
    class D(dict):
        __getattr__ = dict.__getitem__
    s.timesteppers = D(('s%d' % i, types.SimpleNamespace(set_dt=lambda x, i=i: got.append((i, x)))) for i in range(n))
    dt = v.choice('dt', (0.1, 3.0, 1 / 3))
    k = v.choice('ratio', (1, 2, 2.5))
    ex, _ = raises(s.set_dt, dt, dt / k)
    v.check('whole ratios only', (ex is None) == (k == 1) and isinstance(ex, {1: type(None), 2: NotImplementedError, 2.5: AssertionError}[k]))
    v.check('handed to all', got == ([(i, dt) for i in range(n)] if k == 1 else []))
    made = []
    for q in ('swe', 'mom', 'salt', 'temp', 'turb'):
        setattr(s, '_create_%s_integrator' % q, lambda q=q: made.append(q))
    s.timesteppers = D(mom_expl=types.SimpleNamespace(cfl_coeff='A'), swe2d=types.SimpleNamespace(cfl_coeff='B'))
    s._create_integrators()
    v.check('CFL numbers', (s.cfl_coeff_3d, s.cfl_coeff_2d) == ('A', 'B') and sorted(made) == ['mom', 'salt', 'swe', 'temp', 'turb'])
    v.cover()


# ------------------------------------------------------------------ CFL numbers of the schemes

def poly(a, b):
    """stability polynomial 1 + z b (I - z A)^-1 1 of an explicit tableau"""
    s = len(b)
    fr = lambda x: Fraction(x).limit_denominator(10**6)
    A, b = [[fr(x) for x in (list(r) + [0] * s)[:s]] for r in a], [fr(x) for x in b]
    k = [Fraction(1)] * s
    out = [Fraction(1)]
    for _ in range(s):
        out.append(sum(x * y for x, y in zip(b, k)))
        k = [sum(A[i][j] * k[j] for j in range(s)) for i in range(s)]
    return out


def threshold_ok(p, r):
    """all derivatives of the polynomial are non-negative at -r (then |R| <= 1 and no new extrema arise on the disc of radius r)"""
    p = list(p)
    r = Fraction(r).limit_denominator(10**6)
    while p:
        if sum(c * (-r)**i for i, c in enumerate(p)) < 0:
            return False
        p = [i * c for i, c in enumerate(p)][1:]
    return True


@contract('C29', ['thetis.rungekutta:ForwardEulerAbstract', 'thetis.rungekutta:SSPRK33Abstract', 'thetis.rungekutta:ERKLSPUM2Abstract', 'thetis.rungekutta:ERKLPUM2Abstract',
                  'thetis.rungekutta:ERKMidpointAbstract', 'thetis.timeintegrator:ForwardEuler', 'thetis.timeintegrator:SSPRK22ALE', 'thetis.timeintegrator:LeapFrogAM3'])
def cflnumbers(v):
    """the CFL number of an explicit scheme is positive and within its linear monotonicity threshold (exact rational arithmetic on the tableau)"""
    nm = v.choice('scheme', ('ForwardEulerAbstract', 'SSPRK33Abstract', 'ERKLSPUM2Abstract', 'ERKLPUM2Abstract', 'ERKMidpointAbstract', 'fe', 'ssp22', 'leapfrog', 'imex'))
    if nm == 'fe':
        c, p = ti.ForwardEuler.cfl_coeff, [1, 1]
    elif nm == 'ssp22':
        c, p = ti.SSPRK22ALE.cfl_coeff, [1, 1, Fraction(1, 2)]
    elif nm == 'leapfrog':
        # limit of LF-AM3 (gamma = 1/12) for oscillations: both roots of the step polynomial stay in the unit disc up to 1.5874
        c = ti.LeapFrogAM3.cfl_coeff
        g = 1 / 12
        for k in range(1, 200):
            w = 1j * c * k / 200
            r = numpy.roots([1, -1 - w * (.5 + 2 * g) - w**2 * (1 - 2 * g), -w * (.5 - 2 * g)])
            v.check('oscillations stay bounded', abs(r).max() <= 1 + 1e-6)
        v.check('positive', c > 0)
        v.cover()
        return
    elif nm == 'imex':
        for q in (ie.IMEXLPUM2, ie.IMEXLSPUM2):
            d = q.erk_class
            v.check('explicit part of the pair', 0 < d.cfl_coeff and threshold_ok(poly(d.a, d.b), d.cfl_coeff))
        v.cover()
        return
    else:
        q = getattr(rk, nm)
        c, p = q.cfl_coeff, poly(q.a, q.b)
    v.check('positive and within the threshold', c > 0 and threshold_ok(p, c))
    v.cover()


@contract('C29', ['thetis.utility:get_horizontal_elem_size_2d', 'thetis.utility:get_horizontal_elem_size_3d'])
def elemsize(v):
    """the element size is the projection of the root of the cell area"""
    V = FunctionSpace(mesh2d(), 'CG', 1)
    x = fd.Function(V)
    sols = []
    v.patch(ut, 'solve', lambda eq, y, *a, **k: sols.append((eq, y)))
    ut.get_horizontal_elem_size_2d(x)
    (eq, y), = sols
    env = uflsem.Env(v, 2)
    t, tr = v.real('t'), v.real('tr')
    env.fields[TestFunction(V)] = uflsem.Field('t', 'cg', value=lambda c, r: t)
    env.fields[TrialFunction(V)] = uflsem.Field('tr', 'cg', value=lambda c, r: tr)
    A, L = uflsem.integrals(eq.lhs, env), uflsem.integrals(eq.rhs, env)
    v.check('into the given function', y is x)
    v.check('mass', v.eq(sum(A.values()), t * tr))
    v.cover()
    v.check('root of the area', v.eq(sum(L.values()), t * v.sqrt(v.real('geo_CellVolume', pos=True))))
