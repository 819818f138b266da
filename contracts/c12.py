"""C12 time integrators."""
import numpy
import thetis.timeintegrator as ti
import thetis.rungekutta as rk
import thetis.implicitexplicit as imex
from pyvc import core
from pyvc.contract import contract
from . import tsim
from .tsim import World, Equation, Cell, Const, Opt
from .c11 import SCHEMES

ASSUMPTIONS = [
    'finite-element functions, forms, assembly and solvers are replaced by algebraic contracts (contracts/tsim.py): a solver returns a solution of its form for the values at the time of the call; convergence of the solver is not decided',
    'the equation is an arbitrary operator per label (its own contracts are C04-C10, C30)',
]
T, R, I = 'thetis.timeintegrator:', 'thetis.rungekutta:', 'thetis.implicitexplicit:'
DIRKS = ('BackwardEuler', 'ImplicitMidpoint', 'CrankNicolsonRK', 'DIRK22', 'DIRK23', 'DIRK33', 'DIRK43', 'DIRKLSPUM2', 'DIRKLPUM2', 'ESDIRKMidpoint', 'ESDIRKTrapezoid')
UFORMS = ('BackwardEulerUForm', 'DIRK22UForm', 'DIRK33UForm')
ERKS = ('ERKLSPUM2', 'ERKLPUM2', 'ERKMidpoint', 'ERKEuler')
IMEXS = ('IMEXLPUM2', 'IMEXLSPUM2', 'IMEXMidpoint', 'IMEXEuler')


class Set:
    """an integrator's surroundings: equation, solution, one forcing field, one constant, one boundary value"""
    def __init__(self, v, n=1, nonlinear_mass=False, have=tsim.LABELS, **opt):
        self.v = v
        self.W = World(v)
        tsim.install(v, ti, rk, imex)
        self.eq = Equation(n, nonlinear_mass, have=have)
        self.u = Cell(self.eq.function_space, v.reals('u0_', n))
        self.force = Cell(tsim.Space(1), [v.real('f0')])
        self.fields = {'forcing': self.force, 'coef': Const(v.real('coef')), 'absent': None}
        self.bval = Const(v.real('b0'))
        self.bnd = {1: self.bval}
        self.opt = Opt(ad_block_tag=None, solver_parameters={}, use_semi_implicit_linearization=False, implicitness_theta=0.5, **opt)
        self.times = []
        self.t = v.real('t')
        self.n = n

    def dts(self):
        """the step size given at construction or set later: the last one counts"""
        v = self.v
        dt = v.real('dt', pos=True)
        if v.flag('set_dt'):
            return v.real('dt_first', pos=True), dt
        return dt, None

    def update(self, t):
        self.times.append(t)
        self.force.assign(self.F(t))
        self.bval.assign(self.B(t))

    def F(self, t): return self.W.apply('forcing', [t])
    def B(self, t): return self.W.apply('boundary', [t])

    def fv(self, t): return [self.fields['coef'].x, self.F(t)]

    def rhs(self, u, u_nl, t, labels='all', f=None, f_old=None, bnd=None):
        f = self.fv(t) if f is None else f
        return self.eq.value(self.eq.labelset(labels), list(u), list(u_nl), f, f if f_old is None else f_old, [self.B(t)] if bnd is None else bnd)

    def M(self, x):
        return [self.W.apply('eq_mass0_%d' % i, list(x)) for i in range(self.n)] if self.eq.nonlinear_mass else [self.W.massmat(i) * y for i, y in enumerate(x)]

    def G(self, x):
        return [self.W.gram(i) * y for i, y in enumerate(x)]

    def same(self, name, a, b):
        for i, (x, y) in enumerate(zip(a, b)):
            self.v.check('%s [%d]' % (name, i), self.v.eq(x, y))

    def steps(self, integ, step, forced=True):
        """two steps; `step(u, t)` checks one against its formula"""
        v = self.v
        dt, dt2 = self.dt_args
        if dt2 is not None:
            integ.set_dt(dt2)
        dt = dt if dt2 is None else dt2
        self.dt = dt
        integ.initialize(self.u)
        t = self.t
        for k in range(2):
            u = list(self.u.val)
            self.times.clear()
            integ.advance(t, self.update if forced else None)
            step(k, u, t, list(self.u.val))
            t = t + dt
        v.cover()


def lin(xs, cs):
    """sum of c_j x_j over vectors"""
    r = [0] * len(xs[0])
    for c, x in zip(cs, xs):
        r = [p + c * q for p, q in zip(r, x)]
    return r


def add(*xs):
    r = list(xs[0])
    for x in xs[1:]:
        r = [p + q for p, q in zip(r, x)]
    return r


def scale(c, x):
    return [c * y for y in x]


def tableau(v, name):
    c = getattr(rk, name)
    ab = next(getattr(rk, m.__name__) for m in c.__mro__ if m.__name__ in SCHEMES)
    return [[float(x) for x in r] for r in ab.a], [float(x) for x in ab.b], [float(x) for x in ab.c]


@contract('C12', [T + 'ForwardEuler.__init__', T + 'ForwardEuler.update_solver', T + 'ForwardEuler.initialize', T + 'ForwardEuler.advance', T + 'TimeIntegrator.__init__',
                  T + 'TimeIntegrator.set_dt', T + 'TimeIntegrator.create_fields_old', T + 'TimeIntegrator.update_fields_old'], name='forward_euler', samples=20)
def forward_euler(v):
    """M u1 = M u0 + dt R(u0) with the fields of the beginning of the step"""
    s = Set(v)
    s.dt_args = s.dts()
    f_begin = list(s.force.val)
    integ = ti.ForwardEuler(s.eq, s.u, s.fields, s.dt_args[0], s.opt, s.bnd)

    def step(k, u, t, new):
        t1 = t + s.dt
        f = [s.fields['coef'].x] + (f_begin if k == 0 else [s.F(t)])
        s.same('step %d' % k, s.M(new), add(s.M(u), scale(s.dt, s.rhs(u, u, t, f=f, bnd=[s.B(t1)]))))
        v.check('forcing once, at the new time', len(s.times) == 1 and v.eq(s.times[0], t1))
    s.steps(integ, step)


@contract('C12', [T + 'CrankNicolson.__init__', T + 'CrankNicolson.update_solver', T + 'CrankNicolson.initialize', T + 'CrankNicolson.advance', T + 'CrankNicolson.advance_picard'],
          name='crank_nicolson', samples=20)
def crank_nicolson(v):
    """M(u1) - M(u0) = dt (theta R(u1) + (1-theta) R(u0)); old part with the fields of the beginning of the step"""
    s = Set(v, nonlinear_mass=v.flag('nonlinear_mass'))
    semi = s.opt['use_semi_implicit_linearization'] = v.flag('semi_implicit')
    th = s.opt['implicitness_theta'] = v.real('theta', lo=0, hi=1)
    v.assume(th > 0)
    s.dt_args = s.dts()
    f_begin = list(s.force.val)
    integ = ti.CrankNicolson(s.eq, s.u, s.fields, s.dt_args[0], s.opt, s.bnd)
    picard = v.flag('picard')

    def formula(name, u, new, nl, t1, f_old, bnd):
        c = [s.fields['coef'].x]
        s.same(name, add(s.M(new), scale(-1, s.M(u))),
               scale(s.dt, add(scale(th, s.rhs(new, nl, t1, bnd=bnd)), scale(1 - th, s.rhs(u, u, None, f=c + f_old, bnd=bnd)))))

    def step(k, u, t, new):
        t1 = t + s.dt
        formula('step %d' % k, u, new, u if semi else new, t1, f_begin if k == 0 else [s.F(t)], [s.B(t1)])
        v.check('forcing once, at the new time', len(s.times) == 1 and v.eq(s.times[0], t1))
    if not picard:
        s.steps(integ, step)
        return
    # Picard iterations: the old state and old fields are those of the beginning of the step in every iteration
    dt, dt2 = s.dt_args
    if dt2 is not None:
        integ.set_dt(dt2)
    s.dt = dt if dt2 is None else dt2
    integ.initialize(s.u)
    t = s.t
    for k in range(2):
        u = list(s.u.val)
        p = 2
        for it in range(p):
            integ.advance_picard(t, s.update, update_lagged=it == 0, update_fields=it == p - 1)
            new = list(s.u.val)
            formula('step %d iteration %d' % (k, it), u, new, u if semi else new, t + s.dt, f_begin if k == 0 else [s.F(t)], [s.B(t + s.dt)])
        t = t + s.dt
    v.cover()


@contract('C12', [T + 'SteadyState.__init__', T + 'SteadyState.update_solver', T + 'SteadyState.advance'], name='steady_state', samples=10)
def steady_state(v):
    """R(u) = 0 for the forcing at the new time"""
    s = Set(v)
    s.dt_args = s.dts()
    integ = ti.SteadyState(s.eq, s.u, s.fields, s.dt_args[0], s.opt, s.bnd)

    def step(k, u, t, new):
        s.same('step %d' % k, s.rhs(new, new, t + s.dt), [0])
        v.check('forcing once, at the new time', len(s.times) == 1 and v.eq(s.times[0], t + s.dt))
    s.steps(integ, step)


class Log:
    """what the solution field held, and the forcing time, whenever a solver is called"""
    def __init__(self, s):
        self.s, self.calls = s, []
        W = s.W
        for cls in (tsim.NonlinearVariationalSolver, tsim.LinearVariationalSolver):
            orig = cls.solve

            def solve(this, orig=orig):
                self.calls.append((this.prob.a[-1], list(s.u.val)))
                return orig(this)
            s.v.patch(cls, 'solve', solve)


def dirk(v, name):
    """u1 = u0 + dt sum b_j k_j with G k_i = R(u0 + dt sum_{j<=i} a_ij k_j), forcing of stage i at t + c_i dt"""
    mixed = v.flag('mixed')
    s = Set(v, n=2 if mixed else 1)
    lagged = v.choice('linearization', ('stage', 'old', '3d'))
    if lagged == '3d':
        # the 3D options have no such switch: coefficients are lagged by one stage
        del s.opt['use_semi_implicit_linearization']
    else:
        s.opt['use_semi_implicit_linearization'] = lagged == 'old'
    s.dt_args = s.dts()
    a, b, c = tableau(v, name)
    integ = getattr(rk, name)(s.eq, s.u, s.fields, s.dt_args[0], s.opt, s.bnd)
    log = Log(s)
    n = len(b)

    def step(k, u, t, new):
        calls = log.calls
        v.check('one solve per stage', len(calls) == n)
        ks = [list(f.val) for f, _ in calls]
        for i in range(n):
            y = add(u, scale(s.dt, lin(ks[:i + 1], a[i][:i + 1])))
            nl = {'stage': y, 'old': u, '3d': add(u, scale(s.dt, lin(ks[:i], a[i - 1][:i]))) if i else u}[lagged]
            s.same('step %d stage %d' % (k, i), s.G(ks[i]), s.rhs(y, nl, t + c[i] * s.dt))
        s.same('step %d' % k, new, add(u, scale(s.dt, lin(ks, b))))
        v.check('forcing at the stage times', len(s.times) == n and v.all([v.eq(x, t + ci * s.dt) for x, ci in zip(s.times, c)]))
        calls.clear()
    s.steps(integ, step)


for _nm in DIRKS:
    contract('C12', [R + 'DIRKGeneric.' + m for m in ('__init__', 'update_solver', 'initialize', 'update_solution', 'solve_tendency', 'solve_stage', 'get_final_solution')]
             + [R + 'RungeKuttaTimeIntegrator.advance', R + _nm], name='dirk_' + _nm, samples=12, budget=300)(lambda v, nm=_nm: dirk(v, nm))


@contract('C12', [R + 'DIRKGenericUForm.' + m for m in ('__init__', 'update_solver', 'initialize', 'solve_stage', 'get_final_solution')] + [R + n for n in UFORMS],
          name='dirk_uform', samples=20, budget=300)
def dirk_uform(v):
    """the same scheme with the stage values as unknowns and a general mass term: M(y_i) - M(u0) = dt sum_{j<=i} a_ij R(y_j)"""
    name = v.choice('scheme', UFORMS)
    s = Set(v, nonlinear_mass=v.flag('nonlinear_mass'))
    semi = s.opt['use_semi_implicit_linearization'] = v.flag('semi_implicit')
    s.dt_args = s.dts()
    a, b, c = tableau(v, name)
    integ = getattr(rk, name)(s.eq, s.u, s.fields, s.dt_args[0], s.opt, s.bnd)
    n = len(b)
    stages = []
    real_stage = integ.solve_stage

    def solve_stage(i, t, f=None):
        real_stage(i, t, f)
        stages.append(list(s.u.val))
    integ.solve_stage = solve_stage

    def step(k, u, t, new):
        v.check('stages', len(stages) == n)
        rs = [s.rhs(y, u if semi else y, t + ci * s.dt) for y, ci in zip(stages, c)]
        for i in range(n):
            s.same('step %d stage %d' % (k, i), add(s.M(stages[i]), scale(-1, s.M(u))), scale(s.dt, lin(rs[:i + 1], a[i][:i + 1])))
        s.same('step %d weights' % k, add(s.M(new), scale(-1, s.M(u))), scale(s.dt, lin(rs, b)))
        v.check('forcing at the stage times', len(s.times) == n and v.all([v.eq(x, t + ci * s.dt) for x, ci in zip(s.times, c)]))
        stages.clear()
    s.steps(integ, step)


@contract('C12', [R + 'ERKGeneric.' + m for m in ('__init__', 'update_solver', 'initialize', 'update_solution', 'solve_tendency', 'solve_stage', 'get_final_solution')]
          + [R + n for n in ERKS], name='erk', samples=20, budget=300)
def erk(v):
    """u1 = u0 + sum b_j k_j with M k_i = dt R(u0 + sum_{j<i} a_ij k_j); nothing changes when there is no term"""
    name = v.choice('scheme', ERKS)
    have = v.choice('terms', (tsim.LABELS, ('implicit',)))
    s = Set(v, have=have)
    labels = v.choice('labels', ('all', ('explicit', 'source')))
    s.dt_args = s.dts()
    a, b, c = tableau(v, name)
    integ = getattr(rk, name)(s.eq, s.u, s.fields, s.dt_args[0], s.opt, s.bnd, terms_to_add=labels)
    explicit(s, v, integ, a, b, c, labels)


@contract('C12', [R + 'ERKGenericShuOsher.' + m for m in ('__init__', 'update_solver', 'initialize', 'solve_stage', 'advance')] + [R + 'SSPRK33'], name='shu_osher', samples=20, budget=300)
def shu_osher(v):
    """the Shu-Osher form performs the step of its Butcher tableau"""
    have = v.choice('terms', (tsim.LABELS, ('implicit',)))
    s = Set(v, have=have)
    labels = v.choice('labels', ('all', ('explicit', 'source')))
    s.dt_args = s.dts()
    a, b, c = tableau(v, 'SSPRK33')
    # the transformation is C11's; entries are the exact values the rounded coefficients stand for
    snapped(v)
    integ = rk.SSPRK33(s.eq, s.u, s.fields, s.dt_args[0], s.opt, s.bnd, terms_to_add=labels)
    if v.symbolic:
        a, b = [[exact(x) for x in r] for r in a], [exact(x) for x in b]
    explicit(s, v, integ, a, b, c, labels)


def exact(x):
    """the rational with a small denominator that a rounded coefficient stands for"""
    from fractions import Fraction
    f = Fraction(float(x)).limit_denominator(1000)
    return f if abs(float(f) - float(x)) < 1e-12 else Fraction(float(x))


def snapped(v):
    """butcher_to_shuosher_form through its contract (C11), without rounding"""
    orig = rk.butcher_to_shuosher_form

    def form(a, b):
        r = []
        for m in orig(a, b):
            o = numpy.empty(m.shape, dtype=object)
            for ix, x in numpy.ndenumerate(m):
                o[ix] = exact(x)
            r.append(o)
        return tuple(r)
    if v.symbolic:
        v.patch(rk, 'butcher_to_shuosher_form', form)


def explicit(s, v, integ, a, b, c, labels):
    n = len(b)
    trivial = not s.eq.labelset(labels)

    def step(k, u, t, new):
        if trivial:
            s.same('step %d without terms' % k, new, u)
            return
        ks = []
        for i in range(n):
            y = add(u, lin(ks, a[i][:i])) if i else u
            r = s.rhs(y, y, t + c[i] * s.dt, labels)
            ks.append([s.dt * x / s.W.massmat(j) for j, x in enumerate(r)])
        s.same('step %d' % k, new, add(u, lin(ks, b)))
        v.check('forcing at the stage times', len(s.times) == n and v.all([v.eq(x, t + ci * s.dt) for x, ci in zip(s.times, c)]))
    s.steps(integ, step)


def imex_step(v, name):
    """u1 = u0 + sum b_j (k^E_j + dt k^I_j): explicit and source terms in the explicit part, implicit terms in the implicit one, each
    stage built from both tendencies, forcing at the stage times of either scheme"""
    s = Set(v, n=v.choice('components', (1, 2)))
    semi = s.opt['use_semi_implicit_linearization'] = v.flag('semi_implicit')
    s.dt_args = s.dts()
    cls = getattr(imex, name)
    ae, be, ce = tableau(v, cls.erk_class.__name__)
    ai, bi, ci = tableau(v, cls.dirk_class.__name__)
    integ = cls(s.eq, s.u, s.fields, s.dt_args[0], s.opt, s.bnd)
    log = Log(s)
    n = len(be)

    def step(k, u, t, new):
        calls = [(f, x) for f, x in log.calls]
        v.check('two solves per stage', len(calls) == 2 * n)
        kI = [list(calls[2 * i][0].val) for i in range(n)]
        kE = []
        for i in range(n):
            base = add(u, lin(kE, ae[i][:i])) if i else u
            y = add(base, scale(s.dt, lin(kI[:i + 1], ai[i][:i + 1])))
            s.same('step %d implicit stage %d' % (k, i), s.G(kI[i]), s.rhs(y, base if semi else y, t + ci[i] * s.dt, 'implicit'))
            r = s.rhs(y, y, t + ce[i] * s.dt, ('explicit', 'source'))
            kE.append([s.dt * x / s.W.massmat(j) for j, x in enumerate(r)])
        s.same('step %d' % k, new, add(u, lin(kE, be), scale(s.dt, lin(kI, bi))))
        want = [x for i in range(n) for x in (t + ci[i] * s.dt, t + ce[i] * s.dt)]
        v.check('forcing at the stage times', len(s.times) == 2 * n and v.all([v.eq(x, y) for x, y in zip(s.times, want)]))
        log.calls.clear()
    s.steps(integ, step)


for _nm in IMEXS:
    contract('C12', [I + 'IMEXGeneric.' + m for m in ('__init__', 'update_solver', 'initialize', 'advance', 'solve_stage', 'get_final_solution', 'set_dt')] + [I + _nm],
             name='imex_' + _nm, samples=12, budget=300)(lambda v, nm=_nm: imex_step(v, nm))


@contract('C12', [T + 'LeapFrogAM3.' + m for m in ('__init__', 'initialize', '_solve_system', 'predict', 'eval_rhs', 'correct', 'advance')], name='leapfrog', samples=20, budget=200)
def leapfrog(v):
    """predictor: M u' = (1/2-2g) M u_{n-1} + (1/2+2g) M u_n + (1-2g) dt R(u_n); corrector: M u_{n+1} = M u_n + dt R(u'), g = 1/12,
    the mass matrix and the residual being those of the mesh at the time (the mesh may move in between)"""
    have = v.choice('terms', (tsim.LABELS, ('implicit',)))
    s = Set(v, have=have)
    W = s.W
    # mass matrix and inner product are the same thing here
    v.patch(World, 'massmat', lambda self, i: self.gram(i))
    labels = v.choice('labels', ('all', ('explicit', 'source')))
    trivial = not s.eq.labelset(labels)
    s.dt_args = s.dts()
    dt, dt2 = s.dt_args
    integ = ti.LeapFrogAM3(s.eq, s.u, s.fields, dt, s.opt, s.bnd, terms_to_add=labels)
    if dt2 is not None:
        integ.set_dt(dt2)
        dt = dt2
    integ.initialize(s.u)
    moving = v.flag('moving_mesh')
    prev = list(s.u.val)
    t = s.t
    g = 1.0 / 12.0
    for k in range(2):
        u = list(s.u.val)
        s.times.clear()
        m0 = W.mesh
        if moving:
            s.update(t + dt)
            integ.predict()
            mid = list(s.u.val)
            integ.eval_rhs()
            W.mesh += 1
            integ.correct()
            new = list(s.u.val)
        else:
            integ.advance(t, s.update)
            new = list(s.u.val)
            v.check('forcing once, at the new time', trivial or len(s.times) == 1 and v.eq(s.times[0], t + dt))
        if trivial:
            s.same('step %d without terms' % k, new, u)
            t = t + dt
            continue
        m1, W.mesh = W.mesh, m0
        w0 = scale(1, s.G(u))
        first = m0 if not moving else None
        r0 = s.rhs(u, u, t + dt, labels)
        # the mass matrix of the predictor is the one last assembled: that of the current mesh
        p = [((0.5 - 2 * g) * W.gram(0) * prev[0] + (0.5 + 2 * g) * W.gram(0) * u[0] + (1.0 - 2 * g) * dt * r0[0]) / W.gram(0)]
        r1 = s.rhs(p, p, t + dt, labels)
        W.mesh = m1
        s.same('step %d' % k, s.G(new), add(w0, scale(dt, r1)))
        prev = u
        t = t + dt
    v.cover()


@contract('C12', [T + 'SSPRK22ALE.' + m for m in ('__init__', 'initialize', 'stage_one_prep', 'stage_one_solve', 'stage_two_prep', 'stage_two_solve', 'solve_stage',
                                                 'prepare_stage', 'advance')], name='ssprk22ale', samples=20, budget=200)
def ssprk22ale(v):
    """M1 u' = M0 u0 + dt R(u0); M2 u1 = (M1 u' + M0 u0 + dt R(u'))/2 with mass matrix and residual of the mesh at the time"""
    have = v.choice('terms', (tsim.LABELS, ('implicit',)))
    s = Set(v, have=have)
    W = s.W
    v.patch(World, 'massmat', lambda self, i: self.gram(i))
    labels = v.choice('labels', ('all', ('explicit', 'source')))
    trivial = not s.eq.labelset(labels)
    dt, dt2 = s.dts()
    integ = ti.SSPRK22ALE(s.eq, s.u, s.fields, dt, s.opt, s.bnd, terms_to_add=labels)
    if dt2 is not None:
        integ.set_dt(dt2)
        dt = dt2
    integ.initialize(s.u)
    moving = v.flag('moving_mesh')
    t = s.t
    for k in range(2):
        u = list(s.u.val)
        s.times.clear()
        m = [W.mesh]
        if moving:
            for i in range(2):
                integ.prepare_stage(i, t, s.update)
                W.mesh += 1
                m.append(W.mesh)
                integ.solve_stage(i)
        else:
            integ.advance(t, s.update)
            m = [W.mesh] * 3
        new = list(s.u.val)
        v.check('forcing at the stage times', len(s.times) == 2 and v.all([v.eq(s.times[0], t), v.eq(s.times[1], t + dt)]))
        if trivial:
            s.same('step %d without terms' % k, new, u)
        else:
            W.mesh = m[0]
            q0 = s.G(u)
            r0 = s.rhs(u, u, t, labels)
            W.mesh = m[1]
            q1 = add(q0, scale(dt, r0))
            y = [q1[0] / W.gram(0)]
            r1 = s.rhs(y, y, t + dt, labels)
            W.mesh = m[2]
            s.same('step %d' % k, s.G(new), scale(0.5, add(q1, q0, scale(dt, r1))))
        t = t + dt
    v.cover()


@contract('C12', [T + 'PressureProjectionPicard.' + m for m in ('__init__', 'update_solver', 'initialize', 'advance')], name='pressure_projection', samples=20, budget=300)
def pressure_projection(v):
    """momentum with lagged pressure, then the coupled implicit system for the correction, iterated"""
    iters = v.choice('iterations', (1, 2))
    s = Set(v, n=2, solver_parameters_pressure={'ksp_type': 'gmres'}, solver_parameters_momentum={}, picard_iterations=iters)
    s.opt['solver_parameters'] = s.opt['solver_parameters_pressure']
    semi = s.opt['use_semi_implicit_linearization'] = v.flag('semi_implicit')
    th = s.opt['implicitness_theta'] = v.real('theta', lo=0, hi=1)
    v.assume(th > 0)
    v.patch(ti, 'timed_stage', lambda *a: _Null())
    mom = Equation(1, name='mom')
    # momentum terms: one of each label; the implicit one is also a term of the coupled equation
    mom.terms = {'pgrad': None, 'adv': None}
    mom.labels = {'pgrad': 'implicit', 'adv': 'explicit'}
    s.eq.terms = {'pgrad': tsim.Term(s.eq, 'pgrad'), 'adv': tsim.Term(s.eq, 'adv')}
    s.dt_args = s.dts()
    f_begin = list(s.force.val)
    integ = ti.PressureProjectionPicard(s.eq, mom, s.u, s.fields, s.dt_args[0], s.opt, s.bnd)
    log = Log(s)
    W = s.W
    stars = []
    real = tsim.NonlinearVariationalSolver.solve

    def solve(this):
        real(this)
        f = this.prob.a[-1]
        if f is not s.u:
            stars.append(('mom', list(f.val)))
        else:
            stars.append(('all', list(f.val)))
    v.patch(tsim.NonlinearVariationalSolver, 'solve', solve)

    def step(k, u, t, new):
        t1 = t + s.dt
        c = [s.fields['coef'].x]
        fo = c + (f_begin if k == 0 else [s.F(t)])
        fn = s.fv(t1)
        B = [s.B(t1)]
        v.check('a momentum and a coupled solve per iteration', [x for x, _ in stars] == ['mom', 'all'] * iters)
        lag = u
        for it in range(iters):
            us, sol = stars[2 * it][1], stars[2 * it + 1][1]
            # fields sorted by name: coef, eta, forcing
            fm, fmo = [fn[0], lag[1], fn[1]], [fo[0], u[1], fo[1]]
            ls = mom.labelset('all')
            rm = [th * x + (1 - th) * y for x, y in zip(mom.value(ls, us, [lag[0]] if semi else us, fm, fm, B), mom.value(ls, [u[0]], [u[0]], fmo, fmo, B))]
            s.same('step %d iteration %d: momentum' % (k, it), [W.massmat(0) * (us[0] - u[0])], [s.dt * rm[0]])
            nl = lag if semi else sol
            rs = [th * x + (1 - th) * y for x, y in zip(s.rhs(sol, nl, t1, 'implicit', bnd=B), s.rhs(u, u, None, 'implicit', f=fo, bnd=B))]
            tm = th * W.apply('term_pgrad', [us[0], lag[1], lag[0] if semi else us[0], lag[1]] + fn + fn + B) \
                + (1 - th) * W.apply('term_pgrad', [u[0], u[1], u[0], u[1]] + fo + fo + B)
            s.same('step %d iteration %d: coupled' % (k, it), [W.massmat(0) * sol[0] - W.gram(0) * us[0], W.massmat(1) * sol[1] - W.gram(1) * u[1]],
                   [s.dt * (rs[0] - tm), s.dt * rs[1]])
            lag = sol
        s.same('step %d result' % k, new, stars[-1][1])
        v.check('forcing once, at the new time', len(s.times) == 1 and v.eq(s.times[0], t1))
        stars.clear()
    s.steps(integ, step)


class _Null:
    def __enter__(self): pass
    def __exit__(self, *a): pass


@contract('C12', [T + 'TimeIntegrator.create_fields_old', T + 'TimeIntegrator.update_fields_old'], name='lagged_fields', samples=10)
def lagged_fields(v):
    """every coefficient of the equation has a lagged value: functions and functions inside expressions are copied when asked, constants shared"""
    import firedrake as fd
    import ufl
    m = fd.UnitIntervalMesh(1)
    V = fd.FunctionSpace(m, 'DG', 0)
    f, g, h = fd.Function(V).assign(2.), fd.Function(V).assign(3.), fd.Function(V).assign(5.)
    c = fd.Constant(7.)
    fields = {'f': f, 'c': c, 'e1': c * g + 1, 'e2': ufl.conditional(ufl.lt(h, g), f, h) / c, 'e3': 2 * c, 'none': None}
    fields = {k: fields[k] for k in v.choice('fields', (tuple(fields), ('f', 'c', 'none'), ('e1', 'none'), ('e2', 'f')))}

    class It(ti.TimeIntegrator):
        def initialize(self, s): pass
        def advance(self, t, u=None): pass
    it = object.__new__(It)
    it.fields = fields
    it.create_fields_old()

    def val(e):
        # value in the only cell, from the stored numbers
        def ev(x):
            if isinstance(x, fd.Function):
                return float(x.dat.data_ro[0])
            if isinstance(x, fd.Constant):
                return float(x)
            if isinstance(x, ufl.constantvalue.ScalarValue):
                return float(x)
            ops = [ev(y) for y in x.ufl_operands]
            op = {'Sum': lambda a, b: a + b, 'Product': lambda a, b: a * b, 'Division': lambda a, b: a / b, 'LT': lambda a, b: a < b,
                  'GT': lambda a, b: a > b, 'Conditional': lambda a, b, c: b if a else c}.get(type(x).__name__)
            if op:
                return op(*ops)
            raise core.Unsupported(type(x).__name__)
        return ev(e)
    have = {k for k, x in fields.items() if x is not None}
    v.check('every given coefficient has a lagged one', have == {k for k, x in it.fields_old.items() if x is not None})
    it.update_fields_old()
    before = {k: val(fields[k]) for k in have}
    v.check('lagged values are the current ones after an update', all(val(it.fields_old[k]) == before[k] for k in have))
    f.assign(11.), g.assign(-13.), h.assign(17.)
    v.check('and do not follow later changes', all(val(it.fields_old[k]) == before[k] for k in have))
    it.update_fields_old()
    v.check('until updated again', all(val(it.fields_old[k]) == val(fields[k]) for k in have))
    v.cover()
