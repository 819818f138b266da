from firedrake import *
from thetis import momentum_eq
from thetis.utility import physical_constants, AttrDict
from pyvc import uflsem, core
from pyvc.contract import contract
from .swe import MARKERS
from .mom3d import mom3d
from .common import raises
from .c09 import pick

M = 'thetis.momentum_eq:'
IF = ('interior_facet_horiz', 'interior_facet_vert')
EX = ('exterior_facet_vert', 'exterior_facet_top', 'exterior_facet_bottom')
tot = uflsem.total
T_ = lambda *n: [M + x + '.residual' for x in n] + [M + 'MomentumEquation.__init__']


def cfg(v, nl=True, lf=False, fric=False, dg=None):
    h, w = ('DG', 'DG') if dg else v.choice('space', (('DG', 'DG'), ('CG', 'CG')))
    return mom3d(h, w, nl, lf, fric)


def R2(v, nm, s=''):
    return [v.real('%s_%d%s' % (nm, k, s)) for k in range(2)]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def only(v, r, *keys):
    for k, x in r.items():
        if k[0] not in keys:
            v.check('nothing on ' + k[0], v.eq(x, 0))


def rho0(v):
    x = uflsem.evaluate(physical_constants['rho0'], uflsem.Env(v, 3)) if not isinstance(physical_constants['rho0'], float) else core._frac(physical_constants['rho0'])
    return x if v.symbolic else float(x)


@contract('C30', T_('CoriolisTerm', 'LinearDragTerm', 'BottomFrictionTerm', 'PressureGradientTerm', 'SourceTerm'))
def local_terms(v):
    """exact pointwise form of Coriolis, drags, pressure gradient, source and wind stress; each acts alone, at its place, with its sign"""
    m = cfg(v, fric=True)
    env = m.env(v)
    t, u, uo = R2(v, 't'), R2(v, 'uv'), R2(v, 'uvo')
    which = v.choice('term', ('cor', 'ld', 'qd', 'pg', 'src', 'wind', 'wind_inviscid'))
    da = v.flag('da')
    D = R2(v, 'da') if da else [0, 0]
    names = {'wind': ('wind', 'nuv'), 'wind_inviscid': ('wind',)}.get(which, (which,))
    cls = {'cor': 'CoriolisTerm', 'ld': 'LinearDragTerm', 'qd': 'BottomFrictionTerm', 'pg': 'PressureGradientTerm'}.get(which, 'SourceTerm')
    r = uflsem.integrals(m.residual(*names, *(('da',) if da else ()), terms=(cls,)), env)
    U, Uo = [u[k] + D[k] for k in range(2)], [uo[k] + D[k] for k in range(2)]
    if which == 'cor':
        v.check('coriolis', v.eq(tot(r, 'cell'), v.real('cor') * (u[1] * t[0] - u[0] * t[1])))
        only(v, r, 'cell')
    elif which == 'ld':
        v.check('linear drag', v.eq(tot(r, 'cell'), -v.real('ld', lo=0) * dot(U, t)))
        only(v, r, 'cell')
    elif which == 'qd':
        mag = v.sqrt(Uo[0] * Uo[0] + Uo[1] * Uo[1])
        v.check('bottom friction', v.eq(tot(r, EX[2]), -v.real('qd', lo=0) * mag * dot(U, t)))
        only(v, r, EX[2])
    elif which == 'pg':
        v.check('pressure gradient', v.eq(tot(r, 'cell'), -dot(R2(v, 'pg'), t)))
        only(v, r, 'cell')
    elif which == 'src':
        v.check('source', v.eq(tot(r, 'cell'), dot(R2(v, 'src'), t)))
        only(v, r, 'cell')
    elif which == 'wind':
        v.check('wind stress at the surface', v.eq(tot(r, EX[1]) * rho0(v), dot(R2(v, 'wind'), t)))
        only(v, r, EX[1])
    else:
        only(v, r)
    if which in ('ld', 'qd', 'cor'):
        # against the velocity itself
        A = m.Horizontal('A', 'dg')
        r = uflsem.integrals(m.residual(*names, terms=(cls,)), m.env(v, uv=A, test=A, uvo=m.Horizontal('uvo', 'dg')))
        for k, x in r.items():
            v.check('coriolis: no work' if which == 'cor' else 'never adds energy', v.eq(x, 0) if which == 'cor' else v.le(x, 0))
    v.cover()


@contract('C30', T_('BottomFrictionTerm'))
def roughness_friction(v):
    """log-law friction: opposes the flow; required roughness is demanded"""
    m = cfg(v, fric=True, dg=True)
    A = m.Horizontal('A', 'dg')
    z0, h = v.real('z0', pos=True), v.real('velem', pos=True)
    env = m.env(v, uv=A, test=A)
    r = uflsem.integrals(m.residual('z0', terms=('BottomFriction',)), env)
    ln = v.uf('log', (h + z0) / z0)
    b = -h * 7 / 4 - z0 * 3 / 2 + (h + z0 * 5 / 2) * ln
    v.assume(b != 0 if v.symbolic else abs(b) > 1e-6)
    f = (uflsem.evaluate(Constant(physical_constants['von_karman']) if isinstance(physical_constants['von_karman'], float) else physical_constants['von_karman'], env) * h / b)
    uo = R2(v, 'uvo')
    mag = v.sqrt(uo[0] * uo[0] + uo[1] * uo[1])
    a = R2(v, 'A')
    v.check('form', v.eq(tot(r, EX[2]), -f * f * mag * dot(a, a)))
    only(v, r, EX[2])
    ex, _ = raises(lambda: m.residual(terms=('BottomFriction',)))
    v.check('roughness required', isinstance(ex, AssertionError))
    v.check('switched off', mom3d('DG', 'DG', True, False, False).residual('z0', terms=('BottomFriction',)) == 0)
    v.cover()


VT = {'nu': 'HorizontalViscosityTerm', 'nuv': 'VerticalViscosityTerm'}


@contract('C30', T_(*VT.values()), budget=200)
def viscosity(v):
    m = cfg(v)
    nu = v.choice('which', tuple(VT))
    A, B = m.Horizontal('A', 'dg'), m.Horizontal('B', 'dg')
    res = m.residual(nu, terms=(VT[nu],))
    r1, r2 = uflsem.integrals(res, m.env(v, uv=A, test=B)), uflsem.integrals(res, m.env(v, uv=B, test=A))
    for k in set(r1) | set(r2):
        if not k[0].startswith('exterior'):
            v.check('symmetric: ' + k[0], v.eq(r1.get(k, 0), r2.get(k, 0)))
    K = v.real(nu, lo=0)
    D = 'xy' if nu == 'nu' else 'z'
    v.check('cell', v.eq(tot(r1, 'cell'), -K * sum(v.real('A_%d_d%s' % (i, d)) * v.real('B_%d_d%s' % (i, d)) for i in range(2) for d in D)))
    r = uflsem.integrals(res, m.env(v, uv=A, test=A))
    v.check('dissipates', v.le(tot(r, 'cell'), 0))
    P0 = m.Horizontal('A', 'dg', deriv=lambda c, d, r: 0)
    r = uflsem.integrals(res, m.env(v, uv=P0, test=P0))
    for k in IF:
        v.check('penalty dissipates', v.le(tot(r, k), 0))
    for k, x in uflsem.integrals(res, m.env(v, uv=lambda c, r: v.real('k%d' % c[-1]))).items():
        v.check('uniform velocity is not damped: ' + k[0], v.eq(x, 0))
    for i in range(2):
        r = uflsem.integrals(res, m.env(v, test=lambda c, r: 1 if c[-1] == i else 0))
        for k in ('cell',) + IF:
            v.check('momentum only redistributed: ' + k, v.eq(tot(r, k), 0))
        v.check('closed lateral boundaries', v.eq(tot(r, EX[0]), 0))
        if nu == 'nuv':
            v.check('vertical diffusion: bed and surface stress only from friction and wind', v.eq(tot(r, EX[1]) + tot(r, EX[2]), 0))
    if m.dg:
        S = m.Horizontal('s', 'cg', deriv=lambda c, d, r: v.real('ds_%d_%d' % (c[-1], d[0])))
        env = m.env(v, uv=S)
        r = uflsem.integrals(res, env)
        n = [env.normal(k, '+') for k in range(3)]
        fl = K * sum((v.real('t_%dP' % i) - v.real('t_%dM' % i)) * sum(n['xyz'.index(d)] * v.real('ds_%d_%d' % (i, 'xyz'.index(d))) for d in D) for i in range(2))
        v.check('smooth velocity, horizontal facets', v.eq(tot(r, IF[0]), fl))
        v.check('smooth velocity, vertical facets', v.eq(tot(r, IF[1]), fl if nu == 'nu' else 0))
    v.cover()


class Sum(uflsem.Field):
    def __init__(self, *f): self.f = f
    def kind(self, i): return 'dg'
    def get(self, *a): return sum(f.get(*a) for f in self.f)


@contract('C30', T_(*VT.values()), budget=200)
def viscosity_full_velocity(v):
    """mode splitting: the stress is that of the full velocity (solution plus depth average), for horizontal and vertical viscosity alike"""
    m = cfg(v)
    nu = v.choice('which', tuple(VT))
    A, B = m.Horizontal('A', 'dg'), m.Horizontal('B', 'dg')
    # the depth average does not change in the vertical
    C = m.Horizontal('C', 'dg') if nu == 'nu' else m.Horizontal('C', 'cg', deriv=lambda c, d, r: 0 if 2 in d else v.real('C_%d_d%s%s' % (c[-1], 'xy'[d[0]], r)))
    split, full = m.residual(nu, 'da', terms=(VT[nu],)), m.residual(nu, terms=(VT[nu],))
    e1, e2 = m.env(v, uv=A, test=B), m.env(v, uv=Sum(A, C), test=B)
    e1.fields[m.da] = C
    r1, r2 = uflsem.integrals(split, e1), uflsem.integrals(full, e2)
    v.check('acts on the full velocity', 'cell' in {k[0] for k in r1})
    for k in set(r1) | set(r2):
        v.check('stress of the full velocity: ' + k[0], v.eq(r1.get(k, 0), r2.get(k, 0)))
    v.cover()


def vel(v, m, da, s=''):
    u, uo = R2(v, 'uv', s), R2(v, 'uvo', s)
    if da:
        d = R2(v, 'da', s)
        u, uo = [u[k] + d[k] for k in range(2)], [uo[k] + d[k] for k in range(2)]
    return u, uo


@contract('C30', T_('HorizontalAdvectionTerm', 'VerticalAdvectionTerm'), budget=250)
def advection_interior(v):
    """momentum leaving a cell enters its neighbour, taken from the upwind side; Lax-Friedrichs dissipates"""
    v.fork = True
    m = cfg(v, dg=True)
    part = v.choice('part', ('HorizontalAdvection', 'VerticalAdvection'))
    da, wm = v.flag('da'), v.flag('wm')
    names = (('da',) if da else ()) + (('w',) + (('wm',) if wm else ()) if part[0] == 'V' else ())
    i = v.choice('comp', (0, 1))
    res = m.residual(*names, terms=(part,))
    side = lambda s: (lambda c, r: 1 if (c[-1] == i and r == s) else 0)
    fP, envP = None, m.env(v, test=side('+'))
    rP = uflsem.integrals(res, envP)
    env = m.env(v, test=side('-'))
    rM = uflsem.integrals(res, env)
    n = [env.normal(k, '+') for k in range(3)]
    uP, uoP = vel(v, m, da, 'P')
    uM, uoM = vel(v, m, da, 'M')
    if part[0] == 'H':
        av = dot(n, uoP) / 2 + dot(n, uoM) / 2
    else:
        w = lambda s: v.real('w_2' + s) - (v.real('wm' + s) if wm else 0)
        av = n[2] * (w('P') + w('M')) / 2
    up = pick(v, av, uP[i], uM[i])
    for k in IF:
        if part[0] == 'V' and k == IF[1]:
            v.check('no vertical advection through vertical facets', v.all([v.eq(tot(rP, k), 0), v.eq(tot(rM, k), 0)]))
            continue
        v.check('out of +', v.eq(tot(rP, k), -up * av))
        v.check('into -', v.eq(tot(rM, k), up * av))
    r = uflsem.integrals(res, m.env(v))
    t = {d: [v.real('t_%d_d%s' % (k, d)) for k in range(2)] for d in 'xyz'}
    u, uo = vel(v, m, da)
    if part[0] == 'H':
        cell = sum(u[a] * uo[b] * t['xy'[b]][a] for a in range(2) for b in range(2))
        v.check('cell', v.eq(tot(r, 'cell'), cell))
    else:
        w = v.real('w_2') - (v.real('wm') if wm else 0)
        v.check('cell', v.eq(tot(r, 'cell'), w * dot(u, t['z'])))
    lin = mom3d('DG', 'DG', False, False, False)
    v.check('linear model: no advection', lin.residual(*names, terms=('Advection',)) == 0)
    v.cover()


@contract('C30', T_('HorizontalAdvectionTerm', 'VerticalAdvectionTerm'), budget=250)
def lax_friedrichs(v):
    v.fork = True
    part = v.choice('part', ('HorizontalAdvection', 'VerticalAdvection'))
    a, b = mom3d('DG', 'DG', True, True, False), mom3d('DG', 'DG', True, False, False)
    names = ('w',) if part[0] == 'V' else ()
    A = a.Horizontal('A', 'dg')
    r = [uflsem.integrals(m.residual(*names, terms=(part,)), m.env(v, uv=A, test=A)) for m in (a, b)]
    for k in set(r[0]) | set(r[1]):
        d = r[0].get(k, 0) - r[1].get(k, 0)
        if k[0] in IF or k[0] == EX[0]:
            v.check('dissipative: ' + k[0], v.le(d, 0))
        else:
            v.check('not elsewhere: ' + k[0], v.eq(d, 0))
    for i in range(2):
        r = [uflsem.integrals(m.residual(*names, terms=(part,)), m.env(v, test=lambda c, r: 1 if c[-1] == i else 0)) for m in (a, b)]
        for k in IF:
            v.check('conservative: ' + k, v.eq(tot(r[0], k), tot(r[1], k)))
    # a velocity along a closed wall feels nothing
    env = a.env(v)
    n = [env.normal(k, None) for k in range(3)]
    s = v.real('s')
    env = a.env(v, uv=lambda c, r: s * (-n[1] if c[-1] == 0 else n[0]))
    v.check('tangential flow at a wall', v.eq(tot(uflsem.integrals(a.residual(*names, terms=(part,)), env), EX[0]), 0))
    v.cover()


@contract('C30', T_('HorizontalAdvectionTerm', 'VerticalAdvectionTerm'), budget=250)
def advection_boundary(v):
    """surface: velocity relative to the moving mesh; bed: none; closed walls: none; open boundaries: interior value out, exterior value in"""
    v.fork = True
    m = cfg(v, dg=True)
    da, wm = v.flag('da'), v.flag('wm')
    data = v.choice('data', ('none', 'symm', 'uv', 'un', 'flux', 'bad'))
    c = Constant((0., 0., 0.)) if data == 'uv' else Constant(0.)
    bnd = {} if data == 'none' else {2: {data: c}}
    names = ('w',) + (('da',) if da else ()) + (('wm',) if wm else ())
    if data == 'bad':
        ex, _ = raises(m.residual, *names, bnd=bnd, terms=('Advection',))
        v.check('unknown data rejected', ex is not None and not isinstance(ex, (TypeError, AttributeError, NameError)))
        return
    env = m.env(v, uvo=m.Horizontal('uv', 'dg'))     # the integrators pass the solution as lagged solution
    env.set(c, 'b', 'const')
    He = v.real('bath', pos=True) + v.real('eta')
    if data == 'flux':
        v.assume(He > 0)
    if data != 'flux':
        res = m.residual(*names, bnd=bnd, terms=('Advection',))
    else:
        real_constant = momentum_eq.Constant

        def const(x, *a, **k):
            k = real_constant(1.0)
            env.const(k, uflsem.evaluate(x, env))
            return k
        v.patch(momentum_eq, 'Constant', const)
        res = m.residual(*names, bnd=bnd, terms=('Advection',))
    r = uflsem.integrals(res, env)
    n = [env.normal(k, None) for k in range(3)]
    u, _ = vel(v, m, da)
    t = R2(v, 't')
    w = v.real('w_2') - (v.real('wm') if wm else 0)
    v.check('surface', v.eq(tot(r, EX[1]), -(dot(u, t) * dot(u, n) + w * n[2] * dot(u, t))))
    v.check('bed', v.eq(tot(r, EX[2]), 0))
    nh = n[0] * n[0] + n[1] * n[1]
    if data == 'none' or data == 'symm':
        ue = u
    elif data == 'uv':
        ue = R2(v, 'b')
    elif data == 'un':
        ue = [v.real('b') * n[k] for k in range(2)]
    else:
        ue = [v.real('b') / (He * v.real('len2', pos=True)) * n[k] for k in range(2)]
    un = dot(u, n)
    av = (un + dot(ue, n)) / 2
    e = un * dot(u, t)
    if v.sign(av) < 0:
        e = e + av * (dot(ue, t) - dot(u, t))
    elif v.sign(av) == 0:
        e = e + av * (dot(ue, t) - dot(u, t)) / 2
    for k in MARKERS:
        x = r.get((EX[0], k), 0)
        if k == 2 and data != 'none':
            v.check('open boundary', v.eq(x, -e))
        else:
            v.check('closed wall', v.eq(x, 0))
    v.cover()


@contract('C30', [M + 'InternalPressureGradientCalculator.residual', M + 'InternalPressureGradientCalculator.__init__', M + 'InternalPressureGradientCalculator.solve'])
def internal_pressure_gradient(v):
    """g times the horizontal gradient of the baroclinic head: exact divergence form for continuous heads, none for a constant head"""
    space = v.choice('space', ('DG', 'CG'))
    m = mom3d('DG', 'DG', True, False, False)
    mesh = m.mesh
    hs = FunctionSpace(mesh, TensorProductElement(FiniteElement(space, triangle, 1), FiniteElement(space, interval, 1)))
    head, pg = Function(hs, name='head'), Function(m.U, name='ipg')
    scal = Constant(1.)
    use_scal = v.flag('scalar')
    data = v.flag('bnd_data')
    ext = Constant(0.)
    rec = {}

    class Prob:
        def __init__(s, a, l, sol, *x, **k): rec.update(a=a, l=l, sol=sol)

    class Solv:
        def __init__(s, prob, **k): rec['n'] = 0

        def solve(s): rec['n'] += 1
    v.patch(momentum_eq, 'LinearVariationalProblem', Prob)
    v.patch(momentum_eq, 'LinearVariationalSolver', Solv)
    fields = AttrDict({'int_pg_3d': pg, 'baroc_head_3d': head})
    calc = momentum_eq.InternalPressureGradientCalculator(fields, m.bath, {2: {'baroc_head': ext}, 3: {'un': ext}} if data else {3: {'un': ext}}, internal_pg_scalar=scal if use_scal else None)
    calc.solve()
    v.check('one solve for the requested field', rec['n'] == 1 and rec['sol'] is pg)
    g = uflsem.evaluate(Constant(physical_constants['g_grav']) if isinstance(physical_constants['g_grav'], float) else physical_constants['g_grav'], uflsem.Env(v, 3))
    kind = v.choice('head', ('general', 'continuous', 'constant')) if space == 'DG' else 'continuous'

    def env_():
        e = m.env(v)
        e.fields[pg] = m.Horizontal('ipg', 'dg')
        tf = TrialFunction(m.U)
        e.fields[tf] = m.Horizontal('tri', 'dg')
        e.set(scal, 'sc', 'const')
        e.set(ext, 'ext', 'const')
        if kind == 'constant':
            e.set(head, 'head', 'const')
        else:
            e.set(head, 'head', 'cg' if kind == 'continuous' else 'dg')
        return e
    env = env_()
    a = uflsem.integrals(rec['a'], env)
    v.check('mass matrix', v.eq(tot(a, 'cell'), dot(R2(v, 'tri'), R2(v, 't'))))
    r = uflsem.integrals(rec['l'], env)
    k = g * (v.real('sc') if use_scal else 1)
    t = R2(v, 't')
    n = [env.normal(i, None) for i in range(3)]
    if space == 'CG':
        v.check('gradient of a continuous head', v.eq(tot(r, 'cell'), k * (v.real('head_dx') * t[0] + v.real('head_dy') * t[1])))
        only(v, r, 'cell')
    else:
        h = v.real('head')
        hP, hM = (v.real('headP'), v.real('headM')) if kind == 'general' else (h, h)
        v.check('cell', v.eq(tot(r, 'cell'), -k * h * (v.real('t_0_dx') + v.real('t_1_dy'))))
        nP = [env.normal(i, '+') for i in range(2)]
        jt = dot(nP, R2(v, 't', 'P')) - dot(nP, R2(v, 't', 'M'))
        for f in IF:
            v.check('facet: ' + f, v.eq(tot(r, f), k * (hP + hM) / 2 * jt))
        for f in EX[1:]:
            v.check(f, v.eq(tot(r, f), k * h * dot(n, t)))
        for mk in MARKERS:
            hx = (h + v.real('ext')) / 2 if data and mk == 2 else h
            v.check('lateral boundary', v.eq(r.get((EX[0], mk), 0), k * hx * dot(n, t)))
    v.check('nothing without a head', momentum_eq.InternalPressureGradientCalculator.residual(calc, pg, pg, {}, {}, {}) == 0)
    v.cover()
