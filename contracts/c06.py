from firedrake import *
from thetis import turbines, options as topt
from pyvc import uflsem, core
from pyvc.contract import contract
from .swe import *
from .common import raises

SW = 'thetis.shallowwater_eq:'
EQ = [SW + 'BaseShallowWaterEquation.add_momentum_terms', SW + 'BaseShallowWaterEquation.residual_uv_eta',
      SW + 'ShallowWaterEquations.residual', SW + 'ShallowWaterMomentumEquation.residual']


def G(v):
    return core._frac(float(sw.g_grav)) if v.symbolic else float(sw.g_grav)


def KAPPA(v):
    from thetis.physical_constants import physical_constants as pc
    x = pc['von_karman']
    x = float(x)
    return core._frac(x) if v.symbolic else x


def RHO(v):
    x = float(sw.rho_0)
    return core._frac(x) if v.symbolic else x


dot2 = lambda a, b: a[0] * b[0] + a[1] * b[1]


def diff(s, v, env, fields, bnd=None, base=None):
    """integrands contributed by `fields` to the whole momentum equation"""
    a = uflsem.integrals(s.residual('all', {}, dict(base or {}, **fields), bnd), env)
    b = uflsem.integrals(s.residual('all', {}, dict(base or {}), {k: {} for k in (bnd or {})}), env)
    return {k: a.get(k, 0) - b.get(k, 0) for k in set(a) | set(b)}


def field(s, env, nm, shape='scalar', kind='cg', **kw):
    f = Function(FunctionSpace(s.mesh, 'CG', 1) if shape == 'scalar' else VectorFunctionSpace(s.mesh, 'CG', 1), name=nm)
    env.set(f, nm, kind, **kw)
    return f


def cfg(v, eqs=('full', 'momentum'), fams=('dg-dg', 'rt-dg', 'dg-cg'), depths=DEPTHS, **k):
    nm, nl, wd = v.choice('depth', depths)
    return swe(v.choice('family', fams), nl, wd, v.choice('equation', eqs), **k)


def uv_of(v, s, env, old=False):
    a = s.args()
    u = a[2] if old else a[0]
    return [uflsem.evaluate(u[0], env), uflsem.evaluate(u[1], env)]


def only_cell(v, d, name):
    for k, x in d.items():
        if k[0] != 'cell':
            v.check(name + ': no facet contribution', v.eq(x, 0))


@contract('C06', [SW + 'LinearDragTerm.residual', SW + 'QuadraticDragTerm.residual', *EQ], budget=200)
def drag(v):
    s = cfg(v)
    kind = v.choice('drag', ('linear_drag_coefficient', 'quadratic_drag_coefficient', 'manning_drag_coefficient', 'nikuradse_bed_roughness'))
    env = s.env(v, etest=zero)
    c = field(s, env, 'c', lo=0, pos=(kind == 'nikuradse_bed_roughness'))
    H = s.assume_depth(v, env)
    d = diff(s, v, env, {kind: c})
    U, Uo = uv_of(v, s, env), uv_of(v, s, env, True)
    ut = [v.real('ut_0'), v.real('ut_1')]
    f = d.get(('cell', 'everywhere'), uflsem.total(d, 'cell'))
    only_cell(v, d, 'drag')
    C = v.real('c', lo=0)
    sp = v.sqrt(dot2(Uo, Uo) + v.real('smooth', pos=True) * v.real('smooth', pos=True))
    if kind == 'linear_drag_coefficient':
        k = C
    else:
        if kind == 'manning_drag_coefficient':
            C = G(v) * C * C / v.pow(H, core.Fraction(1, 3) if v.symbolic else 1 / 3)
        elif kind == 'nikuradse_bed_roughness':
            lg = v.uf('log', H * core._frac(11.036) / C if v.symbolic else 11.036 * H / C)
            if v.symbolic:
                v.assume(v.not_(v.eq(lg, 0)))
            wet = H > C
            C = v.ite(wet, 2 * KAPPA(v) * KAPPA(v) / (lg * lg) if v.symbolic or wet else 0, 0)
        k = C * sp / H
    v.check('drag is -k u with k >= 0', v.eq(f, -k * dot2(U, ut)))
    v.check('drag coefficient non-negative', v.le(0, k))
    v.cover()


@contract('C06', [SW + 'LinearDragTerm.residual', SW + 'QuadraticDragTerm.residual', *EQ], budget=200)
def drag_dissipates(v):
    """test = uv: the energy input is not positive"""
    s = cfg(v, fams=('dg-dg', 'rt-dg'))
    kind = v.choice('drag', ('linear_drag_coefficient', 'quadratic_drag_coefficient', 'manning_drag_coefficient'))
    u = uflsem.Field('uv', 'dg')
    env = s.env(v, etest=zero, utest=u)
    c = field(s, env, 'c', lo=0)
    H = s.assume_depth(v, env)
    d = diff(s, v, env, {kind: c})
    v.check('no energy input', v.le(uflsem.total(d, 'cell'), 0))
    v.cover()


@contract('C06', [SW + 'QuadraticDragTerm.residual'])
def conflicting_drag(v):
    s = cfg(v, eqs=('full',), fams=('dg-dg',))
    ks = [k for k in ('quadratic_drag_coefficient', 'manning_drag_coefficient', 'nikuradse_bed_roughness') if v.flag(k)]
    ex, r = raises(s.residual, 'all', {}, {k: Constant(0.01) for k in ks})
    v.check('more than one quadratic drag law is rejected', (ex is not None) == (len(ks) > 1), repr(ex))
    v.cover()


@contract('C06', [SW + 'BoundaryDragTerm.residual', *EQ])
def boundary_drag(v):
    s = cfg(v, fams=('dg-dg', 'rt-dg'))
    env = s.env(v, etest=zero, utest=uflsem.Field('uv', 'dg'))
    C = Constant(0.)
    env.set(C, 'C', 'const', lo=0)
    s.assume_depth(v, env)
    d = diff(s, v, env, {}, {2: {'drag': C}})
    U, Uo = uv_of(v, s, env), uv_of(v, s, env, True)
    n = [env.normal(i, None) for i in range(2)]
    t = [-n[1], n[0]]
    f = d.get(('exterior_facet', 2), 0)
    v.check('wall friction opposes the tangential velocity', v.eq(f, -v.real('C', lo=0) * v.abs(dot2(Uo, t)) * dot2(U, t) * dot2(U, t)))
    for k, x in d.items():
        if k != ('exterior_facet', 2):
            v.check('nothing elsewhere', v.eq(x, 0))
    v.check('wall friction dissipates', v.le(f, 0))
    v.cover()


_FARM = {}


def farm(kind, corr):
    if (kind, corr) not in _FARM:
        m = mesh2d()
        dens = Function(FunctionSpace(m, 'CG', 1), name='density')
        o = topt.TidalTurbineFarmOptions()
        o.turbine_type = kind
        if kind == 'constant':
            o.turbine_options.thrust_coefficient = 0.7
        else:
            o.turbine_options.thrust_speeds = [0.9, 1.0, 2.0, 4.5]
            o.turbine_options.thrust_coefficients = [0.0, 0.8, 0.8, 0.3]
        o.turbine_options.diameter = 18.0
        f = turbines.TidalTurbineFarm(dens, dx(2, domain=m), o)
        f.turbine.upwind_correction = corr
        _FARM[(kind, corr)] = f, dens
    return _FARM[(kind, corr)]


_TS = {}


@contract('C06', [SW + 'TurbineDragTerm.residual', SW + 'TurbineDragTerm.__init__', *EQ], budget=200)
def turbine_drag(v):
    kind = v.choice('turbine', ('constant', 'table'))
    corr = v.flag('upwind_correction')
    nm, nl, wd = v.choice('depth', DEPTHS[:2])
    ek = v.choice('equation', ('full', 'momentum'))
    f, dens = farm(kind, corr)
    two = v.flag('two_farms')
    key = (kind, corr, nm, ek, two)
    farms = [f, f] if two else [f]
    if key not in _TS:
        _TS[key] = Swe('dg-dg', nl, wd, ek, farms=farms), Swe('dg-dg', nl, wd, ek)
    s, s0 = _TS[key]
    env = s.env(v, etest=zero, utest=uflsem.Field('uv', 'dg'))
    env0 = s0.env(v, etest=zero, utest=uflsem.Field('uv', 'dg'))
    env.set(dens, 'density', 'cg', lo=0)
    H = s.assume_depth(v, env)
    a = uflsem.integrals(s.residual('all'), env)
    b = uflsem.integrals(s0.residual('all'), env0)
    U, Uo = uv_of(v, s, env), uv_of(v, s, env, True)
    ct = uflsem.evaluate(f.friction_coefficient(s.args()[2], s.depth.get_total_depth(s.args()[3])), env)
    if corr:
        v.assume(H > 18)     # depth larger than the rotor diameter
    k = ct * v.real('density', lo=0) * v.sqrt(dot2(Uo, Uo)) / H * (2 if two else 1)
    d = a.get(('cell', 2), 0)
    v.check('turbine drag is -c_t density |u| u / H on the farm', v.eq(d, -k * dot2(U, U)))
    for key in set(a) | set(b):
        if key != ('cell', 2):
            v.check('nothing elsewhere', v.eq(a.get(key, 0), b.get(key, 0)))
    if not corr:
        v.check('turbines dissipate', v.implies(v.le(0, ct), v.le(d, 0)))
    v.check('friction coefficient not negative', v.le(0, ct))
    v.cover()


@contract('C06', [SW + 'BottomDrag3DTerm.residual', SW + 'WindStressTerm.residual', SW + 'MomentumSourceTerm.residual',
                  SW + 'AtmosphericPressureTerm.residual', *EQ])
def momentum_forcing(v):
    """external momentum forcings enter once, with the physical sign"""
    s = cfg(v, fams=('dg-dg', 'rt-dg', 'dg-cg'))
    env = s.env(v, etest=zero)
    H = s.assume_depth(v, env)
    ut = [v.real('ut_0'), v.real('ut_1')]
    kind = v.choice('kind', ('wind_stress', 'momentum_source', 'atmospheric_pressure', 'bottom_drag'))
    rho = RHO(v)
    if kind == 'bottom_drag':
        fs = {'bottom_drag': field(s, env, 'cd', lo=0), 'uv_bottom': field(s, env, 'ub', 'vector')}
        ub = [v.real('ub_0'), v.real('ub_1')]
        exp = -v.real('cd', lo=0) * v.sqrt(dot2(ub, ub)) * dot2(ub, ut) / H
    elif kind == 'atmospheric_pressure':
        fs = {kind: field(s, env, 'p')}
        exp = -(v.real('p_dx') * ut[0] + v.real('p_dy') * ut[1]) / rho
    else:
        fs = {kind: field(s, env, 'F', 'vector')}
        F = [v.real('F_0'), v.real('F_1')]
        exp = dot2(F, ut) / H / rho if kind == 'wind_stress' else dot2(F, ut)
    d = diff(s, v, env, fs)
    only_cell(v, d, kind)
    v.check('forcing ' + kind, v.eq(uflsem.total(d, 'cell'), exp))
    v.cover()


@contract('C06', [SW + 'CoriolisTerm.residual', *EQ, SW + 'ModeSplit2DEquations.add_momentum_terms'])
def coriolis(v):
    s = cfg(v, eqs=('full', 'momentum', 'modesplit'), fams=FAMILIES, depths=DEPTHS[:1])
    env = s.env(v, etest=zero)
    s.assume_depth(v, env)
    d = diff(s, v, env, {'coriolis': field(s, env, 'f')})
    only_cell(v, d, 'Coriolis')
    U, ut, f = uv_of(v, s, env), [v.real('ut_0'), v.real('ut_1')], v.real('f')
    v.check('f u rotated to the right', v.eq(uflsem.total(d, 'cell'), f * (U[1] * ut[0] - U[0] * ut[1])))
    env2 = s.env(v, etest=zero, utest=uflsem.Field('uv', 'dg'))
    env2.fields.update({k: x for k, x in env.fields.items() if k not in env2.fields})
    fld = field(s, env2, 'f')
    s.assume_depth(v, env2)
    d2 = diff(s, v, env2, {'coriolis': fld})
    v.check('no work', v.eq(uflsem.total(d2, 'cell'), 0))
    v.cover()


_SPH = []


def sphere():
    if not _SPH:
        m = IcosahedralSphereMesh(1.0, 0)
        x = SpatialCoordinate(m)
        m.init_cell_orientations(x)
        m.boundary_len = {}
        U, H = FunctionSpace(m, 'RTF', 1), FunctionSpace(m, 'DG', 0)
        W = U * H
        b = Function(FunctionSpace(m, 'CG', 1))
        from thetis import utility
        d = utility.DepthExpression(b)
        o = topt.ModelOptions2d()
        eq = sw.ShallowWaterEquations(W, d, o)
        _SPH.append((m, W, b, eq, Function(W), Function(W), Function(FunctionSpace(m, 'CG', 1))))
    return _SPH[0]


@contract('C06', [SW + 'CoriolisTerm.residual'])
def coriolis_on_the_sphere(v):
    m, W, b, eq, sol, old, cor = sphere()
    env = uflsem.Env(v, 3)
    env.set(cor, 'f', 'cg')
    names = lambda nm: uflsem.Field(nm, 'dg')

    class M(uflsem.Field):
        def get(s, env, comp, derivs, r):
            return uflsem.Field.get(s, env, comp, derivs, r)
    for c, nm in ((sol, 'u'), (old, 'uo'), (TestFunction(W), 'ut')):
        env.fields[c] = M(nm, 'dg')
    t = eq.terms['CoriolisTerm']
    uv, eta = split(sol)
    form = t.residual(uv, eta, *split(old), {}, {'coriolis': cor}, {})
    ints = uflsem.integrals(form, env)
    f = uflsem.total(ints, 'cell')
    k = [v.real('cellnormal_%d' % i) for i in range(3)]
    U, ut = [v.real('u_%d' % i) for i in range(3)], [v.real('ut_%d' % i) for i in range(3)]
    cr = [k[1] * U[2] - k[2] * U[1], k[2] * U[0] - k[0] * U[2], k[0] * U[1] - k[1] * U[0]]
    v.check('-f k x u', v.eq(f, -v.real('f') * sum(a * b for a, b in zip(cr, ut))))
    env.fields[TestFunction(W)] = env.fields[sol]
    v.check('no work', v.eq(uflsem.total(uflsem.integrals(form, env), 'cell'), 0))
    v.cover()


@contract('C06', [SW + 'HorizontalAdvectionTerm.residual', *EQ], budget=200)
def lax_friedrichs(v):
    fam = v.choice('family', ('dg-dg', 'rt-dg', 'dg-cg'))
    ek = v.choice('equation', ('full', 'momentum'))
    s1 = swe(fam, True, False, ek, opts={'use_lax_friedrichs_velocity': True})
    s0 = swe(fam, True, False, ek, opts={'use_lax_friedrichs_velocity': False})
    bk = v.choice('bnd', ('closed', 'open'))
    r = []
    for s in (s1, s0):
        env = s.env(v, etest=zero, utest=uflsem.Field('uv', 'dg'))
        bnd = {}
        if bk == 'open':
            c = Constant(0.)
            env.set(c, 'b_elev', 'const')
            bnd = {2: {'elev': c}}
        s.assume_depth(v, env)
        r.append(uflsem.integrals(s.residual('all', {}, {'lax_friedrichs_velocity_scaling_factor': s.lf}, bnd), env))
    for k in set(r[0]) | set(r[1]):
        d = r[0].get(k, 0) - r[1].get(k, 0)
        if k[0] == 'cell':
            v.check('no volume term', v.eq(d, 0))
        else:
            v.check('dissipative on ' + k[0], v.le(d, 0))
            if bk == 'open' and k == ('exterior_facet', 2):
                v.check('not at open boundaries', v.eq(d, 0))
    jx, jy = v.real('uv_0P') - v.real('uv_0M'), v.real('uv_1P') - v.real('uv_1M')
    d = uflsem.total(r[0], 'interior_facet') - uflsem.total(r[1], 'interior_facet')
    n = [env.normal(i, '-') for i in range(2)]
    un = (v.real('uvo_0P') + v.real('uvo_0M')) / 2 * n[0] + (v.real('uvo_1P') + v.real('uvo_1M')) / 2 * n[1]
    v.check('penalty |u.n|/2 [u]^2', v.eq(d, -v.abs(un) * v.real('lf', lo=0) * (jx * jx + jy * jy) / 2))
    v.cover()


@contract('C06', [SW + 'HorizontalViscosityTerm.residual', *EQ], budget=300)
def viscosity_symmetric(v):
    """B(u, w) = B(w, u) cell- and facetwise, constants are in the kernel, the penalty and volume parts dissipate"""
    fam = v.choice('family', ('dg-dg', 'rt-dg', 'dg-cg'))
    gd = v.flag('grad_div')
    ek = v.choice('equation', ('full', 'momentum'))
    s = swe(fam, True, False, ek, opts={'use_grad_div_viscosity_term': gd, 'use_grad_depth_viscosity_term': False})
    bk = v.choice('bnd', ('closed', 'uv'))
    A, B = uflsem.Field('A', 'dg'), uflsem.Field('B', 'dg')
    res = []
    for a, b in ((A, B), (B, A)):
        env = s.env(v, etest=zero, uv=a, utest=b)
        nu = field(s, env, 'nu', kind='cg', lo=0)
        bnd = {}
        if bk != 'closed':
            c = Constant((0., 0.)) if bk == 'uv' else Constant(0.)
            env.const(c, [0, 0] if bk == 'uv' else 0)
            bnd = {2: {bk: c}}
        t = s.eq.terms['HorizontalViscosityTerm']
        uv, eta, uvo, etao = s.args()
        res.append((uflsem.integrals(t.residual(uv, eta, uvo, etao, {}, {'viscosity_h': nu}, bnd), env), env))
    r1, r2 = res[0][0], res[1][0]
    for k in set(r1) | set(r2):
        v.check('symmetric: ' + k[0], v.eq(r1.get(k, 0), r2.get(k, 0)))
    v.check('interior facets covered', any(k[0] == 'interior_facet' for k in r1))
    # whole equation contains exactly this term
    env = res[0][1]
    nu = field(s, env, 'nu', kind='cg', lo=0)
    d = diff(s, v, env, {'viscosity_h': nu})
    v.check('in the equation', v.eq(uflsem.total(d, 'cell'), uflsem.total(r1, 'cell')))
    # dissipation: test = uv in the cell; penalty for piecewise constants
    env = s.env(v, etest=zero, uv=A, utest=A)
    nu = field(s, env, 'nu', kind='cg', lo=0)
    form = t.residual(uv, eta, uvo, etao, {}, {'viscosity_h': nu}, {})
    r = uflsem.integrals(form, env)
    v.check('volume part dissipates', v.le(uflsem.total(r, 'cell'), 0))
    A0 = uflsem.Field('A', 'dg', deriv=lambda c, d, r: 0)
    env = s.env(v, etest=zero, uv=A0, utest=A0)
    env.set(nu, 'nu', 'cg', lo=0)
    r = uflsem.integrals(form, env)
    v.check('penalty dissipates', v.le(uflsem.total(r, 'interior_facet'), 0))
    ka = lambda c, r: v.real('k_%d' % c[0])
    env = s.env(v, etest=zero, uv=ka)
    env.set(nu, 'nu', 'cg', lo=0)
    r = uflsem.integrals(form, env)
    for k, x in r.items():
        v.check('uniform velocity has no viscous stress: ' + k[0], v.eq(x, 0))
    v.cover()


@contract('C06', [SW + 'HorizontalViscosityTerm.residual'], budget=200)
def viscosity_consistent(v):
    """smooth velocity: stress nu grad(u) (or its symmetric form) in the volume and its mean on facets"""
    fam = v.choice('family', ('dg-dg', 'rt-dg'))
    gd, gh = v.flag('grad_div'), v.flag('grad_depth')
    nm, nl, wd = v.choice('depth', DEPTHS)
    s = swe(fam, nl, wd, 'full', opts={'use_grad_div_viscosity_term': gd, 'use_grad_depth_viscosity_term': gh})
    U = uflsem.Field('A', 'cg', deriv=lambda c, d, r: v.real('dA_%d_%d' % (c[0], d[0])))
    env = s.env(v, etest=zero, uv=U)
    nu = field(s, env, 'nu', kind='cg', lo=0)
    uv, eta, uvo, etao = s.args()
    H = s.assume_depth(v, env)
    r = uflsem.integrals(s.eq.terms['HorizontalViscosityTerm'].residual(uv, eta, uvo, etao, {}, {'viscosity_h': nu}, {}), env)
    n = v.real('nu', lo=0)
    D = [[v.real('dA_%d_%d' % (i, j)) for j in range(2)] for i in range(2)]
    S = [[n * (D[i][j] + D[j][i]) if gd else n * D[i][j] for j in range(2)] for i in range(2)]
    gt = [[v.real('ut_%d_d%s' % (i, 'xy'[j])) for j in range(2)] for i in range(2)]
    e = -sum(S[i][j] * gt[i][j] for i in range(2) for j in range(2))
    if gh:
        gH = uflsem.evaluate(grad(s.depth.get_total_depth(etao)), env)
        e = e + sum(v.real('ut_%d' % i) * gH[j] * S[i][j] for i in range(2) for j in range(2)) / H
    v.check('volume stress', v.eq(uflsem.total(r, 'cell'), e))
    nn = [env.normal(i, '+') for i in range(2)]
    J = [v.real('ut_%dP' % i) - v.real('ut_%dM' % i) for i in range(2)]
    v.check('facet stress', v.eq(uflsem.total(r, 'interior_facet'), sum(J[i] * nn[j] * S[i][j] for i in range(2) for j in range(2))))
    for k, x in r.items():
        if k[0] == 'exterior_facet':
            v.check('no stress through closed boundary', v.eq(x, 0))
    v.cover()


@contract('C06', [SW + 'HorizontalViscosityTerm.residual', SW + 'ShallowWaterTerm.get_bnd_functions'], budget=200)
def viscosity_boundary(v):
    """open boundary with prescribed velocity: no contribution but the stress where the velocity agrees with the data, damping where it differs"""
    fam = v.choice('family', ('dg-dg', 'rt-dg'))
    gd = v.flag('grad_div')
    kind = v.choice('data', ('uv', 'uv_elev', 'un', 'un_elev', 'elev'))
    mode = v.choice('mode', ('consistent', 'damping'))
    s = swe(fam, True, False, 'full', opts={'use_grad_div_viscosity_term': gd, 'use_grad_depth_viscosity_term': False})
    grad0 = mode == 'damping'
    a = [v.real('A_%d' % i) for i in range(2)]
    U = uflsem.Field('A', 'cg', value=lambda c, r: a[c[0]], deriv=lambda c, d, r: 0 if grad0 else v.real('dA_%d_%d' % (c[0], d[0])))
    if grad0:
        env = s.env(v, etest=zero, uv=U, utest=U)
    else:
        env = s.env(v, etest=zero, uv=U)
    nu = field(s, env, 'nu', kind='cg', lo=0)
    uv, eta, uvo, etao = s.args()
    s.assume_depth(v, env)
    nb = [env.normal(i, None) for i in range(2)]
    given = a if mode == 'consistent' else [v.real('b_%d' % i) for i in range(2)] if kind.startswith('un') else [0, 0]
    bnd = {}
    for k in kind.split('_'):
        o = Constant((0., 0.)) if k == 'uv' else Constant(0.)
        env.const(o, v.real('c') if k == 'elev' else list(given) if k == 'uv' else (0 if mode == 'damping' else a[0] * nb[0] + a[1] * nb[1]))
        bnd[k] = o
    r = uflsem.integrals(s.eq.terms['HorizontalViscosityTerm'].residual(uv, eta, uvo, etao, {}, {'viscosity_h': nu}, {2: bnd}), env)
    n = v.real('nu', lo=0)
    b = {k: x for k, x in r.items() if k[0] == 'exterior_facet'}
    if kind == 'elev':
        for k, x in b.items():
            v.check('no velocity prescribed: no stress', v.eq(x, 0))
    elif mode == 'consistent':
        D = [[v.real('dA_%d_%d' % (i, j)) for j in range(2)] for i in range(2)]
        S = [[n * (D[i][j] + D[j][i]) if gd else n * D[i][j] for j in range(2)] for i in range(2)]
        v.check('stress through the boundary', v.eq(sum(b.values()), sum(v.real('ut_%d' % i) * nb[j] * S[i][j] for i in range(2) for j in range(2))))
        v.check('on the given boundary only', all(k[1] in (2, (2,), '2') for k, x in b.items() if not is_zero(x)))
    else:
        d = sum(a[i] * nb[i] for i in range(2))
        v.check('difference to the prescribed velocity is damped', v.le(sum(b.values()), 0))
        full = d if kind.startswith('un') else v.sqrt(a[0] * a[0] + a[1] * a[1])
        v.assume(v.lt(0, n * v.real('sipg', pos=True)))
        v.assume(v.lt(0, full * full))
        v.check('strictly', v.lt(sum(b.values()), 0))
    v.cover()


def is_zero(x):
    return isinstance(x, (int, float)) and x == 0


@contract('C06', [SW + 'ExternalPressureGradientTerm.residual', *EQ], budget=300)
def still_water(v):
    """zero velocity, uniform elevation (any bathymetry): the elevation gradient is the exact discrete gradient of a constant"""
    fam = v.choice('family', FAMILIES)
    ek = v.choice('equation', ('full', 'momentum', 'modesplit'))
    nm, nl, wd = v.choice('depth', DEPTHS if ek != 'modesplit' else DEPTHS[:1])
    s = swe(fam, nl, wd, ek)
    bk = v.choice('bnd', ('closed', 'drag', 'elev', 'elev_uv', 'elev_un', 'elev_flux', 'uv', 'un', 'flux'))
    c = lambda comp, r: v.real('c')
    env = s.env(v, uv=zero, uv_old=zero, eta=c, eta_old=c, etest=zero)
    bnd = {}
    if bk != 'closed':
        bnd = {2: {}}
        for k in bk.split('_'):
            o = Constant((0., 0.)) if k == 'uv' else Constant(0.)
            env.const(o, v.real('c') if k == 'elev' else [0, 0] if k == 'uv' else 0)
            bnd[2][k] = o
        if bk == 'drag':
            env.set(bnd[2]['drag'], 'cd', 'const', lo=0)
    nu, f = field(s, env, 'nu', kind='dg', lo=0), field(s, env, 'f')
    fs = {'coriolis': f}
    if ek != 'modesplit':
        fs.update(viscosity_h=nu, linear_drag_coefficient=field(s, env, 'ld', lo=0), manning_drag_coefficient=field(s, env, 'mn', lo=0))
    s.assume_depth(v, env)
    ints = uflsem.integrals(s.residual('all', {}, fs, bnd), env)
    g, cc = G(v), v.real('c')
    ut = lambda r: [v.real('ut_%d%s' % (i, r)) for i in range(2)]
    divt = v.real('ut_0_dx') + v.real('ut_1_dy')
    n = [env.normal(i, '+') for i in range(2)]
    nb = [env.normal(i, None) for i in range(2)]
    if KH[fam] == 'dg':
        v.check('volume: g eta div(test)', v.eq(uflsem.total(ints, 'cell'), g * cc * divt))
        jn = dot2(ut('P'), n) - dot2(ut('M'), n)
        v.check('interior facets: -g eta [test.n]', v.eq(uflsem.total(ints, 'interior_facet'), -g * cc * jn))
        for m in MARKERS:
            v.check('boundary: -g eta test.n', v.eq(ints.get(('exterior_facet', m), 0), -g * cc * dot2(ut(''), nb)))
    else:
        for k, x in ints.items():
            v.check('no contribution at all: ' + k[0], v.eq(x, 0))
    v.check('no unlisted integrals', all(k[0] != 'exterior_facet' or k[1] in MARKERS for k in ints))
    v.cover()


@contract('C06', [SW + 'ExternalPressureGradientTerm.residual', SW + 'HUDivTerm.residual', *EQ], budget=200)
def gravity_waves(v):
    """linear equations, test functions (H u, g eta): the central parts are an exact divergence, what is left is damping at facets and walls"""
    fam = v.choice('family', FAMILIES)
    ek = v.choice('equation', ('full', 'modesplit'))
    s = swe(fam, False, False, ek)
    g = G(v)
    S = {None: '', '+': 'P', '-': 'M'}
    dg = KH[fam] == 'dg'
    H = lambda: v.real('bath', pos=True)
    dH = lambda d, r: v.real('bath_d' + 'xy'[d] + S[r])
    u = lambda i, r: v.real('uv_%d%s' % (i, S[r]))
    du = lambda i, d, r: v.real('uv_%d_d%s%s' % (i, 'xy'[d], S[r]))
    et = lambda r: v.real('eta' + (S[r] if dg else ''))
    det = lambda d, r: v.real('eta_d' + 'xy'[d] + S[r])
    ut = uflsem.Field('ut', 'dg', value=lambda c, r: H() * u(c[0], r), deriv=lambda c, d, r: H() * du(c[0], d[0], r) + dH(d[0], r) * u(c[0], r))
    ph = uflsem.Field('et', 'dg', value=lambda c, r: g * et(r), deriv=lambda c, d, r: g * det(d[0], r))
    env = s.env(v, utest=ut, etest=ph)
    s.assume_depth(v, env)
    ints = uflsem.integrals(s.residual('all', {}, {}, {}), env)
    div = H() * (du(0, 0, None) + du(1, 1, None)) + dH(0, None) * u(0, None) + dH(1, None) * u(1, None)
    adv = H() * (u(0, None) * det(0, None) + u(1, None) * det(1, None))
    v.check('cell: exact divergence of g eta H u' if dg else 'cell: no work', v.eq(uflsem.total(ints, 'cell'), g * (et(None) * div + adv) if dg else 0))
    n = [env.normal(i, '+') for i in range(2)]
    nb = [env.normal(i, None) for i in range(2)]
    up, um = dot2([u(0, '+'), u(1, '+')], n), dot2([u(0, '-'), u(1, '-')], n)
    ju, je = up - um, et('+') - et('-')
    damp = lambda a, b: g * H() * (v.sqrt(H() / g) * a * a + v.sqrt(g / H()) * b * b)
    f = uflsem.total(ints, 'interior_facet')
    if dg:
        v.check('facets: the divergence and damping of the jumps', v.eq(f, -g * H() * (et('+') * up - et('-') * um) - damp(ju, je)))
        v.check('damping', v.le(0, damp(ju, je)))
    else:
        v.check('facets', v.eq(f, 0))
    ub = dot2([u(0, None), u(1, None)], nb)
    for m in MARKERS:
        v.check('walls reflect', v.eq(ints.get(('exterior_facet', m), 0), -g * H() * et(None) * ub - damp(ub, 0) if dg else 0))
    v.cover()


@contract('C06', [SW + 'ExternalPressureGradientTerm.residual', SW + 'HorizontalAdvectionTerm.residual', SW + 'HUDivTerm.residual', *EQ], budget=200)
def interior_consistency(v):
    """the weak form of (u.grad) u + g grad eta, div(H u): volume integrands, and facet fluxes of states continuous across the facet"""
    fam = v.choice('family', FAMILIES)
    ek = v.choice('equation', ('full', 'momentum'))
    nm, nl, wd = v.choice('depth', DEPTHS)
    lf = v.flag('lax_friedrichs')
    s = swe(fam, nl, wd, ek, opts={'use_lax_friedrichs_velocity': lf})
    g = G(v)
    cf = lambda nm, n: uflsem.Field(nm, 'cg')
    env = s.env(v, uv=cf('uv', 2), eta=cf('eta', 1), uv_old=cf('uvo', 2), eta_old=cf('etao', 1), **({'etest': zero} if ek == 'full' else {}))
    H = s.assume_depth(v, env)
    ints = uflsem.integrals(s.residual('all', {}, {}, {}), env)
    u, uo, t = ([v.real('%s_%d' % (k, i)) for i in range(2)] for k in ('uv', 'uvo', 'ut'))
    dv = lambda k, i, d, r='': v.real('%s_%d_d%s%s' % (k, i, 'xy'[d], r))
    e = v.real('eta')
    n = [env.normal(i, '+') for i in range(2)]
    jt = [v.real('ut_%dP' % i) - v.real('ut_%dM' % i) for i in range(2)]
    dg = KH[fam] == 'dg'
    cell = g * e * (dv('ut', 0, 0) + dv('ut', 1, 1)) if dg else -g * sum(v.real('eta_d' + 'xy'[i]) * t[i] for i in range(2))
    facet = -g * e * dot2(jt, n) if dg else 0
    if nl:
        cell = cell + sum(u[i] * (dv('ut', i, j) * uo[j] + t[i] * dv('uvo', j, j)) for i in range(2) for j in range(2))
        facet = facet - dot2(u, jt) * dot2(uo, n)
    v.check('volume', v.eq(uflsem.total(ints, 'cell'), cell))
    v.check('facets', v.eq(uflsem.total(ints, 'interior_facet'), facet))
    v.cover()


@contract('C06', [SW + 'ExternalPressureGradientTerm.residual', SW + 'HUDivTerm.residual', *EQ], budget=200)
def riemann_states(v):
    """discontinuous states: elevation and transport at facets are those of the linear Riemann problem with the mean lagged depth"""
    fam = v.choice('family', ('dg-dg', 'rt-dg', 'bdm-dg'))
    nm, nl, wd = v.choice('depth', DEPTHS)
    s = swe(fam, nl, wd, 'full')
    g = G(v)
    env = s.env(v)
    s.assume_depth(v, env)
    eq, a = s.eq.terms, s.args()
    n = [env.normal(i, '+') for i in range(2)]
    R = lambda k, r: [v.real('%s_%d%s' % (k, i, r)) for i in range(2)]
    Hm = (s.Hv(env, a[3], '+') + s.Hv(env, a[3], '-')) / 2
    jun = dot2(R('uv', 'P'), n) - dot2(R('uv', 'M'), n)
    jtn = dot2(R('ut', 'P'), n) - dot2(R('ut', 'M'), n)
    x = uflsem.total(uflsem.integrals(eq['ExternalPressureGradientTerm'].residual(*a, {}, {}, {}), env), 'interior_facet')
    v.check('pressure', v.eq(x, -g * ((v.real('etaP') + v.real('etaM')) / 2 + v.sqrt(Hm / g) * jun) * jtn))
    x = uflsem.total(uflsem.integrals(eq['HUDivTerm'].residual(*a, {}, {}, {}), env), 'interior_facet')
    um = [(p + q) / 2 for p, q in zip(R('uv', 'P'), R('uv', 'M'))]
    v.check('transport', v.eq(x, -Hm * (v.real('etP') - v.real('etM')) * (dot2(um, n) + v.sqrt(g / Hm) * (v.real('etaP') - v.real('etaM')))))
    v.cover()
