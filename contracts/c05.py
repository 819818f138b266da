from firedrake import *
from pyvc import uflsem
from pyvc.contract import contract
from .swe import *
from .common import raises

TG = ['thetis.shallowwater_eq:ShallowWaterTerm.get_bnd_functions', 'thetis.shallowwater_eq:ShallowWaterTerm.impose_dynamic_bnd']
KEYS = ('elev', 'uv', 'un', 'flux', 'drag')


def data(v, env, keys, kind='const', mesh=None):
    """boundary data objects for the given keys, bound to symbols"""
    out = {}
    for k in keys:
        if kind == 'const':
            c = Constant((0., 0.)) if k == 'uv' else Constant(0.)
        else:
            m = mesh2d()
            c = Function(VectorFunctionSpace(m, 'CG', 1) if k == 'uv' else FunctionSpace(m, 'CG', 1))
        env.set(c, 'b_' + k, 'const' if kind == 'const' else 'cg')
        out[k] = c
    return out


def subset(v):
    return [k for k in KEYS if v.flag('has_' + k)]


@contract('C05', TG, budget=300)
def exterior_state(v):
    keys = subset(v)
    nm, nl, wd = v.choice('depth', DEPTHS)
    s = swe('dg-dg', nl, wd, 'full')
    env = s.env(v)
    bnd_id = v.choice('marker', (2, 4))
    funcs = data(v, env, keys, v.choice('datakind', ('const', 'field')))
    if v.choice('order', (False, True)):
        funcs = dict(reversed(list(funcs.items())))
    t = s.eq.terms['HUDivTerm']
    uv, eta, uvo, etao = s.args()
    open_ = [k for k in keys if k != 'drag']
    v.check('imposed iff open data given', bool(t.impose_dynamic_bnd(funcs, bnd_id)) == bool(open_))
    other = {k: {'elev': Constant(99.)} for k in MARKERS if k != bnd_id}
    ex, res = raises(t.get_bnd_functions, eta, uv, bnd_id, {**other, bnd_id: funcs})
    if not open_:
        v.check('no data: rejected', ex is not None)
        v.check('clear error message', not isinstance(ex, (NameError, AttributeError, TypeError)), repr(ex))
        return
    v.check('accepted', ex is None, repr(ex))
    if ex is not None:
        return
    ev = lambda x: uflsem.evaluate(x, env)
    e_ext, u_ext = ev(res[0]), ev(res[1])
    n = [env.normal(i, None) for i in range(2)]
    un_ext = u_ext[0] * n[0] + u_ext[1] * n[1]
    v.check('elevation: prescribed or interior', v.eq(e_ext, v.real('b_elev') if 'elev' in keys else ev(eta)))
    if 'uv' in keys:
        v.check('velocity as prescribed', v.eq(u_ext, [v.real('b_uv_0'), v.real('b_uv_1')]))
    elif 'un' in keys:
        v.check('normal velocity as prescribed', v.eq(un_ext, v.real('b_un')))
        v.check('no tangential velocity', v.eq(u_ext[0] * n[1] - u_ext[1] * n[0], 0))
    elif 'flux' in keys:
        H = s.Hv(env, res[0])
        v.assume(H > 0)
        v.check('un * depth * boundary length = flux', v.eq(un_ext * H * v.real('len%d' % bnd_id, pos=True), v.real('b_flux')))
        v.check('no tangential velocity', v.eq(u_ext[0] * n[1] - u_ext[1] * n[0], 0))
    else:
        v.check('velocity: interior', v.eq(u_ext, ev(uv)))
    v.cover()


@contract('C05', TG)
def invalid_tags(v):
    s = swe('dg-dg', True, False, 'full')
    t = s.eq.terms['HUDivTerm']
    good = subset(v)
    bad = v.choice('bad', ('uN', 'elevation', 'value', 'q', ''))
    pos = v.choice('pos', ('first', 'last'))
    ks = [bad] + good if pos == 'first' else good + [bad]
    ex, _ = raises(t.impose_dynamic_bnd, {k: Constant(0.) for k in ks}, 1)
    v.check('unknown boundary tag rejected', ex is not None)
    v.check('None is closed', t.impose_dynamic_bnd(None, 1) is False)
    v.cover()


COMBOS = (('elev',), ('uv',), ('un',), ('flux',), ('elev', 'uv'), ('elev', 'un'), ('elev', 'flux'))
TF = ['thetis.shallowwater_eq:HUDivTerm.residual', 'thetis.shallowwater_eq:HorizontalAdvectionTerm.residual',
      'thetis.shallowwater_eq:ExternalPressureGradientTerm.residual', 'thetis.shallowwater_eq:HorizontalViscosityTerm.residual']


def _setup_equal(v, fam, nl, wd, combo, opts=None):
    """prescribed data equal to the interior state (current = lagged): uv = un*n (so that un/flux data can equal it)"""
    s = swe(fam, nl, wd, 'full', opts=opts or {})
    vect = not set(combo) & {'un', 'flux'}
    un = v.real('un')
    n0 = v.unit('n', 2)
    n = lambda i: n0[i]
    u = (lambda comp, r: v.real('u_%d' % comp[0])) if vect else (lambda comp, r: un * n(comp[0]))
    e = lambda comp, r: v.real('e')
    return s, u, e, un, vect


@contract('C05', TF, budget=300)
def consistency(v):
    """exterior = interior: boundary fluxes are the interior ones (H u.n, u (u.n), g eta n)"""
    fam = v.choice('family', FAMILIES)
    nm, nl, wd = v.choice('depth', DEPTHS)
    combo = v.choice('data', COMBOS)
    s, u, e, un, vect = _setup_equal(v, fam, nl, wd, combo)
    F = uflsem.Field
    gu = F('u', value=u, deriv=lambda comp, d, r: v.real('ud_%d_%s' % (comp[0], d)))
    env = s.env(v, uv=u, eta=e, uv_old=u, eta_old=e)
    n = [env.normal(i, None) for i in range(2)]
    funcs = data(v, env, combo)
    uv, eta, uvo, etao = s.args()
    H = s.Hv(env, etao)
    v.assume(H > 0)
    L = v.real('len2', pos=True)
    uu = [u((0,), None), u((1,), None)]
    udn = uu[0] * n[0] + uu[1] * n[1]
    vals = {'elev': v.real('e'), 'un': un, 'flux': un * H * L, 'uv': None}
    for k in combo:
        if k == 'uv':
            env.const(funcs[k], uu)
        else:
            env.const(funcs[k], vals[k])
    et = v.real('et')
    ut = [v.real('ut_0'), v.real('ut_1')]
    bnd = {2: funcs}
    args = (uv, eta, uvo, etao, {}, {'lax_friedrichs_velocity_scaling_factor': s.lf}, bnd)
    g = float(sw.g_grav) if not v.symbolic else uflsem.core._frac(float(sw.g_grav))
    tu = [uu[0] * ut[0] + uu[1] * ut[1]][0]
    f = uflsem.integrals(s.eq.terms['HUDivTerm'].residual(*args), env)
    v.check('continuity flux is H u.n', v.eq(f.get(('exterior_facet', 2), 0), -H * udn * et))
    for m in (1, 3, 4):
        v.check('other boundaries closed (volume)', v.eq(f.get(('exterior_facet', m), 0), 0))
    f = s.eq.terms['HorizontalAdvectionTerm'].residual(*args)
    f = uflsem.integrals(f, env)
    v.check('advective flux is u (u.n)', v.eq(f.get(('exterior_facet', 2), 0), (-udn * tu) if nl else 0))
    f = uflsem.integrals(s.eq.terms['ExternalPressureGradientTerm'].residual(*args), env)
    tn = ut[0] * n[0] + ut[1] * n[1]
    v.check('pressure flux is g eta n', v.eq(f.get(('exterior_facet', 2), 0), -g * v.real('e') * tn if KH[fam] == 'dg' else 0))
    v.cover()


@contract('C05', TF, budget=300)
def prescribed_state_is_used(v):
    """boundary integrals depend on the data of their own boundary only, through the exterior state (old and new)"""
    fam = v.choice('family', ('dg-dg', 'rt-dg', 'dg-cg'))
    nl = v.choice('nonlinear', (True, False))
    combo = v.choice('data', COMBOS)
    s = swe(fam, nl, False, 'full')
    env = s.env(v)
    funcs = data(v, env, combo)
    uv, eta, uvo, etao = s.args()
    n = [env.normal(i, None) for i in range(2)]
    ev = lambda x: uflsem.evaluate(x, env)
    t = s.eq.terms['HUDivTerm']
    bnd = {2: funcs}
    (e1, u1), (e0, u0) = t.get_bnd_functions(eta, uv, 2, bnd), t.get_bnd_functions(etao, uvo, 2, bnd)
    H0, H0x = s.Hv(env, etao), s.Hv(env, e0)
    v.assume(H0 > 0)
    v.assume(H0x > 0)
    dot2 = lambda a, b: a[0] * b[0] + a[1] * b[1]
    U, U1, Uo, U0, E, E1, Eo, E0 = ev(uv), ev(u1), ev(uvo), ev(u0), ev(eta), ev(e1), ev(etao), ev(e0)
    g = float(sw.g_grav) if not v.symbolic else uflsem.core._frac(float(sw.g_grav))
    ut, et = [v.real('ut_0'), v.real('ut_1')], v.real('et')
    args = (uv, eta, uvo, etao, {}, {'lax_friedrichs_velocity_scaling_factor': s.lf}, bnd)
    hav = (H0 + H0x) / 2
    un = (dot2(U, n) + dot2(U1, n)) / 2 + v.sqrt(g / hav) * (E - E1)
    er = (Eo + E0) / 2 + v.sqrt(hav / g) * (dot2(Uo, n) - dot2(U0, n))
    b = v.real('bath', pos=True)
    h = b + er if nl else b
    f = uflsem.integrals(t.residual(*args), env)
    v.check('Riemann flux of the two states', v.eq(f.get(('exterior_facet', 2), 0), -h * un * et))
    f = uflsem.integrals(s.eq.terms['HorizontalAdvectionTerm'].residual(*args), env)
    una = (dot2(Uo, n) + dot2(U0, n)) / 2 + v.sqrt(g / H0) * (Eo - E0)
    adv = una * (dot2(U, ut) + dot2(U1, ut)) / 2
    v.check('momentum flux of the two states', v.eq(f.get(('exterior_facet', 2), 0), -adv if nl else 0))
    f = uflsem.integrals(s.eq.terms['ExternalPressureGradientTerm'].residual(*args), env)
    rie = (E + E1) / 2 + v.sqrt(H0 / g) * (dot2(U, n) - dot2(U1, n))
    if KH[fam] != 'dg':
        rie = rie - E
    v.check('elevation flux of the two states', v.eq(f.get(('exterior_facet', 2), 0), -g * rie * dot2(ut, n)))
    v.cover()


@contract('C05', TF, budget=300)
def impermeable(v):
    """no data (or only drag): nothing crosses the boundary; the same for every other term of the equation"""
    fam = v.choice('family', FAMILIES)
    nm, nl, wd = v.choice('depth', DEPTHS)
    kind = v.choice('bnd', ('none', 'None', 'empty', 'drag'))
    s = swe(fam, nl, wd, 'full')
    env = s.env(v)
    bnd = {}
    if kind == 'None':
        bnd = {2: None}
    elif kind == 'empty':
        bnd = {2: {}}
    elif kind == 'drag':
        bnd = {2: data(v, env, ('drag',))}
    uv, eta, uvo, etao = s.args()
    H = s.Hv(env, etao)
    v.assume(H > 0)
    nu = Function(FunctionSpace(s.mesh, 'CG', 1))
    env.set(nu, 'nu', 'cg', lo=0)
    args = (uv, eta, uvo, etao, {}, {'lax_friedrichs_velocity_scaling_factor': s.lf, 'viscosity_h': nu}, bnd)
    n = [env.normal(i, None) for i in range(2)]
    f = uflsem.integrals(s.eq.terms['HUDivTerm'].residual(*args), env)
    f2 = uflsem.integrals(s.eq.terms['HorizontalAdvectionTerm'].residual(*args), env)
    f3 = uflsem.integrals(s.eq.terms['HorizontalViscosityTerm'].residual(*args), env)
    f4 = uflsem.integrals(s.eq.terms['ExternalPressureGradientTerm'].residual(*args), env)
    ut = [v.real('ut_0'), v.real('ut_1')]
    U = [uflsem.evaluate(uv, env)[i] for i in range(2)]
    Uo = [uflsem.evaluate(uvo, env)[i] for i in range(2)]
    dot2 = lambda a, b: a[0] * b[0] + a[1] * b[1]
    g = float(sw.g_grav) if not v.symbolic else uflsem.core._frac(float(sw.g_grav))
    for m in MARKERS:
        k = ('exterior_facet', m)
        v.check('no volume flux', v.eq(f.get(k, 0), 0))
        # advective wall flux: Lax-Friedrichs penalty of the normal velocity only
        v.check('only the normal velocity is penalised', v.eq(f2.get(k, 0), -v.abs(dot2(Uo, n)) * v.real('lf', lo=0) * dot2(U, n) * dot2(ut, n) if nl else 0))
        v.check('no viscous flux', v.eq(f3.get(k, 0), 0))
        exp = -g * (uflsem.evaluate(eta, env) + v.sqrt(H / g) * dot2(U, n)) * dot2(ut, n) if KH[fam] == 'dg' else 0
        v.check('mirrored elevation', v.eq(f4.get(k, 0), exp))
    v.cover()
