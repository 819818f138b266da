from firedrake import *
from pyvc import uflsem
from pyvc.contract import contract
from .swe import *

T = ['thetis.shallowwater_eq:HUDivTerm.residual', 'thetis.shallowwater_eq:ContinuitySourceTerm.residual',
     'thetis.shallowwater_eq:BaseShallowWaterEquation.residual_uv_eta', 'thetis.shallowwater_eq:ShallowWaterEquations.residual',
     'thetis.shallowwater_eq:ModeSplit2DEquations.residual', 'thetis.shallowwater_eq:FreeSurfaceEquation.residual',
     'thetis.utility:DepthExpression.get_total_depth', 'thetis.equation:Equation.select_terms']
EQS = ('full', 'modesplit', 'freesurface')


def config(v, eqs=EQS):
    fam = v.choice('family', FAMILIES)
    nm, nl, wd = v.choice('depth', DEPTHS)
    ek = v.choice('equation', eqs)
    if ek == 'modesplit' and wd:
        wd, nl = False, True
    return swe(fam, nl, wd, ek)


def nz(x):
    return x


@contract('C04', T, budget=300)
def interior_conservation(v):
    """sum over the elevation test functions (test = 1): no interior contribution, sources enter once"""
    s = config(v)
    bkind = v.choice('boundaries', ('none', 'empty', 'drag', 'elev', 'uv', 'un', 'flux', 'elev_uv', 'elev_un', 'elev_flux'))
    has_source = v.choice('source', (False, True))
    env = s.env(v, utest=zero, etest=one)
    q = Constant(0.0)
    bnd, fields = {}, {}
    consts = {'elev': Constant(0.), 'un': Constant(0.), 'flux': Constant(0.), 'uv': Constant((0., 0.)), 'drag': Constant(0.)}
    for k, c in consts.items():
        env.set(c, 'b_' + k, 'const')
    if bkind not in ('none', 'empty'):
        bnd = {2: {k: consts[k] for k in bkind.split('_')}}
    elif bkind == 'empty':
        bnd = {2: {}}
    if has_source:
        S = Function(FunctionSpace(s.mesh, 'DG', 0))
        env.set(S, 'S', 'dg')
        fields['volume_source'] = S
    ints = uflsem.integrals(s.residual('all', fields, fields, bnd), env)
    v.check('cell integral is the volume source only', v.eq(uflsem.total(ints, 'cell'), v.real('S') if has_source else 0))
    v.check('interior facet fluxes cancel', v.eq(uflsem.total(ints, 'interior_facet'), 0))
    open_ = bkind not in ('none', 'empty', 'drag')
    for (typ, sd), x in ints.items():
        if typ.startswith('exterior') and not (open_ and sd == 2):
            v.check('closed boundary carries no volume', v.eq(x, 0), (typ, sd))
    v.check('open boundary has a flux', (not open_) or any(t.startswith('exterior') and sd == 2 for t, sd in ints))
    v.check('integral types', all(t in ('cell', 'interior_facet', 'exterior_facet') for t, _ in ints))
    v.cover()


@contract('C04', T, budget=300)
def transport_is_depth_times_velocity(v):
    """the transported quantity is (total depth) x velocity: volume term, and the interior flux for states continuous at the facet"""
    s = config(v)
    mk = lambda nm: (lambda comp, r: v.real(nm + ''.join('_%d' % c for c in comp)))
    env = s.env(v, utest=zero, uv=mk('uv'), eta=mk('eta'), uv_old=mk('uvo'), eta_old=mk('etao'))
    uv, eta, uvo, etao = s.args()
    H = s.assume_depth(v, env)
    ints = uflsem.integrals(s.residual('all'), env)
    g = [v.real('et_d' + c) for c in 'xy']
    u = [v.real('uv_0'), v.real('uv_1')]
    v.check('cell: H uv . grad(test)', v.eq(uflsem.total(ints, 'cell'), H * (u[0] * g[0] + u[1] * g[1])))
    n = env.normal(0, '+'), env.normal(1, '+')
    if KH[s.family] == 'dg':
        jump_t = v.real('etP') - v.real('etM')
        v.check('facet: consistent flux', v.eq(uflsem.total(ints, 'interior_facet'), -H * (u[0] * n[0] + u[1] * n[1]) * jump_t))
    else:
        v.check('no facet flux for continuous tests', v.eq(uflsem.total(ints, 'interior_facet'), 0))
    v.cover()


@contract('C04', T, budget=300)
def interior_flux_single_valued(v):
    """general discontinuous states: the flux leaving '+' equals the one entering '-' and is Galilean-free: it only has the test jump"""
    s = config(v)
    env = s.env(v, utest=zero)
    s.assume_depth(v, env)
    ints = uflsem.integrals(s.residual('all'), env)
    f = uflsem.total(ints, 'interior_facet')
    a, b = v.real('etP'), v.real('etM')
    if KH[s.family] == 'cg':
        v.check('no flux', v.eq(f, 0))
        return
    # f is linear in the two test values with opposite coefficients
    env1 = s.env(v, utest=zero, etest=lambda c, r: 1 if r == '+' else 0)
    env2 = s.env(v, utest=zero, etest=lambda c, r: 0 if r == '+' else 1)
    form = s.residual('all')
    f1 = uflsem.total(uflsem.integrals(form, env1), 'interior_facet')
    f2 = uflsem.total(uflsem.integrals(form, env2), 'interior_facet')
    v.check('what leaves one cell enters the other', v.eq(f1, -f2))
    v.check('linear in the test function', v.eq(f, a * f1 + b * f2))
    v.cover()


@contract('C04', ['thetis.shallowwater_eq:ShallowWaterEquations.mass_term', 'thetis.shallowwater_eq:FreeSurfaceEquation.mass_term',
                  'thetis.shallowwater_eq:BathymetryDisplacementMassTerm.residual', 'thetis.equation:Equation.mass_term',
                  'thetis.utility:DepthExpression.wd_bathymetry_displacement'])
def conserved_quantity(v):
    """the mass term integrates elevation, or with wetting-drying the modified total depth minus bathymetry"""
    s = config(v)
    env = s.env(v, utest=zero, etest=one)
    as_list = v.choice('aslist', (False, True)) and s.eqkind == 'full'
    uv, eta, uvo, etao = s.args()
    if s.mixed and not as_list:
        form = s.eq.mass_term(s.sol)
    elif s.mixed:
        # Equation.mass_term takes the mixed solution, the displacement the split one
        form = -s.eq.bathymetry_displacement_mass_term.residual([uv, eta])
    else:
        form = s.eq.mass_term(s.eta)
    ints = uflsem.integrals(form, env)
    e = v.real('eta') if KH[s.family] == 'cg' else v.real('eta')
    H = s.Hv(env, eta)
    b = v.real('bath', pos=True)
    exp = (H - b) if s.nonlinear else e
    if as_list:
        exp = exp - e
    v.check('mass = integral of the conserved depth', v.eq(uflsem.total(ints, 'cell'), exp))
    v.check('cell integrals only', all(t == 'cell' for t, _ in ints))
    v.cover()
