from firedrake import *
import thetis
from thetis import exner_eq, sediment_eq_2d, sediment_model, options as topt, utility as tutil, solver2d, timeintegrator
from pyvc import uflsem, core
from pyvc.contract import contract
from .swe import mesh2d, MARKERS, DEPTHS
from .common import raises
from .c09 import pick

SE, EX, SM = 'thetis.sediment_eq_2d:', 'thetis.exner_eq:', 'thetis.sediment_model:'
dot2 = lambda a, b: sum(x * y for x, y in zip(a, b))


class Model:
    """callee contract of the sediment model: arbitrary erosion, deposition coefficient, equilibrium, bedload and slide tensor"""
    def __init__(self, m, bedload, slide, susp=True):
        P = FunctionSpace(m, 'CG', 1)
        self.solve_suspended_sediment, self.use_bedload, self.use_sediment_slide = susp, bedload, slide
        self.ero, self.depo, self.eq, self.qx, self.qy, self.d = (Function(P, name=n) for n in ('ero', 'depo', 'ceq', 'qbx', 'qby', 'd'))
        self.n = FacetNormal(m)
        self.sigma = Constant(3.)

    def get_erosion_term(self): return self.ero
    def get_deposition_coefficient(self): return self.depo
    def get_equilibrium_tracer(self): return self.eq
    def get_bedload_term(self, b): return self.qx, self.qy
    def get_sediment_slide_term(self, b): return as_matrix([[-self.d, 0], [0, -self.d]])


class Bed:
    def __init__(self, cons, nl, wd, bedload=False, slide=False, susp=True, space='DG'):
        m = self.mesh = mesh2d()
        self.cons = cons
        self.B = FunctionSpace(m, 'CG', 1)
        self.Q = FunctionSpace(m, space, 1)
        o = self.options = topt.ModelOptions2d()
        self.bath, self.bath_old = Function(self.B, name='bath'), Function(self.B, name='batho')
        self.zb = Function(self.B, name='zb')
        self.alpha = Constant(0.5)
        self.depth = tutil.DepthExpression(self.bath, use_nonlinear_equations=nl, use_wetting_and_drying=wd, wetting_and_drying_alpha=self.alpha)
        self.model = Model(m, bedload, slide, susp)
        self.sipg = Constant(5.)
        o.sipg_factor_tracer = self.sipg
        o.use_nonlinear_equations = nl
        o.use_lax_friedrichs_tracer = False
        self.elev = Function(FunctionSpace(m, 'DG', 1), name='elev')
        self.uv = Function(VectorFunctionSpace(m, 'DG', 1), name='uv')
        self.corr = Function(FunctionSpace(m, 'CG', 1), name='corr')
        self.K = Function(FunctionSpace(m, 'CG', 1), name='K')
        self.c, self.c_old = Function(self.Q, name='c'), Function(self.Q, name='co')
        self.morfac, self.por = Constant(2.), Constant(0.4)
        self.sed = sediment_eq_2d.SedimentEquation2D(self.Q, self.depth, o, self.model, conservative=cons)
        self.ex = exner_eq.ExnerEquation(self.B, self.depth, self.model, cons)

    def env(self, v, test=None, test_b=None, c=None):
        e = uflsem.Env(v, 2)
        e.set(self.bath, 'bath', 'cg', pos=True)
        e.set(self.alpha, 'alpha', 'const', pos=True)
        e.set(self.sipg, 'sipg', 'const', pos=True)
        e.set(self.model.sigma, 'sigma', 'const', pos=True)
        for f, nm, k, kw in ((self.elev, 'elev', 'dg', {}), (self.uv, 'uv', 'dg', {}), (self.corr, 'corr', 'cg', dict(lo=0)), (self.K, 'K', 'cg', dict(lo=0)),
                             (self.c_old, 'co', 'dg', {}), (self.zb, 'zb', 'cg', {}),
                             (self.model.ero, 'ero', 'cg', dict(lo=0)), (self.model.depo, 'depo', 'cg', dict(lo=0)), (self.model.eq, 'ceq', 'cg', {}),
                             (self.model.qx, 'qbx', 'cg', {}), (self.model.qy, 'qby', 'cg', {}), (self.model.d, 'd', 'cg', dict(lo=0))):
            e.set(f, nm, k, **kw)
        e.set(self.c, 'c', 'dg')
        e.set(self.morfac, 'morfac', 'const', pos=True)
        e.set(self.por, 'por', 'const', lo=0)
        v.assume(v.real('por', lo=0) < 1)
        for f, nm, k, val in ((TestFunction(self.Q), 't', 'dg', test), (TestFunction(self.B), 't', 'cg', test_b)):
            if val is None:
                e.set(f, nm, k)
            elif isinstance(val, uflsem.Field):
                e.fields[f] = val
            else:
                e.set(f, nm, k, value=val)
        for k in MARKERS:
            e.set(self.mesh.boundary_len[k], 'len%d' % k, 'const', pos=True)
        for r in (None, '+', '-'):
            v.assume(uflsem.evaluate(self.depth.get_total_depth(self.elev), e, r) > 0)
        # the constant made from the morphological factor and the porosity carries their symbolic value
        real_constant = exner_eq.Constant

        def const(x, *a, **k):
            c = real_constant(1.0)
            e.const(c, uflsem.evaluate(x, e) if not isinstance(x, (int, float)) else x)
            return c
        v.patch(exner_eq, 'Constant', const)
        return e

    def sed_res(self, bnd=None, label='all', adv=True, diff=True):
        f = {'elev_2d': self.elev, 'uv_2d': self.uv if adv else None, 'diffusivity_h-sediment_2d': self.K if diff else None,
             'lax_friedrichs_tracer_scaling_factor': Constant(1.), 'tracer_advective_velocity_factor': self.corr}
        return self.sed.residual(label, self.c, self.c_old, f, f, bnd or {})

    def ex_res(self, bnd=None, label='all', sol=None):
        f = {'elev_2d': self.elev, 'sediment': self.c, 'morfac': self.morfac, 'porosity': self.por}
        sol = sol or self.zb
        return self.ex.residual(label, sol, sol, f, f, bnd or {})


_B = {}


def bed(*a, **k):
    key = (a, tuple(sorted(k.items())))
    if key not in _B:
        _B[key] = Bed(*a, **k)
    return _B[key]


@contract('C10', [EX + 'ExnerSourceTerm.residual', EX + 'ExnerEquation.__init__', SE + 'SedimentErosionTerm.residual', SE + 'SedimentDepositionTerm.residual',
                  SE + 'SedimentEquation2D.__init__'])
def exchange(v):
    """bed change times (1 - porosity)/morfac == change of the sediment content of the water, pointwise and for every test function"""
    cons = v.flag('conservative')
    nm, nl, wd = v.choice('depth', DEPTHS)
    b = bed(cons, nl, wd)
    env = b.env(v)
    r_ex = uflsem.integrals(b.ex_res(), env)
    r_sed = uflsem.integrals(b.sed_res(adv=False, diff=False), env)
    H = uflsem.evaluate(b.depth.get_total_depth(b.elev), env)
    t = v.real('t')
    ero, depo, c = v.real('ero', lo=0), v.real('depo', lo=0), v.real('c')
    conc = c / H if cons else c
    fac = (1 - v.real('por', lo=0)) / v.real('morfac', pos=True)
    content = r_sed[('cell', 'everywhere')] if ('cell', 'everywhere') in r_sed else uflsem.total(r_sed, 'cell')
    content = content * (1 if cons else H)
    v.check('water gains erosion minus deposition', v.eq(content, t * (ero - depo * conc)))
    v.check('bed loses what the water gains', v.eq(uflsem.total(r_ex, 'cell') * fac, content))
    v.check('exchange only in cells', all(k[0] == 'cell' for k in set(r_ex) | set(r_sed)))
    v.cover()


@contract('C10', [SE + 'SedimentEquation2D.__init__', SE + 'SedimentTerm.__init__', SE + 'SedimentTerm.get_bnd_functions',
                  'thetis.tracer_eq_2d:ConservativeHorizontalAdvectionTerm.residual', 'thetis.tracer_eq_2d:HorizontalAdvectionTerm.residual',
                  'thetis.tracer_eq_2d:HorizontalDiffusionTerm.residual'])
def suspended_transport(v):
    """transport of suspended sediment creates none: interior fluxes cancel, boundaries carry interior or prescribed values"""
    v.fork = True
    cons = v.flag('conservative')
    nm, nl, wd = v.choice('depth', DEPTHS[:2])
    b = bed(cons, nl, wd)
    data = v.choice('bnd', ('none', 'value', 'equilibrium', 'equilibrium_elev', 'both'))
    bnd = {}
    env = b.env(v, test=lambda c, r: 1)
    ce, el = Constant(0.), Constant(0.)
    env.set(ce, 'ce', 'const')
    env.set(el, 'el', 'const')
    if data == 'value':
        bnd = {2: {'value': ce}}
    elif data == 'equilibrium':
        bnd = {2: {'equilibrium': None}}
    elif data == 'equilibrium_elev':
        bnd = {2: {'equilibrium': None, 'elev': el}}
    elif data == 'both':
        ex, _ = raises(b.sed_res, {2: {'equilibrium': None, 'value': ce}})
        v.check('contradicting data rejected', isinstance(ex, ValueError))
        return
    ints = uflsem.integrals(b.sed_res(bnd), env)
    ero, depo, c = v.real('ero', lo=0), v.real('depo', lo=0), v.real('c')
    H = uflsem.evaluate(b.depth.get_total_depth(b.elev), env)
    co = v.real('corr', lo=0)
    exch = ero - depo * c / H if cons else (ero - depo * c) / H
    if cons:
        v.check('cell: exchange only', v.eq(uflsem.total(ints, 'cell'), exch))
        v.check('interior facets', v.eq(uflsem.total(ints, 'interior_facet'), 0))
    ints = uflsem.integrals(b.sed_res(bnd, diff=False), env)
    n = [env.normal(k, None) for k in range(2)]
    un = co * dot2([v.real('uv_%d' % k) for k in range(2)], n)
    for m in MARKERS:
        f = ints.get(('exterior_facet', m), 0)
        if m in bnd:
            if data == 'value':
                x = v.real('ce')
            else:
                Hx = uflsem.evaluate(b.depth.get_total_depth(el), env) if 'elev' in data else H
                x = v.real('ceq') * (Hx if cons else 1)
            v.check('open boundary', v.eq(f, -pick(v, un, c, x) * un))
        else:
            v.check('boundary without data', v.eq(f, -c * un))
    v.cover()


DATA = {'none': None, 'empty': {}, 'drag': {'drag': 0.1}, 'un0': {'un': 0.}, 'flux0': {'flux': 0.}, 'uv0': {'uv': (0., 0.)}, 'elev_un0': {'elev': 1., 'un': 0.},
        'elev': {'elev': 0.}, 'elev1': {'elev': 1.5}, 'un': {'un': -0.5}, 'flux': {'flux': 3.}, 'uv': {'uv': (0., 0.5)}, 'uv_x': {'uv': (0.5, 0.)},
        'elev_uv': {'elev': 0., 'uv': (1., 0.)}, 'un_drag': {'un': 1., 'drag': 0.}}
CLOSED = ('none', 'empty', 'drag', 'un0', 'flux0', 'uv0', 'elev_un0')


@contract('C10', [EX + 'ExnerBedloadTerm.residual', EX + 'ExnerEquation.__init__'])
def bedload(v):
    """the bed changes by the divergence of the bedload; nothing is created inside; closed boundaries carry none, open ones what arrives"""
    b = bed(v.flag('conservative'), True, v.flag('wd'), True, susp=False)
    one = v.flag('constant_test')
    env = b.env(v, test_b=(lambda c, r: 1) if one else None)
    nm = v.choice('bnd', tuple(DATA))
    d = DATA[nm]
    bnd = {} if d is None else {2: {k: Constant(x) for k, x in d.items()}, 3: {'un': Constant(0.)}}
    r = uflsem.integrals(b.ex_res(bnd), env)
    fac = v.real('morfac', pos=True) / (1 - v.real('por', lo=0))
    q = [v.real('qbx'), v.real('qby')]
    t = 1 if one else v.real('t')
    g = 0 if one else sum(q[k] * v.real('t_d' + 'xy'[k]) for k in range(2))
    v.check('cell', v.eq(uflsem.total(r, 'cell'), -fac * g))
    v.check('no facet terms', v.eq(uflsem.total(r, 'interior_facet'), 0))
    n = [env.normal(k, None) for k in range(2)]
    for m in MARKERS:
        e = fac * dot2(q, n) * t if m == 2 and nm not in CLOSED else 0
        v.check('boundary: bedload leaving lowers the bed' if (m == 2 and nm not in CLOSED) else 'closed boundary', v.eq(r.get(('exterior_facet', m), 0), e))
    v.check('known measures only', all(k[0] in ('cell', 'interior_facet') or k[1] in MARKERS for k in r))
    v.cover()


@contract('C10', [EX + 'ExnerSedimentSlideTerm.residual', EX + 'ExnerEquation.__init__'])
def slide(v):
    """slides move sediment downhill only and create none"""
    b = bed(False, True, False, False, True, susp=False)
    env = b.env(v, test_b=lambda c, r: 1)
    for k, x in uflsem.integrals(b.ex_res(), env).items():
        v.check('creates nothing: ' + k[0], v.eq(x, 0))
    Z = uflsem.Field('zb', 'cg')
    r = uflsem.integrals(b.ex_res(), b.env(v, test_b=Z))
    v.check('flattens', v.le(uflsem.total(r, 'cell'), 0))
    v.check('cell', v.eq(uflsem.total(r, 'cell'), -v.real('d', lo=0) * (v.real('zb_dx') * v.real('zb_dx') + v.real('zb_dy') * v.real('zb_dy'))))
    for k, x in r.items():
        if k[0] != 'cell':
            v.check('continuous bed: ' + k[0], v.eq(x, 0))
    v.cover()


@contract('C10', [EX + 'ExnerEquation.__init__', SE + 'SedimentEquation2D.__init__'])
def switches(v):
    """each mechanism contributes exactly when it is switched on, with the label its integrators expect"""
    fl = {k: v.flag(k) for k in ('susp', 'bedload', 'slide')}
    b = bed(v.flag('conservative'), True, False, fl['bedload'], fl['slide'], susp=fl['susp'])
    names = {'ExnerSourceTerm': fl['susp'], 'ExnerBedloadTerm': fl['bedload'], 'ExnerSedimentSlideTerm': fl['slide']}
    v.check('terms', set(b.ex.terms) == {k for k, x in names.items() if x})
    ex, _ = raises(exner_eq.ExnerEquation, b.B, b.depth, None, False)
    v.check('a model is required', isinstance(ex, ValueError))
    env = b.env(v)
    tot = {}
    for lab in ('source', 'explicit', 'implicit', 'nonlinear'):
        for k, x in uflsem.integrals(b.ex_res(label=lab), env).items():
            tot[k] = tot.get(k, 0) + x
    for k, x in uflsem.integrals(b.ex_res(), env).items():
        v.check('partition', v.eq(x, tot.get(k, 0)))
    v.cover()


class Rec(dict):
    __getattr__ = dict.__getitem__


class Solver(Rec):
    """a solver of which only the entries set below exist; methods come from the real class"""
    def __getattr__(self, k):
        return self[k] if k in self else getattr(solver2d.FlowSolver2d, k).__get__(self)


@contract('C10', ['thetis.solver2d:FlowSolver2d.get_sediment_timestepper', 'thetis.solver2d:FlowSolver2d.get_exner_timestepper',
                  SM + 'SedimentModel.get_advective_velocity_correction_factor', 'thetis.timeintegrator:TimeIntegrator.create_fields_old'])
def wiring(v):
    """both equations are integrated with the same sediment, elevation, porosity and factors; every coefficient also reaches the lagged fields"""
    b = bed(False, True, False)
    corr, susp = v.flag('correction'), v.flag('suspended')
    which = v.choice('which', ('sediment', 'exner'))
    sol = Function(VectorFunctionSpace(b.mesh, 'DG', 1) * FunctionSpace(b.mesh, 'DG', 1))
    o = b.options
    so = o.sediment_model_options
    v.patch(so, 'solve_suspended_sediment', susp)
    model = object.__new__(sediment_model.SedimentModel)
    model.use_advective_velocity_correction = corr
    model.velocity_correction_factor = b.corr
    fake = Solver(fields=type('F', (), {})(), options=o, sediment_model=model, dt=v.real('dt', pos=True),
               equations=Rec(sediment=b.sed, exner=b.ex), bnd_functions={'sediment': {1: 's'}, 'shallow_water': {2: 'w'}})
    fake['fields'].solution_2d, fake['fields'].bathymetry_2d = sol, b.bath
    if susp:
        fake['fields'].sediment_2d = b.c
    got = {}

    def integrator(eq, sol_, fields, dt, opts, bnd):
        got.update(eq=eq, sol=sol_, fields=fields, dt=dt, opts=opts, bnd=bnd)
    if which == 'sediment' and not susp:
        return
    getattr(fake, 'get_%s_timestepper' % which)(integrator)
    uv, elev = sol.subfunctions
    f = got['fields']
    v.check('time step', v.eq(got['dt'], v.real('dt')))
    v.check('elevation', f['elev_2d'] is elev or f['elev_2d'] == elev)
    if which == 'sediment':
        v.check('equation and field', got['eq'] is b.sed and got['sol'] is b.c and got['bnd'] == {1: 's'} and got['opts'] is so.sediment_timestepper_options)
        v.check('velocity', f['uv_2d'] == uv)
        x = f['tracer_advective_velocity_factor']
        if corr:
            v.check('correction factor', x is b.corr)
        else:
            v.check('no correction: factor one', v.eq(uflsem.evaluate(x, b.env(v)), 1))
    else:
        v.check('equation and field', got['eq'] is b.ex and got['sol'] is b.bath and got['bnd'] == {2: 'w'} and got['opts'] is so.exner_timestepper_options)
        v.check('sediment', f['sediment'] is b.c if susp else uflsem.evaluate(f['sediment'], b.env(v)) is not None)
        v.check('factors', f['morfac'] is so.morphological_acceleration_factor and f['porosity'] is so.porosity)
    ti = object.__new__(timeintegrator.ForwardEuler)
    ti.fields = f
    ti.create_fields_old()
    for k, x in f.items():
        if x is not None:
            v.check('lagged copy of ' + k, k in ti.fields_old)
            if isinstance(x, Function):
                v.check('own storage for ' + k, ti.fields_old.get(k) is not x)
    v.cover()


@contract('C10', [SM + 'SedimentModel.get_sediment_slide_term'], samples=200)
def slide_coefficient(v):
    """the slide diffusion acts only above the angle of repose and only downhill"""
    from .c23 import World, RealFunction, sp, log10
    from .common import OptView
    from math import pi, tan
    w = World(v, use_sediment_slide=True)
    m = w.model()
    dt, morfac, por, L, ang = (Constant(1.) for _ in range(5))
    for f, nm, g in ((dt, 'dt', lambda r: r.choice((.1, 1, 10))), (morfac, 'morfac', lambda r: r.choice((1, 5))), (por, 'por', lambda r: r.random()),
                     (L, 'L', lambda r: r.random()), (ang, 'max_angle', lambda r: r.uniform(10, 40))):
        w.env.set(f, nm, 'const', value=lambda c, r, x=v.real(nm, pos=True, gen=g): x)
    v.assume(v.real('por', pos=True) < 1)
    v.assume(v.real('max_angle', pos=True) < 90)
    so = w.so
    so.morphological_acceleration_factor, so.porosity, so.sed_slide_length_scale, so.max_angle = morfac, por, L, ang
    region = v.flag('region')
    zone = RealFunction(sp('s'), name='region')
    fac = 1
    if region:
        so.slide_region = zone
        fac = v.real('region', gen=lambda r: r.choice((0., 1.)))
        w.env.set(zone, 'region', 'cg', value=lambda c, r: fac)
    m.options = OptView(w.options, timestep=dt)
    zb = RealFunction(sp('s'), name='zb')
    z = [v.real('zb_d%s' % k, gen=lambda r: r.uniform(-2, 2)) for k in 'xy']
    w.env.fields[zb] = uflsem.Field('zb', 'cg', value=lambda c, r: v.real('zb'), deriv=lambda c, ds, r: z[ds[0]])
    T = m.get_sediment_slide_term(zb)
    A = [[w(T[i, j]) for j in range(2)] for i in range(2)]
    tanphi = w(m.tanphi)
    x = w(ang * pi / 180)
    v.check('largest slope: tangent of the angle of repose', v.eq(tanphi, v.uf('tan', x)) if v.symbolic else abs(tanphi - tan(x)) < 1e-12)
    if v.symbolic:
        v.assume(tanphi > 0)
    v.check('isotropic', v.all([v.eq(A[0][1], 0), v.eq(A[1][0], 0), v.eq(A[0][0], A[1][1])]))
    slope2 = fac * fac * (z[0]**2 + z[1]**2)
    tb = w(m.tanbeta)
    v.check('slope of the bed', v.all([v.eq(tb * tb, slope2), tb >= 0]))
    v.check('no slide below the angle of repose', v.implies(tb <= tanphi, v.eq(A[0][0], 0)))
    c = w(cos(m.betaangle * dt * morfac))
    v.check('downhill where angle x step x morphological factor is below pi/2', v.implies(c > 0, A[0][0] <= 0))
    v.check('downhill for any step', A[0][0] <= 0)
    v.cover()
