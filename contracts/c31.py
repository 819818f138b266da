"""C31 solver set-up: the components are built from the user's options, fields and boundary data."""
import inspect
import itertools
import os
import firedrake as fd
from firedrake import Constant, Function, FunctionSpace
import thetis.solver2d as s2
import thetis.solver as s3
import thetis.utility as ut
from thetis.sediment_model import SedimentModel
from pyvc.contract import contract
from pyvc import core
from .common import raises, covering

ASSUMPTIONS = [
    'the constructors of equations, operators, limiters, turbulence models, exporters and time integrators are recorded, not run (their contracts are those of the other properties)',
    'one mesh of two triangles and one layer stands for all meshes: the set-up code does not look into the mesh',
]
S2 = 'thetis.solver2d:FlowSolver2d.'
S3 = 'thetis.solver:FlowSolver.'
_S = {}


def setup():
    for d, cls in (('2d', lambda m, b: s2.FlowSolver2d(m, b)), ('3d', lambda m, b: s3.FlowSolver(m, b, 1))):
        m = fd.UnitSquareMesh(1, 1)
        b = Function(FunctionSpace(m, 'CG', 1)).assign(1.0)
        _S[d] = m, b, cls


def solver(d):
    m, b, cls = _S[d]
    s = cls(m, b)
    s.options.no_exports = True
    return s


def sig(space):
    """family, degree and shape of a space"""
    e = space.ufl_element()
    d = e.degree()
    return e.family(), d if isinstance(d, tuple) else int(d), tuple(space.value_shape), type(e).__name__


class Made:
    """an object that only remembers how it was made"""
    def __init__(self, kind, args):
        self.__dict__.update(kind=kind, args=args, calls=[])

    def __getitem__(self, k):
        return self.args[k]

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return lambda *a, **kw: self.calls.append((k, a, kw))


class Shop(list):
    """replaces classes by recorders; arguments are bound to the names of the real constructor, defaults applied"""
    def __init__(self, v):
        list.__init__(self)
        self.v = v

    def take(self, mod, *names):
        for n in names:
            real = getattr(mod, n)
            sig = inspect.signature(real)

            def make(*a, _n=n, _s=sig, **k):
                b = _s.bind(*a, **k)
                b.apply_defaults()
                x = Made(_n, dict(b.arguments))
                self.append(x)
                return x
            self.v.patch(mod, n, make)
        return self

    def of(self, kind):
        return [x for x in self if x.kind == kind]


def quiet(v):
    for m in (s2, s3):
        v.patch(m, 'print_output', lambda *a, **k: None)


def same(v, who, x, **want):
    for k, e in want.items():
        h = x[k]
        v.check('%s: %s' % (who, k), h is e or (isinstance(e, (bool, int, float, str, fd.functionspaceimpl.WithGeometry, tuple)) and type(h) is type(e) and h == e),
                '%r instead of %r' % (h, e))


def const(x):
    return float(x.values()[0]) if isinstance(x, Constant) and x.ufl_shape == () else [float(y) for y in x.values()] if isinstance(x, Constant) else x


# ------------------------------------------------------------------------------------------------------------ 2D
def opts2d(v, s, kind):
    o = s.options
    C = Constant
    o.use_nonlinear_equations, o.use_wetting_and_drying = v.choice('depth', ((True, True), (True, False), (False, False)))
    alpha = C(.25)
    o.wetting_and_drying_alpha = alpha
    systems = []
    if kind in ('tracers', 'mixed', 'given', 'mixed_given'):
        if kind in ('tracers', 'given'):
            for l in ('salt_2d', 'dye_2d'):
                o.add_tracer_2d(l, l[:4] + ' name', l[:4] + 'File', **({'function': Function(FunctionSpace(s.mesh2d, 'DG', 1))} if kind == 'given' else {}))
            systems = ['salt_2d', 'dye_2d']
        else:
            ls = ['salt_2d', 'dye_2d']
            Q = FunctionSpace(s.mesh2d, 'DG', 1)
            o.add_tracer_system_2d(ls, [l[:4] + ' name' for l in ls], [l[:4] + 'File' for l in ls],
                                   **({'function': Function(fd.MixedFunctionSpace([Q, Q]))} if kind == 'mixed_given' else {}))
            systems = ['salt_2d,dye_2d']
    return systems, alpha


def drop_metadata():
    from thetis.field_defs import field_metadata
    for l in ('salt_2d', 'dye_2d'):
        field_metadata.pop(l, None)


KINDS = ('flow', 'tracers', 'mixed', 'given', 'mixed_given', 'suspended', 'bed', 'suspended_bed', 'nonhydrostatic')


@contract('C31', [S2 + m for m in ('create_fields', 'add_new_field', 'create_function_spaces', 'create_equations')], setup=setup, samples=2)
def fields2d(v):
    """fields live in the spaces of the chosen elements; a field given by the user is the one that is solved for"""
    quiet(v)
    kind = v.choice('kind', KINDS)
    s = solver('2d')
    o = s.options
    fam = v.choice('family', ('dg-dg', 'dg-cg', 'rt-dg', 'bdm-dg')) if kind == 'flow' else 'dg-dg'
    o.element_family = fam
    p = o.polynomial_degree = v.choice('degree', (0, 1)) if kind == 'flow' and fam == 'dg-dg' else 1
    if kind == 'tracers':
        o.tracer_element_family = v.choice('tracer_family', ('dg', 'cg'))
    calls = []
    v.patch(s2, 'get_horizontal_elem_size_2d', lambda f: calls.append(f))
    try:
        systems, alpha = opts2d(v, s, kind)
        given = dict(o.tracer_fields)
        qdeg = None
        if kind == 'nonhydrostatic':
            o.nh_model_options.solve_nonhydrostatic_pressure = True
            qdeg = v.choice('q_degree', (None, 2))
            if qdeg:
                o.nh_model_options.q_degree = qdeg
        so = o.sediment_model_options
        so.solve_suspended_sediment, so.solve_exner = kind.startswith('susp'), kind.endswith('bed')
        v.patch(type(s), 'set_wetting_and_drying_alpha', lambda self: calls.append('alpha'))
        if v.flag('spaces_first'):
            s.create_function_spaces()
        before = dict(s.function_spaces)
        s.create_fields()
        f, V = s.fields, s.function_spaces
        v.check('spaces made by the user stay', all(V[k] is x for k, x in before.items()))
        el = sig
        U, H = {'dg-dg': (('DG', p), ('DG', p)), 'dg-cg': (('DG', p), ('CG', p + 1)), 'rt-dg': (('RTF', p + 1), ('DG', p)), 'bdm-dg': (('BDMF', p + 1), ('DG', p))}[fam]
        mk = fd.VectorFunctionSpace if fam.startswith('dg') else FunctionSpace
        Us, Hs = mk(s.mesh2d, *U), FunctionSpace(s.mesh2d, *H)
        v.check('velocity space', el(V.U_2d) == el(Us))
        v.check('elevation space', el(V.H_2d) == el(Hs))
        v.check('mixed space', [el(q) for q in V.V_2d.subspaces] == [el(Us), el(Hs)])
        for n, m_, e in (('P0_2d', FunctionSpace, ('DG', 0)), ('P1_2d', FunctionSpace, ('CG', 1)), ('P1v_2d', fd.VectorFunctionSpace, ('CG', 1)),
                         ('P1DG_2d', FunctionSpace, ('DG', 1)), ('P1DGv_2d', fd.VectorFunctionSpace, ('DG', 1))):
            v.check('space ' + n, el(V[n]) == el(m_(s.mesh2d, *e)))
        v.check('tracer space', el(V.Q_2d) == el(FunctionSpace(s.mesh2d, o.tracer_element_family.upper(), 1)))
        uv, elev = f.solution_2d.subfunctions
        v.check('velocity and elevation are the parts of the solution', f.uv_2d is uv and f.elev_2d is elev and f.solution_2d.function_space() == V.V_2d)
        v.check('element sizes', f.h_elem_size_2d in calls and f.h_elem_size_2d.function_space() == V.P1_2d)
        d = s.depth
        v.check('depth', d.bathymetry_2d is f.bathymetry_2d and d.use_nonlinear_equations is o.use_nonlinear_equations and
                d.use_wetting_and_drying is o.use_wetting_and_drying and d.wetting_and_drying_alpha is o.wetting_and_drying_alpha)
        v.check('minimum depth parameter set before use', 'alpha' in calls)
        v.check('tracers solved', bool(s.solve_tracer) is bool(systems))
        for sysn in systems:
            par, ls = o.tracer_fields[sysn], sysn.split(',')
            v.check('tracer field given by the user', given[sysn] is None or par is given[sysn])
            v.check('tracer system field', f[sysn] is par)
            kids = [par] if len(ls) == 1 else list(par.subfunctions)
            v.check('one component per tracer', len(kids) == len(ls))
            for l, k in zip(ls, kids):
                v.check('tracer component', f[l] is k and k.name() == l)
                v.check('tracer in the tracer space', el(k.function_space()) == el(V.Q_2d))
        v.check('sediment field', ('sediment_2d' in f) == so.solve_suspended_sediment and (not so.solve_suspended_sediment or f.sediment_2d.function_space() == V.Q_2d))
        nh = kind == 'nonhydrostatic'
        v.check('pressure field', ('q_2d' in f) == nh and ('w_2d' in f) == nh)
        if nh:
            v.check('pressure space', el(f.q_2d.function_space()) == el(FunctionSpace(s.mesh2d, 'CG', qdeg or p)))
            v.check('vertical velocity space', f.w_2d.function_space() == V.H_2d)
        v.cover()
    finally:
        drop_metadata()


@contract('C31', [S2 + 'create_equations'], setup=setup, samples=2)
def equations2d(v):
    """each equation is created once, exactly when asked for, on its own space, with the depth, options, velocity and boundary data of the solver"""
    quiet(v)
    kind = v.choice('kind', KINDS)
    s = solver('2d')
    o = s.options
    shop = Shop(v).take(s2.shallowwater_eq, 'ShallowWaterEquations', 'FreeSurfaceEquation').take(s2.tracer_eq_2d, 'TracerEquation2D').take(
        s2.sediment_eq_2d, 'SedimentEquation2D').take(s2.exner_eq, 'ExnerEquation').take(s2.limiter, 'VertexBasedP1DGLimiter')
    v.patch(s2, 'get_horizontal_elem_size_2d', lambda f: None)
    bf = {k: {1: {'elev': Constant(0.)}} for k in ('shallow_water', 'tracer', 'sediment')}
    s.bnd_functions = bf
    made = []
    try:
        systems, _ = opts2d(v, s, kind)
        v.patch(type(s), 'set_wetting_and_drying_alpha', lambda self: None)
        so = o.sediment_model_options
        so.solve_suspended_sediment, so.solve_exner = kind.startswith('susp'), kind.endswith('bed')
        so.use_sediment_conservative_form = v.flag('conservative') if 'sus' in kind or 'bed' in kind else False
        if kind == 'nonhydrostatic':
            o.nh_model_options.solve_nonhydrostatic_pressure = True
        o.use_limiter_for_tracers = v.flag('limiter')
        o.polynomial_degree = v.choice('degree', (0, 1))
        if kind.endswith('bed') or kind == 'nonhydrostatic':
            o.polynomial_degree = 1

        class Model(SedimentModel):
            def __init__(self, *a, **k):
                b = inspect.signature(SedimentModel.__init__).bind(self, *a, **k)
                self.a = [b.arguments[n] for n in ('options', 'mesh2d', 'uv', 'elev', 'depth')]
                made.append(self)
        v.patch(so, 'sediment_model_class', Model)
        s.create_equations()
        f, V, E = s.fields, s.function_spaces, s.equations
        uv, elev = f.solution_2d.subfunctions
        x, = shop.of('ShallowWaterEquations')
        v.check('flow equations', E.sw is x)
        same(v, 'flow', x, function_space=V.V_2d, depth=s.depth, options=o, tidal_farms=None)
        v.check('flow boundary data', x.__dict__['bnd_functions'] is bf['shallow_water'])
        xs = shop.of('TracerEquation2D')
        v.check('one equation per tracer system', len(xs) == len(systems) and all(E.get(k) in xs for k in systems))
        for k in systems:
            same(v, 'tracer', E[k], system=k, function_space=f[k].function_space(), depth=s.depth, options=o, velocity=uv)
        sed, bed = so.solve_suspended_sediment, so.solve_exner
        v.check('one sediment model when needed', len(made) == int(sed or bed))
        if made:
            v.check('sediment model', s.sediment_model is made[0] and all(a is b for a, b in zip(made[0].a, (o, s.mesh2d, uv, elev, s.depth))))
        xs = shop.of('SedimentEquation2D')
        v.check('sediment equation', len(xs) == int(sed) and ('sediment' in E) == sed)
        if sed:
            v.check('sediment equation stored', E.sediment is xs[0])
            same(v, 'sediment', xs[0], function_space=V.Q_2d, depth=s.depth, options=o, sediment_model=made[0], conservative=so.use_sediment_conservative_form)
        xs = shop.of('ExnerEquation')
        v.check('bed equation', len(xs) == int(bed) and ('exner' in E) == bed)
        if bed:
            v.check('bed equation stored', E.exner is xs[0])
            same(v, 'bed', xs[0], function_space=f.bathymetry_2d.function_space(), depth=s.depth, sediment_model=made[0],
                 depth_integrated_sediment=so.use_sediment_conservative_form)
        xs = shop.of('FreeSurfaceEquation')
        nh = kind == 'nonhydrostatic'
        v.check('free surface equation', len(xs) == int(nh) and ('fs' in E) == nh)
        if nh:
            same(v, 'free surface', xs[0], eta_space=V.H_2d, u_space=V.U_2d, depth=s.depth, options=o)
            t = xs[0]['eta_test']
            v.check('free surface test function and boundary data', E.fs is xs[0] and t.ufl_function_space() == V.H_2d and t.number() == 0 and
                    xs[0].__dict__['bnd_functions'] is bf['shallow_water'])
        xs = shop.of('VertexBasedP1DGLimiter')
        lim = bool(systems or sed) and o.use_limiter_for_tracers and o.polynomial_degree > 0
        v.check('limiter exactly when asked for and possible', len(xs) == int(lim))
        if lim:
            v.check('limiter of the tracer space', s.tracer_limiter is xs[0] and list(xs[0].args.values())[0] == V.Q_2d)
        elif systems or sed:
            v.check('no limiter', s.tracer_limiter is None)
        v.cover()
    finally:
        drop_metadata()


@contract('C31', [S2 + 'create_equations'], setup=setup, samples=2)
def farms2d(v):
    """every turbine farm acts on its own subdomain with its own options; wrong inputs and unsupported beds are refused"""
    quiet(v)
    s = solver('2d')
    o = s.options
    shop = Shop(v).take(s2.shallowwater_eq, 'ShallowWaterEquations').take(s2, 'TidalTurbineFarm', 'DiscreteTidalTurbineFarm')
    v.patch(s2, 'get_horizontal_elem_size_2d', lambda f: None)
    case = v.choice('case', ('farms', 'not_a_list', 'discrete_not_a_list', 'dg_bed'))
    if case == 'dg_bed':
        o.sediment_model_options.solve_exner = True
        v.patch(SedimentModel, '__init__', lambda *a: None)
        s.fields.bathymetry_2d = Function(FunctionSpace(s.mesh2d, 'DG', 1))
        ex, _ = raises(s.create_equations)
        v.check('discontinuous bed refused', isinstance(ex, NotImplementedError))
        return

    class Farm:
        def __init__(self, q=None):
            self.turbine_density, self.quadrature_degree = Constant(.1), q
    p = o.polynomial_degree = v.choice('degree', (0, 1))
    cont, disc = {}, {}
    if case == 'not_a_list':
        o.tidal_turbine_farms[2] = Farm()
    elif case == 'discrete_not_a_list':
        o.discrete_tidal_turbine_farms[2] = Farm(3)
    else:
        n1, n2, n3 = v.choice('n', ((0, 0, 0), (1, 0, 0), (2, 1, 0), (0, 0, 2), (1, 1, 1)))
        cont = {k: [Farm() for _ in range(n)] for k, n in ((2, n1), ('everywhere', n2)) if n}
        disc = {k: [Farm(4 + i) for i in range(n)] for k, n in ((5, n3),) if n}
        for k, x in cont.items():
            o.tidal_turbine_farms[k] = x
        for k, x in disc.items():
            o.discrete_tidal_turbine_farms[k] = x
    ex, _ = raises(s.create_equations)
    if case != 'farms':
        v.check('farm options must come in a list', isinstance(ex, TypeError))
        return
    v.check('created', ex is None, repr(ex))
    want = [(k, x, False) for k, xs in cont.items() for x in xs] + [(k, x, True) for k, xs in disc.items() for x in xs]
    v.check('one farm per entry', len(shop.of('TidalTurbineFarm')) + len(shop.of('DiscreteTidalTurbineFarm')) == len(want))
    E, = shop.of('ShallowWaterEquations')
    if not want:
        v.check('no farms', E['tidal_farms'] is None)
    else:
        v.check('the equations get the farms', E['tidal_farms'] is s.tidal_farms and len(s.tidal_farms) == len(want))
    for k, opt, dis in want:
        m = [x for x in shop.of('DiscreteTidalTurbineFarm' if dis else 'TidalTurbineFarm') if x['options'] is opt]
        v.check('farm with its options', len(m) == 1 and m[0] in s.tidal_farms)
        x = m[0]
        v.check('farm measure', x['dx'].integral_type() == 'cell' and x['dx'].subdomain_id() == k, repr(x['dx']))
        q = x['dx'].metadata()
        q = q.get('quadrature_degree', q.get('degree')) if isinstance(q, dict) else None
        v.check('farm quadrature', q == (opt.quadrature_degree if dis else 2 * p + 1), repr(q))
        if dis:
            v.check('mesh of the farm', x['mesh'] is s.mesh2d)
        else:
            v.check('density of the farm', x['turbine_density'] is opt.turbine_density)
    v.cover()


class GField:
    """a field that logs what is put into it"""
    def __init__(self, log, name):
        self.log, self.name = log, name

    def _put(self, x, *a, **k):
        self.log.append(('set', self.name, x))
        return self
    project = interpolate = assign = _put

    def function_space(self):
        return 'space'

    def __repr__(self):
        return self.name


class Fields(dict):
    __getattr__ = dict.__getitem__


class Expr:
    """product bookkeeping"""
    def __init__(self, *f):
        self.f = f

    def __mul__(self, o):
        return Expr(*self.f, *(o.f if isinstance(o, Expr) else (o,)))
    __rmul__ = __mul__


@contract('C31', [S2 + 'assign_initial_conditions'], setup=setup, samples=2)
def initial2d(v):
    """each initial condition goes to its own field before the time integrator is initialised; sediment starts from equilibrium with the initial flow"""
    s = solver('2d')
    log = []
    gv = {k: v.flag('give_' + k) for k in ('elev', 'uv')}
    tr = v.choice('tracers', ('none', 'short', 'long', 'both', 'unknown'))
    sed = v.choice('sediment', ('no', 'model', 'equilibrium', 'given'))
    cons = v.flag('conservative') if sed == 'equilibrium' else False
    init = v.flag('initialized')
    uv, elev = GField(log, 'uv'), GField(log, 'elev')

    class Sol:
        subfunctions = (uv, elev)
    F = Fields(solution_2d=Sol(), uv_2d=uv, elev_2d=elev, salt_2d=GField(log, 'salt'), dye_2d=GField(log, 'dye'), sediment_2d=GField(log, 'sediment'))

    class Model:
        def update(self):
            log.append(('update',))

        def get_equilibrium_tracer(self):
            log.append(('equilibrium',))
            return Expr('c')

    class Depth:
        def get_total_depth(self, e):
            return Expr('H', e)

    class TS:
        def initialize(self, sol):
            log.append(('start', sol))
    so = Fields(solve_suspended_sediment=sed in ('equilibrium', 'given'), use_sediment_conservative_form=cons)
    s.__dict__.update(_initialized=init, initialize=lambda: log.append(('init',)), fields=F, options=Fields(tracer={'salt_2d': 0, 'dye_2d': 0}, sediment_model_options=so),
                      sediment_model=Model() if sed != 'no' else None, depth=Depth(), timestepper=TS())
    val = {k: Constant(float(i)) for i, k in enumerate(('elev', 'uv', 'salt', 'dye', 'sediment'))}
    kw = {k: val[k] for k in ('elev', 'uv') if gv[k]}
    exp = dict(kw)
    if tr in ('short', 'both'):
        kw['salt'] = exp['salt'] = val['salt']
    if tr in ('long', 'both'):
        kw['dye_2d'] = exp['dye'] = val['dye']
    if tr == 'unknown':
        kw['gold'] = val['salt']
    if sed == 'given':
        kw['sediment'] = exp['sediment'] = val['sediment']
    ex, _ = raises(s.assign_initial_conditions, **kw)
    if tr == 'unknown':
        v.check('unknown tracer refused', isinstance(ex, AssertionError))
        return
    v.check('accepted', ex is None, repr(ex))
    kinds = [e[0] for e in log]
    v.check('initialised first, when needed', kinds.count('init') == (0 if init else 1) and (init or kinds[0] == 'init'))
    sets = {e[1]: e[2] for e in log if e[0] == 'set'}
    v.check('each field once', len(sets) == kinds.count('set'))
    eq = sets.pop('sediment') if sed == 'equilibrium' else None
    v.check('each value in its own field', set(sets) == set(exp) and all(sets[k] is x for k, x in exp.items()))
    start = [i for i, k in enumerate(kinds) if k == 'start']
    v.check('integrator started once, last, from the solution', len(start) == 1 and start[0] == len(log) - 1 and log[-1][1] is F.solution_2d)
    pos = lambda t: [i for i, e in enumerate(log) if e[:len(t)] == t]
    flow = [i for i, e in enumerate(log) if e[0] == 'set' and e[1] in ('elev', 'uv')]
    if sed != 'no':
        v.check('sediment model sees the initial flow', len(pos(('update',))) >= 1 and all(pos(('update',))[-1] > i for i in flow))
    if sed == 'equilibrium':
        f = list(eq.f) if isinstance(eq, Expr) else [eq]
        v.check('equilibrium concentration', f.count('c') == 1 and len(f) == (3 if cons else 1) and (not cons or 'H' in f and elev in f))
        v.check('equilibrium with the initial flow', pos(('equilibrium',))[-1] > pos(('update',))[0])
    v.cover()


# ------------------------------------------------------------------------------------------------------------ both
@contract('C31', [S2 + 'create_exporters', S3 + 'create_exporters'], setup=setup, samples=2)
def exporters(v):
    """the files asked for go to the output directory, restart files with time and date to its hdf5 folder"""
    quiet(v)
    d = v.choice('solver', ('2d', '3d'))
    mod = s2 if d == '2d' else s3
    s = solver(d)
    o = s.options
    o.no_exports = v.flag('no_exports')
    o.verbose = v.choice('verbose', (0, 1, 2))
    o.output_directory = 'some_outputs'
    o.fields_to_export, o.fields_to_export_hdf5 = ['elev_2d'], ['uv_2d', 'elev_2d']
    import datetime
    day = datetime.datetime(2001, 2, 3, tzinfo=datetime.timezone.utc)
    if v.flag('date'):
        o.simulation_initial_date = day
    else:
        day = None
    shop = Shop(v).take(mod.exporter, 'ExportManager')
    ts = v.flag('has_timestepper')
    calls = []
    s.__dict__['create_timestepper'] = lambda: calls.append(1)
    if ts:
        s.__dict__['timestepper'] = object()
    s.create_exporters()
    v.check('time stepper first', len(calls) == (0 if ts else 1))
    if o.no_exports:
        v.check('no files', len(shop) == 0 and len(s.exporters) == 0)
        return
    v.check('two managers', len(shop) == 2 and set(s.exporters) == {'vtk', 'hdf5'})
    a, b = s.exporters['vtk'], s.exporters['hdf5']
    for x, dirn, names, kind in ((a, 'some_outputs', o.fields_to_export, 'vtk'), (b, os.path.join('some_outputs', 'hdf5'), o.fields_to_export_hdf5, 'hdf5')):
        v.check(kind + ': directory', x['outputdir'] == dirn)
        v.check(kind + ': fields', list(x['fields_to_export']) == list(names) and x['functions'] is s.fields and x['field_metadata'] is mod.field_metadata)
        v.check(kind + ': type', x['export_type'] == kind and x['preproc_funcs'] is s._field_preproc_funcs and bool(x['verbose']) == (o.verbose > 0))
        v.check(kind + ': first file', x['next_export_ix'] == 0 and not x['legacy_mode'])
    v.check('restart files carry time and date', b['include_time'] is True and b['initial_time'] == day)
    v.cover()


@contract('C31', [S2 + 'initialize', S3 + 'initialize'], setup=setup, samples=2)
def initialize(v):
    """initialisation makes what is missing, in order, and nothing twice"""
    d = v.choice('solver', ('2d', '3d'))
    s = solver(d)
    have = v.choice('have', (0, 1, 2, 3, 4))
    names = ('function_spaces', 'equations', 'timestepper', 'exporters')
    log = []

    def maker(n):
        def make():
            log.append(n)
            if n == 'function_spaces':
                s.function_spaces.U_2d = s.function_spaces.U = 1
            else:
                s.__dict__[n] = 1
        return make
    for n in names:
        s.__dict__['create_' + n] = maker(n)
    for n in names[:have]:
        maker(n)()
    del log[:]
    s.__dict__['_initialized'] = False
    s.initialize()
    v.check('missing parts made in order', log == list(names[have:]))
    v.check('marked initialised', s._initialized is True)
    v.cover()


@contract('C31', ['thetis.utility:SumFunction.' + m for m in ('__init__', 'add', 'get_sum')])
def sums(v):
    """the sum of the coefficients that exist; none when there are none"""
    n = v.choice('n', (0, 1, 2, 3, 4))
    s = ut.SumFunction()
    tot, k = 0, 0
    for i in range(n):
        if v.flag('none%d' % i):
            s.add(None)
        else:
            x = v.real('x%d' % i)
            s.add(x)
            tot, k = tot + x, k + 1
    for _ in range(2):
        r = s.get_sum()
        v.check('sum', r is None if k == 0 else v.eq(r, tot))
    v.cover()


# ------------------------------------------------------------------------------------------------------------ 3D
def classes3d(v):
    shop = Shop(v)
    shop.take(s3.shallowwater_eq, 'ModeSplit2DEquations').take(s3.momentum_eq, 'MomentumEquation', 'InternalPressureGradientCalculator')
    shop.take(s3.tracer_eq, 'TracerEquation').take(s3.turbulence, 'TKEEquation', 'PsiEquation', 'GenericLengthScaleModel', 'PacanowskiPhilanderModel')
    shop.take(s3.limiter, 'VertexBasedP1DGLimiter')
    shop.take(s3, 'VerticalVelocitySolver', 'VerticalIntegrator', 'DensitySolver', 'DensitySolverWeak', 'LinearEquationOfState', 'JackettEquationOfState',
              'SubFunctionExtractor', 'ExpandFunctionTo3d', 'ALEMeshUpdater', 'SmagorinskyViscosity')
    for n in ('get_horizontal_elem_size_3d',):
        v.patch(s3, n, lambda *a: None)
    return shop


def terms_of(e):
    """coefficients of a plain sum"""
    import ufl
    if isinstance(e, ufl.algebra.Sum):
        a, b = e.ufl_operands
        return terms_of(a) + terms_of(b)
    return [e]


def is_sum(e, parts):
    t = terms_of(e)
    return len(t) == len(parts) and all(sum(1 for x in t if x is p) == 1 for p in parts)


FT = (False, True)
TRACERS = ((True, True), (False, False), (True, False), (False, True))
FIELDS3D = covering(3, family=('dg-dg', 'rt-dg'), degree=(0, 1), tracers=TRACERS, ale=FT, baroclinic=FT, turb=('none', 'gls', 'pacanowski'), smagorinsky=FT,
                    limiters=((True, True), (True, False), (False, True), (False, False)), background=FT)
EQUATIONS3D = covering(3, family=('dg-dg', 'rt-dg'), tracers=TRACERS, baroclinic=('no', 'full', 'linear'), quadratic=FT, nonlinear=FT, friction=FT, lf_velocity=FT, lf_tracer=FT,
                       smagorinsky=FT)


@contract('C31', [S3 + m for m in ('create_fields', 'create_function_spaces')], setup=setup, samples=2,
          bounded='every combination of any three of nine switches (element family, degree, tracers, moving mesh, baroclinicity, turbulence, Smagorinsky, limiters, background values)')
def fields3d(v):
    """3D fields exist exactly for the processes chosen, in their spaces, and the totals add the eddy coefficients to the background"""
    quiet(v)
    shop = classes3d(v)
    row = v.choice('switches', FIELDS3D)
    s = solver('3d')
    o = s.options
    p, fam = o.polynomial_degree, o.element_family = row['degree'], row['family']
    salt, temp = o.solve_salinity, o.solve_temperature = row['tracers']
    o.use_ale_moving_mesh = row['ale']
    bar = o.use_baroclinic_formulation = row['baroclinic']
    turb = row['turb']
    o.use_turbulence = turb != 'none'
    if turb != 'none':
        o.turbulence_model_type = turb
    smag = o.use_smagorinsky_viscosity = row['smagorinsky']
    lt, lu = o.use_limiter_for_tracers, o.use_limiter_for_velocity = row['limiters']
    bg = row['background']
    if bg:
        o.horizontal_viscosity, o.vertical_viscosity, o.horizontal_diffusivity, o.vertical_diffusivity = (Constant(.1 * i) for i in range(1, 5))
        o.coriolis_frequency, o.wind_stress = Constant(1e-4), Constant((1., 2., 0.))
    s.create_fields()
    f, V = s.fields, s.function_spaces
    el = sig
    import thetis.utility as U_
    gf = U_.get_functionspace
    uvs = gf(s.mesh, 'DG', p, 'DG', p, vector=True) if fam == 'dg-dg' else gf(s.mesh, 'RTF', p + 1, 'DG', p, hdiv=True)
    uv2 = gf(s.mesh2d, 'DG', p, vector=True) if fam == 'dg-dg' else gf(s.mesh2d, 'RTF', p + 1)
    H, H2 = gf(s.mesh, 'DG', p, 'DG', p), gf(s.mesh2d, 'DG', p)
    v.check('solution space', [el(q) for q in f.solution_2d.function_space().subspaces] == [el(uv2), el(H2)])
    a, b = f.solution_2d.subfunctions
    v.check('2D parts', f.uv_2d is a and f.elev_2d is b)
    for names, sp in ((('uv_3d', 'uv_dav_3d'), uvs), (('uv_dav_2d', 'split_residual_2d'), uv2), (('elev_domain_2d',), H2)):
        for n in names:
            v.check('space of ' + n, el(f[n].function_space()) == el(sp))
    for n in ('elev_cg_2d', 'bathymetry_2d'):
        v.check('space of ' + n, el(f[n].function_space()) == el(gf(s.mesh2d, 'CG', 1)))
    for n in ('elev_domain_2d', 'elev_cg_2d', 'bathymetry_2d'):
        v.check('3D view of ' + n, f[n].view_3d.function_space().mesh() is s.mesh)
    for n in ('z_coord_3d', 'z_coord_ref_3d', 'max_h_diff', 'h_elem_size_3d') + (('w_mesh_3d',) if o.use_ale_moving_mesh else ()) + (('smag_visc_3d',) if smag else ()):
        v.check('space of ' + n, el(f[n].function_space()) == el(gf(s.mesh, 'CG', 1, 'CG', 1)))
    on = dict(w_mesh_3d=o.use_ale_moving_mesh, salt_3d=salt, temp_3d=temp, density_3d=bar, baroc_head_3d=bar, int_pg_3d=bar, coriolis_3d=bg, wind_stress_3d=bg, smag_visc_3d=smag)
    on.update({k: turb != 'none' for k in ('eddy_visc_3d', 'eddy_diff_3d', 'shear_freq_3d', 'buoy_freq_3d')})
    on.update({k: turb == 'gls' for k in ('tke_3d', 'psi_3d', 'eps_3d', 'len_3d')})
    for k, x in on.items():
        v.check('%s exists exactly when needed' % k, (k in f) == x)
    for k in ('salt_3d', 'temp_3d', 'density_3d'):
        if on[k]:
            v.check('space of ' + k, el(f[k].function_space()) == el(H))
    if bar:
        v.check('pressure head space', el(f.baroc_head_3d.function_space()) == el(gf(s.mesh, 'DG', 1, 'CG', 2)))
        v.check('pressure gradient space', el(f.int_pg_3d.function_space()) == el(uvs))
    if bg:
        v.check('forcing', f.coriolis_3d is o.coriolis_frequency and f.wind_stress_3d is o.wind_stress)
    lim = shop.of('VertexBasedP1DGLimiter')
    wt, wu = lt and p > 0, lu and p > 0 and fam == 'dg-dg'
    v.check('limiters exactly when asked for and possible', len(lim) == int(wt) + int(wu) and (s.tracer_limiter is not None) == wt and (s.uv_limiter is not None) == wu)
    for on_, x, sp in ((wt, s.tracer_limiter, H), (wu, s.uv_limiter, uvs)):
        if on_:
            v.check('limiter space', el(list(x.args.values())[0]) == el(sp))
    m = shop.of('GenericLengthScaleModel') + shop.of('PacanowskiPhilanderModel')
    v.check('turbulence model', len(m) == int(turb != 'none') and (s.turbulence_model is (m[0] if m else None)))
    if m:
        same(v, turb, m[0], uv_field=f.uv_3d, rho_field=f.get('density_3d'), eddy_diffusivity=f.eddy_diff_3d, eddy_viscosity=f.eddy_visc_3d,
             n2=f.buoy_freq_3d, m2=f.shear_freq_3d, options=o.turbulence_model_options)
        if turb == 'gls':
            same(v, turb, m[0], k_field=f.tke_3d, psi_field=f.psi_3d, l_field=f.len_3d, epsilon_field=f.eps_3d)
            distinct = [f[k] for k in ('tke_3d', 'psi_3d', 'eps_3d', 'len_3d', 'eddy_visc_3d', 'eddy_diff_3d', 'shear_freq_3d', 'buoy_freq_3d')]
            v.check('turbulent fields are distinct', len({id(x) for x in distinct}) == 8)
        v.check('kind of model', m[0].kind == {'gls': 'GenericLengthScaleModel', 'pacanowski': 'PacanowskiPhilanderModel'}[turb])
    for tot, back, eddy in ((s.tot_h_visc, o.horizontal_viscosity, f.get('smag_visc_3d')), (s.tot_v_visc, o.vertical_viscosity, f.get('eddy_visc_3d')),
                            (s.tot_h_diff, o.horizontal_diffusivity, None), (s.tot_v_diff, o.vertical_diffusivity, f.get('eddy_diff_3d'))):
        want = [x for x in (back, eddy) if x is not None]
        e = tot.get_sum()
        v.check('total viscosity/diffusivity', (e is None) if not want else is_sum(e, want), repr(e))
    v.cover()


def equations3d(v, impl, turb):
    quiet(v)
    shop = classes3d(v)
    row = v.choice('switches', EQUATIONS3D)
    s = solver('3d')
    o = s.options
    o.element_family = row['family']
    salt, temp = o.solve_salinity, o.solve_temperature = row['tracers']
    bar = o.use_baroclinic_formulation = row['baroclinic'] != 'no'
    eos = o.equation_of_state_type = row['baroclinic'] if bar else 'full'
    o.use_quadratic_pressure = o.use_quadratic_density = qd = row['quadratic']
    o.use_implicit_vertical_diffusion = impl
    o.use_turbulence = turb != 'none'
    if turb != 'none':
        o.turbulence_model_type = 'gls'
        o.use_turbulence_advection = turb == 'gls_adv'
    sw = row['nonlinear'], row['friction'], row['lf_velocity'], row['lf_tracer']
    o.use_nonlinear_equations, o.use_bottom_friction, o.use_lax_friedrichs_velocity, o.use_lax_friedrichs_tracer = sw
    smag = o.use_smagorinsky_viscosity = row['smagorinsky']
    sip = {k: Constant(1. + i) for i, k in enumerate(('sipg_factor', 'sipg_factor_vertical', 'sipg_factor_tracer', 'sipg_factor_vertical_tracer', 'sipg_factor_turb',
                                                       'sipg_factor_vertical_turb', 'constant_salinity', 'constant_temperature', 'smagorinsky_coefficient', 'internal_pg_scalar'))}
    for k, x in sip.items():
        setattr(o, k, x)
    bf = {k: {1: {k: Constant(0.)}} for k in ('shallow_water', 'momentum', 'salt', 'temp')}
    s.bnd_functions = bf
    s.create_equations()
    f, E, V = s.fields, s.equations, s.function_spaces
    bath, hv, hh = f.bathymetry_2d.view_3d, f.v_elem_size_3d, f.h_elem_size_3d
    geo = dict(bathymetry=bath, v_elem_size=hv, h_elem_size=hh)
    v.check('depth', s.depth.bathymetry_2d is f.bathymetry_2d and s.depth.use_nonlinear_equations is o.use_nonlinear_equations and not s.depth.use_wetting_and_drying)
    x, = shop.of('ModeSplit2DEquations')
    v.check('2D mode', E.sw is x and x.__dict__['bnd_functions'] is bf['shallow_water'])
    same(v, '2D mode', x, function_space=V.V_2d, depth=s.depth, options=o)
    xs = shop.of('MomentumEquation')
    v.check('momentum equations', len(xs) == 1 + int(impl) and E.momentum in xs and ('vertmomentum' in E) == impl and E.momentum.__dict__['bnd_functions'] is bf['momentum'])
    sv = dict(sipg_factor=sip['sipg_factor'], sipg_factor_vertical=sip['sipg_factor_vertical'])
    same(v, 'momentum', E.momentum, function_space=f.uv_3d.function_space(), use_nonlinear_equations=sw[0], use_lax_friedrichs=sw[2],
         use_bottom_friction=sw[1] and not impl, **geo, **sv)
    if impl:
        v.check('own equation for the implicit part', E.vertmomentum is not E.momentum and E.vertmomentum in xs)
        same(v, 'vertical momentum', E.vertmomentum, function_space=f.uv_3d.function_space(), use_nonlinear_equations=False, use_bottom_friction=sw[1], **geo, **sv)
    n = 0
    st = dict(sipg_factor=sip['sipg_factor_tracer'], sipg_factor_vertical=sip['sipg_factor_vertical_tracer'])
    for k, on in (('salt', salt), ('temp', temp)):
        v.check('%s equation' % k, (k in E) == on and (k + '_vdff' in E) == (on and impl))
        if on:
            n += 1 + int(impl)
            v.check('%s boundary data' % k, E[k].__dict__['bnd_functions'] is bf[k])
            same(v, k, E[k], function_space=f[k + '_3d'].function_space(), use_lax_friedrichs=sw[3], use_symmetric_surf_bnd=o.element_family == 'dg-dg', **geo, **st)
            if impl:
                v.check('own equation for the implicit part', E[k + '_vdff'] is not E[k])
                same(v, k + ' diffusion', E[k + '_vdff'], function_space=f[k + '_3d'].function_space(), **geo, **st)
    for k in ('tke', 'psi'):
        v.check('%s advection' % k, (k + '_adv' in E) == (turb == 'gls_adv'))
        v.check('%s diffusion' % k, (k + '_diff' in E) == (turb != 'none'))
        if turb == 'gls_adv':
            n += 1
            same(v, k, E[k + '_adv'], function_space=f[k + '_3d'].function_space(), use_lax_friedrichs=sw[3], sipg_factor=sip['sipg_factor_turb'],
                 sipg_factor_vertical=sip['sipg_factor_vertical_turb'], **geo)
        if turb != 'none':
            x, = shop.of({'tke': 'TKEEquation', 'psi': 'PsiEquation'}[k])
            v.check('%s equation stored' % k, E[k + '_diff'] is x)
            same(v, k, x, function_space=f[k + '_3d'].function_space(), gls_model=s.turbulence_model, **geo)
    v.check('no other tracer equations', len(shop.of('TracerEquation')) == n)
    # operators
    x = s.w_solver
    same(v, 'vertical velocity', x, solution=f.w_3d, bathymetry=bath, boundary_funcs=bf['momentum'])
    v.check('vertical velocity from the total horizontal velocity', x.kind == 'VerticalVelocitySolver' and is_sum(x['uv'], [f.uv_3d, f.uv_dav_3d]))
    x = s.uv_averager
    same(v, 'depth average', x, input=f.uv_3d, output=f.uv_dav_3d, bottom_to_top=True, average=True, bathymetry=bath, elevation=f.elev_cg_2d.view_3d)
    v.check('depth average starts from zero', all(y == 0 for y in const(x['bnd_value'])))
    v.check('integrators', len(shop.of('VerticalIntegrator')) == 1 + int(bar))
    if bar:
        S_, T_ = (f.salt_3d if salt else sip['constant_salinity']), (f.temp_3d if temp else sip['constant_temperature'])
        x = s.density_solver
        v.check('kind of density solver', x.kind == ('DensitySolverWeak' if qd else 'DensitySolver'))
        same(v, 'density', x, salinity=S_, temperature=T_, density=f.density_3d, eos_class=s.equation_of_state)
        v.check('equation of state', s.equation_of_state.kind == ('LinearEquationOfState' if eos == 'linear' else 'JackettEquationOfState'))
        if eos == 'linear':
            e = o.equation_of_state_options
            same(v, 'equation of state', s.equation_of_state, rho_ref=e.rho_ref, alpha=e.alpha, beta=e.beta, th_ref=e.th_ref, s_ref=e.s_ref)
        x = s.rho_integrator
        same(v, 'pressure head', x, input=f.density_3d, output=f.baroc_head_3d, bottom_to_top=False, average=False, bathymetry=bath, elevation=f.elev_cg_2d.view_3d)
        v.check('pressure head vanishes at the surface', const(x['bnd_value']) == 0)
        x = s.int_pg_calculator
        same(v, 'pressure gradient', x, fields=f, bathymetry=bath, bnd_functions=bf['momentum'], internal_pg_scalar=sip['internal_pg_scalar'])
    else:
        v.check('no density', not shop.of('DensitySolver') and not shop.of('InternalPressureGradientCalculator'))
    x = s.extract_surf_dav_uv
    same(v, 'surface', x, input_3d=f.uv_dav_3d, output_2d=f.uv_dav_2d, boundary='top', elem_facet='top', elem_height=f.v_elem_size_2d)
    same(v, 'expand mean', s.copy_uv_dav_to_uv_dav_3d, input_2d=f.uv_dav_2d, output_3d=f.uv_dav_3d, elem_height=hv)
    same(v, 'expand 2D', s.copy_uv_to_uv_dav_3d, input_2d=f.uv_2d, output_3d=f.uv_dav_3d, elem_height=hv)
    v.check('mesh updater', s.mesh_updater.kind == 'ALEMeshUpdater' and s.mesh_updater['solver'] is s)
    v.check('Smagorinsky', len(shop.of('SmagorinskyViscosity')) == int(smag))
    if smag:
        same(v, 'Smagorinsky', s.smagorinsky_diff_solver, uv=f.uv_3d, output=f.smag_visc_3d, c_s=sip['smagorinsky_coefficient'], h_elem_size=hh, max_val=f.max_h_diff)
    v.cover()


for _i, _t in itertools.product((False, True), ('none', 'gls', 'gls_adv')):
    contract('C31', [S3 + 'create_equations'], name='equations3d_%s_%s' % ('implicit' if _i else 'explicit', _t), setup=setup, samples=2,
             bounded='every combination of any three of nine switches (element family, tracers, density, quadratic spaces, nonlinearity, friction, stabilisations, Smagorinsky)')(
        lambda v, i=_i, t=_t: equations3d(v, i, t))


@contract('C31', [S3 + 'create_timestepper'], setup=setup, samples=2)
def timestepper3d(v):
    """mesh first, then time steps, then the integrator gets them; the diffusivity limit scales with the squared element size over the time step"""
    quiet(v)
    s = solver('3d')
    log = []
    kind = v.choice('type', ('LeapFrog', 'SSPRK22', 'other'))
    p = v.choice('degree', (0, 1, 2))
    T, t0, dt, dt2 = v.real('T', pos=True), v.real('t0'), v.real('dt', pos=True), v.real('dt2', pos=True)
    h = v.real('h', pos=True)

    class H(GField):
        def __pow__(self, n):
            return h ** n

        def __mul__(self, o):
            return h * o
        __rmul__ = __mul__

    class Arr:
        def min(self):
            return 0.

        def max(self):
            return 0.
    F = Fields(bathymetry_2d=GField(log, 'bath'), max_h_diff=GField(log, 'limit'), h_elem_size_3d=H(log, 'h'))
    F.max_h_diff.dat = Fields(data=Arr())

    class El:
        def ufl_element(self):
            return self

        def degree(self):
            return (p, p)

    class TS:
        def __init__(self, name):
            self.name = name

        def set_dt(self, *a):
            log.append(('set_dt',) + a)
    for n in ('CoupledLeapFrogAM3', 'CoupledTwoStageRK'):
        v.patch(s3.coupled_timeintegrator, n, lambda sol, n=n: (log.append(('create', n)), TS(n))[1])
    eqs = v.flag('has_equations')
    if eqs:
        s.__dict__['equations'] = 1

    def steps():
        log.append(('steps',))
        s.__dict__.update(dt=dt, dt_2d=dt2)
    s.__dict__.update(create_equations=lambda: log.append(('equations',)), fields=F, function_spaces=Fields(H=El()), mesh_updater=Fields(initialize=lambda: log.append(('mesh',))),
                      bathymetry_cg_2d='user bathymetry', compute_mesh_stats=lambda: log.append(('stats',)), set_time_step=steps, simulation_time=t0, dt=None, dt_2d=None,
                      options=Fields(timestepper_type=kind, simulation_export_time=T))
    ex, _ = raises(s.create_timestepper)
    if kind == 'other':
        v.check('unknown integrator refused', isinstance(ex, NotImplementedError))
        return
    v.check('created', ex is None, repr(ex))
    k = [e[0] for e in log]
    v.check('equations made when missing', k.count('equations') == (0 if eqs else 1))
    v.check('integrator asked for', [e[1] for e in log if e[0] == 'create'] == [{'LeapFrog': 'CoupledLeapFrogAM3', 'SSPRK22': 'CoupledTwoStageRK'}[kind]] and
            s.timestepper.name == [e[1] for e in log if e[0] == 'create'][0])
    b = [i for i, e in enumerate(log) if e[:2] == ('set', 'bath')]
    v.check('bathymetry of the user', len(b) == 1 and log[b[0]][2] == 'user bathymetry')
    v.check('once each', all(k.count(n) == 1 for n in ('mesh', 'stats', 'steps', 'set_dt')))
    ix = k.index
    v.check('order', b[0] < ix('mesh') < ix('stats') and ix('mesh') < ix('steps') < ix('set_dt'))
    e = log[ix('set_dt')]
    v.check('time steps', len(e) == 3 and v.all([v.eq(e[1], dt), v.eq(e[2], dt2)]))
    v.check('next export', v.eq(s.next_export_t, t0 + T))
    x, = [e for e in log if e[:2] == ('set', 'limit')]
    v.check('diffusivity limit', v.eq(x[2] * dt * 60 * max(p * (p + 1), 1), h * h))
    v.check('limit set with the final time step', log.index(x) > ix('steps'))
    v.cover()


@contract('C31', [S3 + 'assign_initial_conditions'], setup=setup, samples=2)
def initial3d(v):
    """each initial condition goes to its own field, is still there when the run starts, and everything derived from it is updated afterwards"""
    quiet(v)
    s = solver('3d')
    log = []
    turb = v.choice('turb', ('none', 'gls', 'pacanowski'))
    gv = {k: v.flag('give_' + k) for k in ('elev', 'uv_2d', 'uv_3d') + (('tke', 'psi') if turb == 'gls' else ())}
    tr = v.choice('tracers', ((False, False, False), (True, True, True), (True, False, True), (False, True, True), (True, True, False)))
    salt, temp, gt = tr
    ale, init, cont = v.flag('ale'), v.flag('initialized'), v.flag('continued') if turb == 'gls' else False
    F = Fields({k: GField(log, k) for k in ('elev_2d', 'uv_2d', 'uv_dav_2d', 'uv_dav_3d', 'uv_3d', 'salt_3d', 'temp_3d', 'tke_3d', 'psi_3d')}, v_elem_size_3d='height')

    class Ex:
        def __init__(self, a, b, elem_height=None):
            self.t = a, b, elem_height

        def solve(self):
            log.append(('expand',) + self.t)
    v.patch(s3, 'ExpandFunctionTo3d', Ex)

    def turb_init(*a, **k):
        log.append(('turb',))
        if turb == 'gls' and not cont:
            # contract of GenericLengthScaleModel.initialize (C20)
            for n in ('tke', 'psi'):
                F[n + '_3d'].assign(k[n] if k.get(n) is not None else 'default')

    class TS:
        def __getattr__(self, n):
            return lambda *a, **k: log.append((n, a, k))
    o = Fields(solve_salinity=salt, solve_temperature=temp, use_turbulence=turb != 'none', turbulence_model_type=turb, use_ale_moving_mesh=ale)
    s.__dict__.update(_initialized=init, initialize=lambda: log.append(('init',)), fields=F, options=o, timestepper=TS(), turbulence_model=Fields(initialize=turb_init),
                      simulation_time='now', _simulation_continued=cont)
    val = {k: Constant(float(i)) for i, k in enumerate(('elev', 'uv_2d', 'uv_3d', 'salt', 'temp', 'tke', 'psi'))}
    kw = {k: val[k] for k, g in gv.items() if g}
    if gt:
        kw.update(salt=val['salt'], temp=val['temp'])
    s.assign_initial_conditions(**kw)
    kinds = [e[0] for e in log]
    v.check('initialised first, when needed', kinds.count('init') == (0 if init else 1) and (init or kinds[0] == 'init'))
    last = {e[1]: e[2] for e in log if e[0] == 'set'}
    want = {}
    if gv['elev']:
        want['elev_2d'] = val['elev']
    if gv['uv_2d']:
        want['uv_2d'] = want['uv_dav_2d'] = val['uv_2d']
    if gv['uv_3d']:
        want['uv_3d'] = val['uv_3d']
    if salt and gt:
        want['salt_3d'] = val['salt']
    if temp and gt:
        want['temp_3d'] = val['temp']
    for k in ('tke', 'psi'):
        if gv.get(k) and not cont:    # a continued run keeps the loaded fields
            want[k + '_3d'] = val[k]
    got = {k: x for k, x in last.items() if x != 'default'}
    for k, x in want.items():
        v.check('%s starts from the value given' % k, got.get(k) is x, repr(last.get(k)))
    v.check('nothing else set', set(got) <= set(want))
    ex = [e for e in log if e[0] == 'expand']
    if gv['uv_2d'] and not gv['uv_3d']:
        v.check('mean velocity in 3D', len(ex) == 1 and ex[0][1] is F.uv_2d and ex[0][2] is F.uv_dav_3d and ex[0][3] == 'height')
        v.check('after it is set', log.index(ex[0]) > max(i for i, e in enumerate(log) if e[:2] == ('set', 'uv_2d')))
    sets = [i for i, e in enumerate(log) if e[0] == 'set' and e[1] not in ('tke_3d', 'psi_3d')]
    for n in ('_update_3d_elevation', '_update_moving_mesh'):
        v.check(n + ' exactly for moving meshes', kinds.count(n) == int(ale))
    st, up = kinds.index('initialize'), kinds.index('_update_all_dependencies')
    v.check('integrator and diagnostics once', kinds.count('initialize') == 1 and kinds.count('_update_all_dependencies') == 1)
    first = [kinds.index('_update_3d_elevation'), kinds.index('_update_moving_mesh')] if ale else []
    v.check('order', all(i < j for i, j in zip(first + [st], (first + [st, up])[1:])))
    v.check('values set before use', all(i < (first + [st])[0] for i in sets), repr(log))
    a, k = log[up][1], log[up][2]
    v.check('time of the diagnostics', a == ('now',))
    v.check('what is updated', not k.get('do_2d_coupling') and not k.get('do_vert_diffusion') and k.get('do_ale_update') and k.get('do_stab_params') and not k.get('do_turbulence'))
    v.check('turbulence initialised with the final flow', (turb == 'none') == ('turb' not in kinds) and (turb == 'none' or max(i for i, x in enumerate(kinds) if x == 'turb') > up))
    v.cover()


@contract('C31', [S2 + 'add_new_field', S3 + 'add_new_field', 'thetis.utility:FieldDict.__setitem__'], setup=setup, kind='concrete',
          bounded='both solver classes, every combination of optional arguments, two fields, six kinds of wrong arguments')
def new_field(v):
    """a field added by the user is stored under its label with its own metadata and pre-processor; nothing else changes; bad requests change nothing"""
    base = dict(ut.field_metadata)
    for d in ('2d', '3d'):
        cls = s2.FlowSolver2d if d == '2d' else s3.FlowSolver
        for short, unit, pre in itertools.product((None, 'Tr'), (None, 'kg'), (False, True)):
            meta = dict(base)
            for m in (s2, s3, ut):
                v.patch(m, 'field_metadata', meta)
            o = cls.__new__(cls)
            o.__dict__['fields'], o.__dict__['_field_preproc_funcs'] = ut.FieldDict(), {}
            V = FunctionSpace(_S[d][0], 'CG', 1)
            f, g, calls = Function(V), Function(V), []
            kw = {}
            if short:
                kw['shortname'] = short
            if unit:
                kw['unit'] = unit
            if pre:
                kw['preproc_func'] = calls.append
            before = dict(meta)
            o.add_new_field(f, 'my_' + d, 'My field', 'MyFile', **kw)
            o.add_new_field(g, 'other_' + d, 'Other', 'OtherFile')
            v.check('stored under their labels', o.fields['my_' + d] is f and o.fields['other_' + d] is g and len(o.fields) == 2)
            v.check('metadata of the field', meta['my_' + d] == {'name': 'My field', 'shortname': short or 'My field', 'unit': unit or '-', 'filename': 'MyFile'}
                    and meta['other_' + d] == {'name': 'Other', 'shortname': 'Other', 'unit': '-', 'filename': 'OtherFile'}, repr(meta['my_' + d]))
            v.check('other metadata unchanged', {k: x for k, x in meta.items() if k not in ('my_' + d, 'other_' + d)} == before)
            v.check('pre-processor of the field only', o._field_preproc_funcs == ({'my_' + d: kw['preproc_func']} if pre else {}) and not calls)
            now = dict(meta)
            for a, k in (((f, 'my_' + d, 'x', 'y'), {}), ((f, 'a b', 'x', 'y'), {}), ((f, 'ab', 'x', 'y z'), {}), ((1.0, 'ab', 'x', 'y'), {}),
                         ((f, 'ab', 'x', 'y'), {'preproc_func': 3}), ((f, 'ab', 'x', 'y'), {'unit': 1})):
                ex, _ = raises(o.add_new_field, *a, **k)
                v.check('wrong arguments refused', isinstance(ex, (AssertionError, TypeError)), repr(a))
                v.check('refused request changes nothing', meta == now and len(o.fields) == 2 and len(o._field_preproc_funcs) == int(pre))
