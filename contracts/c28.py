"""C28 inversion: observation misfit, regularisation, accumulated cost, progress records."""
import itertools
import math
import os
import random
import tempfile
import types
import h5py
import numpy
import firedrake as fd
from firedrake import *
import thetis
from thetis import inversion_tools as it, diagnostics as dg
from thetis.solver2d import FlowSolver2d
from pyvc import core, uflsem, shim
from pyvc.contract import contract
from .swe import mesh2d
from .c24 import Consts, K, num
from .common import raises

shim.install(it, names=('isinstance', 'float', 'int', 'min', 'max'))
ASSUMPTIONS = [
    'an integral over a vertex-only mesh is the sum of the integrand over its vertices; the vertices are the stations in some order (all orders of up to three are taken)',
    'interp1d(t, data) is the observation series of the station (its values arbitrary here); interpolation / projection carry the expression they are given',
    'the tape returns, for a tag, the blocks annotated with that tag in the order of the time steps (pyadjoint)',
    'stations at different places (two stations at one point share the data of the first)',
]
M = 'thetis.inversion_tools:'
SO, IM = M + 'StationObservationManager.', M + 'InversionManager.'
RealFunction = fd.Function
_M = {}


def line(n):
    if n not in _M:
        _M[n] = UnitIntervalMesh(n)
    return _M[n]


class Data:
    """nodal values that may be symbolic"""
    def __init__(self, n, dim):
        self.a = numpy.empty((n, dim) if dim > 1 else (n,), dtype=object)
        self.a[...] = 0

    @property
    def data(self): return self.a
    data_ro = data


class Fn(RealFunction):
    """Function with symbolic nodal values: assignment and interpolation are recorded and, where possible, carried out node by node"""
    def __init__(self, V, *a, **k):
        RealFunction.__init__(self, V, *a, **k)
        d = V.value_size
        self.D = Data(V.dof_dset.size, d)
        self.rec = []

    @property
    def dat(self): return self.D

    def assign(self, x, *a, **k):
        self.rec.append(('assign', x))
        self.D.a[...] = x.D.a if isinstance(x, Fn) else x
        return self

    def interpolate(self, x, *a, **k):
        self.rec.append(('interpolate', x, k))
        return self

    def project(self, x, *a, **k):
        self.rec.append(('project', x, k))
        return self


class FD:
    """firedrake with the above Functions"""
    def __init__(self, **k): self.__dict__.update(k)
    def __getattr__(self, k): return getattr(fd, k)


class Np:
    def __init__(self, v=None): self.v = v
    def __getattr__(self, k): return getattr(numpy, k)

    def array(self, a, dtype=None, **k):
        b = numpy.array(a, **k) if dtype in (float, None) else numpy.array(a, dtype=dtype, **k)
        if dtype is float:
            if b.dtype != object:
                return b.astype(float)
            b = b.copy()
            for i in numpy.ndindex(b.shape):
                if isinstance(b[i], core.SBool):
                    b[i] = self.v.ite(b[i], 1, 0)
        return b

    def bitwise_and(self, a, b): return numpy.asarray(a) & numpy.asarray(b)
    logical_and = bitwise_and

    def isfinite(self, a):
        a = numpy.asarray(a)
        return numpy.ones(a.shape, dtype=bool) if a.dtype == object else numpy.isfinite(a)


def floats(v):
    if v.symbolic:
        core.eng().python_division = False


# ------------------------------------------------------------------ stations

class World:
    def __init__(self, v, n, perm, scalar, windows, form='list'):
        self.v, self.n, self.perm = v, n, perm
        floats(v)
        self.xy = [(0.1 + 0.25 * i, 0.9 - 0.3 * i * i / 2) for i in range(n)]
        self.m0 = types.SimpleNamespace(coordinates=types.SimpleNamespace(dat=types.SimpleNamespace(data=numpy.array([self.xy[j] for j in perm]).reshape(-1, 2))))
        self.spaces = []

        def vom(mesh, xy, **k):
            v.check('vertices of the observation mesh', mesh is self.m.mesh and numpy.allclose(xy, self.xy))
            return self.m0

        def fs(mesh, fam, deg, **k):
            return fd.FunctionSpace(line(n) if mesh is self.m0 else mesh, fam, deg, **k)

        def vfs(mesh, fam, deg, **k):
            return fd.VectorFunctionSpace(line(n) if mesh is self.m0 else mesh, fam, deg, **k)
        self.forms = []

        def assemble(form, **k):
            self.forms.append((form, k))
            return ('J', len(self.forms))
        v.patch(it, 'fd', FD(Function=Fn, VertexOnlyMesh=vom, FunctionSpace=fs, VectorFunctionSpace=vfs, assemble=assemble))
        v.patch(it, 'numpy', Np(v))
        v.patch(it, 'print_output', lambda *a, **k: None)
        self.scaling = K(1.0)
        v.patch(it, "domain_constant", lambda x, mesh: Scal(self.scaling, v, mesh is self.m0))
        self.series = {}

        def interp(t, d, **k):
            self.series[d] = (t, k)
            return lambda s: (v.check('observation at this time', s is self.t), self.obs[d])[1]
        v.patch(it, 'interp1d', interp)
        self.m = it.StationObservationManager(mesh2d(), output_directory='o')
        self.m.cost_function_scaling = self.given = object()
        tag = lambda c: ['%s%d' % (c, i) for i in range(n)]
        self.data = tag('d') if scalar else (tag('u'), tag('v'))
        self.times = tag('t')
        self.names = tag('n')
        if windows:
            self.st, self.en = [v.real('st%d' % i) for i in range(n)], [v.real('en%d' % i) for i in range(n)]
        else:
            self.st = self.en = None
        self.m.register_observation_data(self.names, 'elev', self.times, [p[0] for p in self.xy], [p[1] for p in self.xy], data=self.data, start_times=self.st, end_times=self.en)
        self.m.construct_evaluator()


class Scal:
    def __new__(cls, c, v, ok):
        v.check('scaling lives on the stations', ok)
        c.assign = lambda x: setattr(c, 'given', x)
        return c


def station_cases(v):
    n = v.choice('stations', (1, 2, 3))
    perm = v.choice('order', tuple(itertools.permutations(range(n))))
    return n, perm


@contract('C28', [SO + '__init__', SO + 'register_observation_data', SO + 'construct_evaluator', SO + 'update_stations_in_use', SO + 'eval_observation_at_time',
                  SO + 'eval_cost_function', SO + 'set_model_field'], bounded='1 to 3 stations in every order on the observation mesh', samples=30)
def misfit(v):
    """the misfit of a step is the sum over the stations, each exactly once, of scaling * weight * |observation - model|^2 where the time lies in the
    station's window and of zero elsewhere; never negative"""
    n, perm = station_cases(v)
    scalar, windows = v.flag('scalar'), v.flag('windows')
    w = World(v, n, perm, scalar, windows)
    m = w.m
    v.check('initialised', m.initialized and m.variable == 'elev')
    v.check('every station once', sorted(m.local_station_index) == list(range(n)) and list(m.local_station_index) == list(perm))
    used = list(w.data) if scalar else list(w.data[0]) + list(w.data[1])
    v.check('series of the station with its own times', sorted(w.series) == sorted(used) and all(t == 't' + d[1:] for d, (t, k) in w.series.items()))
    v.check('outside the series: refused without windows, a placeholder with windows',
            all((k == {}) if not windows else (k.get('bounds_error') is False and k.get('fill_value') == 0.0) for t, k in w.series.values()))
    v.check('scaling handed over', w.scaling.given is w.given)
    t = w.t = v.real('t')
    w.obs = {d: v.real('obs_' + d) for d in used}
    field = RealFunction(FunctionSpace(mesh2d(), 'CG', 1), name='model')
    v.check('model field needed', isinstance(raises(m.eval_cost_function, t)[0], AssertionError))
    m.set_model_field(field)
    dim = 1 if scalar else 2
    steps = v.choice('steps', (1, 2))
    for s in range(steps):
        J = m.eval_cost_function(t)
    (form, kw) = w.forms[-1]
    v.check('returned', J == ('J', len(w.forms)) == m.J_misfit and len(w.forms) == steps and kw == {'ad_block_tag': 'misfit_eval'})
    v.check('history', len(m.simulation_time) == len(m.obs_func_list) == steps)
    v.check('times', v.all([v.eq(x, t) for x in m.simulation_time]))
    # model values: the projected model field at the stations
    r = m.mod_values_0d.rec
    v.check('model values interpolated at this step', len(r) == steps and r[-1][0] == 'interpolate' and r[-1][2].get('ad_block_tag') == 'elev observation')
    src = r[-1][1]
    v.check('of the model field', isinstance(src, Fn) and [x[:2] for x in src.rec] == [('project', field)] and src.function_space().value_size == dim)
    c = Consts(v)
    c.env.fork = False
    S = c.bind(w.scaling, 'scaling', lo=0)
    S = c.val['scaling']
    mod = [[v.real('mod%d_%d' % (k, i)) for i in range(dim)] for k in range(n)]
    wt = [v.real('wt%d' % k, lo=0) for k in range(n)]
    v.check('weights one by default', all(x == 1.0 for x in m.station_weight_0d.D.a))
    tot = 0
    for k in range(n):
        j = perm[k]
        val = lambda f, k=k: (lambda comp, rr: f[k] if not comp else f[k][comp[0]])
        c.env.fields[m.mod_values_0d] = uflsem.Field('mod', 'dg', value=(lambda comp, rr, k=k: mod[k][comp[0]] if comp else mod[k][0]))
        for f in (m.obs_values_0d, m.indicator_0d):
            c.env.fields[f] = uflsem.Field('f', 'dg', value=(lambda comp, rr, f=f, k=k: f.D.a[k] if not comp else f.D.a[k, comp[0]]))
        c.env.fields[m.station_weight_0d] = uflsem.Field('w', 'dg', value=lambda comp, rr, k=k: wt[k])
        I = uflsem.integrals(form, c.env)
        v.check('sum over all vertices', len(I) == 1 and list(I)[0][0] == 'cell' and list(I)[0][1] not in (0, 1, 2))
        x = sum(I.values())
        inside = True if not windows else v.all([v.le(w.st[j], t), v.le(t, w.en[j])])
        o = [w.obs['d%d' % j]] if scalar else [w.obs['u%d' % j], w.obs['v%d' % j]]
        sq = sum((o[i] - mod[k][i])**2 for i in range(dim))
        v.check('squared difference of its own observation inside the window', v.implies(inside, v.eq(x, c.val['scaling'] * wt[k] * sq)))
        v.check('nothing outside the window', v.implies(v.not_(inside) if windows else False, v.eq(x, 0)))
        v.check('never negative', v.le(0, x))
    v.cover()


@contract('C28', [SO + 'register_observation_data'])
def registration(v):
    m = it.StationObservationManager(mesh2d())
    v.patch(it, 'print_output', lambda *a, **k: None)
    v.patch(it, 'numpy', numpy)
    case = v.choice('data', ('none', 'list', 'tuple', 'tuple of arrays', 'array'))
    n = v.choice('n', (1, 4))
    d = {'none': None, 'list': [1] * n, 'tuple': ([1] * n, [2] * n), 'tuple of arrays': (numpy.ones(n), numpy.ones(n)), 'array': numpy.ones(n)}[case]
    nm = ['s%d' % i for i in range(n)]
    ex, _ = raises(m.register_observation_data, nm, 'var', 'T', 'X', 'Y', data=d)
    v.check('refused unless a list or a pair of lists', isinstance(ex, ValueError) if case not in ('list', 'tuple') else ex is None)
    if ex is None:
        v.check('kept', (m.station_names, m.variable, m.observation_time, m.observation_x, m.observation_y) == (nm, 'var', 'T', 'X', 'Y') and m.observation_data is d)
        v.check('scalar or vector', m.observed_quantity_is_scalar == (case == 'list'))
        v.check('no window: always in use', len(m._start_times) == len(m._end_times) == n and (m._start_times == -numpy.inf).all() and (m._end_times == numpy.inf).all())
    v.cover()


@contract('C28', [M + 'MultiStationObservationManager.__init__', M + 'MultiStationObservationManager.eval_cost_function', M + 'MultiStationObservationManager.collect_time_series',
                  M + 'MultiStationObservationManager.dump_time_series'], bounded='up to three managers')
def multi(v):
    """sum of the misfits of all managers, each once"""
    n = v.choice('managers', (0, 1, 2, 3))
    J = v.reals('J', n)
    log = []
    t = v.real('t')

    def mk(i):
        return types.SimpleNamespace(cost_function_scaling=v.choice('scaling', (1.0, 2.0, 'odd')) if i else 3.0, eval_cost_function=lambda s: (log.append(('eval', i, s)), J[i])[1],
                                     collect_time_series=lambda k: log.append(('collect', i, k)), dump_time_series=lambda: log.append(('dump', i)))
    for k in ('print_output', 'warning', 'info'):
        v.patch(it, k, lambda *a, **k: None)
    m = it.MultiStationObservationManager({'m%d' % i: mk(i) for i in range(n)})
    tot = m.eval_cost_function(t)
    v.check('sum', v.eq(tot, sum(J)))
    m.collect_time_series(5)
    m.dump_time_series()
    v.check('each once', [x[:2] for x in log] == [(a, i) for a in ('eval', 'collect', 'dump') for i in range(n)] and all(x[2] is t for x in log if x[0] == 'eval')
            and all(x[2] == 5 for x in log if x[0] == 'collect'))
    v.cover()


# ------------------------------------------------------------------ accumulated cost, weights

class Sta(it.StationObservationManagerBase):
    def __init__(self): self.log = []
    def eval_cost_function(self, t): raise NotImplementedError
    def collect_time_series(self, i): self.log.append(('collect', i))
    def dump_time_series(self): self.log.append(('dump',))


@contract('C28', [IM + '__init__', IM + 'get_cost_function', M + 'ControlRegularizationManager.__init__', M + 'ControlRegularizationManager.eval_cost_function',
                  M + 'CostFunctionCallback.__init__', M + 'CostFunctionCallback.__call__'], bounded='up to three controls')
def cost(v):
    """cost = regularisation of every control with its own parameter and the given factor, once, plus the misfit of every step"""
    s = Sta()
    n = v.choice('controls', (0, 1, 2, 3))
    J = v.reals('J', 2)
    R = v.reals('R', n)
    kind = v.choice('kind', ('Hessian', 'Gradient', 'real', 'other'))
    v.patch(it, 'print_output', lambda *a, **k: None)
    pen = ['g%d' % i for i in range(n)]
    m = it.InversionManager(s, no_exports=True, real=kind == 'real', penalty_parameters=pen, test_consistency=False, test_gradient=False)
    ctr = ['c%d' % i for i in range(n)]
    m.control_managers = [types.SimpleNamespace(controls=ctr[:1]), types.SimpleNamespace(controls=ctr[1:])]
    made = []

    def calc(name):
        class C:
            def __init__(self, f, g, scaling=1.0, **k):
                made.append((name, f, g, scaling, k))
                self.i = ctr.index(f)

            def eval_cost_function(self): return R[self.i]
        return C
    for nm in ('Hessian', 'Gradient', 'RSpace'):
        v.patch(it, nm + 'RegularizationCalculator', calc(nm))
    sol = FlowSolver2d.__new__(FlowSolver2d)
    sol.__dict__['simulation_time'] = 4.0
    fac = v.choice('factor', ('default', 'given'))
    kw = {} if fac == 'default' else {'regularisation_scaling_factor': 0.25}
    loc = v.flag('local size')
    ex, fn = raises(m.get_cost_function, sol, regularisation_manager='nonsense' if kind == 'other' else kind if kind != 'real' else 'Hessian', use_local_element_size=loc, **kw)
    if kind == 'other':
        v.check('unknown kind refused', isinstance(ex, ValueError))
        return
    v.check('accepted', ex is None, repr(ex))
    if ex is not None:
        return
    want = {'real': 'RSpace'}.get(kind, kind)
    v.check('one term per control with its own parameter', [x[:3] for x in made] == [(want, a, b) for a, b in zip(ctr, pen)])
    v.check('scaled as configured', all(x[3] == (1.0 if fac == 'default' else .25) for x in made))
    v.check('element size option', all(x[4] == ({} if kind == 'real' else {'use_local_element_size': loc}) for x in made))
    v.check('starts with the regularisation', v.all([v.eq(m.J, sum(R)), v.eq(m.J_reg, sum(R)), m.J_misfit == 0]))
    ts = []
    it_ = iter(J)
    s.eval_cost_function = lambda t: (ts.append(t), next(it_))[1]
    cbk = it.CostFunctionCallback(types.SimpleNamespace(options=types.SimpleNamespace(output_directory='o', simulation_initial_date=None)), fn)
    v.check('quiet diagnostic', cbk.append_to_log is False and cbk.append_to_hdf5 is False and cbk.name == 'cost_function_callback' and cbk.variable_names == ['cost_function'])
    for k in range(2):
        sol.__dict__['simulation_time'] = 4.0 + k
        cbk()
        v.check('misfit of this step added once', v.all([v.eq(m.J_misfit, sum(J[:k + 1])), v.eq(m.J, sum(R) + sum(J[:k + 1]))]))
    v.check('at the current time', ts == [4.0, 5.0])
    if n:
        v.check('numbers of controls and parameters must match', isinstance(raises(it.ControlRegularizationManager, ctr, pen[1:])[0], AssertionError))
        del made[:]
        d = it.ControlRegularizationManager(ctr, pen, calculator=calc('X'))
        v.check('default scaling one', all(x[3] == 1.0 and x[4] == {} for x in made) and len(made) == n)
        v.check('sum of the terms', v.eq(d.eval_cost_function(), sum(R)))
    v.cover()


@contract('C28', [IM + 'get_cost_function'], bounded='1 to 3 stations with 1 to 3 observations', samples=10)
def variance(v):
    """with weighting by variance the weight of a station is one over the variance of its own observations (of their magnitude for vectors)"""
    n, perm = station_cases(v)
    scalar, multi = v.flag('scalar'), v.flag('multi')
    w = World(v, n, perm, scalar, False)
    k = 2
    d = {x: numpy.array([v.real('%s_%d' % (x, i)) for i in range(k)], dtype=object if v.symbolic else float) for x in (w.data if scalar else w.data[0] + w.data[1])}
    m = w.m
    m.observation_data = [d[x] for x in w.data] if scalar else ([d[x] for x in w.data[0]], [d[x] for x in w.data[1]])
    for nm in ('print_output', 'warning', 'info'):
        v.patch(it, nm, lambda *a, **k: None)
    if v.symbolic and not scalar:
        np = it.numpy
        np.__class__ = type('Np2', (Np,), dict(sqrt=staticmethod(lambda a: numpy.array([v.sqrt(x) for x in a], dtype=object))))
    sta = it.MultiStationObservationManager({'a': m}) if multi else m
    m.cost_function_scaling = 1.0
    inv = it.InversionManager(sta, no_exports=True, penalty_parameters=[], test_consistency=False, test_gradient=False)
    sol = FlowSolver2d.__new__(FlowSolver2d)
    inv.get_cost_function(sol, weight_by_variance=True)
    r = [x for x in m.station_weight_0d.rec if x[0] == 'interpolate']
    v.check('weights set once', len(r) == 1)
    var = [x for x in ufl_coeffs(r[0][1]) if isinstance(x, Fn)]
    v.check('from one field', len(var) == 1)
    env = uflsem.Env(v, 2)
    for i in range(n):
        j = perm[i]
        if scalar:
            obs = list(d['d%d' % j])
        else:
            obs = [v.sqrt(a**2 + b**2) for a, b in zip(d['u%d' % j], d['v%d' % j])]
        mean = sum(obs) / len(obs)
        V = sum((x - mean)**2 for x in obs) / len(obs)
        env.fields[var[0]] = uflsem.Field('var', 'dg', value=lambda c, rr, i=i: var[0].D.a[i])
        if v.symbolic:
            core.eng().python_division = False
            v.assume(V > 0)
        v.check('one over the variance', v.eq(uflsem.evaluate(r[0][1], env) * V, 1))
    v.cover()


def ufl_coeffs(e):
    from ufl.algorithms import extract_coefficients
    return extract_coefficients(e)


# ------------------------------------------------------------------ regularisation terms

@contract('C28', [M + 'RegularizationCalculator.__init__', M + 'RegularizationCalculator.eval_cost_function', M + 'GradientRegularizationCalculator.__init__',
                  M + 'GradientRegularizationCalculator.eval_cost_function', M + 'HessianRegularizationCalculator.__init__', M + 'HessianRegularizationCalculator.eval_cost_function',
                  M + 'RSpaceRegularizationCalculator.__init__'], samples=20)
def regularisation(v):
    """scaling / area * integral of penalty * |gradient|^2 h^2, |Hessian|^2 h^4 or (value - prior)^2 / max(|prior|, eps): never negative, zero for the
    trivial control; the recovered derivative is computed before it is used"""
    c = Consts(v, fork=False)
    kind = v.choice('kind', ('Gradient', 'Hessian', 'RSpace'))
    local = v.flag('local size') if kind != 'RSpace' else True
    m = mesh2d()
    area, gam, sc = c('area', pos=True), c('gam', lo=0), c('sc', lo=0)
    f = RealFunction(FunctionSpace(m, 'R', 0) if kind == 'RSpace' else FunctionSpace(m, 'CG', 1), name='ctrl')
    forms, events, red = [], [], []

    def assemble(form, **k):
        forms.append((form, k))
        events.append('assemble')
        return area if len(forms) == 1 else 1.5

    class Fh(RecA):
        @property
        def dat(self):
            return types.SimpleNamespace(data=types.SimpleNamespace(min=lambda: ('min', self)), data_ro=types.SimpleNamespace(min=lambda: ('min', self)))
    v.patch(it, 'fd', FD(assemble=assemble, Function=lambda V, **k: (RecA if kind == 'RSpace' else Fh if V.ufl_element().degree() == 0 else RealFunction)(V, **k)))
    for nm in ('GradientRecoverer2D', 'HessianRecoverer2D'):
        class Rec:
            def __init__(self, field, *out):
                events.append(('made', field, out))

            def solve(self): events.append('solve')
        v.patch(it, nm, Rec)
    kw = {} if kind == 'RSpace' else {'use_local_element_size': local}

    def allreduce(x, op=None):
        red.append((x, op))
        return 0.125
    if not local:
        v.patch(m, 'comm', type('C', (it.MPI.Intracomm,), dict(allreduce=lambda self, x, op=None: allreduce(x, op)))(m.comm))
    r = getattr(it, kind + 'RegularizationCalculator')(f, gam, scaling=sc, **kw)
    I = uflsem.integrals(forms[0][0], c.env)
    v.check('area of the domain', v.eq(sum(I.values()), 1) if len(I) == 1 else False)
    val = r.eval_cost_function()
    v.check('the integral', val == 1.5 and len(forms) == 2 and forms[1][1] == {'ad_block_tag': 'reg_eval'})
    if kind != 'RSpace':
        v.check('derivative recovered first', events[-2:] == ['solve', 'assemble'])
        made = [e for e in events if isinstance(e, tuple)]
        v.check('derivative of the control', len(made) == 1 and made[0][1] is f)
        der = made[0][2][0]
    sh = {'Gradient': (2,), 'Hessian': (2, 2), 'RSpace': ()}[kind]
    if kind == 'RSpace':
        x, p = v.real('x'), v.real('prior')
        c.env.fields[f] = uflsem.Field('f', 'const', value=lambda cc, rr: x)
        pr = [q for q in ufl_coeffs(forms[1][0]) if q is not f and isinstance(q, RecA)]
        v.check('prior: the control at construction', len(pr) == 1 and pr[0].rec == [('assign', f)])
        c.env.fields[pr[0]] = uflsem.Field('prior', 'const', value=lambda cc, rr: p)
        q = (x - p)**2
        eps = num(v, 1e-3)
        den = v.max(abs(p), eps)
    else:
        d = {i: v.real('d' + ''.join(map(str, i))) for i in itertools.product(*[range(k) for k in sh])}
        c.env.fields[der] = uflsem.Field('der', 'dg', value=lambda cc, rr: d[cc])
        q = sum(y * y for y in d.values())
        hs = [g for g in ufl_coeffs(forms[1][0]) if isinstance(g, Fh)]
        if local:
            h = v.real('geo_CellDiameter', pos=True)
            den = 1
        else:
            v.check('smallest element over all processes', len(red) == 1 and red[0][1] == it.MPI.MIN and isinstance(red[0][0], tuple) and [(x[0] in ('project', 'interpolate'), type(x[1]).__name__) for x in red[0][0][1].rec] == [(True, 'CellDiameter')])
            v.check('one size', len(hs) == 1 and hs[0].rec == [('assign', 0.125)])
            h = v.real('hmin_', pos=True)
            c.env.fields[hs[0]] = uflsem.Field('h', 'const', value=lambda cc, rr: h)
            den = 1
        q = q * (h**2 if kind == 'Gradient' else h**4)
    I = uflsem.integrals(forms[1][0], c.env)
    v.check('over the domain', len(I) == 1 and list(I)[0][0] == 'cell')
    y = sum(I.values())
    v.check('penalty', v.eq(y * c.val['area'] * den, c.val['sc'] * c.val['gam'] * q))
    v.check('never negative', v.le(0, y))
    v.check('zero for the trivial control', v.implies(v.eq(q, 0), v.eq(y, 0)))
    v.cover()


class RecA(RealFunction):
    def __init__(self, *a, **k):
        RealFunction.__init__(self, *a, **k)
        self.rec = []

    def assign(self, x, **k):
        self.rec.append(('assign', x))
        return self

    def project(self, x, **k):
        self.rec.append(('project', x))
        return self

    def interpolate(self, x, **k):
        self.rec.append(('interpolate', x))
        return self


@contract('C28', ['thetis.diagnostics:GradientRecoverer2D.__init__', 'thetis.diagnostics:GradientRecoverer2D.solve', 'thetis.diagnostics:HessianRecoverer2D.__init__',
                  'thetis.diagnostics:HessianRecoverer2D.solve'])
def recovery(v):
    """recovered derivatives: projection of the gradient; mixed system whose sides are (phi, g) = -(f, div phi) + boundary and (tau, H) = -(g, div tau) + boundary;
    for a constant control the right-hand side vanishes identically (Gauss), so gradient, Hessian and penalty are zero"""
    m = mesh2d()
    f = RealFunction(FunctionSpace(m, 'CG', 1), name='f')
    P1v, P1t = VectorFunctionSpace(m, 'CG', 1), TensorFunctionSpace(m, 'CG', 1)
    if v.flag('gradient'):
        env = uflsem.Env(v, 2)
        g = RecA(P1v)
        got = []
        v.patch(dg, 'project', lambda e, V: (got.append((e, V)), 'P')[1])
        r = dg.GradientRecoverer2D(f, g)
        v.check('nothing before', not g.rec)
        r.solve()
        v.check('assigned', g.rec == [('assign', 'P')] and got[0][1] == g.function_space())
        env.fields[f] = uflsem.Field('f', 'cg', value=lambda c, rr: v.real('f'), deriv=lambda c, ds, rr: v.real('f_d%d' % ds[0]))
        v.check('gradient of the field', v.eq(uflsem.evaluate(got[0][0], env), [v.real('f_d0'), v.real('f_d1')]))
        v.cover()
        return
    H, g = RecA(P1t), RecA(P1v)
    prob = []

    class Solver:
        def __init__(self, p, **k): self.p = p
        def solve(self): prob.append('solve')
    v.patch(dg, 'LinearVariationalProblem', lambda a, L, sol: (prob.append((a, L, sol)), (a, L, sol))[1])
    v.patch(dg, 'LinearVariationalSolver', Solver)
    r = dg.HessianRecoverer2D(f, H, g)
    (a, L, sol), = prob
    r.solve()
    v.check('solved before use', prob[1:] == ['solve'] and H.rec == [('assign', r._hessian)] and g.rec == [('assign', r._gradient)])
    v.check('parts of the solution', r._gradient.function_space().value_size == 2 and r._hessian.function_space().value_size == 4)
    W = sol.function_space()
    phi, tau = TestFunctions(W)
    gt, Ht = TrialFunctions(W)
    n = FacetNormal(m)

    def same(nm, x, y):
        def env():
            e = uflsem.Env(v, 2)
            for b, t in zip('tu', (TestFunction(W), TrialFunction(W))):
                e.set(t, b, 'cg')
            return e
        A, B = uflsem.integrals(x, env()), uflsem.integrals(y, env())
        v.check(nm, v.all([set(A) == set(B)] + [v.eq(A[k], B[k]) for k in B if k in A]))
    same('left-hand side', a, inner(tau, Ht) * dx + inner(div(tau), gt) * dx + inner(phi, gt) * dx - dot(gt, dot(tau, n)) * ds - dot(avg(gt), jump(tau, n)) * dS)
    same('right-hand side', L, f * dot(phi, n) * ds + avg(f) * jump(phi, n) * dS - f * div(phi) * dx)
    v.cover()


# ------------------------------------------------------------------ controls, progress records

def arr(v, name, n):
    a = numpy.empty(n, dtype=object if v.symbolic else float)
    for i in range(n):
        a[i] = v.real('%s_%d' % (name, i))
    return a


class Nodes(fd.Function):
    """nodal values, combined node by node"""
    def __init__(self, V, *a, **k):
        fd.Function.__init__(self, V, *a, **k)
        self.D = Data(V.dof_dset.size, 1)
        self.D.a = numpy.zeros(V.dof_dset.size, dtype=object)
        self.rec = []

    @property
    def dat(self): return self.D

    def assign(self, x, **k):
        self.D.a = numpy.array([x] * len(self.D.a), dtype=object) if not hasattr(x, 'D') else x.D.a.copy()
        return self

    def project(self, x, **k):
        self.D.a = numpy.array([x.D.a[0]] * len(self.D.a), dtype=object)        # a Real-space function is one value everywhere
        self.rec.append(x)
        return self

    interpolate = project

    def __mul__(self, o):
        r = Nodes(self.function_space() if len(self.D.a) > 1 else o.function_space())
        r.D.a = self.D.a * o.D.a
        return r
    __rmul__ = __mul__

    def __iadd__(self, o):
        self.D.a = self.D.a + o.D.a
        return self

    def __add__(self, o):
        r = Nodes(self.function_space())
        r.D.a = self.D.a + o.D.a
        return r


class Sink:
    """output file"""
    def __init__(self, log, *what): self.log, self.what = log, what
    def write(self, *f): self.log.append((self.what, 'write', [(x.name(), list(x.dat.data)) for x in f]))
    def export(self, f): self.log.append((self.what, 'export', [(f.name(), list(f.dat.data))]))


CM = M + 'ControlManager.'


@contract('C28', [CM + '__init__', CM + 'project_control', CM + 'export', CM + 'export_gradient', IM + 'add_control', IM + 'control_coeff_list', IM + 'control_list'],
          bounded='two masked controls at most, mesh of two cells')
def controls(v):
    """every control and gradient is written as it is: fields unchanged, constants as the constant field, masked combinations as sum of value times mask"""
    floats(v)
    mesh = UnitSquareMesh(1, 1) if 'sq' not in _M else _M['sq']
    _M['sq'] = mesh
    log = []
    v.patch(it, 'fd', FD(Function=Nodes, VTKFile=lambda name, **k: Sink(log, 'vtk', name)))
    v.patch(it, 'HDF5Exporter', lambda V, d, p, **k: Sink(log, 'hdf5', d, p, V))
    v.patch(it, 'Control', lambda f: ('control', f))
    kind = v.choice('kind', ('field', 'const', 'masked', 'other'))
    off = v.flag('no exports')
    V, R = FunctionSpace(mesh, 'CG', 1), FunctionSpace(mesh, 'R', 0)
    k = v.choice('n', (1, 2))
    mg = it.InversionManager(Sta(), output_dir='out', no_exports=off, penalty_parameters=[], test_consistency=False, test_gradient=False)
    if kind == 'other':
        for x in (Constant(1.0), 3.0, [Constant(1.0)]):
            v.check('functions only', isinstance(raises(mg.add_control, x)[0], TypeError) and not mg.control_list)
        return
    space = V if kind == 'field' else R
    n = 4 if kind == 'field' else 1

    def mk(nm):
        f = Nodes(space, name=nm)
        f.D.a = arr(v, nm, n)
        return f
    c = [mk('c%d' % i) for i in range(k)]
    masks = None
    if kind == 'masked':
        masks = [Nodes(V, name='mask%d' % i) for i in range(k)]
        for i, q in enumerate(masks):
            q.D.a = arr(v, 'mask%d' % i, 4)
    extra = v.flag('another before')
    if extra:
        mg.add_control(Nodes(V, name='first'))
    one = v.flag('one at a time') if k > 1 and kind != 'masked' else False
    if one:
        for x in c:
            mg.add_control(x)
    else:
        mg.add_control(c if k > 1 else c[0], **({} if masks is None else {'mappings': masks}))
    e = int(extra)
    v.check('controls in order', mg.control_coeff_list[e:] == c and mg.control_list[e:] == [('control', x) for x in c] and len(mg.control_list) == k + e)
    cms = mg.control_managers[e:]
    v.check('one manager per independent control', [q.controls for q in cms] == ([c] if masks else [[x] for x in c]))
    for i, q in enumerate(cms):
        own = c if masks else [c[i]]
        new, gr = [mk('new%d_%d' % (i, a)) for a in range(len(own))], [mk('g%d_%d' % (i, a)) for a in range(len(own))]
        if kind == 'field':
            exp = lambda f: list(f[0].D.a)
        elif kind == 'const':
            exp = lambda f: [f[0].D.a[0]] * 4
        else:
            exp = lambda f: [sum(f[a].D.a[0] * masks[a].D.a[p] for a in range(len(own))) for p in range(4)]
        x, y = exp(new), exp(gr)
        del log[:]
        single = v.flag('bare') if len(own) == 1 else False
        q.export(new[0] if single else new)
        q.export_gradient(gr[0] if single else gr)
        if off:
            v.check('nothing written', not log)
            continue
        v.check('files of this control', [(a[0], a[1]) for a, w, d in log] == [('vtk', 'out/control_progress_%02d.pvd' % (i + e)), ('hdf5', 'out/hdf5'), ('vtk', 'out/gradient_progress_%02d.pvd' % (i + e))]
                and log[1][0][2] == 'control_%02d' % (i + e))
        same = lambda a, b: v.all([len(a) == len(b)] + [v.eq(s, t) for s, t in zip(a, b)])
        v.check('control values', v.all([same(log[0][2][0][1], x), same(log[1][2][0][1], x)]))
        v.check('gradient values', same(log[2][2][0][1], y))
        v.check('control unchanged', same(list(own[0].D.a), list(arr(v, own[0].name(), n))))
        if kind == 'field':
            v.check('one name for all iterations', log[0][2][0][0] == c[i].name() and log[2][2][0][0] == 'Gradient')
    v.cover()


class Tape:
    def __init__(self, blocks): self.blocks = blocks
    def get_blocks(self, tag=None): return list(self.blocks.get(tag, []))


def block(x):
    return types.SimpleNamespace(get_outputs=lambda: [types.SimpleNamespace(saved_output=x)])


class FR:
    """function with a norm"""
    def __init__(self, norm, vals=(0.,)):
        self.n, self.dat = norm, types.SimpleNamespace(data=list(vals), data_ro=list(vals))
        self.comm = types.SimpleNamespace(rank=0)
        self.name = lambda: 'f'


def quiet(v, *also):
    for k in ('print_output', 'warning', 'info', 'print_function_value_range') + also:
        v.patch(it, k, lambda *a, **k: None)


@contract('C28', [IM + 'update_progress', IM + 'rf_kwargs', IM + 'set_control_state', IM + 'set_initial_state', IM + 'reset_counters', IM + 'initialize', IM + 'start_clock',
                  IM + 'stop_clock', IM + 'get_optimization_callback'], bounded='up to three iterations with up to two gradients each')
def progress(v):
    """every iteration appends exactly one record of cost, regularisation, misfit and gradient norms of the last evaluation; controls are exported with their own values"""
    floats(v)
    quiet(v)
    real = v.flag('real')
    no = v.flag('no exports')
    fmt = v.symbolic
    dirs, saved, ev = [], [], []
    v.patch(it, 'create_directory', lambda d, **k: dirs.append(d))

    class N2(Np):
        def save(self, f, x): saved.append((f.split('/')[-1], list(x)))
        def min(self, a): return 0.0
        max = min
    v.patch(it, 'numpy', N2(v))
    v.patch(it, 'fd', FD(norm=lambda f: f.n))
    s = Sta()
    m = it.InversionManager(s, output_dir='out', no_exports=no, real=real, penalty_parameters=[], test_consistency=False, test_gradient=False)
    off = no or real
    maps = v.choice('mappings', ((None, 2), (None,), (2, None), (1, None, None)))

    class Cm:
        def __init__(self, i, q):
            self.i, self.mappings, self.controls = i, None if q is None else ['map'] * q, [FR(0)] * (q or 1)
        def export(self, x): ev.append(('c', self.i, list(x)))
        def export_gradient(self, x): ev.append(('g', self.i, list(x)))
    m.control_managers = [Cm(i, q) for i, q in enumerate(maps)]
    n = sum(q or 1 for q in maps)
    kw = m.rf_kwargs
    v.check('both hooks', set(kw) == {'eval_cb_post', 'derivative_cb_post'})
    cb = m.get_optimization_callback()
    its = v.choice('iterations', (1, 3))
    rec = []
    for k in range(its):
        for e in range(v.choice('gradients', (1, 2))):
            nr, nm = 2, 3
            R, F = [num(v, 0.5 + a + k) for a in range(nr)], [v.real('F%d_%d_%d' % (k, e, a)) for a in range(nm)]
            J = v.real('J%d_%d' % (k, e))
            v.patch(it, 'get_working_tape', lambda R=R, F=F: Tape({'reg_eval': [block(x) for x in R], 'misfit_eval': [block(x) for x in F], None: [block(99)], 'x': [block(98)]}))
            mm = [FR(0, [v.real('m%d_%d_%d' % (k, e, a))]) for a in range(n)]
            gg = [FR(v.real('g%d_%d_%d' % (k, e, a)), [0]) for a in range(n)]
            n0 = len(s.log)
            v.check('value passed on', kw['eval_cb_post'](J, mm) is J)
            v.check('time series collected for this iteration', s.log[n0:] == [('collect', k)])
            v.check('gradient passed on', kw['derivative_cb_post'](J, gg, mm) is gg)
        v.check('gradients counted', m.nb_grad_evals == e + 1)
        rec.append((J, sum(R), sum(F), [g.n for g in gg], [x.dat.data[0] for x in mm]))
        del ev[:], saved[:], dirs[:]
        n0 = len(s.log)
        cb(mm)
        v.check('series written', s.log[n0:] == ([] if off else [('dump',)]))
        v.check('next iteration', m.i == k + 1 and m.nb_grad_evals == 0)
        want = []
        at = 0
        for i, q in enumerate(maps):
            want += [('c', i, mm[at:at + (q or 1)]), ('g', i, gg[at:at + (q or 1)])]
            at += q or 1
        v.check('each control with its own values', ev == ([] if off else want))
        v.check('folders', dirs == ([] if off or k else ['out', 'out/hdf5']))
        names = {'J_progress': 0, 'J_reg_progress': 1, 'J_misfit_progress': 2, 'dJdm_progress': 3}
        v.check('records saved', [x[0] for x in saved] == ([] if off else list(names)))
        for fn, x in saved:
            v.check('saved what was recorded', len(x) == k + 1 and v.all([veq(v, a, r[names[fn]]) for a, r in zip(x, rec)]))
        lists = (m.J_progress, m.J_reg_progress, m.J_misfit_progress, m.dJdm_progress)
        v.check('one record per iteration', [len(x) for x in lists] == [k + 1] * 4 and len(m.m_progress) == (k + 1 if real else 0))
        v.check('records', v.all([veq(v, a, r[c]) for c, x in enumerate(lists) for a, r in zip(x, rec)]))
        v.check('physical values of the controls', v.all([veq(v, a, r[4]) for a, r in zip(m.m_progress, rec)]))
        v.check('state', m.dJdm_list is gg and m.m_list is mm)
    v.cover()


def veq(v, a, b):
    if isinstance(b, (list, tuple)):
        return v.all([len(a) == len(b)] + [v.eq(x, y) for x, y in zip(a, b)])
    return v.eq(a, b)


@contract('C28', [IM + 'minimize', IM + 'reduced_functional', IM + 'stop_annotating', IM + 'consistency_test', IM + 'taylor_test'])
def driver(v):
    """the first record is the state before the optimisation; failed consistency or Taylor tests stop; the iteration limit is no error, other failures are"""
    floats(v)
    quiet(v)
    ev = []
    no = v.flag('no exports')
    cons, tay = v.flag('consistency'), v.flag('taylor')
    s = Sta()
    m = it.InversionManager(s, no_exports=no, penalty_parameters=[], test_consistency=cons, test_gradient=tay)
    rf = []

    class RF:
        def __init__(self, J, c, **k): rf.append((J, c, k))

        def __call__(self, c):
            ev.append(('J', list(c)))
            return self.J

        def derivative(self, **k):
            ev.append(('dJ', k))
            return 'grad'
    v.patch(it, 'ReducedFunctional', RF)
    m.J = v.real('J0')
    J0 = m.J
    m._controls_wrapped = ['C0', 'C1']
    f = [types.SimpleNamespace(copy=lambda deepcopy=False, i=i: ('copy', i, deepcopy)) for i in range(2)]
    m.control_managers = [types.SimpleNamespace(controls=[x]) for x in f]
    h = m.reduced_functional
    v.check('made once', m.reduced_functional is h and len(rf) == 1)
    v.check('of the cost with the controls', rf[0][0] is J0 and rf[0][1] == ['C0', 'C1'] and set(rf[0][2]) == {'eval_cb_post', 'derivative_cb_post'})
    h.J = v.real('J1')
    conv = v.real('conv')
    tt = []
    v.patch(it, 'taylor_test', lambda *a: (tt.append(a), conv)[1])
    paused = []
    v.patch(it, 'pause_annotation', lambda: paused.append(1))

    class Np3(Np):
        def isclose(self, a, b, *r, **k):
            ev.append(('close', a, b, r, k))
            return close
    close = v.flag('close')
    v.patch(it, 'numpy', Np3(v))
    ex, _ = raises(m.stop_annotating)
    bad = v.any([cons and not close, v.lt(conv, num(v, 1.9)) if tay else False])
    v.check('stops on a failed test', v.iff(isinstance(ex, ValueError), bad))
    v.check('nothing else', ex is None or isinstance(ex, ValueError))
    v.check('annotation ends', paused == ([1] if ex is None else []))
    cl = [e for e in ev if e[0] == 'close']
    v.check('compares the two costs', not cons or (len(cl) == 1 and v.all([v.any([v.all([v.eq(cl[0][1], h.J), v.eq(cl[0][2], J0)]), v.all([v.eq(cl[0][1], J0), v.eq(cl[0][2], h.J)])])]) and not cl[0][3] and not cl[0][4]))
    if ex is not None:
        return
    v.check('perturbs copies', not tay or (tt == [(h, f, [('copy', 0, True), ('copy', 1, True)])]))
    del ev[:]
    v.patch(m, 'update_progress', lambda: ev.append(('record', m.J, m.dJdm_list, m.m_list, m.i)))
    out = v.choice('outcome', ('ok', 'limit', 'fails', 'other'))

    def opt(r, method=None, bounds=None, callback=None, options=None):
        ev.append(('minimize', r, method, bounds, options))
        callback('m')
        if out in ('limit', 'fails'):
            raise it.SciPyConvergenceError('STOP: TOTAL NO. OF ITERATIONS REACHED LIMIT' if out == 'limit' else 'ABNORMAL')
        if out == 'other':
            raise ArithmeticError('x')
        return 'opt'
    v.patch(it, 'minimize', opt)
    h.J = 0.75
    ex, r = raises(m.minimize, opt_method='L-BFGS-B', bounds='B', maxiter=3)
    v.check('limit is no error', (ex is None) == (out in ('ok', 'limit')) and (ex is None or isinstance(ex, it.SciPyConvergenceError if out == 'fails' else ArithmeticError)))
    v.check('result', ex is not None or (r == 'opt' if out == 'ok' else r is m.m_list))
    v.check('initial state recorded before the optimisation', ev[:4] == [('J', f), ('dJ', {'apply_riesz': True}), ('record', 0.75, 'grad', f, 0), ('minimize', h, 'L-BFGS-B', 'B', {'maxiter': 3})])
    v.check('one record per step of the optimiser', [e[0] for e in ev[4:]] == ['record'])
    v.check('series', s.log == ([] if no else [('collect', 0), ('dump',), ('dump',)]))
    v.cover()


@contract('C28', [SO + 'collect_time_series', SO + 'dump_time_series'], bounded='one to three stations, up to three iterations of two evaluations')
def series(v):
    """one record of station values per iteration: a repeated evaluation replaces the record of the iteration; files hold the values of their own station"""
    floats(v)
    n = v.choice('stations', (1, 2, 3))
    perm = v.choice('order', tuple(itertools.permutations(range(n))))
    scalar = v.flag('scalar')
    m = it.StationObservationManager.__new__(it.StationObservationManager)
    it.StationObservationManager.__init__(m, types.SimpleNamespace(geometric_dimension=2), output_directory='out')
    m.variable, m.station_names = 'var', ['s%d' % i for i in range(n)]
    m.observation_x, m.observation_y = [10. + i for i in range(n)], [20. + i for i in range(n)]
    m.observed_quantity_is_scalar = scalar
    m.local_station_index = list(perm)
    m.simulation_time = [v.real('t%d' % k) for k in range(2)]
    v.check('needs a series', isinstance(raises(m.dump_time_series)[0], AssertionError))
    made = []

    class File(dict):
        def __init__(self, fn, mode):
            v.check('written anew', mode == 'w')
            self.attrs = {}
            files[fn] = self

        def create_dataset(self, k, data=None): self[k] = numpy.array(data)
        def __enter__(self): return self
        def __exit__(self, *a): return False
    files = {}
    v.patch(it, 'h5py', types.SimpleNamespace(File=File))
    v.patch(it, 'create_directory', lambda d, **k: made.append(d))
    last = {}
    seq = v.choice('evaluations', ((0,), (0, 0), (0, 1), (0, 0, 1, 1), (0, 1, 1, 2)))
    for q, k in enumerate(seq):
        ts = [numpy.array([[v.real('x%d_%d_%d_%d' % (q, a, p, c)) for c in range(2)] if not scalar else v.real('x%d_%d_%d' % (q, a, p)) for p in range(n)], dtype=object if v.symbolic else float) for a in range(2)]
        fn = lambda x: types.SimpleNamespace(dat=types.SimpleNamespace(data=x, data_ro=x))
        v.patch(it, 'get_working_tape', lambda ts=ts: Tape({'var observation': [block(fn(x)) for x in ts], 'misfit_eval': [block(3)]}))
        m.collect_time_series(k)
        last[k] = ts
        v.check('one record per iteration', len(m.station_value_progress) == k + 1)
    m.dump_time_series()
    v.check('folder', made == ['out'])
    v.check('one file per station', sorted(files) == sorted('out/diagnostic_timeseries_progress_s%d_var.hdf5' % i for i in range(n)))
    for p, j in enumerate(perm):
        f = files.get('out/diagnostic_timeseries_progress_s%d_var.hdf5' % j)
        if f is None:
            continue
        v.check('place and name', f.attrs == {'x': 10. + j, 'y': 20. + j, 'location_name': 's%d' % j})
        v.check('times', veq(v, list(f['time']), m.simulation_time))
        for c, nm in enumerate(['var'] if scalar else ['var_u_component', 'var_v_component']):
            v.check('shape', nm in f and f[nm].shape == (len(last), 2))
            if nm in f and f[nm].shape == (len(last), 2):
                v.check('values of this station', v.all([v.eq(f[nm][k, a], last[k][a][p] if scalar else last[k][a][p, c]) for k in last for a in range(2)]))
    v.cover()


@contract('C28', [SO + 'load_scalar_observation_data'], kind='concrete', bounded='random files', samples=6)
def load(v):
    """observation files are read per station: series, times and position of the same file"""
    rng = v.rng
    n = rng.randint(1, 4)
    quiet(v)
    m = it.StationObservationManager(mesh2d())
    built = []
    m.construct_evaluator = lambda: built.append(1)
    with tempfile.TemporaryDirectory() as d:
        T, X, P = [], [], []
        names = ['st%d' % i for i in range(n)]
        for s in names:
            k = rng.randint(1, 5)
            t, x, p = numpy.sort(numpy.array([rng.random() for _ in range(k)])), numpy.array([rng.gauss(0, 1) for _ in range(k)]), (rng.random(), rng.random())
            with h5py.File('%s/diagnostic_timeseries_%s_elev.hdf5' % (d, s), 'w') as f:
                f['time'] = t.reshape(-1, 1)
                f['elev'] = x.reshape(-1, 1)
                f.attrs['x'], f.attrs['y'] = p
            T.append(t); X.append(x); P.append(p)
        st = [rng.random() for _ in names] if rng.random() < .5 else None
        m.load_scalar_observation_data(d, names, 'elev', start_times=st, end_times=None)
    v.check('built', built == [1])
    v.check('names', m.station_names == names and m.variable == 'elev' and m.observed_quantity_is_scalar)
    v.check('positions', numpy.allclose(m.observation_x, [p[0] for p in P]) and numpy.allclose(m.observation_y, [p[1] for p in P]))
    v.check('series', all(numpy.array_equal(a, b) for a, b in zip(m.observation_data, X)) and all(numpy.array_equal(a, b) for a, b in zip(m.observation_time, T)))
    v.check('windows', list(m._start_times) == (st or [-numpy.inf] * n) and list(m._end_times) == [numpy.inf] * n)
