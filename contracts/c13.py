"""C13 coupled time integrators: what runs, when, in which order, and which state each sub-model sees."""
import itertools
import thetis.coupled_timeintegrator_2d as ct2
import thetis.coupled_timeintegrator as ct3
import thetis.utility3d as u3
from thetis.utility import AttrDict
from thetis.physical_constants import physical_constants
from pyvc.contract import contract
from pyvc import core
from .common import raises
from .tsim import World, Cell, Const, Space, Op

ASSUMPTIONS = [
    'sub-steppers, limiters, vertical integrators, copies between 2D and 3D, density/pressure-gradient and vertical-velocity solvers are '
    'replaced by their contracts: an arbitrary function of the values they read at the time of the call (own contracts: C12, C18, C19, C27)',
    'a 3D field enters as its vertical mean and the remainder (averaging returns the mean, copying a 2D field sets the mean), the elevation '
    'projections of the mesh updater as linear maps (identity), the mesh as the elevation it was built from; the kernels that fill nodes '
    'of the column: C19',
    'number of RK stages of the 3D scheme is its own (2); tracer_picard_iterations 1..4 and up to two tracer systems are enumerated',
]


class Field:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


# ------------------------------------------------------------------------------------------------------------ 2D
class Rec:
    """sub-stepper that records its calls"""
    def __init__(self, name, log):
        self.n, self.log = name, log

    def advance(self, t, update_forcings=None):
        self.log.append(('advance', self.n, t, update_forcings))

    def advance_picard(self, t, update_forcings=None, update_lagged=True, update_fields=True):
        self.log.append(('picard', self.n, t, update_forcings, update_lagged, update_fields))

    def initialize(self, sol):
        self.log.append(('init', self.n, sol))

    def set_dt(self, dt):
        self.log.append(('set_dt', self.n, dt))


class Integ:
    def __init__(self, name):
        self.__name__ = name


class Solver2:
    def __init__(self, v, log, o, fields, integ):
        self.log, self.options, self.fields, self.solve_tracer = log, o, fields, len(o.tracer_fields) > 0
        self.v, self.integ, self.equations = v, integ, AttrDict()
        self.sediment_model = None
        if o.sediment_model_options.solve_suspended_sediment or o.sediment_model_options.solve_exner:
            self.sediment_model = AttrDict(update=lambda: log.append(('sediment_model',)))
        self.tracer_limiter = AttrDict(apply=lambda f: log.append(('limit', f)))

    def get(self, kind, name, integrator):
        self.v.check('integrator of the right kind for %s' % kind, integrator is self.integ[kind])
        return Rec(name, self.log)

    def get_swe_timestepper(self, i): return self.get('shallow_water', 'swe2d', i)
    def get_tracer_timestepper(self, i, s): return self.get('tracer', s, i)
    def get_sediment_timestepper(self, i): return self.get('sediment', 'sediment', i)
    def get_exner_timestepper(self, i): return self.get('exner', 'exner', i)


def make2(v, systems, log):
    """the real coupled integrator over recording sub-steppers"""
    v.patch(ct2, 'print_output', lambda *a, **k: None)
    tracer_only = v.flag('tracer_only') if systems else False
    sed, exn = v.flag('suspended'), v.flag('exner')
    fields = AttrDict({k: Field(k) for k in ['solution_2d', 'elev_2d', 'sediment_2d', 'bathymetry_2d'] + list(systems)})
    o = AttrDict(tracer_only=tracer_only, tracer_fields={k: fields[k] for k in systems}, use_limiter_for_tracers=v.flag('limiter'),
                 tracer_picard_iterations=1,
                 sediment_model_options=AttrDict(solve_suspended_sediment=sed, solve_exner=exn))
    integ = {k: Integ(k) for k in ('shallow_water', 'tracer', 'sediment', 'exner')}
    s = Solver2(v, log, o, fields, integ)
    give = {k: integ[k] for k, on in (('shallow_water', not tracer_only), ('tracer', bool(systems)), ('sediment', sed), ('exner', exn)) if on}
    c = ct2.GeneralCoupledTimeIntegrator2D(s, give)
    return c, s, o, fields


SYSTEMS = {'none': [], 'one': ['a_2d'], 'two': ['a_2d', 'b_2d'], 'mixed': ['a_2d,b_2d'], 'three': ['c_2d', 'a_2d,d_2d', 'b_2d']}
T2 = ['thetis.coupled_timeintegrator_2d:CoupledTimeIntegrator2D.' + m for m in ('__init__', '_create_integrators', 'set_dt', 'initialize', 'advance',
      'advance_picard')] + ['thetis.coupled_timeintegrator_2d:GeneralCoupledTimeIntegrator2D.__init__']


def expected(o, systems):
    """sub-models of the run and their fields, in the documented order"""
    r = [] if o.tracer_only else [('swe2d', 'solution_2d')]
    r += [(s, s) for s in systems]
    if o.sediment_model_options.solve_suspended_sediment:
        r.append(('sediment', 'sediment_2d'))
    if o.sediment_model_options.solve_exner:
        r.append(('exner', 'bathymetry_2d'))
    return r


for _k in SYSTEMS:
    def _adv(v, _k=_k):
        systems = SYSTEMS[_k]
        log = []
        c, s, o, fields = make2(v, systems, log)
        o.tracer_picard_iterations = p = v.choice('picard', [1, 2, 3, 4])
        t, dt = v.real('t'), v.real('dt', pos=True)
        f = v.choice('forcing', [None, lambda t: None])
        want = expected(o, systems)
        v.check('one sub-stepper per active sub-model', sorted(c.timesteppers) == sorted(n for n, _ in want))
        c.initialize(fields.solution_2d)
        v.check('each sub-model initialised once with its own field', sorted((x[1], x[2].name) for x in log) == sorted(want))
        log.clear()
        c.set_dt(dt)
        v.check('time step reaches every sub-model', sorted(x[1] for x in log) == sorted(n for n, _ in want) and v.all(v.eq(x[2], dt) for x in log))
        log.clear()
        mixed = o.use_limiter_for_tracers and any(',' in x for x in systems)
        ex, _ = raises(c.advance, t, update_forcings=f)
        if mixed:
            v.check('limiter on a mixed system is refused', isinstance(ex, NotImplementedError))
            return v.cover()
        v.check('step completes', ex is None, repr(ex))
        adv = [x for x in log if x[0] in ('advance', 'picard')]
        for x in adv:
            v.check('sub-model advanced from the current time with the user forcing', v.eq(x[2], t) and x[3] is f)
        order = [x[1] for x in adv]
        nt = len(systems)
        once = [n for n, _ in want if n not in systems]
        v.check('every sub-model is advanced exactly once (tracers once per Picard iteration)',
                sorted(order) == sorted(once + [x for x in systems for _ in range(p)]))
        seq = [n for n, _ in want]
        if p == 1:
            v.check('documented order', order == seq)
            for x in adv:
                v.check('single-pass step updates lagged state', x[0] == 'advance' or (x[4] and x[5]))
        else:
            i0 = 0 if o.tracer_only else 1
            v.check('documented order', order[:i0] == seq[:i0] and order[i0 + nt * p:] == seq[i0 + nt:]
                    and order[i0:i0 + nt * p] == list(systems) * p)
            for k, x in enumerate(adv[i0:i0 + nt * p]):
                v.check('Picard: previous solution stored in the first iteration only, lagged fields in the last only',
                        x[0] == 'picard' and bool(x[4]) == (k // nt == 0) and bool(x[5]) == (k // nt == p - 1))
        # limiters: right after the advance of the limited field
        limited = set(systems) | {'sediment'}
        for k, x in enumerate(log):
            if x[0] in ('advance', 'picard') and x[1] in limited and o.use_limiter_for_tracers:
                fld = dict(want)[x[1]]
                v.check('limited field is limited right after its advance', k + 1 < len(log) and log[k + 1][0] == 'limit' and log[k + 1][1].name == fld)
        n = len([x for x in adv if x[1] in limited]) if o.use_limiter_for_tracers else 0
        v.check('no other limiter calls', len([x for x in log if x[0] == 'limit']) == n)
        # sediment model
        sm = [k for k, x in enumerate(log) if x[0] == 'sediment_model']
        if s.sediment_model is None:
            v.check('no sediment model update without sediment', not sm)
        else:
            pos = {x[1]: k for k, x in enumerate(log) if x[0] == 'advance'}
            v.check('sediment model updated once, after the flow and before sediment and bed', len(sm) == 1
                    and all(k < sm[0] for n, k in pos.items() if n == 'swe2d') and all(k > sm[0] for n, k in pos.items() if n in ('sediment', 'exner')))
        v.cover()
    contract('C13', T2, name='advance2d_' + _k)(_adv)


# ------------------------------------------------------------------------------------------------ non-hydrostatic
TN = ['thetis.coupled_timeintegrator_2d:NonHydrostaticTimeIntegrator2D.' + m for m in ('__init__', 'initialize', 'advance')]


class NHStep:
    """flow / free-surface stepper: every (stage) solve makes its unknown an arbitrary function of what it reads"""
    def __init__(self, sim, name, stages):
        self.sim, self.n = sim, name
        if stages:
            self.n_stages = stages

    def _do(self, stage, t, f):
        sim = self.sim
        sim.log.append((self.n, stage, t, f, sim.uv.ev(), sim.elev.ev()))
        a = sim.uv.ev() + sim.elev.ev()
        W = World.cur
        if self.n == 'swe2d':
            sim.uv.val = [W.apply('uv%s' % stage, a)]
            sim.elev.val = [W.apply('el%s' % stage, a)]
        else:
            sim.elev.val = [W.apply('fs%s' % stage, a)]

    def advance(self, t, update_forcings=None):
        self._do('all', t, update_forcings)

    def solve_stage(self, i, t, update_forcings=None):
        self._do(i, t, update_forcings)

    def initialize(self, x):
        self.sim.log.append(('init', self.n, x))

    def set_dt(self, dt):
        pass


@contract('C13', TN, name='nonhydrostatic')
def nonhydrostatic(v):
    v.patch(ct2, 'print_output', lambda *a, **k: None)
    v.patch(ct2, 'Function', Cell)
    World(v)
    sim = AttrDict(log=[])
    kind = v.choice('swe', ['serial', 'SSPIMEX', 'stages1', 'stages2', 'stages3'])
    fskind = v.choice('fs', ['none', 'serial', 'BackwardEuler', 'same'])
    if fskind == 'same' and not kind.startswith('stages') or (kind == 'stages1' and fskind == 'same'):
        fskind = 'serial'
    nst = {'serial': 0, 'SSPIMEX': 3, 'stages1': 1, 'stages2': 2, 'stages3': 3}[kind]
    swetype = {'serial': 'CrankNicolson', 'SSPIMEX': 'SSPIMEX', 'stages1': 'BackwardEuler', 'stages2': 'DIRK22', 'stages3': 'DIRK33'}[kind]
    fstype = {'none': 'CrankNicolson', 'serial': 'CrankNicolson', 'BackwardEuler': 'BackwardEuler', 'same': swetype}[fskind]
    fsst = {'none': 0, 'serial': 0, 'BackwardEuler': 1, 'same': nst}[fskind]
    sol = Cell(Space(2), [v.real('u0'), v.real('e0')])
    sim.uv, sim.elev = sol.subfunctions
    fields = AttrDict(solution_2d=sol, uv_2d=sim.uv, elev_2d=sim.elev)
    o = AttrDict(tracer_only=False, tracer_fields={}, swe_timestepper_type=swetype, tracer_picard_iterations=1,
                 sediment_model_options=AttrDict(solve_suspended_sediment=False, solve_exner=False),
                 nh_model_options=AttrDict(update_free_surface=fskind != 'none', free_surface_timestepper_type=fstype))

    def poisson(solve_w=True):
        sim.log.append(('poisson', solve_w, sim.uv.ev(), sim.elev.ev()))
        sim.uv.val = [World.cur.apply('q', sim.uv.ev() + sim.elev.ev())]
    s = AttrDict(options=o, fields=fields, solve_tracer=False, sediment_model=None, poisson_solver=AttrDict(solve=poisson))
    swe = NHStep(sim, 'swe2d', nst)
    if kind == 'SSPIMEX':
        swe.erk = AttrDict(solution_old=Cell(Space(2)))
        swe.dirk = AttrDict(solution_old=Cell(Space(2)))
    s.get_swe_timestepper = lambda i: swe
    s.get_fs_timestepper = lambda i: NHStep(sim, 'fs2d', fsst)
    c = ct2.NonHydrostaticTimeIntegrator2D(s, Integ('swe'), Integ('fs'))
    c.initialize(sol)
    v.check('flow and free surface initialised once with their fields',
            sorted((x[1], x[2] is sol, x[2] is sim.elev) for x in sim.log)
            == ([('fs2d', False, True)] if fskind != 'none' else []) + [('swe2d', True, False)])
    t = v.real('t')
    f = lambda t: None
    for step in range(2):
        sim.log.clear()
        e0 = sim.elev.ev()
        c.advance(t, update_forcings=f)
        log = sim.log
        for x in log:
            if x[0] != 'poisson':
                v.check('advanced from the current time with the user forcing', v.eq(x[2], t) and x[3] is f)
        names = [x[0] for x in log]
        serial = kind in ('serial', 'SSPIMEX')
        ns = 1 if serial else nst
        sw = [x for x in log if x[0] == 'swe2d']
        v.check('flow advanced over exactly one step', [x[1] for x in sw] == (['all'] if serial else list(range(nst))))
        v.check('pressure solved once after every flow solve', [n for n in names if n != 'fs2d'] == ['swe2d', 'poisson'] * ns)
        po = [x for x in log if x[0] == 'poisson']
        v.check('vertical velocity updated at the end of the step', po[-1][1])
        fs = [x for x in log if x[0] == 'fs2d']
        if fskind == 'none':
            v.check('no free-surface step when switched off', not fs)
        else:
            multi = fskind == 'same'
            v.check('free surface advanced over exactly one step', [x[1] for x in fs] == (list(range(ns)) if multi else ['all']))
            k = names.index('fs2d')
            if multi:
                v.check('free surface after flow and pressure of the same stage', names == ['swe2d', 'poisson', 'fs2d'] * ns)
                v.check('free surface starts from the elevation of the step start', v.all(v.eq(a, b) for a, b in zip(fs[0][5], e0)))
                prev = e0
                for j, x in enumerate(fs):
                    v.check('free-surface stage starts from the previous free-surface stage', v.all(v.eq(a, b) for a, b in zip(x[5], prev)))
                    prev = [World.cur.apply('fs%d' % j, x[4] + x[5])]
            else:
                v.check('free surface last', k == len(names) - 1)
                v.check('free surface starts from the elevation of the step start', v.all(v.eq(a, b) for a, b in zip(fs[0][5], e0)))
            v.check('free surface sees the pressure-corrected velocity', all(
                v.eq(x[4][0], World.cur.apply('q', p[2] + p[3])) for x, p in zip(fs, po if multi else po[-1:])))
        if kind == 'SSPIMEX':
            v.check('stored previous solution is the corrected one', v.all(
                v.eq(a, b) for q in (swe.erk, swe.dirk) for a, b in zip(q.solution_old.ev(), sol.ev())))
    v.cover()


# ------------------------------------------------------------------------------------------------------------ 3D
class Proxy:
    def __init__(self, get, put=None):
        self.get, self.put = get, put

    def __getitem__(self, k):
        return self.get()

    def __setitem__(self, k, x):
        self.put(k, x)


class Dat:
    def __init__(self, cell):
        self.cell = cell
        self.data = self.data_ro = Proxy(lambda: cell.ev())

    def __call__(self, access, map_=None):
        return (self.cell, access)


class FCell(Cell):
    @property
    def dat(self):
        return Dat(self)

    @property
    def view_3d(self):
        return self


class Sim3:
    """contracts of everything the 3D coupled integrators call"""
    def __init__(self, v, cls, **fixed):
        self.v, self.log = v, []
        flag = lambda k: fixed[k] if k in fixed else v.flag(k)
        W = self.W = World(v)
        self.cls = cls
        R = v.real
        o = self.o = AttrDict(
            use_ale_moving_mesh=flag('ale'), solve_salinity=flag('salt'), solve_temperature=flag('temp'),
            use_limiter_for_tracers=flag('lim_tracer'), use_limiter_for_velocity=flag('lim_uv'),
            use_implicit_vertical_diffusion=flag('implicit'), use_baroclinic_formulation=flag('baroclinic'),
            use_smagorinsky_viscosity=flag('smag'))
        self.turb = v.choice('turbulence', ['none', 'pacanowski', 'gls', 'gls_adv'])
        if self.turb.startswith('gls') and not o.use_implicit_vertical_diffusion:
            self.turb = 'pacanowski'
        o.use_turbulence = self.turb != 'none'
        F = self.f = AttrDict()
        two = ('uv_3d', 'uv_dav_3d')
        names = ['uv_2d', 'elev_2d', 'elev_domain_2d', 'elev_cg_2d', 'uv_3d', 'uv_dav_3d', 'uv_dav_2d', 'split_residual_2d', 'w_3d', 'salt_3d',
                 'temp_3d', 'tke_3d', 'psi_3d', 'density_3d', 'baroc_head_3d', 'int_pg_3d', 'w_mesh_3d', 'z_coord_3d', 'z_coord_ref_3d',
                 'bathymetry_2d', 'v_elem_size_3d', 'v_elem_size_2d', 'eddy', 'smag']
        for k in names:
            n = 2 if k in two else 1
            F[k] = FCell(Space(n), [R('%s%d' % (k, i)) for i in range(n)], name=k)
        F.solution_2d = Field('solution_2d')
        # previous step ended with the 3D velocity coupled to the 2D one
        F.uv_dav_3d.val = [F.uv_2d.val[0], 0]
        F.uv_3d.val = [0, F.uv_3d.val[1]]
        # ... and the mesh built for the elevation (the elevation fields of the 3D mode follow it)
        F.elev_domain_2d.val = list(F.elev_2d.val)
        self.z = R('z0')
        if o.use_ale_moving_mesh:
            self.z = F.elev_2d.val[0]
            F.z_coord_3d.val = [self.z]
        self.dt = R('dt', pos=True)
        self.removed = [0]
        F.split_residual_2d.val = [R('split0')]
        self.start_split = F.split_residual_2d.ev()
        s = self.s = AttrDict(options=o, fields=F, dt=self.dt)
        s.mesh = AttrDict(coordinates=AttrDict(dat=AttrDict(data=Proxy(None, self.put_coords))), clear_rtree=lambda: None)
        s.function_spaces = AttrDict()
        s.tracer_limiter = AttrDict(apply=self.limit)
        s.uv_limiter = AttrDict(apply=self.limit_uv)
        s.w_solver = AttrDict(solve=self.solve_w)
        s.uv_averager = AttrDict(solve=lambda: F.uv_dav_3d.assign(FCell(Space(2), [F.uv_3d.val[0], 0])))
        s.extract_surf_dav_uv = AttrDict(solve=lambda: F.uv_dav_2d.assign(FCell(Space(1), [F.uv_dav_3d.val[0]])))
        s.copy_uv_dav_to_uv_dav_3d = AttrDict(solve=lambda: F.uv_dav_3d.assign(FCell(Space(2), [F.uv_dav_2d.val[0], 0])))
        s.copy_uv_to_uv_dav_3d = AttrDict(solve=lambda: F.uv_dav_3d.assign(FCell(Space(2), [F.uv_2d.val[0], 0])))
        s.density_solver = AttrDict(solve=lambda: self.fun('density', F.density_3d, self.ts()))
        s.rho_integrator = AttrDict(solve=lambda: self.fun('head', F.baroc_head_3d, F.density_3d.ev() + [self.z]))
        s.int_pg_calculator = AttrDict(solve=lambda: self.fun('int_pg', F.int_pg_3d, F.baroc_head_3d.ev() + [self.z]))
        s.smagorinsky_diff_solver = AttrDict(solve=lambda: self.fun('smag', F.smag, F.uv_3d.ev() + [self.z]))
        s.turbulence_model = AttrDict(preprocess=lambda: self.ev('turb_pre'), postprocess=self.post)
        s.equations = AttrDict()
        self.rho0_inv = v.real('rho0_inv', pos=True)
        v.patch(physical_constants, 'rho0_inv', self.rho0_inv)
        v.patch(ct3, 'print_output', lambda *a, **k: None)
        v.patch(ct3, 'Function', FCell)
        v.patch(u3, 'compute_elem_height', lambda z, h: self.fun('dz', h, z.ev()))
        v.patch(u3, 'op2', AttrDict(par_loop=self.par_loop, WRITE='W', READ='R', RW='RW', INC='INC', ALL='all'))
        mu = object.__new__(u3.ALEMeshUpdater)
        mu.solver, mu.fields = s, F
        mu.elev_cg_2d = FCell(Space(1), [R('ecg')])
        mu.w_mesh_surf_2d = FCell(Space(1), [R('wsurf')])
        mu.proj_elev_to_cg_2d = AttrDict(project=lambda: mu.elev_cg_2d.assign(F.elev_2d))
        mu.proj_elev_cg_to_coords_2d = AttrDict(project=lambda: F.elev_cg_2d.assign(mu.elev_cg_2d))
        mu.cp_v_elem_size_to_2d = AttrDict(solve=lambda: F.v_elem_size_2d.assign(F.v_elem_size_3d))
        mu.kernel_z_coord, mu.kernel_w_mesh = 'kernel_z', 'kernel_w'
        mu.fs_3d = mu.fs_2d = AttrDict(mesh=lambda: AttrDict(cell_set=None), cell_node_map=lambda: None)
        mu.idx = lambda access: ('idx', access)
        s.mesh_updater = mu
        sim = self

        def create(c):
            ts = c.timesteppers
            ts.swe2d = Swe(sim, 'swe2d')
            ts.mom_expl = sim.Expl('mom', F.uv_3d)
            if o.use_implicit_vertical_diffusion:
                ts.mom_impl = Impl(sim, 'mom_impl', F.uv_3d)
            for k in ('salt', 'temp'):
                if o['solve_' + {'salt': 'salinity', 'temp': 'temperature'}[k]]:
                    ts[k + '_expl'] = sim.Expl(k, F[k + '_3d'])
                    if o.use_implicit_vertical_diffusion:
                        ts[k + '_impl'] = Impl(sim, k + '_impl', F[k + '_3d'])
            if sim.turb.startswith('gls'):
                for k in ('tke', 'psi'):
                    ts[k + '_impl'] = Impl(sim, k + '_impl', F[k + '_3d'])
                    if sim.turb == 'gls_adv':
                        ts[k + '_expl'] = sim.Expl(k, F[k + '_3d'])
        v.patch(ct3.CoupledTimeIntegrator, '_create_integrators', create)
        self.c = cls(s)
        self.expl = [k[:-5] for k in self.c.timesteppers if k.endswith('_expl')]
        self.impl = [k for k in self.c.timesteppers if k.endswith('_impl')]

    def ev(self, name, **k):
        self.log.append(dict(name=name, st=self.state(), **k))

    def state(self):
        d = {k: c.ev() for k, c in self.f.items() if isinstance(c, Cell)}
        d['z'] = [self.z]
        return d

    def ts(self):
        return self.f.salt_3d.ev() + self.f.temp_3d.ev()

    def fun(self, name, cell, args):
        cell.val = [self.W.apply('%s_%d' % (name, i), args) for i in range(len(cell.val))]

    def w_of(self, st):
        return [self.W.apply('w_0', [a + b for a, b in zip(st['uv_3d'], st['uv_dav_3d'])] + st['z'])]

    def pg_of(self, st):
        d = [self.W.apply('density_0', st['salt_3d'] + st['temp_3d'])]
        h = [self.W.apply('head_0', d + st['z']) * -self.rho0_inv]
        return [self.W.apply('int_pg_0', h + st['z'])]

    def solve_w(self):
        self.f.w_3d.val = self.w_of(self.state())

    def post(self):
        self.ev('turb_post')
        self.fun('eddy', self.f.eddy, self.f.uv_3d.ev() + self.f.tke_3d.ev() + self.f.psi_3d.ev())

    def limit(self, f):
        self.ev('limit', field=f._name)
        self.fun('lim', f, f.ev())

    def limit_uv(self, f):
        self.ev('limit_uv', field=f._name)
        self.fun('limuv', f, f.ev())

    def par_loop(self, kernel, it, *args, **kw):
        c = [a for a, _ in args]
        if kernel == 'kernel_z':
            self.v.check('mesh kernel gets (z, z_ref, elevation, bathymetry)', c[:4] == [self.f.z_coord_3d, self.f.z_coord_ref_3d, self.f.elev_cg_2d,
                         self.f.bathymetry_2d])
            c[0].assign(c[2])
        else:
            self.v.check('mesh velocity kernel gets (w_mesh, z_ref, surface velocity, bathymetry)', c[0] is self.f.w_mesh_3d
                         and c[1] is self.f.z_coord_ref_3d and c[3] is self.f.bathymetry_2d)
            c[0].assign(c[2])

    def put_coords(self, k, x):
        self.v.check('only the vertical coordinate moves', k == (slice(None), 2) and len(x) == 1)
        self.z = x[0]


class Swe:
    n_stages = 2
    cfl_coeff = 1

    def __init__(self, sim, name):
        self.sim = sim

    def _do(self, tag, t, f):
        sim = self.sim
        sim.ev('swe2d', tag=tag, t=t, f=f)
        a = sim.f.uv_2d.ev() + sim.f.elev_2d.ev() + sim.f.split_residual_2d.ev()
        sim.f.uv_2d.val = [sim.W.apply('swe_u', a)]
        sim.f.elev_2d.val = [sim.W.apply('swe_e', a)]

    def advance(self, t, update_forcings=None):
        self._do('all', t, update_forcings)

    def solve_stage(self, i, t, update_forcings=None):
        self._do(i, t, update_forcings)

    def initialize(self, x):
        self.sim.ev('init', who='swe2d', field=x.name)


class Impl:
    def __init__(self, sim, name, cell):
        self.sim, self.n, self.cell = sim, name, cell

    def advance(self, t, update_forcings=None):
        self.sim.ev(self.n, t=t)
        self.sim.fun(self.n, self.cell, self.cell.ev() + [self.sim.z])

    def initialize(self, x):
        self.sim.ev('init', who=self.n, field=x._name)


class ExplBase:
    cfl_coeff = 1

    def __init__(self, sim, name, cell):
        self.sim, self.n, self.cell = sim, name, cell
        self.dt, self.dt_const = sim.dt, Const(sim.dt)

    def initialize(self, x):
        self.sim.ev('init', who=self.n + '_expl', field=x._name)

    def rhs(self):
        f, sim = self.sim.f, self.sim
        a = self.cell.ev()
        for k in READS:
            a = a + f[k].ev()
        return a + [sim.z]


READS = ('uv_3d', 'uv_dav_3d', 'w_3d', 'w_mesh_3d', 'elev_domain_2d', 'int_pg_3d')


class ExplLF(ExplBase):
    def __init__(self, sim, name, cell):
        super().__init__(sim, name, cell)
        self.gamma = sim.gamma

    def predict(self):
        self.sim.ev('predict', who=self.n)
        self.sim.fun(self.n + '_p', self.cell, self.rhs())

    def eval_rhs(self):
        self.sim.ev('eval', who=self.n)

    def correct(self):
        self.sim.ev('correct', who=self.n)
        self.sim.fun(self.n + '_c', self.cell, self.cell.ev() + [self.sim.z])


class ExplRK(ExplBase):
    n_stages = 2

    def prepare_stage(self, i, t, update_forcings=None):
        self.sim.ev('prepare', who=self.n, stage=i, t=t, f=update_forcings)

    def solve_stage(self, i):
        self.sim.ev('solve', who=self.n, stage=i)
        self.sim.fun('%s_s%d' % (self.n, i), self.cell, self.cell.ev() + [self.sim.z])


CELL = dict(salt='salt_3d', temp='temp_3d', tke='tke_3d', psi='psi_3d', mom='uv_3d')


class Checker:
    def __init__(self, sim):
        self.sim, self.v = sim, sim.v

    def same(self, msg, a, b):
        self.v.check(msg, self.v.all(self.v.eq(x, y) for x, y in zip(a, b)))

    def stale(self, when, st, uv_dav):
        """diagnostics the right-hand sides read belong to the current state"""
        sim = self.sim
        self.same('%s: 3D velocity has no depth average' % when, [st['uv_3d'][0]], [0])
        self.same('%s: depth-averaged velocity in 3D is the 2D one' % when, st['uv_dav_3d'], [uv_dav, 0])
        self.same('%s: vertical velocity belongs to the current velocity and mesh' % when, st['w_3d'], sim.w_of(st))
        if sim.o.use_baroclinic_formulation:
            self.same('%s: pressure gradient belongs to the current density and mesh' % when, st['int_pg_3d'], sim.pg_of(st))

    def forced(self, e0, e1):
        pass


def initialisation(sim, done):
    v, log = sim.v, sim.log
    init = [e for e in log if e['name'] == 'init']
    want = sorted([('swe2d', 'solution_2d')] + [(k + '_expl', CELL[k]) for k in sim.expl] + [(k, CELL[k[:-5]]) for k in sim.impl])
    v.check('sub-steppers initialised exactly when needed, each with its own field', sorted((e['who'], e['field']) for e in init)
            == ([] if done else want))
    v.check('initialised before the first solve', all(e['name'] == 'init' for e in log[:len(init)]))
    log[:] = log[len(init):]


def limits(sim, phase):
    """every limited field is limited right after each of its solves (before anybody reads it), and only then"""
    v, o = sim.v, sim.o
    n = 0
    for k, e in enumerate(sim.log):
        if e['name'] in phase and e['who'] in ('salt', 'temp', 'mom'):
            want = o.use_limiter_for_velocity if e['who'] == 'mom' else o.use_limiter_for_tracers
            if want:
                n += 1
                nx = sim.log[k + 1] if k + 1 < len(sim.log) else dict(name=None)
                v.check('limited field is limited right after its solve', nx['name'] == ('limit_uv' if e['who'] == 'mom' else 'limit')
                        and nx['field'] == CELL[e['who']])
    v.check('no other limiter calls', n == len([e for e in sim.log if e['name'] in ('limit', 'limit_uv')]))


def implicit_part(sim, t, end, uv2):
    """vertical diffusion and turbulence at the end of the step"""
    v, o, ck = sim.v, sim.o, Checker(sim)
    log = sim.log
    names = [e['name'] for e in log]
    for k in sim.impl:
        es = [(i, e) for i, e in enumerate(log) if e['name'] == k]
        v.check('implicit vertical solve of every field exactly once', len(es) == 1)
        i, e = es[0]
        v.check('implicit vertical solve over the current step', v.eq(e['t'], t))
        last = max(j for j, x in enumerate(log) if x['name'] in ('correct', 'solve', 'swe2d'))
        v.check('implicit vertical solves after the explicit ones', i > last)
    if o.use_implicit_vertical_diffusion:
        e = [x for x in log if x['name'] == 'mom_impl'][0]
        ck.same('implicit momentum solve starts from the full velocity', [e['st']['uv_3d'][0]], [uv2])
        total = [sim.W.apply('mom_impl_%d' % i, e['st']['uv_3d'] + [sim.z]) for i in range(2)]
        ck.same('implicit momentum result kept', [a + b for a, b in zip(end['uv_3d'], end['uv_dav_3d'])], total)
    if o.use_turbulence:
        v.check('turbulence closure updated once per step', names.count('turb_pre') == 1 and names.count('turb_post') == 1)
        a, b = names.index('turb_pre'), names.index('turb_post')
        v.check('turbulence update brackets its equations', a < b and all(a < names.index(k) < b for k in ('psi_impl', 'tke_impl') if k in names))
        if 'psi_impl' in names:
            v.check('length-scale variable before turbulent energy', names.index('psi_impl') < names.index('tke_impl'))
        last = max(j for j, x in enumerate(log) if x['name'] in ('correct', 'solve', 'swe2d'))
        v.check('turbulence closure after the explicit solves', a > last)
    if not o.use_turbulence:
        v.check('no closure update without turbulence', 'turb_pre' not in names and 'turb_post' not in names)
    if o.use_smagorinsky_viscosity:
        ck.same('eddy viscosity follows the final velocity', end['smag'], [sim.W.apply('smag_0', end['uv_3d'] + end['z'])])


def final_state(sim, end):
    o, ck = sim.o, Checker(sim)
    ck.same('end of step: depth-averaged velocity in 3D is the 2D one', end['uv_dav_3d'], end['uv_2d'] + [0])
    if not o.use_implicit_vertical_diffusion:
        ck.same('end of step: 3D velocity has no depth average', [end['uv_3d'][0]], [0])
    ck.same('end of step: 3D elevation is the 2D one', end['elev_domain_2d'], end['elev_2d'])
    if o.use_ale_moving_mesh:
        ck.same('end of step: mesh follows the elevation', end['z'], end['elev_2d'])
        ck.same('end of step: element height follows the mesh', end['v_elem_size_2d'], [sim.W.apply('dz_0', end['z'])])
    ck.same('end of step: vertical velocity belongs to the final velocity and mesh', end['w_3d'], sim.w_of(end))
    if o.use_baroclinic_formulation:
        ck.same('end of step: pressure gradient belongs to the final density and mesh', end['int_pg_3d'], sim.pg_of(end))


T3 = ['thetis.coupled_timeintegrator:CoupledTimeIntegratorBase.' + m for m in (
    '__init__', '_update_3d_elevation', '_update_vertical_velocity', '_update_moving_mesh', '_update_2d_coupling', '_remove_depth_average_from_uv_3d',
    '_copy_uv_2d_to_3d', '_update_2d_coupling_term', '_update_baroclinicity', '_update_turbulence', '_update_stabilization_params')] + \
    ['thetis.coupled_timeintegrator:CoupledTimeIntegrator.' + m for m in ('__init__', 'initialize')] + \
    ['thetis.utility3d:ALEMeshUpdater.' + m for m in ('compute_mesh_velocity_begin', 'compute_mesh_velocity_finalize', 'update_mesh_coordinates',
                                                     'update_elem_height')] + ['thetis.utility:compute_baroclinic_head']


def all_dependencies(v, couple, diff):
    """after the full update (at the start of a simulation the state is whatever the user assigned) every dependent field belongs to the
    prognostic ones, and the parts that were not asked for are untouched"""
    Sim3.Expl = lambda self, n, c: ExplRK(self, n, c)
    sim = Sim3(v, ct3.CoupledTwoStageRK, lim_tracer=False, lim_uv=False)
    o, F, ck, log = sim.o, sim.f, Checker(sim), sim.log
    for k in ('elev_domain_2d', 'uv_3d', 'uv_dav_3d'):
        F[k].val = [v.real('%s_user%d' % (k, i)) for i in range(len(F[k].val))]
    sim.z = v.real('z_user')
    F.z_coord_3d.val = [sim.z]
    sim.c._initialized = True
    a = sim.state()
    t = v.real('t')
    ale, stab, turb = (v.flag(k) for k in ('ale_update', 'stab', 'turb_update'))
    sim.c._update_all_dependencies(t, do_2d_coupling=couple, do_vert_diffusion=diff, do_ale_update=ale, do_stab_params=stab, do_turbulence=turb)
    b = sim.state()
    implicit = diff and o.use_implicit_vertical_diffusion
    ck.same('2D state untouched', b['uv_2d'] + b['elev_2d'], a['uv_2d'] + a['elev_2d'])
    ck.same('3D elevation is the 2D one', b['elev_domain_2d'], a['elev_2d'])
    if ale and o.use_ale_moving_mesh:
        ck.same('mesh follows the elevation', b['z'], a['elev_2d'])
        ck.same('element height follows the mesh', b['v_elem_size_2d'], [sim.W.apply('dz_0', b['z'])])
    else:
        ck.same('mesh not moved', b['z'], a['z'])
    if couple:
        ck.same('depth-averaged velocity in 3D is the 2D one', b['uv_dav_3d'], a['uv_2d'] + [0])
    if couple and not implicit:
        ck.same('3D velocity has no depth average', [b['uv_3d'][0]], [0])
    if not couple and not implicit:
        ck.same('velocity untouched', b['uv_3d'] + b['uv_dav_3d'], a['uv_3d'] + a['uv_dav_3d'])
    if not implicit:
        ck.same('vertical velocity belongs to the velocity and mesh', b['w_3d'], sim.w_of(b))
        ck.same('tracers untouched', b['salt_3d'] + b['temp_3d'], a['salt_3d'] + a['temp_3d'])
        if o.use_baroclinic_formulation:
            ck.same('pressure gradient belongs to the density and mesh', b['int_pg_3d'], sim.pg_of(b))
    if not o.use_baroclinic_formulation:
        ck.same('no pressure gradient without the baroclinic option', b['int_pg_3d'], a['int_pg_3d'])
    names = [e['name'] for e in log]
    closure = turb and o.use_turbulence
    gls = sim.turb.startswith('gls')
    want = (['turb_pre'] + (['psi_impl', 'tke_impl'] if gls else []) + ['turb_post'] if closure else [])
    v.check('closure updated when asked, length-scale variable first', [n for n in names if n in ('turb_pre', 'psi_impl', 'tke_impl', 'turb_post')] == want)
    want = ['mom_impl'] + ['salt_impl'] * bool(o.solve_salinity) + ['temp_impl'] * bool(o.solve_temperature) if implicit else []
    v.check('vertical diffusion of every solved field once, when asked', sorted(n for n in names if n in ('mom_impl', 'salt_impl', 'temp_impl')) == sorted(want))
    v.check('solves are at the current time', v.all(v.eq(e['t'], t) for e in log if e['name'].endswith('_impl')))
    v.check('no other solves', not [n for n in names if n in ('swe2d', 'predict', 'correct', 'solve', 'prepare', 'limit', 'limit_uv', 'init')])
    if stab and o.use_smagorinsky_viscosity:
        ck.same('eddy viscosity follows the velocity', b['smag'], [sim.W.apply('smag_0', b['uv_3d'] + b['z'])])
    else:
        ck.same('eddy viscosity untouched', b['smag'], a['smag'])
    v.cover()


for _c, _d in itertools.product((False, True), repeat=2):
    contract('C13', ['thetis.coupled_timeintegrator:CoupledTimeIntegratorBase.' + m for m in (
        '_update_all_dependencies', '_update_3d_elevation', '_update_moving_mesh', '_update_2d_coupling', '_update_vertical_velocity', '_update_baroclinicity',
        '_update_turbulence', '_update_stabilization_params')], name='all_dependencies[%s,%s]' % (_c, _d))(
        lambda v, _c=_c, _d=_d: all_dependencies(v, _c, _d))


def forcing(v):
    """user forcing hooks: recorded with the times they are called with"""
    calls = []
    f3 = v.choice('forcing3d', [None, 'yes'])
    return calls, (None if f3 is None else calls.append)


def start(v, cls, Expl):
    Sim3.Expl = lambda self, n, c: Expl(self, n, c)
    Sim3.gamma = v.real('gamma')
    sim = Sim3(v, cls)
    done = v.flag('initialised')
    sim.c._initialized = done
    return sim, done


def leapfrog(v, ):
    sim, done = start(v, ct3.CoupledLeapFrogAM3, ExplLF)
    o, F, ck = sim.o, sim.f, Checker(sim)
    t = v.real('t')
    f2 = lambda t: None
    calls, f3 = forcing(v)
    st0 = sim.state()
    sim.c.advance(t, f2, f3)
    initialisation(sim, done)
    log, end = sim.log, sim.state()
    names = [e['name'] for e in log]
    if f3 is not None:
        v.check('3D forcing updated in the step, at times of the step', len(calls) > 0 and v.all(v.le(t, x) and v.le(x, t + sim.dt) for x in calls))
    for ph in ('predict', 'eval', 'correct'):
        v.check('%s of every explicit sub-model exactly once' % ph, sorted(e['who'] for e in log if e['name'] == ph) == sorted(sim.expl))
    v.check('2D mode advanced exactly once', names.count('swe2d') == 1)
    sw = log[names.index('swe2d')]
    v.check('2D mode advanced over the current step with the user forcing', sw['tag'] == 'all' and v.eq(sw['t'], t) and sw['f'] is f2)
    v.check('prediction, 2D mode, evaluation, correction in this order',
            [n for n in names if n in ('predict', 'swe2d', 'eval', 'correct')]
            == ['predict'] * len(sim.expl) + ['swe2d'] + ['eval'] * len(sim.expl) + ['correct'] * len(sim.expl))
    limits(sim, ('predict', 'correct'))
    for e in log:
        st = e['st']
        if e['name'] == 'predict':
            for k in READS:
                if e['who'] == 'mom' and k == 'uv_3d':
                    continue
                if k == 'w_mesh_3d':
                    if o.use_ale_moving_mesh:
                        ck.same('prediction in a fixed domain', st[k], [0])
                else:
                    ck.same('prediction uses the state of the start of the step', st[k], st0[k])
            ck.same('prediction starts from the start of the step', st[CELL[e['who']]], st0[CELL[e['who']]])
            ck.same('prediction on the mesh of the start of the step', st['z'], st0['z'])
    # 2D mode is forced with the depth average of the predicted velocity
    pred = [e for e in log if e['name'] == 'predict' and e['who'] == 'mom'][0]
    U = [sim.W.apply('mom_p_%d' % i, _rhs(pred, o)) for i in range(2)]
    if o.use_limiter_for_velocity:
        U = [sim.W.apply('limuv_%d' % i, U) for i in range(2)]
    ck.same('2D mode forced by the tendency of the 3D depth average', [sw['st']['split_residual_2d'][0] * sim.dt], [U[0]])
    a = sw['st']['uv_2d'] + sw['st']['elev_2d'] + sw['st']['split_residual_2d']
    unew, enew = sim.W.apply('swe_u', a), sim.W.apply('swe_e', a)
    uold, eold = st0['uv_2d'][0], st0['elev_2d'][0]
    ck.same('2D mode starts from the state of the start of the step', sw['st']['uv_2d'] + sw['st']['elev_2d'], [uold, eold])
    g = Sim3.gamma
    half = core._frac(0.5) if v.symbolic else 0.5
    mid = lambda new, old: (half + 2 * g) * new + (half - 2 * g) * old
    for e in log:
        st = e['st']
        if e['name'] == 'eval':
            ck.stale('evaluation at the half step', st, mid(unew, uold))
            ck.same('evaluation at the half step: elevation', st['elev_domain_2d'], [mid(enew, eold)])
            ck.same('evaluation on the mesh of the start of the step', st['z'], st0['z'])
            if o.use_ale_moving_mesh:
                ck.same('mesh velocity times step is the elevation change', [st['w_mesh_3d'][0] * sim.dt], [enew - eold])
        if e['name'] == 'correct':
            if o.use_ale_moving_mesh:
                ck.same('correction on the new mesh', st['z'], [enew])
            ck.same('correction with the new elevation', st['elev_domain_2d'], [enew])
    ck.same('2D solution after the step is that of the 2D mode', end['uv_2d'] + end['elev_2d'], [unew, enew])
    implicit_part(sim, t, end, unew)
    final_state(sim, end)
    v.cover()


def _rhs(e, o):
    st = e['st']
    a = list(st[CELL[e['who']]])
    for k in READS:
        a = a + st[k]
    return a + st['z']


def twostage(v):
    sim, done = start(v, ct3.CoupledTwoStageRK, ExplRK)
    o, F, ck = sim.o, sim.f, Checker(sim)
    t = v.real('t')
    f2 = lambda t: None
    f3 = v.choice('forcing3d', [None, lambda t: None])
    # the previous step left the diagnostics consistent
    sim.solve_w()
    if o.use_baroclinic_formulation:
        F.int_pg_3d.val = sim.pg_of(sim.state())
    st0 = sim.state()
    sim.c.advance(t, f2, f3)
    initialisation(sim, done)
    log, end = sim.log, sim.state()
    names = [e['name'] for e in log]
    n = len(sim.expl)
    v.check('every explicit sub-model prepared and solved once per stage, all prepared before any is solved',
            [x for x in names if x in ('swe2d', 'prepare', 'solve')] == (['swe2d'] + ['prepare'] * n + ['solve'] * n) * 2)
    for i in range(2):
        for ph in ('prepare', 'solve'):
            es = [e for e in log if e['name'] == ph and e['stage'] == i]
            v.check('%s: every explicit sub-model once per stage' % ph, sorted(e['who'] for e in es) == sorted(sim.expl))
            for e in es:
                if ph == 'prepare':
                    v.check('stage evaluated for the current step with the 3D user forcing', v.eq(e['t'], t) and e['f'] is f3)
    stages = [e for e in log if e['name'] == 'swe2d']
    v.check('2D mode: both stages once, in order, over the current step with the user forcing', [e['tag'] for e in stages] == [0, 1]
            and v.all(v.eq(e['t'], t) and e['f'] is f2 for e in stages))
    limits(sim, ('solve',))
    seq = [e for e in log if e['name'] in ('swe2d', 'prepare', 'solve')]
    elev = [st0['elev_2d'][0]]
    uv = [st0['uv_2d'][0]]
    for i in range(2):
        a = stages[i]['st']['uv_2d'] + stages[i]['st']['elev_2d'] + stages[i]['st']['split_residual_2d']
        uv.append(sim.W.apply('swe_u', a))
        elev.append(sim.W.apply('swe_e', a))
    for e in seq:
        st = e['st']
        if e['name'] == 'prepare':
            i = e['stage']
            ck.stale('stage evaluation', st, uv[i])
            if o.use_ale_moving_mesh:
                ck.same('stage evaluated on the old mesh', st['z'], [elev[i]])
                ck.same('stage evaluated with the old 3D elevation', st['elev_domain_2d'], [elev[i]])
                w = st['w_mesh_3d'][0] * sim.dt
                ck.same('mesh velocity times step is the elevation change of the stage', [w],
                        [elev[1] - elev[0] if i == 0 else 2 * elev[2] - elev[1] - elev[0]])
            first = [x for x in seq if x['name'] == 'prepare' and x['stage'] == i][0]['st']
            for k in READS + ('salt_3d', 'temp_3d', 'tke_3d', 'psi_3d', 'z'):
                ck.same('all sub-models see the same state in a stage', st[k], first[k])
        if e['name'] == 'solve':
            i = e['stage']
            ck.same('stage solved with the new 3D elevation', st['elev_domain_2d'], [elev[i + 1]])
            if o.use_ale_moving_mesh:
                ck.same('stage solved on the new mesh', st['z'], [elev[i + 1]])
    # tendency of the depth average passed to the 2D mode
    ms = [e for e in log if e['name'] == 'solve' and e['who'] == 'mom'][0]
    U = [sim.W.apply('mom_s0_%d' % i, ms['st']['uv_3d'] + ms['st']['z']) for i in range(2)]
    if o.use_limiter_for_velocity:
        U = [sim.W.apply('limuv_%d' % i, U) for i in range(2)]
    ck.same('2D mode of the next stage forced by the tendency of the 3D depth average',
            [stages[1]['st']['split_residual_2d'][0] * sim.dt], [U[0]])
    ck.same('2D solution after the step is that of the 2D mode', end['uv_2d'] + end['elev_2d'], [uv[2], elev[2]])
    implicit_part(sim, t, end, uv[2])
    final_state(sim, end)
    v.cover()


class Pick:
    """fixes the named choices of a run"""
    def __init__(self, v, **fixed):
        self.__dict__['v'], self.__dict__['fixed'] = v, fixed

    def __getattr__(self, k):
        return getattr(self.v, k)

    def flag(self, n):
        return self.fixed[n] if n in self.fixed else self.v.flag(n)

    def choice(self, n, opts):
        return self.fixed[n] if n in self.fixed else self.v.choice(n, opts)


for _ale, _imp, _bar in itertools.product((False, True), repeat=3):
    _nm = '%s_%s_%s' % ('ale' if _ale else 'fixed', 'impl' if _imp else 'expl', 'baroclinic' if _bar else 'barotropic')
    contract('C13', T3 + ['thetis.coupled_timeintegrator:CoupledLeapFrogAM3.' + m for m in ('__init__', 'advance')],
             name='leapfrog_' + _nm)(lambda v, a=_ale, i=_imp, b=_bar: leapfrog(Pick(v, ale=a, implicit=i, baroclinic=b)))
    contract('C13', T3 + ['thetis.coupled_timeintegrator:CoupledTwoStageRK.' + m for m in ('__init__', 'store_elevation', 'compute_mesh_velocity', 'advance')],
             name='twostage_' + _nm)(lambda v, a=_ale, i=_imp, b=_bar: twostage(Pick(v, ale=a, implicit=i, baroclinic=b)))


# ------------------------------------------------------------------------------------------------------------ wiring
class RecInteg:
    """time integrator class that records what it is created with"""
    n_stages, cfl_coeff, gamma = 2, 1.0, 1. / 12
    made = []

    def __init__(self, *a, **k):
        self.args = a + tuple(k.values())
        RecInteg.made.append(self)

    def set_dt(self, dt):
        pass

    # argument access: (equation[, momentum equation], solution, fields, dt, options, bnd)
    eq = property(lambda s: s.args[0])
    solution = property(lambda s: s.args[-5])
    fields = property(lambda s: s.args[-4])
    dt = property(lambda s: s.args[-3])
    options = property(lambda s: s.args[-2])
    bnd = property(lambda s: s.args[-1])


def maker(label):
    return type('R_' + label, (RecInteg,), dict(label=label))


def subject(v, who, st, eq, sol, fields, dt, opts, bnd):
    v.check('%s: created once' % who, st is not None)
    v.check('%s: own equation' % who, st.eq is eq)
    v.check('%s: own solution' % who, st.solution is sol)
    v.check('%s: time step' % who, st.dt == dt)
    v.check('%s: own solver options' % who, st.options is opts)
    v.check('%s: own boundary data' % who, st.bnd is bnd or (bnd == {} and st.bnd == {}))
    for k, x in fields.items():
        have = st.fields.get(k)
        v.check('%s: %s is what the user/solver provides' % (who, k), have is x, '%r' % (have,))
    v.check('%s: no other coefficients' % who, {k for k, x in st.fields.items() if x is not None} <= {k for k, x in fields.items() if x is not None},
            repr(sorted(set(k for k, x in st.fields.items() if x is not None) - set(fields))))


def quiet(v):
    import thetis.solver2d as s2
    import thetis.solver as s3
    import thetis.log as log
    for m in (s2, s3, ct2, ct3):
        if 'print_output' in m.__dict__:
            v.patch(m, 'print_output', lambda *a, **k: None)


@contract('C13', ['thetis.solver2d:FlowSolver2d.' + m for m in ('get_swe_timestepper', 'get_tracer_timestepper', 'get_sediment_timestepper', 'get_exner_timestepper',
          'get_fs_timestepper', 'create_timestepper')] + T2, name='wiring2d', samples=2)
def wiring2d(v):
    import firedrake as fd
    import thetis.solver2d as s2
    quiet(v)
    kind = v.choice('kind', ['flow', 'picard', 'tracers', 'mixed', 'suspended', 'bedload', 'nonhydrostatic'])
    m = fd.UnitSquareMesh(1, 1)
    b = fd.Function(fd.FunctionSpace(m, 'CG', 1)).assign(1.0)
    s = s2.FlowSolver2d(m, b)
    o = s.options
    o.no_exports = True
    C, vec = fd.Constant, lambda: fd.Constant((1.0, 2.0))
    drag = v.choice('drag', ['quadratic_drag_coefficient', 'manning_drag_coefficient', 'nikuradse_bed_roughness'])
    given = v.flag('given')
    if given:
        setattr(o, drag, C(0.01))
        o.linear_drag_coefficient, o.horizontal_viscosity, o.coriolis_frequency = C(.1), C(.2), C(.3)
        o.lax_friedrichs_velocity_scaling_factor, o.lax_friedrichs_tracer_scaling_factor = C(1.5), C(1.2)
        o.wind_stress, o.momentum_source_2d, o.volume_source_2d, o.atmospheric_pressure = vec(), vec(), C(.4), C(.5)
        o.tracer_advective_velocity_factor = C(.9)
    bf = dict(shallow_water={1: {'elev': C(0.)}}, sediment={2: {'value': C(1.)}}, tracer={})
    if kind == 'picard':
        o.element_family = 'dg-cg'
    o.timestep = 3.0
    o.swe_timestepper_type = 'PressureProjectionPicard' if kind == 'picard' else 'CrankNicolson'
    systems = []
    if kind in ('tracers', 'mixed'):
        kw = dict(source=C(.6), diffusivity=C(.7)) if given else {}
        systems = ['salt_2d', 'dye_2d']
        if kind == 'tracers':
            for l in systems:
                o.add_tracer_2d(l, l, l, **kw)
        else:
            o.add_tracer_system_2d(systems, systems, systems, **{l: dict(kw) for l in systems})
            systems = ['salt_2d,dye_2d']
        bf['salt_2d' if v.flag('long label') else 'salt'] = {1: {'value': C(0.)}}
        bf['salt_2d,dye_2d'] = {3: {'value': C(0.)}}
    sm = o.sediment_model_options
    if kind in ('suspended', 'bedload'):
        sm.solve_suspended_sediment, sm.solve_exner = kind == 'suspended', True
        sm.use_bedload = True
        sm.average_sediment_size, sm.bed_reference_height, sm.porosity = C(1e-4), C(1e-2), C(.4)
        sm.morphological_acceleration_factor, sm.morphological_viscosity = C(10.), C(1e-6)
        sm.horizontal_diffusivity = C(.15)
        o.nikuradse_bed_roughness = C(.01)
        if given:
            o.quadratic_drag_coefficient = o.manning_drag_coefficient = None
    if kind == 'nonhydrostatic':
        o.nh_model_options.solve_nonhydrostatic_pressure = True
        v.patch(s2, 'DepthIntegratedPoissonSolver', lambda *a, **k: AttrDict(args=a))
    s.bnd_functions = bf
    try:
        s.create_equations()
        for mod, names in ((s2.timeintegrator, ('CrankNicolson', 'PressureProjectionPicard', 'ForwardEuler', 'SteadyState')),
                           (s2.rungekutta, ('SSPRK33', 'BackwardEulerUForm', 'DIRK22UForm', 'DIRK33UForm')), (s2.implicitexplicit, ('IMEXLPUM2',))):
            for n in names:
                v.patch(mod, n, maker(n))
        RecInteg.made = []
        v.patch(type(s), 'compute_mesh_stats', lambda self: None)
        s.create_timestepper()
        f, made = s.fields, {}
        for x in RecInteg.made:
            v.check('every sub-stepper created once', id(x.eq) not in made)
            made[id(x.eq)] = x
        G = lambda eq: made.get(id(eq))
        uv, elev = f.solution_2d.subfunctions
        subject(v, 'flow', G(s.equations.sw), s.equations.sw, f.solution_2d, dict(
            linear_drag_coefficient=o.linear_drag_coefficient, quadratic_drag_coefficient=o.quadratic_drag_coefficient,
            manning_drag_coefficient=o.manning_drag_coefficient, nikuradse_bed_roughness=o.nikuradse_bed_roughness, viscosity_h=o.horizontal_viscosity,
            lax_friedrichs_velocity_scaling_factor=o.lax_friedrichs_velocity_scaling_factor, coriolis=o.coriolis_frequency, wind_stress=o.wind_stress,
            atmospheric_pressure=o.atmospheric_pressure, momentum_source=o.momentum_source_2d, volume_source=o.volume_source_2d),
            3.0, o.swe_timestepper_options, bf['shallow_water'])
        if kind == 'picard':
            x = G(s.equations.sw)
            v.check('pressure projection gets the momentum equation', x.args[1] is s.equations.mom)
        for sysn in systems:
            want = dict(elev_2d=elev, uv_2d=uv, lax_friedrichs_tracer_scaling_factor=o.lax_friedrichs_tracer_scaling_factor,
                        tracer_advective_velocity_factor=o.tracer_advective_velocity_factor)
            for l in sysn.split(','):
                want['diffusivity_h-' + l], want['source-' + l] = o.tracer[l].diffusivity, o.tracer[l].source
            bc = bf.get(sysn, bf.get(sysn[:-3], {}))
            subject(v, 'tracer', G(s.equations[sysn]), s.equations[sysn], f[sysn], want, 3.0, o.tracer_timestepper_options, bc)
        if kind == 'suspended':
            subject(v, 'sediment', G(s.equations.sediment), s.equations.sediment, f.sediment_2d, {
                'elev_2d': elev, 'uv_2d': uv, 'diffusivity_h-sediment_2d': sm.horizontal_diffusivity,
                'lax_friedrichs_tracer_scaling_factor': o.lax_friedrichs_tracer_scaling_factor,
                'tracer_advective_velocity_factor': s.sediment_model.get_advective_velocity_correction_factor()}, 3.0, sm.sediment_timestepper_options, bf['sediment'])
        if kind in ('suspended', 'bedload'):
            x = G(s.equations.exner)
            subject(v, 'bed', x, s.equations.exner, f.bathymetry_2d, dict(elev_2d=elev, sediment=f.sediment_2d,
                    morfac=sm.morphological_acceleration_factor, porosity=sm.porosity), 3.0, sm.exner_timestepper_options, bf['shallow_water'])
        if kind == 'nonhydrostatic':
            subject(v, 'free surface', G(s.equations.fs), s.equations.fs, f.elev_2d, dict(uv=f.uv_2d, volume_source=o.volume_source_2d), 3.0,
                    o.nh_model_options.free_surface_timestepper_options, bf['shallow_water'])
        v.check('time integrator is the one asked for', type(G(s.equations.sw)).label == o.swe_timestepper_type)
        v.check('nothing else created', len(made) == 1 + len(systems) + {'suspended': 2, 'bedload': 1, 'nonhydrostatic': 1}.get(kind, 0))
        v.cover()
    finally:
        from thetis.field_defs import field_metadata
        for l in ('salt_2d', 'dye_2d'):
            field_metadata.pop(l, None)


def wiring3d(v, cls, impl, turb):
    import firedrake as fd
    import thetis.solver as s3
    import thetis.turbulence as tb
    quiet(v)
    m = fd.UnitSquareMesh(1, 1)
    b = fd.Function(fd.FunctionSpace(m, 'CG', 1)).assign(1.0)
    s = s3.FlowSolver(m, b, 1)
    o = s.options
    o.no_exports = True
    C = fd.Constant
    given = v.flag('given')
    salt, temp = v.choice('tracers', [(True, True), (True, False), (False, True)])
    o.solve_salinity, o.solve_temperature = salt, temp
    o.use_baroclinic_formulation = v.flag('baroclinic')
    o.use_implicit_vertical_diffusion = impl
    o.use_turbulence = turb != 'none'
    o.use_ale_moving_mesh = v.flag('ale')
    if turb != 'none':
        o.turbulence_model_type = 'gls' if turb.startswith('gls') else turb
        o.use_turbulence_advection = turb == 'gls_adv'
    if given:
        o.linear_drag_coefficient, o.quadratic_drag_coefficient, o.bottom_roughness = C(.1), C(.2), C(.01)
        o.horizontal_viscosity, o.vertical_viscosity, o.horizontal_diffusivity, o.vertical_diffusivity = C(.3), C(.4), C(.5), C(.6)
        o.momentum_source_2d, o.momentum_source_3d, o.volume_source_2d = C((1., 2.)), C((1., 2., 0.)), C(.7)
        o.salinity_source_3d, o.temperature_source_3d = C(.8), C(.9)
        o.atmospheric_pressure, o.coriolis_frequency, o.wind_stress = C(1.1), C(1.2), C((1., 2., 0.))
        o.lax_friedrichs_velocity_scaling_factor, o.lax_friedrichs_tracer_scaling_factor = C(1.5), C(1.6)
    bf = {k: {1: {k: C(0.)}} for k in ('shallow_water', 'momentum', 'salt', 'temp')}
    s.bnd_functions = bf
    s.create_equations()
    s.dt = 3.0
    for k, n in (('integrator_2d', 'two'), ('integrator_3d', 'expl'), ('integrator_vert_3d', 'impl')):
        v.patch(cls, k, maker(n))
    RecInteg.made = []
    c = cls(s)
    f, ts, eq = s.fields, c.timesteppers, s.equations
    v.check('every sub-stepper created once', len(RecInteg.made) == len(ts) and sorted(id(x) for x in RecInteg.made) == sorted(id(x) for x in ts.values()))
    for k, x in ts.items():
        v.check('kind of sub-stepper', x.label == ('two' if k == 'swe2d' else 'expl' if k.endswith('_expl') else 'impl'))
    so = o.timestepper_options

    class Same:
        """an expression with the given coefficients, all of them"""
        def __init__(self, *cs):
            self.cs = [x for x in cs if x is not None]

        def match(self, e):
            if not self.cs:
                return e is None
            from ufl.algorithms import extract_coefficients
            have = set()
            for x in fd_terminals(e):
                have.add(x)
            return e is not None and have == set(self.cs) and linear_sum(e, self.cs)
    view = lambda e: e.view_3d

    def sub(who, key, solname, eqn, fields, opts, bnd):
        st = ts.get(key)
        v.check('%s: created once' % who, st is not None)
        v.check('%s: own equation' % who, st.eq is eqn)
        v.check('%s: own solution' % who, st.solution is f[solname])
        v.check('%s: time step' % who, st.dt == 3.0)
        v.check('%s: own solver options' % who, st.options is opts)
        v.check('%s: own boundary data' % who, st.bnd is bnd or (bnd == {} and st.bnd == {}))
        for k, x in fields.items():
            have = st.fields.get(k)
            v.check('%s: %s is what the user/solver provides' % (who, k), x.match(have) if isinstance(x, Same) else have is x, '%r' % (have,))
        on = {k for k, x in st.fields.items() if x is not None}
        v.check('%s: no other coefficients' % who, on <= {k for k, x in fields.items() if not (x is None or isinstance(x, Same) and not x.cs)}, repr(sorted(on)))
    eddy_v, eddy_d = f.get('eddy_visc_3d'), f.get('eddy_diff_3d')
    visc_v, diff_v = Same(o.vertical_viscosity, eddy_v), Same(o.vertical_diffusivity, eddy_d)
    none = Same()
    sub('2D mode', 'swe2d', 'solution_2d', eq.sw, dict(
        coriolis=o.coriolis_frequency, momentum_source=Same(f.split_residual_2d, o.momentum_source_2d), volume_source=o.volume_source_2d,
        atmospheric_pressure=o.atmospheric_pressure), so.swe_options, bf['shallow_water'])
    fric = dict(linear_drag_coefficient=o.linear_drag_coefficient, quadratic_drag_coefficient=o.quadratic_drag_coefficient,
                wind_stress=f.get('wind_stress_3d'), bottom_roughness=o.bottom_roughness)
    mom = dict(eta=view(f.elev_domain_2d), int_pg=f.get('int_pg_3d'), uv_depth_av=f.uv_dav_3d, w=f.w_3d, w_mesh=f.get('w_mesh_3d'),
               viscosity_v=none if impl else visc_v, viscosity_h=Same(o.horizontal_viscosity), source=o.momentum_source_3d,
               lax_friedrichs_velocity_scaling_factor=o.lax_friedrichs_velocity_scaling_factor, coriolis=f.get('coriolis_3d'))
    sub('explicit momentum', 'mom_expl', 'uv_3d', eq.momentum, mom if impl else dict(mom, **fric), so.explicit_momentum_options, bf['momentum'])
    if impl:
        sub('implicit momentum', 'mom_impl', 'uv_3d', eq.vertmomentum, dict(fric, viscosity_v=visc_v), so.implicit_momentum_options, bf['momentum'])
    adv = dict(elev_3d=view(f.elev_domain_2d), uv_3d=f.uv_3d, uv_depth_av=f.uv_dav_3d, w=f.w_3d, w_mesh=f.get('w_mesh_3d'),
               lax_friedrichs_tracer_scaling_factor=o.lax_friedrichs_tracer_scaling_factor)
    n = 2 + int(impl)
    for k, on, src in (('salt', salt, o.salinity_source_3d), ('temp', temp, o.temperature_source_3d)):
        if on:
            sub('explicit ' + k, k + '_expl', k + '_3d', eq[k], dict(adv, diffusivity_h=Same(o.horizontal_diffusivity),
                diffusivity_v=none if impl else diff_v, source=src), so.explicit_tracer_options, bf[k])
            n += 1
            if impl:
                sub('implicit ' + k, k + '_impl', k + '_3d', eq[k + '_vdff'], dict(elev_3d=view(f.elev_domain_2d), diffusivity_v=diff_v),
                    so.implicit_tracer_options, bf[k])
                n += 1
    if turb.startswith('gls'):
        g = s.turbulence_model
        for k in ('tke', 'psi'):
            sub('implicit ' + k, k + '_impl', k + '_3d', eq[k + '_diff'], dict(
                diffusivity_v=diff_v, viscosity_v=visc_v, k=f.tke_3d, epsilon=g.epsilon, shear_freq2=g.m2, buoy_freq2_neg=g.n2_neg,
                buoy_freq2_pos=g.n2_pos, bottom_roughness=o.bottom_roughness), so.implicit_tracer_options, {})
            n += 1
            if turb == 'gls_adv':
                sub('explicit ' + k, k + '_expl', k + '_3d', eq[k + '_adv'], adv, so.explicit_tracer_options, {})
                n += 1
    v.check('nothing else created', len(ts) == n)
    v.cover()


def fd_terminals(e):
    from ufl.corealg.traversal import unique_pre_traversal
    import ufl
    return [x for x in unique_pre_traversal(e) if isinstance(x, (ufl.core.terminal.Terminal,)) and not isinstance(x, (ufl.constantvalue.Zero, ufl.classes.MultiIndex))]


def linear_sum(e, cs):
    """e is the plain sum of cs"""
    import ufl
    left = list(cs)

    def go(x):
        if isinstance(x, ufl.classes.ComponentTensor):
            idx = x.ufl_operands[1].indices()
            return go_i(x.ufl_operands[0], idx)
        if isinstance(x, ufl.classes.Sum):
            return all(go(y) for y in x.ufl_operands)
        for i, c in enumerate(left):
            if x is c or x == c:
                del left[i]
                return True
        return False

    def go_i(x, idx):
        if isinstance(x, ufl.classes.Sum):
            return all(go_i(y, idx) for y in x.ufl_operands)
        if isinstance(x, ufl.classes.Indexed) and tuple(x.ufl_operands[1]) == tuple(idx):
            return go(x.ufl_operands[0])
        return False
    return go(e) and not left


for _cls, _impl in itertools.product((ct3.CoupledLeapFrogAM3, ct3.CoupledTwoStageRK), (True, False)):
    for _turb in (('none', 'pacanowski', 'gls', 'gls_adv') if _impl else ('none', 'pacanowski')):
        contract('C13', ['thetis.coupled_timeintegrator:CoupledTimeIntegrator.' + m for m in (
            '__init__', '_create_integrators', '_create_swe_integrator', '_create_mom_integrator', '_create_salt_integrator', '_create_temp_integrator',
            '_create_turb_integrator', '_get_vert_diffusivity_functions')], samples=1, budget=200,
            name='wiring3d_%s_%s_%s' % ('leapfrog' if _cls is ct3.CoupledLeapFrogAM3 else 'twostage', 'impl' if _impl else 'expl', _turb))(
                lambda v, c=_cls, i=_impl, t=_turb: wiring3d(v, c, i, t))
