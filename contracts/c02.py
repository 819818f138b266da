"""C02 restart bookkeeping."""
import datetime
import os
import h5py
import numpy
import firedrake as fd
import tempfile
from types import SimpleNamespace
import thetis.solver2d as s2
import thetis.solver as s3
import thetis.exporter as ex
import thetis.utility as ut
from pyvc.contract import contract
from pyvc import core, shim
from .common import OptView, raises
from . import c01

ASSUMPTIONS = [
    'ExportManager/HDF5Exporter replaced by recording stubs inside load_state (their own contract is C03); '
    'assign_initial_conditions, initialize and the 3D depth-average removal replaced by recording stubs',
    'time step and export interval positive',
]
_S = c01._S


def setup():
    c01._setup2()
    for m in (s2, s3):
        shim.install(m, ('int', 'float', 'isinstance', 'min', 'max', 'round'))


class Loader:
    def __init__(self, log, key, meta):
        self.log, self.key, self.meta = log, key, meta

    def load(self, i, f):
        self.log.append(('load', self.key, i, f))
        return dict(self.meta)


class Exp:
    def __init__(self):
        self.ix = []

    def set_next_export_ix(self, i):
        self.ix.append(i)


def same(v, a, b):
    return a is b or v.eq(a, b)


def run(v, kind):
    mod = s2 if kind == '2d' else s3
    real = _S[kind]
    s = type(real).__new__(type(real))
    s.__dict__.update(real.__dict__)
    T, dt = v.real('export_interval', pos=True), v.real('dt', pos=True)
    if not v.symbolic:
        v.assume(T / dt < 1e6 and dt > 1e-6)
        if v.values is None:
            dt = v.used['dt'] = v.rng.choice([0.5, 1.0, 4.0])
            T = v.used['export_interval'] = dt * v.rng.choice([1, 2, 2.5, 10])
    i_stored = v.int('i_stored', 0, 10**6)
    own = v.choice('dir', ['none', 'own', 'other'])
    give_t = v.choice('give_t', [False, True])
    give_it = v.choice('give_iteration', [False, True])
    give_ie = v.choice('give_i_export', [False, True])
    mt = v.choice('meta_time', ['present', 'none', 'absent'])
    md = v.choice('meta_date', ['absent', 'none', 'str', 'date'])
    tm = v.real('stored_time')
    d_new, d_old = datetime.datetime(2001, 2, 3, tzinfo=datetime.timezone.utc), datetime.datetime(1999, 1, 1, tzinfo=datetime.timezone.utc)
    meta = {}
    if mt != 'absent':
        meta['time'] = tm if mt == 'present' else None
    if md != 'absent':
        meta['initial_time_iso'] = {'none': None, 'str': d_new.isoformat(), 'date': d_new}[md]
    log = []
    opts = {}
    over = dict(simulation_export_time=T, output_directory='/own', simulation_initial_date=d_old)
    flags = {}
    fields = dict(uv_2d=object(), elev_2d=object())
    if kind == '3d':
        for f in ('solve_salinity', 'solve_temperature', 'use_turbulence'):
            flags[f] = over[f] = v.choice(f, [False, True])
        gls = flags['gls'] = v.choice('gls', [False, True]) if flags['use_turbulence'] else False
        fields['uv_3d'] = object()
        if flags['solve_salinity']:
            fields['salt_3d'] = object()
        if flags['solve_temperature']:
            fields['temp_3d'] = object()
        if gls:
            fields.update(tke_3d=object(), psi_3d=object())

    class Mgr:
        def __init__(self, outputdir, fields_to_export, functions, field_metadata, export_type='vtk', next_export_ix=0, verbose=False,
                     legacy_mode=False, **kw):
            log.append(('manager', outputdir, export_type, legacy_mode))
            self.exporters = {k: Loader(log, k, meta) for k in fields_to_export if k in functions}

    class F(dict):
        __getattr__ = dict.__getitem__
    s.__dict__.update(_initialized=True, fields=F(fields), options=OptView(real.options, **over), dt=dt,
                      exporters={'vtk': Exp(), 'hdf5': Exp()}, simulation_time=0, iteration=0, i_export=0, next_export_t=T,
                      timestepper=SimpleNamespace(_remove_depth_average_from_uv_3d=lambda: log.append(('remove_dav',))),
                      assign_initial_conditions=lambda **kw: log.append(('assign', kw)))
    v.patch(ex, 'ExportManager', Mgr)
    kw = {}
    t_arg, it_arg, ie_arg = v.real('t_arg'), v.int('iteration_arg', 0), v.int('i_export_arg', 0)
    legacy = v.choice('legacy', [False, True]) if kind == '2d' else False
    if legacy:
        kw['legacy_mode'] = True
    if own != 'none':
        kw['outputdir'] = '/own' if own == 'own' else '/elsewhere'
    if give_t:
        kw['t'] = t_arg
    if give_it:
        kw['iteration'] = it_arg
    if give_ie:
        kw['i_export'] = ie_arg
    s.load_state(i_stored, **kw)
    ie = ie_arg if give_ie else i_stored
    other = own == 'other'
    # state
    names = {e[1]: e for e in log if e[0] == 'load'}
    want = {'uv_2d', 'elev_2d'}
    if kind == '3d':
        want |= {'uv_3d'} | ({'salt_3d'} if flags['solve_salinity'] else set()) | ({'temp_3d'} if flags['solve_temperature'] else set()) \
            | ({'tke_3d', 'psi_3d'} if flags['gls'] else set())
    v.check('every state field of the run is loaded', want <= set(names))
    v.check('fields loaded from the requested index into the solver fields',
            v.all([v.eq(e[2], i_stored) for e in names.values()] + [names[k][3] is fields[k] for k in names]))
    mgrs = [e for e in log if e[0] == 'manager']
    v.check('read from the hdf5 folder of the requested directory', all(
        e[1] == os.path.join('/elsewhere' if other else '/own', 'hdf5') and e[2] == 'hdf5' and bool(e[3]) == legacy for e in mgrs) and len(mgrs) >= 1)
    order = [e[0] for e in log]
    v.check('initial conditions assigned once, after loading', order.count('assign') == 1 and order.index('assign') > max(
        i for i, e in enumerate(order) if e == 'load'))
    akw = [e for e in log if e[0] == 'assign'][0][1]
    table = dict(elev='elev_2d', uv='uv_2d', uv_2d='uv_2d', uv_3d='uv_3d', salt='salt_3d', temp='temp_3d', tke='tke_3d', psi='psi_3d')
    v.check('initial conditions are the loaded fields', all(x is None or x is fields.get(table.get(k)) for k, x in akw.items()))
    if kind == '3d':
        v.check('loaded 3D state is passed on', all(akw.get(k) is fields[table[k]] for k in akw if table[k] in want))
        i_uv = [i for i, e in enumerate(log) if e[:2] == ('load', 'uv_3d')][-1]
        v.check('depth average removed once from the loaded 3D velocity', order.count('remove_dav') == 1 and i_uv < order.index('remove_dav') < order.index('assign'))
    # counters
    v.check('export counter', v.eq(s.i_export, ie))
    v.check('next export due one interval after the loaded export', v.eq(s.next_export_t, (ie + 1) * T))
    itn = s.iteration
    if give_it:
        v.check('iteration counter as given', v.eq(itn, it_arg))
    else:
        v.check('iteration counter is the first step not before the export time',
                v.all([v.le(ie * T, itn * dt), v.lt((itn - 1) * dt, ie * T)]))
    if give_t:
        v.check('clock as given', same(v, s.simulation_time, t_arg))
    elif mt == 'present':
        v.check('clock restored from the stored time', same(v, s.simulation_time, tm))
    else:
        v.check('clock falls back to iteration times time step', s.simulation_time is not None and v.eq(s.simulation_time, itn * dt))
    if not give_t and md in ('str', 'date'):
        v.check('initial date restored', s.options.simulation_initial_date == d_new)
    if md in ('none', 'absent'):
        v.check('initial date kept', s.options.simulation_initial_date == d_old)
    v.check('initial state re-exported exactly for another directory', s.export_initial_state == other)
    nxt = ie if other else ie + 1
    v.check('all exporters continue at the next index', v.all([len(e.ix) >= 1 and v.eq(e.ix[-1], nxt) for e in s.exporters.values()]))
    v.cover()


@contract('C02', 'thetis.solver2d:FlowSolver2d.load_state', setup=setup, samples=60)
def load_state_2d(v):
    run(v, '2d')


@contract('C02', 'thetis.solver:FlowSolver.load_state', setup=setup, samples=60, max_paths=6000, budget=200)
def load_state_3d(v):
    run(v, '3d')


@contract('C02', 'thetis.utility:read_mesh_from_checkpoint', kind='concrete', bounded='directories with 0, 1 and 3 checkpoint files, a file given directly, with and without mesh name')
def stored_mesh(v):
    """the mesh comes from the file given, or from one of the checkpoints of the output directory given; no checkpoint is an error"""
    opened = []

    class CP:
        def __init__(self, fn, mode, **k): opened.append((str(fn), mode, k))
        def __enter__(self): return self
        def __exit__(self, *a): return False
        def load_mesh(self, name=None, **k): return ('mesh', opened[-1][0], name)
    v.patch(ut, 'CheckpointFile', CP)
    for n in (0, 1, 3):
        with tempfile.TemporaryDirectory() as d:
            os.makedirs(os.path.join(d, 'hdf5'))
            open(os.path.join(d, 'hdf5', 'notes.txt'), 'w').close()
            open(os.path.join(d, 'other.h5'), 'w').close()
            fns = [os.path.join(d, 'hdf5', 'Elevation2d_%05d.h5' % i) for i in range(n)]
            for f in fns:
                open(f, 'w').close()
            for kw, name in (({}, 'firedrake_default'), ({'mesh_name': 'other'}, 'other')):
                ex_, m = raises(ut.read_mesh_from_checkpoint, d, **kw)
                if n == 0:
                    v.check('no checkpoint: refused', isinstance(ex_, IOError), repr(ex_))
                else:
                    v.check('mesh of a checkpoint of the directory', ex_ is None and m[0] == 'mesh' and m[1] in fns and m[2] == name, repr((ex_, m)))
                    ex_, m = raises(ut.read_mesh_from_checkpoint, fns[-1], **kw)
                    v.check('mesh of the file given', ex_ is None and m == ('mesh', fns[-1], name))
    v.check('only read', all(x[1] == 'r' for x in opened))


class Advance:
    """stands for the flow integrator: a step that depends on the state and on the time it starts from"""
    def __init__(self, s): self.s, self.t = s, []
    def initialize(self, *a): pass
    def advance(self, t, update_forcings=None):
        self.t.append(float(t))
        e, u = self.s.fields.elev_2d.dat, self.s.fields.uv_2d.dat
        e.data[:] = 1.01 * e.data_ro + .01 * t
        u.data[:] = u.data_ro + 1


def real_solver(mesh, d, dt, T, end):
    o = s2.FlowSolver2d(mesh, fd.Constant(10.))
    o.options.timestep, o.options.simulation_export_time, o.options.simulation_end_time = dt, T, end
    o.options.output_directory, o.options.log_output = d, False
    o.options.fields_to_export, o.options.fields_to_export_hdf5 = [], ['elev_2d', 'uv_2d']
    o.options.swe_timestepper_type = 'CrankNicolson'
    o.create_equations()
    o.create_timestepper()
    o.timestepper = Advance(o)
    return o


def stored(d):
    r = {}
    for f in sorted(os.listdir(os.path.join(d, 'hdf5'))):
        with h5py.File(os.path.join(d, 'hdf5', f), 'r') as h:
            a = {}
            h.visititems(lambda k, x: a.update({k: numpy.array(x)}) if isinstance(x, h5py.Dataset) and 'vecs' in k else None)
            r[f] = (a, os.stat(os.path.join(d, 'hdf5', f)).st_mtime_ns)
    return r


@contract('C02', ['thetis.solver2d:FlowSolver2d.load_state', 'thetis.solver2d:FlowSolver2d.create_iterator', 'thetis.utility:read_mesh_from_checkpoint',
                  'thetis.exporter:HDF5Exporter.load', 'thetis.exporter:HDF5Exporter.export'], kind='concrete',
          bounded='one 2D run of 9 steps on a small mesh, two step/export intervals, continued from the second checkpoint in the same and in another directory, real files')
def real_restart(v):
    """the continued run goes through the times and states of the uninterrupted one and writes the same files; loaded files are left alone"""
    v.patch(s2, 'print_output', lambda *a, **k: None)
    for dt, T in ((10., 20.), (10., 30.)):
        with tempfile.TemporaryDirectory() as d:
            mesh = fd.RectangleMesh(2, 2, 1, 1)
            x, y = fd.SpatialCoordinate(mesh)
            a = real_solver(mesh, d + '/a', dt, T, 9 * dt)
            a.assign_initial_conditions(elev=x + y, uv=fd.as_vector((1., 2.)))
            a.iterate()
            v.check('uninterrupted run', a.timestepper.t == [dt * k for k in range(9)], repr(a.timestepper.t))
            A = stored(d + '/a')
            last = int(9 * dt / T + 1e-6)
            names = ['%s_%05d.h5' % (n, k) for n in ('Elevation2d', 'Velocity2d') for k in range(last + 1)]
            v.check('one file per field and export', sorted(A) == sorted(names), repr(sorted(A)))
            for other in (True, False):
                b = real_solver(ut.read_mesh_from_checkpoint(d + '/a'), d + ('/b' if other else '/a'), dt, T, 9 * dt)
                b.load_state(2, outputdir=d + '/a')
                v.check('clock and counters', abs(b.simulation_time - 2 * T) < 1e-9 and b.iteration == round(2 * T / dt) and b.i_export == 2, repr((b.simulation_time, b.iteration, b.i_export)))
                b.iterate()
                v.check('same time line', numpy.allclose(b.timestepper.t, a.timestepper.t[round(2 * T / dt):]) and len(b.timestepper.t) == 9 - round(2 * T / dt), repr(b.timestepper.t))
                v.check('same final time and counters', abs(b.simulation_time - 9 * dt) < 1e-9 and b.iteration == 9 and b.i_export == a.i_export)
                v.check('same final state', numpy.allclose(numpy.sort(b.fields.elev_2d.dat.data_ro), numpy.sort(a.fields.elev_2d.dat.data_ro), rtol=1e-12)
                        and numpy.allclose(numpy.sort(b.fields.uv_2d.dat.data_ro, axis=None), numpy.sort(a.fields.uv_2d.dat.data_ro, axis=None), rtol=1e-12))
                B = stored(b.options.output_directory)
                want = [n for n in names if int(n[-8:-3]) >= 2] if other else names
                v.check('files of the continued run', sorted(B) == sorted(want), repr(sorted(B)))
                v.check('same contents', all(k in A and set(B[k][0]) == set(A[k][0]) and all(numpy.allclose(numpy.sort(B[k][0][q], axis=None), numpy.sort(A[k][0][q], axis=None)) for q in A[k][0]) and A[k][0] for k in B))
                if not other:
                    v.check('the checkpoints before are not rewritten', all(B[k][1] == A[k][1] for k in B if int(k[-8:-3]) <= 2))
                    v.check('the later ones are', all(B[k][1] != A[k][1] for k in B if int(k[-8:-3]) > 2))
