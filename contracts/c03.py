"""C03 exporters."""
import datetime
import itertools
import os
import tempfile
from collections import OrderedDict
from firedrake import UnitSquareMesh, ExtrudedMesh, FunctionSpace, Function, VectorFunctionSpace, TensorFunctionSpace
import thetis.exporter as ex
import thetis.optimisation as opt
from thetis import field_defs
import thetis.solver2d as s2
import thetis.solver as s3
from pyvc.contract import contract
from pyvc import core
from .common import OptView, raises
from . import c01

ASSUMPTIONS = [
    'the file formats (CheckpointFile, DumbCheckpoint, VTKFile of Firedrake) are replaced by an in-memory store keyed by path '
    'that returns what was written; os.makedirs is not executed',
    'Python integer formatting is injective on export indices (standard library)',
]
_S = {}


def setup():
    c01._setup2()
    _S.update(c01._S)
    m = UnitSquareMesh(1, 1)
    m.sfXC = None
    _S['fs'] = FunctionSpace(m, 'DG', 1)
    _S['cg'] = FunctionSpace(m, 'CG', 1)
    _S['vec'] = VectorFunctionSpace(m, 'DG', 1)
    _S['f'] = Function(_S['fs'], name='f')


class Fld:
    """a field: name, space and an abstract value"""
    def __init__(self, fs, name, value):
        self.fs, self._name, self.value = fs, name, value
        self.comm = fs.mesh().comm

    def function_space(self): return self.fs
    def name(self): return self._name
    def assign(self, g): self.value = g.value
    def rename(self, name): self._name = name


class FS:
    def __init__(self):
        self.files = {}
        self.reads, self.writes = [], []


def checkpoint(fs, legacy):
    class CP:
        def __init__(self, filename, mode=None, comm=None, **kw):
            self.fn, self.mode = filename, mode
            if mode in ('w', 'FILE_CREATE'):
                fs.files[filename] = dict(attrs={}, functions={}, mesh=None)
                fs.writes.append(filename)
            else:
                fs.reads.append(filename)
                if filename not in fs.files:
                    raise OSError('no such file ' + filename)

        def __enter__(self): return self
        def __exit__(self, *a): return False
        def save_mesh(self, m): fs.files[self.fn]['mesh'] = m
        def set_attr(self, path, k, val): fs.files[self.fn]['attrs'][k] = val

        def get_attr(self, path, k):
            return fs.files[self.fn]['attrs'][k]

        def has_attr(self, path, k):
            return k in fs.files[self.fn]['attrs']

        def save_function(self, f, **kw): fs.files[self.fn]['functions'][kw.get('name') or f.name()] = f.value
        store = save_function
        def load_mesh(self, *a, **k): return fs.files[self.fn]['mesh']

        def load_function(self, mesh, name, **kw):
            return Fld(_S['fs'], name, fs.files[self.fn]['functions'][name])

        def load(self, f, **kw):
            f.value = fs.files[self.fn]['functions'][kw.get('name') or f.name()]
    return CP


def install(v):
    fs = FS()
    v.patch(ex, 'CheckpointFile', checkpoint(fs, False))
    v.patch(ex, 'DumbCheckpoint', checkpoint(fs, True))
    v.patch(ex, 'FILE_CREATE', 'FILE_CREATE')
    v.patch(ex, 'FILE_READ', 'FILE_READ')
    v.patch(ex, 'create_directory', lambda p, *a, **k: p)
    if v.symbolic:
        from pyvc import shim
        shim.install(ex, ('float', 'int', 'isinstance'))
    return fs


@contract('C03', ['thetis.exporter:HDF5Exporter.export', 'thetis.exporter:HDF5Exporter.export_as_index', 'thetis.exporter:HDF5Exporter.load',
                  'thetis.exporter:HDF5Exporter.gen_filename', 'thetis.exporter:ExporterBase.set_next_export_ix', 'thetis.exporter:HDF5Exporter.__init__'],
          setup=setup, samples=30)
def hdf5_roundtrip(v):
    fs = install(v)
    legacy = v.choice('legacy', [False, True])
    inc = v.choice('include_time', [False, True])
    date = v.choice('date', [None, datetime.datetime(2011, 5, 6, 7, 8, tzinfo=datetime.timezone.utc)])
    i0 = v.int('index', 0, 99999999)
    prefix = v.choice('prefix', ['Elev2d', 'hdf5_x_00001'])
    how = v.choice('how', ['constructor', 'set_next', 'as_index'])
    e = ex.HDF5Exporter(_S['fs'], '/out/hdf5', prefix, next_export_ix=i0 if how == 'constructor' else 0, legacy_mode=legacy,
                        include_time=inc, initial_time=date)
    if how == 'set_next':
        e.set_next_export_ix(i0)
    v1, v2, v3, t1, t2 = (v.real(n) for n in ('val1', 'val2', 'val3', 't1', 't2'))
    f = Fld(_S['fs'], 'field', v1)
    if how == 'as_index':
        e.export_as_index(i0, f, time=t1)
    else:
        e.export(f, time=t1)

    def path(i):
        return '/out/hdf5/' + '{0:s}_{1:05d}'.format(prefix, i) + ('' if legacy else '.h5')
    v.check('first export goes to the set index', fs.writes == [path(i0)])
    v.check('index advances by one', v.eq(e.next_export_ix, i0 + 1))
    f.value = v2
    e.export(f, time=t2)
    v.check('second export goes to the next index', fs.writes == [path(i0), path(i0 + 1)])
    v.check('index advanced by two', v.eq(e.next_export_ix, i0 + 2))
    # read back with an independent exporter and with the same one, in both orders
    r = e if v.choice('reader', ['same', 'new']) == 'same' else ex.HDF5Exporter(_S['fs'], '/out/hdf5', prefix, legacy_mode=legacy)
    g = Fld(_S['fs'], 'field', v3)
    m1 = r.load(i0 + 1, g)
    v.check('load returns what that export stored (2)', v.eq(g.value, v2))
    m0 = r.load(i0, g)
    v.check('load returns what that export stored (1)', v.eq(g.value, v1))
    v.check('exactly the requested files were read', fs.reads == [path(i0 + 1), path(i0)])
    v.check('loading does not move the index', v.eq(e.next_export_ix, i0 + 2))
    if not legacy:
        if inc:
            v.check('stored time comes back', v.all([m0['time'] is not None and v.eq(m0['time'], t1), m1['time'] is not None and v.eq(m1['time'], t2)]))
            d = m0.get('initial_time_iso')
            v.check('stored initial date comes back', d == date)
        else:
            v.check('no time stored', m0.get('time') is None)
    exc, _ = raises(r.load, i0 + 2, g)
    v.check('loading an index that was not exported fails', exc is not None)
    exc, _ = raises(e.export, Fld(_S['cg'], 'field', v1), time=t1)
    v.check('a field of another space is rejected', isinstance(exc, AssertionError))
    if inc and not legacy:
        exc, _ = raises(e.export, f)
        v.check('missing time is rejected', isinstance(exc, ValueError))
    v.cover()


class FakeVTK:
    log = None

    def __init__(self, path, *a, **k):
        self.path = path
        if not path.endswith('.pvd'):
            raise ValueError('Only output to PVD is supported')
        self.counter = itertools.count()
        FakeVTK.log.append(('open', path))

    def write(self, *fs, time=None):
        FakeVTK.log.append(('write', self.path, next(self.counter), time, [(f._name, f.value) for f in fs]))


@contract('C03', ['thetis.exporter:VTKExporter.__init__', 'thetis.exporter:VTKExporter.export', 'thetis.exporter:VTKExporter.set_next_export_ix'],
          setup=setup, samples=30)
def vtk_sequence(v):
    install(v)
    FakeVTK.log = log = []
    v.patch(ex, 'VTKFile', FakeVTK)

    class Op:
        def __init__(self, f, fs=None): self.f, self.fs = f, fs
        def project(self): return Fld(self.fs or _S['fs'], 'tmp', self.f.value)
        def assemble(self): return Fld(_S['fs'], 'tmp', self.f.value)
    v.patch(ex, 'Projector', Op)
    v.patch(ex, 'interpolate', lambda f, fs: f)
    v.patch(ex, 'get_interpolator', lambda f: Op(f))
    i0 = v.int('index', 0, 10**7)
    i1 = v.int('index2', 0, 10**7)
    name = v.choice('filename', ['Elev2d', 'Elev2d.pvd', 'E'])
    how = v.choice('how', ['constructor', 'set_next'])
    proj = v.choice('project', [False, True])
    e = ex.VTKExporter(_S['fs'], 'Elevation', '/out', name, next_export_ix=i0 if how == 'constructor' else 0, project_output=proj)
    if how == 'set_next':
        e.set_next_export_ix(i0)
    v1, v2, v3 = v.real('v1'), v.real('v2'), v.real('v3')
    f = Fld(_S['fs'], 'elev', v1)
    e.export(f)
    f.value = v2
    e.export(f)
    other = Fld(_S['fs'], 'elev2', v3)
    e.export(other)
    stem = name[:-4] if name.endswith('.pvd') else name
    opens = [x for x in log if x[0] == 'open']
    w = [x for x in log if x[0] == 'write']
    v.check('one collection file named after the prefix', len(opens) == 1 and os.path.basename(opens[0][1]) == stem + '.pvd' and opens[0][1].startswith('/out/'))
    v.check('three files written', len(w) == 3)
    v.check('file numbers follow the index', v.all([v.eq(x[2], i0 + k) for k, x in enumerate(w)]))
    v.check('time stamps follow the index', v.all([v.eq(x[3], i0 + k) for k, x in enumerate(w)]))
    v.check('current values are written', v.all([v.eq(w[0][4][0][1], v1), v.eq(w[1][4][0][1], v2), v.eq(w[2][4][0][1], v3)]))
    v.check('written under the field name', all(x[4][0][0] == 'Elevation' for x in w))
    v.check('index advanced', v.eq(e.next_export_ix, i0 + 3))
    e.set_next_export_ix(i1)
    e.export(f)
    w = [x for x in log if x[0] == 'write']
    v.check('continues from an index set later', v.all([v.eq(w[3][2], i1), v.eq(w[3][3], i1), v.eq(e.next_export_ix, i1 + 1)]))
    v.cover()


class RecExp:
    def __init__(self, log, key, hdf5):
        self.log, self.key, self.hdf5, self.ix = log, key, hdf5, None


@contract('C03', ['thetis.exporter:ExportManager.__init__', 'thetis.exporter:ExportManager.add_export', 'thetis.exporter:ExportManager.export',
                  'thetis.exporter:ExportManager.set_next_export_ix'], setup=setup, samples=20)
def export_manager(v):
    install(v)
    log = []

    class V_(ex.VTKExporter):
        def __init__(self, fs_visu, func_name, outputdir, filename, next_export_ix=0, **kw):
            self.fn, self.next_export_ix, self.dir, self.nm = filename, next_export_ix, outputdir, func_name
            self.outfile = FakeCounter()

        def export(self, function): log.append(('vtk', self.fn, function, None, self.next_export_ix))

        def set_next_export_ix(self, i): self.next_export_ix = i

    class H_(ex.HDF5Exporter):
        def __init__(self, fs, outputdir, filename, next_export_ix=0, legacy_mode=False, include_time=False, initial_time=None, **kw):
            self.fn, self.next_export_ix, self.inc, self.init, self.leg = filename, next_export_ix, include_time, initial_time, legacy_mode

        def export(self, function, time=None): log.append(('hdf5', self.fn, function, time, self.next_export_ix))

        def set_next_export_ix(self, i): self.next_export_ix = i

    class FakeCounter:
        counter = None
    v.patch(ex, 'VTKExporter', V_)
    v.patch(ex, 'HDF5Exporter', H_)
    t, i0, i1 = v.real('time'), v.int('index', 0), v.int('index2', 0)
    typ = v.choice('type', ['vtk', 'hdf5', 'HDF5'])
    sub = v.choice('subset', [['a', 'b', 'c'], ['b'], ['c', 'a'], [], ['a', 'missing', 'notfunc']])
    funcs = {k: Function(_S['fs'], name=k) for k in 'abcd'}
    funcs['notfunc'] = 3.0
    md = {k: dict(shortname='S' + k, filename='F' + k) for k in ('a', 'b', 'c', 'd', 'missing', 'notfunc')}
    pre = []
    kw = dict(include_time=True, initial_time='D') if v.choice('inc', [False, True]) else {}
    m = ex.ExportManager('/out', sub, funcs, md, export_type=typ, next_export_ix=i0, **kw)
    exp = [k for k in sub if k in 'abcd']
    v.check('one exporter per requested field', sorted(m.exporters) == sorted(exp))
    m.export(time=t)
    v.check('every requested field exported exactly once', sorted(x[1] for x in log) == sorted('F' + k for k in exp))
    v.check('each file gets its own field', all(x[2] is funcs[x[1][1:]] for x in log))
    v.check('exported at the manager index', v.all([v.eq(x[4], i0) for x in log]))
    if typ.lower() == 'hdf5':
        v.check('time is passed on', v.all([x[3] is not None and v.eq(x[3], t) for x in log]))
        v.check('time storage as configured', all(x.inc == bool(kw) and x.init == kw.get('initial_time') for x in m.exporters.values()))
    m.set_next_export_ix(i1)
    v.check('set_next_export_ix reaches every exporter', v.all([v.eq(x.next_export_ix, i1) for x in m.exporters.values()]))
    del log[:]
    m.add_export('d', funcs['d'], export_type=typ, next_export_ix=i0, shortname='x', filename='Fd', preproc_func=lambda: pre.append('d'))
    m.export(time=t)
    v.check('added field exported too, once', sorted(x[1] for x in log) == sorted('F' + k for k in exp + ['d']))
    v.check('pre-processing runs once before the export', pre == ['d'])
    exc, _ = raises(m.add_export, 'unknown', funcs['a'], export_type=typ)
    v.check('unknown field without names is rejected', isinstance(exc, AssertionError))
    m2 = ex.ExportManager('/out2', ['d'], funcs, md, export_type=typ)
    m2.export(time=t)
    v.check('managers are independent of each other', pre == ['d'])
    v.cover()


@contract('C03', 'thetis.exporter:get_visu_space', kind='concrete', bounded='scalar, vector and tensor fields of 7 spaces on a 2D and 5 on an extruded mesh')
def visualisation_space(v):
    """fields are written in a linear space of the same mesh, value shape and horizontal continuity"""
    m2 = UnitSquareMesh(1, 1)
    m3 = ExtrudedMesh(m2, 1)
    for mesh, fams in ((m2, (('CG', 1), ('CG', 2), ('DG', 0), ('DG', 1), ('DG', 2), ('RT', 1), ('BDM', 1))), (m3, (('CG', 1), ('CG', 2), ('DG', 0), ('DG', 1), ('DG', 2)))):
        for fam, deg in fams:
            made = [FunctionSpace(mesh, fam, deg)]
            if fam in ('CG', 'DG'):
                made += [VectorFunctionSpace(mesh, fam, deg), VectorFunctionSpace(mesh, fam, deg, dim=2), TensorFunctionSpace(mesh, fam, deg)]
            for fs in made:
                w = ex.get_visu_space(fs)
                d = w.ufl_element().degree()
                v.check('same mesh and value shape', w.mesh() is fs.mesh() and w.value_shape == fs.value_shape, repr(fs))
                v.check('linear', d == 1 or tuple(d) == (1, 1))
                n = w.finat_element.entity_dofs()
                v.check('continuous exactly for continuous fields', bool(n[0 if mesh is m2 else (0, 0)][0]) == (fam == 'CG'), repr(fs))


class Block:
    def __init__(self, saved): self.saved_output = saved


O = 'thetis.optimisation:'


@contract('C03', [O + 'UserExportManager.__init__', O + 'DeferredExportManager.__init__', O + 'DeferredExportManager.export',
                  O + 'UserExportOptimisationCallback.__init__', O + 'UserExportOptimisationCallback.callback',
                  O + 'ControlsExportOptimisationCallback.__init__', O + 'ControlsExportOptimisationCallback.callback',
                  O + 'DerivativesExportOptimisationCallback.__init__', O + 'DerivativesExportOptimisationCallback.callback',
                  O + 'OptimisationCallback.__call__', O + 'OptimisationCallbackList.callback'], setup=setup, samples=40,
          bounded='one to three functions, three calls', max_paths=6000)
def optimisation_exports(v):
    """exports of user functions, controls and derivatives: every call writes every function once, with the values handed to that call,
    to the file of its own name; the callback hands back what the optimiser gave it"""
    log = []

    class V_(ex.VTKExporter):
        def __init__(self, fs_visu, func_name, outputdir, filename, next_export_ix=0, **kw):
            self.fn, self.dir, self.nm = filename, outputdir, func_name

        def export(self, function): log.append((self.dir, self.fn, self.nm, float(function.dat.data_ro.flat[0]), float(function.dat.data_ro.flat[-1])))
    v.patch(ex, 'VTKExporter', V_)
    spaces = v.choice('functions', [('fs',), ('vec',), ('fs', 'cg'), ('vec', 'fs'), ('cg', 'vec', 'fs')])
    names = ['elev_2d', 'my control', 'uv_2d'][v.choice('first', [0, 1]):][:len(spaces)]
    names += ['other%d' % i for i in range(len(spaces) - len(names))]
    meta = field_defs.field_metadata
    fns = [Function(_S[s], name=n) for s, n in zip(spaces, names)]
    listed = len(fns) > 1 or v.choice('given as', ['list', 'single']) == 'list'
    arg = fns if listed else fns[0]
    given_dir = v.choice('directory from', ['string', 'solver'])
    where = '/out/x' if given_dir == 'string' else Block(None)
    if given_dir == 'solver':
        where.options = Block(None)
        where.options.output_directory = '/out/x'
    kw = {}
    own = v.choice('own', ['default', 'filenames', 'shortnames', 'both', 'prefix'])
    if own in ('filenames', 'both'):
        kw['filenames'] = ['file%d' % i for i in range(len(fns))]
    if own in ('shortnames', 'both'):
        kw['shortnames'] = ['short%d' % i for i in range(len(fns))]
    if own == 'prefix':
        kw['filename_prefix'] = 'pre_'
    kind = v.choice('callback', ['user', 'user callback', 'controls', 'derivatives'])
    pre = kw.get('filename_prefix', {'user': '', 'user callback': 'optimisation_', 'controls': 'control_', 'derivatives': 'derivative_'}[kind])
    short = [kw['shortnames'][i] if 'shortnames' in kw else meta[n]['shortname'] if n in meta else n for i, n in enumerate(names)]
    key = kw.get('shortnames', names)
    files = kw.get('filenames', [pre + (meta[k]['filename'] if k in meta else k) for k in key])
    derivs = [Function(f.function_space(), name='adjoint%d' % i) for i, f in enumerate(fns)]
    darg = derivs if listed else derivs[0]
    if kind == 'user':
        cb = opt.UserExportManager(where, fns, **kw)
    elif kind == 'user callback':
        cb = opt.UserExportOptimisationCallback(where, fns, **kw)
    elif kind == 'controls':
        cb = opt.ControlsExportOptimisationCallback(where, **kw)
    else:
        cb = opt.DerivativesExportOptimisationCallback(where, **kw)
    post = v.choice('arguments', [(7.0, darg, arg)] if kind == 'derivatives' else [(7.0, darg, arg), (7.0, arg), (arg,)])
    seq = opt.OptimisationCallbackList([cb, cb]) if v.flag('in a list') and kind != 'user' else None
    for call in range(3):
        for i, (f, g) in enumerate(zip(fns, derivs)):
            f.assign(10 * call + i + 1.0)
            g.assign(-10 * call - i - 1.0)
        del log[:]
        want = [10 * call + i + 1.0 for i in range(len(fns))]
        if kind == 'user':
            cb.export()
        else:
            if kind == 'user callback':
                # pyadjoint: the value of a function during a replay is that of its block variable
                blocks = [Block(Function(f.function_space(), name='saved').assign(100 * call + i)) for i, f in enumerate(fns)]
                for f, b in zip(fns, blocks):
                    f.block_variable = b
                want = [100.0 * call + i for i in range(len(fns))]
            if kind == 'derivatives':
                want = [-x for x in want]
            args = post
            r = (seq or cb)(*args)
            v.check('derivative or control handed back', r is (args[1] if len(args) > 1 else args[0]))
        n = 2 if seq is not None else 1
        exp = [('/out/x', a, b, c, c) for a, b, c in zip(files, short, want)] * n
        v.check('every function written once per call, under its name, with the values of that call', sorted(log) == sorted(exp), '%s %s' % (log, exp))
    if kind == 'derivatives':
        exc, _ = raises(cb, 7.0, darg)
        v.check('only usable after the gradient', isinstance(exc, TypeError))
    v.cover()


@contract('C03', ['thetis.solver2d:FlowSolver2d.export', 'thetis.solver:FlowSolver.export', 'thetis.solver2d:FlowSolver2d.create_exporters',
                  'thetis.solver:FlowSolver.create_exporters'], setup=setup, samples=20)
def solver_export(v):
    kind = v.choice('kind', ['2d', '3d'])
    mod = s2 if kind == '2d' else s3
    real = _S[kind]
    s = type(real).__new__(type(real))
    s.__dict__.update(real.__dict__)
    log = []
    t = v.real('time')
    uv, dav = v.real('uv'), v.real('dav')

    class F(dict):
        def __getattr__(self, k): return self[k]
        def __setattr__(self, k, x): self[k] = x
    fields = F(uv_3d=uv, uv_dav_3d=dav)

    class CB:
        def evaluate(self, mode=None, index=None, **k): log.append(('cb', mode))

    class E:
        def __init__(self, key, with_time): self.key, self.with_time = key, with_time
        def export(self, *a, **k):
            if not self.with_time and (a or k):
                raise TypeError('unexpected time')
            log.append((self.key, k.get('time', a[0] if a else None), fields['uv_3d']))
    old = v.choice('old_style', [False, True])
    s.__dict__.update(fields=fields, callbacks=CB(), exporters=OrderedDict(vtk=E('vtk', not old), hdf5=E('hdf5', True)), i_export=3)
    s.export(time=t)
    v.check('export diagnostics evaluated once', [x for x in log if x[0] == 'cb'] == [('cb', 'export')])
    ew = [x for x in log if x[0] != 'cb']
    v.check('each exporter exports once', sorted(x[0] for x in ew) == ['hdf5', 'vtk'])
    v.check('with the caller\'s time', v.all([(x[1] is None and old and x[0] == 'vtk') or v.eq(x[1], t) for x in ew if not (old and x[0] == 'vtk')]))
    if kind == '3d':
        v.check('total velocity is exported', v.all([v.eq(x[2], uv + dav) for x in ew]))
        v.check('velocity deviation restored after the export', v.eq(fields['uv_3d'], uv))
    # creation of the exporters
    made = []

    class M:
        def __init__(self, outputdir, fl, functions, md, **kw): made.append((outputdir, list(fl), kw))
    v.patch(ex, 'ExportManager', M)
    noexp = v.choice('no_exports', [False, True])
    s.__dict__.update(options=OptView(real.options, no_exports=noexp, output_directory='/o', fields_to_export=['uv_2d'],
                                      fields_to_export_hdf5=['elev_2d', 'uv_2d'], simulation_initial_date=None), timestepper=object(), fields=fields)
    s.create_exporters()
    if noexp:
        v.check('no exporters when exports are off', made == [] and len(s.exporters) == 0)
    else:
        d = {m[2]['export_type']: m for m in made}
        v.check('one VTK and one HDF5 group with their own fields and folder', len(made) == 2 and set(d) == {'vtk', 'hdf5'} and d['vtk'][0] == '/o'
                and d['vtk'][1] == ['uv_2d'] and d['hdf5'][0] == os.path.join('/o', 'hdf5') and d['hdf5'][1] == ['elev_2d', 'uv_2d'])
        v.check('stored state contains the time', bool(d['hdf5'][2].get('include_time')))
        v.check('both registered', len(s.exporters) == 2)
    v.cover()
