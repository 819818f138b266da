"""C22 diagnostics: evaluation windows, the record history on disk, conservation / extrema / time-integral values, sampling points."""
import datetime
import math
import os
import random
import tempfile
import types
import h5py
import numpy
from firedrake import *
import thetis
from thetis import callback as cb, utility as tu, solver as s3, solver2d as s2, optimisation as op, turbines as tb
from pyvc import core, uflsem, shim
from pyvc.contract import contract
from .swe import mesh2d
from .tracers import mesh3d
from .common import OptView, raises

shim.install(cb)
ASSUMPTIONS = [
    'an HDF5 dataset behaves as an array of records: resize keeps the records that remain, assignment changes the addressed record only '
    '(the same history is replayed on real files, bounded)',
    'rank 0 holds the file; allreduce(MIN / MAX) returns the extremum over all processes; assemble(form) is the integral of the form',
    'interpolation onto a vertex-only mesh and Function.at return the field values at the points in the order of the points (Firedrake)',
]
M = 'thetis.callback:'
H5, DC = M + 'DiagnosticHDF5.', M + 'DiagnosticCallback.'


# ---------------------------------------------------------------- records on disk

class DS:
    """ghost dataset: a symbolic number of records and the writes made to them"""
    def __init__(self, v, file, shape, maxshape, dtype):
        self.v, self.file, self.shape, self.maxshape, self.dtype = v, file, tuple(shape), maxshape, dtype
        self.attrs, self.writes, self.sizes = Attrs(file), [], []

    def resize(self, shape, axis=None):
        v = self.v
        if axis is not None:
            shape = tuple(shape if i == axis else n for i, n in enumerate(self.shape))
        shape = tuple(shape)
        v.check('only the number of records changes', len(shape) == len(self.shape) and shape[1:] == self.shape[1:])
        v.check('no record is dropped', v.le(self.shape[0], shape[0]))
        v.check('extensible', self.maxshape is not None and self.maxshape[0] is None)
        self.sizes.append(shape[0])
        self.shape = shape

    def __setitem__(self, k, val):
        v = self.v
        v.check('file open', self.file.open)
        ix = k
        if isinstance(k, tuple):
            ix = k[0]
            v.check('whole record', all(x == slice(None) or x is Ellipsis for x in k[1:]) and len(k) <= len(self.shape))
        v.check('record exists', v.all([v.le(0, ix), v.lt(ix, self.shape[0])]))
        self.writes.append((ix, val))


class Attrs(dict):
    def __init__(self, file):
        dict.__init__(self)
        self.file = file

    def __setitem__(self, k, val):
        self.file.attr_log.append(k)
        dict.__setitem__(self, k, val)

    def update(self, d):
        for k in d:
            self[k] = d[k]

    def create(self, k, val):
        self[k] = val


class GhostFile(dict):
    def __init__(self, v):
        dict.__init__(self)
        self.v, self.open, self.exists, self.attr_log = v, False, False, []
        self.attrs = Attrs(self)
        self.cleared = 0

    def __call__(self, name, mode):
        v = self.v
        v.check('one file', name == 'F')
        v.check('mode', mode in ('w', 'a', 'r+', 'r'))
        if mode == 'w':
            self.clear()
            dict.clear(self.attrs)
            self.cleared += 1
        elif mode in ('r', 'r+'):
            v.check('file to be read exists', self.exists)
        self.exists = self.open = True
        return self

    def __enter__(self): return self

    def __exit__(self, *a):
        self.open = False

    def close(self):
        self.open = False

    def create_dataset(self, name, shape, maxshape=None, dtype=None, **k):
        if name in self:
            raise ValueError('dataset exists')
        self[name] = DS(self.v, self, shape, maxshape, dtype)
        return self[name]


class OsPath:
    def __init__(self, f): self.f = f
    def exists(self, p): return self.f.exists
    isfile = exists
    def __getattr__(self, k): return getattr(os.path, k)


class Os:
    def __init__(self, f): self.path = OsPath(f)
    def __getattr__(self, k): return getattr(os, k)


class NP:
    """numpy with integers that may be symbolic"""
    def __getattr__(self, k): return getattr(numpy, k)


DIMS = {'scalar': (1, (1,)), 'vector': (3, (3,)), 'tuple': ((2, 3), (2, 3)), 'list': ([4], (4,))}


@contract('C22', [H5 + '__init__', H5 + 'export', H5 + '_expand', H5 + '_expand_array', H5 + '_nentries'], samples=60)
def records(v):
    """one evaluation = one record: (time, values of that call) at the first free record (no index), or at the position of its index relative
    to the first record of the file; no other record, no attribute changed; every dataset has the same number of records.
    The state before is the one left by the first export of the real code, with an arbitrary number of further records"""
    if not v.symbolic:
        return records_real(v)
    f = GhostFile(v)
    v.patch(cb, 'h5py', types.SimpleNamespace(File=f))
    v.patch(cb, 'os', Os(f))
    names, dim, at = v.choice('layout', ((['a'], 'scalar', 0), (['a', 'b'], 'vector', 1), (['zz', 'b', 'c'], 'tuple', 1), (['b', 'a'], 'list', 2)))
    dim, shape = DIMS[dim]
    wt = v.flag('time')
    attrs = {'k': 1} if at > 1 else None
    vat = {'time': {'units': 's'}, 'b': {'x': 3.0}} if at else None
    before, rank = v.choice('state', (('new', 0), ('append to nothing', 0), ('new over old', 0), ('new', 1), ('new over old', 1)))
    if before == 'new over old':
        f.exists = True
        f.create_dataset('a', (5, 1), (None, 1))
    make = lambda new: cb.DiagnosticHDF5('F', names, array_dim=dim, attrs=attrs, var_attrs=vat, comm=types.SimpleNamespace(rank=rank), new_file=new, dtype='d', include_time=wt)
    h = make(before != 'append to nothing')
    if rank:
        h.export([0.] * len(names), time=1.0, index=None)
        v.check('only rank 0 touches the file', f.cleared == 0 and not f.open and (before == 'new over old') == f.exists)
        return
    sets = names + ['time'] * wt
    v.check('datasets', sorted(f) == sorted(sets))
    v.check('closed', not f.open)
    v.check('empty, extensible, right record shape', all(f[n].shape == (0,) + (shape if n != 'time' else (1,)) and tuple(f[n].maxshape) == (None,) + f[n].shape[1:] for n in sets))
    v.check('attributes', (attrs is None or f.attrs['k'] == 1) and (vat is None or ((not wt or f['time'].attrs['units'] == 's') and ('b' not in names or f['b'].attrs['x'] == 3.0))))
    i0 = v.int('i0', lo=0) if v.flag('first with index') else None
    rec = [object() for _ in names]
    t0 = v.real('t0')
    if wt and v.flag('time missing'):
        v.check('time required', isinstance(raises(h.export, rec, index=i0)[0], AssertionError))
        return
    h.export(rec, time=t0, index=i0)
    for n in sets:
        d = f[n]
        v.check('first record', v.all([v.eq(d.shape[0], 1), len(d.writes) == 1, v.eq(d.writes[0][0], 0) if d.writes else False,
                                       (v.eq(d.writes[0][1], t0) if n == 'time' else d.writes[0][1] is rec[names.index(n)]) if d.writes else False]))
    # arbitrary later history
    n = v.int('n', lo=1)
    for d in sets:
        f[d].shape = (n,) + f[d].shape[1:]
        f[d].writes, f[d].sizes = [], []
    f.attr_log = []
    if v.flag('reopened'):
        h = make(False)
        v.check('appending keeps the file', f.cleared == (before != 'append to nothing') + (before == 'append to nothing') and sorted(f) == sorted(sets) and not f.attr_log)
    rec = [object() for _ in names]
    t = v.real('t')
    if v.flag('with index'):
        i = v.int('i', lo=0)
        first = 0 if i0 is None else i0
        ix = i - first
        ok = v.all([v.le(0, ix), v.le(ix, n)])
        ex, _ = raises(h.export, rec, time=t, index=i)
        if ex is not None:
            v.check('refused only beyond the records', v.all([isinstance(ex, AssertionError), v.not_(ok)]))
            v.check('nothing written when refused', all(not f[d].writes and not f[d].sizes for d in sets))
            return
        v.check('an index beyond the next free record is refused', ok)
        n2 = v.ite(v.eq(ix, n), n + 1, n)
    else:
        h.export(rec, time=t)
        ix, n2 = n, n + 1
    v.check('closed', not f.open)
    for d in sets:
        D = f[d]
        v.check('number of records', v.eq(D.shape[0], n2))
        v.check('exactly one record written', len(D.writes) == 1)
        if D.writes:
            v.check('the right record', v.eq(D.writes[0][0], ix))
            v.check('its own value', v.eq(D.writes[0][1], t) if d == 'time' else D.writes[0][1] is rec[names.index(d)])
    v.check('attributes untouched', not f.attr_log)
    v.cover()


def records_real(v):
    r = v.rng
    with tempfile.TemporaryDirectory() as tmp:
        p = os.path.join(tmp, 'F')
        names = r.choice((['a'], ['zz', 'b', 'c']))
        dim, shape = r.choice(list(DIMS.values()))
        wt = r.random() < .8
        comm = types.SimpleNamespace(rank=0)
        make = lambda new: cb.DiagnosticHDF5(p, names, array_dim=dim, comm=comm, new_file=new, include_time=wt)
        h = make(r.random() < .5)
        hist, first = [], None
        i0 = r.choice((0, 0, 7))
        idx = r.random() < .7
        for k in range(r.randint(1, 9)):
            if r.random() < .3:
                h = make(False)
            vals = [numpy.array([r.random() for _ in range(int(numpy.prod(shape)))]).reshape(shape) for _ in names]
            t = r.random()
            if idx:
                i = i0 + (r.randint(0, len(hist)) if r.random() < .3 else len(hist))
                h.export(vals, time=t, index=i)
                hist[i - i0:i - i0 + 1] = [(t, vals)]
            else:
                h.export(vals, time=t)
                hist.append((t, vals))
        with h5py.File(p, 'r') as f:
            v.check('records', all(f[n].shape == (len(hist),) + shape for n in names))
            for j, (t, vals) in enumerate(hist):
                v.check('history', all((f[n][j] == x).all() for n, x in zip(names, vals)) and (not wt or f['time'][j, 0] == t))


# ---------------------------------------------------------------- when and what

class Diag(cb.DiagnosticCallback):
    name = 'my diag'
    variable_names = ['p', 'q']

    def __call__(self):
        self.calls.append(1)
        return self.vals

    def message_str(self, *args):
        return ('msg', args)


def sol(v, **k):
    return types.SimpleNamespace(options=types.SimpleNamespace(output_directory='out', simulation_initial_date=None, timestep=1.0, **k.pop('options', {})), comm='comm', **k)


@contract('C22', [DC + '__init__', DC + 'evaluate', DC + 'push_to_log', DC + 'push_to_hdf5', DC + '_create_hdf5_file', DC + 'set_write_mode'], samples=40)
def window(v):
    """evaluated once if and only if start <= time <= end (each only if given); values of that call and the time go to log and file as asked;
    the file is opened once, created or continued as asked"""
    t = v.real('t', gen=lambda r: r.choice((-1., 0., 2.)))
    a = v.real('a', gen=lambda r: r.choice((0., 0., 2., -1.))) if v.flag('start') else None
    b = v.real('b', gen=lambda r: r.choice((0., 0., 2., -1.))) if v.flag('end') else None
    for nm, x in (('a', a), ('b', b)):
        if x is not None and v.flag('zero ' + nm):
            v.assume(v.eq(x, 0))
    h5, log, wt = v.flag('hdf5'), v.flag('log'), v.flag('with time')
    date, dire, mode, index = v.choice('case', ((None, 0, None, None), (1, 1, 'create', 4), (1, 0, 'append', None), (None, 1, 'append', 4)))
    date = date and datetime.datetime(2000, 1, 2, tzinfo=datetime.timezone.utc)
    o = sol(v, simulation_time=t)
    o.options.simulation_initial_date = date
    out, files, logged, dirs = [], [], [], []

    class File:
        def __init__(self, fname, names, **k):
            files.append((fname, names, k))

        def export(self, vals, time=None, index=None):
            out.append((vals, time, index))
    v.patch(cb, 'DiagnosticHDF5', File)
    v.patch(cb, 'print_output', lambda m, *k: logged.append(m))
    v.patch(cb, 'create_directory', lambda d, comm=None: dirs.append((d, comm)))
    kw = {}
    if dire:
        kw['outputdir'] = 'there'
    d = Diag(o, array_dim=7, export_to_hdf5=h5, append_to_log=log, include_time=wt, hdf5_dtype='f', start_time=a, end_time=b, **kw)
    d.calls, d.vals = [], ('P', 'Q')
    if mode:
        d.set_write_mode(mode)
    inside = v.all([True if a is None else v.le(a, t), True if b is None else v.le(t, b)])
    d.evaluate(index=index)
    n = len(d.calls)
    v.check('evaluated at most once', n <= 1)
    v.check('evaluated inside the window, only there', v.iff(inside, n == 1))
    v.check('log', logged == ([('msg', ('P', 'Q'))] if n and log else []))
    v.check('record', len(out) == (n if h5 else 0) and all(x[0] == ('P', 'Q') and x[2] == index for x in out))
    for x in out:
        v.check('time of the record', v.eq(x[1], t))
    if n and h5:
        (fname, names, k), = files
        v.check('file name', fname == os.path.join('there' if 'outputdir' in kw else 'out', 'diagnostic_my_diag.hdf5') and names == ['p', 'q'])
        v.check('directory exists', dirs == [(os.path.dirname(fname), 'comm')])
        v.check('created or continued', k['new_file'] == (mode != 'append'))
        v.check('layout', k['array_dim'] == 7 and k['dtype'] == 'f' and k['include_time'] == wt)
        stamp = date is not None and wt
        v.check('time origin', (k['var_attrs'].get('time') == ({'units': 'seconds since 2000-01-02T00:00:00+00:00'} if stamp else None))
                and (k['attrs'].get('simulation_initial_date') == ('2000-01-02T00:00:00+00:00' if stamp else None)))
        d.vals = ('P2', 'Q2')
        d.evaluate(index=index)
        v.check('file opened once', len(files) == 1 and len(out) == 2 and out[1][0] == ('P2', 'Q2'))
    else:
        v.check('no file unless a record is written', not files)
    v.cover()


@contract('C22', [M + 'CallbackManager.add', M + 'CallbackManager.evaluate', M + 'CallbackManager.__init__'], bounded='up to three callbacks per mode')
def manager(v):
    """evaluating a mode evaluates every diagnostic registered under it exactly once, with the given index, and no other"""
    m = cb.CallbackManager()
    names = v.choice('order', (('b', 'a', 'c'), ('a', 'b', 'c'), ('c', 'b', 'a'), ('a',), ()))
    index = v.choice('index', (None, 3))
    log = []

    def mk(n, tag):
        return types.SimpleNamespace(name=n, evaluate=lambda index=None: log.append((tag, n, index)))
    for n in names:
        m.add(mk(n, 'export'), 'export')
    for n in names[::-1]:
        m.add(mk(n, 'timestep'), 'timestep')
    twice = v.flag('same name again') and names
    if twice:
        m.add(mk(names[0], 'again'), 'export')
    which = v.choice('mode', ('export', 'timestep', 'other'))
    m.evaluate(which, index=index)
    tag = lambda n: 'again' if twice and n == names[0] and which == 'export' else which
    v.check('each once', sorted(log) == sorted((tag(n), n, index) for n in (names if which != 'other' else ())))
    v.check('order independent of registration', [x[1] for x in log] == sorted(x[1] for x in log))
    v.cover()


# ---------------------------------------------------------------- values

@contract('C22', [M + 'ScalarConservationCallback.__init__', M + 'ScalarConservationCallback.__call__'], tol=1e-9)
def conservation(v):
    """value and (value - value of the first evaluation) / value of the first evaluation, after any history"""
    if v.flag('zero at first'):
        vals = [numpy.float64(0.), numpy.float64(3.), numpy.float64(4.)]
        c = type('T', (cb.ScalarConservationCallback,), dict(name='t'))(lambda: vals.pop(0), sol(v))
        with numpy.errstate(all='ignore'):
            out = [c() for k in range(3)]
        v.check('value reported; a zero initial value stays the reference (difference undefined)', [x[0] for x in out] == [0., 3., 4.] and c.initial_value == 0 and not any(math.isfinite(x[1]) for x in out))
        return
    x0, x1 = v.real('x0'), v.real('x1')
    v.assume(x0 > 0 if v.flag('positive') else x0 < 0) if v.symbolic else None
    if not v.symbolic:
        v.assume(abs(x0) > 1e-3)
    cur = [x0]
    c = type('T', (cb.ScalarConservationCallback,), dict(name='t'))(lambda: cur[0], sol(v))
    val, rel = c()
    v.check('first evaluation: no difference', v.all([v.eq(val, x0), v.eq(rel, 0)]))
    cur[0] = x1
    for k in range(2):
        val, rel = c()
        v.check('value', v.eq(val, x1))
        v.check('relative difference', v.eq(rel * x0, x1 - x0))
        v.check('initial value kept', v.eq(c.initial_value, x0))
    v.cover()


@contract('C22', [M + 'MinMaxConservationCallback.__init__', M + 'MinMaxConservationCallback.__call__', M + 'TracerOvershootCallBack.__init__'])
def extrema(v):
    """global extrema of the field; overshoot and undershoot measured from the range of the first evaluation, never of the wrong sign"""
    ops = []

    def allreduce(x, op=None):
        lo = op == cb.MPI.MIN
        v.check('reduction', op in (cb.MPI.MIN, cb.MPI.MAX))
        k = len(ops)
        y = v.real('other%d' % k)
        ops.append((lo, x, y))
        return v.min(x, y) if lo else v.max(x, y)
    data = types.SimpleNamespace()
    mn, mx = [v.real('mn%d' % i) for i in range(2)], [v.real('mx%d' % i) for i in range(2)]
    cur = [0]
    data.min, data.max = (lambda: mn[cur[0]]), (lambda: mx[cur[0]])
    fld = types.SimpleNamespace(dat=types.SimpleNamespace(data=data, data_ro=data))
    o = sol(v)
    o.fields, o.comm = {'salt': fld}, types.SimpleNamespace(allreduce=allreduce)
    c = cb.TracerOvershootCallBack('salt', o)
    v.check('name', c.name == 'salt overshoot' and c.variable_names == ['min_value', 'max_value', 'undershoot', 'overshoot'])
    res = []
    for k in (0, 1):
        cur[0] = k
        n0 = len(ops)
        res.append(c())
        got = {lo: (x, y) for lo, x, y in ops[n0:]}
        v.check('both extrema over all processes', len(ops) == n0 + 2 and set(got) == {True, False})
        a, b = v.min(*got[True]), v.max(*got[False])
        v.check('of the data', v.all([v.eq(got[True][0], mn[k]), v.eq(got[False][0], mx[k])]))
        v.check('extrema', v.all([v.eq(res[k][0], a), v.eq(res[k][1], b)]))
        v.check('undershoot', v.eq(res[k][2], v.min(a - res[0][0], 0)))
        v.check('overshoot', v.eq(res[k][3], v.max(b - res[0][1], 0)))
    v.cover()


@contract('C22', [M + 'AccumulatorCallback.__init__', M + 'AccumulatorCallback.__call__', M + 'AccumulatorCallback.get_val'], tol=1e-9)
def accumulator(v):
    """trapezoidal rule over the steps since the first evaluation"""
    dt, x, y, I = v.real('dt', pos=True), v.real('x'), v.real('y'), v.real('I')
    cur = [x]
    o = sol(v)
    o.options.timestep = dt
    c = type('T', (cb.AccumulatorCallback,), dict(name='t'))(lambda: cur[0], o)
    v.check('starts at zero', c.get_val() == 0)
    v.check('value', v.eq(c(), x))
    v.check('no time elapsed: nothing accumulated', v.eq(c.get_val(), 0))
    if v.flag('later'):          # an arbitrary history: last value x, integral I
        c.integrant = I
    else:
        I = 0
    cur[0] = y
    v.check('value', v.eq(c(), y))
    v.check('integral', v.eq(c.get_val() * 2, I * 2 + (x + y) * dt))
    cur[0] = x
    c()
    v.check('next step from the last value', v.eq(c.get_val() * 2, I * 2 + (x + y) * dt + (y + x) * dt))
    v.cover()


@contract('C22', [M + 'VolumeConservation2DCallback.__init__', M + 'VolumeConservation3DCallback.__init__', M + 'TracerMassConservation2DCallback.__init__',
                  M + 'ConservativeTracerMassConservation2DCallback.__init__', M + 'TracerMassConservationCallback.__init__', 'thetis.utility:comp_volume_2d',
                  'thetis.utility:comp_volume_3d', 'thetis.utility:comp_tracer_mass_2d', 'thetis.utility:comp_tracer_mass_3d'])
def integrals(v):
    """what is integrated: elevation plus depth; one over the (moving) volume; concentration times total depth; the depth-integrated or 3D concentration itself"""
    kind = v.choice('kind', ('volume2d', 'volume3d', 'mass2d', 'massc', 'mass3d'))
    m = mesh3d() if kind.endswith('3d') else mesh2d()
    P = FunctionSpace(m, 'DG', 1)
    f = {n: Function(P, name=n) for n in ('eta', 'bath', 'c', 'H', 'other')}
    env = uflsem.Env(v, 3 if kind.endswith('3d') else 2)
    x = {n: v.real(n) for n in f}
    for n, g in f.items():
        env.fields[g] = uflsem.Field(n, 'dg', value=lambda comp, r, n=n: x[n])
    class Fields(dict):
        elev_2d, bathymetry_2d = f['eta'], f['bath']
    asked = []
    o = sol(v, mesh=m, mesh2d=m)
    o.fields = Fields(tr=f['c'], other=f['other'], elev_2d=f['eta'], bathymetry_2d=f['bath'])
    o.depth = types.SimpleNamespace(get_total_depth=lambda e: (asked.append(e), f['H'])[1])
    forms = []
    for mod in (cb, tu):
        v.patch(mod, 'assemble', lambda F: (forms.append(F), 2.5)[1])
    c = {'volume2d': lambda: cb.VolumeConservation2DCallback(o), 'volume3d': lambda: cb.VolumeConservation3DCallback(o),
         'mass2d': lambda: cb.TracerMassConservation2DCallback('tr', o), 'massc': lambda: cb.ConservativeTracerMassConservation2DCallback('tr', o),
         'mass3d': lambda: cb.TracerMassConservationCallback('tr', o)}[kind]()
    v.check('name', c.name == (kind if kind.startswith('vol') else 'tr mass'))
    val, rel = c()
    v.check('the integral', val == 2.5 and rel == 0 and len(forms) == 1)
    I = uflsem.integrals(forms[0], env)
    v.check('over the whole domain', [k[0] for k in I] == ['cell'] and all(k[1] in ('everywhere', 'otherwise', ('otherwise',)) for k in I), str(list(I)))
    want = {'volume2d': x['eta'] + x['bath'], 'volume3d': 1, 'mass2d': x['c'] * x['H'], 'massc': x['c'], 'mass3d': x['c']}[kind]
    for k in I:
        v.check('integrand', v.eq(I[k], want))
    if kind == 'mass2d':
        v.check('total depth of the current elevation', asked == [f['eta']])
    v.cover()


# ---------------------------------------------------------------- sampling

class VOM:
    """a pair of vertex-only-mesh functions: values at the points, then in the order of the points"""
    def __init__(self, v, f, name, n, dim):
        self.got = []
        self.mid, self.out = object(), None
        a = numpy.empty((n, dim) if dim > 1 else (n,), dtype=object)
        for i in numpy.ndindex(a.shape):
            a[i] = f(name, *i)
        self.vals = a

        class F:
            def __init__(s, k):
                s.k, s.src = k, None

            def interpolate(s, src):
                s.src = src
                return s

            @property
            def dat(s):
                return types.SimpleNamespace(data_ro=s, data=s)

            def __getitem__(s, k):
                ok = s.k == 1 and isinstance(s.src, F) and s.src.k == 0 and getattr(s.src.src, 'nm', None) == name
                v.check('field interpolated to the points, then to their order', ok)
                return self.vals[k]
            def __array__(s, *a, **k):
                return s[:]
            @property
            def shape(s): return self.vals.shape
        self.pair = (F(0), F(1))


@contract('C22', [M + 'DetectorsCallback.__init__', M + 'DetectorsCallback.__call__', M + 'DetectorsCallback._evaluate_field', M + 'DetectorsCallback._values_per_field',
                  M + 'DetectorsCallback.variable_names'], bounded='up to 3 fields of 1 to 3 components, up to 12 detectors')
def detectors(v):
    """record of detector k: the components of every field, in the order of the fields, at location k"""
    dims = v.choice('fields', ((1,), (2,), (1, 2), (2, 1, 3)))
    n = v.choice('detectors', (1, 2, 3, 12))
    names = ['f%d' % i for i in range(len(dims))]
    val = (lambda nm, i, j=0: v.func(nm, 2)(i, j)) if v.symbolic else (lambda nm, i, j=0: hash((nm, i, j)) % 1000 / 7.)
    o = sol(v)
    o.fields = {nm: types.SimpleNamespace(nm=nm, function_space=lambda d=d: types.SimpleNamespace(value_size=d)) for nm, d in zip(names, dims)}
    vo = {nm: VOM(v, val, nm, n, d) for nm, d in zip(names, dims)}
    locs = [(10.5 + i, -i) for i in range(n)]
    asked = []
    v.patch(cb, 'vom_interpolator_functions', lambda s, f, l: (asked.append((f, l)), {nm: vo[nm].pair for nm in names})[1])
    given = v.choice('names', (None, 'given', 'short'))
    dn = None if given is None else ['d%d' % (7 - i) for i in range(n - (given == 'short'))]
    if given == 'short':
        v.check('number of names', isinstance(raises(cb.DetectorsCallback, o, locs, names, 'det', detector_names=dn)[0], AssertionError))
        return
    c = cb.DetectorsCallback(o, locs, names, 'det', detector_names=dn)
    v.check('points and fields', len(asked) == 1 and list(asked[0][0]) == names and list(asked[0][1]) == locs)
    v.check('one record name per detector, all different', list(c.variable_names) == (dn or list(c.variable_names)) and len(set(c.variable_names)) == n)
    v.check('locations stored', all(c.var_attrs[d] == {'x': l[0], 'y': l[1]} for d, l in zip(c.variable_names, locs)))
    v.check('record length', c.array_dim == sum(dims) and c.name == 'det')
    for rep in (0, 1):
        out = c()
        v.check('shape', out.shape == (n, sum(dims)))
        for i in range(n):
            want = [val(nm, i, j) if d > 1 else val(nm, i) for nm, d in zip(names, dims) for j in range(d)]
            v.check('values', v.all([v.eq(a, b) for a, b in zip(out[i], want)]))
            per = c._values_per_field(list(out[i]))
            v.check('values by field', [len(x) for x in per] == list(dims) and v.all([v.eq(a, b) for a, b in zip([y for x in per for y in x], want)]))
    v.cover()


class At:
    """a field known through its value at points"""
    def __init__(self, v, nm, dim=1, log=None):
        self.v, self.nm, self.dim, self.log = v, nm, dim, log

    def function_space(self): return types.SimpleNamespace(value_size=self.dim)

    def one(self, p):
        f = self.v.func(self.nm, len(p) + 1) if self.v.symbolic else (lambda *a: math.sin(sum((k + 1) * float(x) for k, x in enumerate(a))) + (30 if self.nm == 'bath' else 0))
        r = [f(*p, j) for j in range(self.dim)]
        return r[0] if self.dim == 1 else numpy.array(r, dtype=object if self.v.symbolic else float)

    def at(self, p, *a, **k):
        a = numpy.asarray(p, dtype=object if self.v.symbolic else float)
        if a.ndim == 1:
            return self.one(list(a))
        return [self.one(list(x)) for x in a]


def fields(v, **dims):
    class F(dict):
        __getattr__ = dict.__getitem__
    return F({nm: At(v, nm, d) for nm, d in dims.items()})


class ObjNumpy:
    """numpy whose new arrays hold objects (symbolic numbers)"""
    def __getattr__(self, k): return getattr(numpy, k)
    def zeros(self, shape, dtype=None): 
        a = numpy.empty(shape, dtype=object)
        a[...] = 0
        return a
    def empty(self, shape, dtype=None): return self.zeros(shape)
    def array(self, x, *a, **k): return numpy.array(x, *a, **k)


def objs(v):
    if v.symbolic:
        v.patch(cb, 'numpy', ObjNumpy())


g = lambda lo, hi: (lambda r: r.uniform(lo, hi))


@contract('C22', ['thetis.utility:vom_interpolator_functions', M + 'DetectorsCallback.__call__', M + 'DetectorsCallback._evaluate_field'], kind='concrete',
          bounded='two meshes, scalar, vector and flux (Raviart-Thomas, BDM) fields, 9 points in random order')
def points_on_mesh(v):
    """linear scalar and vector fields and constant flux fields are reported exactly at every point, in the order of the points"""
    rng = numpy.random.RandomState(2)
    for quads in (False, True):
        mesh = RectangleMesh(3, 2, 3.0, 2.0, quadrilateral=quads)
        x, y = SpatialCoordinate(mesh)
        fld = {'s': Function(FunctionSpace(mesh, 'CG', 1)).interpolate(1 + 2 * x - y), 'd': Function(FunctionSpace(mesh, 'DG', 1)).interpolate(3 - x + y),
               'v': Function(VectorFunctionSpace(mesh, 'DG', 1)).interpolate(as_vector((x + y, 2 * y - x)))}
        exact = {'s': lambda p: [1 + 2 * p[0] - p[1]], 'd': lambda p: [3 - p[0] + p[1]], 'v': lambda p: [p[0] + p[1], 2 * p[1] - p[0]]}
        for k, fam in enumerate(('RTCF',) if quads else ('RT', 'BDM')):
            fld['f%d' % k] = Function(FunctionSpace(mesh, fam, 1)).project(Constant((1.5, -.5)))
            exact['f%d' % k] = lambda p: [1.5, -.5]
        pts = numpy.vstack([rng.rand(9) * 2.8 + .1, rng.rand(9) * 1.8 + .1]).T
        for names in (sorted(fld), sorted(fld)[::-1]):
            s = types.SimpleNamespace(fields=fld, mesh2d=mesh, comm=mesh.comm, options=thetis.options.ModelOptions2d(), simulation_time=0.0, iteration=0)
            exc, c = raises(cb.DetectorsCallback, s, [tuple(q) for q in pts], names, 'd', export_to_hdf5=False)
            v.check('any field of the model can be sampled', exc is None, repr(exc))
            if exc is not None:
                continue
            exc, r = raises(c)
            v.check('any field of the model can be evaluated', exc is None, repr(exc))
            if exc is None:
                v.check('every field at every point, in order', numpy.allclose(r, [sum((exact[n](q) for n in names), []) for q in pts], atol=1e-5), repr(r))


@contract('C22', 'thetis.utility:select_and_move_detectors', kind='concrete',
          bounded='two meshes, 20 random locations inside or more than one cell outside, five distances, with and without names')
def detector_selection(v):
    """inside: kept as is; outside: moved to the nearest cell centre when that is within the distance, dropped otherwise; names follow their location"""
    rng = numpy.random.RandomState(3)
    for mesh, size in ((RectangleMesh(6, 4, 3.0, 2.0), .5), (RectangleMesh(4, 5, 3.0, 2.0, quadrilateral=True), .75)):
        X = mesh.coordinates.dat.data_ro[mesh.coordinates.cell_node_map().values]
        cen = X.mean(axis=1)
        L = []
        while len(L) < 20:
            p = rng.rand(2) * numpy.array([9.0, 8.0]) - 3
            out = max(-p[0], p[0] - 3, -p[1], p[1] - 2)
            if out < -1e-3 or out > size + .05:
                L.append(tuple(float(z) for z in p))
        nm = ['n%d' % i for i in range(20)]
        for dist in (None, .5, 1.2, 2.0, 50.0):
            want = []
            for p, n in zip(L, nm):
                if 0 < p[0] < 3 and 0 < p[1] < 2:
                    want.append((p, n))
                else:
                    d = numpy.hypot(*(cen - p).T)
                    if dist is not None and d.min() <= dist:
                        want.append((tuple(cen[d.argmin()]), n))
            kw = {} if dist is None else {'maximum_distance': dist}
            a = tu.select_and_move_detectors(mesh, L, **kw)
            b, names = tu.select_and_move_detectors(mesh, L, detector_names=nm, **kw)
            v.check('names follow the locations', list(names) == [n for _, n in want])
            for got in (a, b):
                v.check('inside kept, near moved to the nearest cell centre, far dropped', len(got) == len(want) and numpy.allclose(numpy.array([list(g) for g in got]).reshape(-1, 2), numpy.array([w for w, _ in want]).reshape(-1, 2)))


@contract('C22', [M + 'VerticalProfileCallback.__init__', M + 'VerticalProfileCallback._construct_z_array', M + 'VerticalProfileCallback.__call__'], bounded='2, 3, 5 or 48 levels')
def profile(v):
    """levels evenly spaced from just below the surface to just above the bed at the station, every field at those points in that order"""
    n = v.choice('levels', (2, 3, 5, 48))
    x, y = v.real('x'), v.real('y')
    objs(v)
    o = sol(v)
    o.fields = fields(v, bathymetry_2d=1, elev_cg_2d=1, salt_3d=1, w_3d=1)
    c = cb.VerticalProfileCallback(o, ['salt_3d', 'w_3d'], x, y, 'st', npoints=n)
    v.check('names', c.variable_names == ['z_coord', 'salt', 'w'] and c.name == 'vertprofile_st_salt-w' and c.array_dim == n)
    out = c()
    D, E = o.fields['bathymetry_2d'].one([x, y]), o.fields['elev_cg_2d'].one([x, y])
    v.check('levels', len(out) == 3 and all(len(a) == n for a in out))
    eps = c.epsilon if not v.symbolic else core._frac(c.epsilon)
    v.check('margin', 0 < c.epsilon <= 0.01)
    for k in range(n):
        z = (E - eps) + (-(D - eps) - (E - eps)) * (core._frac(k) / (n - 1) if v.symbolic else k / (n - 1))
        tol = (1e-9 if not v.symbolic else core._frac(1e-9)) * (D + E)
        v.check('level', v.implies(D + E > 2 * eps, v.all([v.le(z - tol, out[0][k]), v.le(out[0][k], z + tol)])))
        v.check('within the water', v.implies(D + E > 2 * eps, v.all([v.lt(-D, out[0][k]), v.lt(out[0][k], E)])))
        for j, f in ((1, 'salt_3d'), (2, 'w_3d')):
            v.check('value at that level', v.eq(out[j][k], o.fields[f].one([x, y, out[0][k]])))
    v.cover()


@contract('C22', [M + 'TransectCallback.__init__', M + 'TransectCallback._initialize', M + 'TransectCallback._update_coords', M + 'TransectCallback.__call__'],
          bounded='1 or 2 stations, 2 or 3 levels')
def transect(v):
    """value (i, j) of every component is the field at station j, level i; levels from surface to bed, cut at the limits"""
    form = v.choice('stations', ('2', '1', 'x fixed', 'y fixed'))
    n = {'2': 2, '1': 1, 'x fixed': 2, 'y fixed': 2}[form]
    nz = v.choice('levels', (2, 3))
    X, Y = [v.real('x%d' % i) for i in range(n)], [v.real('y%d' % i) for i in range(n)]
    if form == 'x fixed':
        X = [X[0]] * n
    if form == 'y fixed':
        Y = [Y[0]] * n
    objs(v)
    kind = object if v.symbolic else float
    arr = lambda l: numpy.array(l, dtype=kind)
    zlo = v.real('zlo', gen=g(-20, -5)) if v.flag('z_min') else None
    zhi = v.real('zhi', gen=g(-5, 0)) if v.flag('z_max') else None
    o = sol(v)
    o.fields = fields(v, bathymetry_2d=1, elev_cg_2d=1, salt_3d=1, uv_3d=3)
    v.patch(cb.numpy if v.symbolic else numpy, 'ones_like', (lambda a: numpy.array([1] * len(a), dtype=object)) if v.symbolic else numpy.ones_like)
    c = cb.TransectCallback(o, ['uv_3d', 'salt_3d'], X[0] if form == 'x fixed' else arr(X), Y[0] if form == 'y fixed' else arr(Y), 'tr', n_points_z=nz, z_min=zlo, z_max=zhi)
    v.check('names', c.variable_names == ['z_coord', 'uv_x', 'uv_y', 'uv_z', 'salt'] and c.array_dim == (nz, n))
    out = c()
    v.check('one array per name', len(out) == 5 and all(tuple(a.shape) == (nz, n) for a in out))
    eps = core._frac(1e-5) if v.symbolic else 1e-5
    for j in range(n):
        D, E = o.fields['bathymetry_2d'].one([X[j], Y[j]]), o.fields['elev_cg_2d'].one([X[j], Y[j]])
        bot, top = -(D - eps), E - eps
        bot = bot if zlo is None else v.max(bot, zlo)
        top = top if zhi is None else v.min(top, zhi)
        for i in range(nz):
            z = top + (bot - top) * (core._frac(i) / (nz - 1) if v.symbolic else i / (nz - 1))
            v.check('level', v.eq(out[0][i, j], z))
            p = [X[j], Y[j], out[0][i, j]]
            u = o.fields['uv_3d'].one(p)
            v.check('vector components', v.all([v.eq(out[1 + k][i, j], u[k]) for k in range(3)]))
            v.check('scalar', v.eq(out[4][i, j], o.fields['salt_3d'].one(p)))
    v.cover()


@contract('C22', [M + 'TimeSeriesCallback3D.__init__', M + 'TimeSeriesCallback3D._initialize', M + 'TimeSeriesCallback3D.__call__',
                  M + 'TimeSeriesCallback2D.__init__', M + 'TimeSeriesCallback2D._initialize', M + 'TimeSeriesCallback2D.__call__'])
def timeseries(v):
    """current value of every field at the station; a 3D station below the bed is moved into the water; window handed on"""
    objs(v)
    x, y, z = v.real('x'), v.real('y'), v.real('z', gen=g(-60, 0))
    o = sol(v)
    a, b = v.real('a'), v.real('b')
    if v.flag('3D'):
        o.fields = fields(v, bathymetry_2d=1, salt_3d=1, w_3d=1)
        c = cb.TimeSeriesCallback3D(o, ['w_3d', 'salt_3d'], x, y, z, 'st', start_time=a, end_time=b)
        D = o.fields['bathymetry_2d'].one([x, y])
        for rep in (0, 1):
            out = c()
            zz = v.ite(v.lt(z, -D), -D + (core._frac(.1) if v.symbolic else .1), z)
            v.check('point in the water', v.all([v.eq(c.z, zz), v.implies(v.all([D > 1, v.le(z, 0)]), v.all([v.le(-D, c.z), v.le(c.z, 0)]))]))
            v.check('values', v.all([len(out) == 2] + [v.eq(out[k].ravel()[0], o.fields[f].one([x, y, zz])) for k, f in enumerate(('w_3d', 'salt_3d'))]))
        v.check('names', c.variable_names == ['w', 'salt'] and c.name == 'timeseries_st_w-salt')
    else:
        names = ['elev_2d', 'c_2d']
        sphere = v.flag('sphere')
        o.mesh2d = types.SimpleNamespace(geometric_dimension=3 if sphere else 2)
        o.fields = {nm: types.SimpleNamespace(nm=nm) for nm in names + ['bathymetry_2d']}
        o.fields['bathymetry_2d'].nm = 'bath'
        class F(dict):
            __getattr__ = dict.__getitem__
        o.fields = F(o.fields)
        cur = [0]
        val = (lambda nm, i: v.real('%s_%d_%d' % (nm, i, cur[0])))
        own = v.flag('own evaluation')
        calls = []
        ev = (lambda f, p, tolerance=None: (calls.append((f.nm, p, tolerance)), val(f.nm, 0))[1]) if own else None
        if sphere:
            v.check('z required on the sphere', isinstance(raises(cb.TimeSeriesCallback2D, o, names, x, y, 'st')[0], AssertionError))
        c = cb.TimeSeriesCallback2D(o, names, x, y, 'st', start_time=a, end_time=b, eval_func=ev, tolerance=.5, **({'z': z} if sphere else {}))
        pts = []
        made = {}

        def vom(s, f, p):
            pts.append(p)
            made.update({nm: VOM(v, val, nm, 1, 1) for nm in f})
            return {nm: made[nm].pair for nm in f}
        v.patch(cb, 'vom_interpolator_functions', vom)
        for rep in (0, 1):
            cur[0] = rep
            for nm in made:
                made[nm].vals[0] = val(nm, 0)
            out = c()
            if not own:
                for nm in made:
                    v.check('station', v.all([len(pts) == 1, v.eq(list(numpy.asarray(pts[0]).ravel()), [x, y, z] if sphere else [x, y])]))
            else:
                v.check('station and tolerance', v.all([v.all([v.eq(list(numpy.asarray(p).ravel()), [x, y, z] if sphere else [x, y]), t == .5]) for _, p, t in calls]))
            v.check('values', v.all([len(out) == 2] + [v.eq(numpy.asarray(out[k], dtype=object).ravel()[0], val(nm, 0)) for k, nm in enumerate(names)]))
        v.check('names', c.variable_names == ['elev', 'c'] and c.name == 'timeseries_st_elev-c')
    v.check('window', v.all([v.eq(c.start_time, a), v.eq(c.end_time, b)]))
    v.check('class name untouched', type(c).name == 'timeseries')
    v.cover()


class Stop(Exception):
    pass


@contract('C22', ['thetis.solver2d:FlowSolver2d.create_iterator', 'thetis.solver2d:FlowSolver2d.add_callback', 'thetis.solver:FlowSolver.iterate', 'thetis.solver:FlowSolver.add_callback'],
          bounded='two tracers')
def registration(v):
    """every requested check is registered before the first step, for its own field and the right kind of mass, evaluated with the exports,
    written to file if and only if diagnostics are exported; a continued 3D run appends to the histories"""
    three = v.flag('3D')
    chk = ('volume_conservation_2d', 'volume_conservation_3d', 'salinity_conservation', 'salinity_overshoot', 'temperature_conservation', 'temperature_overshoot') if three else \
        ('volume_conservation_2d', 'tracer_conservation', 'tracer_overshoot')
    on = {c: v.flag(c) for c in chk}
    o = types.SimpleNamespace(**{'check_' + c: x for c, x in on.items()})
    exp, noexp = v.choice('exports', ((True, False), (True, True), (False, False)))
    o.export_diagnostics, o.no_exports, o.output_directory = exp, noexp, 'o'
    o.polynomial_degree, o.element_family = 1, 'dg-dg'
    o.use_limiter_for_tracers = o.use_limiter_for_velocity = True
    o.simulation_export_time, o.simulation_initial_date, o.simulation_end_date, o.simulation_end_time, o.timestep = 1., None, None, 10., 1.
    cls = s3.FlowSolver if three else s2.FlowSolver2d
    s = cls.__new__(cls)
    d = s.__dict__
    d.update(_initialized=True, options=o, simulation_time=0., callbacks=cb.CallbackManager(), comm=None, dt=1.)
    want = {}
    if three:
        o.solve_salinity, o.solve_temperature, o.use_ale_moving_mesh = (v.flag('salt'), v.flag('temp'), v.flag('ale')) if any(on.values()) else (True,) * 3
        d['_simulation_continued'], d['export_initial_state'] = noexp, not noexp
        user = Diag(s)
        s.add_callback(user, 'timestep')
        if on['volume_conservation_2d']:
            want['volume2d'] = (cb.VolumeConservation2DCallback, None)
        if on['volume_conservation_3d'] and o.use_ale_moving_mesh:
            want['volume3d'] = (cb.VolumeConservation3DCallback, None)
        for nm, f, act in (('salinity', 'salt_3d', o.solve_salinity), ('temperature', 'temp_3d', o.solve_temperature)):
            if act and on[nm + '_conservation']:
                want[f + ' mass'] = (cb.TracerMassConservationCallback, f)
            if act and on[nm + '_overshoot']:
                want[f + ' overshoot'] = (cb.TracerOvershootCallBack, f)
    else:
        o.tracer = {'a_2d': types.SimpleNamespace(use_conservative_form=v.flag('a')), 'b_2d': types.SimpleNamespace(use_conservative_form=v.flag('b'))}
        sed = v.choice('sediment', ('off', 'mass', 'conservative', 'overshoot'))
        o.sediment_model_options = types.SimpleNamespace(check_sediment_conservation=sed in ('mass', 'conservative'), check_sediment_overshoot=sed == 'overshoot',
                                                         use_sediment_conservative_form=sed == 'conservative')
        if on['volume_conservation_2d']:
            want['volume2d'] = (cb.VolumeConservation2DCallback, None)
        mass = {True: cb.ConservativeTracerMassConservation2DCallback, False: cb.TracerMassConservation2DCallback}
        for n, t in o.tracer.items():
            if on['tracer_conservation']:
                want[n + ' mass'] = (mass[t.use_conservative_form], n)
            if on['tracer_overshoot']:
                want[n + ' overshoot'] = (cb.TracerOvershootCallBack, n)
        if sed == 'overshoot':
            want['sediment_2d overshoot'] = (cb.TracerOvershootCallBack, 'sediment_2d')
        elif sed != 'off':
            want['sediment_2d mass'] = (mass[sed == 'conservative'], 'sediment_2d')

    def stop(*a, **k):
        raise Stop()
    d['print_state'] = stop
    try:
        (s.iterate if three else lambda: next(s.create_iterator()))()
        v.check('reached', False)
    except Stop:
        pass
    v.check('user diagnostics kept', not three or dict(s.callbacks['timestep']) == {'my diag': user})
    got = s.callbacks['export']
    v.check('requested checks, each once', {k: type(c) for k, c in got.items()} == {k: w[0] for k, w in want.items()})
    v.check('files as asked', all(c.append_to_hdf5 == (exp and not noexp) and c.append_to_log for c in got.values()))
    if three:
        v.check('continued runs append', all(c._create_new_file == (not s._simulation_continued) for c in list(got.values()) + [user]))
    asked = []

    class Fs(dict):
        def __getattr__(self, k): return ('field', k)
        def __getitem__(self, k):
            asked.append(k)
            return types.SimpleNamespace(nm=k, dat=types.SimpleNamespace(data=numpy.array([1., 2.]))) if k.endswith('d') else None
    d['fields'], d['comm'] = Fs(), types.SimpleNamespace(allreduce=lambda x, op=None: x)
    d['depth'] = types.SimpleNamespace(get_total_depth=lambda e: 'H')
    seen = []
    v.patch(cb, 'comp_tracer_mass_2d', lambda f, H: seen.append(f.nm) or 1.)
    v.patch(cb, 'comp_tracer_mass_3d', lambda f: seen.append(f.nm) or 1.)
    for k, (c, f) in want.items():
        if f and c not in (cb.ConservativeTracerMassConservation2DCallback,):
            del asked[:]
            got[k]()
            v.check('its own field', set(asked) == {f})
    v.cover()


OP = 'thetis.optimisation:'


@contract('C22', [OP + 'DiagnosticOptimisationCallback.__init__', OP + 'DiagnosticOptimisationCallback.evaluate', OP + 'DiagnosticOptimisationCallback.callback',
                  OP + 'FunctionalOptimisationCallback.compute_values', OP + 'ConstantControlOptimisationCallback.compute_values',
                  OP + 'DerivativeConstantControlOptimisationCallback.compute_values', OP + 'OptimisationCallback.__call__', OP + 'OptimisationCallbackList.callback',
                  'thetis.turbines:TurbineOptimisationCallback.__init__', 'thetis.turbines:TurbineOptimisationCallback.compute_values'], samples=20)
def optimisation_diagnostics(v):
    """every call of a diagnostic in an optimisation adds one record with the values of that call, and the optimiser gets back what it needs;
    the controls are the last argument, the functional the first, the derivative the second of three"""
    kind = v.choice('kind', ('functional', 'controls', 'derivatives', 'turbines'))
    h5, log, wt, listed = v.flag('hdf5'), v.flag('log'), v.flag('with time'), v.flag('in a list')
    n = v.choice('controls', (1, 3))
    stage = v.choice('used', ('before the evaluation', 'after the evaluation', 'after the derivative'))
    out, files, logged = [], [], []

    class File:
        def __init__(self, fname, names, **k): files.append((fname, list(names), k))
        def export(self, vals, time=None, index=None): out.append((vals, time, index))
    v.patch(cb, 'DiagnosticHDF5', File)
    v.patch(cb, 'print_output', lambda m, *k: logged.append(m))
    v.patch(cb, 'create_directory', lambda d, comm=None: None)
    saved = {}

    class Num:
        """a Constant / derivative Function holding one number"""
        def __init__(self, x): self.x = x
        def __float__(self): raise TypeError
        dat = property(lambda s: types.SimpleNamespace(data=[s.x]))
    v.patch(op, 'float', lambda x: x.x if isinstance(x, Num) else x)
    kw = dict(export_to_hdf5=h5, append_to_log=log)
    if wt:
        kw['include_time'] = True
    if kind in ('controls', 'derivatives'):
        kw['array_dim'] = n
    o = sol(v, simulation_time=v.real('t'))
    if kind == 'turbines':
        boxes = {k: [types.SimpleNamespace(block_variable=types.SimpleNamespace(saved_output=None)) for _ in range(n)] for k in ('cost', 'average_power', 'average_profit')}
        cbk = tb.TurbineOptimisationCallback(o, types.SimpleNamespace(**boxes), **kw)
    else:
        cbk = {'functional': op.FunctionalOptimisationCallback, 'controls': op.ConstantControlOptimisationCallback,
               'derivatives': op.DerivativeConstantControlOptimisationCallback}[kind](o, **kw)
    other = []

    class Other(op.OptimisationCallback):
        def callback(self, *a): other.append(a)
    call = op.OptimisationCallbackList([Other(), cbk, Other()]) if listed else cbk
    want = []
    for k in range(2):
        J, c, d = v.real('J%d' % k), [Num(x) for x in v.reals('c%d' % k, n)], [Num(x) for x in v.reals('d%d' % k, n)]
        if kind == 'turbines':
            for q in boxes:
                for i, b in enumerate(boxes[q]):
                    b.block_variable.saved_output = v.real('%s%d_%d' % (q, i, k))
        a = {'before': (c,), 'after the e': (J, c), 'after the d': (J, d, c)}[{'before the evaluation': 'before', 'after the evaluation': 'after the e'}.get(stage, 'after the d')]
        ex, r = raises(call, *a)
        bad = kind == 'functional' and len(a) < 2 or kind == 'derivatives' and len(a) != 3
        if bad:
            v.check('refused where the value does not exist', isinstance(ex, TypeError) and not out and not logged)
            return
        v.check('accepted', ex is None, repr(ex))
        # what the optimiser uses afterwards: the controls before, the derivative after a derivative
        v.check('optimiser gets back the controls (or the derivative)', r is (a[0] if len(a) == 1 else a[1] if len(a) == 3 else r))
        if listed:
            v.check('every callback of the list called once, in order', len(other) == 2 * (k + 1) and all(len(x) == len(a) and all(p is q for p, q in zip(x, a)) for x in other[-2:]))
        want.append({'functional': [J], 'controls': [[x.x for x in c]], 'derivatives': [[x.x for x in d]]}.get(kind) or [[b.block_variable.saved_output for b in boxes[q]] for q in ('cost', 'average_power', 'average_profit')])
    v.check('one message per call, if asked', len(logged) == (2 if log else 0))
    v.check('one file, one record per call, if asked', len(out) == (2 if h5 else 0) and len(files) == (1 if h5 else 0))
    if h5:
        v.check('file of the diagnostic', files[0][0] == os.path.join('out', 'diagnostic_%s.hdf5' % {'functional': 'functional', 'turbines': 'farm_optimisation'}.get(kind, kind)) and files[0][2]['include_time'] == wt
                and files[0][1] == {'functional': ['functional'], 'turbines': ['cost', 'average_power', 'average_profit']}.get(kind, [kind]) and files[0][2]['array_dim'] == kw.get('array_dim', 1))
        flat = lambda x: [x] if not isinstance(x, (list, tuple)) else [z for y in x for z in flat(y)]
        for (vals, t, ix), w in zip(out, want):
            p, q = flat(vals), flat(w)
            v.check('values of that call, at the end of the file', len(vals) == len(w) and len(p) == len(q) and v.all([v.eq(x, y) for x, y in zip(p, q)]) and ix is None)
    v.cover()
