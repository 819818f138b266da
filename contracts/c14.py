"""C14 time interpolation of forcing data."""
import datetime
import os
import random
import tempfile
import types
import netCDF4
import numpy
import pytz
import thetis.interpolation as itp
import thetis.timezone as tz
from pyvc import core
from pyvc.contract import contract
from .common import raises

ASSUMPTIONS = [
    'array operations act element by element: a record is represented by one generic element (in-place operators change the stored element, as numpy does)',
    'the time search satisfies C15 (previous record not after t, next record after t); the reader returns the stored record of the given file and index and never changes it',
    'consecutive records are at least 1e-3 s apart (the code tolerates 1e-6 of the record spacing outside the interval)',
    'queries range over the half-open interval [first record, last record): the last record itself has no next record',
]
I = 'thetis.interpolation:'
RELTOL = 1e-5


class Arr:
    """generic element of a numpy array"""
    def __init__(self, x): self.x = x
    @staticmethod
    def _x(o): return o.x if isinstance(o, Arr) else o
    def __add__(self, o): return Arr(self.x + self._x(o))
    __radd__ = __add__
    def __mul__(self, o): return Arr(self.x * self._x(o))
    __rmul__ = __mul__
    def __sub__(self, o): return Arr(self.x - self._x(o))
    def __rsub__(self, o): return Arr(self._x(o) - self.x)
    def __truediv__(self, o): return Arr(self.x / self._x(o))
    def __neg__(self): return Arr(-self.x)
    def __iadd__(self, o):
        self.x = self.x + self._x(o)
        return self
    def __isub__(self, o):
        self.x = self.x - self._x(o)
        return self
    def __imul__(self, o):
        self.x = self.x * self._x(o)
        return self
    def __itruediv__(self, o):
        self.x = self.x / self._x(o)
        return self
    def copy(self): return Arr(self.x)
    __copy__ = copy
    def __deepcopy__(self, m): return self.copy()


class World:
    """two files with two records each; record values and time stamps arbitrary"""
    KEYS = [('a', 0), ('a', 1), ('b', 0), ('b', 1)]

    def __init__(self, v, nvar=2):
        self.v, self.nvar = v, nvar
        self.T = {k: v.real('T_%s%d' % k, lo=None if v.symbolic else -20, hi=None if v.symbolic else 20) for k in self.KEYS}
        self.R = {k: [v.real('R_%s%d_%d' % (k + (i,))) for i in range(nvar)] for k in self.KEYS}
        self.script = []

    def reader(self, f, i, *a):
        return [Arr(x) for x in self.R[(f, i)]]

    def find(self, t, previous=False):
        p, n = self.script[-1]
        k = p if previous else n
        return (k[0], k[1], self.T[k])

    def query(self, name):
        """the pair of records the search returns for the next query"""
        v = self.v
        pair = v.choice(name, [(p, n) for p in self.KEYS for n in self.KEYS if p != n])
        self.script.append(pair)
        return pair


def interpolate(v, w, pair, t):
    p, n = pair
    a = (t - w.T[p]) / (w.T[n] - w.T[p])
    return [(1 - a) * x + a * y for x, y in zip(w.R[p], w.R[n])]


def enclosed(v, w, pair, t):
    p, n = pair
    v.assume(w.T[n] - w.T[p] >= (core._frac(1e-3) if v.symbolic else 1e-3))
    v.assume(w.T[p] <= t)
    v.assume(t < w.T[n])


def time_in(v, w, pair, name):
    if v.symbolic:
        t = v.real(name)
        enclosed(v, w, pair, t)
        return t
    a, b = w.T[pair[0]], w.T[pair[1]]
    v.assume(b - a > 1e-3)
    return a + (b - a) * v.real(name + '_f', lo=0, hi=1) if v.values is None else v.real(name)


def fresh(w):
    return itp.LinearTimeInterpolator(types.SimpleNamespace(find=w.find), w.reader)


def check_result(v, w, pair, t, vals, label=''):
    want = interpolate(v, w, pair, t)
    v.check(label + 'one value per variable', len(vals) == w.nvar)
    for x, y, p, n in zip(vals, want, w.R[pair[0]], w.R[pair[1]]):
        v.check(label + 'linear interpolant of the enclosing records', v.eq(x.x, y))


def check_cache(v, w, o, what):
    for k, val in o.cache.items():
        for x, y in zip(val, w.R[(k[0], k[1])]):
            v.check('cached records are the stored data %s' % what, v.eq(x.x, y))


# ------------------------------------------------------------------ one query from any consistent cache
@contract('C14', [I + 'LinearTimeInterpolator.__call__', I + 'LinearTimeInterpolator._get_from_cache', I + 'LinearTimeInterpolator._clean_cache'], budget=300)
def one_query(v):
    w = World(v, 1)
    o = fresh(w)
    pair = w.query('pair')
    t = time_in(v, w, pair, 't')
    # any cache whose entries are the stored records (the representation invariant): each record cached or not
    have = v.choice('cached', [m for m in range(16)])
    for b, k in enumerate(World.KEYS):
        if have >> b & 1:
            o.cache[(k[0], k[1], w.T[k])] = w.reader(*k)
    vals = o(t)
    check_result(v, w, pair, t, vals)
    p, n, x = w.R[pair[0]][0], w.R[pair[1]][0], vals[0].x
    v.check('between the two records', v.all([v.le(v.min(p, n), x), v.le(x, v.max(p, n))]))
    check_cache(v, w, o, 'after the query')


@contract('C14', I + 'LinearTimeInterpolator.__call__')
def at_records(v):
    w = World(v, 1)
    o = fresh(w)
    pair = w.query('pair')
    t = w.T[pair[0]]
    v.assume(w.T[pair[1]] - t >= (core._frac(1e-3) if v.symbolic else 1e-3))
    vals = o(t)
    v.check('exact at a record', v.eq(vals[0].x, w.R[pair[0]][0]))


@contract('C14', I + 'LinearTimeInterpolator.__call__')
def out_of_range(v):
    w = World(v, 1)
    o = fresh(w)
    pair = w.query('pair')
    p, n = pair
    v.assume(w.T[n] - w.T[p] >= (core._frac(1e-3) if v.symbolic else 1e-3))
    t = v.real('t')
    d = (w.T[n] - w.T[p]) * (core._frac(RELTOL) if v.symbolic else RELTOL)
    v.assume(v.any([t < w.T[p] - d, t > w.T[n] + d]))
    ex, r = raises(o, t)
    v.check('a time outside the two records is rejected', ex is not None)


@contract('C14', I + 'LinearTimeInterpolator.__call__')
def search_fails(v):
    """an error of the search (time outside the collection) reaches the caller, whatever is cached"""
    w = World(v, 1)
    side = v.choice('side', ('previous', 'next'))

    class Out(Exception):
        pass

    def find(t, previous=False):
        if fail and previous == (side == 'previous'):
            raise Out()
        return w.find(t, previous)
    o = itp.LinearTimeInterpolator(types.SimpleNamespace(find=find), w.reader)
    fail = False
    pair = w.query('pair')
    o(time_in(v, w, pair, 't'))
    fail = True
    ex, r = raises(o, v.real('t2'))
    v.check('error of the search is passed on', isinstance(ex, Out))
    check_cache(v, w, o, 'after a failed query')


# ------------------------------------------------------------------ histories (the reader / search pairs are arbitrary each time)
PAIRS = [(p, n) for p in World.KEYS for n in World.KEYS if p != n]
for _k, _first in enumerate(PAIRS):
    @contract('C14', I + 'LinearTimeInterpolator.__call__', name='history_%d' % _k, budget=200)
    def history(v, first=_first):
        w = World(v, 1)
        o = fresh(w)
        w.script.append(first)
        t1 = time_in(v, w, first, 't1')
        check_result(v, w, first, t1, o(t1), 'first query: ')
        two = w.query('second')
        t2 = time_in(v, w, two, 't2')
        check_result(v, w, two, t2, o(t2), 'second query: ')
        three = v.choice('third', [first, two, (two[1], first[0]) if two[1] != first[0] else (two[1], two[0])])
        w.script.append(three)
        t3 = time_in(v, w, three, 't3')
        check_result(v, w, three, t3, o(t3), 'third query: ')


# ------------------------------------------------------------------ scaled time series
@contract('C14', [I + 'NetCDFTimeSeriesInterpolator.__call__', I + 'NetCDFTimeSeriesInterpolator.__init__'], budget=200)
def series(v):
    w = World(v, 2)
    sc = v.choice('scalars', (None, 1)) and [v.real('c0'), v.real('c1')]
    seen = {}

    class Reader:
        def __init__(self, variable_list, time_variable_name='time'):
            seen['r'] = (variable_list, time_variable_name)
        def __call__(self, f, i): return w.reader(f, i)

    class Search:
        def __init__(self, pat, init, cls, *a, **k):
            seen['s'] = (pat, init, cls, k.get('time_variable_name', 'time'))
        def find(self, t, previous=False): return w.find(t, previous)
    v.patch(itp, 'NetCDFTimeSeriesReader', Reader)
    v.patch(itp, 'NetCDFTimeSearch', Search)
    o = itp.NetCDFTimeSeriesInterpolator('pat', ['x', 'y'], 'date', time_variable_name='tv', scalars=sc)
    v.check('reader set up with the variables', seen['r'] == (['x', 'y'], 'tv'))
    v.check('search set up with files, date, parser, time variable', seen['s'] == ('pat', 'date', itp.NetCDFTimeParser, 'tv'))
    pair = w.query('pair')
    for q in range(3):
        if q == 2:
            # the same record seen from the other side
            pair = (pair[1], [k for k in World.KEYS if k not in pair][0])
            w.script.append(pair)
        t = time_in(v, w, pair, 't%d' % q)
        vals = o(t)
        want = interpolate(v, w, pair, t)
        for i in range(2):
            v.check('query %d: scaled linear interpolant of each variable' % q, v.eq(vals[i].x, want[i] * (sc[i] if sc else 1)))


@contract('C14', I + 'NetCDFTimeSeriesInterpolator.__init__')
def series_scalars(v):
    for nm in ('NetCDFTimeSeriesReader', 'NetCDFTimeSearch'):
        v.patch(itp, nm, lambda *a, **k: None)
    ex, r = raises(itp.NetCDFTimeSeriesInterpolator, 'p', ['x', 'y'], None, scalars=[1.0])
    v.check('wrong number of scalars rejected', ex is not None)


# ------------------------------------------------------------------ reader
@contract('C14', [I + 'NetCDFTimeSeriesReader.__call__', I + 'NetCDFTimeSeriesReader._get_slice', I + 'NetCDFTimeSeriesReader._detect_time_dim'],
          kind='concrete', bounded='1-, 2- and 3-dimensional variables with the time dimension in every position, 4 records, in scratch netCDF files')
def reader(v):
    rng = numpy.random.RandomState(3)
    for nd in (1, 2, 3):
        for pos in range(nd):
            with tempfile.TemporaryDirectory() as d:
                f = os.path.join(d, 'f.nc')
                sizes = [3, 5, 6][:nd]
                sizes[pos] = 4
                dims = ['d%d' % i for i in range(nd)]
                dims[pos] = 'tt'
                A, B = rng.rand(*sizes), rng.rand(*sizes)
                with netCDF4.Dataset(f, 'w') as nc:
                    for a, b in zip(dims, sizes):
                        nc.createDimension(a, b)
                    for nm, val in (('A', A), ('B', B)):
                        x = nc.createVariable(nm, 'f8', dims)
                        x[:] = val
                r = itp.NetCDFTimeSeriesReader(['B', 'A'], time_variable_name='tt')
                for k in (2, 0, 3, 1, 0):
                    out = r(f, k)
                    v.check('one array per variable, in order', len(out) == 2)
                    for val, got in zip((B, A), out):
                        v.check('values of the record', numpy.array_equal(numpy.take(val, k, axis=pos).ravel(), numpy.asarray(got).ravel()))
                ex, _ = raises(r, os.path.join(d, 'missing.nc'), 0)
                v.check('missing file rejected', ex is not None)


@contract('C14', [I + 'NetCDFTimeSeriesInterpolator.__call__', I + 'LinearTimeInterpolator.__call__'], kind='concrete',
          bounded='8 random collections of 1-4 real netCDF files, 60 queries each in random order against numpy.interp')
def real_series(v):
    from .c15 import write
    rng = random.Random(9)
    for case in range(8):
        with tempfile.TemporaryDirectory() as d:
            t = 0.0
            X, Y = [], []
            for i in range(rng.randint(1, 4)):
                ts = []
                for k in range(rng.randint(2, 5)):
                    t += rng.choice((30., 900., 7200.))
                    ts.append(t)
                ys = [rng.uniform(-5, 5) for _ in ts]
                write(os.path.join(d, 'g%d.nc' % i), None, 'seconds since 2001-02-03 00:00:00', ts, ys)
                X += ts
                Y += ys
            init = datetime.datetime(2001, 2, 3, tzinfo=pytz.utc) + datetime.timedelta(seconds=rng.choice((0, -1000, 45)))
            s0 = (init - datetime.datetime(2001, 2, 3, tzinfo=pytz.utc)).total_seconds()
            o = itp.NetCDFTimeSeriesInterpolator(os.path.join(d, 'g*.nc'), ['data', 'more'], init, scalars=[2.0, -1.0])
            for q in [rng.uniform(X[0], X[-1] - 1e-3) for _ in range(40)] + X[:-1] + [X[0], X[len(X) // 2 - 1]]:
                a, b = o(q - s0)
                y = numpy.interp(q, X, Y)
                v.check('linear interpolation of the series', abs(float(numpy.squeeze(a)) - 2 * y) < 1e-5)
                v.check('linear interpolation of the second series', abs(float(numpy.squeeze(b)) + (10 - 2 * y)) < 1e-5)
            for q in (X[0] - 5, X[-1] + 5):
                ex, r = raises(o, q - s0)
                v.check('outside the range rejected', ex is not None)


# ------------------------------------------------------------------ fields set from the interpolator
class Data:
    def __init__(self, log, name):
        self.log, self.name = log, name
    def __setitem__(self, k, val):
        self.log.append((self.name, k, val))


def field(log, name):
    d = Data(log, name)
    return types.SimpleNamespace(dat=types.SimpleNamespace(data_with_halos=d, data=d))


def whole(k):
    return k is Ellipsis or isinstance(k, slice) and k == slice(None)


@contract('C14', ['thetis.forcing:LiveOceanInterpolator.set_fields', 'thetis.forcing:NCOMInterpolator.set_fields'])
def fields_updated(v):
    import thetis.forcing as fo
    t = v.real('t')
    vals = {n: v.real('val_' + n) for n in ('U_Velocity', 'V_Velocity', 'Salinity', 'Temperature')}
    log, asked = [], []
    o = object.__new__(fo.LiveOceanInterpolator)
    o.fields = [field(log, n) for n in ('Salinity', 'Temperature')]
    o.field_names = ['Salinity', 'Temperature']

    def many(time):
        asked.append(time)
        return [vals[n] for n in o.field_names]
    o.time_interpolator = many
    o.set_fields(t)
    v.check('asked once', len(asked) == 1)
    v.check('asked for the requested time', v.eq(asked[0], t))
    v.check('every field set once, all its values', sorted(n for n, k, x in log) == sorted(o.field_names) and all(whole(k) for n, k, x in log))
    for n, k, x in log:
        v.check('field holds the interpolated value', v.eq(x, vals[n]))
    # NCOM: one series per field, velocities rotated
    log, asked = [], []
    rot = v.flag('velocity')
    names = (['U_Velocity', 'V_Velocity'] if rot else []) + ['Salinity', 'Temperature']
    c, s = v.real('c'), v.real('s')
    o = object.__new__(fo.NCOMInterpolator)
    o.field_names = names
    o.fields = {n: field(log, n) for n in names}

    def one(n):
        def f(time):
            asked.append(time)
            return [vals[n]]
        return f
    o.time_interpolator = {n: one(n) for n in names}
    o.rotate_velocity = rot
    o.scalar_field_names = ['Salinity', 'Temperature']
    o.vect_rotator = lambda a, b: (c * a - s * b, s * a + c * b)
    o.set_fields(t)
    for a in asked:
        v.check('asked for the requested time', v.eq(a, t))
    v.check('every field set once, all its values', sorted(n for n, k, x in log) == sorted(names) and all(whole(k) for n, k, x in log))
    want = dict(vals, U_Velocity=c * vals['U_Velocity'] - s * vals['V_Velocity'], V_Velocity=s * vals['U_Velocity'] + c * vals['V_Velocity'])
    for n, k, x in log:
        v.check('field holds the interpolated (rotated) value', v.eq(x, want[n]))


# ------------------------------------------------------------------ end to end: ocean model readers
@contract('C14', ['thetis.forcing:NCOMInterpolator.__init__', 'thetis.forcing:NCOMInterpolator.set_fields', 'thetis.forcing:LiveOceanInterpolator.__init__',
                  'thetis.forcing:LiveOceanInterpolator.set_fields', 'thetis.interpolation:NetCDFSpatialInterpolator.__init__', 'thetis.interpolation:NetCDFSpatialInterpolator.__call__'])
def ocean_fields(v):
    """every field holds, at the requested time, the values of its own variable in its own files, interpolated to its own space"""
    import os
    import thetis.forcing as fo
    import thetis.interpolation as ip
    t = v.real('t')
    ncom, vel, ssh = v.flag('NCOM'), v.flag('velocity'), v.flag('elevation')
    system = object()
    V2, V3 = types.SimpleNamespace(name='2d'), types.SimpleNamespace(name='3d')

    class Grid:
        def __init__(self, space, cs, grid_path=None):
            assert cs is system
            self.space, self.path = space, grid_path
            self.latlonz_array = numpy.array([[1.0, 2.0, -3.0], [4.0, 5.0, -6.0]])

        def interpolate(self, fn, variables, itime):
            return [v.func('%s|%s|%s|%s' % (n, fn, self.space.name, self.path))(itime) for n in variables]

    class Search:
        def __init__(self, *a, **k): self.a, self.k = a, k

    class Series:
        def __init__(self, ts, reader): self.ts, self.reader = ts, reader

        def __call__(self, time): return self.reader(self.ts.a[0], time)
    for n in ('SpatialInterpolatorNCOM2d', 'SpatialInterpolatorNCOM3d', 'SpatialInterpolatorROMS3d'):
        v.patch(fo, n, type(n, (Grid,), {}))
    v.patch(ip, 'LinearTimeInterpolator', Series)
    v.patch(ip, 'NetCDFTimeSearch', type('Records', (Search,), {}))
    v.patch(ip, 'DailyFileTimeSearch', type('Daily', (Search,), {}))
    log, rotations = [], []
    c, s = v.real('c'), v.real('s')

    class System:
        def get_vector_rotator(self, lon, lat):
            rotations.append((lon, lat))
            return lambda a, b: (c * a - s * b, s * a + c * b)
    system = System()
    table = [('Salinity', 's3d'), ('Temperature', 't3d')] + [('U_Velocity', 'u3d'), ('V_Velocity', 'v3d')] * vel + [('Surface_Elevation', 'ssh')] * ssh
    order = v.choice('order', (1, -1))
    table = table[::order]
    names = [n for n, k in table]
    spaces = [V2 if k == 'ssh' and ncom else V3 for n, k in table]
    fields = [field(log, n) for n in names]
    for f, sp in zip(fields, spaces):
        f.function_space, f.name = (lambda sp=sp: sp), (lambda: 'f')
    given = list(names)
    if ncom:
        o = fo.NCOMInterpolator(V2, V3, fields, names, [k for n, k in table], system, 'base', '{year:04d}/{fieldstr:}/{fieldstr:}.{day:02d}.nc', 'start')
        searches = {n: x.ts for n, x in o.time_interpolator.items()}
        for n, x in searches.items():
            v.check('daily files from the start date', type(x).__name__ == 'Daily' and x.a[1] == 'start')
    else:
        o = fo.LiveOceanInterpolator(V3, fields, names, 'files*', 'start', system)
        x = o.timesearch_obj
        v.check('records of the given files from the start date, by ocean time', type(x).__name__ == 'Records' and x.a[0] == 'files*' and x.a[1] == 'start' and x.k.get('time_variable_name') == 'ocean_time')
    o.set_fields(t)
    v.check('arguments not changed', names == given)
    v.check('every field set once, all its values', sorted(n for n, k, x in log) == sorted(names) and all(whole(k) for n, k, x in log))

    def val(n):
        i = names.index(n)
        if ncom:
            return v.func('%s|%s|%s|%s' % (n, os.path.join('base', '{year:04d}/%s/%s.{day:02d}.nc' % (table[i][1], table[i][1])), spaces[i].name, 'base'))(t)
        return v.func('%s|%s|%s|%s' % (n, 'files*', '3d', None))(t)
    want = {n: val(n) for n in names}
    if ncom and vel:
        a, b = want['U_Velocity'], want['V_Velocity']
        want.update(U_Velocity=c * a - s * b, V_Velocity=s * a + c * b)
        v.check('rotation at the longitude, latitude of the nodes', len(rotations) == 1 and list(rotations[0][0]) == [2.0, 5.0] and list(rotations[0][1]) == [1.0, 4.0])
    for n, k, x in log:
        v.check('field holds its own variable (velocity rotated to the mesh coordinates)', v.eq(x, want[n]))
    v.cover()
