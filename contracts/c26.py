"""C26 surface forcing: wind stress, atmospheric pressure, tidal boundary data."""
import itertools
import types
import numpy
import thetis.forcing as fo
import thetis.interpolation as ip
from pyvc import core
from pyvc.contract import contract
from pyvc.genarr import GArr, GNumpy
from .common import raises

ASSUMPTIONS = [
    'numpy: arithmetic, comparisons, boolean masks, hypot, ones_like, where act element by element (contract of the generic array); wind components are float arrays',
    'the tidal readers (uptide) and the netCDF readers are external; time interpolation is C14, time search C15, spatial interpolation C16',
    'decimal constants of the drag formulas are read as exact decimals; sums in real arithmetic',
]
M = 'thetis.forcing:'
METHODS = ('LargePond1981', 'SmithBanke1975', 'LargeYeager2009')


def drag(v, method, w):
    """the published formulas"""
    F = core._frac if v.symbolic else float
    if method == 'LargePond1981':
        return v.ite(v.lt(11, w), F('0.00049') + F('0.000065') * w, F('0.0012'))
    if method == 'SmithBanke1975':
        return F('0.00063') + F('0.000066') * w
    x = w + F('0.001')
    return v.ite(v.lt(33, w), F('0.00234'), F('0.001') * (F('2.7') / x + F('0.142') + w / F('13.09') - F('0.000000000314807') * w**6))


def stress(v, a, b, method=None, rho=None):
    """stress of the code at one (arbitrary) element"""
    kw = {} if method is None else {'method': method}
    if v.symbolic:
        v.patch(fo, 'numpy', GNumpy())
        x, y = fo.compute_wind_stress(GArr(a), GArr(b), **kw)
        return x.x, y.x
    i = v.rng.randrange(3)
    A, B = numpy.array([3.0, -20.0, 41.0]), numpy.array([0.5, 7.0, -2.0])
    A[i], B[i] = a, b
    A0, B0 = A.copy(), B.copy()
    x, y = fo.compute_wind_stress(A, B, **kw)
    v.check('inputs not changed', bool(numpy.array_equal(A, A0) and numpy.array_equal(B, B0)))
    return float(x[i]), float(y[i])


def density(v):
    from firedrake import Constant
    r = v.choice('rho', (1.22, 1.5))
    v.patch(fo.physical_constants, 'rho_air', Constant(r))
    return core._frac(str(r)) if v.symbolic else r


for _m in METHODS + (None,):
    @contract('C26', M + 'compute_wind_stress', name='wind_stress_%s' % (_m or 'default'), tol=1e-9)
    def wind_stress(v, m=_m):
        rho = density(v)
        a, b = v.real('a'), v.real('b')
        if v.choice('calm', (False, True)):
            v.assume(v.eq(a, 0))
            v.assume(v.eq(b, 0))
            if not v.symbolic:
                a = b = 0.0
            x, y = stress(v, a, b, m)
            v.check('no stress without wind', v.all([v.eq(x, 0), v.eq(y, 0)]))
            return
        x, y = stress(v, a, b, m)
        w = v.sqrt(a * a + b * b)
        t = rho * drag(v, m or METHODS[2], w) * w
        v.check('x component: density * drag coefficient * speed * wind', v.eq(x, t * a))
        v.check('y component: density * drag coefficient * speed * wind', v.eq(y, t * b))


@contract('C26', M + 'compute_wind_stress', name='drag_properties')
def drag_properties(v):
    """lemmas on the formulas the code is proved equal to"""
    m = v.choice('method', METHODS)
    w, w2 = v.real('w', lo=0), v.real('w2', lo=0)
    v.assume(v.le(w, w2))
    c, c2 = drag(v, m, w), drag(v, m, w2)
    v.check('drag coefficient positive', v.lt(0, c))
    if m != METHODS[2]:
        v.check('drag coefficient does not decrease with wind speed', v.le(c, c2))
        v.check('stress does not decrease with wind speed', v.le(c * w * w, c2 * w2 * w2))
    else:
        F = core._frac if v.symbolic else float
        # w^2 c(w) = 1e-3 (2.7 w^2/(w+eps) + 0.142 w^2 + w^3/13.09 - k w^8): non-negative derivative of every part below the switch
        v.assume(v.le(w, 33))
        e, k = F('0.001'), F('0.000000000314807')
        v.check('stress formula', v.eq(1000 * c * w * w * (w + e), F('2.7') * w * w + (F('0.142') * w * w + w**3 / F('13.09') - k * w**8) * (w + e)))
        v.check('part w^2/(w + eps) non-decreasing (numerator of the derivative)', v.le(0, 2 * w * (w + e) - w * w))
        v.check('part w^3/13.09 - k w^8 non-decreasing (derivative)', v.le(0, 3 * w**2 / F('13.09') - 8 * k * w**7))
        at = drag(v, m, F('33'))
        v.check('upward step below one percent at the switch', v.all([v.lt(F('0.99') * F('0.00234'), at), v.le(at, F('0.00234'))]))
    if m == METHODS[0]:
        at = drag(v, m, 11)
        v.check('upward step below one percent at the switch', v.all([v.le(at, F0(v, '0.001205')), v.lt(F0(v, '0.001205') * 99, 100 * at)]))


def F0(v, s):
    return core._frac(s) if v.symbolic else float(s)


# ------------------------------------------------------------------ fields
class Data:
    """recording stand-in of the data array of a field (whole-array or whole-column writes)"""
    def __init__(self, shape): self.col, self.shape, self.n = {}, shape, 0

    def __setitem__(self, k, val):
        self.n += 1
        if k is Ellipsis or isinstance(k, slice) and k == slice(None):
            self.col[None] = val
        elif isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], slice) and k[0] == slice(None):
            self.col[k[1]] = val
        else:
            raise core.Unsupported('write to %r' % (k,))


def field(shape=(), space=None, name='f'):
    d = Data(shape)
    f = types.SimpleNamespace(dat=types.SimpleNamespace(data_with_halos=d, data=d, data_wo=d), ufl_shape=shape, col=d.col,
                              function_space=lambda: space, name=lambda: name)
    return f


class Readers:
    """stand-ins of the netCDF machinery: the series of variable `n` at time t is n(t); times after `last` are not available"""
    def __init__(self, v, last):
        self.v, self.last, self.made, self.fn = v, last, [], {}
        me = self

        class Search:
            def __init__(self, files, init_date, parser, *a, **k):
                self.files, self.init_date, self.parser, self.opts = files, init_date, parser, k
                self.a = a
                me.search = self

        class Series:
            def __init__(self, search, reader):
                assert isinstance(search, Search)
                self.search, self.reader = search, reader
                me.series = self

            def __call__(self, t):
                if t > me.last:
                    raise Exception('time after the last record')
                return [me.value(n, t) for n in self.reader.variable_list]

        class Grid:
            def __init__(self, space, coord_system, **k):
                self.space, self.coord_system, self.opts = space, coord_system, k
                self.mesh_lonlat = numpy.array([[1.0, 2.0], [3.0, 4.0], [5.0, 6.0]])
                me.grid = self
        v.patch(ip, 'NetCDFTimeSearch', Search)
        v.patch(ip, 'LinearTimeInterpolator', Series)
        v.patch(ip, 'NetCDFLatLonInterpolator2d', Grid)
        v.patch(fo, 'GenericSpatialInterpolator2D', Grid)

    def value(self, n, t):
        f = self.v.func('data_' + n)
        if self.v.symbolic:
            return GArr(f(t))
        return numpy.array([1.0, f(t), 2.0])


class System:
    def __init__(self, rot): self.rot = rot

    def get_vector_rotator(self, lon, lat):
        self.asked = (lon, lat)
        return self.rot


def element(v, x):
    return x.x if v.symbolic else float(x[1])


CLASSES = {   # class, wind components, pressure, time variable, Pascals per unit, parser
    'ERA5Interpolator': ('u10', 'v10', 'msl', 'valid_time', 1, 'NetCDFTimeParser'),
    'TCHazardsInterpolator': ('Uw', 'Vw', 'Pr', 'time', 100, 'NetCDFTimeParser'),
    'ATMInterpolator': ('uwind', 'vwind', 'prmsl', 'valid_time', 1, 'ATMNetCDFTime'),
    'AtmosphericForcingInterpolator': ('u10', 'v10', 'msl', 'valid_time', 1, 'NetCDFTimeParser'),
}


@contract('C26', [M + 'AtmosphericForcingInterpolator.__init__', M + 'AtmosphericForcingInterpolator.set_fields', M + 'ERA5Interpolator.__init__',
                  M + 'TCHazardsInterpolator.__init__', M + 'ATMInterpolator.__init__'], tol=1e-8)
def atmospheric_fields(v):
    cls = v.choice('class', tuple(CLASSES))
    east, north, prs, tname, pa, parser = CLASSES[cls]
    t, last = v.real('t'), v.real('last')
    R = Readers(v, last)
    d3 = v.flag('sphere')
    own = v.flag('own rotator')
    c = v.reals('r', 6)

    def rot(x, y):
        r = tuple(c[2 * i] * x + c[2 * i + 1] * y for i in range(3))
        return r if d3 else r[:2]

    def no(*a):
        raise AssertionError('wrong rotator')
    cs = System(no if own else rot)
    tau, p = field((3,) if d3 else (2,)), field()
    if v.symbolic:
        v.patch(fo, 'numpy', GNumpy())
    kw = {}
    fill = v.choice('fill', (None, 'nearest', 7.0))
    if fill == 'nearest':
        kw['fill_mode'] = 'nearest'
    elif fill is not None:
        kw['fill_value'] = fill
    a = getattr(fo, cls)('V', tau, p, cs, 'files*', 'date', vect_rotator=rot if own else None, **kw)
    v.check('reads the given files from the given start date', R.search.files == 'files*' and R.search.init_date == 'date')
    v.check('time variable and parser of the data set', (R.search.opts.get('time_variable_name') or (R.search.a or ['time'])[0]) == tname and R.search.parser.__name__ == parser)
    v.check('interpolates to the nodes of the given space', R.grid.space == 'V' and R.grid.coord_system is cs)
    v.check('treatment of points outside the data', R.grid.opts.get('fill_mode') == kw.get('fill_mode') and
            (numpy.isnan(R.grid.opts.get('fill_value', numpy.nan)) if fill != 7.0 else R.grid.opts['fill_value'] == 7.0))
    if not own:
        v.check('rotation at the interpolation nodes (longitude, latitude)', bool(numpy.array_equal(cs.asked[0], R.grid.mesh_lonlat[:, 0]) and numpy.array_equal(cs.asked[1], R.grid.mesh_lonlat[:, 1])))
    if t > last:
        ex, _ = raises(a.set_fields, t)
        v.check('no values after the last record', ex is not None and not tau.col and not p.col)
        return
    a.set_fields(t)
    v.cover('set')
    W = v.func('data_' + east)(t), v.func('data_' + north)(t)
    w = v.sqrt(W[0] * W[0] + W[1] * W[1])
    s = core._frac('1.22') if v.symbolic else 1.22
    k = s * drag(v, 'LargeYeager2009', w) * w
    want = rot(k * W[0], k * W[1])
    v.check('all components written', set(tau.col) == set(range(len(want))) and set(p.col) == {None})
    for i, x in enumerate(want):
        v.check('rotated wind stress, component %d' % i, v.eq(element(v, tau.col[i]), x))
    v.check('pressure in Pascal', v.eq(element(v, p.col[None]), pa * v.func('data_' + prs)(t)))


@contract('C26', [M + 'GenericInterpolator2D.__init__', M + 'GenericInterpolator2D.set_fields', 'thetis.interpolation:NetCDFSpatialInterpolator.__init__'], tol=1e-8)
def generic_fields(v):
    t, last = v.real('t'), v.real('last')
    R = Readers(v, last)
    d3, own, vec, back = v.flag('sphere'), v.flag('own rotator'), v.flag('vector'), v.flag('vector component also as scalar')
    c = v.reals('r', 6)

    def rot(x, y):
        r = tuple(c[2 * i] * x + c[2 * i + 1] * y for i in range(3))
        return r if d3 else r[:2]

    def no(*a):
        raise AssertionError('wrong rotator')
    cs = System(no if own else rot)
    V = types.SimpleNamespace(name='V')
    fields = [field(space=V, name=n) for n in ('one', 'two')]
    names = ['A', 'north' if back else 'B']
    given = list(names)
    uv = field((3,) if d3 else (2,), space=V)
    kw = dict(vector_field=uv, vector_components=['east', 'north'], vector_rotator=rot if own else None) if vec else {}
    g = fo.GenericInterpolator2D(V, fields, names, 'files*', 'date', cs, **kw)
    v.check('arguments not changed', names == given)
    v.check('reads the given files from the given start date', R.search.files == 'files*' and R.search.init_date == 'date')
    v.check('interpolates to the nodes of the given space', R.grid.space is V and R.grid.coord_system is cs)
    if vec and not own:
        v.check('rotation at the interpolation nodes (longitude, latitude)', bool(numpy.array_equal(cs.asked[0], R.grid.mesh_lonlat[:, 0]) and numpy.array_equal(cs.asked[1], R.grid.mesh_lonlat[:, 1])))
    if t > last:
        ex, _ = raises(g.set_fields, t)
        v.check('no values after the last record', ex is not None and not uv.col and not any(f.col for f in fields))
        return
    for again in range(2):
        g.set_fields(t)
        for f, n in zip(fields, names):
            v.check('scalar field holds its variable at the time', set(f.col) == {None})
            v.check('scalar field holds its variable at the time (value)', v.eq(element(v, f.col[None]), v.func('data_' + n)(t)))
            f.col.clear()
        if not vec:
            v.check('nothing else written', not uv.col)
        else:
            want = rot(v.func('data_east')(t), v.func('data_north')(t))
            v.check('all components written', set(uv.col) == set(range(len(want))))
            for i, x in enumerate(want):
                v.check('rotated vector, component %d' % i, v.eq(element(v, uv.col[i]), x))
            uv.col.clear()


@contract('C26', M + 'GenericInterpolator2D.__init__', kind='concrete', bounded='argument validation: a few wrong calls')
def generic_validation(v):
    Readers(v, 1.0)
    V, W = types.SimpleNamespace(name='V'), types.SimpleNamespace(name='W')
    rot = System(None)
    ok = [field(space=V)]
    for args, kw in (((V, [field(space=W)], ['A']), {}), ((V, ok, ['A', 'B']), {}), ((V, ok, []), {}), ((V, ok, ['A']), {'vector_components': ['a', 'b']})):
        ex, _ = raises(fo.GenericInterpolator2D, *args, 'f', 'd', rot, **kw)
        v.check('fields of another space, wrong number of names, missing vector field: rejected', isinstance(ex, AssertionError))


@contract('C26', M + 'ATMNetCDFTime.__init__', bounded='files of up to 5 uniformly spaced records, duration up to 7 steps')
def max_duration(v):
    n = v.choice('n', (2, 3, 5))
    t0, dt = v.real('t0'), v.real('dt', pos=True)
    D = v.real('D', lo=0)
    if not v.symbolic:
        dt = v.rng.choice((1800.0, 3600.0, 21600.0))
        D = dt * v.rng.choice((0.0, 0.5, 1.0, 1.25, 2.0, 2.5, 4.0, 6.5))
        t0 = 1.5e9
    v.assume(v.le(D, 7 * dt))
    limited = v.flag('limited')
    stamps = [t0 + i * dt for i in range(n)]

    def parse(self, filename, time_variable_name='time', **k):
        self.filename, self.time_variable_name = filename, time_variable_name
        self.time_array = numpy.array(stamps, dtype=object if v.symbolic else float)
        self.nb_steps, self.time_step = n, dt
        self.start_time, self.end_time = stamps[0], stamps[-1]
    v.patch(ip.NetCDFTimeParser, '__init__', parse)
    v.patch(fo.timezone, 'epoch_to_datetime', lambda x: x)
    v.patch(fo, 'float', lambda x: x)
    if v.symbolic:
        v.patch(fo, 'int', core.int_)
    if limited:
        v.assume(v.le(dt, D))
    p = fo.ATMNetCDFTime('f', max_duration=D, time_variable_name='valid') if limited else fo.ATMNetCDFTime('f')
    m = len(p.time_array)
    v.check('time variable passed on', p.time_variable_name == ('valid' if limited else 'time'))
    v.check('leading records kept', v.all([v.eq(a, b) for a, b in zip(p.time_array, stamps)]) if m else False)
    v.check('time span of the kept records', v.all([v.eq(p.get_start_time(), stamps[0]), v.eq(p.get_end_time(), stamps[m - 1])]))
    if not limited:
        v.check('all records', m == n)
        return
    v.check('no record at or after the maximum duration', v.lt((m - 1) * dt, D))
    v.check('no record dropped without need', m == n or v.lt(D, (m + 1) * dt))


# ------------------------------------------------------------------ tidal boundary forcing
@contract('C26', [M + 'TidalBoundaryForcing.__init__', M + 'TidalBoundaryForcing.set_tidal_field', M + 'TPXOTidalBoundaryForcing.__init__',
                  M + 'TPXOTidalBoundaryForcing._create_readers', M + 'FES2004TidalBoundaryForcing._create_readers'],
          bounded='5 nodes, boundary nodes 3, 1 (or the whole field, or none), every pattern of points without data; arbitrary values')
def tidal_field(v):
    import uptide
    n = 5
    cls = v.choice('class', ('TPXOTidalBoundaryForcing', 'FES2004TidalBoundaryForcing'))
    where = v.choice('nodes', ('boundary', 'all', 'none'))
    own = v.flag('own rotator')
    vel = cls.startswith('TPXO') and v.flag('velocity')
    dim = v.choice('space dimension', (2, 3))
    t = v.real('t')
    lon, lat = numpy.array([10.0, 20.0, 30.0, 40.0, 50.0]), numpy.array([1.0, 2.0, 3.0, 4.0, 5.0])
    nodes = {'boundary': [3, 1], 'all': list(range(n)), 'none': []}[where]
    no_elev = v.choice('no elevation at', ((), (3,), (1, 3)))
    no_vel = v.choice('no velocity at', ((), (1,))) if vel else ()
    no_v = v.choice('v component only missing at', ((), (3,))) if vel else ()
    log = []
    E, U, W = (v.func(k, 3) for k in ('elev', 'u', 'w'))

    class Reader:
        def __init__(self, kind, tide, *files, ranges=None):
            self.kind, self.tide, self.files, self.ranges, self.t = kind, tide, files, ranges, None
            log.append(self)

        def set_time(self, tt): self.t = tt

        def get_val(self, p, allow_extrapolation=False):
            x, y = p if cls.startswith('TPXO') else p[::-1]
            assert self.t is not None
            i = int(round(x / 10)) - 1
            v.check('reader asked at a mesh node', 0 <= i < n and y == lat[i])
            if i in {'elev': no_elev, 'u': no_vel, 'v': no_vel + no_v}[self.kind]:
                raise uptide.netcdf_reader.CoordinateError('no data', 0, 0, 0)
            return {'elev': E, 'u': U, 'v': W}[self.kind](self.t, x, y)

    class Tides:
        def __init__(self, c): self.c = c
        def set_initial_time(self, d): self.d = d
    tn = types.SimpleNamespace(
        OTPSncTidalInterpolator=lambda tide, grid, f, ranges=None: Reader('elev', tide, grid, f, ranges=ranges),
        OTPSncTidalComponentInterpolator=lambda tide, grid, f, a, b, ranges=None: Reader(a, tide, grid, f, ranges=ranges),
        FESTidalInterpolator=lambda tide, f, ranges=None: Reader('elev', tide, f, ranges=ranges))
    v.patch(fo, 'uptide', types.SimpleNamespace(Tides=Tides, tidal_netcdf=tn, netcdf_reader=uptide.netcdf_reader))
    v.patch(fo, 'os', types.SimpleNamespace(path=types.SimpleNamespace(join=fo.os.path.join, exists=lambda f: True)))
    xy = {'x': 100 * lon, 'y': 100 * lat, 'z': 7 * lon + lat}
    v.patch(fo, 'SpatialCoordinate', lambda mesh: ('x', 'y', 'z')[:dim])

    class Fn:
        def __init__(self, V): self.dat = None
        def interpolate(self, e):
            self.dat = types.SimpleNamespace(data_with_halos=xy[e], data=xy[e])
            return self
    v.patch(fo, 'Function', Fn)
    v.patch(fo, 'DirichletBC', lambda V, val, ids: types.SimpleNamespace(nodes=numpy.array(nodes, dtype=int)))
    dt_ = object if v.symbolic else float
    old_e = numpy.array(v.reals('e', n), dtype=dt_)
    old_u = numpy.array([v.reals(k, n) for k in ('uu', 'vv', 'ww')[:dim]], dtype=dt_).T.copy()
    elev, uv = old_e.copy(), old_u.copy()
    space = types.SimpleNamespace(mesh=lambda: types.SimpleNamespace(geometric_dimension=dim))

    def fld(a):
        return types.SimpleNamespace(dat=types.SimpleNamespace(data_with_halos=a, data=a), function_space=lambda: space)
    c = [v.reals('r%d_' % i, 2 * dim) for i in range(n)]
    C = numpy.array(c, dtype=dt_)

    def rot(x, y):
        return tuple(C[:, 2 * k] * x + C[:, 2 * k + 1] * y for k in range(dim))

    class Sys:
        def to_lonlat(self, x, y, *z, positive_lon=False):
            v.check('all coordinates of the nodes', len(z) == dim - 2 and all(numpy.array_equal(q, xy['z']) for q in z))
            v.check('longitude on the range of the tidal atlas', positive_lon is True)
            return x / 100, y / 100

        def get_vector_rotator(self, a, b):
            v.check('rotation at the nodes (longitude, latitude)', bool(numpy.array_equal(a, lon) and numpy.array_equal(b, lat)))
            assert not own
            return rot
    date = types.SimpleNamespace(tzinfo=1)
    kw = dict(uv_field=fld(uv)) if vel else {}
    if where != 'all':
        kw['boundary_ids'] = [7]
    if v.flag('constituents'):
        kw['constituents'] = ['M2']
    F = getattr(fo, cls)(fld(elev), date, Sys(), vect_rotator=rot if own else None, data_dir='d', **kw)
    if where != 'none':
        v.check('tide of the start date and the constituents', log and all(r.tide.d is date and r.tide.c == kw.get('constituents', ['Q1', 'O1', 'P1', 'K1', 'N2', 'M2', 'S2', 'K2']) for r in log))
        ll, bb = [lon.min(), lon.max()], [lat.min(), lat.max()]
        v.check('data range covers the nodes', all([list(q) for q in r.ranges] == ([ll, bb] if cls.startswith('TPXO') else [bb, ll]) for r in log))
        v.check('one reader per quantity', sorted(r.kind for r in log) == sorted(['elev'] + (['u', 'v'] if vel else [])))
        names = {'elev': 'h_tpxo9.v5a.nc', 'u': 'u_tpxo9.v5a.nc', 'v': 'u_tpxo9.v5a.nc'} if cls.startswith('TPXO') else {'elev': 'tide.fes2004.nc'}
        v.check('files of the data set', all(r.files[-1] == 'd/' + names[r.kind] for r in log))
    for tt in (t, t + 60):
        F.set_tidal_field(tt)
        for i in range(n):
            if i not in nodes:
                v.check('elevation outside the configured nodes unchanged', v.eq(elev[i], old_e[i]))
                v.check('velocity outside the configured nodes unchanged', v.all([v.eq(uv[i, k], old_u[i, k]) for k in range(dim)]))
                continue
            v.check('tidal elevation of the node at the time, zero without data', v.eq(elev[i], 0 if i in no_elev else E(tt, lon[i], lat[i])))
            if not vel:
                v.check('velocity not touched', v.all([v.eq(uv[i, k], old_u[i, k]) for k in range(dim)]))
                continue
            miss = i in no_vel + no_v
            a, b = (0, 0) if miss else (U(tt, lon[i], lat[i]), W(tt, lon[i], lat[i]))
            v.check('tidal velocity rotated to the mesh, zero without data', v.all([v.eq(uv[i, k], c[i][2 * k] * a + c[i][2 * k + 1] * b) for k in range(dim)]))
    v.cover('tide')
