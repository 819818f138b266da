"""C25 coordinate systems, vector rotation, beta plane."""
import math
import itertools
import types
import numpy
import pyproj
import thetis.coordsys as cs
import thetis.utility as ut
from pyvc import core, symarr
from pyvc.contract import contract
from .common import raises

ASSUMPTIONS = [
    'pyproj transformations are trusted (their round trip is sampled: bounded contract utm_zones); the transformation is an arbitrary pair of functions in the proofs',
    'arctan2, sin and cos: sin(arctan2(a, b)) = a/h, cos(arctan2(a, b)) = b/h with h = sqrt(a^2 + b^2) > 0; the vector operations of numpy act element by element',
    'trigonometric constants of the beta plane: sin and cos are uninterpreted functions of the latitude in radians',
]
M = 'thetis.coordsys:'


class Ang:
    """angle known by (sin, cos) up to scale; only its sine and cosine are used"""
    def __init__(self, a, b, h):
        self.a, self.b, self.h = a, b, h

    def __neg__(self): return Ang(-self.a, self.b, self.h)


class Numpy(symarr.NumpyShim):
    def __init__(self, v): self.v = v

    def arctan2(self, a, b):
        if not (core.is_sym(a) or core.is_sym(b)):
            return numpy.arctan2(a, b)
        h = self.v.sqrt(a * a + b * b)
        self.v.assume(h > 0)
        return Ang(a, b, h)

    def sin(self, x):
        if isinstance(x, Ang):
            return x.a / x.h
        return core.uf('sin', x) if core.is_sym(x) else numpy.sin(x)

    def cos(self, x):
        if isinstance(x, Ang):
            return x.b / x.h
        return core.uf('cos', x) if core.is_sym(x) else numpy.cos(x)

    @staticmethod
    def array(x, *a, **k):
        try:
            return numpy.array(x, *a, **k)
        except core.Unsupported:
            return numpy.array(x, dtype=object)

    @staticmethod
    def mod(x, y):
        if core.is_sym(x):
            return x - y * core.Sym(core.z3.ToReal(core.z3.ToInt(core.zreal(x) / core.zreal(y))))
        return numpy.mod(x, y)


class Elem:
    """one generic element of an array that may be indexed with [slice] (all elements) or [[i]] (that element)"""
    def __init__(self, x, at, node=None): self.x, self.at, self.node = x, at, node
    def __getitem__(self, k):
        return self.x if isinstance(k, slice) else (self.at if len(k) == 1 and k[0] is self.node else None)


def rotate(v):
    """a rotator at a generic point, and the direction of the second source axis"""
    X, Y = v.func('X', 2), v.func('Y', 2)
    x, y = v.real('x'), v.real('y')
    seen = []

    class T:
        @staticmethod
        def transform(a, b):
            if v.symbolic:
                seen.append((a, b))
                return X(a, b), Y(a, b)
            a, b = float(numpy.ravel(a)[0]), float(numpy.ravel(b)[0])
            seen.append((a, b))
            return numpy.array([X(a, b)]), numpy.array([Y(a, b)])
    if v.symbolic:
        v.patch(cs, 'numpy', Numpy(v))
    else:
        v.assume(abs(X(x, y + 1e-6) - X(x, y)) + abs(Y(x, y + 1e-6) - Y(x, y)) > 1e-8)
    r = cs.VectorCoordSysRotation(T, x if v.symbolic else numpy.array([x]), y if v.symbolic else numpy.array([y]))
    if v.symbolic:
        r.rotation_cos, r.rotation_sin = Elem(r.rotation_cos, None), Elem(r.rotation_sin, None)
    return r, X, Y, x, y, list(seen)


@contract('C25', [M + 'VectorCoordSysRotation.__init__', M + 'VectorCoordSysRotation.__call__', M + 'get_vector_rotation_matrix'], tol=1e-4)
def vector_rotation(v):
    r, X, Y, x, y, pts = rotate(v)
    vx, vy = v.real('vx'), v.real('vy')
    if not v.symbolic:
        vx, vy = numpy.array([vx]), numpy.array([vy])
        X0, Y0 = X, Y
        f = lambda z: float(numpy.ravel(z)[0])
    else:
        f = lambda z: z
    u, w = r(vx, vy)
    v.check('length preserved', v.eq(f(u) ** 2 + f(w) ** 2, f(vx) ** 2 + f(vy) ** 2))
    z = 0 * vx
    o = z + 1
    ex = r(o, z)
    ey = r(z, o)
    v.check('linear in the components (1)', v.eq(f(u), f(vx) * f(ex[0]) + f(vy) * f(ey[0])))
    v.check('linear in the components (2)', v.eq(f(w), f(vx) * f(ex[1]) + f(vy) * f(ey[1])))
    v.check('axes stay orthogonal', v.eq(f(ex[0]) * f(ey[0]) + f(ex[1]) * f(ey[1]), 0))
    v.check('orientation kept', v.eq(f(ex[0]) * f(ey[1]) - f(ex[1]) * f(ey[0]), 1))
    # the second source axis points to the direction in which the transformed point moves when y increases
    pts = [(f(a), f(b)) for a, b in pts]
    a, b = pts[-1]
    x0, y0 = (x, y)
    v.check('moves along the second source axis only', v.all([v.eq(p[0], x0) for p in pts]))
    dl = b - y0
    v.check('forward difference', v.lt(0, dl) if v.symbolic else dl > 0)
    dx, dy = X(a, b) - X(x0, y0), Y(a, b) - Y(x0, y0)
    h = v.sqrt(dx * dx + dy * dy)
    if v.symbolic:
        # same direction as (dx, dy)
        v.check('image of the second axis is along the transformed axis', v.eq(f(ey[0]) * dy - f(ey[1]) * dx, 0))
        v.check('... and not opposite', v.le(0, f(ey[0]) * dx + f(ey[1]) * dy))
    else:
        v.check('image of the second axis is the transformed axis', abs(f(ey[0]) * h - dx) <= 1e-3 * h and abs(f(ey[1]) * h - dy) <= 1e-3 * h)


@contract('C25', M + 'VectorCoordSysRotation.__call__')
def one_node(v):
    c, s = v.unit('r', 2)
    c3, s3 = v.unit('q', 2)
    r = object.__new__(cs.VectorCoordSysRotation)
    node = v.int('node', lo=0, hi=3)
    if v.symbolic:
        r.rotation_cos, r.rotation_sin = Elem(c, c3, node), Elem(s, s3, node)
    else:
        r.rotation_cos, r.rotation_sin = numpy.full(4, c), numpy.full(4, s)
        r.rotation_cos[node], r.rotation_sin[node] = c3, s3
    vx, vy = v.real('vx'), v.real('vy')
    f = lambda z: float(numpy.ravel(z)[node - 1 if numpy.size(z) > 1 else 0]) if not v.symbolic else z
    u, w = r(vx, vy)
    v.check('all nodes: their own rotation', v.all([v.eq(f(u), vx * c - vy * s), v.eq(f(w), vx * s + vy * c)]))
    u, w = r(vx, vy, i_node=node)
    if not v.symbolic:
        v.check('one vector', numpy.size(u) == numpy.size(w) == 1)
    v.check('one node: the rotation of that node', v.all([v.eq(f(u), vx * c3 - vy * s3), v.eq(f(w), vx * s3 + vy * c3)]))


@contract('C25', M + 'get_vector_rotation_matrix')
def rotation_matrix(v):
    if not v.symbolic:
        R, th = cs.get_vector_rotation_matrix(cs.UTMCoordinateSystem(10).transformer_xy, numpy.array([-124.0 + v.real('x', lo=-2, hi=2)]), numpy.array([46.0 + v.real('y', lo=-3, hi=3)]))
        R = R[:, :, 0]
        v.check('orthogonal', bool(numpy.allclose(R @ R.T, numpy.eye(2))))
        v.check('matrix of the angle', bool(numpy.allclose(R[:, 0], [math.cos(th[0]), math.sin(th[0])])))
        return
    X, Y = v.func('X', 2), v.func('Y', 2)
    v.patch(cs, 'numpy', Numpy(v))
    x, y = v.real('x'), v.real('y')
    R, th = cs.get_vector_rotation_matrix(types.SimpleNamespace(transform=lambda a, b: (X(a, b), Y(a, b))), x, y, v.real('delta', pos=True))
    for i in range(2):
        for j in range(2):
            v.check('orthogonal', v.eq(sum(R[i][k] * R[j][k] for k in range(2)), int(i == j)))
    v.check('determinant one', v.eq(R[0][0] * R[1][1] - R[0][1] * R[1][0], 1))
    v.check('matrix of the returned angle', v.all([v.eq(R[0][0], th.b / th.h), v.eq(R[1][0], th.a / th.h)]))


# ------------------------------------------------------------------ point transforms
@contract('C25', [M + 'UTMCoordinateSystem.to_lonlat', M + 'UTMCoordinateSystem.to_xy', M + 'proj_transform'])
def point(v):
    L, B, X, Y = (v.func(n, 2) for n in 'LBXY')
    u = object.__new__(cs.UTMCoordinateSystem)
    u.transformer_lonlat = types.SimpleNamespace(transform=lambda a, b: (L(a, b), B(a, b)))
    u.transformer_xy = types.SimpleNamespace(transform=lambda a, b: (X(a, b), Y(a, b)))
    if v.symbolic:
        v.patch(cs, 'numpy', Numpy(v))
    x, y = v.real('x'), v.real('y')
    lon, lat = u.to_lonlat(x, y)
    v.check('longitude, latitude of the inverse projection', v.all([v.eq(lon, L(x, y)), v.eq(lat, B(x, y))]))
    a, b = u.to_xy(x, y)
    v.check('projection of longitude, latitude', v.all([v.eq(a, X(x, y)), v.eq(b, Y(x, y))]))
    lon, lat = u.to_lonlat(x, y, positive_lon=True)
    v.check('latitude unchanged', v.eq(lat, B(x, y)))
    v.check('longitude in [0, 360)', v.all([v.le(0, lon), v.lt(lon, 360)]))
    if v.symbolic:
        k = (lon - L(x, y)) / 360
        v.check('equal to the longitude modulo a full turn', v.eq(k, core.Sym(core.z3.ToReal(core.z3.ToInt(core.zreal(k))))))
    else:
        k = (float(lon) - L(x, y)) / 360
        v.check('equal to the longitude modulo a full turn', abs(k - round(k)) < 1e-9)


@contract('C25', M + 'proj_transform', kind='concrete', bounded='arrays of up to 4 entries (float, integer, 2D), every pattern of nan/inf entries')
def invalid_points(v):
    def tr(a, b):
        a, b = numpy.asarray(a), numpy.asarray(b)
        v.check('only valid points reach the projection', bool(numpy.all(numpy.isfinite(a)) and numpy.all(numpy.isfinite(b))))
        return 2.5 * a + b, a - 0.5 * b
    T = types.SimpleNamespace(transform=tr)
    bad = (None, numpy.nan, numpy.inf)
    for n in (1, 2, 3):
        for px in itertools.product(bad, repeat=n):
            for py in itertools.product(bad, repeat=n):
                x = numpy.array([1.0 + i if p is None else p for i, p in enumerate(px)])
                y = numpy.array([5.0 - i if p is None else p for i, p in enumerate(py)])
                a, b = cs.proj_transform(x, y, T)
                ok = numpy.isfinite(x) & numpy.isfinite(y)
                v.check('valid points transformed, invalid points not-a-number', bool(
                    numpy.allclose(a[ok], 2.5 * x[ok] + y[ok]) and numpy.allclose(b[ok], x[ok] - .5 * y[ok])
                    and numpy.all(numpy.isnan(a[~ok])) and numpy.all(numpy.isnan(b[~ok]))))
                v.check('inputs not changed', bool(numpy.array_equal(x, numpy.array([1.0 + i if p is None else p for i, p in enumerate(px)]), equal_nan=True)))
    xi, yi = numpy.array([[1, 2], [3, 4]]), numpy.array([[5, 6], [7, 9]])
    a, b = cs.proj_transform(xi, yi, T)
    v.check('integer arrays are not truncated', bool(numpy.allclose(a, 2.5 * xi + yi) and numpy.allclose(b, xi - .5 * yi)))
    for x, y in ((xi, xi[0]), (xi, 3.0), (3.0, xi)):
        ex, r = raises(cs.proj_transform, x, y, T)
        v.check('mismatched inputs rejected', ex is not None)


@contract('C25', [M + 'UTMCoordinateSystem.__init__', M + 'UTMCoordinateSystem.get_vector_rotator', M + 'UTMCoordinateSystem.get_mesh_lonlat_function'],
          kind='concrete', bounded='all 60 zones, both hemispheres, 9 points each')
def utm_zones(v):
    import firedrake as fd
    for zone in range(1, 61):
        for south in (False, True):
            u = cs.UTMCoordinateSystem(zone, south=south)
            c = -183.0 + 6 * zone
            lon = c + numpy.array([-2.5, 0, 2.0] * 3)
            lat = numpy.repeat([0.3, 30.0, 60.0], 3) * (-1 if south else 1)
            x, y = u.to_xy(lon, lat)
            v.check('easting of the central meridian', bool(numpy.allclose(x[1::3], 500000.0)))
            v.check('north or south grid', bool(numpy.all(y < 1e7) and numpy.all(y > (1e6 if south else 0)) and (not south or abs(y[0] - (1e7 - 33183)) < 2000)))
            lo, la = u.to_lonlat(x, y)
            v.check('round trip', bool(numpy.allclose(lo, lon, atol=1e-9) and numpy.allclose(la, lat, atol=1e-9)))
            lo, la = u.to_lonlat(x, y, positive_lon=True)
            v.check('positive longitude', bool(numpy.allclose((lo - lon) % 360 % 359.9999999, 0, atol=1e-6) and numpy.all((lo >= 0) & (lo < 360))))
            rot = u.get_vector_rotator(lon, lat)
            p, q = rot(numpy.zeros(9), numpy.ones(9))
            x2, y2 = u.to_xy(lon, lat + 1e-4)
            h = numpy.hypot(x2 - x, y2 - y)
            v.check('north goes to grid north', bool(numpy.allclose(p, (x2 - x) / h, atol=1e-3) and numpy.allclose(q, (y2 - y) / h, atol=1e-3)))
    u = cs.UTMCoordinateSystem(10)
    m = fd.RectangleMesh(2, 2, 1e4, 2e4)
    m.coordinates.dat.data[:] += numpy.array([4.5e5, 5.1e6])
    f = u.get_mesh_lonlat_function(m)
    X = m.coordinates.dat.data_ro
    lon, lat = u.to_lonlat(X[:, 0].copy(), X[:, 1].copy())
    v.check('mesh coordinates in longitude, latitude', bool(numpy.allclose(f.dat.data_ro[:, 0], lon) and numpy.allclose(f.dat.data_ro[:, 1], lat)))


# ------------------------------------------------------------------ beta plane
OMEGA, RADIUS = 7.2921150e-5, 6371.e3


@contract('C25', ['thetis.utility:beta_plane_coriolis_params', 'thetis.utility:beta_plane_coriolis_function'])
def beta_plane(v):
    lat = v.real('lat', lo=-90, hi=90)
    F = core._frac if v.symbolic else float
    if v.symbolic:
        v.patch(ut, 'numpy', Numpy(v))
    f0, beta = ut.beta_plane_coriolis_params(lat)
    a = lat * F(math.pi) / 180
    n = Numpy(v) if v.symbolic else numpy
    c = 1e-9
    if v.symbolic:
        # the argument of sin/cos is the latitude in radians: decided on the normalised argument
        al = 2 * F(math.pi) * lat / F(360.0)
        s, co = core.uf('sin', al), core.uf('cos', al)
    else:
        s, co = math.sin(a), math.cos(a)
    v.check('f0 = 2 Omega sin(latitude)', v.eq(f0, 2 * F(OMEGA) * s))
    v.check('beta = 2 Omega cos(latitude) / R', v.eq(beta * F(RADIUS) , 2 * F(OMEGA) * co))
    # the planar field
    y, y0 = v.real('y'), v.real('y0')
    got = []
    if v.symbolic:
        v.patch(ut, 'SpatialCoordinate', lambda m: (v.real('xx'), y))
    else:
        v.patch(ut, 'SpatialCoordinate', lambda m: (0.3, y))
    out = types.SimpleNamespace(function_space=lambda: types.SimpleNamespace(mesh=lambda: None), interpolate=got.append)
    ut.beta_plane_coriolis_function(lat, out, y_offset=y0)
    v.check('set once', len(got) == 1)
    v.check('f = f0 + beta (y - y0)', v.eq(got[0], f0 + beta * (y - y0)))
