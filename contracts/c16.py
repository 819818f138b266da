"""C16 spatial interpolation of gridded data."""
import os
import random
import tempfile
import types
import netCDF4
import numpy
import scipy.spatial
import thetis.interpolation as itp
import thetis.forcing as fo
from pyvc import core, symarr
from pyvc.contract import contract
from .common import raises

ASSUMPTIONS = [
    'contracts of the dependencies: qhull.Delaunay returns a triangulation with the affine transform to barycentric coordinates of each simplex, find_simplex the simplex containing a point or -1, cKDTree.query the nearest point; numpy indexing, einsum and reductions act element by element',
    'points whose barycentric weights are negative by rounding only (on the hull boundary) may be treated as outside',
    'GridInterpolator itself does not look at masks: the classes that handle masked data remove masked source points first',
]
I = 'thetis.interpolation:'


class QhullError(RuntimeError):
    pass


class Case:
    """one simplex of symbolic points and any targets; `transform` is any affine map (scipy: it yields the barycentric
    coordinates of a point relative to the simplex); a second (unused) simplex is stored before or after"""
    def __init__(self, v, d, inside, perm, order=0):
        self.v, self.d, self.inside, self.order, self.perm = v, d, inside, order, perm
        rg = {} if v.symbolic else dict(lo=-3, hi=3)
        self.pts = [[v.real('x%d_%d' % (i, j), **rg) for j in range(d)] for i in range(d + 1)]
        self.tgt = [[v.real('t%d_%d' % (m, j), **rg) for j in range(d)] for m in range(len(inside))]
        if v.symbolic:
            self.T = [[v.real('T%d_%d' % (i, j)) for j in range(d)] for i in range(d)]
            self.r = [v.real('r%d' % j) for j in range(d)]
        else:
            P = numpy.array([self.pts[p] for p in perm])
            E = (P[:d] - P[d]).T
            v.assume(abs(numpy.linalg.det(E)) > 1e-2)
            self.T, self.r = numpy.linalg.inv(E), P[d]
            for m, ins in enumerate(inside):
                w = numpy.array([.05 + v.real('w%d_%d' % (m, i), lo=0, hi=1) for i in range(d + 1)])
                if not ins:
                    w[m % 2] = -.3 - w[m % 2]
                w = w / w.sum() if abs(w.sum()) > .1 else w / .1
                w[-1] = 1 - w[:-1].sum()
                v.assume(ins or bool((w < -1e-6).any()))
                self.tgt[m] = list(w @ P)
        # the other simplex: the reflection of the first (same vertex numbers reversed) with its own affine map
        if v.symbolic:
            self.T2 = [[v.real('U%d_%d' % (i, j)) for j in range(d)] for i in range(d)]
            self.r2 = [v.real('q%d' % j) for j in range(d)]
        else:
            P = numpy.array([[50.0 + i * i + j * (i + 1) for j in range(d)] for i in range(d + 1)])
            self.T2, self.r2 = numpy.linalg.inv((P[:d] - P[d]).T), P[d]
        self.bary = []
        for m, ins in enumerate(inside):
            dl = [self.tgt[m][j] - self.r[j] for j in range(d)]
            bs = [sum(self.T[i][j] * dl[j] for j in range(d)) for i in range(d)]
            bs.append(1 - sum(bs))
            self.bary.append(bs)
            if v.symbolic:
                if ins:
                    for x in bs:
                        v.assume(x >= 0)
                else:
                    neg = v.choice('neg%d' % m, list(range(d + 1)))
                    v.assume(bs[neg] < 0)
                    # an outside point has a negative weight in every simplex
                    bs2 = [sum(self.T2[i][j] * (self.tgt[m][j] - self.r2[j]) for j in range(d)) for i in range(d)]
                    v.assume(v.any([x < 0 for x in bs2 + [1 - sum(bs2)]]))
        self.queried = []

    def install(self, fail=False):
        v, me = self.v, self

        class Delaunay:
            def __init__(self, points):
                if fail:
                    raise QhullError('flat')
                d = me.d
                v.check('triangulation of the source points', same_rows(v, points, me.pts))
                tr = [list(r) for r in me.T] + [list(me.r)]
                other = [list(r) for r in me.T2] + [list(me.r2)]
                simp = [list(me.perm), list(reversed(me.perm))]
                trs = [tr, other]
                if me.order:
                    simp.reverse()
                    trs.reverse()
                self.simplices = numpy.array(simp)
                self.transform = numpy.array(trs, dtype=object if v.symbolic else float)

            def find_simplex(self, x, *a, **k):
                return numpy.array([me.order if ins else -1 for ins in me.inside])
        self.Delaunay = Delaunay

        class Tree:
            def __init__(self, points):
                self.p = points

            def query(self, x):
                out = []
                for row in x:
                    out.append(me.nearest(self.p, row))
                return numpy.zeros(len(out)), numpy.array(out, dtype=int)
        v.patch(itp, 'qhull', types.SimpleNamespace(Delaunay=Delaunay, QhullError=QhullError))
        v.patch(scipy.spatial, 'cKDTree', Tree)
        if v.symbolic:
            v.patch(itp, 'numpy', symarr.NumpyShim())

    def nearest(self, P, row):
        v = self.v
        if not v.symbolic:
            return int(numpy.argmin([sum((a - b) ** 2 for a, b in zip(p, row)) for p in P]))
        # which target is asked for is part of the contract: identified by its coordinates
        k = v.choice('near%d' % len(self.queried), list(range(min(len(P), 3))))
        self.queried.append((k, row, P))
        return k

    def arr(self, rows):
        return numpy.array(rows, dtype=object if self.v.symbolic else float)


def same_rows(v, P, Q):
    return v.all([same_row(v, p, q) for p, q in zip(P, Q)]) if len(P) == len(Q) else False


def same_row(v, row, tgt):
    return v.all([v.eq(a, b) for a, b in zip(row, tgt)])


for _d, _cases in ((2, [(True, True), (True, False), (False, True), (False, False)]), (3, [(True,), (False,)])):
    for _ins in _cases:
        for _mode in ('nearest', None):
            for _order in (0, 1):
                @contract('C16', [I + 'GridInterpolator.__init__', I + 'GridInterpolator.__call__'],
                          name='grid_%dd_%s_%s_%d' % (_d, ''.join('io'[not x] for x in _ins), _mode, _order), budget=110, samples=3,
                          bounded='one simplex with symbolic vertices and data, two targets')
                def grid(v, d=_d, ins=_ins, mode=_mode, order=_order):
                    perm = (1, 2, 0) if not any(ins) else v.choice('perm', [tuple(range(d + 1)), tuple(reversed(range(d + 1))), tuple([1, 0] + list(range(2, d + 1)))])
                    perm = perm if len(perm) == d + 1 else tuple(reversed(range(d + 1)))
                    c = Case(v, d, ins, perm, order=order)
                    c.install()
                    fill = v.real('fill')
                    g = itp.GridInterpolator(c.arr(c.pts), c.arr(c.tgt), fill_mode=mode, fill_value=fill)
                    for rep in range(2 if any(ins) else 1):
                        vals = [v.real('val%d_%d' % (rep, i)) for i in range(d + 1)]
                        res = g(c.arr(vals))
                        v.check('one value per target', len(res) == len(ins))
                        q = 0
                        for m, x in enumerate(ins):
                            if x:
                                v.check('inside: weights are the barycentric coordinates (non-negative, sum to one)',
                                        v.eq(res[m], sum(b * vals[perm[i]] for i, b in enumerate(c.bary[m]))))
                            elif mode == 'nearest':
                                if v.symbolic:
                                    near, row, P = c.queried[q]
                                    q += 1
                                    v.check('nearest point looked up for the outside target', same_row(v, row, c.tgt[m]))
                                    v.check('among all source points', same_rows(v, P, c.pts))
                                else:
                                    near = c.nearest(c.pts, c.tgt[m])
                                v.check('outside: value of the nearest source point', v.eq(res[m], vals[near]))
                            else:
                                v.check('outside: fill value', v.eq(res[m], fill))


@contract('C16', [I + 'GridInterpolator.__init__', I + 'GridInterpolator.__call__'], bounded='four source points, two targets, symbolic data')
def cannot_triangulate(v):
    mode = v.choice('mode', ('nearest', None))
    quiet = v.flag('dont_raise')
    c = Case(v, 2, (True, True), (0, 1, 2))
    c.install(fail=True)
    fill = v.real('fill')
    ex, g = raises(itp.GridInterpolator, c.arr(c.pts), c.arr(c.tgt), fill_mode=mode, fill_value=fill, dont_raise=quiet)
    v.check('error passed on unless asked not to', (ex is not None) == (not quiet))
    if ex is not None:
        v.check('the triangulation error', isinstance(ex, QhullError))
        return
    vals = v.reals('val', 3)
    res = g(c.arr(vals))
    v.check('one value per target', len(res) == 2)
    for m in range(2):
        if mode is None:
            v.check('fill value', v.eq(res[m], fill))
        else:
            if v.symbolic:
                near, row, P = c.queried[m]
                v.check('nearest point looked up for the target', same_row(v, row, c.tgt[m]))
            else:
                near = c.nearest(c.pts, c.tgt[m])
            v.check('nearest value', v.eq(res[m], vals[near]))


# ------------------------------------------------------------------ real triangulations
@contract('C16', [I + 'GridInterpolator.__init__', I + 'GridInterpolator.__call__'], kind='concrete',
          bounded='40 random clouds of 5-60 points in 2D and 3D with and without normalisation, 30 targets each')
def real_clouds(v):
    rng = numpy.random.RandomState(4)
    for case in range(40):
        d = 2 if case % 2 else 3
        n = rng.randint(5, 60)
        scale = numpy.array([1.0, 50.0, 1000.0])[:d] if case % 4 == 0 else 1.0
        P = rng.rand(n, d) * scale
        X = (rng.rand(30, d) * 1.4 - .2) * scale
        norm = d == 3 and case % 4 == 0
        hull = scipy.spatial.Delaunay(P)
        inside = hull.find_simplex(X) >= 0
        g, c0 = rng.randn(d) / scale, rng.randn()
        lin = c0 + P @ g
        for mode, fill in (('nearest', numpy.nan), (None, numpy.nan), (None, -7.0)):
            o = itp.GridInterpolator(P, X, fill_mode=mode, fill_value=fill, normalize=norm)
            data = rng.randn(n)
            for rep in range(2):
                r = o(lin)
                v.check('linear data reproduced inside', numpy.allclose(r[inside], (c0 + X @ g)[inside], rtol=1e-8, atol=1e-8))
                r1 = o(numpy.full(n, 3.25))
                v.check('constants reproduced', numpy.allclose(r1[inside], 3.25))
                r = o(data)
                v.check('no new extrema', bool(numpy.all(r[inside] <= data.max() + 1e-9) and numpy.all(r[inside] >= data.min() - 1e-9)))
                if mode == 'nearest':
                    if norm:
                        a = 1.0 / (X.max(axis=0) - X.min(axis=0))
                    else:
                        a = 1.0
                    D = (((P * a)[None] - (X * a)[:, None]) ** 2).sum(axis=2)
                    v.check('outside points take the nearest value', numpy.allclose(r[~inside], data[D.argmin(axis=1)][~inside]))
                    v.check('constants reproduced everywhere', numpy.allclose(r1, 3.25))
                else:
                    v.check('outside points take the fill value', numpy.array_equal(r[~inside], numpy.full((~inside).sum(), fill), equal_nan=True))


@contract('C16', [I + 'GridInterpolator.__init__', I + 'GridInterpolator.__call__'], kind='concrete',
          bounded='24 random 3D clouds of 8-60 points, 1-6 targets sharing one, two or all three coordinates, normalised, all fill modes')
def shared_coordinates(v):
    """Scaling to the extent of the targets is defined also when the targets have no extent in a direction: one vertical
    column, one level, a single point."""
    rng = numpy.random.RandomState(9)
    for case in range(24):
        n, m = rng.randint(8, 60), rng.randint(1, 7)
        P = rng.rand(n, 3)
        X = rng.rand(m, 3) * 1.3 - .15
        share = [(0,), (2,), (0, 1), (1, 2), (0, 1, 2), (1,)][case % 6]
        X[:, list(share)] = X[0, list(share)]
        w = X.max(axis=0) - X.min(axis=0)
        a = numpy.array([1 / x if x > 0 else 1.0 for x in w])
        # targets on the border of the hull are left out: whether they count as inside is a matter of rounding
        hull = scipy.spatial.Delaunay(P * a)
        inside = hull.find_simplex(X * a) >= 0
        g, c0 = rng.randn(3), rng.randn()
        data = rng.randn(n)
        for mode, fill, dont in (('nearest', numpy.nan, False), ('nearest', numpy.nan, True), (None, -7.0, False)):
            exc, o = raises(itp.GridInterpolator, P, X, mode, fill, True, dont)
            v.check('targets sharing a coordinate are accepted', exc is None)
            if exc is not None:
                continue
            r = o(c0 + P @ g)
            v.check('linear data reproduced inside', numpy.allclose(r[inside], (c0 + X @ g)[inside], rtol=1e-8, atol=1e-8))
            r = o(data)
            if mode == 'nearest':
                D = (((P * a)[None] - (X * a)[:, None]) ** 2).sum(axis=2)
                v.check('outside points take the nearest value', numpy.allclose(r[~inside], data[D.argmin(axis=1)][~inside]))
            else:
                v.check('outside points take the fill value', numpy.array_equal(r[~inside], numpy.full((~inside).sum(), fill)))


class Interp2(itp.NetCDFLatLonInterpolator2d):
    def __init__(self, pts, mode=None, fill=numpy.nan):
        self.mesh_lonlat, self.fill_mode, self.fill_value, self._initialized = pts, mode, fill, False


def write_grid(fn, lat, lon, fields, lat_name='lat', lon_name='lon', swap_def=False, mask=None):
    with netCDF4.Dataset(fn, 'w') as nc:
        ny, nx = next(iter(fields.values())).shape[1:]
        nc.createDimension('time', None)
        nc.createDimension('y', ny)
        nc.createDimension('x', nx)
        for nm, a, std in sorted([(lat_name, lat, 'latitude'), (lon_name, lon, 'longitude')], reverse=swap_def):
            dims = ('y', 'x') if a.ndim == 2 else (('y',) if std == 'latitude' else ('x',))
            x = nc.createVariable(nm, 'f8', dims)
            x.standard_name = std
            x[:] = a
        for k, f in fields.items():
            x = nc.createVariable(k, 'f8', ('time', 'y', 'x'), fill_value=-9e9)
            x[:] = numpy.ma.array(f, mask=numpy.broadcast_to(mask, f.shape)) if mask is not None else f


def grids(rng, n):
    for case in range(n):
        ny, nx = rng.randint(3, 9), rng.randint(3, 11)
        y, x = numpy.sort(rng.rand(ny) * 5) + numpy.arange(ny), numpy.sort(rng.rand(nx) * 5) + numpy.arange(nx)
        if case % 3 == 0:
            y = y[::-1].copy()
        LON, LAT = numpy.meshgrid(x, y)
        two = case % 2
        if two:
            LON = LON + .07 * LAT
            LAT = LAT + .05 * numpy.sin(LON)
        m = rng.randint(1, 8)
        span = lambda a, k: a.min() + (a.max() - a.min()) * (rng.rand(k) * (1.5 if case % 4 == 1 else .96) - (.25 if case % 4 == 1 else -.02))
        pts = numpy.vstack([span(LON, m), span(LAT, m)]).T
        yield case, LON, LAT, (LON if two else x), (LAT if two else y), pts


@contract('C16', [I + 'NetCDFLatLonInterpolator2d.interpolate', I + 'SpatialInterpolator2d._create_interpolator', I + '_get_subset_nodes',
                  I + 'NetCDFSpatialInterpolator.__call__', I + 'get_ncvar_name'],
          kind='concrete', bounded='40 random 1D/2D lat-lon grids, 1-7 targets inside and outside, 3 times, 2 variables, both fill modes, in scratch netCDF files')
def netcdf_grids(v):
    rng = numpy.random.RandomState(6)
    for case, LON, LAT, lon, lat, pts in grids(rng, 40):
        with tempfile.TemporaryDirectory() as d:
            f, f2 = os.path.join(d, 'a.nc'), os.path.join(d, 'b.nc')
            c = rng.randn(3, 3)
            A = numpy.array([c[t, 0] + c[t, 1] * LON + c[t, 2] * LAT for t in range(3)])
            B = rng.randn(*A.shape)
            write_grid(f, lat, lon, {'A': A, 'B': B}, swap_def=case % 5 == 0)
            write_grid(f2, lat, lon, {'A': 2 * A, 'B': B}, swap_def=case % 5 == 0)
            P = numpy.vstack([LON.ravel(), LAT.ravel()]).T
            tri = scipy.spatial.Delaunay(P)
            inside = tri.find_simplex(pts) >= 0
            near = ((P[None] - pts[:, None]) ** 2).sum(axis=2).argmin(axis=1)
            for mode, fill in (('nearest', numpy.nan), (None, -1.0)):
                o = itp.NetCDFSpatialInterpolator(Interp2(pts, mode, fill), ['B', 'A'])
                for file, t, sc in ((f, 1, 1), (f2, 2, 2), (f, 0, 1), (f, 1, 1)):
                    ex, r = raises(o, file, t)
                    if ex is not None:
                        # only a degenerate subset (all nodes on a line) may be refused
                        v.check('no other error', type(ex).__name__ == 'QhullError')
                        break
                    b, a = r
                    v.check('one value per target', a.shape == (len(pts),) and b.shape == (len(pts),))
                    v.check('linear field reproduced at points inside the grid', numpy.allclose(a[inside], sc * (c[t, 0] + pts @ c[t, 1:])[inside]), str(case))
                    v.check('no new extrema', bool(numpy.all(b[inside] <= B[t].max() + 1e-9) and numpy.all(b[inside] >= B[t].min() - 1e-9)))
                    if mode == 'nearest':
                        v.check('outside points take the nearest value of the grid', numpy.allclose(b[~inside], B[t].ravel()[near][~inside]), str(case))
                    else:
                        v.check('outside points take the fill value', bool(numpy.all(b[~inside] == fill)))
                ex, r = raises(o.grid_interpolator.interpolate, f, ['nope'], 0)
                v.check('unknown variable rejected', ex is not None)


@contract('C16', I + 'NetCDFLatLonInterpolator2d.interpolate', kind='concrete', bounded='grids with one 1D and one 2D coordinate array')
def mixed_grid(v):
    for k in range(2):
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, 'a.nc')
            LON, LAT = numpy.meshgrid(numpy.arange(4.), numpy.arange(4.))
            write_grid(f, LAT if k else LAT[:, 0], LON[0] if k else LON, {'A': LON[None]})
            ex, r = raises(Interp2(numpy.array([[1.5, 1.2]])).interpolate, f, ['A'], 0)
            v.check('mixed coordinate arrays rejected', ex is not None)


@contract('C16', ['thetis.forcing:GenericSpatialInterpolator2D.interpolate', 'thetis.forcing:GenericSpatialInterpolator2D._create_interpolator',
                  'thetis.forcing:GenericSpatialInterpolator2D._get_subset_nodes'],
          kind='concrete', bounded='40 random lat-lon grids with random land masks (or none), 1-7 targets, 3 times, in scratch netCDF files')
def masked_grids(v):
    rng = numpy.random.RandomState(8)
    for case, LON, LAT, lon, lat, pts in grids(rng, 60):
        if LON is lon:
            continue
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, 'a.nc')
            mask = rng.rand(*LON.shape) < (.3 if case % 4 else 0)
            valid = ~mask
            c = rng.randn(3, 3)
            A = numpy.array([c[t, 0] + c[t, 1] * LON + c[t, 2] * LAT for t in range(3)])
            B = rng.randn(*A.shape)
            write_grid(f, lat, lon, {'A': A, 'B': B}, mask=mask)
            o = object.__new__(fo.GenericSpatialInterpolator2D)
            o.mesh_lonlat, o._initialized = pts, False
            P = numpy.vstack([LON.ravel(), LAT.ravel()]).T
            simplex = scipy.spatial.Delaunay(P[:, ::-1]).find_simplex(pts[:, ::-1])
            D = ((P[None] - pts[:, None]) ** 2).sum(axis=2)
            D[:, mask.ravel()] = 1e9
            near = D.argmin(axis=1)
            # targets outside the hull of the valid points must take the nearest valid value
            Pv = P[valid.ravel()]
            out = scipy.spatial.Delaunay(Pv).find_simplex(pts) < 0
            full = numpy.array([s >= 0 and bool(valid.ravel()[scipy.spatial.Delaunay(P[:, ::-1]).simplices[s]].all()) for s in simplex])
            for t in (1, 0, 2):
                ex, r = raises(o.interpolate, f, ['B', 'A'], t)
                if ex is not None:
                    v.check('no other error', type(ex).__name__ == 'QhullError')
                    break
                b, a = r
                lo, hi = B[t][valid].min(), B[t][valid].max()
                v.check('bounded by the valid data', bool(numpy.all(b >= lo - 1e-9) and numpy.all(b <= hi + 1e-9)))
                v.check('linear field reproduced where the enclosing points are valid', numpy.allclose(a[full], (c[t, 0] + pts @ c[t, 1:])[full]), str(case))
                v.check('outside: nearest valid value', numpy.allclose(b[out], B[t].ravel()[near][out]), str(case))


@contract('C16', I + 'get_ncvar_name', kind='concrete', bounded='all orders of 4 variables carrying the name as standard name, long name, variable name or not at all')
def variable_lookup(v):
    import itertools

    class Var:
        def __init__(self, name, **a):
            self.name, self._a = name, a
            for k, x in a.items():
                setattr(self, k, x)
        def ncattrs(self): return list(self._a)
    make = {'s': Var('q', standard_name='Latitude'), 'l': Var('w', long_name='latitude', standard_name='other'), 'n': Var('lat', units='deg'), 'x': Var('foo', long_name='bar')}
    for k in range(1, 5):
        for order in itertools.permutations('slnx', k):
            nc = types.SimpleNamespace(variables={make[o].name: make[o] for o in order}, filepath=lambda: 'f')
            want = 'q' if 's' in order else ('w' if 'l' in order else ('lat' if 'n' in order else None))
            ex, r = raises(itp.get_ncvar_name, nc, 'latitude', 'latitude', ['latitude', 'lat'])
            v.check('missing variable rejected', (ex is not None) == (want is None))
            if want:
                v.check('standard name first, then long name, then variable name', r == want, str((order, r)))
    ex, r = raises(itp.get_ncvar_name, types.SimpleNamespace(variables={}), None, None, 'a')
    v.check('one of the names must be given', ex is not None)


@contract('C16', I + 'SpatialInterpolator2d.__init__', kind='concrete', bounded='one planar mesh (P1 and DG0) and one spherical mesh')
def target_points(v):
    import firedrake as fd
    calls = []

    class CS:
        def to_lonlat(self, *c):
            calls.append(c)
            return c[0] * 2 + 1, c[1] * 3 - (c[2] if len(c) == 3 else 0)

    class T(itp.SpatialInterpolator2d):
        def interpolate(self, *a): pass
    for mesh in (fd.UnitSquareMesh(3, 2), fd.IcosahedralSphereMesh(2.0, 0)):
        for fam, deg in (('CG', 1), ('DG', 0)):
            fs = fd.FunctionSpace(mesh, fam, deg)
            o = T(fs, CS(), fill_mode='nearest', fill_value=4.0)
            xyz = [fd.Function(fs).interpolate(c).dat.data_with_halos for c in fd.SpatialCoordinate(mesh)]
            lon, lat = CS().to_lonlat(*xyz)
            v.check('target points are the longitude, latitude of the nodes', numpy.allclose(o.mesh_lonlat, numpy.vstack([lon, lat]).T))
            v.check('fill settings kept', o.fill_mode == 'nearest' and o.fill_value == 4.0)


# ------------------------------------------------------------------ ocean model data
def hull_split(P, X, scale):
    h = scipy.spatial.ConvexHull(P * scale)
    return numpy.all(h.equations[:, :-1] @ (X * scale).T + h.equations[:, -1:] < -1e-7, axis=0)


def write_ncom(d, lat, lon, zm, xi, yi, values, var, masked=True):
    for fn, nm, a in (('model_lat.nc', 'Lat', lat), ('model_lon.nc', 'Long', lon), ('model_zm.nc', 'zm', zm)):
        with netCDF4.Dataset(os.path.join(d, fn), 'w') as nc:
            dims = ('z', 'y', 'x')[-a.ndim:]
            for k, n in zip(dims, a.shape):
                nc.createDimension(k, n)
            nc.createVariable(nm, 'f8', dims)[:] = a
    f = os.path.join(d, var + '.nc')
    with netCDF4.Dataset(f, 'w') as nc:
        nc.createDimension('X_Index', len(xi))
        nc.createDimension('Y_Index', len(yi))
        nc.createVariable('X_Index', 'f4', ('X_Index',))[:] = xi
        nc.createVariable('Y_Index', 'f4', ('Y_Index',))[:] = yi
        dims = ('Y_Index', 'X_Index')
        if values.ndim == 3:
            nc.createDimension('level', values.shape[0])
            nc.createVariable('level', 'f4', ('level',))[:] = numpy.arange(values.shape[0])
            dims = ('level',) + dims
        nc.createVariable(var, 'f8', dims, fill_value=-9e9)[:] = values
    return f


def ncom_case(rng, case, three):
    """a window (xi, yi) of a curvilinear grid, levels below the surface, land, and columns of different depth"""
    NY, NX, nz = rng.randint(9, 13), rng.randint(7, 11), 4
    x, y = 230 + .1 * numpy.arange(NX), 45 + .08 * numpy.arange(NY)
    LON, LAT = numpy.meshgrid(x, y)
    LON = LON + .2 * (LAT - 45)
    LAT = LAT + .03 * numpy.sin(7 * LON)
    x0, y0 = rng.randint(0, 3), rng.randint(0, 3)
    xi, yi = numpy.arange(x0, NX - rng.randint(0, 2)), numpy.arange(y0, NY - rng.randint(0, 2))
    zm = -numpy.array([1., 6., 15., 30.])[:, None, None] * (1 + .3 * rng.rand(NY, NX))
    lon, lat, z = LON[yi][:, xi], LAT[yi][:, xi], zm[:, yi][:, :, xi]
    land = rng.rand(*lon.shape) < (.25 if case % 3 else 0)
    if case % 3 and case % 2:
        land[:, -2:] = True
    wet = rng.randint(1 if case % 3 else nz, nz + 1, size=lon.shape)
    mask = numpy.broadcast_to(land, z.shape) | (numpy.arange(nz)[:, None, None] >= wet)
    m = rng.randint(2, 8)
    X = numpy.vstack([lat.min() + (lat.max() - lat.min()) * (1.3 * rng.rand(m) - .15), lon.min() + (lon.max() - lon.min()) * (1.3 * rng.rand(m) - .15), -25 * rng.rand(m)]).T
    return LON, LAT, zm, xi, yi, lon, lat, z, (mask if three else land), X


N3 = 'thetis.forcing:SpatialInterpolatorNCOM3d.'
N2 = 'thetis.forcing:SpatialInterpolatorNCOM2d.'
NB = 'thetis.forcing:SpatialInterpolatorNCOMBase.'


@contract('C16', [N3 + 'interpolate', N3 + '_create_interpolator', N2 + 'interpolate', N2 + '_create_interpolator', NB + '_create_2d_mapping', NB + '_get_forcing_grid'],
          kind='concrete', bounded='60 random windows of curvilinear grids with land, missing depths or no missing value at all, 2-7 targets inside and outside, 2D and 3D, in scratch netCDF files')
def ncom_grids(v):
    rng = numpy.random.RandomState(11)
    for case in range(60):
        three = case % 2 == 0
        LON, LAT, zm, xi, yi, lon, lat, z, mask, X = ncom_case(rng, case // 2, three)
        with tempfile.TemporaryDirectory() as d:
            cls = fo.SpatialInterpolatorNCOM3d if three else fo.SpatialInterpolatorNCOM2d
            o = object.__new__(cls)
            o.grid_path, o._initialized = d, False
            T = o.latlonz_array = X if three else X[:, :2].copy()
            zz = z.copy()
            zz[0] = 1.5
            pos = [lat, lon] if not three else [numpy.broadcast_to(lat, z.shape), numpy.broadcast_to(lon, z.shape), zz]
            valid = ~mask
            P = numpy.vstack([a[valid] for a in pos]).T
            c = rng.randn(len(pos) + 1)
            lin = c[0] + sum(k * a for k, a in zip(c[1:], pos))
            rnd = rng.randn(*lin.shape)
            f1 = write_ncom(d, LAT, LON, zm, xi, yi, numpy.ma.array(lin, mask=mask), 'A')
            f2 = write_ncom(d, LAT, LON, zm, xi, yi, numpy.ma.array(rnd, mask=mask), 'B')
            scale = 1 / (T.max(axis=0) - T.min(axis=0)) if three else numpy.ones(2)
            inside = hull_split(P, T, scale)
            near = (((P * scale)[None] - (T * scale)[:, None]) ** 2).sum(axis=2).argmin(axis=1)
            for k in range(2):
                ex, r = raises(o.interpolate, f1, ['A'], 0)
                v.check('interpolated', ex is None, '%d %r' % (case, ex))
                a, = r
                ex, r = raises(o.interpolate, f2, ['B'], 0)
                b, = r
                v.check('linear data reproduced at points inside the data', numpy.allclose(a[inside], (c[0] + T @ c[1:])[inside], rtol=1e-6, atol=1e-6), str(case))
                v.check('no new extrema', bool(numpy.all(b <= rnd[valid].max() + 1e-9) and numpy.all(b >= rnd[valid].min() - 1e-9)), str(case))
                v.check('outside: nearest valid value' if not three else 'outside: a value of the data',
                        numpy.allclose(b[~inside], rnd[valid][near][~inside]) if not three else bool(numpy.isin(numpy.round(b[~inside], 9), numpy.round(rnd[valid], 9)).all()), str(case))


RM = 'thetis.forcing:SpatialInterpolatorROMS3d.'


class RomsFile(dict):
    """netCDF variables by name"""
    @property
    def variables(self): return self
    def __enter__(self): return self
    def __exit__(self, *a): return False


def roms_z(hc, s, cs, h, zeta):
    """full levels of the ROMS transformation, version 2"""
    return [[zeta[j] + (zeta[j] + h[j]) * (hc * s[k] + h[j] * cs[k]) / (hc + h[j]) for j in range(len(h))] for k in range(len(s))]


@contract('C16', RM + '_compute_roms_z_coord', bounded='three levels, grids of four points of which three are selected and two are wet; all values')
def roms_levels(v):
    """depth of the data levels: middle of the full levels of the ROMS vertical coordinate, the outermost at bed and surface"""
    n, nz = 4, 3
    h = [v.real('h%d' % i, pos=True) for i in range(n)]
    ze = [v.real('zeta%d' % i) for i in range(n)]
    s, cs = [v.real('s%d' % k, lo=-1, hi=0) for k in range(nz + 1)], [v.real('C%d' % k, lo=-1, hi=0) for k in range(nz + 1)]
    hc = v.real('hc', pos=True)
    A = lambda x, sh: numpy.array(x, dtype=object).reshape(sh).view(Ar) if v.symbolic else numpy.ma.array(numpy.array(x, dtype=float).reshape(sh))
    nc = RomsFile(zeta=A(ze, (1, 2, 2)), h=A(h, (2, 2)), Cs_w=A(cs, (nz + 1,)), s_w=A(s, (nz + 1,)), hc=A([hc], (1,)))
    o = object.__new__(fo.SpatialInterpolatorROMS3d)
    o.ind_lat, o.ind_lon = numpy.array([0, 1, 1]), numpy.array([1, 0, 1])
    o.mask = numpy.array([True, False, True])
    sel = [1, 3]
    const = v.choice('zeta', (None, .1))
    if const and v.symbolic:
        v.patch(fo, 'numpy', Np())
    z = o._compute_roms_z_coord(nc, constant_zeta=const) if const else o._compute_roms_z_coord(nc)
    hh = [h[i] for i in sel]
    zz = [core._frac(const) if v.symbolic else const] * 2 if const else [ze[i] for i in sel]
    w = roms_z(hc, s, cs, hh, zz)
    for j in range(2):
        for k in range(nz):
            want = w[0][j] if k == 0 else w[nz][j] if k == nz - 1 else (w[k][j] + w[k + 1][j]) / 2
            v.check('level', v.eq(z[k, j], want), '%d %d' % (k, j))
    v.cover()


class Ar(numpy.ndarray):
    """array of symbolic values in the place of a masked array without masked values"""
    def filled(self, x): return self


class Np:
    def __getattr__(self, k): return getattr(numpy, k)

    def ones_like(self, a):
        r = numpy.empty(numpy.shape(a), dtype=object)
        r[...] = 1
        return r


@contract('C16', [RM + 'interpolate', RM + '_create_interpolator', RM + '_get_subset_nodes', RM + '_compute_roms_z_coord'], kind='concrete',
          bounded='40 random curvilinear grids with land, 2-7 targets inside and outside, several times, in scratch netCDF files')
def roms_grids(v):
    rng = numpy.random.RandomState(13)
    for case in range(40):
        LON, LAT, zm, xi, yi, lon, lat, z, land, X = ncom_case(rng, case, False)
        ny, nx = lon.shape
        nz = 4
        flat = case % 2
        if flat:
            # equal scales in the horizontal and equal levels everywhere: the nearest valid point is in the nearest wet column
            X = numpy.vstack([X, [lat.min() - .1, lon.min() - .1, -20], [lat.min() - .1 + 1.5, lon.min() - .1 + 1.5, 0]])
        h = 30 + 20 * rng.rand(ny, nx) * (1 - flat)
        s = numpy.linspace(-1, 0, nz + 1)
        cs = -s ** 2
        hc = 5.0
        w = numpy.array(roms_z(hc, s, cs, h.ravel(), [.1] * h.size)).reshape((nz + 1, ny, nx))
        z = .5 * (w[1:] + w[:-1])
        z[0], z[-1] = w[0], w[-1]
        valid = numpy.broadcast_to(~land, z.shape)
        pos = [numpy.broadcast_to(lat, z.shape), numpy.broadcast_to(lon, z.shape), z]
        P = numpy.vstack([a[valid] for a in pos]).T
        c = rng.randn(4)
        lin = c[0] + sum(k * a for k, a in zip(c[1:], pos))
        rnd = rng.randn(*lin.shape)
        data = {'A': numpy.array([lin, 2 * lin, lin - 1]), 'B': rng.randn(3, *lin.shape)}
        scale = 1 / (X.max(axis=0) - X.min(axis=0))
        full = scipy.spatial.Delaunay(numpy.vstack([lat.ravel(), lon.ravel()]).T)
        sx = full.find_simplex(X[:, :2])
        tall = [i for i in range(len(X)) if sx[i] >= 0 and not land.ravel()[full.simplices[sx[i]]].any() and (h.ravel()[full.simplices[sx[i]]] > -X[i, 2] + 1).all()]
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, 'r.nc')
            with netCDF4.Dataset(f, 'w') as nc:
                for k, n in (('ocean_time', 3), ('s_rho', nz), ('s_w', nz + 1), ('eta', ny), ('xi', nx)):
                    nc.createDimension(k, n)
                for k, dims, a in (('lat_rho', ('eta', 'xi'), lat), ('lon_rho', ('eta', 'xi'), lon), ('mask_rho', ('eta', 'xi'), (~land).astype(float)), ('h', ('eta', 'xi'), h),
                                   ('zeta', ('ocean_time', 'eta', 'xi'), numpy.zeros((3, ny, nx)) + .5), ('Cs_w', ('s_w',), cs), ('s_w', ('s_w',), s)):
                    nc.createVariable(k, 'f8', dims, fill_value=-9e9)[:] = a
                nc.createVariable('hc', 'f8', ())[...] = hc
                for k, a in data.items():
                    nc.createVariable(k, 'f8', ('ocean_time', 's_rho', 'eta', 'xi'), fill_value=-9e9)[:] = numpy.ma.array(a, mask=~numpy.broadcast_to(valid, a.shape))
            o = object.__new__(fo.SpatialInterpolatorROMS3d)
            o._initialized, o.latlonz_array = False, X
            for t in (1, 0, 2):
                ex, r = raises(o.interpolate, f, ['B', 'A'], t)
                if ex is not None:
                    v.check('no other error', type(ex).__name__ == 'QhullError', '%d %r' % (case, ex))
                    break
                b, a = r
                want = (lambda y: [y, 2 * y, y - 1][t])(c[0] + X @ c[1:])
                v.check('linear data reproduced inside wet columns', numpy.allclose(a[tall], want[tall], rtol=1e-6, atol=1e-6), '%d %d' % (case, t))
                B = data['B'][t][valid]
                v.check('no new extrema', bool(numpy.all(b <= B.max() + 1e-9) and numpy.all(b >= B.min() - 1e-9)), str(case))
                D = (((P * scale)[None] - (X * scale)[:, None]) ** 2).sum(axis=2)
                v.check('outside: a value of the data', bool(numpy.isin(numpy.round(b[sx < 0], 9), numpy.round(B, 9)).all()), str(case))
                far = sx < 0
                if flat:
                    v.check('outside: nearest valid value', numpy.allclose(b[far], B[D.argmin(axis=1)][far]), str(case))


@contract('C16', [N3 + '__init__', N2 + '__init__', NB + '__init__', RM + '__init__'], kind='concrete', bounded='one rectangle mesh and one extruded mesh, P1 and DG0')
def ocean_targets(v):
    import firedrake as fd

    class CS:
        def to_lonlat(self, x, y, positive_lon=False):
            return 3 * x + y + (7 if positive_lon else 0), 5 * y - x
    m2 = fd.RectangleMesh(2, 3, 4.0, 3.0)
    m3 = fd.ExtrudedMesh(m2, 2, .5)
    m3.coordinates.dat.data[:, 2] -= 1 + .1 * m3.coordinates.dat.data_ro[:, 0]
    for deg, fam in ((1, 'CG'), (0, 'DG')):
        for cls, mesh, args in ((fo.SpatialInterpolatorNCOM2d, m2, ('grids',)), (fo.SpatialInterpolatorNCOM3d, m3, ('grids',)), (fo.SpatialInterpolatorROMS3d, m3, ())):
            V = fd.FunctionSpace(mesh, fam, deg)
            o = cls(V, CS(), *args)
            x = [fd.Function(V).interpolate(c).dat.data_ro_with_halos for c in fd.SpatialCoordinate(mesh)]
            lon, lat = CS().to_lonlat(x[0], x[1], positive_lon=bool(args))
            v.check('targets are latitude, longitude (and height) of the nodes', numpy.allclose(o.latlonz_array, numpy.vstack([lat, lon] + x[2:]).T), cls.__name__)
            v.check('no interpolator before the first file', not o._initialized and (not args or o.grid_path == 'grids'))
