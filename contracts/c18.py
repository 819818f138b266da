"""C18 vertex-based slope limiter."""
import ast
import re
import itertools
from types import SimpleNamespace as NS
import numpy
import firedrake as fd
from firedrake import *
import thetis
from thetis import limiter as lim, utility as ut
from firedrake.slope_limiter.vertex_based_limiter import VertexBasedLimiter as Base
from pyvc import core, uflsem
from pyvc.ckern import GF, GhostOp2, values, extremum, same
from pyvc.contract import contract
from .common import raises
from .c19 import nodes, meshes, space, columns, _m

ASSUMPTIONS = [
    'firedrake VertexBasedLimiter (external): compute_bounds sets the bounds at a vertex to the extrema of the centroids of the cells around it; apply = compute_bounds, then the limiting loop over the cells '
    '(whose instructions are read from the installed firedrake and proved to keep the mean and the bounds)',
    'pyop2 (external): a par_loop gathers the arguments through the maps, runs the kernel on every entity of the iteration region and reduces MIN/MAX arguments into the field',
    'firedrake (external): facet and cell maps, local facet numbers, dual nodes of the spaces; LinearSolver.solve solves with the current matrix',
    'C kernels: int is unbounded, double is real arithmetic; memory accesses are checked against the true argument sizes',
]
L = 'thetis.limiter:VertexBasedP1DGLimiter.'


def mesh_of(v):
    kind, dim = v.choice('mesh', ('triangles', 'quads', 'more triangles')), v.choice('dim', (2, 3))
    if kind == 'more triangles' and kind not in _m:
        _m[kind] = fd.RectangleMesh(2, 2, 2.0, 1.0)
    nl = v.choice('layers', (1, 2)) if dim == 3 else 0
    m2, m3 = meshes(kind, max(nl, 1))
    return m2, (m3 if dim == 3 else m2), nl, kind


def limiter(v, fs, **k):
    """a limiter whose external parts are recorded"""
    log = []
    v.patch(lim, 'assemble', lambda form, tensor=None, **kw: log.append(('assemble', form, tensor)) or tensor or NS(form=form))

    class Solver:
        def __init__(self, A, **kw): self.A = A

        def solve(self, x, b): log.append(('solve', x, b, self))
    v.patch(lim, 'LinearSolver', Solver)
    return lim.VertexBasedP1DGLimiter(fs, **k), log


def facets(m2, m3, nl, D):
    """boundary facets of the rectangle [0, 2] x [0, 1] (extruded): lists of (cell, layer, local nodes)"""
    X = m2.coordinates
    xm = X.function_space().cell_node_map().values_with_halo
    kx = {k: i for i, (k, z) in enumerate(nodes(fd.FunctionSpace(m2, X.function_space().ufl_element().sub_elements[0])))} if not hasattr(m2, '_kx') else m2._kx
    m2._kx = kx
    N = nodes(D)
    side = lambda p: {s for s, q in (('l', p[0]), ('r', 2.0 - p[0]), ('b', p[1]), ('t', 1.0 - p[1])) if abs(q) < 1e-10}
    out = []
    for c in range(xm.shape[0]):
        for l in range(max(nl, 1)):
            loc = [(j, side(X.dat.data_ro[xm[c][kx[k]]]), z) for j, (k, z) in enumerate(N)]
            for s in 'lrbt':
                on = [j for j, q, z in loc if s in q]
                if len(on) == (2 if not nl else 4):
                    out.append((c, l, on))
            if nl:
                for z0, lev in ((0.0, 0), (1.0, nl - 1)):
                    if l == lev:
                        out.append((c, l, [j for j, q, z in loc if z == z0]))
    return out


def node(fs, c, l, j):
    m = fs.cell_node_map()
    return int(m.values_with_halo[c][j]) + (l * int(m.offset[j]) if fs.extruded else 0)


@contract('C18', [L + 'compute_bounds', L + '__init__', 'thetis.utility:get_facet_mask'], samples=12, bounded='meshes of two to eight triangles or two quadrilaterals, flat and extruded; all values')
def bounds(v):
    """the bounds of a vertex are those from the cells around it, widened by the mean of every boundary facet (lateral, surface, bottom) that contains the vertex; the field is unchanged"""
    m2, m, nl, kind = mesh_of(v)
    q = kind == 'quads'
    D = space(m, 'DQ' if q else 'DG', 1, *(('DG', 1) if nl else ()))
    o, log = limiter(v, D)
    g = GhostOp2(v)
    v.patch(lim, 'op2', g)
    f = GF(D, values(v, 'q', D))
    old = list(f.a.ravel())
    o.max_field, o.min_field = GF(o.P1CG), GF(o.P1CG)
    n = len(o.max_field.a)
    up = [v.real('up%d' % i) for i in range(n)]
    lo = [v.real('lo%d' % i) for i in range(n)]
    calls = []

    def base(self, field):
        calls.append(field)
        self.max_field.a[:, 0] = up
        self.min_field.a[:, 0] = lo
    v.patch(Base, 'compute_bounds', base)
    o.compute_bounds(f)
    v.check('bounds of the cells first', len(calls) == 1 and calls[0] is f)
    v.check('field unchanged', all(x is y for x, y in zip(old, f.a.ravel())))
    kc = {k: i for i, k in enumerate(nodes(o.P1CG))}
    means = {i: [] for i in range(n)}
    for c, l, on in facets(m2, m, nl, D):
        mean = sum((f.a[node(D, c, l, j), 0] for j in on), 0.0) / len(on)
        for j in on:
            means[node(o.P1CG, c, l, kc[nodes(D)[j]])].append(mean)
    v.check('boundary vertices', sum(1 for i in means if means[i]) == n - (1 if kind == 'more triangles' and not nl else 0) - (1 if kind == 'more triangles' and nl == 2 else 0))
    for i in range(n):
        hi_, lo_ = o.max_field.a[i, 0], o.min_field.a[i, 0]
        v.check('upper bound', same(v, hi_, extremum(True, up[i], *means[i])))
        v.check('lower bound', same(v, lo_, extremum(False, lo[i], *means[i])))
    v.cover()


def facet_nodes(fs):
    """local nodes on every lateral facet of the reference cell"""
    el = fs.finat_element.fiat_equivalent
    T, X = el.ref_el.get_topology(), el.ref_el.get_vertices()
    flat = lambda p: tuple(round(float(x), 6) for x in numpy.ravel(numpy.hstack([numpy.ravel(q) for q in p])))
    pts = [flat(list(f.pt_dict)[0]) for f in el.dual_basis()]
    dim = (1, 1) if fs.extruded else (0, 1) if (0, 1) in T else 1
    out = {}
    tops = [dim] if dim != (0, 1) else [(0, 1), (1, 0)]
    for d in tops:
        for f in sorted(T[d]):
            vs = {flat(X[i]) for i in T[d][f]}
            out[len(out)] = {p for p in pts if p in vs}
    return out, {p: j for j, p in enumerate(pts)}


@contract('C18', [L + 'compute_bounds', 'thetis.utility:get_facet_mask'], samples=12)
def bounds_facet(v):
    """on a boundary facet (lateral, surface, bottom) of any mesh, the bounds at its vertices, and no others, are widened by the arithmetic mean of the values on the facet"""
    kind, dim = v.choice('mesh', ('triangles', 'quads')), v.choice('dim', (2, 3))
    m2, m3 = meshes(kind, 2)
    m = m3 if dim == 3 else m2
    D = space(m, 'DQ' if kind == 'quads' else 'DG', 1, *(('DG', 1) if dim == 3 else ()))
    o, log = limiter(v, D)
    F, at = facet_nodes(D)
    k = v.choice('facet', (0, 1, 2, 3))
    if k >= len(F):
        return
    if kind == 'quads' and dim == 2:
        # the numbering of the facets of a quadrilateral: (end 0/1 of the first direction), (of the second)
        v.check('facets of a quadrilateral', len(F) == 4)
    nums = []
    g = GhostOp2(v, generic=True, choose=lambda d: nums.append(d) or [k])
    v.patch(lim, 'op2', g)
    v.patch(Base, 'compute_bounds', lambda self, field: None)
    f = GF(D)
    o.max_field, o.min_field = GF(o.P1CG), GF(o.P1CG)
    C, cat = facet_nodes(o.P1CG)
    o.compute_bounds(f)
    v.check('loops: lateral boundary, and bottom and surface of extruded meshes', len(g.cells) == (3 if dim == 3 else 1))
    for i, c in enumerate(g.cells):
        hi, lo, q = g.cell(i, o.max_field.dat), g.cell(i, o.min_field.dat), g.cell(i, f.dat)
        v.check('bounds combined over the facets', hi.access is g.MAX and lo.access is g.MIN and q.access is g.READ)
        lateral = c.set is m.exterior_facets.set
        mp = (lambda u: u.exterior_facet_node_map()) if lateral else (lambda u: u.cell_node_map())
        v.check('fields gathered through their own maps', hi.map is mp(o.max_field.function_space()) and lo.map is mp(o.min_field.function_space()) and q.map is mp(D))
        if lateral:
            v.check('numbers of the boundary facets', all(d is m.exterior_facets.local_facet_dat for d in nums))
            on = F[k]
        else:
            z = {g.ON_BOTTOM: 0.0, g.ON_TOP: 1.0}.get(c.region)
            v.check('bottom or surface cells', dim == 3 and c.set is m.cell_set and z is not None)
            on = {p for p in at if p[-1] == z}
        mean = sum((q.before[at[p]] for p in on), 0.0) / len(on)
        for p, j in cat.items():
            v.check('upper bound', same(v, hi.after[j], extremum(True, hi.before[j], mean) if p in on else hi.before[j]))
            v.check('lower bound', same(v, lo.after[j], extremum(False, lo.before[j], mean) if p in on else lo.before[j]))
    regions = sorted(str(c.region) for c in g.cells)
    v.check('every kind of facet once', len(set(regions)) == len(regions))
    v.cover()


@contract('C18', [L + '_construct_centroid_solver', L + '_update_centroids'], samples=6)
def centroids(v):
    """the centroid c of a cell solves c |K| = integral of the field over K on the current mesh"""
    nl = v.choice('dim', (0, 2))
    m2, m3 = meshes('triangles', max(nl, 1))
    D = space(m3, 'DG', 1, 'DG', 1) if nl else space(m2, 'DG', 1)
    moving = v.choice('time_dependent_mesh', (None, True, False))
    o, log = limiter(v, D, **({} if moving is None else {'time_dependent_mesh': moving}))
    made = [x for x in log if x[0] == 'assemble']
    v.check('one matrix', len(made) == 1 and isinstance(o.centroid_solver.A, NS))
    forms = [made[0][1]]
    f = fd.Function(D)
    for k in range(v.choice('updates', (1, 2))):
        del log[:]
        o._update_centroids(f)
        sol = [i for i, x in enumerate(log) if x[0] == 'solve']
        v.check('one solve for the centroids', len(sol) == 1 and log[sol[0]][1] is o.centroids and log[sol[0]][3] is o.centroid_solver)
        rhs = log[sol[0]][2].form
        re_ = [x for x in log[:sol[0]] if x[0] == 'assemble' and x[2] is o.centroid_solver.A]
        v.check('matrix of the current mesh', moving is False or len(re_) >= 1)
        env = uflsem.Env(v, 3 if nl else 2)
        env.set(f, 'f', 'dg')
        (t,) = rhs.arguments()
        v.check('cell means', t.function_space() == o.P0)
        env.set(t, 't', 'dg')
        b = uflsem.integrals(rhs, env)
        v.check('right-hand side', [x[0] for x in b] == ['cell'] and v.eq(list(b.values())[0], v.real('f') * v.real('t')))
        for a in forms + [x[1] for x in re_]:
            at, au = a.arguments()
            v.check('cell means', at.function_space() == o.P0 and au.function_space() == o.P0)
            env.set(at, 't', 'dg')
            env.set(au, 'u', 'dg')
            A = uflsem.integrals(a, env)
            v.check('matrix', [x[0] for x in A] == ['cell'] and v.eq(list(A.values())[0], v.real('u') * v.real('t')))
    v.cover()


@contract('C18', [L + 'apply', L + '__init__'], samples=6, bounded='one mesh; all values')
def components(v):
    """a scalar field is limited itself; of a vector field every component is limited on its own and stored back, the others untouched"""
    nl = v.choice('dim', (0, 2))
    m2, m3 = meshes('triangles', max(nl, 1))
    k = v.choice('components', ('scalar', 2, 3))
    kw = {} if k == 'scalar' else dict(vector=True, dim=k)
    D = space(m3, 'DG', 1, 'DG', 1, **kw) if nl else space(m2, 'DG', 1, **kw)
    o, log = limiter(v, D)
    S = o.P1DG
    f = GF(D, values(v, 'q', D))
    old = f.a.copy()
    n = len(old)
    seen = []
    out = [[v.real('out%d_%d' % (i, j)) for j in range(n)] for i in range(D.block_size)]

    def apply(self, field):
        seen.append((self, field.function_space(), list(field.a[:, 0])))
        field.a[:, 0] = out[len(seen) - 1]
    v.patch(Base, 'apply', apply)
    free = []
    tmp = GF(S, values(v, 'junk', S))
    v.patch(type(S), 'get_work_function', lambda self, **kk: free.append(1) or tmp)
    v.patch(type(S), 'restore_work_function', lambda self, w: free.append(-1))
    o.apply(f)
    v.check('one call per component, in the scalar space of the limiter', len(seen) == D.block_size and all(s[0] is o and s[1] == S and len(s[1].value_shape) == 0 for s in seen))
    order = []
    for s in seen:
        i = [i for i in range(D.block_size) if all(x is y for x, y in zip(s[2], old[:, i]))]
        v.check('limits a component of the field', len(i) == 1 or not v.symbolic)
        order.append(i[0] if i else 0)
    v.check('every component once', sorted(order) == list(range(D.block_size)))
    for q, i in enumerate(order):
        for j in range(n):
            v.check('limited component stored', v.eq(f.a[j, i], out[q][j]))
    v.check('work storage returned', sum(free) == 0)
    v.cover()


def loop_text(fs):
    """instructions of the limiting loop of the installed firedrake"""
    o = object.__new__(Base)
    src = {}

    class Rec(dict):
        pass
    import inspect
    import textwrap
    s = inspect.getsource(Base.__init__)
    m = re.search(r'domain = "([^"]*q\.dofs[^"]*ii[^"]*)"\s*instructions = """(.*?)"""', s, re.S)
    return m.group(2) if m else None


@contract('C18', [L + 'apply'], samples=40, bounded='cells of 3 nodes (triangles); larger cells on samples')
def limiting(v):
    """the limiting loop keeps the cell mean, whatever the weights of its nodes, and leaves every value between the bounds of its vertex"""
    txt = loop_text(None)
    if txt is None:
        raise core.Unsupported('limiting loop of this firedrake')
    n = 3 if v.symbolic else v.choice('nodes', (3, 4, 6, 8))
    q = [v.real('q%d' % i) for i in range(n)]
    w = [v.real('w%d' % i, lo=0.01, hi=1) for i in range(n)]
    avg = sum((a * b for a, b in zip(q, w)), 0.0) / sum(w, 0.0)
    A = v.real('avg') if v.symbolic else avg
    if v.symbolic:
        v.assume(v.eq(sum((a * (b - A) for a, b in zip(w, q)), 0), 0))
    gu, gl = [v.real('gu%d' % i, lo=0) for i in range(n)], [v.real('gl%d' % i, lo=0) for i in range(n)]
    hi, lo = [A + g for g in gu], [A - g for g in gl]
    new = run_loop(v, txt, q, A, hi, lo, n)
    v.check('mean kept', v.eq(sum((a * (b - A) for a, b in zip(w, new)), 0.0), 0.0))
    for i in range(n):
        v.check('within the bounds', v.all([v.le(lo[i], new[i]), v.le(new[i], hi[i])]))
        v.check('towards the mean', v.all([v.le(0, (new[i] - A) * (q[i] - A)), v.le((new[i] - A) * (q[i] - A), (q[i] - A) * (q[i] - A))]))
    v.cover()


def run_loop(v, txt, q, A, hi, lo, n):
    """the loopy instructions, line by line (alternatives of a conditional are evaluated only when chosen)"""
    q = list(q)
    env = {}
    pend = {}
    body = [x.strip() for x in txt.strip().splitlines() if x.strip()]
    i = 0

    def ev(n, g):
        if isinstance(n, ast.IfExp):
            return ev(n.body if bool(ev(n.test, g)) else n.orelse, g)
        if isinstance(n, ast.Name) and n.id in pend:
            return val(pend[n.id], g['__idx__'])
        if any(isinstance(x, ast.IfExp) or isinstance(x, ast.Name) and x.id in pend for x in ast.walk(n)):
            raise core.Unsupported('limiting loop: ' + ast.unparse(n))
        return eval(compile(ast.Expression(n), 'loop', 'eval'), g)

    def val(e, idx):
        g = {'fmin': core.min_, 'fmax': core.max_, 'q': q, 'qmax': hi, 'qmin': lo, 'qbar': {(0, 0): A}, **env, **idx, '__idx__': idx, '__builtins__': {}}
        return ev(ast.parse(e.strip(), mode='eval').body, g)

    def line(s, idx):
        s = re.sub(r'<\w+>\s*', '', s)
        l, r = s.split('=', 1) if not re.search(r'[<>]=', s.split('if')[0]) else (None, None)
        l = l.strip()
        m = re.match(r'q\[(\w+)\]$', l)
        if m:
            q[idx[m.group(1)]] = val(r, idx)
        elif l.startswith('_'):
            pend[l] = r
        else:
            env[l] = val(r, idx)
    while i < len(body):
        m = re.match(r'for (\w+)$', body[i])
        if m:
            j = body.index('end', i)
            for k in range(n):
                for s in body[i+1:j]:
                    line(s, {m.group(1): k})
            i = j + 1
        else:
            line(body[i], {})
            i += 1
    return q


@contract('C18', [L + 'apply', L + 'compute_bounds', L + '_update_centroids', L + '__init__', 'thetis.limiter:assert_function_space'], kind='concrete', samples=3,
          bounded='random discontinuous fields on one triangle mesh, flat or extruded with moving levels; scalar and vector fields')
def real_limiter(v):
    """on real fields: means kept (also after the mesh moved), values between the bounds from neighbouring means and boundary facets; other spaces are refused"""
    m2 = _m.setdefault('real2', fd.RectangleMesh(2, 2, 2.0, 1.0))
    v.check('linear discontinuous fields only', raises(lim.VertexBasedP1DGLimiter, space(m2, 'CG', 1))[0] is not None and raises(lim.VertexBasedP1DGLimiter, space(m2, 'DG', 2))[0] is not None)
    m3 = meshes('triangles', 1)[1]
    for a in (('DG', 1, 'DG', 0), ('DG', 0, 'DG', 1), ('CG', 1, 'DG', 1), ('DG', 1, 'CG', 1), ('DG', 1, 'DG', 2)):
        v.check('linear discontinuous fields only', raises(lim.VertexBasedP1DGLimiter, space(m3, *a))[0] is not None)
    for nl in (0, 2):
        m = fd.ExtrudedMesh(m2, nl, 1.0/nl) if nl else m2
        D = space(m, 'DG', 1, 'DG', 1) if nl else space(m, 'DG', 1)
        V = space(m, 'DG', 1, 'DG', 1, vector=True) if nl else space(m, 'DG', 1, vector=True)
        o, ov = lim.VertexBasedP1DGLimiter(D), lim.VertexBasedP1DGLimiter(V)
        P0 = o.P0
        t = fd.TestFunction(P0)
        for move in range(2):
            if nl:
                z = m.coordinates.dat.data
                z[:, 2] *= 1.0 + numpy.array([v.rng.uniform(0, 0.3) for _ in range(len(z))])
            f = fd.Function(D)
            q0 = numpy.array([v.rng.choice((v.rng.uniform(-1, 1), v.rng.uniform(-1, 1), 3.0)) for _ in range(D.dim())])
            f.dat.data[:] = q0
            vol = fd.assemble(t * dx).dat.data_ro
            b0 = fd.assemble(f * t * dx).dat.data_ro / vol
            o.apply(f)
            b1 = fd.assemble(f * t * dx).dat.data_ro / vol
            v.check('cell means kept', abs(b0 - b1).max() < 1e-10, '%g' % abs(b0 - b1).max())
            hi, lo = {}, {}
            kc = {k: i for i, k in enumerate(nodes(o.P1CG))}
            N = nodes(D)

            def put(n, x):
                hi[n], lo[n] = max(hi.get(n, -1e9), x), min(lo.get(n, 1e9), x)
            for c in range(m2.num_cells()):
                for l in range(max(nl, 1)):
                    for j, k in enumerate(N):
                        put(node(o.P1CG, c, l, kc[k]), b0[node(P0, c, l, 0)])
            for c, l, on in facets(m2, m, nl, D):
                mean = sum(q0[node(D, c, l, j)] for j in on) / len(on)
                for j in on:
                    put(node(o.P1CG, c, l, kc[N[j]]), mean)
            for c in range(m2.num_cells()):
                for l in range(max(nl, 1)):
                    for j, k in enumerate(N):
                        n, x = node(o.P1CG, c, l, kc[k]), f.dat.data_ro[node(D, c, l, j)]
                        v.check('within the bounds', lo[n] - 1e-10 <= x <= hi[n] + 1e-10, '%g [%g, %g]' % (x, lo[n], hi[n]))
                        v.check('bounds', abs(o.max_field.dat.data_ro[n] - hi[n]) < 1e-10 and abs(o.min_field.dat.data_ro[n] - lo[n]) < 1e-10)
            w = fd.Function(V)
            w.dat.data[:] = [[q0[i], q0[-1 - i], 1.5][:V.block_size] for i in range(len(q0))]
            r = fd.Function(D)
            comp = w.dat.data_ro.copy()
            ov.apply(w)
            for i in range(V.block_size):
                r.dat.data[:] = comp[:, i]
                o.apply(r)
                v.check('components like scalars', abs(r.dat.data_ro - w.dat.data_ro[:, i]).max() < 1e-10)
