"""C19 transfers between 2D and 3D, mesh motion, extrusion."""
from types import SimpleNamespace as NS
import numpy
import firedrake as fd
from firedrake import *
import thetis
from thetis import utility as ut, utility3d as u3
from pyvc import core, uflsem
from pyvc.ckern import GF, GhostOp2, values
from pyvc.contract import contract

ASSUMPTIONS = [
    'pyop2 (external): a par_loop gathers the arguments through the maps, runs the kernel on every cell of the iteration region and writes back (WRITE arguments start from zero)',
    'firedrake (external): the cell-node maps, layer offsets and dual nodes of the function spaces; Projector is some function of its input; linear solves return the solution of the form handed over',
    'C kernels: int is unbounded, double is real arithmetic; memory accesses are checked against the true argument sizes',
]
U, W = 'thetis.utility:', 'thetis.utility3d:'
_m = {}


def meshes(kind, layers):
    if kind not in _m:
        _m[kind] = fd.RectangleMesh(1, 1, 2.0, 1.0) if kind == 'triangles' else fd.RectangleMesh(2, 1, 2.0, 1.0, quadrilateral=True)
    k = (kind, layers)
    if k not in _m:
        _m[k] = fd.ExtrudedMesh(_m[kind], layers, 1.0/layers)
    return _m[kind], _m[k]


_s = {}


def space(mesh, *a, **k):
    key = (id(mesh), a, tuple(sorted(k.items())))
    if key not in _s:
        _s[key] = ut.get_functionspace(mesh, *a, **k)
    return _s[key]


_n = {}


def nodes(fs):
    """for every local node: (key of its horizontal part, height of the node in the element or None)"""
    if fs in _n:
        return _n[fs]
    el = fs.finat_element
    while hasattr(el, '_base_element'):
        el = el._base_element
    el = el.fiat_equivalent
    d3 = fs.extruded
    out = []
    for f in el.dual_basis():
        key, zs = [], set()
        for p, ws in f.pt_dict.items():
            p = tuple(float(x) for x in numpy.ravel(numpy.hstack([numpy.ravel(q) for q in p])))
            if d3:
                zs.add(round(p[-1], 6))
                p = p[:-1]
            for w, comp in ws:
                if abs(w) > 1e-12:
                    key.append(tuple(round(x, 6) for x in p) + (round(float(w), 6), tuple(comp) if isinstance(comp, tuple) else (comp,)))
        out.append((tuple(sorted(key)), min(zs) if zs else None))
    _n[fs] = out
    return out


def columns(fs3, fs2):
    """for every cell and layer and local 3D node: (3D node, 2D node of the same cell below it, height in the element, layer, cell)"""
    m3, m2 = fs3.cell_node_map(), fs2.cell_node_map()
    k2 = {k: i for i, (k, z) in enumerate(nodes(fs2))}
    nl = int(numpy.ravel(fs3.mesh().cell_set.layers)[0]) - 1
    for c in range(m2.values_with_halo.shape[0]):
        for l in range(nl):
            for j, (k, z) in enumerate(nodes(fs3)):
                yield int(m3.values_with_halo[c][j]) + l * int(m3.offset[j]), int(m2.values_with_halo[c][k2[k]]), z, l, c


PAIRS = (('DG', 1, 'DG', 1), ('CG', 1, 'CG', 1), ('DG', 0, 'DG', 0), ('DG', 1, 'DG', 0), ('DG', 1, 'CG', 1), ('CG', 2, 'CG', 2), ('DG', 1, 'DG', 2), ('RT', 1, 'DG', 0), ('RT', 1, 'DG', 1), ('BDM', 1, 'DG', 1))


def pair(v, quads=True, pairs=PAIRS, vectors=True, layers=(1, 2, 3)):
    p = v.choice('element', pairs)
    hdiv = p[0] in ('RT', 'BDM')
    kind = 'triangles' if hdiv or not quads else v.choice('mesh', ('triangles', 'quads'))
    nl = v.choice('layers', layers)
    m2, m3 = meshes(kind, nl)
    if hdiv:
        return space(m2, *p[:2]), space(m3, *p, hdiv=True), nl, True
    vec = v.choice('components', ('scalar', 'vector', 'vector in 3D')) if vectors else 'scalar'
    fam = dict(CG='Q', DG='DQ') if kind == 'quads' else dict(CG='CG', DG='DG')
    h = (fam[p[0]], p[1])
    k2 = {} if vec == 'scalar' else dict(vector=True, dim=2)
    k3 = {} if vec == 'scalar' else dict(vector=True, dim=2) if vec == 'vector' else dict(vector=True)
    return space(m2, *h, **k2), space(m3, *h, *p[2:], **k3), nl, False


def ghost(v, mod):
    g = GhostOp2(v)
    v.patch(mod, 'op2', g)
    return g


def linear(v, mod):
    """record the linear problems set up and the solves"""
    prob, log = [], []

    class Prob:
        def __init__(self, a, l, u, **k): prob.append((a, l, u))

    class Solver:
        def __init__(self, p, **k): pass
        def solve(self): log.append('solve')
    v.patch(mod, 'LinearVariationalProblem', Prob)
    v.patch(mod, 'LinearVariationalSolver', Solver)
    return prob, log


BND = 'meshes of two cells and one to three layers, ten element pairs, scalar and vector fields; all values'


@contract('C19', [W + 'ExpandFunctionTo3d.__init__', W + 'ExpandFunctionTo3d.solve', U + 'get_facet_mask', U + 'get_extruded_base_element', U + 'get_functionspace'], bounded=BND, samples=10)
def expand(v):
    """every 3D node gets the value of the 2D node of its column; the 2D field is unchanged; components a 3D vector has in addition are zero"""
    f2, f3, nl, hdiv = pair(v)
    ghost(v, u3)
    prob, log = linear(v, u3)
    a = GF(f2, values(v, 'a', f2))
    old = a.a.copy()
    b = GF(f3, values(v, 'b', f3))
    h = fd.Constant(2.0) if hdiv else None
    o = u3.ExpandFunctionTo3d(a, b, elem_height=h)
    for call in range(2):
        o.solve()
        for n3, n2, z, l, c in columns(f3, f2):
            for k in range(f3.block_size):
                v.check('value of the column', v.eq(b.a[n3, k], a.a[n2, k] if k < f2.block_size else 0.0), '%s node %d' % (f3, n3))
        v.check('input unchanged', all(x is y for x, y in zip(old.ravel(), a.a.ravel())))
        v.check('flux fields are scaled by the element height, others are not', len(log) == (call + 1 if hdiv else 0))
        b.a[:] = 0.5
    if hdiv:
        check_scaling(v, prob, b, f3, h, 'times')
    v.cover()


def check_scaling(v, prob, out, fs, h, how):
    v.check('one scaling problem for the output', len(prob) == 1 and prob[0][2] is out)
    a, l, _ = prob[0]
    t = l.arguments()[0]
    at, au = a.arguments()
    v.check('in the space of the output', t.function_space() == fs and at.function_space() == fs and au.function_space() == fs)
    d = fs.mesh().geometric_dimension
    env = uflsem.Env(v, d)
    hv = v.real('height', pos=True)
    env.const(h, hv)
    env.set(t, 't', 'cg')
    env.set(at, 't', 'cg')
    env.set(au, 'u', 'cg')
    env.set(out, 'f', 'cg')
    A, L = uflsem.integrals(a, env), uflsem.integrals(l, env)
    v.check('volume terms', [k[0] for k in A] == [k[0] for k in L] == ['cell'])
    first = lambda q: list(q.values())[0]
    T, Uu, F = ([v.real('%s_%d' % (q, i)) for i in range(d)] for q in 'tuf')
    dot_ = lambda p, q: sum((x * y for x, y in zip(p, q)), 0.0)
    v.check('mass form', v.eq(first(A), dot_(T, Uu)))
    v.check('scaled right-hand side', v.eq(first(L), dot_(T, F) * hv if how == 'times' else dot_(T, F) / hv))


@contract('C19', [W + 'SubFunctionExtractor.__init__', W + 'SubFunctionExtractor.solve', U + 'get_facet_mask', U + 'get_extruded_base_element'], bounded=BND, samples=10)
def extract(v):
    """the output is the trace of the 3D field on the chosen facet (or the mean of both facets) of the top or bottom element of the column; the 3D field is unchanged"""
    f2, f3, nl, hdiv = pair(v)
    bnd = v.choice('boundary', ('top', 'bottom'))
    fac = v.choice('facet', (None, 'top', 'bottom', 'average'))
    ghost(v, u3)
    prob, log = linear(v, u3)
    a = GF(f3, values(v, 'a', f3))
    old = a.a.copy()
    b = GF(f2, values(v, 'b', f2))
    h = fd.Constant(2.0) if hdiv else None
    o = u3.SubFunctionExtractor(a, b, boundary=bnd, elem_facet=fac, elem_height=h)
    o.solve()
    zs = {z for _, z in nodes(f3)}
    lo, hi = min(zs), max(zs)
    lev = nl - 1 if bnd == 'top' else 0
    fc = fac or bnd
    want = {}
    for n3, n2, z, l, c in columns(f3, f2):
        if l == lev and z in (lo, hi):
            want.setdefault((c, n2), {})[z] = n3
    for (c, n2), w in want.items():
        for k in range(f2.block_size):
            t, d = a.a[w[hi], k], a.a[w[lo], k]
            v.check('trace', v.eq(b.a[n2, k], t if fc == 'top' else d if fc == 'bottom' else 0.5 * (t + d)), '%s %s %s' % (f3, bnd, fc))
    v.check('input unchanged', all(x is y for x, y in zip(old.ravel(), a.a.ravel())))
    v.check('flux fields are scaled by the element height, others are not', len(log) == (1 if hdiv else 0))
    if hdiv:
        check_scaling(v, prob, b, f2, h, 'over')
    v.cover()


@contract('C19', [W + 'SubFunctionExtractor.solve', W + 'ExpandFunctionTo3d.solve'], bounded=BND, samples=10)
def inverse(v):
    """extracting any boundary or facet of a copied field gives the field back"""
    f2, f3, nl, hdiv = pair(v, pairs=PAIRS[:7])
    bnd, fac = v.choice('boundary', ('top', 'bottom')), v.choice('facet', (None, 'top', 'bottom', 'average'))
    ghost(v, u3)
    a, b, c = GF(f2, values(v, 'a', f2)), GF(f3), GF(f2)
    u3.ExpandFunctionTo3d(a, b).solve()
    u3.SubFunctionExtractor(b, c, boundary=bnd, elem_facet=fac).solve()
    for x, y in zip(a.a.ravel(), c.a.ravel()):
        v.check('same field', v.eq(x, y))
    v.cover()


@contract('C19', [W + 'ExpandFunctionTo3d.__init__', W + 'SubFunctionExtractor.__init__'], kind='concrete', samples=1, bounded='mismatching element pairs')
def mismatch(v):
    """fields of different horizontal elements, unknown facets and flux fields without element height are refused"""
    m2, m3 = meshes('triangles', 2)
    from .common import raises
    f2, f3 = fd.Function(space(m2, 'DG', 1)), fd.Function(space(m3, 'CG', 1))
    v.check('families', raises(u3.ExpandFunctionTo3d, f2, f3)[0] is not None and raises(u3.SubFunctionExtractor, f3, f2)[0] is not None)
    g2, g3 = fd.Function(space(m2, 'RT', 1)), fd.Function(space(m3, 'RT', 1, 'DG', 0, hdiv=True))
    v.check('element height', raises(u3.ExpandFunctionTo3d, g2, g3)[0] is not None and raises(u3.SubFunctionExtractor, g3, g2)[0] is not None)
    d3 = fd.Function(space(m3, 'DG', 1, 'DG', 1))
    v.check('facet', raises(lambda: u3.SubFunctionExtractor(d3, f2, elem_facet='side'))[0] is not None)


# ------------------------------------------------------------------ mesh motion

def ale_world(v, layers=(1, 2, 3)):
    kind, nl = v.choice('mesh', ('triangles', 'quads')), v.choice('layers', layers)
    m2, m3 = meshes(kind, nl)
    cg = 'CG' if kind == 'triangles' else 'Q'
    dg = 'DG' if kind == 'triangles' else 'DQ'
    P1, P1_3, D1 = space(m2, cg, 1), space(m3, cg, 1, 'CG', 1), space(m2, dg, 1)
    D3 = space(m3, dg, 1, 'DG', 1)
    D3, D2 = (D3, D1) if v.flag('discontinuous element height') else (P1_3, P1)
    ghost(v, u3)
    ghost(v, ut)
    memo = {}

    class Proj:
        def __init__(self, src, dst, **k): self.src, self.dst = src, dst

        def project(self):
            if self.src.fs == self.dst.fs:
                self.dst.assign(self.src)
                return self.dst
            key = (tuple(id(x) for x in self.src.a.ravel()), self.dst.fs)
            if key not in memo:
                memo[key] = (list(self.src.a.ravel()), values(v, 'proj%d_' % len(memo), self.dst.fs))
            self.dst.a[:] = numpy.array(memo[key][1], dtype=object).reshape(self.dst.a.shape)
            return self.dst
    v.patch(u3, 'Projector', Proj)
    v.patch(u3, 'Function', GF)
    X = m3.coordinates.function_space()
    w = NS(m2=m2, m3=m3, P1=P1, P1_3=P1_3, D3=D3, D2=D2, nl=nl, memo=memo, X=X)
    w.bath = GF(P1, values(v, 'bath', P1, pos=True))
    zref = numpy.empty(P1_3.cell_node_map().toset.total_size, dtype=object)
    w.cols = list(columns(P1_3, P1))
    s = [None] + [v.real('s%d' % i, lo=0, hi=1) for i in range(1, nl)] + [None]
    prev = 0.0
    for i in range(1, nl):
        v.assume(v.lt(prev, s[i]))
        prev = s[i]
    if nl > 1:
        v.assume(v.lt(prev, 1.0))
    w.level = {}
    for n3, n2, z, l, c in w.cols:
        lev = l + int(round(z))
        w.level[n3] = (lev, n2)
        b = w.bath.a[n2, 0]
        zref[n3] = -b if lev == 0 else 0.0 if lev == nl else -b * (1 - s[lev])
    w.zref = GF(P1_3, zref)
    w.elev = GF(D1, values(v, 'elev', D1))
    w.coords = GF(X, values(v, 'xyz', X))
    w.f = NS(elev_2d=w.elev, elev_cg_2d=GF(P1, values(v, 'elevcg', P1)), bathymetry_2d=w.bath, z_coord_ref_3d=w.zref, z_coord_3d=GF(P1_3, values(v, 'z', P1_3)), v_elem_size_3d=GF(D3, values(v, 'h3', D3)),
             v_elem_size_2d=GF(D2, values(v, 'h2', D2)), w_mesh_3d=GF(P1_3, values(v, 'w', P1_3)))
    w.cleared = []
    w.dt = v.real('dt', pos=True)
    mesh = NS(coordinates=w.coords, cell_set=m3.cell_set, clear_rtree=lambda: w.cleared.append(list(w.coords.a.ravel())))
    w.solver = NS(fields=w.f, options=NS(use_ale_moving_mesh=True), function_spaces=NS(P1_2d=P1), dt=w.dt, mesh=mesh)
    return w


def heights(v, w):
    """element heights follow the current levels"""
    zc = {}
    for n3, n2, z, l, c in columns(w.P1_3, w.P1):
        zc[c, l, int(round(z)), [k for k, q in enumerate(w.P1.cell_node_map().values_with_halo[c]) if q == n2][0]] = w.f.z_coord_3d.a[n3, 0]
    m2 = w.D2.cell_node_map().values_with_halo
    for n3, n2, z, l, c in columns(w.D3, w.D2):
        k = [k for k, q in enumerate(m2[c]) if q == n2][0]
        hgt = v.abs(zc[c, l, 1, k] - zc[c, l, 0, k])
        if w.D3 == w.P1_3 and w.nl > 1:
            # a continuous height is that of one of the two adjacent layers
            lev = w.level[n3][0]
            cand = [v.eq(w.f.v_elem_size_3d.a[n3, 0], v.abs(zc[c, q, 1, k] - zc[c, q, 0, k])) for q in (lev - 1, lev) if 0 <= q < w.nl]
            v.check('element height', v.any(cand))
        else:
            v.check('element height', v.eq(w.f.v_elem_size_3d.a[n3, 0], hgt))
        if l == w.nl - 1 and z > 0.5:
            v.check('element height at the surface', v.eq(w.f.v_elem_size_2d.a[n2, 0], w.f.v_elem_size_3d.a[n3, 0]))


@contract('C19', [W + 'ALEMeshUpdater.__init__', W + 'ALEMeshUpdater.update_mesh_coordinates', W + 'ALEMeshUpdater.update_elem_height', U + 'compute_elem_height'],
          bounded='meshes of two cells and one to three layers; all values', samples=10)
def moving(v):
    """after an update the bed stays at -bathymetry, the top is at the elevation, levels keep their order and their relative position in between; only heights of nodes change; element heights follow"""
    w = ale_world(v)
    o = u3.ALEMeshUpdater(w.solver)
    xy = w.coords.a[:, :2].copy()
    b0, e0, r0 = w.bath.a.copy(), w.elev.a.copy(), w.zref.a.copy()
    o.update_mesh_coordinates()
    eta = w.f.elev_cg_2d.a
    v.check('elevation is that of the current elevation field', len(w.memo) >= 1 and list(w.memo.values())[0][0] == list(w.elev.a.ravel()) or w.elev.fs == w.P1)
    v.check('inputs unchanged', all(x is y for p, q in ((b0, w.bath.a), (e0, w.elev.a), (r0, w.zref.a)) for x, y in zip(p.ravel(), q.ravel())))
    cm, zm = w.X.cell_node_map().values_with_halo, w.P1_3.cell_node_map().values_with_halo
    z = w.f.z_coord_3d.a[:, 0]
    for n3, (lev, n2) in w.level.items():
        b, e, r = w.bath.a[n2, 0], eta[n2, 0], w.zref.a[n3, 0]
        if lev == 0:
            v.check('bed fixed', v.eq(z[n3], -b))
        elif lev == w.nl:
            v.check('top at the elevation', v.eq(z[n3], e))
        v.check('same relative position', v.eq((z[n3] + b) * b, (r + b) * (e + b)))
    for n3, n2, zz, l, c in w.cols:
        if zz > 0.5:
            low = [q for q in w.level if w.level[q] == (l, n2)]
            v.check('order kept', v.implies(v.lt(-w.bath.a[n2, 0], eta[n2, 0]), v.lt(z[low[0]], z[n3])))
    v.check('same numbering', (cm == zm).all())
    for n in range(len(z)):
        v.check('mesh follows', v.eq(w.coords.a[n, 2], z[n]))
        v.check('horizontal position kept', w.coords.a[n, 0] is xy[n, 0] and w.coords.a[n, 1] is xy[n, 1])
    heights(v, w)
    v.check('spatial index discarded after the move', len(w.cleared) >= 1 and all(x is y for x, y in zip(w.cleared[-1], w.coords.a.ravel())))
    v.cover()


@contract('C19', [W + 'ALEMeshUpdater.compute_mesh_velocity_begin', W + 'ALEMeshUpdater.compute_mesh_velocity_finalize', W + 'ALEMeshUpdater.update_mesh_coordinates'],
          bounded='meshes of two cells and one to three layers; all values', samples=10)
def velocity(v):
    """the mesh velocity is the displacement of the nodes between the two elevations over c dt; a surface velocity given explicitly is spread linearly to zero at the bed"""
    w = ale_world(v)
    o = u3.ALEMeshUpdater(w.solver)
    if v.flag('moved before'):
        o.update_mesh_coordinates()
    o.compute_mesh_velocity_begin()
    o.update_mesh_coordinates()
    z0 = w.f.z_coord_3d.a.copy()
    c = v.real('c', pos=True)
    given = v.flag('surface velocity given')
    new = values(v, 'new', w.elev.fs)
    w.elev.a[:] = numpy.array(new, dtype=object).reshape(w.elev.a.shape)
    zc = w.f.z_coord_3d.a.copy()
    if given:
        ws = GF(w.P1, values(v, 'ws', w.P1))
        o.compute_mesh_velocity_finalize(c=c, w_mesh_surf_expr=ws)
    elif v.flag('default c'):
        c = 1.0
        o.compute_mesh_velocity_finalize()
    else:
        o.compute_mesh_velocity_finalize(c=c)
    wm = w.f.w_mesh_3d.a[:, 0].copy()
    v.check('mesh does not move yet', all(x is y for x, y in zip(zc.ravel(), w.f.z_coord_3d.a.ravel())))
    o.update_mesh_coordinates()
    z1 = w.f.z_coord_3d.a
    for n3, (lev, n2) in w.level.items():
        if given:
            v.check('linear in between', v.eq(wm[n3] * w.bath.a[n2, 0], ws.a[n2, 0] * (w.zref.a[n3, 0] + w.bath.a[n2, 0])))
        else:
            v.check('velocity times time is the displacement', v.eq(wm[n3] * w.dt * c, z1[n3, 0] - z0[n3, 0]))
    v.cover()


@contract('C19', [W + 'ALEMeshUpdater.initialize', U + 'get_zcoord_from_mesh'], bounded='meshes of two cells and one to three layers; all values', samples=6)
def reference(v):
    """the reference levels are those of the mesh; current levels and element heights start from them"""
    w = ale_world(v)
    o = u3.ALEMeshUpdater(w.solver)
    calls = []
    v.patch(u3, 'get_zcoord_from_mesh', lambda z, **k: calls.append(z) or z)
    o.initialize()
    v.check('levels read from the mesh', calls == [w.zref])
    for x, y in zip(w.zref.a.ravel(), w.f.z_coord_3d.a.ravel()):
        v.check('current levels', v.eq(x, y))
    heights(v, w)
    v.cover()


# ------------------------------------------------------------------ one cell of any mesh

CELL = (('DG', 1, 'DG', 1), ('CG', 1, 'CG', 1), ('DG', 0, 'DG', 0), ('DG', 1, 'DG', 0), ('DG', 1, 'CG', 1), ('CG', 2, 'CG', 2), ('DG', 1, 'DG', 2), ('DG', 2, 'DG', 2), ('RT', 1, 'DG', 0), ('RT', 1, 'DG', 1), ('BDM', 1, 'DG', 1))


def generic(v, mod, kw=None):
    g = GhostOp2(v, generic=True, kw=kw)
    v.patch(mod, 'op2', g)
    return g


def loop_args(v, g, k, fields, cells, region):
    """the k-th loop runs over the cells of the mesh and gathers these fields through their own cell-node maps"""
    c = g.cells[k]
    used = [r for r in c.args if r]
    v.check('loop over the cells of the extruded mesh', c.set is cells and c.region in region)
    v.check('fields gathered through their own maps', all(any(r.data is f.dat and r.map is f.fs.cell_node_map() for f in fields) for r in used))
    return [g.cell(k, f.dat) for f in fields]


@contract('C19', [W + 'ExpandFunctionTo3d.__init__', W + 'ExpandFunctionTo3d.solve', U + 'get_facet_mask', U + 'get_extruded_base_element'], samples=10)
def expand_cell(v):
    """in every cell of any mesh, every 3D node gets the value of the 2D node below it"""
    f2, f3, nl, hdiv = pair(v, pairs=CELL, layers=(2,))
    g = generic(v, u3)
    linear(v, u3)
    a, b = GF(f2), GF(f3)
    o = u3.ExpandFunctionTo3d(a, b, elem_height=fd.Constant(2.0) if hdiv else None)
    o.solve()
    v.check('one loop', len(g.cells) == 1)
    p, q = loop_args(v, g, 0, (a, b), f3.mesh().cell_set, (None, g.ALL))
    v.check('copied, not accumulated', q.access is g.WRITE)
    k2 = {k: i for i, (k, z) in enumerate(nodes(f2))}
    for j, (k, z) in enumerate(nodes(f3)):
        for c in range(q.nb):
            v.check('value of the column', v.eq(q.after[j * q.nb + c], p.before[k2[k] * p.nb + c] if c < p.nb else 0.0))
    v.cover()


@contract('C19', [W + 'SubFunctionExtractor.__init__', W + 'SubFunctionExtractor.solve', U + 'get_facet_mask', U + 'get_extruded_base_element'], samples=10)
def extract_cell(v):
    """in every top (bottom) cell of any mesh, every 2D node gets the value of the 3D node on the chosen facet (or the mean of both) at its position"""
    f2, f3, nl, hdiv = pair(v, pairs=CELL, layers=(2,))
    bnd = v.choice('boundary', ('top', 'bottom'))
    fac = v.choice('facet', (None, 'top', 'bottom', 'average'))
    g = generic(v, u3)
    linear(v, u3)
    a, b = GF(f3), GF(f2)
    u3.SubFunctionExtractor(a, b, boundary=bnd, elem_facet=fac, elem_height=fd.Constant(2.0) if hdiv else None).solve()
    v.check('one loop', len(g.cells) == 1)
    p, q = loop_args(v, g, 0, (a, b), f3.mesh().cell_set, (g.ON_TOP if bnd == 'top' else g.ON_BOTTOM,))
    v.check('copied, not accumulated', q.access is g.WRITE)
    zs = {z for _, z in nodes(f3)}
    at = {(k, z): j for j, (k, z) in enumerate(nodes(f3))}
    fc = fac or bnd
    for i, (k, _) in enumerate(nodes(f2)):
        for c in range(q.nb):
            t, d = p.before[at[k, max(zs)] * p.nb + c], p.before[at[k, min(zs)] * p.nb + c]
            v.check('trace', v.eq(q.after[i * q.nb + c], t if fc == 'top' else d if fc == 'bottom' else 0.5 * (t + d)))
    v.cover()


@contract('C19', [W + 'ALEMeshUpdater.__init__', W + 'ALEMeshUpdater.update_mesh_coordinates', W + 'ALEMeshUpdater.compute_mesh_velocity_finalize'], samples=10)
def motion_cell(v):
    """in every cell of any mesh: heights keep their relative position between the bed (fixed) and the elevation; the mesh velocity has the same profile"""
    w = ale_world(v, layers=(2,))
    v.patch(u3, 'compute_elem_height', lambda z, h: h)
    mild = dict(gen=lambda rng: rng.uniform(-50, 50))
    g = generic(v, u3, lambda d, i: dict(pos=True, gen=lambda rng: rng.uniform(0.5, 50)) if d is w.bath.dat else mild)
    o = u3.ALEMeshUpdater(w.solver)
    del g.cells[:]
    k2 = {k: i for i, (k, z) in enumerate(nodes(w.P1))}
    what = v.choice('step', ('position', 'velocity'))
    if what == 'position':
        o.update_mesh_coordinates()
        out, src = w.f.z_coord_3d, w.f.elev_cg_2d
    else:
        o.compute_mesh_velocity_finalize(w_mesh_surf_expr=GF(w.P1, values(v, 'ws', w.P1)))
        out, src = w.f.w_mesh_3d, o.w_mesh_surf_2d
    q, z, e, b = loop_args(v, g, 0, (out, w.zref, src, w.bath), w.m3.cell_set, (None, g.ALL))
    v.check('assigned, not accumulated', q.access is g.WRITE)
    for j, (k, zz) in enumerate(nodes(w.P1_3)):
        bj, ej, zj = b.before[k2[k]], e.before[k2[k]], z.before[j]
        if what == 'position':
            v.check('same relative position', v.eq((q.after[j] + bj) * bj, (zj + bj) * (ej + bj)))
            v.check('bed fixed', v.implies(v.eq(zj, -bj), v.eq(q.after[j], -bj)))
            v.check('top at the elevation', v.implies(v.eq(zj, 0), v.eq(q.after[j], ej)))
        else:
            v.check('linear between bed and surface', v.eq(q.after[j] * bj, ej * (zj + bj)))
    if what == 'position':
        up = {k: j for j, (k, zz) in enumerate(nodes(w.P1_3)) if zz > 0.5}
        for j, (k, zz) in enumerate(nodes(w.P1_3)):
            if zz < 0.5:
                v.check('order kept', v.implies(v.all([v.lt(z.before[j], z.before[up[k]]), v.lt(-b.before[k2[k]], e.before[k2[k]])]), v.lt(q.after[j], q.after[up[k]])))
    v.cover()


@contract('C19', [U + 'compute_elem_height'], samples=10)
def height_cell(v):
    """in every cell of any mesh, the height at both ends of a vertical edge is the distance of its ends"""
    quads = v.flag('quads')
    m2, m3 = meshes('quads' if quads else 'triangles', 2)
    c, d = ('Q', 'DQ') if quads else ('CG', 'DG')
    Z, H = [(space(m3, d, 1, 'DG', 1) if v.flag(n) else space(m3, c, 1, 'CG', 1)) for n in ('discontinuous levels', 'discontinuous heights')]
    g = generic(v, ut)
    z, h = GF(Z), GF(H)
    r = ut.compute_elem_height(z, h)
    v.check('one loop', len(g.cells) == 1 and r is h)
    p, q = loop_args(v, g, 0, (z, h), m3.cell_set, (None, g.ALL))
    v.check('assigned, not accumulated', q.access is g.WRITE)
    zn = {x: j for j, x in enumerate(nodes(Z))}
    for j, (k, zz) in enumerate(nodes(H)):
        v.check('element height', v.eq(q.after[j], v.abs(p.before[zn[k, 1.0]] - p.before[zn[k, 0.0]])))
    v.cover()


@contract('C19', [U + 'extrude_mesh_sigma', U + 'get_facet_mask'], samples=10)
def extrusion_cell(v):
    """in every cell of any mesh with any number of layers: horizontal coordinates kept, a node at sigma s of the unit extrusion goes to -bathymetry (1 - s)^f"""
    kind = v.choice('mesh', ('triangles', 'quads'))
    m2, _ = meshes(kind, 1)
    P1 = space(m2, 'CG' if kind == 'triangles' else 'Q', 1)
    rg = {}
    g = generic(v, ut, lambda d, i: rg[id(d)](i))
    made = []
    nl = v.choice('layers', (1, 2, 7, 50))

    def extruded(m, layers=None, layer_height=None, **k):
        r = meshes(kind, 1)[1]
        p = NS(coordinates=GF(r.coordinates.function_space()), cell_set=r.cell_set)
        made.append((p, m, layers, layer_height))
        return p
    v.patch(ut, 'ExtrudedMesh', extruded)
    fun = []

    class Rec(GF):
        def __init__(self, fs, *a, **k):
            GF.__init__(self, fs, *a, **k)
            fun.append(self)
    v.patch(ut, 'Function', Rec)
    bath = GF(P1)
    how = v.choice('stretching', ('default', 'number', 'field'))
    sv = v.real('s', lo=0.25, hi=4.0)
    sf = Rec(P1)
    del fun[:]

    class Ranges(dict):
        def __missing__(self, k):
            if any(k == id(f.dat) for f in fun + [sf] if f.fs == P1):
                return lambda i: dict(lo=0.25, hi=4)
            if k == id(bath.dat):
                return lambda i: dict(pos=True, hi=1e6)
            return lambda i: dict(lo=0, hi=1) if i % 3 == 2 else {}
    rg = Ranges()
    r = ut.extrude_mesh_sigma(m2, nl, bath, **({} if how == 'default' else {'z_stretch_fact': sv if how == 'number' else sf}))
    v.check('one unit extrusion of the 2D mesh', len(made) == 1 and r is made[0][0] and made[0][1] is m2 and made[0][2] == nl and abs(made[0][3] * nl - 1.0) < 1e-14)
    v.check('one loop', len(g.cells) == 1)
    st = sf if how == 'field' else [f for f in fun if f.fs == P1][0]
    if how != 'field':
        for x in st.a.ravel():
            v.check('stretching exponent', v.eq(x, sv if how == 'number' else 1.0))
    new = [f for f in fun if f.fs == r.coordinates.fs][0]
    q, x, b, s = loop_args(v, g, 0, (new, r.coordinates, bath, st), r.cell_set, (None, g.ALL))
    k2 = {k: i for i, (k, z) in enumerate(nodes(P1))}
    for j, (k, zz) in enumerate(nodes(space(meshes(kind, 1)[1], 'CG' if kind == 'triangles' else 'Q', 1, 'CG', 1))):
        h, bj, sj = x.before[3*j+2], b.before[k2[k]], s.before[k2[k]]
        v.check('horizontal position', v.all([v.eq(q.after[3*j], x.before[3*j]), v.eq(q.after[3*j+1], x.before[3*j+1])]))
        v.check('level depth', v.eq(q.after[3*j+2], -bj * v.pow(1.0 - h, sj)))
    v.cover()


@contract('C19', [U + 'get_zcoord_from_mesh'], samples=6)
def zcoord(v):
    """the vertical coordinate field solves the projection of the vertical mesh coordinate"""
    m3 = meshes('triangles', 2)[1]
    Z = space(m3, *v.choice('space', (('CG', 1, 'CG', 1), ('DG', 1, 'DG', 1))))
    log = []
    v.patch(ut, 'solve', lambda eq, u, **k: log.append((eq, u)))
    z = fd.Function(Z)
    r = ut.get_zcoord_from_mesh(z)
    v.check('one solve for the field', len(log) == 1 and log[0][1] is z and r is z)
    eq = log[0][0]
    env = uflsem.Env(v, 3)
    a, l = eq.lhs, eq.rhs
    at, au = a.arguments()
    (t,) = l.arguments()
    v.check('in the space of the field', at.function_space() == Z and au.function_space() == Z and t.function_space() == Z)
    env.set(at, 't', 'dg')
    env.set(au, 'u', 'dg')
    env.set(t, 't', 'dg')
    A, B = uflsem.integrals(a, env), uflsem.integrals(l, env)
    v.check('volume terms', [k[0] for k in A] == [k[0] for k in B] == ['cell'])
    v.check('mass form', v.eq(list(A.values())[0], v.real('t') * v.real('u')))
    xyz = uflsem.evaluate(m3.coordinates[2], env)
    v.check('vertical coordinate', v.eq(list(B.values())[0], v.real('t') * xyz))
    v.cover()


# ------------------------------------------------------------------ extrusion

@contract('C19', [U + 'extrude_mesh_sigma', U + 'get_facet_mask'], bounded='meshes of two cells and up to six layers; all bathymetries and stretching exponents', samples=10)
def extrusion(v):
    """level k of n is at the depth (1 - k/n)^s of the bathymetry, horizontal coordinates are those of the 2D mesh: the bed at -bathymetry, the top at zero, levels in order"""
    kind, nl = v.choice('mesh', ('triangles', 'quads')), v.choice('layers', (1, 2, 3, 5, 6))
    m2, _ = meshes(kind, 1)
    P1 = space(m2, 'CG' if kind == 'triangles' else 'Q', 1)
    g = ghost(v, ut)
    got = []

    def extruded(m, layers=None, layer_height=None, **k):
        r = fd.ExtrudedMesh(m, layers=layers, layer_height=layer_height, **k)
        X = r.coordinates.function_space()
        p = NS(coordinates=GF(X, r.coordinates.dat.data_ro.copy()), cell_set=r.cell_set, real=r)
        got.append((p, r.coordinates.dat.data_ro.copy(), m, layers))
        return p
    v.patch(ut, 'ExtrudedMesh', extruded)
    v.patch(ut, 'Function', GF)
    bath = GF(P1, values(v, 'bath', P1, pos=True, hi=1e6))
    st = v.choice('stretching', ('default', 'number', 'field'))
    sv = v.real('s', lo=0.25, hi=4.0)
    if st == 'default':
        r = ut.extrude_mesh_sigma(m2, nl, bath)
        s = lambda n: 1.0
    elif st == 'number':
        r = ut.extrude_mesh_sigma(m2, nl, bath, z_stretch_fact=sv)
        s = lambda n: sv
    else:
        sf = GF(P1, values(v, 'sf', P1, lo=0.25, hi=4.0))
        r = ut.extrude_mesh_sigma(m2, nl, bath, z_stretch_fact=sf)
        s = lambda n: sf.a[n, 0]
    v.check('one extrusion of the 2D mesh and the layers', len(got) == 1 and got[0][0] is r and got[0][2] is m2 and got[0][3] == nl)
    X, raw = r.coordinates.fs, got[0][1]
    x2 = m2.coordinates
    xm = x2.function_space().cell_node_map().values_with_halo
    pm = P1.cell_node_map().values_with_halo
    z = r.coordinates.a
    at = {}
    for n3, n2, zz, l, c in columns(X, P1):
        lev = l + int(round(zz))
        at[lev, n2, c] = n3
        k = [k for k, q in enumerate(pm[c]) if q == n2][0]
        p2 = x2.dat.data_ro[xm[c][k]]
        v.check('horizontal position', v.eq(z[n3, 0], float(p2[0])) and v.eq(z[n3, 1], float(p2[1])))
        v.check('uniform sigma levels', abs(raw[n3, 2] - lev / nl) < 1e-12)
        sig = 1.0 - raw[n3, 2]
        if lev == nl:
            v.check('top at zero', v.eq(z[n3, 2], 0.0))
        elif lev == 0:
            v.check('bed at the bathymetry', v.eq(z[n3, 2], -bath.a[n2, 0]))
        else:
            v.check('level depth', v.eq(z[n3, 2], -bath.a[n2, 0] * v.pow(sig, s(n2))))
    v.cover()


@contract('C19', [U + 'extend_function_to_3d', U + 'ExtrudedFunction.__init__', W + 'ExpandFunctionTo3d.solve', W + 'SubFunctionExtractor.solve', U + 'extrude_mesh_sigma', U + 'get_zcoord_from_mesh', U + 'compute_elem_height'],
          kind='concrete', samples=2, bounded='one mesh, P1 and DG1 fields, random values')
def real_transfers(v):
    """on real fields: the 3D view shares the data of the 2D field; copies, traces, levels and heights are those of the mesh"""
    m2 = fd.UnitSquareMesh(2, 2)
    P1 = space(m2, 'CG', 1)
    bath = fd.Function(P1)
    bath.dat.data[:] = v.rng.uniform(1, 5) + numpy.array([v.rng.uniform(0, 3) for _ in range(P1.dim())])
    n = v.rng.choice((2, 3))
    m3 = ut.extrude_mesh_sigma(m2, n, bath)
    Z = space(m3, 'CG', 1)
    z = fd.Function(Z)
    ut.get_zcoord_from_mesh(z)
    v.check('levels read from the mesh', abs(z.dat.data_ro - m3.coordinates.dat.data_ro[:, 2]).max() < 1e-8)
    X3 = m3.coordinates.dat.data_ro
    for n3, n2, zz, l, c in columns(Z, P1):
        lev = l + int(round(zz))
        v.check('level depth', abs(X3[n3, 2] + bath.dat.data_ro[n2] * (1 - lev / n)) < 1e-10)
    for fam in (('CG', 1), ('DG', 1)):
        f2, f3 = space(m2, *fam), space(m3, *fam)
        a = ut.ExtrudedFunction(f2, mesh_3d=m3, name='elev_2d')
        a.dat.data[:] = [v.rng.uniform(-1, 1) for _ in range(f2.dim())]
        V = a.view_3d
        v.check('view shares the data', V.source is a and len(V.dat.data_ro) == len(a.dat.data_ro) and (V.dat.data_ro == a.dat.data_ro).all())
        a.dat.data[0] = 7.0
        v.check('view follows the field', V.dat.data_ro[0] == 7.0)
        V.dat.data[1] = -7.0
        v.check('field follows the view', a.dat.data_ro[1] == -7.0)
        b, c2 = fd.Function(f3), fd.Function(f2)
        u3.ExpandFunctionTo3d(a, b).solve()
        for n3, n2, zz, l, c in columns(f3, f2):
            v.check('value of the column', b.dat.data_ro[n3] == a.dat.data_ro[n2])
        b.dat.data[:] = [v.rng.uniform(-1, 1) for _ in range(f3.dim())]
        bnd = v.rng.choice(('top', 'bottom'))
        u3.SubFunctionExtractor(b, c2, boundary=bnd).solve()
        for n3, n2, zz, l, c in columns(f3, f2):
            if (bnd == 'top' and l == n - 1 and zz == 1.0) or (bnd == 'bottom' and l == 0 and zz == 0.0):
                v.check('trace', c2.dat.data_ro[n2] == b.dat.data_ro[n3])
    D = space(m3, 'DG', 1)
    h = fd.Function(D)
    ut.compute_elem_height(z, h)
    for n3, n2, zz, l, c in columns(D, space(m2, 'DG', 1)):
        k = [k for k, q in enumerate(space(m2, 'DG', 1).cell_node_map().values_with_halo[c]) if q == n2][0]
        v.check('element height', abs(h.dat.data_ro[n3] - bath.dat.data_ro[P1.cell_node_map().values_with_halo[c][k]] / n) < 1e-8)


@contract('C19', [U + 'extend_function_to_3d'], kind='concrete', samples=2, bounded='one mesh, scalar and vector fields of 7 elements, random polynomials')
def view_values(v):
    """the 3D view of a user's 2D field (e.g. the Coriolis parameter) has the value of that field at every point, whichever nodal element it is in"""
    m2 = fd.UnitSquareMesh(2, 2)
    m3 = fd.ExtrudedMesh(m2, 2)
    spaces = [fd.FunctionSpace(m2, 'CG', 1), fd.FunctionSpace(m2, 'CG', 3), fd.FunctionSpace(m2, 'DG', 0), fd.FunctionSpace(m2, 'DG', 1), fd.FunctionSpace(m2, 'DG', 2),
              space(m2, 'DG', 1), space(m2, 'CG', 2), fd.VectorFunctionSpace(m2, 'DG', 1), ut.get_functionspace(m2, 'DG', 1, vector=True)]
    for V in spaces:
        f = fd.Function(V)
        x, y = fd.SpatialCoordinate(m2)
        a, b, c = (v.rng.uniform(-2, 2) for _ in range(3))
        e = a + b * x + c * x * y
        vec = len(f.ufl_shape) == 1
        f.interpolate(fd.as_vector((e, e * y)) if vec else e)
        g = ut.extend_function_to_3d(f, m3)
        for _ in range(4):
            px, py, z = (v.rng.uniform(.05, .95) for _ in range(3))
            have, want = numpy.asarray(g.at([px, py, z])), numpy.asarray(f.at([px, py]))
            v.check('value of the 2D field in the whole column', have.shape == want.shape and abs(have - want).max() < 1e-9, '%s: %r %r' % (V.ufl_element(), have, want))


@contract('C19', ['thetis.solver:FlowSolver.create_fields', 'thetis.solver:FlowSolver.create_function_spaces'] + [W + 'ALEMeshUpdater.' + m for m in (
    '__init__', 'initialize', 'update_mesh_coordinates', 'update_elem_height', 'compute_mesh_velocity_begin', 'compute_mesh_velocity_finalize')] + [U + 'get_zcoord_from_mesh'],
    kind='concrete', samples=2, bounded='one plain and two periodic meshes of 3x3 cells, triangles and quadrilaterals, two layers, random bathymetry and elevations')
def periodic_mesh(v):
    """on the solver's own fields, on plain and periodic meshes alike: at rest the mesh stays where it was built, and with an elevation its surface is the
    elevation, its bed the bathymetry, its levels and element heights are spaced between them, and its velocity is the rate of change"""
    import thetis.solver as s3
    for periodic, quad in ((True, False), (False, False), (True, True)):
        m = (fd.PeriodicRectangleMesh if periodic else fd.RectangleMesh)(3, 3, 3., 3., quadrilateral=quad)
        x, y = fd.SpatialCoordinate(m)
        r = [v.rng.uniform(.1, .5) for _ in range(6)]
        wave = lambda a, b: a * fd.sin(2 * fd.pi * x / 3. + r[0]) + b * fd.cos(2 * fd.pi * y / 3. + r[1])
        P1 = space(m, 'CG', 1)
        bath = fd.Function(P1).interpolate(4 + wave(r[2], r[3]))
        s = s3.FlowSolver(m, bath, 2)
        s.options.no_exports = True
        s.options.use_ale_moving_mesh = True
        s.options.solve_salinity = s.options.solve_temperature = False
        s.create_function_spaces()
        s.create_fields()
        s.dt = 0.5
        f = s.fields
        f.bathymetry_2d.project(bath)
        mu = u3.ALEMeshUpdater(s)
        mu.initialize()
        X = s.mesh.coordinates
        at_rest = X.dat.data_ro.copy()

        def elevation(e):
            c = fd.Function(P1).interpolate(e)
            f.elev_2d.project(c)
            f.elev_domain_2d.assign(f.elev_2d)
            return c

        def geometry(who, c):
            b, e, z = f.bathymetry_2d.view_3d, f.elev_domain_2d.view_3d, fd.SpatialCoordinate(s.mesh)[2]
            area = fd.assemble(fd.Constant(1.) * fd.dx(domain=m))
            depth = fd.assemble((c + bath) * fd.dx)
            small = lambda q: abs(q) < 1e-10 * area
            v.check('%s: surface is the elevation' % who, small(fd.assemble((z - e)**2 * fd.ds_t(domain=s.mesh))))
            v.check('%s: bed is the bathymetry' % who, small(fd.assemble((z + b)**2 * fd.ds_b(domain=s.mesh))))
            v.check('%s: middle level halfway' % who, small(fd.assemble(((z('+') - (e('+') - b('+')) / 2)**2) * fd.dS_h(domain=s.mesh))))
            v.check('%s: volume of the water' % who, abs(fd.assemble(fd.Constant(1.) * fd.dx(domain=s.mesh)) - depth) < 1e-4 * depth)
            v.check('%s: stored coordinate is that of the mesh' % who, small(fd.assemble((f.z_coord_3d - z)**2 * fd.dx)))
            v.check('%s: element height' % who, small(fd.assemble((f.v_elem_size_2d - (f.elev_domain_2d + bath) / 2)**2 * fd.dx)))
            v.check('%s: horizontal position kept' % who, abs(X.dat.data_ro[:, :2] - at_rest[:, :2]).max() == 0)
        # the volume differs from the integral of the depth only by the projection tolerance
        c = elevation(0 * x)
        mu.update_mesh_coordinates()
        v.check('at rest the mesh does not move', abs(X.dat.data_ro - at_rest).max() < 1e-8, repr(abs(X.dat.data_ro - at_rest).max()))
        geometry('at rest', c)
        old = elevation(wave(r[4], r[5]))
        mu.update_mesh_coordinates()
        geometry('with an elevation', old)
        mu.compute_mesh_velocity_begin()
        new = elevation(wave(r[5], -r[4]) + 0.1)
        mu.compute_mesh_velocity_finalize()
        w, rate = f.w_mesh_3d, fd.Function(P1).assign((new - old) / s.dt)
        g = fd.Function(f.elev_domain_2d.function_space()).project(rate)
        g3 = ut.extend_function_to_3d(g, s.mesh)
        v.check('mesh velocity at the surface', abs(fd.assemble((w - g3)**2 * fd.ds_t)) < 1e-8)
        v.check('mesh velocity at the bed', abs(fd.assemble(w**2 * fd.ds_b)) < 1e-8)
        mu.update_mesh_coordinates()
        geometry('after the step', new)
