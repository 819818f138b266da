"""C32 derived fields and helper problems: what is computed is the documented quantity."""
from types import SimpleNamespace as NS
import numpy
from firedrake import *
import thetis
from thetis import utility as ut, utility3d as u3, diagnostics as dg, solver2d as s2, options as topt
from thetis.utility import AttrDict
from pyvc import uflsem, core
from pyvc.ckern import GhostOp2
from pyvc.contract import contract
from .swe import mesh2d, spaces, MARKERS
from .tracers import mesh3d
from .common import raises
from .c30 import IF, EX

ASSUMPTIONS = [
    'firedrake (external): variational solvers return the solution of the problem handed over; project / interpolate / assemble are the operations of that name',
    'pyop2 (external): a par_loop gathers the arguments through the maps, runs the kernel on every cell and reduces MAX arguments into the field',
    'UFL geometric quantities (cell volume, facet area, Jacobian, normals) are the quantities of that name',
]
U, W, D = 'thetis.utility:', 'thetis.utility3d:', 'thetis.diagnostics:'
tot = uflsem.total


class Rec:
    """records variational problems and the order in which they are solved"""
    def __init__(self, v, mod, clip=None):
        self.problems, self.solved = [], []
        rec = self

        class Problem:
            def __init__(s, *a, bcs=None, **k):
                s.a = a
                s.bcs = bcs
                rec.problems.append(s)

        class Solver:
            def __init__(s, problem, **k):
                s.problem = problem

            def solve(s):
                rec.solved.append(s.problem)
        for nm in ('LinearVariationalProblem', 'NonlinearVariationalProblem'):
            if hasattr(mod, nm):
                v.patch(mod, nm, Problem)
        for nm in ('LinearVariationalSolver', 'NonlinearVariationalSolver'):
            if hasattr(mod, nm):
                v.patch(mod, nm, Solver)


def R(v, nm, n=2, s=''):
    return [v.real('%s_%d%s' % (nm, i, s)) for i in range(n)]


def dot_(a, b):
    return sum(x * y for x, y in zip(a, b))


def facets_same(v, ints, want, what=''):
    for k in set(ints) | set(want):
        v.check('%s %s' % (what, k[0]), v.eq(ints.get(k, 0), want.get(k, 0)), k)


@contract('C32', [D + 'VorticityCalculator2D.__init__', D + 'VorticityCalculator2D.solve'], samples=6)
def vorticity(v):
    """(w, phi) = (u_y - v_x, phi) integrated by parts over every cell, for velocities of any continuity"""
    m = mesh2d()
    kind = v.choice('velocity', ('CG', 'DG', 'RT'))
    V = FunctionSpace(m, 'RTF', 1) if kind == 'RT' else VectorFunctionSpace(m, kind, 1)
    uv, w = Function(V, name='uv'), Function(FunctionSpace(m, 'CG', 1), name='w')
    rec = Rec(v, dg)
    c = dg.VorticityCalculator2D(uv, w)
    v.check('nothing solved yet', not rec.solved)
    (c if v.flag('call') else c.solve)()
    (p,) = rec.problems
    a, L, sol = p.a
    v.check('solved into the field given', rec.solved == [p] and sol is w)
    env = uflsem.Env(v, 2)
    Q = w.function_space()
    env.set(uv, 'uv', 'cg' if kind == 'CG' else 'dg')
    env.set(TestFunction(Q), 't', 'cg')
    env.set(TrialFunction(Q), 'w', 'cg')
    v.check('mass', v.eq(tot(uflsem.integrals(a, env), 'cell'), v.real('w') * v.real('t')))
    r = uflsem.integrals(L, env)
    u, t = R(v, 'uv'), v.real('t')
    v.check('cell', v.eq(tot(r, 'cell'), -u[0] * v.real('t_dy') + u[1] * v.real('t_dx')))
    n = [env.normal(i, None) for i in range(2)]
    v.check('boundary', v.eq(tot(r, 'exterior_facet'), (u[0] * n[1] - u[1] * n[0]) * t))
    v.check('interior facets: single-valued test, mean velocity cancels', v.eq(tot(r, 'interior_facet'), 0))
    # the sum is the vorticity tested, up to jumps: check through the divergence theorem for a continuous velocity
    cell = lambda: -u[0] * v.real('t_dy') + u[1] * v.real('t_dx')
    strong = (v.real('uv_0_dy') - v.real('uv_1_dx')) * t
    div = strong + u[0] * v.real('t_dy') - u[1] * v.real('t_dx')       # div(perp form times test)
    v.check('integration by parts', v.eq(cell() + div, strong))
    ex, _ = raises(dg.VorticityCalculator2D, uv, Function(FunctionSpace(m, 'DG', 1)))
    v.check('discontinuous target rejected', isinstance(ex, ValueError))
    ex, _ = raises(dg.VorticityCalculator2D, uv, Function(FunctionSpace(mesh3d(), 'CG', 1)))
    v.check('3D target rejected', isinstance(ex, ValueError))
    v.cover()


@contract('C32', [D + 'KineticEnergyCalculator.__init__', D + 'KineticEnergyCalculator.solve'], samples=6)
def kinetic_energy(v):
    """half density times speed squared, stored in the field given, on every call"""
    d3, hor, proj, dens = v.flag('3d'), v.flag('horizontal'), v.flag('project'), v.choice('density', ('default', 'constant', 'field'))
    m = mesh3d() if d3 else mesh2d()
    uv = Function(VectorFunctionSpace(m, 'CG', 1), name='uv')
    ke = Function(FunctionSpace(m, 'CG', 1), name='ke')
    env = uflsem.Env(v, 3 if d3 else 2)
    env.set(uv, 'uv', 'cg')
    stored = []

    class Proj:
        def __init__(s, e, f, *a, **k): s.e, s.f = e, f

        def project(s): stored.append((s.e, s.f))

    class Interp:
        def __init__(s, e): s.e = e

        def assemble(s, tensor=None, **k):
            if tensor is not None:
                stored.append((s.e[0], tensor))
            return NS(dat=None)
    v.patch(dg, 'Projector', Proj)
    v.patch(dg, 'get_interpolator', Interp)
    v.patch(dg, 'interpolate', lambda e, V, **k: (e, V))
    k = {}
    rho = core._frac(float(thetis.physical_constants['rho0'])) if v.symbolic else float(thetis.physical_constants['rho0'])
    if dens != 'default':
        k['density'] = Constant(3.0) if dens == 'constant' else Function(FunctionSpace(m, 'CG', 1))
        env.set(k['density'], 'rho', 'const' if dens == 'constant' else 'cg')
        rho = v.real('rho')
    c = dg.KineticEnergyCalculator(uv, ke, horizontal=hor, project=proj, **k)
    for i in range(2):
        n = len(stored)
        c.solve()
        v.check('the field is updated on every call', len(stored) == n + 1 and stored[n][1] is ke)
        u = R(v, 'uv', 2 if hor or not d3 else 3)
        v.check('rho |u|^2 / 2', v.eq(uflsem.evaluate(stored[n][0], env), rho * dot_(u, u) / 2))
    v.cover()


def replaced(v, mod, names):
    for n in names:
        v.patch(mod, n, names[n])


class Dat:
    """object array of the values behind a field"""
    def __init__(self, a): self.data = self.data_ro = self.data_with_halos = a


class Arr(numpy.ndarray):
    """array of symbolic values whose comparisons select entries"""
    def _cmp(f):
        def g(self, o):
            r = numpy.empty(self.shape, dtype=bool)
            for i in numpy.ndindex(*self.shape):
                r[i] = bool(f(self[i], o[i] if numpy.ndim(o) else o))
            return r
        return g
    __lt__, __gt__, __le__, __ge__ = _cmp(lambda a, b: a < b), _cmp(lambda a, b: a > b), _cmp(lambda a, b: a <= b), _cmp(lambda a, b: a >= b)


class Vals(Function):
    @property
    def dat(self): return self.__dict__['_vd']


def vals(fs, a):
    f = Vals(fs)
    f.__dict__['_vd'] = Dat(numpy.array(a, dtype=object).view(Arr))
    return f


@contract('C32', [W + 'SmagorinskyViscosity.__init__', W + 'SmagorinskyViscosity.solve'], budget=120, samples=6)
def smagorinsky(v):
    """(c_s dx)^2 |S| with the rate of strain of the velocity (uniform flow has none, whatever the mesh), clipped to its bounds"""
    m = mesh3d()
    weak = v.flag('weak')
    P = FunctionSpace(m, TensorProductElement(FiniteElement('CG', triangle, 1), FiniteElement('CG', interval, 1)))
    kind = v.choice('velocity', ('CG', 'DG'))
    V = VectorFunctionSpace(m, kind, 1) if kind == 'CG' else VectorFunctionSpace(m, TensorProductElement(FiniteElement('DG', triangle, 1), FiniteElement('DG', interval, 1)))
    uv = Function(V, name='uv')
    n = 2
    nu = vals(P, [v.real('nu%d' % i) for i in range(n)])
    mx = vals(P, [v.real('max%d' % i, pos=True) for i in range(n)])
    mn = v.real('min', lo=0)
    for i in range(n):
        v.assume(mn <= mx.dat.data[i])
    cs, h = Constant(0.1), Function(P, name='h')
    rec = Rec(v, u3)
    S = u3.SmagorinskyViscosity(uv, nu, cs, h, mx, min_val=mn, weak_form=weak)
    old = list(nu.dat.data)
    S.solve()
    v.check('gradient first', rec.solved == rec.problems and len(rec.problems) == (2 if weak else 1) and rec.problems[-1].a[2] is nu)
    for i in range(n):
        x = old[i]
        v.check('clipped to the bounds', v.eq(nu.dat.data[i], v.min(v.max(x, mn), mx.dat.data[i])))
    env = uflsem.Env(v, 3)
    env.set(uv, 'uv', 'cg' if kind == 'CG' else 'dg')
    env.set(cs, 'cs', 'const')
    env.set(h, 'h', 'cg', pos=True)
    env.set(TestFunction(P), 't', 'cg')
    env.set(TrialFunction(P), 'x', 'cg')
    a, L, sol = rec.problems[-1].a
    v.check('mass', v.eq(tot(uflsem.integrals(a, env), 'cell'), v.real('x') * v.real('t')))
    if weak:
        g = rec.problems[0].a[2]
        env.set(g, 'g', 'dg')
        G = [[v.real('g_%d' % (2 * i + j)) for j in range(2)] for i in range(2)]
    else:
        G = [[v.real('uv_%d_d%s' % (i, 'xy'[j])) for j in range(2)] for i in range(2)]
    dt, ds_ = G[0][0] - G[1][1], G[0][1] + G[1][0]
    cs_, h_ = v.real('cs'), v.real('h', pos=True)
    v.check('viscosity', v.eq(tot(uflsem.integrals(L, env), 'cell'), v.real('t') * cs_ * cs_ * h_ * h_ * v.sqrt(dt * dt + ds_ * ds_)))
    if weak:
        a, L, g = rec.problems[0].a
        fs = g.function_space()
        env.set(TestFunction(fs), 'T', 'dg')
        env.set(TrialFunction(fs), 'X', 'dg')
        v.check('mass of the gradient', v.eq(tot(uflsem.integrals(a, env), 'cell'), dot_(R(v, 'X', 4), R(v, 'T', 4))))
        r = uflsem.integrals(L, env)
        v.check('cell: - u div T', v.eq(tot(r, 'cell'), -sum(v.real('uv_%d' % i) * v.real('T_%d_d%s' % (2 * i + j, 'xy'[j])) for i in range(2) for j in range(2))))
        nP, nb = [env.normal(i, '+') for i in range(3)], [env.normal(i, None) for i in range(3)]
        mean = lambda i: (v.real('uv_%dP' % i) + v.real('uv_%dM' % i)) / 2 if kind == 'DG' else v.real('uv_%d' % i)
        for k in IF:
            v.check('mean velocity at ' + k, v.eq(tot(r, k), sum(mean(i) * (v.real('T_%dP' % (2 * i + j)) - v.real('T_%dM' % (2 * i + j))) * nP[j] for i in range(2) for j in range(2))))
        for k in EX:
            v.check('velocity at ' + k, v.eq(tot(r, k), sum(v.real('uv_%d' % i) * v.real('T_%d' % (2 * i + j)) * nb[j] for i in range(2) for j in range(2))))
    v.cover()


@contract('C32', [W + 'VelocityMagnitudeSolver.__init__', W + 'VelocityMagnitudeSolver.solve'], samples=6)
def velocity_magnitude(v):
    m = mesh3d()
    P = FunctionSpace(m, 'CG', 1)
    which = v.choice('of', ('u', 'w', 'uw'))
    uv, w = Function(VectorFunctionSpace(m, 'CG', 1), name='uv'), Function(P, name='w')
    out = vals(P, [v.real('x%d' % i) for i in range(2)])
    mn = v.real('min', lo=0)
    rec = Rec(v, u3)
    s = u3.VelocityMagnitudeSolver(out, u=uv if 'u' in which else None, w=w if 'w' in which else None, min_val=mn)
    old = list(out.dat.data)
    v.patch(u3, 'numpy', NumpyMax(v))
    s.solve()
    (p,) = rec.problems
    v.check('solved once, before clipping', rec.solved == [p] and p.a[2] is out)
    for x, y in zip(old, out.dat.data):
        v.check('never below the minimum', v.eq(y, v.max(x, mn)))
    env = uflsem.Env(v, 3)
    for f, n in ((uv, 'uv'), (w, 'w'), (TestFunction(P), 't'), (TrialFunction(P), 'y')):
        env.set(f, n, 'cg')
    s2_ = (dot_(R(v, 'uv'), R(v, 'uv')) if 'u' in which else 0) + (v.real('w') * v.real('w') if 'w' in which else 0)
    v.check('mass', v.eq(tot(uflsem.integrals(p.a[0], env), 'cell'), v.real('y') * v.real('t')))
    v.check('magnitude', v.eq(tot(uflsem.integrals(p.a[1], env), 'cell'), v.sqrt(s2_) * v.real('t')))
    v.cover()


class NumpyMax:
    """numpy whose maximum also works on symbolic entries"""
    def __init__(self, v): self.v = v
    def __getattr__(self, k): return getattr(numpy, k)

    def maximum(self, a, b, out=None):
        r = numpy.empty(numpy.shape(a), dtype=object)
        for i in numpy.ndindex(*r.shape):
            r[i] = self.v.max(a[i], b if numpy.ndim(b) == 0 else b[i])
        if out is None:
            return r
        out[...] = r
        return out


@contract('C32', [U + 'DepthIntegratedPoissonSolver.__init__', U + 'DepthIntegratedPoissonSolver.solve'], budget=120, samples=6)
def nonhydrostatic(v):
    """the pressure is the one for which the updated velocity satisfies depth-integrated continuity (bed velocity of the intermediate state),
    closed boundaries are impermeable for it, and the updates subtract the pressure gradient once"""
    nl = v.flag('nonlinear')
    wd = nl and v.flag('wetting_and_drying')
    m = mesh2d()
    q = Function(FunctionSpace(m, 'CG', 2), name='q')
    uv, w = Function(VectorFunctionSpace(m, 'DG', 1), name='uv'), Function(FunctionSpace(m, 'DG', 1), name='w')
    el, ba = Function(FunctionSpace(m, 'CG', 1), name='eta'), Function(FunctionSpace(m, 'CG', 1), name='bath')
    dt, al = Constant(1.0), Constant(0.5)
    depth = ut.DepthExpression(ba, use_nonlinear_equations=nl, use_wetting_and_drying=wd, wetting_and_drying_alpha=al)
    opened = v.choice('open', ((), (2,), (1, 3)))
    rec = Rec(v, ut)
    bcs = []
    v.patch(ut, 'DirichletBC', lambda V, g, sub: bcs.append((V, g, sub)) or ('bc', sub))
    s = ut.DepthIntegratedPoissonSolver(q, uv, w, el, depth, dt, bnd_functions={'shallow_water': {k: {'elev': Constant(0.)} for k in opened}})
    env = uflsem.Env(v, 2)
    env.set(q, 'q', 'cg')
    env.set(uv, 'uv', 'dg')
    env.set(w, 'w', 'dg')
    env.set(el, 'eta', 'cg')
    env.set(ba, 'bath', 'cg', pos=True)
    env.set(dt, 'dt', 'const', pos=True)
    env.set(al, 'alpha', 'const', pos=True)
    H_ = depth.get_total_depth(el)
    H = uflsem.evaluate(H_, env)
    v.assume(H > 0)
    solve_w = v.choice('solve_w', (None, True, False))
    s.solve(**({} if solve_w is None else {'solve_w': solve_w}))
    pq, pu, pw = rec.problems
    v.check('pressure, then velocities', rec.solved == [pq, pu] + ([] if solve_w is False else [pw]))
    v.check('unknowns', pq.a[1] is q and pu.a[2] is uv and pw.a[2] is w)
    v.check('no pressure at open boundaries', sorted(b[2] for b in bcs) == sorted(opened) and all(b[0] == q.function_space() and b[1] == 0 for b in bcs))
    tq, tu, tw = (TestFunction(f.function_space()) for f in (q, uv, w))
    env.set(tq, 't', 'cg')
    env.set(tu, 'tu', 'dg')
    env.set(tw, 'tw', 'dg')
    env.set(TrialFunction(uv.function_space()), 'yu', 'dg')
    env.set(TrialFunction(w.function_space()), 'yw', 'dg')
    rho = core._frac(float(thetis.physical_constants['rho0'])) if v.symbolic else float(thetis.physical_constants['rho0'])
    d = v.real('dt', pos=True)
    u, Q, t = R(v, 'uv'), v.real('q'), v.real('t')
    gq = [v.real('q_dx'), v.real('q_dy')]
    gt = [v.real('t_dx'), v.real('t_dy')]
    gs = [v.real('eta_d' + x) - v.real('bath_d' + x) for x in 'xy']
    gb = [v.real('bath_dx'), v.real('bath_dy')]
    un = [u[i] - d / rho / 2 * (gq[i] + gs[i] / H * Q) for i in range(2)]
    wn = v.real('w') + d / rho * Q / H
    r = uflsem.integrals(pu.a[1], env)
    v.check('horizontal velocity', v.eq(tot(r, 'cell'), dot_(un, R(v, 'tu'))))
    v.check('mass u', v.eq(tot(uflsem.integrals(pu.a[0], env), 'cell'), dot_(R(v, 'yu'), R(v, 'tu'))))
    r = uflsem.integrals(pw.a[1], env)
    v.check('vertical velocity', v.eq(tot(r, 'cell'), wn * v.real('tw')))
    v.check('mass w', v.eq(tot(uflsem.integrals(pw.a[0], env), 'cell'), v.real('yw') * v.real('tw')))
    f = uflsem.integrals(pq.a[0], env)
    k = 2 * rho / d
    wb = -dot_(u, gb)
    v.check('continuity of the updated velocity (weak)', v.eq(tot(f, 'cell'), k * (dot_(gt, un) - 2 * (wn - wb) / H * t)))
    n = [env.normal(i, None) for i in range(2)]
    for mk in MARKERS:
        x = f.get(('exterior_facet', mk), 0)
        if mk in opened:
            v.check('open boundary', v.eq(x, -k * t * dot_([u[i] - d / rho / 2 * gs[i] / H * Q for i in range(2)], n)))
        else:
            v.check('closed boundary', v.eq(x, 0))
    v.check('nothing else', all(a == 'cell' or a == 'exterior_facet' and b in MARKERS for a, b in f))
    v.cover()


@contract('C32', [W + 'Mesh3DConsistencyCalculator.__init__', W + 'Mesh3DConsistencyCalculator.solve'], budget=120, samples=6)
def mesh_consistency(v):
    """vertical extent of the surface (bottom) facet of a prism over the height of the prism, on any mesh"""
    m = mesh3d()
    P = ut.get_functionspace(m, 'DG', 1, 'DG', 1)
    out, z = Function(P, name='hcc'), Function(P, name='z')
    from .c19 import nodes
    N = nodes(P)
    low = [i for i in range(len(N)) if N[i][1] == 0.0]
    g = GhostOp2(v, generic=True, kw=lambda d, i: dict(lo=-10000, hi=10000, gen=lambda r: r.randint(-9, 9) / 16 + (-3 if i in low else 3)))
    v.patch(u3, 'op2', g)
    so = NS(fields=NS(hcc_metric_3d=out, z_coord_3d=z), function_spaces=NS(P1DG=P), mesh=m, comm=m.comm)
    c = u3.Mesh3DConsistencyCalculator(so)
    if v.symbolic:
        core.eng().python_division = False
    c.solve()
    (cell,) = g.cells
    v.check('every cell', cell.set == m.cell_set and cell.region in (None, g.ALL))
    Z, O = g.cell(0, z.dat), g.cell(0, out.dat)
    v.check('maps of the fields', Z.map is z.function_space().cell_node_map() or Z.map == z.function_space().cell_node_map())
    top = [i for i, (k, h) in enumerate(N) if h == 1.0]
    bot = {N[i][0]: i for i in range(len(N)) if N[i][1] == 0.0}
    for i in range(len(N)):
        j_top = i if i in top else next(t for t in top if N[t][0] == N[i][0])
        j_bot = bot[N[i][0]]
        h = Z.before[j_top] - Z.before[j_bot]
        v.assume(h > 0)
    for i in range(len(N)):
        ix = top if i in top else sorted(bot.values())
        j_top = i if i in top else next(t for t in top if N[t][0] == N[i][0])
        h = Z.before[j_top] - Z.before[bot[N[i][0]]]
        hi = lo = Z.before[ix[0]]
        for j in ix[1:]:
            hi, lo = v.max(hi, Z.before[j]), v.min(lo, Z.before[j])
        v.check('extent over height', v.eq(O.after[i] * h, hi - lo))
    v.cover()


@contract('C32', [U + 'get_minimum_angles_2d', U + 'get_facet_areas'], budget=120, samples=6)
def minimum_angles(v):
    """angle opposite the shortest edge by the cosine rule, from the lengths of the edges of the cell"""
    m = mesh2d()
    probs = []
    v.patch(ut, 'solve', lambda eq, f, **k: probs.append((eq, f)))
    g = GhostOp2(v, generic=True, kw=lambda d, i: dict(pos=True, gen=lambda r: r.uniform(1, 1.9)))
    v.patch(ut, 'op2', g)
    an = ut.get_minimum_angles_2d(m)
    (eq, ed), = probs
    fs = ed.function_space()
    env = uflsem.Env(v, 2)
    env.set(TestFunction(fs), 't', 'cg')
    env.set(TrialFunction(fs), 'y', 'cg')
    A = v.real('geo_FacetArea', pos=True)
    for form, x in ((eq.lhs, v.real('y')), (eq.rhs, A)):
        r = uflsem.integrals(form, env)
        v.check('facet value', v.all([set(k for k, _ in r) == {'interior_facet', 'exterior_facet'}, v.eq(tot(r, 'interior_facet'), x * v.real('t')), v.eq(tot(r, 'exterior_facet'), x * v.real('t'))]))
    E, O = g.cell(0, ed.dat), [r for r in g.cells[0].args if r and r.data is an.dat][0]
    v.check('one value per cell, three edges', len(E.before) == 3 and len(O.after) == 1 and g.cells[0].set == m.cell_set)
    e = E.before
    k = 0
    for j in (1, 2):
        if v.sign(e[j] - e[k]) < 0:
            k = j
    a, b, c = e[k], e[(k + 1) % 3], e[(k + 2) % 3]
    x = (b * b + c * c - a * a) / (2 * b * c)
    v.check('cosine rule at the shortest edge', v.eq(O.after[0], v.uf('acos', x) if v.symbolic else float(numpy.arccos(x))))
    ex, _ = raises(ut.get_minimum_angles_2d, mesh2d('quads'))
    v.check('triangles only', isinstance(ex, NotImplementedError))
    v.cover()


@contract('C32', [U + 'get_cell_widths_2d'], samples=6)
def cell_widths(v):
    """extent of the vertices of the cell in every direction"""
    m = mesh2d()
    g = GhostOp2(v, generic=True)
    v.patch(ut, 'op2', g)
    wd = ut.get_cell_widths_2d(m)
    X, O = g.cell(0, m.coordinates.dat), [r for r in g.cells[0].args if r and r.data is wd.dat][0]
    v.check('all cells, own vertices', g.cells[0].set == m.cell_set and len(X.before) == 6 and len(O.after) == 2)
    v.check('starts below any width', bool((wd.dat.data_ro < 0).all()))
    v.check('mode of the reduction', O.access in (g.MAX, g.RW, g.WRITE))
    for k in range(2):
        v.assume(O.before[k] <= 0)
        xs = [X.before[2 * i + k] for i in range(3)]
        hi = v.max(v.max(xs[0], xs[1]), xs[2])
        lo = v.min(v.min(xs[0], xs[1]), xs[2])
        v.check('width', v.eq(O.after[k], hi - lo))
    ex, _ = raises(ut.get_cell_widths_2d, mesh2d('quads'))
    v.check('triangles only', isinstance(ex, NotImplementedError))
    v.cover()


@contract('C32', [U + 'anisotropic_cell_size'], samples=6)
def anisotropic_size(v):
    """smallest singular value of the Jacobian of the cell (root of the characteristic polynomial of J^T J, smaller than half its trace)"""
    m = mesh2d()
    got = []

    class F(Function):
        def interpolate(s, e, *a, **k):
            got.append(e)
            return s
    v.patch(ut, 'Function', F)
    r = ut.anisotropic_cell_size(m)
    v.check('one value per cell', len(got) == 1 and r.function_space() == FunctionSpace(m, 'DG', 0))
    import ufl
    env = uflsem.Env(v, 2)
    env.set(ufl.Jacobian(m), 'J', 'const')
    env.domain = []
    s = uflsem.evaluate(got[0], env)
    J = [[v.real('J_%d_%d' % (i, j)) for j in range(2)] for i in range(2)]
    I1 = sum(J[i][j] * J[i][j] for i in range(2) for j in range(2))
    det = J[0][0] * J[1][1] - J[0][1] * J[1][0]
    eps = core._frac(float(numpy.finfo(float).eps)) if v.symbolic else float(numpy.finfo(float).eps)
    disc = I1 * I1 - 4 * det * det + eps
    x = (I1 - v.sqrt(disc)) / 2
    v.check('formula', v.eq(s, v.sqrt(x)))
    v.check('discriminant not negative', v.le(0, I1 * I1 - 4 * det * det) if not v.symbolic else v.eq(I1 * I1 - 4 * det * det, (I1 - 2 * J[0][0] ** 2 - 2 * J[1][0] ** 2) ** 2 + 4 * (J[0][0] * J[0][1] + J[1][0] * J[1][1]) ** 2))
    # x solves the characteristic polynomial of J^T J perturbed by eps: x^2 - I1 x + det^2 = eps/4
    S = v.sqrt(disc)
    v.check('characteristic polynomial', v.eq(x * x - I1 * x + det * det, (S * S - I1 * I1) / 4 + det * det))
    v.cover()


@contract('C32', [U + 'compute_boundary_length', U + 'SubdomainProjector.__init__', U + 'SubdomainProjector.project', U + 'SumFunction.__init__', U + 'SumFunction.add',
                  U + 'SumFunction.get_sum', U + 'tensor_jump', U + 'domain_constant'], samples=6)
def small_helpers(v):
    m = mesh2d()
    got = []
    v.patch(ut, 'assemble', lambda f, **k: got.append(f) or float(len(got)))
    L = ut.compute_boundary_length(m)
    v.check('every boundary', sorted(L) == list(MARKERS))
    for mk, form in zip(L, got):
        env = uflsem.Env(v, 2)
        for c in form.coefficients():
            x = numpy.unique(c.dat.data_ro)
            v.check('ones', len(x) == 1 and x[0] == 1.0)
            env.const(c, 1)
        r = uflsem.integrals(form, env)
        v.check('length of this boundary', set(r) == {('exterior_facet', mk)} and v.eq(r[('exterior_facet', mk)], 1) and L[mk] == float(got.index(form) + 1))
    # projection of a restriction
    rec = Rec(v, ut)
    V = FunctionSpace(m, 'DG', 1)
    f, out = Function(V, name='f'), Function(V, name='out')
    sub = v.choice('subdomain', (1, 7, (1, 2)))
    expr = v.flag('expression')
    p = ut.SubdomainProjector(f * f if expr else f, out, sub)
    p.project()
    (pb,) = rec.problems
    v.check('solved', rec.solved == [pb] and pb.a[2] is out)
    env = uflsem.Env(v, 2)
    env.set(f, 'f', 'dg')
    env.set(TestFunction(V), 't', 'dg')
    env.set(TrialFunction(V), 'y', 'dg')
    r = uflsem.integrals(pb.a[0], env)
    v.check('mass everywhere', v.all([set(k for k, _ in r) == {'cell'}, v.eq(tot(r, 'cell'), v.real('y') * v.real('t')), all(s in ('everywhere', 'otherwise') for _, s in r)]))
    r = uflsem.integrals(pb.a[1], env)
    subs = sub if isinstance(sub, tuple) else (sub,)
    F = v.real('f') * (v.real('f') if expr else 1)
    v.check('right-hand side on the subdomain only', v.all([set(r) == {('cell', s) for s in subs}] + [v.eq(x, F * v.real('t')) for x in r.values()]))
    ex, _ = raises(ut.SubdomainProjector, 1.0, out, 1)
    v.check('numbers rejected', isinstance(ex, ValueError))
    # sums of optional terms
    s = ut.SumFunction()
    v.check('empty sum', s.get_sum() is None)
    terms = [Constant(1.0), None, Constant(2.0), Function(V)][:v.choice('terms', (1, 2, 3, 4))]
    env = uflsem.Env(v, 2)
    for i, t in enumerate(terms):
        if t is not None:
            env.set(t, 'a%d' % i, 'const')
        s.add(t)
    v.check('sum of what was given', v.eq(uflsem.evaluate(s.get_sum(), env), sum(v.real('a%d' % i) for i, t in enumerate(terms) if t is not None)))
    # constants over a mesh
    for x in (2.5, [1.0, 2.0], [[1.0, 2.0], [3.0, 4.0]], Constant(3.0), Constant((1.0, -2.0))):
        c = ut.domain_constant(x, m, name='c')
        sh = x.ufl_shape if hasattr(x, 'ufl_shape') else numpy.shape(x)
        w = x.values() if hasattr(x, 'values') else numpy.asarray(x)
        v.check('constant field', c.ufl_shape == sh and c.function_space().ufl_element().family() == 'Real' and numpy.array_equal(numpy.ravel(c.dat.data_ro), numpy.ravel(w)) and c.name() == 'c', repr(x))
    v.cover()


@contract('C32', [U + 'form2indicator', D + 'DualWeightedResidual2D.__init__', D + 'DualWeightedResidual2D.solve', D + 'ShallowWaterDualWeightedResidual2D.__init__',
                  D + 'ShallowWaterDualWeightedResidual2D.form', D + 'ShallowWaterDualWeightedResidual2D.space', D + 'TracerDualWeightedResidual2D.__init__',
                  D + 'TracerDualWeightedResidual2D.form', D + 'TracerDualWeightedResidual2D.space'], samples=6)
def dual_weighted_residual(v):
    """indicator of a cell: integrals of the residual tested with the dual over the cell and its facets"""
    m = mesh2d()
    tracer = v.flag('tracer')
    V = FunctionSpace(m, 'DG', 1)
    dual, x, rhs = Function(V, name='dual'), Function(V, name='x'), Function(V, name='b')
    t = TestFunction(V)
    parts = [p for p in ('cell', 'sub', 'int', 'ext') if v.flag(p)]
    if not parts:
        return
    F = 0
    for p in parts:
        F = F + {'cell': x * t * dx, 'sub': rhs * t * dx(3), 'int': x('+') * t('-') * dS, 'ext': x * t * ds(2)}[p]
    ts = NS(F=F)
    typ = v.choice('type', ('SteadyState', 'CrankNicolson', 'BackwardEuler'))
    coupled = tracer or v.flag('coupled')
    label = 'salt' if tracer else 'swe2d'
    other = NS(F=x * t * dx(9))
    so = NS(mesh2d=m, options=NS(swe_timestepper_type=typ if not tracer else 'x', tracer_timestepper_type=typ if tracer else 'x'),
            function_spaces=NS(V_2d=V if not tracer else None, Q_2d=V if tracer else None),
            timestepper=NS(timesteppers=NS(**{label: ts}) if not tracer else {label: ts, 'other': other}) if coupled else ts)
    probs = []
    v.patch(ut, 'solve', lambda eq, f, **k: probs.append((eq, f)))
    make = (lambda d, s=so: dg.TracerDualWeightedResidual2D(s, d, label=label)) if tracer else (lambda d, s=so: dg.ShallowWaterDualWeightedResidual2D(s, d))
    ex, o = raises(make, dual)
    if typ == 'BackwardEuler':
        v.check('unsupported integrators rejected', isinstance(ex, NotImplementedError))
        return
    v.check('created', ex is None, repr(ex))
    ex2, _ = raises(make, Function(FunctionSpace(UnitIntervalMesh(1), 'DG', 1)))
    v.check('dual on another mesh rejected', isinstance(ex2, ValueError), repr(ex2))
    o.solve()
    (eq, ind), = probs
    v.check('result kept', o.error is ind and ind.function_space() == FunctionSpace(m, 'DG', 0))
    P0 = ind.function_space()
    env = uflsem.Env(v, 2)
    for f, n in ((dual, 'd'), (x, 'x'), (rhs, 'b'), (TestFunction(P0), 'p'), (TrialFunction(P0), 'y')):
        env.set(f, n, 'dg')
    r = uflsem.integrals(eq.lhs, env)
    v.check('mass', v.eq(tot(r, 'cell'), v.real('y') * v.real('p')))
    r = uflsem.integrals(eq.rhs, env)
    vol = lambda s='': v.real('geo_CellVolume' + s, pos=True)
    want = {}
    for p in parts:
        if p == 'cell':
            want[('cell', 'everywhere')] = want.get(('cell', 'everywhere'), 0) + vol() * v.real('p') * v.real('x') * v.real('d')
        if p == 'sub':
            want[('cell', 3)] = vol() * v.real('p') * v.real('b') * v.real('d')
        if p == 'int':
            want[('interior_facet', 'everywhere')] = (vol('P') * v.real('pP') + vol('M') * v.real('pM')) * v.real('xP') * v.real('dM')
        if p == 'ext':
            want[('exterior_facet', 2)] = vol() * v.real('p') * v.real('x') * v.real('d')
    norm = lambda k: (k[0], 'everywhere' if k[1] in ('everywhere', 'otherwise') else k[1])
    # firedrake merges integrals over everything into those over subdomains
    got = {}
    for k, y in r.items():
        got[norm(k)] = got.get(norm(k), 0) + y
    if ('cell', 3) in want and ('cell', 'everywhere') in want and v.eq(0, 0):
        alt = dict(want)
        alt[('cell', 3)] = want[('cell', 3)] + want[('cell', 'everywhere')]
        v.check('cell parts', v.any([v.all([v.eq(got.get(k, 0), w.get(k, 0)) for k in set(got) | set(w)]) for w in (want, alt)]))
    else:
        facets_same(v, got, want, 'indicator')
    ex, _ = raises(ut.form2indicator, F)
    v.check('only forms without arguments', isinstance(ex, ValueError))
    v.cover()


@contract('C32', ['thetis.solver2d:FlowSolver2d.set_wetting_and_drying_alpha'], samples=6)
def drying_parameter(v):
    """automatic parameter: width of the cell times the slope of the bed in each direction, within its bounds; negative parameters are rejected"""
    m = mesh2d()
    P1 = FunctionSpace(m, 'CG', 1)
    ba = Function(P1, name='bath')
    wid = Function(VectorFunctionSpace(m, 'DG', 0), name='wid')
    auto, on = v.flag('automatic'), v.flag('wetting_and_drying')
    o = topt.ModelOptions2d()
    o.use_wetting_and_drying = on
    o.use_automatic_wetting_and_drying_alpha = auto
    lo, hi = v.choice('bounds', ((True, True), (True, False), (False, True), (False, False)))
    cl, ch = Constant(0.1), Constant(0.2)
    o.wetting_and_drying_alpha_min = cl if lo else None
    o.wetting_and_drying_alpha_max = ch if hi else None
    got = []

    class F(Function):
        def interpolate(s, e, *a, **k):
            got.append((s, e))
            return s
    v.patch(s2, 'Function', F)
    given = v.choice('given', ('constant', 'negative constant', 'function', 'negative function')) if not auto else None
    if given:
        x = 0.3 if 'negative' not in given else -0.1
        o.wetting_and_drying_alpha = Constant(x) if 'constant' in given else F(P1).assign(x)
    before = o.wetting_and_drying_alpha
    asked = []
    v.patch(s2, 'get_cell_widths_2d', lambda mm: asked.append(mm) or wid)
    v.patch(s2, 'print_output', lambda *a, **k: None)

    class S:
        def __getattr__(self, k):
            a = getattr(s2.FlowSolver2d, k)
            return a.__get__(self) if callable(a) else a
    so = S()
    so.__dict__.update(options=o, mesh2d=m, fields=NS(bathymetry_2d=ba), function_spaces=NS(P1_2d=P1))
    ex, _ = raises(lambda: s2.FlowSolver2d.set_wetting_and_drying_alpha(so))
    if not on:
        v.check('nothing to do', ex is None and o.wetting_and_drying_alpha is before and not got)
        return
    if not auto:
        v.check('given parameter kept', o.wetting_and_drying_alpha is before and not got)
        v.check('negative parameter rejected', (ex is not None) == ('negative' in given), repr(ex))
        return
    v.check('computed', ex is None and len(got) == 1 and o.wetting_and_drying_alpha is got[0][0] and got[0][0].function_space() == P1 and asked == [m], repr(ex))
    env = uflsem.Env(v, 2)
    env.set(ba, 'bath', 'cg')
    env.set(wid, 'wid', 'dg', lo=0)
    env.set(cl, 'amin', 'const', lo=0)
    env.set(ch, 'amax', 'const', lo=0)
    a = v.real('wid_0', lo=0) * v.abs(v.real('bath_dx')) + v.real('wid_1', lo=0) * v.abs(v.real('bath_dy'))
    A0, A1 = v.real('amin', lo=0), v.real('amax', lo=0)
    if lo and hi:
        v.assume(A0 <= A1)
    if hi:
        a = v.min(A1, a)
    if lo:
        a = v.max(A0, a)
    r = uflsem.evaluate(got[0][1], env)
    v.check('width times slope, within the bounds', v.eq(r, a))
    v.check('not negative', v.le(0, r))
    v.cover()
