from fractions import Fraction
from firedrake import *
from pyvc import uflsem, core
from pyvc.contract import contract
from .tracers import *
from .common import raises

T2 = 'thetis.tracer_eq_2d:'
A2 = [T2 + 'HorizontalAdvectionTerm.residual', T2 + 'ConservativeHorizontalAdvectionTerm.residual', T2 + 'TracerTerm.get_bnd_functions',
      T2 + 'TracerTerm.component', T2 + 'TracerEquation2D.__init__', T2 + 'TracerEquation2D.add_conservative_terms',
      T2 + 'TracerEquation2D.add_nonconservative_terms', 'thetis.equation:Equation.residual']
D2 = [T2 + 'HorizontalDiffusionTerm.residual', T2 + 'TracerEquation2D.__init__']
dot2 = lambda a, b: sum(x * y for x, y in zip(a, b))


def cfg2(v, cons=None, space=None, nsys=None, lf=None, depths=DEPTHS[:1]):
    nm, nl, wd = v.choice('depth', depths)
    return tracer2d(space or v.choice('space', ('DG', 'CG')), nsys or v.choice('nsys', (1, 2)),
                    v.flag('conservative') if cons is None else cons, nl, wd, v.flag('lax_friedrichs') if lf is None else lf)


def cs(t, nm, i):
    """symbol name of component i"""
    return nm + ('_%d' % i if t.nsys > 1 else '')


def const_test(t, i):
    return lambda comp, r: 1 if (t.nsys == 1 or comp[0] == i) else 0


def pick(v, s, a, b):
    """a if s > 0, b if s < 0, the mean if s = 0"""
    k = v.sign(s)
    return a if k > 0 else (b if k < 0 else (a + b) / 2)


def vtot(ints, typ):
    return uflsem.total(ints, typ)


@contract('C09', A2, budget=200)
def conservation_2d(v):
    """test = 1: interior fluxes cancel; only boundaries and sources remain (conservative form)"""
    t = cfg2(v, cons=True, depths=DEPTHS)
    i = v.choice('comp', tuple(range(t.nsys)))
    src = v.flag('source')
    env = t.env(v, test=const_test(t, i))
    ints = uflsem.integrals(t.residual(diff=True, src=src), env)
    H = uflsem.evaluate(t.depth.get_total_depth(t.elev), env)
    v.check('interior facets', v.eq(vtot(ints, 'interior_facet'), 0))
    v.check('cell: source times depth only', v.eq(vtot(ints, 'cell'), H * v.real('S%d' % i) if src else 0))
    U = [v.real('corr', lo=0) * v.real('uv_%d' % k) for k in range(2)]
    n = [env.normal(k, None) for k in range(2)]
    for m in MARKERS:
        v.check('boundary: only what the velocity carries through', v.eq(ints.get(('exterior_facet', m), 0), -v.real(cs(t, 'c', i)) * dot2(U, n)))
    v.cover()


@contract('C09', D2, budget=200)
def diffusion_2d(v):
    """conservative, symmetric, no flux through closed boundaries, constants in the kernel, consistent"""
    t = cfg2(v, lf=False)
    i = v.choice('comp', tuple(range(t.nsys)))
    form = t.residual(adv=False, diff=True)
    env = t.env(v, test=const_test(t, i))
    for k, x in uflsem.integrals(form, env).items():
        v.check('no net gain: ' + k[0], v.eq(x, 0))
    env = t.env(v, c=lambda comp, r: v.real('k%d' % (comp[0] if comp else 0)))
    for k, x in uflsem.integrals(form, env).items():
        v.check('constant tracer: ' + k[0], v.eq(x, 0))
    A, B = uflsem.Field('A', 'dg'), uflsem.Field('B', 'dg')
    r1, r2 = uflsem.integrals(form, t.env(v, c=A, test=B)), uflsem.integrals(form, t.env(v, c=B, test=A))
    for k in set(r1) | set(r2):
        v.check('symmetric: ' + k[0], v.eq(r1.get(k, 0), r2.get(k, 0)))
        if k[0].startswith('exterior'):
            v.check('closed boundary', v.eq(r1.get(k, 0), 0))
    r = uflsem.integrals(form, t.env(v, c=A, test=A))
    v.check('dissipates in the cell', v.le(vtot(r, 'cell'), 0))
    env = t.env(v)
    r = uflsem.integrals(form, env)
    g = 0
    for j in range(t.nsys):
        g = g - v.real('K%d' % j, lo=0) * sum(v.real(cs(t, 'c', j) + '_d' + d) * v.real(cs(t, 't', j) + '_d' + d) for d in 'xy')
    v.check('cell: -K grad c . grad test', v.eq(vtot(r, 'cell'), g))
    if t.kind == 'dg':
        S = uflsem.Field('s', 'cg', deriv=lambda c, d, r: v.real('ds_%s_%d' % (c[0] if c else 'x', d[0])))
        env = t.env(v, c=S)
        r = uflsem.integrals(form, env)
        n = [env.normal(k, '+') for k in range(2)]
        e = 0
        for j in range(t.nsys):
            e = e + v.real('K%d' % j, lo=0) * (v.real(cs(t, 't', j) + 'P') - v.real(cs(t, 't', j) + 'M')) \
                * sum(n[k] * v.real('ds_%s_%d' % (j if t.nsys > 1 else 'x', k)) for k in range(2))
        v.check('facet flux of a smooth tracer', v.eq(vtot(r, 'interior_facet'), e))
        P0 = uflsem.Field('A', 'dg', deriv=lambda c, d, r: 0)
        r = uflsem.integrals(form, t.env(v, c=P0, test=P0))
        v.check('penalty dissipates', v.le(vtot(r, 'interior_facet'), 0))
    v.cover()


@contract('C09', A2, budget=200)
def upwind_2d(v):
    """the flux through an interior facet takes the tracer from the upwind side"""
    t = cfg2(v, space='DG', lf=False)
    i = v.choice('comp', tuple(range(t.nsys)))
    form = t.residual()
    v.fork = True
    one_side = lambda s: (lambda comp, r: (1 if r == s else 0) if (t.nsys == 1 or comp[0] == i) else 0)
    fP = vtot(uflsem.integrals(form, t.env(v, test=one_side('+'))), 'interior_facet')
    env = t.env(v, test=one_side('-'))
    fM = vtot(uflsem.integrals(form, env), 'interior_facet')
    co = v.real('corr', lo=0)
    n = [env.normal(k, '+') for k in range(2)]
    uP, uM = [co * v.real('uv_%dP' % k) for k in range(2)], [co * v.real('uv_%dM' % k) for k in range(2)]
    av = (dot2(uP, n) + dot2(uM, n)) / 2
    cP, cM = v.real(cs(t, 'c', i) + 'P'), v.real(cs(t, 'c', i) + 'M')
    if t.cons:
        up = pick(v, av, cP * dot2(uP, n), cM * dot2(uM, n))
        v.check('flux out of +', v.eq(fP, -up))
        v.check('flux into -', v.eq(fM, up))
    else:
        cu = pick(v, av, cP, cM)
        v.check('flux out of +', v.eq(fP, -cu * dot2(uP, n)))
        v.check('flux into -', v.eq(fM, cu * dot2(uM, n)))
    v.cover()


@contract('C09', A2, budget=200)
def constants_2d(v):
    """non-conservative form, constant tracer: every integral is that of -div(u test) K (which sums to zero); conservative form: of -u.grad(test) K"""
    t = cfg2(v)
    corr_const = True
    K = lambda j: v.real('k%d' % j)
    env = t.env(v, c=lambda comp, r: K(comp[0] if comp else 0), corr=lambda comp, r: v.real('corr', lo=0))
    bk = v.choice('bnd', ('none', 'empty', 'value', 'elev', 'uv', 'flux', 'un'))
    co = v.real('corr', lo=0)
    uv = [v.real('uv_%d' % k) for k in range(2)]
    n = [env.normal(k, None) for k in range(2)]
    H = uflsem.evaluate(t.depth.get_total_depth(t.elev), env)
    bnd = {}
    if bk != 'none':
        bnd = {2: {}}
        if bk != 'empty':
            o = Constant((0., 0.)) if bk == 'uv' else Constant(0.)
            val = {'value': K(0), 'elev': v.real('elev'), 'uv': uv, 'un': None, 'flux': None}[bk]
            if bk in ('un', 'flux'):
                # interior velocity along the normal
                un = v.real('un')
                env = t.env(v, c=lambda comp, r: K(comp[0] if comp else 0), corr=lambda comp, r: v.real('corr', lo=0),
                            uv=lambda comp, r: un * env.normal(comp[0], None))
                uv = [un * n[k] for k in range(2)]
                val = un if bk == 'un' else un * H * v.real('len2', pos=True)
            env.const(o, val)
            bnd[2][bk] = o
    if bk == 'value' and t.nsys > 1:
        v.assume(v.eq(K(0), K(1)))
    ints = uflsem.integrals(t.residual(bnd), env)
    e = 0
    eb = 0
    ef = 0
    for j in range(t.nsys):
        te, nm = v.real(cs(t, 't', j)), cs(t, 't', j)
        if bk not in ('un', 'flux'):
            du = v.real('uv_0_dx') + v.real('uv_1_dy')
        else:
            du = 0
        adv = co * sum(uv[k] * v.real(nm + '_d' + 'xy'[k]) for k in range(2))
        if not t.cons:
            adv = adv + co * du * te
        e = e + K(j) * adv
        eb = eb - K(j) * co * dot2(uv, n) * te
    v.check('cell', v.eq(vtot(ints, 'cell'), e))
    for m in MARKERS:
        v.check('boundary' + (' with data equal to the interior' if m == 2 else ''), v.eq(ints.get(('exterior_facet', m), 0), eb))
    if bk not in ('un', 'flux') and t.kind == 'dg' and not t.cons:
        n = [env.normal(k, '+') for k in range(2)]
        f = 0
        for j in range(t.nsys):
            nm = cs(t, 't', j)
            f = f - K(j) * co * sum(n[k] * (v.real(nm + 'P') * v.real('uv_%dP' % k) - v.real(nm + 'M') * v.real('uv_%dM' % k)) for k in range(2))
        v.check('facet', v.eq(vtot(ints, 'interior_facet'), f))
    v.cover()


@contract('C09', A2 + D2, budget=200)
def boundary_2d(v):
    """prescribed boundary data: exterior value enters with the inflow, the interior value leaves with the outflow"""
    keys = v.choice('data', (('value',), ('value', 'uv'), ('value', 'un'), ('value', 'flux'), ('value', 'elev', 'flux'), ('uv',), ('elev',)))
    t = cfg2(v, space='DG', lf=False, nsys=v.choice('nsys', (1, 2)) if keys == ('value', 'uv') else 1, depths=DEPTHS[:2] if 'flux' in keys else DEPTHS[:1])
    v.fork = True
    env = t.env(v)
    f = {}
    for k in keys:
        f[k] = Constant((0., 0.)) if k == 'uv' else Constant(0.)
        env.set(f[k], 'b_' + k, 'const')
    if 'flux' in keys:
        He = uflsem.evaluate(t.depth.get_total_depth(f.get('elev', t.elev)), env)
        v.assume(He > 0)
    ints = uflsem.integrals(t.residual({2: f}), env)
    co = v.real('corr', lo=0)
    U = [co * v.real('uv_%d' % k) for k in range(2)]
    n = [env.normal(k, None) for k in range(2)]
    un = dot2(U, n)
    if 'uv' in keys:
        Ue = [co * v.real('b_uv_%d' % k) for k in range(2)]
        une = dot2(Ue, n)
    elif 'un' in keys:
        une = co * v.real('b_un')
    elif 'flux' in keys:
        une = co * v.real('b_flux') / (He * v.real('len2', pos=True))
    else:
        une = un
    av = (un + une) / 2
    e = 0
    for j in range(t.nsys):
        c = v.real(cs(t, 'c', j))
        ce = v.real('b_value') if 'value' in keys else c
        te = v.real(cs(t, 't', j))
        if t.cons:
            e = e - pick(v, av, c * un, ce * une) * te
        else:
            e = e - pick(v, av, c, ce) * av * te
    v.check('boundary flux', v.eq(ints.get(('exterior_facet', 2), 0), e))
    for m in (1, 3, 4):
        v.check('other boundaries are not affected', v.eq(ints.get(('exterior_facet', m), 0),
                                                         -sum(v.real(cs(t, 'c', j)) * v.real(cs(t, 't', j)) for j in range(t.nsys)) * un))
    # diffusive flux through a boundary with data: that of the interior gradient for outflow, of the (constant) exterior value for inflow
    d = uflsem.integrals(t.residual({2: f}, adv=False, diff=True), env)
    k = v.sign(av)
    s = 1 if (k > 0 or 'value' not in keys) else (0 if k < 0 else Fraction(1, 2))
    v.check('diffusive boundary flux', v.eq(d.get(('exterior_facet', 2), 0), s * sum(
        v.real(cs(t, 't', j)) * v.real('K%d' % j, lo=0) * sum(v.real(cs(t, 'c', j) + '_d' + 'xy'[i]) * n[i] for i in range(2)) for j in range(t.nsys))))
    # diffusive flux data
    q = Constant(0.)
    env.set(q, 'b_q', 'const')
    d = uflsem.integrals(t.residual({2: {'diff_flux': q}}, adv=False, diff=True), env)
    v.check('prescribed diffusive flux enters', v.eq(d.get(('exterior_facet', 2), 0), v.real('b_q') * sum(v.real(cs(t, 't', j)) for j in range(t.nsys))))
    v.cover()


@contract('C09', [T2 + 'SourceTerm.residual', T2 + 'ConservativeSourceTerm.residual', *A2], budget=100)
def sources_2d(v):
    t = cfg2(v, lf=False, depths=DEPTHS)
    lab = v.choice('label', ('all', 'source', 'explicit', 'implicit'))
    env = t.env(v)
    H = uflsem.evaluate(t.depth.get_total_depth(t.elev), env)
    a = uflsem.integrals(t.residual(label=lab, src=True), env)
    b = uflsem.integrals(t.residual(label=lab), env)
    e = sum(v.real('S%d' % j) * v.real(cs(t, 't', j)) * (H if t.cons else 1) for j in range(t.nsys)) if lab in ('all', 'source') else 0
    v.check('source enters once, positive', v.eq(vtot(a, 'cell') - vtot(b, 'cell'), e))
    for k in set(a) | set(b):
        if k[0] != 'cell':
            v.check('not on facets', v.eq(a.get(k, 0), b.get(k, 0)))
    v.cover()


@contract('C09', [T2 + 'TracerEquation2D.apply_supg', T2 + 'TracerEquation2D.__init__'], budget=100)
def supg_2d(v):
    """streamline-upwind test function of each tracer: its own test function plus tau times its derivative along the flow, 0 <= tau <= h / (2 U)"""
    m = mesh2d()
    h = Function(FunctionSpace(m, 'DG', 0), name='h')
    asked = []
    v.patch(tracer_eq_2d, 'anisotropic_cell_size', lambda mesh: (asked.append(mesh), h)[1])
    nsys, cons = v.choice('nsys', (1, 2)), v.flag('conservative')
    ex, t = raises(Tracer2d, 'CG', nsys, cons, True, False, False, True)
    v.check('accepted for one or several tracers in a system', ex is None, repr(ex))
    if ex is not None:
        return
    v.check('cell size of the mesh', asked and all(a is m for a in asked))
    env = t.env(v)
    env.set(h, 'h', 'const', pos=True)
    env.set(t.U, 'U', 'const', lo=0)
    env.set(t.D, 'D', 'const', lo=0)
    a = uflsem.integrals(t.residual(label='source', src=True), env)
    H = uflsem.evaluate(t.depth.get_total_depth(t.elev), env) if cons else 1
    U, D, hh = v.real('U', lo=0), v.real('D', lo=0), v.real('h', pos=True)
    got = vtot(a, 'cell')
    plain = sum(v.real('S%d' % j) * v.real(cs(t, 't', j)) * H for j in range(nsys))
    along = sum(v.real('S%d' % j) * H * sum(v.real('uv_%d' % k) * v.real(cs(t, 't', j) + '_d' + 'xy'[k]) for k in range(2)) for j in range(nsys))
    if not v.symbolic and U == 0:
        v.check('no flow scale: plain Galerkin', v.eq(got, plain))
        return
    v.check('no flow scale: plain Galerkin', v.implies(v.eq(U, 0), v.eq(got, plain)))
    v.assume(v.lt(0, U))
    full = hh / (2 * U)
    v.check('no diffusivity scale: tau = h / (2 U)', v.implies(v.eq(D, 0), v.eq(got, plain + full * along)))
    # tau in [0, h / (2 U)]
    lo, hi = v.min(0, full * along), v.max(0, full * along)
    v.check('along the flow, bounded', v.all([v.le(lo, got - plain), v.le(got - plain, hi)]))
    v.cover()


@contract('C09', A2, budget=100)
def lax_friedrichs_2d(v):
    i = 0
    a = cfg2(v, space='DG', lf=True)
    b = tracer2d('DG', a.nsys, a.cons, a.nl, a.wd, False)
    A = uflsem.Field('A', 'dg')
    r = [uflsem.integrals(t.residual(), t.env(v, c=A, test=A)) for t in (a, b)]
    for k in set(r[0]) | set(r[1]):
        d = r[0].get(k, 0) - r[1].get(k, 0)
        if k[0] == 'interior_facet':
            v.check('dissipative', v.le(d, 0))
        else:
            v.check('only on interior facets', v.eq(d, 0))
    r = [uflsem.integrals(t.residual(), t.env(v, test=const_test(t, 0))) for t in (a, b)]
    v.check('conservative', v.eq(vtot(r[0], 'interior_facet'), vtot(r[1], 'interior_facet')))
    v.cover()


# ------------------------------------------------------------------ 3D
T3 = 'thetis.tracer_eq:'
A3 = [T3 + 'HorizontalAdvectionTerm.residual', T3 + 'VerticalAdvectionTerm.residual', T3 + 'TracerEquation.__init__']
D3 = [T3 + 'HorizontalDiffusionTerm.residual', T3 + 'VerticalDiffusionTerm.residual']
IF = ('interior_facet_horiz', 'interior_facet_vert')


def cfg3(v, symm=None, lf=None, dg=None):
    h, w = ('DG', 'DG') if dg else v.choice('space', (('DG', 'DG'), ('CG', 'CG')))
    return tracer3d(h, w, v.flag('symm') if symm is None else symm, v.flag('lf') if lf is None else lf)


@contract('C09', A3 + D3 + [T3 + 'SourceTerm.residual'], budget=200)
def conservation_3d(v):
    t = cfg3(v)
    da, wm, src = v.flag('depth_averaged'), v.flag('mesh_velocity'), v.flag('source')
    env = t.env(v, test=lambda c, r: 1)
    ints = uflsem.integrals(t.residual(adv=True, da=da, vert=True, wm=wm, diff=True, diffv=True, src=src), env)
    for k in IF:
        v.check('cancel on ' + k, v.eq(vtot(ints, k), 0))
    v.check('cell: source only', v.eq(vtot(ints, 'cell'), v.real('S') if src else 0))
    v.check('lateral boundaries closed', v.eq(vtot(ints, 'exterior_facet_vert'), 0))
    n = [env.normal(k, None) for k in range(3)]
    c = v.real('c')
    u = [v.real('uv_%d' % k) + (v.real('uvda_%d' % k) if da else 0) for k in range(2)]
    w = v.real('w_2') - (v.real('wm') if wm else 0)
    un = (u[0] * n[0] + u[1] * n[1] if t.symm else 0) + w * n[2]
    kd = v.real('K', lo=0) * (v.real('c_dx') * n[0] + v.real('c_dy') * n[1])
    v.check('surface: velocity relative to the moving mesh', v.eq(vtot(ints, 'exterior_facet_top'), -c * un + kd))
    v.check('bed: no advective flux', v.eq(vtot(ints, 'exterior_facet_bottom'), kd))
    v.cover()


@contract('C09', A3, budget=200)
def upwind_3d(v):
    v.fork = True
    t = cfg3(v, lf=False, dg=True)
    part = v.choice('part', ('horizontal', 'vertical'))
    da, wm = v.flag('da'), v.flag('wm')
    kw = dict(adv=True, da=da) if part == 'horizontal' else dict(vert=True, wm=wm)
    f1 = uflsem.integrals(t.residual(**kw), t.env(v, test=lambda c, r: 1 if r == '+' else 0))
    env = t.env(v, test=lambda c, r: 1 if r == '-' else 0)
    f2 = uflsem.integrals(t.residual(**kw), env)
    n = [env.normal(k, '+') for k in range(3)]
    cP, cM = v.real('cP'), v.real('cM')
    if part == 'horizontal':
        av = sum(n[k] * (v.real('uv_%dP' % k) + v.real('uv_%dM' % k) + (v.real('uvda_%dP' % k) + v.real('uvda_%dM' % k) if da else 0)) for k in range(2)) / 2
    else:
        av = n[2] * (v.real('w_2P') + v.real('w_2M') - (v.real('wmP') + v.real('wmM') if wm else 0)) / 2
    up = pick(v, av, cP, cM)
    for k in IF:
        if part == 'vertical' and k == IF[1]:
            v.check('no vertical flux through vertical facets', v.eq(vtot(f1, k), 0))
            continue
        v.check('out of +', v.eq(vtot(f1, k), -up * av))
        v.check('into -', v.eq(vtot(f2, k), up * av))
    v.cover()


@contract('C09', A3, budget=200)
def constants_3d(v):
    t = cfg3(v)
    da, wm = v.flag('da'), v.flag('wm')
    K = v.real('k')
    env = t.env(v, c=lambda c, r: v.real('k'))
    ints = uflsem.integrals(t.residual(adv=True, da=da, vert=True, wm=wm, diff=True, diffv=True), env)
    u = lambda k, s='': v.real('uv_%d%s' % (k, s)) + (v.real('uvda_%d%s' % (k, s)) if da else 0)
    w = lambda s='': v.real('w_2' + s) - (v.real('wm' + s) if wm else 0)
    v.check('cell', v.eq(vtot(ints, 'cell'), K * (u(0) * v.real('t_dx') + u(1) * v.real('t_dy') + w() * v.real('t_dz'))))
    n = [env.normal(k, '+') for k in range(3)]
    jt = v.real('tP') - v.real('tM')
    hor = sum(n[k] * (u(k, 'P') + u(k, 'M')) for k in range(2)) / 2
    ver = n[2] * (w('P') + w('M')) / 2
    v.check('vertical facets', v.eq(vtot(ints, IF[1]), -K * hor * jt if t.hdg else 0))
    v.check('horizontal facets', v.eq(vtot(ints, IF[0]), -K * (hor + ver) * jt if t.hdg else 0))
    v.check('lateral', v.eq(vtot(ints, 'exterior_facet_vert'), 0))
    v.check('bed', v.eq(vtot(ints, 'exterior_facet_bottom'), 0))
    v.cover()


@contract('C09', D3, budget=200)
def diffusion_3d(v):
    t = cfg3(v, symm=True, lf=False)
    part = v.choice('part', ('diff', 'diffv'))
    form = t.residual(**{part: True})
    A, B = uflsem.Field('A', 'dg'), uflsem.Field('B', 'dg')
    r1, r2 = uflsem.integrals(form, t.env(v, c=A, test=B)), uflsem.integrals(form, t.env(v, c=B, test=A))
    for k in set(r1) | set(r2):
        if not k[0].startswith('exterior'):
            v.check('symmetric: ' + k[0], v.eq(r1.get(k, 0), r2.get(k, 0)))
    r = uflsem.integrals(form, t.env(v, c=A, test=A))
    v.check('dissipates', v.le(vtot(r, 'cell'), 0))
    P0 = uflsem.Field('A', 'dg', deriv=lambda c, d, r: 0)
    r = uflsem.integrals(form, t.env(v, c=P0, test=P0))
    for k in IF:
        v.check('penalty dissipates', v.le(vtot(r, k), 0))
    for k, x in uflsem.integrals(form, t.env(v, c=lambda c, r: v.real('k'))).items():
        v.check('constant tracer: ' + k[0], v.eq(x, 0))
    env = t.env(v)
    D = 'xy' if part == 'diff' else 'z'
    K = v.real('K', lo=0) if part == 'diff' else v.real('Kv', lo=0)
    v.check('cell', v.eq(vtot(uflsem.integrals(form, env), 'cell'), -K * sum(v.real('c_d' + d) * v.real('t_d' + d) for d in D)))
    if t.hdg:
        S = uflsem.Field('s', 'cg', deriv=lambda c, d, r: v.real('ds_%d' % d[0]))
        env = t.env(v, c=S)
        r = uflsem.integrals(form, env)
        n = [env.normal(k, '+') for k in range(3)]
        jt = v.real('tP') - v.real('tM')
        fl = K * jt * sum(n['xyz'.index(d)] * v.real('ds_%d' % 'xyz'.index(d)) for d in D)
        v.check('smooth tracer, horizontal facets', v.eq(vtot(r, IF[0]), fl))
        v.check('smooth tracer, vertical facets', v.eq(vtot(r, IF[1]), fl if part == 'diff' else 0))
    v.cover()


@contract('C09', A3 + [T3 + 'TracerTerm.get_bnd_functions'], budget=200)
def boundary_3d(v):
    v.fork = True
    t = cfg3(v, symm=True, lf=False, dg=True)
    env = t.env(v)
    keys = v.choice('data', (('value',), ('value', 'uv'), ('value', 'un'), ('value', 'flux'), ('value', 'elev', 'flux'), ('uv',), ('elev',), ()))
    f = {}
    for k in keys:
        f[k] = Constant((0., 0., 0.)) if k == 'uv' else Constant(0.)
        env.set(f[k], 'b_' + k, 'const')
    ints = uflsem.integrals(t.residual({2: f}, adv=True), env)
    n = [env.normal(k, None) for k in range(3)]
    un = sum(v.real('uv_%d' % k) * n[k] for k in range(2))
    nh = n[0] * n[0] + n[1] * n[1]      # lateral boundaries are vertical: nh = 1
    v.assume(v.eq(n[2], 0))
    if 'uv' in keys:
        une = sum(v.real('b_uv_%d' % k) * n[k] for k in range(2))
    elif 'un' in keys:
        une = v.real('b_un') * nh
    elif 'flux' in keys:
        He = v.real('bath', pos=True) + (v.real('b_elev') if 'elev' in keys else v.real('elev'))
        v.assume(He > 0)
        une = v.real('b_flux') / (He * v.real('len2', pos=True)) * nh
    else:
        une = un
    av = (un + une) / 2
    c = v.real('c')
    ce = v.real('b_value') if 'value' in keys else c
    e = c * un + ((ce - c) * av if v.sign(av) < 0 else 0)
    v.check('boundary flux', v.eq(ints.get(('exterior_facet_vert', 2), 0), -e * v.real('t')))
    for m in (1, 3, 4):
        v.check('other boundaries closed', v.eq(ints.get(('exterior_facet_vert', m), 0), 0))
    v.cover()


@contract('C09', [T3 + 'SourceTerm.residual', T3 + 'TracerEquation.__init__'], budget=60)
def source_and_lf_3d(v):
    t = cfg3(v, symm=True, lf=True, dg=True)
    env = t.env(v)
    a = uflsem.integrals(t.residual(label=v.choice('label', ('all', 'source')), src=True), env)
    v.check('source enters once, positive', v.eq(vtot(a, 'cell'), v.real('S') * v.real('t')))
    b = tracer3d('DG', 'DG', True, False)
    A = uflsem.Field('A', 'dg')
    r = [uflsem.integrals(x.residual(adv=True, vert=True), x.env(v, c=A, test=A)) for x in (t, b)]
    for k in set(r[0]) | set(r[1]):
        d = r[0].get(k, 0) - r[1].get(k, 0)
        v.check('dissipative' if k[0] in IF else 'only interior facets', v.le(d, 0) if k[0] in IF else v.eq(d, 0))
    v.cover()
