"""C20 turbulence closures: generic length scale model, Pacanowski-Philander scheme, source terms."""
import types
import numpy
from firedrake import *
import thetis.turbulence as tb
import thetis.options as topt
from pyvc import core, genarr, uflsem
from pyvc.contract import contract
from pyvc.genarr import GArr, GNumpy
from .tracers import mesh3d
from .c27 import capture, forms, strip, space, CELL, HOR, VER, TOP, BOT, SIDE
from .common import raises

ASSUMPTIONS = [
    'numpy arithmetic, maximum and minimum act element by element, and Function.assign / Function.interpolate of nodal expressions act node by node '
    '(all turbulence fields share one space): contract of the generic array',
    'the stability functions are positive and finite (C21)',
    'real arithmetic; powers with non-(half-)integer exponents are an uninterpreted function with the usual sign and monotonicity laws',
    'the linear solves for the vertical gradients are exact',
    'minima (k_min, psi_min, eps_min, len_min, visc_min, diff_min), galperin_clim and cmu0 are positive (enforced by their traits)',
]
M = 'thetis.turbulence:'
G = M + 'GenericLengthScaleModel.'
P = M + 'PacanowskiPhilanderModel.'
CL = {'k-epsilon': (3.0, 1.5, -1.0), 'k-omega': (-1.0, 0.5, -1.0), 'gen': (2.0, 1.0, -0.67), 'length': (0.0, 1.0, 1.0)}


class GFld(GArr):
    """a Function of the turbulence space, by its value at one arbitrary node"""
    def __init__(self, x=0.0, name=''):
        GArr.__init__(self, x)
        self.nm = name

    @property
    def dat(self):
        return types.SimpleNamespace(data=self, data_ro=self, data_with_halos=self, data_ro_with_halos=self)

    def function_space(self): return 'V'

    def assign(self, o, *a, **k):
        if a or k:
            raise core.Unsupported('assign with options')
        self.x = o.x if isinstance(o, GArr) else o
        return self
    interpolate = assign


class CFld(numpy.ndarray):
    """the same with concrete numbers"""
    @property
    def dat(self):
        a = self.view(numpy.ndarray)
        return types.SimpleNamespace(data=a, data_ro=a, data_with_halos=a, data_ro_with_halos=a)

    def function_space(self): return 'V'

    def assign(self, o):
        self[:] = o
        return self
    interpolate = assign


def fld(v, x=0.0):
    if v.symbolic:
        return GFld(x)
    a = numpy.full(3, 1e-3).view(CFld)
    a[1] = x
    return a


def val(v, f):
    return f.x if v.symbolic else float(numpy.asarray(f)[1])


def setv(v, f, x):
    if v.symbolic:
        f.x = x
    else:
        numpy.asarray(f)[1] = x


class Grad:
    """contract of VerticalGradSolver: solve() stores some vertical derivative"""
    log = None

    def __init__(self, source, solution, *a, **k):
        self.source, self.solution = source, solution
        Grad.log.append(self)
        self.next = None

    def solve(self):
        self.n = getattr(self, 'n', 0) + 1
        setv(Grad.v, self.solution, self.next)


class Comp:
    def __getitem__(self, i): return ('uv', i)


def setup(v, cl=None, rho=True, **opts):
    if v.symbolic:
        core.eng().python_division = False
        v.patch(tb, 'numpy', GNumpy())
        v.patch(genarr, 'FORK', False)
    Grad.log, Grad.v = [], v
    v.patch(tb, 'VerticalGradSolver', Grad)
    v.patch(tb, 'Function', lambda *a, **k: fld(v))
    v.patch(tb, 'print_output', lambda *a: None)
    v.patch(tb, 'warning', lambda *a: None)
    for k in ('g_grav', 'rho0'):
        v.patch(tb.physical_constants, k, v.real(k, pos=True))
    import contextlib
    v.patch(tb, 'timed_stage', lambda n: contextlib.nullcontext())
    o = {k: getattr(tb.GLSModelOptions(), k) for k in tb.GLSModelOptions().trait_names()}
    for k in list(o):
        if k.startswith('compute_'):
            o[k] = False
    if cl == 'any':
        o['p'], o['m'], o['n'] = [v.real(k) for k in 'pmn'] if v.symbolic else (v.rng.uniform(-1, 3), v.rng.uniform(0.5, 1.5), v.rng.choice((-1, -0.67, 0.8, 1.0)))
        if v.symbolic:
            v.assume(v.not_(v.eq(o['n'], 0)))
    elif cl:
        o['p'], o['m'], o['n'] = CL[cl]
    for k, hi in (('cmu0', 1), ('k_min', 1e-5), ('psi_min', 1e-10), ('eps_min', 1e-10), ('len_min', 1e-8), ('visc_min', 1e-6), ('diff_min', 1e-6), ('galperin_clim', 1)):
        o[k] = v.real(k, pos=True, **({} if v.symbolic else dict(hi=hi, lo=hi / 10)))
    o.update(opts)
    o = types.SimpleNamespace(**o)
    f = types.SimpleNamespace(**{k: fld(v) for k in ('k', 'psi', 'l', 'eps', 'diff', 'visc', 'n2', 'm2')})
    return o, f


class Stab:
    def __init__(self, v, log, **kw):
        self.v, self.log, self.kw = v, log, kw

    def evaluate(self, *a):
        v = self.v
        self.log.append([val(v, x) for x in a])
        sm, sh = v.real('s_m', pos=True), v.real('s_h', pos=True)
        return (GArr(sm), GArr(sh)) if v.symbolic else (numpy.full(3, sm), numpy.full(3, sh))


def model(v, o, f, rho=True, continued=False):
    log = []
    for n in ('StabilityFunctionCanutoA', 'StabilityFunctionCanutoB', 'StabilityFunctionCheng', 'GOTMStabilityFunctionKanthaClayson'):
        v.patch(tb, n, lambda **kw: Stab(v, log, **kw))
    r = fld(v, v.real('rho')) if rho else None
    m = tb.GenericLengthScaleModel(types.SimpleNamespace(_simulation_continued=continued), f.k, f.psi, Comp(), r, f.l, f.eps, f.diff, f.visc, f.n2, f.m2, options=o)
    return m, log


def pw(v, x, y):
    return v.pow(x, y) if not (isinstance(y, (int, float)) and y == 0) else 1


@contract('C20', [G + '__init__'], tol=1e-8)
def gls_options(v):
    """closure constants are derived from the stability function exactly where asked for"""
    name = v.choice('function', ('Canuto A', 'Canuto B', 'Cheng', 'Kantha-Clayson', 'other'))
    ck = {k: v.flag(k) for k in ('compute_cmu0', 'compute_kappa', 'compute_schmidt_nb_psi', 'compute_c3_minus')} if name == 'Canuto A' else {}
    ex = {k: v.flag(k) for k in ('compute_psi_min', 'compute_len_min', 'compute_galperin_clim')} if not ck.get('compute_kappa', True) or name == 'Cheng' else {}
    o, f = setup(v, v.choice('closure', ('k-epsilon', 'any')), stability_function_name=name, **ck, **ex)
    for k in ('kappa', 'schmidt_nb_psi', 'c1', 'c2', 'c3_minus', 'ri_st'):
        setattr(o, k, v.real(k, pos=True))
    before = dict(vars(o))
    new = {k: v.real('new_' + k, pos=True) for k in ('cmu0', 'kappa', 'sigma', 'c3', 'clim')}
    calls = {}

    class S:
        def __init__(self, which, **kw): self.which, self.kw = which, kw
        def compute_cmu0(self, *a): return new['cmu0']

        def compute_kappa(self, *a):
            calls['kappa'] = a
            return new['kappa']

        def compute_sigma_psi(self, *a):
            calls['sigma'] = a
            return new['sigma']

        def compute_c3_minus(self, *a):
            calls['c3'] = a
            return new['c3']

        def compute_length_clim(self, *a):
            calls['clim'] = a
            return new['clim']
    for n in ('StabilityFunctionCanutoA', 'StabilityFunctionCanutoB', 'StabilityFunctionCheng', 'GOTMStabilityFunctionKanthaClayson',
              'GOTMStabilityFunctionCanutoA', 'GOTMStabilityFunctionCanutoB', 'GOTMStabilityFunctionCheng'):
        v.patch(tb, n, lambda n=n, **kw: S(n, **kw))
    vk = []
    v.patch(tb.physical_constants, 'von_karman', types.SimpleNamespace(assign=vk.append))
    mk = lambda: tb.GenericLengthScaleModel(types.SimpleNamespace(_simulation_continued=False), f.k, f.psi, Comp(), None, f.l, f.eps, f.diff, f.visc, f.n2, f.m2, options=o)
    if name == 'other':
        v.check('unknown stability function is an error', raises(Exception, mk))
        return
    m = mk()
    s = m.stability_func
    v.check('stability function by name', s.which.endswith(dict(zip(('Canuto A', 'Canuto B', 'Cheng', 'Kantha-Clayson'), ('CanutoA', 'CanutoB', 'Cheng', 'KanthaClayson')))[name]))
    v.check('both limits enabled', s.kw.get('lim_alpha_shear', True) is True and s.kw.get('lim_alpha_buoy', True) is True)
    exp = dict(before)
    if o.compute_cmu0:
        exp['cmu0'] = new['cmu0']
    if o.compute_kappa:
        exp['kappa'] = new['kappa']
    elif o.compute_schmidt_nb_psi:
        exp['schmidt_nb_psi'] = new['sigma']
    if o.compute_c3_minus:
        exp['c3_minus'] = new['c3']
    if o.compute_galperin_clim:
        exp['galperin_clim'] = new['clim']
    for k in ('cmu0', 'kappa', 'schmidt_nb_psi', 'c3_minus', 'galperin_clim', 'k_min', 'eps_min', 'ri_st', 'c1', 'c2', 'p', 'm', 'n', 'visc_min', 'diff_min'):
        v.check('option %s' % k, v.eq(getattr(o, k), exp[k]))
    same = lambda a, b: v.all([len(a) == len(b)] + [v.eq(x, y) for x, y in zip(a, b)])
    if o.compute_kappa:
        v.check('kappa from the Schmidt number of psi', same(calls['kappa'], (o.schmidt_nb_psi, o.cmu0, o.n, o.c1, o.c2)))
    v.check('mean flow uses the same von Karman constant', same(vk, [new['kappa']] if o.compute_kappa else []))
    if 'sigma' in calls:
        v.check('Schmidt number from kappa', same(calls['sigma'], (o.kappa, o.cmu0, o.n, o.c1, o.c2)))
    if o.compute_c3_minus:
        v.check('c3_minus of the steady Richardson number', same(calls['c3'], (o.c1, o.c2, o.ri_st)))
    if o.compute_galperin_clim:
        v.check('length limit of the steady Richardson number', same(calls['clim'], (o.cmu0, o.ri_st)))
    if o.compute_len_min:
        v.check('len_min: the length at k_min, eps_min', v.eq(o.len_min * o.eps_min, o.cmu0**3 * v.pow(o.k_min, 1.5)))
    else:
        v.check('len_min as given', v.eq(o.len_min, exp['len_min']))
    if o.compute_psi_min:
        p, mm, n = o.p, o.m, o.n
        x = pw(v, o.cmu0, 3.0 + p / n) * pw(v, o.k_min, 1.5 + mm / n) / o.eps_min
        v.check('psi_min: psi at k_min, eps_min', v.eq(o.psi_min, pw(v, x, n)))
    else:
        v.check('psi_min as given', v.eq(o.psi_min, exp['psi_min']))


@contract('C20', [G + 'initialize', G + 'preprocess', M + 'ShearFrequencySolver.__init__', M + 'ShearFrequencySolver.solve', M + 'BuoyFrequencySolver.__init__',
                  M + 'BuoyFrequencySolver.solve', M + 'set_func_min_val'], tol=1e-8)
def gls_history(v):
    """initialize, then preprocess in an arbitrary state"""
    cl = v.choice('closure', ('k-epsilon', 'any'))
    cont, rho = v.flag('continued'), v.flag('density')
    o, f = setup(v, cl)
    m, log = model(v, o, f, rho, cont)
    post = []
    v.patch(m, 'postprocess', lambda: post.append((val(v, f.k), val(v, f.psi), val(v, f.eps))))
    init = [v.real(n, pos=True) for n in ('k0', 'psi0', 'eps0')]
    for a, x in zip((f.k, f.psi, f.eps), init):
        setv(v, a, x)
    grads = {}

    def feed(tag):
        for i, g in enumerate(Grad.log):
            g.next = grads[tag, i] = v.real('grad%s%d' % (tag, i))
    v.check('gradients of both velocity components and of the buoyancy', [g.source for g in Grad.log[:2]] == [('uv', 0), ('uv', 1)] and len(Grad.log) == (3 if rho else 2))
    minval = 1e-12

    def freqs(tag):
        mu = grads[tag, 0] * grads[tag, 0] + grads[tag, 1] * grads[tag, 1]
        mn = core._frac(minval) if v.symbolic else minval
        v.check('shear frequency: sum of squares, at or above its minimum', v.eq(val(v, f.m2), v.ite(mu < mn, mn, mu)))
        n2 = val(v, f.n2)
        if rho:
            v.check('buoyancy frequency: derivative of the buoyancy', v.eq(n2, grads[tag, 2]))
            pos, neg = val(v, m.n2_pos), val(v, m.n2_neg)
            v.check('stable part', v.all([v.le(0, pos), v.implies(v.le(0, n2), v.eq(pos, n2)), v.implies(v.lt(n2, 0), v.eq(pos, mn))]))
            v.check('unstable part', v.all([v.le(neg, 0), v.implies(v.le(0, n2), v.eq(neg, 0)), v.implies(v.lt(n2, 0), v.eq(neg, n2))]))
    if rho:
        b = val(v, Grad.log[2].source)
        v.check('buoyancy -g rho/rho0', v.eq(b * v.real('rho0', pos=True), -v.real('g_grav', pos=True) * v.real('rho')))
    feed('a')
    auto = v.flag('initialised by the first preprocess')
    if auto:
        m.preprocess()
    elif not v.flag('user state'):
        m.initialize()
    else:
        for f_ in (f.k, f.psi):
            f_.project = lambda x, f_=f_: setv(v, f_, x)
        uk, up = v.real('user_k', pos=True), v.real('user_psi', pos=True)
        gk, gp = v.choice('given', ((True, True), (True, False), (False, True)))
        m.initialize(**{n: x for n, x, g in (('tke', uk, gk), ('psi', up, gp)) if g})
        if not cont:
            k, psi, eps = post[0]
            v.check('initial kinetic energy of the user', v.eq(k, uk if gk else o.k_min))
            if gp:
                v.check('initial psi of the user', v.eq(psi, up))
            return
    if cont:
        v.check('a continued run keeps the stored fields', v.all([v.eq(a, b) for a, b in zip(post[0], init)]))
    else:
        k, psi, eps = post[0]
        v.check('initial kinetic energy is the minimum', v.eq(k, o.k_min))
        l0 = 1
        e0 = o.cmu0**3 * v.pow(o.k_min, 1.5) * 100
        v.check('initial dissipation of the initial length (1 cm)', v.eq(eps, e0))
        x = pw(v, o.cmu0, 3.0 + o.p / o.n) * pw(v, o.k_min, 1.5 + o.m / o.n) / e0
        v.check('initial psi of the initial length', v.eq(psi, pw(v, x, o.n)))
    freqs('a')
    feed('b')
    for a, x in zip((f.n2, f.m2), (v.real('n2old'), v.real('m2old'))):
        setv(v, a, x)
    m.preprocess()
    v.check('initialised once', len(post) == 1)
    freqs('b')


@contract('C20', [G + 'postprocess', M + 'set_func_min_val'], tol=1e-7, budget=90)
def gls_update(v):
    """after the update of any state all fields are within their limits and satisfy the algebraic relations"""
    cl = v.choice('closure', ('k-epsilon', 'k-omega', 'gen', 'length', 'any'))
    psi_l, eps_l, len_m = v.flag('limit_psi'), v.flag('limit_eps'), v.flag('limit_len_min')
    len_l = v.flag('limit_len') if cl in ('k-epsilon', 'any') else eps_l
    o, f = setup(v, cl, limit_psi=psi_l, limit_eps=eps_l, limit_len=len_l, limit_len_min=len_m)
    m, log = model(v, o, f)
    m._initialized = True
    new = not (psi_l and len_m and not eps_l and v.flag('relaxed'))
    if not new:
        m.relaxation = v.real('relaxation', lo=0, hi=1)
    k0, psi0 = v.real('k'), v.real('psi')
    n2, np_, m2 = v.real('n2'), v.real('n2pos', lo=0, hi=None if v.symbolic else 1), v.real('m2', pos=True)
    v0, d0 = v.real('visc0', pos=True), v.real('diff0', pos=True)
    if not v.symbolic:
        k0, psi0, v0, d0 = v.rng.choice((-1.0, 1e-9, 0.01)), v.rng.choice((-1.0, 1e-12, 0.01)), 1e-3, 1e-3
    for a, x in ((f.k, k0), (f.psi, psi0), (f.n2, n2), (m.n2_pos, np_), (f.m2, m2), (f.visc, v0), (f.diff, d0), (f.eps, v.real('eps0')), (f.l, v.real('l0'))):
        setv(v, a, x)
    m.postprocess()
    k, psi, eps, l, nu, mu = [val(v, x) for x in (f.k, f.psi, f.eps, f.l, f.visc, f.diff)]
    p, mm, n, c = o.p, o.m, o.n, o.galperin_clim
    mx = lambda a, b: v.ite(a < b, b, a)
    mn = lambda a, b: v.ite(a > b, b, a)
    v.check('kinetic energy at or above its minimum', v.eq(k, mx(k0, o.k_min)))
    ne = np_ + (core._frac(1e-12) if v.symbolic else 1e-12)
    r2 = v.sqrt(core.Sym(core.zreal(2))) if v.symbolic else 2**0.5
    cm3 = o.cmu0**3
    v.check('psi at or above its minimum', v.le(o.psi_min, psi))
    if psi_l:
        lim = pw(v, r2 * c * pw(v, o.cmu0, p / n) * pw(v, k, mm / n + 0.5) * pw(v, ne, -0.5), n)
        ref = v.ite(n > 0, mn(psi0, lim), mx(psi0, lim)) if cl == 'any' else (mn if n > 0 else mx)(psi0, lim)
    else:
        ref = psi0
    v.check('psi: limited value', v.eq(psi, mx(ref, o.psi_min)))
    e1 = pw(v, o.cmu0, 3.0 + p / n) * pw(v, k, 1.5 + mm / n) * pw(v, psi, -1.0 / n)
    if eps_l:
        e1 = mx(e1, cm3 / (r2 * c) * v.sqrt(np_) * k)
    v.check('dissipation at or above its minimum', v.le(o.eps_min, eps))
    v.check('dissipation: algebraic relation to k and psi, limited', v.eq(eps, mx(e1, o.eps_min)))
    v.assume(v.lt(0, eps))      # proved by the check above
    l1 = cm3 * v.pow(k, 1.5) / eps
    if len_m:
        l1 = mx(l1, o.len_min)
    lm = c * v.sqrt(2 * k / ne)
    if len_l:
        v.check('length scale: Galperin limit', v.le(l, lm))
        l1 = mn(l1, lm)
    v.check('length scale: algebraic relation to k and dissipation, limited', v.eq(l, l1))
    if len_m:
        v.check('length scale at or above its minimum unless the Galperin limit is below it', v.any([v.le(o.len_min, l)] + ([v.eq(l, lm)] if len_l else [])))
    if psi_l and cl == 'k-epsilon' or eps_l:      # eps >= cmu0^3 k N/(sqrt(2) c)  <=>  l^2 N^2 <= 2 c^2 k
        # l0 = cmu0^3 k^1.5/eps:  l0^2 N^2 <= 2 c^2 k
        v.check('dissipation-based length within the Galperin limit', v.le(cm3 * cm3 * k * k * np_, 2 * c * c * eps * eps))
    v.check('stability functions of the updated state', len(log) == 1 and v.all([v.eq(a, b) for a, b in zip(log[0], (m2, n2, k, eps))]))
    sm, sh = v.real('s_m', pos=True), v.real('s_h', pos=True)
    lam = 1 if new else v.real('relaxation', lo=0, hi=1)
    for x, s, old, lo, nm in ((nu, sm, v0, o.visc_min, 'viscosity'), (mu, sh, d0, o.diff_min, 'diffusivity')):
        v.check('%s at or above its minimum' % nm, v.le(lo, x))
        v.check('%s: sqrt(k) l s/cmu0^3' % nm, v.eq(x, mx(lam * v.sqrt(k) * l * s / cm3 + (1 - lam) * old, lo)))


@contract('C20', [P + '__init__', P + 'initialize', P + 'preprocess', P + 'postprocess'], tol=1e-8)
def pacanowski(v):
    rho = v.flag('density')
    given = v.flag('options')
    o, f = setup(v)
    ops = {'max_viscosity': 0.05, 'alpha': 10.0, 'exponent': 2.0}
    if given:
        ops = {'max_viscosity': v.choice('max', (0.01, 2.0)), 'alpha': v.choice('alpha', (5.0, 0.5)), 'exponent': v.choice('exponent', (1.0, 3.0, 1.7))}
    F = lambda x: core._frac(x) if v.symbolic else x
    real = tb.Function
    n0 = {}
    calls = {'n': 0}

    class G0(Grad):
        def solve(self):
            i = Grad.log.index(self)
            self.next = v.real('g%s%d' % ('ab'[calls['n'] // len(Grad.log)], i))
            calls['n'] += 1
            Grad.solve(self)
    v.patch(tb, 'VerticalGradSolver', G0)
    m = tb.PacanowskiPhilanderModel(None, Comp(), fld(v, v.real('rho')) if rho else None, f.diff, f.visc, f.n2, f.m2, **({'options': dict(ops)} if given else {}))
    for k in ops:
        v.check('option %s' % k, getattr(m.options, k) == ops[k])

    def state(tag):
        eps = F(1e-12)
        s = v.real('g%s0' % tag)**2 + v.real('g%s1' % tag)**2
        m2 = v.ite(s < eps, eps, s)
        b = v.real('g%s2' % tag) if rho else eps
        n2 = v.ite(b < 0, eps, b) if rho else eps
        v.check('shear frequency at or above its minimum, stable part of the buoyancy frequency', v.all([v.eq(val(v, f.m2), m2), v.eq(val(v, m.n2_pos), n2)]))
        m2, n2 = val(v, f.m2), val(v, m.n2_pos)
        nu, mu = val(v, f.visc), val(v, f.diff)
        den = 1 + F(ops['alpha']) * n2 / m2
        v.check('viscosity: nu_max/(1 + alpha Ri)^n', v.eq(nu, F(ops['max_viscosity']) / v.pow(den, F(ops['exponent']))))
        v.check('diffusivity: viscosity/(1 + alpha Ri)', v.eq(mu * den, nu))
        if v.symbolic:
            v.check('between zero and the maximum', v.all([v.lt(0, mu), v.le(mu, nu), v.le(nu, F(ops['max_viscosity']))]))
    state('a')
    m.preprocess()
    m.postprocess()
    state('b')


# ------------------------------------------------------------------ sources
def equation(v, which, n='-1', opts=None):
    V = space('DG', 'DG')
    o = types.SimpleNamespace(schmidt_nb_tke=v.real('sigma_k', pos=True), schmidt_nb_psi=v.real('sigma_psi', pos=True))
    return V, o


LABELS = ('viscosity_v', 'diffusivity_v', 'k', 'epsilon', 'shear_freq2', 'buoy_freq2_neg', 'buoy_freq2_pos')


def src_env(v, V, test, extra=()):
    env = uflsem.Env(v, 3)
    F = {k: Function(V, name=k) for k in LABELS}
    for k in LABELS:
        kw = dict(pos=True) if k in ('viscosity_v', 'diffusivity_v', 'k', 'epsilon') else {}
        env.set(F[k], k, 'dg', **kw)
    env.set(test, 'phi', 'dg')
    v.assume(v.all([v.le(0, v.real('shear_freq2')), v.le(0, v.real('buoy_freq2_pos')), v.le(v.real('buoy_freq2_neg'), 0)]))
    return env, F


def linear(v, f, env, sol, typ=(CELL, 'everywhere')):
    """(value at solution s, explicit part, implicit coefficient)"""
    def at(x):
        env.fields[sol] = uflsem.Field('sol', 'dg', value=lambda c, r: x)
        return strip(uflsem.integrals(f, env))
    return at


@contract('C20', [M + 'TKESourceTerm.__init__', M + 'TKESourceTerm.residual', M + 'TKEEquation.__init__'])
def tke_source(v):
    V = space('DG', 'DG')
    o = types.SimpleNamespace(schmidt_nb_tke=Constant(1.5), schmidt_nb_psi=Constant(2.5))
    H = Function(space('CG', 'CG'))
    eq = tb.TKEEquation(V, types.SimpleNamespace(options=o), bathymetry=H, v_elem_size=H, h_elem_size=H)
    terms = {type(t).__name__: t for t in eq.terms.values()}
    v.check('source and vertical diffusion, both implicit', set(terms) == {'TKESourceTerm', 'GLSVerticalDiffusionTerm'} and all(x == 'implicit' for x in eq.labels.values()))
    v.check('diffusion with the Schmidt number of k', terms['GLSVerticalDiffusionTerm'].schmidt_nb is o.schmidt_nb_tke)
    t = terms['TKESourceTerm']
    env, F = src_env(v, V, t.test)
    sol, old = Function(V, name='sol'), Function(V, name='old')
    env.set(old, 'k', 'dg', pos=True)
    junk = {k: Function(V, name='junk_' + k) for k in LABELS}
    fields = F if v.flag('lagged') else F
    f = t.residual(sol, old, junk, fields, {})
    at = linear(v, f, env, sol)
    r = {k: v.real(k, pos=True) if k in ('viscosity_v', 'diffusivity_v', 'k', 'epsilon') else v.real(k) for k in LABELS}
    phi = v.real('phi')
    a0, a1, ak = at(0), at(1), at(r['k'])
    v.check('cell integrals only', all(set(x) <= {CELL} for x in (a0, a1, ak)))
    e0, e1, ek = [x.get(CELL, 0) for x in (a0, a1, ak)]
    PB = r['viscosity_v'] * r['shear_freq2'] - r['diffusivity_v'] * (r['buoy_freq2_pos'] + r['buoy_freq2_neg'])
    v.check('balance: production + buoyancy production - dissipation', v.eq(ek, (PB - r['epsilon']) * phi))
    x = v.real('x')
    v.check('linear in the new value', v.eq(at(x).get(CELL, 0), e0 + x * (e1 - e0)))
    v.check('explicit part is production: non-negative', v.le(0, e0 * phi))
    v.check('destruction is implicit with non-negative coefficient', v.le((e1 - e0) * phi, 0))


@contract('C20', [M + 'PsiSourceTerm.__init__', M + 'PsiSourceTerm.residual', M + 'PsiEquation.__init__'])
def psi_source(v):
    V = space('DG', 'DG')
    cg = space('CG', 'CG')
    c3sign = v.choice('c3_minus', ('positive', 'negative'))
    c3m = 0.5 if c3sign == 'positive' else -0.75
    c3p = v.choice('c3_plus', (1.0, 0.0, -1.0))
    cl = v.choice('closure', ('k-epsilon', 'k-omega', 'length'))
    p, m, n = CL[cl]
    S = {k: Constant(1.0) for k in ('schmidt_nb_psi', 'c1', 'c2', 'f_wall', 'cmu0')}
    o = types.SimpleNamespace(schmidt_nb_tke=Constant(1.5), c3_minus=c3m, c3_plus=c3p, p=p, m=m, n=n, **S)
    H, hv, z0 = Function(cg), Function(cg, name='hv'), Function(cg, name='z0')
    eq = tb.PsiEquation(V, types.SimpleNamespace(options=o), bathymetry=H, v_elem_size=hv, h_elem_size=H)
    terms = {type(t).__name__: t for t in eq.terms.values()}
    v.check('source and vertical diffusion, both implicit', set(terms) == {'PsiSourceTerm', 'GLSVerticalDiffusionTerm'} and all(x == 'implicit' for x in eq.labels.values()))
    v.check('diffusion with the Schmidt number of psi', terms['GLSVerticalDiffusionTerm'].schmidt_nb is o.schmidt_nb_psi)
    t = terms['PsiSourceTerm']
    env, F = src_env(v, V, t.test)
    s = {k: v.real('o_' + k, pos=True) for k in S}
    for k in S:
        env.set(S[k], 'o_' + k, 'const', pos=True)
    env.set(hv, 'hv', 'cg', pos=True)
    env.set(z0, 'z0', 'cg', pos=True)
    kap = float(tb.physical_constants['von_karman'])
    kap = core._frac(kap) if v.symbolic else kap
    sol, old = Function(V, name='sol'), Function(V, name='old')
    env.set(old, 'psi_old', 'dg', pos=True)
    junk = {k: Function(V, name='junk_' + k) for k in LABELS}
    rough = v.flag('bottom roughness')
    fields = dict(F, **({'bottom_roughness': z0} if rough else {}))
    if c3p < 0:
        v.check('negative c3_plus is rejected', raises(AssertionError, lambda: t.residual(sol, old, junk, fields, {})))
        return
    f = t.residual(sol, old, junk, fields, {})
    at = linear(v, f, env, sol)
    r = {k: v.real(k, pos=True) if k in ('viscosity_v', 'diffusivity_v', 'k', 'epsilon') else v.real(k) for k in LABELS}
    phi, po = v.real('phi'), v.real('psi_old', pos=True)
    a0, a1, ak = at(0), at(1), at(po)
    e0, e1, ek = [x.get(CELL, 0) for x in (a0, a1, ak)]
    cm, cp = (core._frac(c3m), core._frac(c3p)) if v.symbolic else (c3m, c3p)
    bal = s['c1'] * r['viscosity_v'] * r['shear_freq2'] - r['diffusivity_v'] * (cm * r['buoy_freq2_pos'] + cp * r['buoy_freq2_neg']) - s['c2'] * s['f_wall'] * r['epsilon']
    v.check('balance: psi/k (c1 P + c3 B - c2 f_wall eps)', v.eq(ek * r['k'], po * bal * phi))
    x = v.real('x')
    v.check('linear in the new value', v.eq(at(x).get(CELL, 0), e0 + x * (e1 - e0)))
    v.check('explicit part is production: non-negative', v.le(0, e0 * phi))
    v.check('destruction is implicit with non-negative coefficient', v.le((e1 - e0) * phi, 0))
    # wall law psi = cmu0^p k^m (kappa z)^n: flux nu/sigma dpsi/dz through the boundary
    nz = env.normal(2, None)
    h2 = v.real('hv', pos=True) / 2
    D = r['viscosity_v'] / s['schmidt_nb_psi'] * pw(v, s['cmu0'], int(p)) * pw(v, r['k'], core._frac(m) if v.symbolic else m)
    N = int(n)

    def dwall(z):
        return D * N * v.pow(kap, N) * (v.pow(z, N - 1) if N != 1 else 1)
    zb = h2 + (v.real('z0', pos=True) if rough else 0)
    zs = h2 + (core._frac(0.05) if v.symbolic else 0.05)
    v.check('bed: wall-law flux at half a cell above the bed', v.eq(a0.get(BOT, 0), dwall(zb) * phi * nz))
    v.check('surface: wall-law flux at half a cell below the surface', v.eq(a0.get(TOP, 0), -dwall(zs) * phi * nz))
    v.check('boundary fluxes independent of the new value', v.all([v.eq(a1.get(k, 0), a0.get(k, 0)) for k in (TOP, BOT)]))
    v.check('no other terms', set(a0) <= {CELL, TOP, BOT})
    if v.flag('no cell size'):
        t.v_elem_size, keep = None, t.v_elem_size
        v.check('cell size is required', raises(Exception, lambda: t.residual(sol, old, junk, fields, {})))
        t.v_elem_size = keep


@contract('C20', [M + 'GLSVerticalDiffusionTerm.__init__', M + 'GLSVerticalDiffusionTerm.residual'])
def gls_diffusion(v):
    """the diffusion term is that of a tracer with diffusivity nu/sigma of the lagged state (whose dissipativity is C09/C10)"""
    import thetis.tracer_eq as te
    V = space('DG', 'DG')
    cg = space('CG', 'CG')
    H, sig = Function(cg), Constant(2.0)
    seen = []
    v.patch(te.VerticalDiffusionTerm, 'residual', lambda self, *a: seen.append((self, a)) or 'res')
    t = tb.GLSVerticalDiffusionTerm(V, sig, H, H, H)
    sol, old = Function(V), Function(V)
    nu, nu2 = Function(V, name='nu'), Function(V)
    bc = {}
    r = t.residual(sol, old, {'viscosity_v': nu2, 'diffusivity_v': nu2}, {'viscosity_v': nu, 'diffusivity_v': nu2}, bc)
    v.check('residual of the vertical diffusion term', r == 'res' and len(seen) == 1 and seen[0][0] is t)
    a = seen[0][1]
    v.check('same unknown and boundary conditions', a[0] is sol and a[1] is old and a[4] is bc)
    env = uflsem.Env(v, 3)
    env.set(nu, 'nu', 'dg')
    env.set(sig, 'sig', 'const', pos=True)
    for d in a[2:4]:
        v.check('diffusivity: lagged viscosity over the Schmidt number', v.eq(uflsem.evaluate(d['diffusivity_v'], env) * v.real('sig', pos=True), v.real('nu')))


@contract('C20', [M + 'VerticalGradSolver.__init__', M + 'VerticalGradSolver.solve'])
def vertical_gradient(v):
    got = capture_tb(v)
    V = space('DG', 'DG')
    out, src = Function(V), Function(V, name='p')
    s = tb.VerticalGradSolver(src, out)
    v.check('one problem for the output', len(got) == 1 and got[0].u is out)
    s.solve()
    v.check('solved when asked', s.weak_grad_solver.n == 1)
    env = uflsem.Env(v, 3)
    env.set(src, 'p', 'dg')
    a, l = forms(v, got[0], env, uflsem.Field('phi', 'dg'), uflsem.Field('g', 'dg'))
    a, l = strip(a), strip(l)
    nz = env.normal(2, None)
    R = v.real
    v.check('mass', v.eq(a.get(CELL, 0), R('phi') * R('g')) and set(a) == {CELL})
    v.check('integration by parts with single-valued facet values', v.all([
        v.eq(l.get(CELL, 0), -R('p') * R('phi_dz')), v.eq(l.get(HOR, 0), (R('pP') + R('pM')) / 2 * nz * (R('phiP') - R('phiM'))),
        v.eq(l.get(TOP, 0), R('p') * R('phi') * nz), v.eq(l.get(BOT, 0), R('p') * R('phi') * nz), set(l) <= {CELL, HOR, TOP, BOT}]))


def capture_tb(v):
    from .c27 import Problem, Solver
    got = []

    def prob(*a, **k):
        got.append(Problem(*a, **k))
        return got[-1]
    v.patch(tb, 'LinearVariationalProblem', prob)
    v.patch(tb, 'LinearVariationalSolver', Solver)
    return got


@contract('C20', 'thetis.options:GLSModelOptions.apply_defaults', kind='concrete')
def closure_defaults(v):
    tab = {'k-epsilon': (3, 1.5, -1, 1.0, 1.3, 1.44, 1.92), 'k-omega': (-1, 0.5, -1, 2.0, 2.0, 0.555, 0.833), 'Generic Length Scale': (2, 1, -0.67, 0.8, 1.07, 1.0, 1.22)}
    for name, t in tab.items():
        o = topt.GLSModelOptions()
        o.apply_defaults(name)
        v.check('published closure parameters', (o.p, o.m, o.n, o.schmidt_nb_tke, o.schmidt_nb_psi, o.c1, o.c2) == t and o.closure_name == name, name)
        v.check('destruction constant above production constant', o.c2 > o.c1 and o.c3_plus >= 0)
    v.check('unknown closure is an error', raises(ValueError, lambda: topt.GLSModelOptions().apply_defaults('x')))
