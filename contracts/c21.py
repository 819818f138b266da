"""C21 stability functions of the turbulence closures."""
import types
from fractions import Fraction as Fr
import numpy
import thetis.stability_functions as sf
from pyvc import core
from pyvc.contract import contract
from pyvc.genarr import GArr, GNumpy
from .common import raises

ASSUMPTIONS = [
    'numpy arithmetic, maximum and minimum act element by element (contract of the generic array); real arithmetic',
    'scipy.optimize.minimize reports success only at a zero of the (squared residual) cost, to its tolerance',
    'the published closure constants (Canuto et al. 2001, Cheng et al. 2002, Kantha & Clayson via Umlauf & Burchard 2005) are restated in the contract',
]
M = 'thetis.stability_functions:'
B = M + 'StabilityFunctionBase.'
K = 'd0 d1 d2 d3 d4 d5 n0 n1 n2 nb0 nb1 nb2'.split()
CLASSES = ('StabilityFunctionCanutoA', 'StabilityFunctionCanutoB', 'StabilityFunctionCheng', 'GOTMStabilityFunctionCanutoA', 'GOTMStabilityFunctionCanutoB',
           'GOTMStabilityFunctionKanthaClayson', 'GOTMStabilityFunctionCheng')


def F(v, x):
    return core._frac(x) if v.symbolic else float(x)


class Plain(sf.StabilityFunctionBase):
    """any closure: the coefficients are arbitrary"""
    name = 'any'


def generic(v, gotm=None, **kw):
    if v.symbolic:
        core.eng().python_division = False
        v.patch(sf, 'numpy', GNumpy())
    s = Plain(**kw)
    if v.symbolic:
        c = {k: v.real(k) for k in K}
    else:       # near a published closure
        p = getattr(sf, v.rng.choice([x for x in CLASSES]))()
        c = {k: float(getattr(p, k)) * v.rng.uniform(0.98, 1.02) for k in K}
        if v.rng.random() < 0.2:
            c['d5'] = c['n2'] = 0.0
    for k in K:
        setattr(s, k, c[k])
    return s, types.SimpleNamespace(**c)


def spec(c, ab, a):
    """(n_m, n_h, den)"""
    return (c.n0 + c.n1 * ab + c.n2 * a, c.nb0 + c.nb1 * ab + c.nb2 * a, c.d0 + c.d1 * ab + c.d2 * a + c.d3 * ab * a + c.d4 * ab * ab + c.d5 * a * a)


@contract('C21', [B + 'eval_funcs'], tol=1e-9)
def eval_funcs(v):
    s, c = generic(v)
    ab, a = v.real('ab', lo=-1, hi=5) if not v.symbolic else v.real('ab'), v.real('as', lo=0, hi=5) if not v.symbolic else v.real('as')
    sm, sh = s.eval_funcs(ab, a)
    n, nb, d = spec(c, ab, a)
    v.assume(v.not_(v.eq(d, 0)) if v.symbolic else abs(d) > 1e-3)
    v.check('s_m', v.eq(sm * d, n))
    v.check('s_h', v.eq(sh * d, nb))


@contract('C21', [B + 'compute_alpha_shear_steady'], tol=1e-7)
def steady_shear(v):
    s, c = generic(v)
    ri = v.real('ri') if v.symbolic else v.rng.uniform(0.05, 0.35)
    a = -c.d5 + c.n2 - (c.d3 - c.n1 + c.nb2) * ri - (c.d4 + c.nb1) * ri * ri
    b = -c.d2 + c.n0 - (c.d1 + c.nb0) * ri
    disc = b * b + 4 * a * c.d0
    ok = v.all([v.lt(0, disc), v.lt(0, c.d0), v.any([v.lt(0, a), v.lt(0, b)])])       # see `published`
    if v.symbolic:
        if v.flag('quadratic term vanishes'):
            v.assume(v.eq(a, 0))
        v.assume(ok)
    elif not ok:
        return
    x = s.compute_alpha_shear_steady(ri)
    n, nb, d = spec(c, ri * x, x)
    v.check('production balances dissipation: s_m a - s_h ri a = 1', v.eq(n * x - nb * ri * x, d))
    v.check('positive', v.lt(0, x))
    v.check('the smaller positive root', v.implies(v.lt(a, 0), v.le(-2 * a * x, b)))


@contract('C21', [B + 'compute_alpha_shear_steady', B + 'compute_cmu0'], name='numerical_roots', tol=1e-5)
def numerical_roots(v):
    s, c = generic(v)
    what = v.choice('what', ('steady', 'cmu0'))
    ok = v.flag('success')
    root = v.real('root', lo=0.5, hi=2)
    ri = v.real('ri', lo=0, hi=1) if what == 'steady' else 0
    y = v.real('y', lo=0.5, hi=2)
    sm, sh = v.real('sm', lo=0.05, hi=1), v.real('sh', lo=0.05, hi=1)
    calls = []

    def ev(ab, a):
        calls.append((ab, a))
        return sm, sh
    v.patch(s, 'eval_funcs', ev)

    def minimize(cost, x0, *r, **k):
        z = cost(y)
        ab, a = calls[-1]
        v.check('the closure is evaluated at the trial state', v.all([v.eq(a, y), v.eq(ab, ri * y)]))
        res = sm * y - (sh * ri * y if what == 'steady' else 0) - 1
        v.check('the cost is the squared residual of the balance', v.eq(z, res * res))
        return types.SimpleNamespace(success=ok, x=[root])
    v.patch(sf, 'minimize', minimize)
    f = (lambda: s.compute_alpha_shear_steady(ri, analytical=False)) if what == 'steady' else (lambda: s.compute_cmu0(analytical=False))
    if not ok:
        v.check('failure is an error', raises(AssertionError, f))
        return
    x = f()
    if what == 'steady':
        v.check('the root is returned', v.eq(x, root))
    else:
        ab, a = calls[-1]
        v.check('evaluated at the root, neutral', v.all([v.eq(a, root), v.eq(ab, 0)]))
        v.check('fourth root of s_m', v.all([v.eq(x * x * x * x, sm), v.lt(0, x)]))


@contract('C21', [B + 'compute_cmu0'], tol=1e-7)
def cmu0(v):
    s, c = generic(v)
    if v.flag('d5 = n2'):
        s.n2 = c.n2 = c.d5
        d5zero = True
    else:
        d5zero = False
    aa, bb = c.d5 - c.n2, c.d2 - c.n0
    disc = bb * bb - 4 * aa * c.d0
    if v.symbolic:      # as in every supported closure (see `published`)
        v.assume(v.all([v.lt(0, disc), v.lt(0, c.d0), v.lt(bb, 0)]))
        if not d5zero:
            v.assume(v.not_(v.eq(aa, 0)))
    elif disc <= 0 or bb >= 0:
        return
    calls = []
    real = s.eval_funcs

    def ev(ab, a):
        sm = v.real('sm', lo=0.01, pos=True) if v.symbolic else real(ab, a)[0]
        calls.append((ab, a, sm))
        return sm, sm
    v.patch(s, 'eval_funcs', ev)
    x = s.compute_cmu0()
    v.check('one evaluation, neutral stratification', v.all([len(calls) == 1, v.eq(calls[-1][0], 0)]))
    ab, a, sm = calls[-1]
    n, nb, d = spec(c, 0, a)
    v.check('the state balances production and dissipation: s_m(0,a) a = 1', v.eq(n * a, d))
    v.check('positive shear number', v.lt(0, a))
    v.check('cmu0**4 = s_m', v.all([v.eq(x * x * x * x, sm), v.le(0, x)]))


@contract('C21', [B + 'compute_kappa', B + 'compute_sigma_psi'], tol=1e-9)
def kappa_sigma(v):
    s, c = generic(v)
    n = v.sign(v.real('n')) if v.symbolic else v.rng.choice((-1, 3.0, -0.67, 1.5))
    c1, c2, cm = v.real('c1'), v.real('c2'), v.real('cmu0', pos=True)
    v.assume(v.lt(c1, c2) if v.symbolic else c2 > c1 + 0.01)
    v.assume(v.not_(v.eq(n, 0)) if v.symbolic else True)
    if v.flag('kappa given'):
        kap = v.real('kappa', pos=True)
        v.check('kappa from the sigma_psi of kappa', v.eq(s.compute_kappa(s.compute_sigma_psi(kap, cm, n, c1, c2), cm, n, c1, c2), kap))
    else:
        sp = v.real('sigma', pos=True)
        k = s.compute_kappa(sp, cm, n, c1, c2)
        v.check('kappa is positive', v.lt(0, k))
        v.check('log law: sigma_psi cmu0^2 (c2-c1) = (n kappa)^2', v.eq(sp * cm * cm * (c2 - c1), n * n * k * k))
        v.check('sigma_psi from the kappa of sigma_psi', v.eq(s.compute_sigma_psi(k, cm, n, c1, c2), sp))


@contract('C21', [B + 'compute_c3_minus'], tol=1e-4)
def c3_minus(v):
    s, c = generic(v)
    ri, st = v.real('ri', pos=True), v.real('st', pos=True)
    sm, sh = v.real('sm', pos=True), v.real('sh', pos=True)
    c1, c2 = v.real('c1'), v.real('c2')
    v.assume(v.not_(v.eq(c1, c2)) if v.symbolic else abs(c2 - c1) > 0.05)
    calls = []

    def ev(ab, a):
        calls.append((ab, a))
        return sm, sh

    def steady(r, *a, **k):
        calls.append(r)
        return st
    v.patch(s, 'eval_funcs', ev)
    v.patch(s, 'compute_alpha_shear_steady', steady)
    c3 = s.compute_c3_minus(c1, c2, ri)
    v.check('steady state of the given Richardson number', v.eq(calls[0], ri))
    v.check('closure evaluated at the steady state', v.all([v.eq(calls[1][0], ri * st), v.eq(calls[1][1], st)]))
    v.check('the steady Richardson number of c3 is the given one', v.eq(sm * (c2 - c1), ri * sh * (c2 - c3)))


@contract('C21', [B + 'compute_length_clim'], tol=1e-9)
def length_clim(v):
    s, c = generic(v)
    ri, st, cm = v.real('ri', pos=True), v.real('st', pos=True), v.real('cmu0', pos=True)
    calls = []

    def steady(r, *a, **k):
        calls.append(r)
        return st
    v.patch(s, 'compute_alpha_shear_steady', steady)
    x = s.compute_length_clim(cm, ri)
    v.check('steady state of the given Richardson number', len(calls) == 1 and v.eq(calls[0], ri))
    v.check('length limit: c^2 = cmu0^6 a_buoy/2', v.all([v.le(0, x), v.eq(2 * x * x, cm**6 * ri * st)]))


@contract('C21', [B + 'get_alpha_buoy_min', B + 'get_alpha_shear_max'], tol=1e-8)
def limits(v):
    s, c = generic(v)
    b, a = c.d1 + c.nb0, c.d4 + c.nb1
    disc = b * b - 4 * c.d0 * a
    if v.symbolic:
        v.assume(v.all([v.lt(0, disc), v.lt(0, a), v.lt(0, b), v.lt(0, c.d0)]))
    elif disc <= 0 or a <= 0 or b <= 0:
        return
    x = s.get_alpha_buoy_min()
    v.check('the buoyancy limit is where the steady shear number vanishes', v.eq(a * x * x + b * x + c.d0, 0))
    v.check('nearest root, negative', v.all([v.lt(x, 0), v.le(-b, 2 * a * x)]))
    ab, al = v.real('ab'), v.real('as')
    g, h = c.n0 + c.n1 * ab, c.d2 + c.d3 * ab
    v.assume(v.all([v.not_(v.eq(g, 0)), v.not_(v.eq(h, 0))]) if v.symbolic else abs(g) > 1e-2 and abs(h) > 1e-2)
    m = s.get_alpha_shear_max(ab, al)
    v.check('shear limit: momentum flux monotone in shear (d2 + d3 a_b) a_s = d0 + d1 a_b + d4 a_b^2', v.eq(m * h, c.d0 + c.d1 * ab + c.d4 * ab * ab))


@contract('C21', [M + 'compute_normalized_frequencies', B + 'evaluate', B + 'get_alpha_buoy_smooth_min', B + '__init__'], tol=1e-9)
def evaluate(v):
    """evaluate() hands a state inside the admissible region to eval_funcs, unchanged where it was already admissible"""
    lb, ls, sm = v.choice('limit buoyancy', (None, True, False)), v.choice('limit shear', (None, True, False)), v.choice('smooth', (None, True, False))
    kw = {k: x for k, x in (('lim_alpha_buoy', lb), ('lim_alpha_shear', ls), ('smooth_alpha_buoy_lim', sm)) if x is not None}
    lb, ls, sm = lb is not False, ls is not False, sm is not False
    crit = -1.2
    if v.flag('crit given'):
        crit = v.real('crit', lo=-1.5, hi=-0.5)
        s, c = generic(v)
        for k, x in kw.items():
            setattr(s, k, x)
        s.alpha_buoy_crit = crit
    else:
        s, c = generic(v, **kw)
    cr = F(v, crit) if not core.is_sym(crit) else crit
    m2, n2, k, e = v.real('m2', lo=0, hi=1e-3) if not v.symbolic else v.real('m2', lo=0), v.real('n2'), v.real('k', pos=True), v.real('eps', pos=True)
    if not v.symbolic:
        m2, n2, k, e = v.rng.uniform(0, 60), v.rng.uniform(-5, 5), 1.0, 1.0
    lo = v.real('ab_min', hi=-1.6, lo=-10)
    v.patch(s, 'get_alpha_buoy_min', lambda: lo)
    hi = v.real('as_max', pos=True)
    seen = []

    def mx(ab, a):
        seen.append((ab, a))
        return GArr(hi) if v.symbolic else numpy.array([hi])
    v.patch(s, 'get_alpha_shear_max', mx)
    got = []

    def ev(ab, a):
        got.append((ab, a))
        return 'sm', 'sh'
    v.patch(s, 'eval_funcs', ev)
    if v.symbolic:
        args = [GArr(x) for x in (m2, n2, k, e)]
        r = s.evaluate(*args)
        X = lambda a: a.x
    else:
        args = [numpy.array([x]) for x in (m2, n2, k, e)]
        r = s.evaluate(*args)
        X = lambda a: float(a[0])
    v.check('result of the closure', r == ('sm', 'sh') and len(got) == 1)
    v.check('inputs not modified', v.all([v.eq(X(a), x) for a, x in zip(args, (m2, n2, k, e))]))
    ab, a = [X(x) for x in got[0]]
    ab0, a0 = k * k / (e * e) * n2, k * k / (e * e) * m2
    if not lb:
        v.check('buoyancy number not limited', v.eq(ab, ab0))
    elif not sm:
        v.check('buoyancy number limited from below', v.eq(ab, v.ite(ab0 < lo, lo, ab0)))
    else:
        v.check('buoyancy number above the critical one unchanged', v.implies(v.le(cr, ab0), v.eq(ab, ab0)))
        v.check('buoyancy number below the critical one: between minimum and critical', v.implies(v.lt(ab0, cr), v.all([v.lt(lo, ab), v.le(ab, cr)])))
        v.check('buoyancy number: smooth limit', v.implies(v.lt(ab0, cr), v.eq(ab * (ab0 + lo - 2 * cr), ab0 * lo - cr * cr)))
    if ls:
        v.check('shear number limited from above', v.eq(a, v.ite(a0 > hi, hi, a0)))
        v.check('shear limit taken at the limited buoyancy number', len(seen) == 1 and v.eq(X(seen[0][0]), ab))
    else:
        v.check('shear number not limited', v.eq(a, a0))


# ------------------------------------------------------------------ coefficients
L = dict(StabilityFunctionCanutoA=(0.107, 0.0032, 0.0864, 0.12, 11.9, 0.4, 0, 0.48), StabilityFunctionCanutoB=(0.127, 0.00336, 0.0906, 0.101, 11.2, 0.4, 0, 0.318),
         StabilityFunctionCheng=(0.107, 0.0032, 0.0864, 0.1, 11.04, 0.786, 0.643, 0.547))
CC = 'cc1 cc2 cc3 cc4 cc5 cc6 cb1 cb2 cb3 cb4 cb5 cbb'.split()
C = dict(GOTMStabilityFunctionCanutoA=(5.0, 0.8, 1.968, 1.136, 0.0, 0.4, 5.95, 0.6, 1.0, 0.0, 0.3333, 0.72),
         GOTMStabilityFunctionCanutoB=(5.0, 0.6983, 1.9664, 1.094, 0.0, 0.495, 5.6, 0.6, 1.0, 0.0, 0.3333, 0.477),
         GOTMStabilityFunctionKanthaClayson=(6.0, 0.32, 0.0, 0.0, 0.0, 0.0, 3.728, 0.7, 0.7, 0.0, 0.2, 0.6102),
         GOTMStabilityFunctionCheng=(5.0, 0.7983, 1.968, 1.136, 0.0, 0.5, 5.52, 0.2134, 0.357, 0.0, 0.3333, 0.82))


def algebraic(v, p):
    """coefficients over d0 of Canuto et al. (2001), from l1..l8"""
    l1, l2, l3, l4, l5, l6, l7, l8 = p
    q = (lambda a, b: Fr(a, b)) if v.symbolic else (lambda a, b: a / b)
    s = [q(3, 2) * l1 * l5**2,
         -l4 * (l6 + l7) + 2 * l4 * l5 * (l1 - q(1, 3) * l2 - l3) + q(3, 2) * l1 * l5 * l8,
         -q(3, 8) * l1 * (l6**2 - l7**2), None,
         2 * l5, 2 * l4,
         q(2, 3) * l5 * (3 * l3**2 - l2**2) - q(1, 2) * l5 * l1 * (3 * l3 - l2) + q(3, 4) * l1 * (l6 - l7)]
    d = [3 * l5**2, l5 * (7 * l4 + 3 * l8), l5**2 * (3 * l3**2 - l2**2) - q(3, 4) * (l6**2 - l7**2),
         l4 * (4 * l4 + 3 * l8),
         l4 * (l2 * l6 - 3 * l3 * l7 - l5 * (l2**2 - l3**2)) + l5 * l8 * (3 * l3**2 - l2**2),
         q(1, 4) * (l2**2 - 3 * l3**2) * (l6**2 - l7**2)]
    r = dict(d0=d[0], d1=4 * d[1], d2=4 * d[2], d3=16 * d[4], d4=16 * d[3], d5=16 * d[5], n0=2 * s[0], n1=8 * s[1], n2=8 * s[2], nb0=2 * s[4], nb1=8 * s[5], nb2=8 * s[6])
    return r


def make(v, base, vals):
    cls = type('Any', (base,), dict(vals, name='any'))
    return cls()


@contract('C21', [M + 'CanutoStabilityFunctionBase.__init__', M + 'ChengStabilityFunctionBase.__init__', M + 'GOTMStabilityFunctionBase.__init__'], tol=1e-9)
def coefficients(v):
    """All formulations compute the coefficients (relative to d0) of the same algebraic closure, for all values of its constants."""
    which = v.choice('formulation', ('Canuto', 'Cheng', 'GOTM'))
    if v.symbolic:
        core.eng().python_division = False
    if which == 'GOTM':
        a1, a2, a3, a5 = [v.real(n, lo=0.01, hi=1) for n in ('a1', 'a2', 'a3', 'a5')]
        b1, b2, b5, N, Bq, q = [v.real(n, lo=0.1, hi=6) for n in ('b1', 'b2', 'b5', 'nn', 'nb', 'cb5')]
        v.assume(v.not_(v.eq(q, 1)) if v.symbolic else abs(q - 1) > 0.05)
        vals = dict(cc1=2 * N, cc2=2 * (F(v, 2.0 / 3.0) - a1), cc3=2 - 2 * a2, cc4=2 - 2 * a3, cc5=v.real('cc5'), cc6=1 - 2 * a5, cb1=Bq, cb2=1 - b1, cb3=1 - b2, cb4=0.0, cb5=q,
                    cbb=b5 / 2 / (1 - q))
        p = (a1 / N, a2 / 2 / N, a3 / 2 / N, a5 / N, 2 * Bq, b1, b2, b5 / 2)
        s = make(v, sf.GOTMStabilityFunctionBase, vals)
    else:
        p = [v.real('l%d' % i, lo=0.01, hi=5) for i in range(1, 9)]
        s = make(v, getattr(sf, which + 'StabilityFunctionBase'), {'l%d' % (i + 1): x for i, x in enumerate(p)})
    r = algebraic(v, p)
    for k in K[1:]:
        v.check('%s coefficient %s' % (which, k), v.eq(getattr(s, k) * r['d0'], r[k] * s.d0))
    v.check('d0 is positive', v.lt(0, s.d0))


@contract('C21', [M + 'CanutoStabilityFunctionBase.eval_funcs_new', M + 'ChengStabilityFunctionBase.eval_funcs_new'], tol=1e-9)
def eval_funcs_new(v):
    if v.symbolic:
        core.eng().python_division = False
    base = getattr(sf, v.choice('formulation', ('Canuto', 'Cheng')) + 'StabilityFunctionBase')
    s = make(v, base, {'l%d' % i: x for i, x in zip(range(1, 9), (0.11, 0.0032, 0.09, 0.12, 11.5, 0.6, 0.3, 0.4))})
    for k in 's0 s1 s2 s4 s5 s6 dd0 dd1 dd2 dd3 dd4 dd5'.split():
        if v.symbolic:
            setattr(s, k, v.real(k))
    c = types.SimpleNamespace(d0=s.dd0, d1=4 * s.dd1, d2=4 * s.dd2, d3=16 * s.dd4, d4=16 * s.dd3, d5=16 * s.dd5, n0=2 * s.s0, n1=8 * s.s1, n2=8 * s.s2,
                              nb0=2 * s.s4, nb1=8 * s.s5, nb2=8 * s.s6)
    ab, a = v.real('ab'), v.real('as')
    sm, sh = s.eval_funcs_new(ab, a)
    n, nb, d = spec(c, ab, a)
    v.assume(v.not_(v.eq(d, 0)) if v.symbolic else abs(d) > 1e-2)
    v.check('the same function s_m', v.eq(sm * d, n))
    v.check('the same function s_h', v.eq(sh * d, nb))


def frozen(v, s):
    """coefficients of a real closure as exact rationals"""
    if v.symbolic:
        core.eng().python_division = False
        v.patch(sf, 'numpy', GNumpy())
    for k in K:
        setattr(s, k, F(v, float(getattr(s, k))))
    return s


for _c in CLASSES:
    def _f(v, cname=_c):
        cls = getattr(sf, cname)
        for names, tab in ((['l%d' % i for i in range(1, 9)], L), (CC, C)):
            if cname in tab:
                v.check('published constants', tuple(float(getattr(cls, k)) for k in names) == tuple(float(x) for x in tab[cname]), cname)
        s0 = cls()
        v.check('limits on by default', s0.lim_alpha_shear is True and s0.lim_alpha_buoy is True and s0.smooth_alpha_buoy_lim is True and s0.alpha_buoy_crit == -1.2)
        lo = s0.get_alpha_buoy_min()
        v.check('buoyancy limit below the smoothing threshold', lo < 2 * -1.2 + 1e-9 or lo < -1.2)
        cm = s0.compute_cmu0()
        v.check('cmu0 is a positive number', bool(numpy.isfinite(cm)) and 0.4 < cm < 0.7, '%r' % cm)
        s = frozen(v, s0)
        # lemma: positive on the admissible region
        if v.symbolic:
            ab, a = v.real('ab'), v.real('as')
        else:
            ab = max(v.rng.choice((lo, v.rng.uniform(lo, 3), v.rng.uniform(0, 1e4))), lo)
            a = v.rng.uniform(0, 1)
        v.assume(v.le(F(v, float(lo)), ab) if v.symbolic else True)
        h, top = s.d2 + s.d3 * ab, s.d0 + s.d1 * ab + s.d4 * ab * ab
        v.check('shear limit is positive and finite', v.all([v.lt(0, h), v.lt(0, top), v.lt(0, s.n0 + s.n1 * ab)]))
        if v.symbolic:
            v.assume(v.all([v.le(0, a), v.le(a * h, top)]))
        else:
            a = a * top / h
        n, nb, d = spec(s, ab, a)
        v.check('denominator is positive', v.lt(0, d))
        v.check('s_m is positive', v.lt(0, n))
        v.check('s_h is positive', v.lt(0, nb))
        # assumptions of the generic contracts
        v.check('neutral balance has a positive root', v.all([v.lt(0, s.d0), v.lt(s.d2 - s.n0, 0), v.lt(0, (s.d2 - s.n0)**2 - 4 * (s.d5 - s.n2) * s.d0)]))
        b, aa = s.d1 + s.nb0, s.d4 + s.nb1
        v.check('buoyancy limit exists', v.all([v.lt(0, aa), v.lt(0, b), v.lt(0, b * b - 4 * s.d0 * aa)]))
        ri = v.real('ri') if v.symbolic else v.rng.uniform(0.0, 0.2)
        v.assume(v.all([v.le(0, ri), v.le(ri, F(v, 0.2))]))
        aq = -s.d5 + s.n2 - (s.d3 - s.n1 + s.nb2) * ri - (s.d4 + s.nb1) * ri * ri
        bq = -s.d2 + s.n0 - (s.d1 + s.nb0) * ri
        v.check('a positive steady shear number exists', v.all([v.lt(0, bq * bq + 4 * aq * s.d0), v.any([v.lt(0, aq), v.lt(0, bq)])]))
    _f.__doc__ = 'the published closure %s satisfies the assumptions of the generic contracts and is positive on the admissible region' % _c
    contract('C21', [M + _c, B + 'eval_funcs', B + 'get_alpha_shear_max', B + 'get_alpha_buoy_min'], name='published_' + _c, budget=90)(_f)


@contract('C21', [B + 'compute_cmu0', B + 'compute_alpha_shear_steady', B + 'compute_c3_minus', B + 'evaluate'], kind='concrete',
          bounded='the 7 published closures; Richardson numbers 0-0.15; 2000 states with stability numbers up to 1e10')
def real_closures(v):
    rng = numpy.random.RandomState(1)
    for cname in CLASSES:
        s = getattr(sf, cname)()
        a, b = s.compute_cmu0(), s.compute_cmu0(analytical=False)
        v.check('analytical and numerical cmu0 agree', abs(a - b) < 1e-4, '%s %r %r' % (cname, a, b))
        for ri in (0.0, 0.05, 0.1, 0.15):
            x, y = s.compute_alpha_shear_steady(ri), s.compute_alpha_shear_steady(ri, analytical=False)
            v.check('analytical and numerical steady shear agree', abs(x - y) < 1e-2 * abs(x), '%s %r %r' % (cname, x, y))
        k, e, m2, n2 = 1.0, 1.0, 10**rng.uniform(-10, 10, 2000), rng.choice((-1, 1), 2000) * 10**rng.uniform(-10, 10, 2000)
        for kw in ({}, {'smooth_alpha_buoy_lim': False}):
            sm, sh = getattr(sf, cname)(**kw).evaluate(m2, n2, k, e)
            v.check('finite and positive for any input', bool(numpy.all(numpy.isfinite(sm) & numpy.isfinite(sh) & (sm > 0) & (sh > 0))), cname)
    for p, q, tol in (('CanutoA', 'CanutoA', 5e-3), ('CanutoB', 'CanutoB', 1e-3), ('Cheng', 'Cheng', 2e-3)):
        x, y = getattr(sf, 'StabilityFunction' + p)(), getattr(sf, 'GOTMStabilityFunction' + q)()
        for _ in range(50):
            ab, a = rng.uniform(-1, 5), rng.uniform(0, 8)
            v.check('both formulations of a closure agree', numpy.allclose(x.eval_funcs(ab, a), y.eval_funcs(ab, a), rtol=tol), '%s %r %r' % (p, x.eval_funcs(ab, a), y.eval_funcs(ab, a)))
