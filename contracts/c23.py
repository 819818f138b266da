"""C23 sediment formulas."""
import math
from firedrake import *
import thetis
from thetis import sediment_model as sm, options as topt, utility as tutil, physical_constants
from pyvc import uflsem, core
from pyvc.contract import contract
from .swe import mesh2d
from .common import raises

ASSUMPTIONS = [
    'interpolation and projection into the P1 spaces give the interpolated expression (nodal values; projection read as identity); gradients of a '
    'projected field are the gradients of the projected expression',
    'non-integer powers and logarithms are functions with their sign, monotonicity and domain axioms',
    'real arithmetic; at rest the Rouse number is infinite in IEEE arithmetic and is clipped by min/max (only the quantities that matter at rest are '
    'required to have no division by zero)',
]
S = 'thetis.sediment_model:'
INIT, BED, UPD = S + 'SedimentModel.__init__', S + 'SedimentModel.get_bedload_term', S + 'SedimentModel.update'
RealFunction = Function
_NOW = {}


class Lazy:
    """value of a field that was interpolated or projected: its expression, read with the fields as they were then"""
    def __init__(self, w, f, expr):
        self.w, self.f, self.expr, self.snap, self.memo = w, f, expr, dict(w.env.fields), {}

    def get(self, env, comp, derivs, r):
        if self.f in self.w.over:
            return self.w.over[self.f].get(env, comp, derivs, r)
        k = (comp, derivs, r)
        if k not in self.memo:
            e = uflsem.Env(env.v, 2)
            e.fields, e.nz, e.fork, e.domain, e.sub, e.used = dict(self.snap), env.nz, env.fork, env.domain, env.sub, env.used
            if isinstance(self.expr, (int, float)):
                self.memo[k] = 0 if derivs else self.expr
            else:
                x = self.expr
                for _ in derivs:
                    x = grad(x)
                self.memo[k] = uflsem.Ev(e)(x, comp + derivs, r)
        return self.memo[k]


class RecF(RealFunction):
    """Function whose interpolate/project record the expression instead of computing nodal values"""
    def _rec(self, expr):
        w = _NOW['w']
        w.env.fields[self] = Lazy(w, self, expr)
        return self

    def interpolate(self, expr, *a, **k): return self._rec(expr)
    def project(self, expr, *a, **k): return self._rec(expr)
    def assign(self, expr, *a, **k): return self._rec(expr)

    @property
    def dat(self):
        w = _NOW['w']
        class D:
            data = w.dstar_data
            data_ro = data
        return D


SPACES = {}


def sp(k, fam='CG'):
    if (k, fam) not in SPACES:
        SPACES[k, fam] = VectorFunctionSpace(mesh2d(), fam, 1) if k == 'v' else FunctionSpace(mesh2d(), fam, 1)
    return SPACES[k, fam]


log10 = lambda a, b: (lambda r: 10.0 ** r.uniform(a, b))


class World:
    def __init__(self, v, fork=True, **opts):
        self.v = v
        if v.symbolic:
            core.eng().python_division = False        # denominators are examined in `defined` and `rest`
        _NOW['w'] = self
        self.over, self.ties = {}, []
        self.dstar_data = [1.5]
        e = self.env = uflsem.Env(v, 2)
        e.fork = fork and v.symbolic
        P = sp('s')
        F = lambda n: RealFunction(P, name=n)
        self.d, self.href, self.rhos, self.nu, self.bath = F('d'), F('href'), F('rhos'), F('nu'), F('bath')
        self.elev, self.uv = RealFunction(sp('s', 'DG'), name='elev'), RealFunction(sp('v', 'DG'), name='uv')
        o = self.options = topt.ModelOptions2d()
        so = self.so = o.sediment_model_options
        so.average_sediment_size, so.bed_reference_height, so.sediment_density = self.d, self.href, self.rhos
        self.mnu = opts.pop('morphological_viscosity', False)
        if self.mnu:
            so.morphological_viscosity = self.nu
        else:
            o.horizontal_viscosity = self.nu
        self.beta, self.surbeta, self.alpha = Constant(1.3), Constant(0.6), Constant(0.75)
        so.slope_effect_parameter, so.slope_effect_angle_parameter, so.secondary_current_parameter = self.beta, self.surbeta, self.alpha
        for k, x in opts.items():
            setattr(so, k, x)
        self.depth = tutil.DepthExpression(self.bath, use_nonlinear_equations=True)
        R = lambda nm, g, **k: v.real(nm, gen=g, **k)
        self.val = {}

        def put(f, nm, g, kind='cg', **k):
            x = self.val[nm] = R(nm, g, **k)
            e.fields[f] = uflsem.Field(nm, kind, value=lambda comp, r: x, deriv=lambda comp, derivs, r: v.real(nm + '_d' + ''.join('xy'[i] for i in derivs)))
        put(self.d, 'd', log10(-5, -2), pos=True)
        put(self.href, 'href', log10(-4, -1), pos=True)
        put(self.nu, 'nu', log10(-7, -5), pos=True)
        put(self.rhos, 'rhos', lambda r: r.uniform(1500, 3000), pos=True)
        put(physical_constants['rho0'], 'rho0', lambda r: r.uniform(990, 1040), 'const', pos=True)
        put(physical_constants['g_grav'], 'g', lambda r: r.uniform(9, 10), 'const', pos=True)
        put(physical_constants['von_karman'], 'kappa', lambda r: 0.4, 'const', pos=True)
        put(self.beta, 'beta', lambda r: 1.3, 'const', pos=True)
        put(self.surbeta, 'surbeta', lambda r: 0.7, 'const', pos=True)
        put(self.alpha, 'alpha_secc', lambda r: 0.75, 'const', pos=True)
        self.flow('')
        v.assume(self.val['rhos'] > self.val['rho0'])
        v.patch(sm, 'Function', RecF)
        v.patch(sm, 'float', lambda x: x) if v.symbolic else None

    def flow(self, tag):
        """new values of the time dependent fields"""
        v, e = self.v, self.env
        g = lambda a, b: (lambda r: r.uniform(a, b))
        for f, nm, gen in ((self.bath, 'bath' + tag, g(1, 10)), (self.elev, 'elev' + tag, g(-.5, 1))):
            x = v.real(nm, gen=gen)
            e.fields[f] = uflsem.Field(nm, 'cg', value=lambda c, r, x=x: x, deriv=lambda c, ds, r, nm=nm: v.real(nm + '_d' + ''.join('xy'[i] for i in ds)))
        u = [v.real('u%s%s' % (i, tag), gen=g(-2, 2)) for i in 'xy']
        e.fields[self.uv] = uflsem.Field('uv', 'cg', value=lambda c, r: u[c[0]], deriv=lambda c, ds, r: v.real('u%d%s_d%s' % (c[0], tag, ds)))
        return u

    def model(self):
        self.m = sm.SedimentModel(self.options, mesh2d(), self.uv, self.elev, self.depth)
        return self.m

    def __call__(self, x):
        return uflsem.evaluate(x, self.env)

    def at(self, f, comp=()):
        return self.env.fields[f].get(self.env, comp, (), None)

    def let(self, f, val, grads=None):
        """from here on read the (already checked) field as this value"""
        g = grads or (lambda c, ds: self.v.real('%s_d%s' % (f.name(), ds)))
        self.over[f] = uflsem.Field('let', 'cg', value=lambda c, r: val[c[0]] if c else val, deriv=lambda c, ds, r: g(c, ds))
        return val

    def let_expr(self, x, name, **k):
        """from here on read the (already checked) expression as this value; tie it if some part of the model does not use the expression itself"""
        if not self.v.symbolic:
            return self(x)
        e = uflsem.lower(x)
        if e in self.env.sub or isinstance(e, (int, float)):
            return self(x)
        self.ties.append((e, x))
        self.env.sub[e] = self.v.real(name, **k)
        return self.env.sub[e]

    def tie(self):
        for e, x in self.ties:
            if e not in self.env.used:
                val = self.env.sub.pop(e)
                self.v.assume(self.v.eq(self(x), val))
                self.env.sub[e] = val


def case(v, x, cuts):
    """index of the first cut above x"""
    for n, c in enumerate(cuts):
        if (v.sign(x - c) < 0) if v.symbolic else x < c:
            return n
    return len(cuts)


def num(v, x):
    return core._frac(x) if v.symbolic else float(x)


@contract('C23', [INIT])
def grain(v):
    """grain parameter, critical Shields parameter and stress, settling velocity, reference height"""
    w = World(v, morphological_viscosity=v.flag('own viscosity'), solve_suspended_sediment=v.flag('suspended'))
    m = w.model()
    d, nu, rhos, rho, g = (w.val[k] for k in ('d', 'nu', 'rhos', 'rho0', 'g'))
    R = w(m.R)
    v.check('submerged specific gravity', v.eq(R, rhos / rho - 1))
    D = w.at(m.dstar)
    x = g * R / nu**2
    v.check('grain parameter d* = d (gR/nu^2)^(1/3)', v.eq(D**3, d**3 * x))
    v.check('grain parameter positive', D > 0)
    D = w.let(m.dstar, v.real('dstar', pos=True, gen=log10(0, 3)))
    k = case(v, D, (4, 10, 20, 150))
    th = w.at(m.thetacr)
    c, p = ((.24, -1), (.14, -.64), (.04, -.1), (.013, .29), (.055, 0))[k]
    v.check('critical Shields parameter (van Rijn 1984)', v.eq(th, num(v, c) * (v.pow(D, p) if p else 1)))
    v.check('critical Shields parameter positive', th > 0)
    th = w.let(m.thetacr, v.real('thetacr', pos=True, gen=log10(-2, 0)))
    v.check('critical stress', v.eq(w.at(m.taucr), (rhos - rho) * g * d * th))
    ws = w.at(m.settling_velocity)
    y = R * g * d**3 / nu**2
    le = lambda c: (v.sign(d - num(v, c)) <= 0) if v.symbolic else d <= c
    spec = g * d**2 * R / (18 * nu) if le(1e-4) else (10 * nu / d * (v.sqrt(1 + num(v, .01) * y) - 1) if le(1e-3) else num(v, 1.1) * v.sqrt(g * d * R))
    v.check('settling velocity (van Rijn 1993)', v.eq(ws, spec))
    v.check('settling velocity positive', ws > 0)
    v.check('reference level: half the bed reference height', v.eq(w.at(m.a), w.val['href'] / 2))
    v.cover()


@contract('C23', [INIT])
def rejects(v):
    """grain sizes outside the range of the formulas are refused, all others accepted"""
    w = World(v)
    w.dstar_data = [v.real('D', gen=lambda r: r.choice((.5, 1., 3.)))]
    bad = w.dstar_data[0] < 1
    v.check('refused exactly below d* = 1', isinstance(raises(w.model)[0], ValueError) == bool(bad))
    v.cover()


def LOG(v, x):
    return v.uf('log', x) if core.is_sym(x) else num(v, math.log(float(x)))


def hydraulics(v, w, H):
    """skin friction coefficient, efficiency factor, restated"""
    n = lambda x: num(v, x)
    gt = lambda a, b: (v.sign(a - b) > 0) if v.symbolic else a > b
    kap, d, href = w.val['kappa'], w.val['d'], w.val['href']
    hc = H if gt(H, n(1e-3)) else n(1e-3)
    aux = n(11.036) * hc / href
    aux = aux if gt(aux, n(1.001)) else n(1.001)
    qfc = 2 * kap**2 / LOG(v, aux)**2
    cf = 2 * kap**2 / LOG(v, n(11.036) * H / (3 * d))**2 if gt(H, 3 * d) else 0
    return qfc, cf


@contract('C23', [INIT], samples=20)
def stress(v):
    """bed friction, skin friction efficiency and bed stress, total depth and velocity read from the current fields"""
    w = World(v, solve_suspended_sediment=v.flag('suspended'))
    m = w.model()
    H = w.at(m.depth_tot)
    v.check('total depth', v.eq(H, w(w.bath) + w(w.elev)))
    for i in range(2):
        v.check('velocity', v.eq(w.at(m.uv_cg, (i,)), w.at(w.uv, (i,))))
    v.check('bathymetry kept', v.eq(w.at(m.old_bathymetry_2d), w(w.bath)))
    w.env.domain = []
    H = w.let(m.depth_tot, v.real('H', gen=lambda r: r.choice((1e-4, .01, 1, 5)) * r.random()))
    u = w.let(m.uv_cg, [v.real('ucg%d' % i) for i in range(2)])
    qfc, cf = hydraulics(v, w, H)
    q = w(m.qfc)
    v.check('friction coefficient', v.eq(q, qfc))
    v.check('friction coefficient positive', q > 0)
    mu = w(m.mu)
    v.check('efficiency factor = skin friction / total friction', v.eq(mu * qfc, cf))
    v.check('efficiency factor non-negative', mu >= 0)
    U2 = u[0]**2 + u[1]**2
    v.check('speed squared', v.eq(w(m.unorm), U2))
    v.check('bed stress', v.eq(w.at(m.bed_stress), w.val['rho0'] * qfc * U2 / 2))
    defined(v, w)
    v.cover()


def defined(v, w):
    for k, x in w.env.domain:
        if not core.is_sym(x):
            v.check('finite: ' + k, x > 0 if k == 'ln' else (x != 0 if k == 'div' else x >= 0))
        elif k == 'div':
            v.check('finite: no division by zero', v.not_(v.eq(x, 0)))
        else:
            v.check('finite: argument of ' + k, x > 0 if k == 'ln' else x >= 0)
    w.env.domain = None


def at_speed(v, w, m, rest=False):
    H = w.let(m.depth_tot, v.real('H', gen=lambda r: r.choice((1e-4, .01, 1, 5)) * r.random()))
    u = [0, 0] if rest else [v.real('ucg%d' % i) for i in range(2)]
    w.let(m.uv_cg, u)
    if not rest:
        v.assume(u[0]**2 + u[1]**2 > 0)
    return H, u


@contract('C23', [INIT, S + 'SedimentModel.get_deposition_coefficient', S + 'SedimentModel.get_erosion_term', S + 'SedimentModel.get_equilibrium_tracer'],
          samples=20)
def suspended(v):
    """concentration ratio at least one, erosion non-negative and zero below threshold, deposition non-negative, equilibrium concentration"""
    n = lambda x: num(v, x)
    w = World(v, solve_suspended_sediment=True, use_advective_velocity_correction=False)
    m = w.model()
    H, u = at_speed(v, w, m)
    ws = w.let(m.settling_velocity, v.real('ws', pos=True, gen=log10(-4, 0)))
    tc = w.let(m.taucr, v.real('taucr', pos=True, gen=log10(-2, 1)))
    D = w.let(m.dstar, v.real('dstar', pos=True, gen=log10(0, 2)))
    a = w.let(m.a, v.real('a', pos=True, gen=log10(-4, 0)))
    q, mu, U2 = w.let_expr(m.qfc, 'qfc', pos=True), w.let_expr(m.mu, 'mu', lo=0), w.let_expr(m.unorm, 'U2', pos=True)
    us = v.sqrt(q * U2 / 2)
    B = 1 if ((v.sign(a - H) > 0) if v.symbolic else a > H) else a / H
    r = w(m.rouse_number)
    v.check('Rouse number - 1 = ws/(kappa u*) - 1', v.eq((r + 1) * w.val['kappa'] * us, ws))
    r = w.let_expr(m.rouse_number, 'rouse')
    w.tie()
    g = lambda x, y: (v.sign(x - y)) if v.symbolic else (x > y) - (x < y)
    r3 = r if g(r, 3) <= 0 else n(3)
    ab = abs(r)
    far = bool(ab > n(1e-4))
    I = B * (1 - v.pow(B, r3)) / r3 if far else -B * LOG(v, B)
    v.check('depth averaged over near bed concentration (Rouse profile integral)', v.eq(w(m.intermediate_step), I))
    I = w.let_expr(m.intermediate_step, 'I')
    ir = w(m.integrated_rouse)
    v.check('near bed to depth averaged ratio at least one', ir >= 1)
    big = bool(I > n(1e-12))
    v.check('ratio: reciprocal of the integral, at least one', v.eq(ir, v.max(1 / I if big else n(1e12), 1)))
    ir = w.let_expr(m.integrated_rouse, 'ratio', lo=1)
    T = w(m.transport_stage_param)
    tau = w.val['rho0'] * q * U2 * mu / 2
    v.check('transport stage', v.eq(T, (tau - tc) / tc if bool(tau > 0) else -1))
    E = w.at(m.erosion_concentration)
    v.check('no erosion below the threshold of motion', v.implies(tau <= tc, v.eq(E, 0)))
    v.check('erosion concentration non-negative', E >= 0)
    T = w.let_expr(m.transport_stage_param, 'T')
    w.tie()
    Tp = v.max(T, 0)
    v.check('erosion concentration 0.015 d/a T^1.5 d*^-0.3', v.eq(E * v.pow(D, n(.3)) * a, n(.015) * w.val['d'] * v.pow(Tp, n(1.5))))
    E = w.let(m.erosion_concentration, v.real('E', lo=0, gen=log10(-4, 0)))
    v.check('erosion: settling velocity times near bed concentration', v.eq(w(m.get_erosion_term()), ws * E))
    v.check('deposition coefficient: settling velocity times the ratio', v.eq(w(m.get_deposition_coefficient()), ws * ir))
    v.check('deposition and erosion non-negative', v.all([w(m.get_deposition_coefficient()) >= 0, w(m.get_erosion_term()) >= 0]))
    c = w.at(m.get_equilibrium_tracer())
    v.check('equilibrium: deposition balances erosion', v.eq(c * ir, E))
    v.check('equilibrium concentration non-negative', c >= 0)
    v.check('no velocity correction: factor one', v.eq(w(m.get_advective_velocity_correction_factor()), 1))
    v.cover()


@contract('C23', [S + 'CorrectiveVelocityFactor.__init__', S + 'CorrectiveVelocityFactor.update', S + 'SedimentModel.get_advective_velocity_correction_factor'],
          samples=20)
def velocity_factor(v):
    n = lambda x: num(v, x)
    w = World(v, solve_suspended_sediment=True, use_advective_velocity_correction=True)
    m = w.model()
    H, u = at_speed(v, w, m)
    v.assume(H > 0)
    ws = w.let(m.settling_velocity, v.real('ws', pos=True, gen=log10(-4, 0)))
    a = w.let(m.a, v.real('a', pos=True, gen=log10(-4, 0)))
    kap, ks = w.val['kappa'], 3 * w.val['d']
    us = v.sqrt(w.let_expr(m.qfc, 'qfc', pos=True) * w.let_expr(m.unorm, 'U2', pos=True) / 2)
    gt = lambda x, y: (v.sign(x - y) > 0) if v.symbolic else x > y
    A1 = ks / H if gt(H, n(1.1) * ks) else n(1) / n(1.1)
    A2 = a / H if gt(H, n(1.1) * a) else n(1) / n(1.1)
    A = A2 if gt(A2, A1) else A1
    q = ws / us
    q = q if gt(1, q) else n(1)
    r = 1 - q / kap
    L = LOG(v, A)
    if gt(r, n(1e-8)) or gt(n(-1e-8), r):
        Ar = v.pow(A, r)
        J1 = (1 - Ar) / r
        J2 = -(J1 + L * Ar) / r
    else:
        J1, J2 = L, -L**2 / 2
    l30 = num(v, math.log(30))
    f = m.correction_factor_model
    al = w(f.alpha)
    w.tie()
    v.check('ratio of suspended to depth averaged transport velocity', v.eq(al * (J1 * (L - l30 + 1)), -(J2 - (L - l30) * J1)))
    F = m.get_advective_velocity_correction_factor()
    v.check('the factor of this model', F is f.velocity_correction_factor)
    al = w.let_expr(f.alpha, 'alpha')
    x = w.at(F)
    w.tie()
    v.check('velocity correction factor within [0, 1]', v.all([x >= 0, x <= 1]))
    v.check('clipped value', v.eq(x, v.max(v.min(al, 1), 0)))
    v.cover()


def bed_choice(v, susp=True):
    return dict(use_bedload=True, use_slope_mag_correction=v.flag('slope'), use_angle_correction=v.flag('angle'),
                use_secondary_current=v.flag('secondary'), solve_suspended_sediment=susp and v.flag('suspended'), use_advective_velocity_correction=v.flag('velocity') if susp else False)


@contract('C23', [INIT, BED], samples=30)
def bedload(v):
    """Meyer-Peter-Mueller transport along the flow, corrected for the slope and the secondary current; zero below threshold"""
    n = lambda x: num(v, x)
    gt = lambda x, y: (v.sign(x - y) > 0) if v.symbolic else x > y
    w = World(v, **bed_choice(v, False))
    m = w.model()
    H, u = at_speed(v, w, m)
    v.assume(H > 0)
    q, mu = w.let_expr(m.qfc, 'qfc', pos=True), w.let_expr(m.mu, 'mu', lo=0)
    th = w.let(m.thetacr, v.real('thetacr', pos=True, gen=log10(-3, 0)))
    rho, rhos, g, d = (w.val[k] for k in ('rho0', 'rhos', 'g', 'd'))
    spd = v.sqrt(u[0]**2 + u[1]**2)
    for i, f in enumerate((m.calfa, m.salfa)):
        v.check('direction of the flow', v.eq(w.at(f) * spd, u[i]))
    ca, sa = w.let(m.calfa, v.real('ca', gen=lambda r: r.uniform(-1, 1))), w.let(m.salfa, v.real('sa', gen=lambda r: r.uniform(-1, 1)))
    tb = w.val['rho0'] * q * (u[0]**2 + u[1]**2) / 2
    v.check('bed stress', v.eq(w.at(m.bed_stress), tb))
    if m.use_angle_correction:
        v.check('stress used by the angle correction', v.eq(w.at(m.stress), tb))
        w.let(m.stress, tb if not v.symbolic else v.real('tb', pos=True))
    tb = w.let(m.bed_stress, tb if not v.symbolic else v.real('tb', pos=True))
    newb = RealFunction(sp('s'), name='zb')
    zx = [v.real('zb_d%s' % k, gen=lambda r: r.uniform(-.5, .5)) for k in 'xy']
    ox = [v.real('bath_d%s' % k, gen=lambda r: r.uniform(-.5, .5)) for k in 'xy']
    hx = [v.real('H_d%s' % k, gen=lambda r: r.uniform(-.5, .5)) for k in 'xy']
    w.env.fields[newb] = uflsem.Field('zb', 'cg', value=lambda c, r: v.real('zb'), deriv=lambda c, ds, r: zx[ds[0]])
    w.over[m.depth_tot].deriv = lambda c, ds, r: hx[ds[0]]
    qb = m.get_bedload_term(newb)
    stress0 = w.val['rho0'] * q * (u[0]**2 + u[1]**2) / 2
    thp = mu * stress0 / ((rhos - rho) * g * d)
    dz = thp - th
    moving = gt(dz, 0) or (v.sign(dz) == 0 if v.symbolic else dz == 0)
    x = [w(c) for c in qb]
    w.tie()
    if not moving:
        v.check('no bedload below the threshold of motion', v.all([v.eq(c, 0) for c in x]))
        v.cover('below')
        return
    q0 = 8 * v.pow(dz, n(1.5)) * v.sqrt(g * w(m.R) * d**3)
    sl = 1 + w.val['beta'] * (zx[0] * ca + zx[1] * sa) if m.use_slope_mag_correction else 1
    D = [ca, sa]
    if m.use_angle_correction:
        cp = (rhos - rho) * g * d * w.val['surbeta']**2
        t1 = v.sqrt(cp / tb) if gt(tb, n(1e-10)) else v.sqrt(cp / n(1e-10))
        nn = v.sqrt((sa + t1 * ox[1])**2 + (ca + t1 * ox[0])**2)
        nn = nn if gt(nn, n(1e-10)) else n(1e-10)
        D = [(ca + t1 * zx[0]) / nn, (sa + t1 * zx[1]) / nn]
    if m.use_secondary_current:
        fs = [hx[i] - zx[i] for i in range(2)]
        slide = u[0] * fs[1] - u[1] * fs[0]
        tand = 7 * g * rho * H * q / (2 * w.val['alpha_secc'] * (u[0]**2 + u[1]**2))
        t = [tb * sl * D[0] + u[1] * tand * slide, tb * sl * D[1] - u[0] * tand * slide]
        t4 = v.sqrt(t[0]**2 + t[1]**2)
        if v.symbolic:
            v.assume(t4 > 0)
        if gt(dz, 0):
            v.check('bedload with secondary current', v.all([v.eq(x[i] * tb, q0 * t[i]) for i in range(2)]))
        else:
            v.check('at the threshold: zero', v.all([v.eq(c, 0) for c in x]))
    else:
        v.check('bedload magnitude and direction', v.all([v.eq(x[i], q0 * sl * D[i]) for i in range(2)]))
        if not m.use_slope_mag_correction and not m.use_angle_correction:
            v.check('along the flow', v.all([v.eq(x[0] * sa, x[1] * ca), v.implies(ca > 0, x[0] >= 0), v.implies(sa > 0, x[1] >= 0)]))
    v.cover('moving')


@contract('C23', [INIT, BED])
def rest(v):
    """still water: no bedload, no erosion, no stress, and none of it computed by a division by zero"""
    w = World(v, **bed_choice(v))
    m = w.model()
    H, u = at_speed(v, w, m, rest=True)
    th = w.let(m.thetacr, v.real('thetacr', pos=True))
    w.let(m.taucr, v.real('taucr', pos=True))
    w.let(m.dstar, v.real('dstar', pos=True))
    w.env.domain = []
    v.check('no stress', v.eq(w.at(m.bed_stress), 0))
    for f in (m.calfa, m.salfa):
        v.check('no direction', v.eq(w.at(f), 0))
    v.check('no bedload', v.all([v.eq(w(c), 0) for c in m.get_bedload_term(w.bath)]))
    if m.solve_suspended_sediment:
        v.check('no erosion', v.eq(w.at(m.erosion_concentration), 0))
    defined(v, w)
    v.cover()


@contract('C23', [UPD, INIT])
def update(v):
    """after an update every quantity is what a model built from the current fields has"""
    opts = bed_choice(v)
    opts['use_bedload'] = v.flag('bedload')
    w = World(v, fork=False, **opts)
    m = w.model()
    w.flow('_new')
    m.update()
    m2 = sm.SedimentModel(w.options, mesh2d(), w.uv, w.elev, w.depth)
    names = ['uv_cg', 'old_bathymetry_2d', 'depth_tot', 'bed_stress', 'qfc', 'mu', 'unorm'] + (['calfa', 'salfa'] if m.use_bedload else [])
    if m.use_bedload and m.use_angle_correction:
        names.append('stress')
    if m.solve_suspended_sediment:
        names += ['erosion_concentration', 'equilibrium_tracer', 'integrated_rouse', 'transport_stage_param']
        v.check('deposition coefficient', v.eq(w(m.get_deposition_coefficient()), w(m2.get_deposition_coefficient())))
        v.check('erosion', v.eq(w(m.get_erosion_term()), w(m2.get_erosion_term())))
        v.check('velocity correction factor', v.eq(w(m.get_advective_velocity_correction_factor()), w(m2.get_advective_velocity_correction_factor())))
    for nm in names:
        a, b = getattr(m, nm), getattr(m2, nm)
        for comp in ([(0,), (1,)] if nm == 'uv_cg' else [()]):
            f = lambda x: uflsem.Ev(w.env)(x, comp)
            v.check('up to date: ' + nm, v.eq(f(a), f(b)))
    zb = RealFunction(sp('s'), name='zb')
    for i in range(2 if m.use_bedload else 0):
        v.check('up to date: bedload', v.eq(w(m.get_bedload_term(zb)[i]), w(m2.get_bedload_term(zb)[i])))
    v.cover()
