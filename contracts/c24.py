"""C24 turbine farms: thrust and power curves, density of discrete farms, power output, minimum distances."""
import json
import math
import os
import random
import tempfile
from types import SimpleNamespace
import numpy
from firedrake import *
import thetis
from thetis import turbines as tb, options as topt, physical_constants
from pyvc import uflsem, core
from pyvc.contract import contract
from .swe import mesh2d
from .common import raises

ASSUMPTIONS = [
    'a thrust table is a list of at least two strictly increasing speeds with one coefficient each (validated lengths; monotone speeds are the user\'s part)',
    'assemble(form) is the integral of the form; non-integer powers and exp are functions with their sign and monotonicity axioms',
    'the upwind correction is used where the thrust area does not exceed the projected area of the water column (real square root)',
]
T = 'thetis.turbines:'
BIG, SMALL = T + 'TidalTurbine.', T + 'linearly_interpolate_table'


class K(Constant):
    """a constant whose truth value is that of a non-zero number"""
    def __bool__(self): return True


def num(v, x):
    return core._frac(x) if v.symbolic else float(x)


class Consts:
    def __init__(self, v, fork=True):
        self.v, self.env, self.val = v, uflsem.Env(v, 2), {}
        self.env.fork = fork and v.symbolic
        if v.symbolic:
            core.eng().python_division = False

    def __call__(self, nm, gen=None, **k):
        c = K(1.0)
        return self.bind(c, nm, gen, **k)

    def bind(self, c, nm, gen=None, **k):
        x = self.val[nm] = self.v.real(nm, gen=gen, **k)
        self.env.fields[c] = uflsem.Field(nm, 'const', value=lambda comp, r: x)
        return c

    def ev(self, x):
        return uflsem.evaluate(x, self.env)


class Table:
    """list of n entries (n symbolic) seen from position off: only the entries that are read exist"""
    def __init__(self, c, nm, n, off=0):
        self.c, self.nm, self.n, self.off = c, nm, n, off

    def __getitem__(self, i):
        if isinstance(i, slice):
            assert i.stop is None and i.step is None and i.start >= 0
            return Table(self.c, self.nm, self.n - i.start, self.off + i.start)
        assert i in (0, 1), 'entry %s' % i
        k = (self.nm, self.off + i)
        if k not in CACHE:
            CACHE[k] = K(1.0)
        x = FUN[self.nm](self.off + i)
        self.c.env.fields[CACHE[k]] = uflsem.Field('tab', 'const', value=lambda comp, r: x)
        return CACHE[k]


CACHE, FUN = {}, {}


@contract('C24', [SMALL])
def table_step(v):
    """one level of the recursion, for a table of any length, with the contract of the remaining table: the result is the chord of the
    interval that contains the speed and the final value from the last speed on; chords stay between their end values"""
    if not v.symbolic:
        return table_concrete(v)
    c = Consts(v)
    n = v.int('n', lo=2)
    X, Y = v.func('X'), v.func('Y')
    FUN.update(x=X, y=Y)
    u, yf = c('u'), c('yf')
    U, YF = c.val['u'], c.val['yf']
    k = v.int('k', lo=0)                 # an arbitrary interval
    v.assume(k + 1 < n)
    for a, b in ((0, 1), (k, k + 1)):
        v.assume(X(a) < X(b))
    v.assume(v.implies(k >= 1, X(1) <= X(k)))
    v.assume(X(1) <= X(n - 1))
    v.assume(X(0) <= X(k))
    chord = ((X(k + 1) - U) * Y(k) + (U - X(k)) * Y(k + 1)) / (X(k + 1) - X(k))
    tail = c('tail')
    TV = c.val['tail']
    orig = tb.linearly_interpolate_table
    calls = []

    def callee(xl, yl, y_final, x):
        calls.append((xl, yl, y_final, x))
        v.check('the remaining table has at least two entries', v.all([xl.n >= 2, xl.n < n]))
        return tail
    v.patch(tb, 'linearly_interpolate_table', callee)
    v.patch(tb, 'len', lambda t: t.n)
    r = orig(Table(c, 'x', n), Table(c, 'y', n), yf, u)
    if calls:
        xl, yl, f, x = calls[0]
        v.check('remaining table: both lists shifted by one, same final value and speed',
                v.all([len(calls) == 1, isinstance(xl, Table), isinstance(yl, Table), xl.off == 1, yl.off == 1, xl.nm == 'x', yl.nm == 'y', f is yf, x is u]))
        # contract of the callee, for the arbitrary interval and for the end
        v.assume(v.implies(v.all([k >= 1, X(k) <= U, U < X(k + 1)]), v.eq(TV, chord)))
        v.assume(v.implies(U >= X(n - 1), v.eq(TV, YF)))
    R = c.ev(r)
    inside = v.all([X(k) <= U, U < X(k + 1)])
    v.check('linear between the entries', v.implies(inside, v.eq(R, chord)))
    v.check('final value from the last speed on', v.implies(U >= X(n - 1), v.eq(R, YF)))
    v.check('exact at the entries', v.implies(v.eq(U, X(k)), v.eq(R, Y(k))))
    w = (U - X(k)) / (X(k + 1) - X(k))
    v.check('weights between zero and one', v.implies(inside, v.all([w >= 0, w <= 1, v.eq(chord, (1 - w) * Y(k) + w * Y(k + 1))])))
    v.cover()


def table_concrete(v):
    r = v.rng
    n = r.randint(2, 8)
    xs = sorted(r.uniform(0, 9) for _ in range(n))
    if min(b - a for a, b in zip(xs, xs[1:])) < 1e-3:
        return
    ys = [r.uniform(0, 1) for _ in range(n)]
    u = r.choice(xs + [r.uniform(xs[0], xs[-1] + 1)])
    e = tb.linearly_interpolate_table(xs, ys, .25, Constant(u))
    x = uflsem.evaluate(e, uflsem.Env(v, 2))
    v.check('linear between the entries', abs(x - (.25 if u >= xs[-1] else numpy.interp(u, xs, ys))) < 1e-9)


@contract('C24', [T + 'TabulatedThrustTurbine.__init__', T + 'TabulatedThrustTurbine.thrust_coefficient', T + 'TabulatedThrustTurbine.power_coefficient',
                  BIG + '__init__'])
def tabulated(v):
    """both curves: zero below the first speed, else the table (contract of linearly_interpolate_table) at the magnitude of the velocity, zero beyond"""
    c = Consts(v)
    o = topt.TabulatedTidalTurbineOptions()
    n = v.choice('entries', (2, 3, 5))
    o.thrust_speeds = [0.5 + .5 * i for i in range(n)]
    o.thrust_coefficients = [.1 * (i + 1) for i in range(n)]
    given = v.choice('power table', ('default', 'given', 'short'))
    if given != 'default':
        o.power_coefficients = [.07 * (i + 1) for i in range(n - (given == 'short'))]
    if v.flag('short thrust table'):
        o.thrust_coefficients = o.thrust_coefficients[:-1]
        v.check('different lengths refused', isinstance(raises(tb.TabulatedThrustTurbine, o)[0], ValueError))
        return
    if given == 'short':
        v.check('different lengths refused (power)', isinstance(raises(tb.TabulatedThrustTurbine, o)[0], ValueError))
        return
    t = tb.TabulatedThrustTurbine(o)
    ct = o.thrust_coefficients
    cp = o.power_coefficients if given == 'given' else [.5 * x * (1 + math.sqrt(1 - x)) for x in ct]
    scalar = v.flag('scalar speed')
    if scalar:
        uv = c('u', lo=0, gen=lambda r: r.choice((.5, 1., 1.5, r.uniform(0, 4))))
        um = c.val['u']
    else:
        uv = Function(VectorFunctionSpace(mesh2d(), 'DG', 1), name='uv')
        u = [v.real('u%d' % i) for i in range(2)]
        c.env.fields[uv] = uflsem.Field('uv', 'dg', value=lambda k, r: u[k[0]])
        um = v.sqrt(u[0]**2 + u[1]**2)
        if v.symbolic:
            v.assume(um >= 0)
    below = (v.sign(um - num(v, .5)) < 0) if v.symbolic else um < .5
    got = {}

    def callee(xl, yl, yf, x):
        v.check('speeds of the turbine', list(xl) == list(o.thrust_speeds))
        v.check('zero beyond the last speed', yf == 0)
        v.check('evaluated at the speed', v.eq(c.ev(x), um))
        got['y'] = list(yl)
        return Constant(.625)
    v.patch(tb, 'linearly_interpolate_table', callee)
    for f, ys in ((t.thrust_coefficient, ct), (t.power_coefficient, cp)):
        got.clear()
        x = c.ev(f(uv))
        v.check('its own table', len(got.get('y', ())) == len(ys) and all(abs(a - b) < 1e-12 for a, b in zip(got['y'], ys)))
        v.check('zero below the first speed, the table above', v.eq(x, 0 if below else num(v, .625)))
    v.cover()


def turbine(v, c, kind='constant', support=None, shear=False, up=None):
    """the real turbine with symbolic parameters and the contract of its thrust and power curves"""
    t = tb.ConstantThrustTurbine(topt.ConstantTidalTurbineOptions(), upwind_correction=bool(up))
    t.diameter, t.projected_diameter = c('D', pos=True, gen=lambda r: r.uniform(5, 20)), c('Dp', pos=True, gen=lambda r: r.uniform(10, 30))
    if support:
        t.C_support, t.A_support = c('Cs', pos=True, gen=lambda r: r.random() + .1), c('As', pos=True, gen=lambda r: r.uniform(1, 30))
    return t


@contract('C24', [BIG + '__init__', T + 'ConstantThrustTurbine.__init__', T + 'ConstantThrustTurbine.thrust_coefficient', T + 'ConstantThrustTurbine.power_coefficient'])
def constant(v):
    o = topt.ConstantTidalTurbineOptions()
    o.thrust_coefficient = .7
    given = v.flag('power coefficient')
    if given:
        o.power_coefficient = .4
    pd = v.flag('projected diameter')
    if pd:
        o.projected_diameter = 25.
    o.diameter, o.C_support, o.A_support, o.rel_hub_height, o.structure_type, o.apply_shear_profile = 16., .6, 12., 8., 'floating', True
    o.shear_alpha, o.shear_beta = 6., .3
    up = v.flag('upwind')
    t = tb.ConstantThrustTurbine(o, upwind_correction=up)
    u = Constant(2.)
    v.check('thrust coefficient', t.thrust_coefficient(u) == .7)
    v.check('power coefficient (given, or from the thrust coefficient)', abs(t.power_coefficient(u) - (.4 if given else .35 * (1 + math.sqrt(.3)))) < 1e-12)
    v.check('parameters', (t.diameter, t.projected_diameter, t.C_support, t.A_support, t.rel_hub_height, t.structure_type, t.apply_shear_profile,
                           t.shear_alpha, t.shear_beta, t.upwind_correction) == (16., 25. if pd else 16., .6, 12., 8., 'floating', True, 6., .3, up))
    v.check('weights of the rotor slices sum to one', abs(sum(t.rotor_weightings) - 1) < 1e-3)
    v.cover()


@contract('C24', [BIG + '_thrust_area', BIG + 'velocity_correction', BIG + 'friction_coefficient', BIG + 'power', BIG + 'rotor_averaged_velocity'], samples=20)
def forces(v):
    """drag coefficient = thrust area / 2 over the squared velocity correction; power = rho/2 A C_P (speed/correction)^3"""
    c = Consts(v)
    up, sup, shear = v.flag('upwind'), v.flag('support'), v.flag('shear')
    t = turbine(v, c, support=sup, up=up)
    ct, cp = c('CT', lo=0, hi=1), c('CP', lo=0, hi=1)
    H = c('H', pos=True, gen=lambda r: r.uniform(30, 60))
    rho = c.bind(physical_constants['rho0'], 'rho', pos=True, gen=lambda r: 1025.)
    uv = Function(VectorFunctionSpace(mesh2d(), 'DG', 1), name='uv')
    u = [v.real('u%d' % i) for i in range(2)]
    v.assume(u[0]**2 + u[1]**2 > 0)
    c.env.fields[uv] = uflsem.Field('uv', 'dg', value=lambda k, r: u[k[0]])
    eff = c('ueff', pos=True)
    asked = []
    v.patch(t, 'thrust_coefficient', lambda w: (asked.append(('T', w)), ct)[1])
    v.patch(t, 'power_coefficient', lambda w: (asked.append(('P', w)), cp)[1])
    t.apply_shear_profile = shear
    if shear:
        v.patch(t, 'rotor_averaged_velocity', lambda a, b: (v.check('rotor average of this velocity and depth', a is uv and b is H), eff)[1])
    else:
        v.check('no shear: the velocity itself', t.rotor_averaged_velocity(uv, H) is uv)
    U2 = u[0]**2 + u[1]**2
    speed = c.val['ueff'] if shear else v.sqrt(U2)
    pi_ = num(v, math.pi)
    A = pi_ * c.val['D']**2 / 4
    F = c.val['CT'] * A + (c.val['Cs'] * c.val['As'] if sup else 0)
    v.check('thrust area: rotor and support', v.eq(c.ev(t._thrust_area(uv)), F))
    if up:
        v.assume(F <= c.val['Dp'] * c.val['H'])
    al = c.ev(t.velocity_correction(uv, H)) if up else t.velocity_correction(uv, H)
    spec = (1 + v.sqrt(1 - F / (c.val['Dp'] * c.val['H']))) / 2 if up else 1
    v.check('ratio of local to upstream velocity', v.eq(al, spec))
    v.check('ratio within [1/2, 1]', v.all([v.le(num(v, .5), al), v.le(al, 1)]))
    asked.clear()
    k = c.ev(t.friction_coefficient(uv, H))
    v.check('drag: thrust area / 2 / correction^2', v.eq(k * 2 * spec**2, F))
    v.check('thrust of the velocity at the rotor', all(w is (eff if shear else uv) for q, w in asked))
    v.check('drag never accelerates', k >= 0)
    asked.clear()
    P = c.ev(t.power(uv, H))
    w = [x for q, x in asked if q == 'P']
    v.check('power coefficient asked once', len(w) == 1)
    if v.symbolic:
        W = v.real('W', lo=0)            # |u|/correction
        v.assume(v.eq(W * spec, speed))
        x = c.ev(w[0]) if len(w) == 1 else 0
        v.check('power coefficient of the corrected speed', v.implies(x >= 0, v.eq(x**3, W**3)))
        v.check('power', v.eq(P * spec**3, c.val['rho'] / 2 * A * c.val['CP'] * speed**3))
    else:
        v.check('power coefficient of the corrected speed', v.eq(c.ev(w[0]), speed / spec))
        v.check('power', v.eq(P, c.val['rho'] / 2 * A * c.val['CP'] * (speed / spec)**3))
    v.check('power non-negative', P >= 0)
    v.cover()


@contract('C24', [BIG + 'rotor_averaged_velocity'], samples=20)
def shear_profile(v):
    """cube root of the weighted mean of the cubed speeds of the rotor slices, power-law profile, hub measured from the bed or the surface"""
    c = Consts(v)
    t = turbine(v, c)
    t.apply_shear_profile = True
    kind = v.choice('structure', ('bottom-fixed', 'floating', 'other'))
    n = v.choice('slices', (1, 2, 3, 10))
    t.structure_type = kind
    t.shear_alpha, t.shear_beta = c('alpha', pos=True, gen=lambda r: r.uniform(2, 9)), .4
    hub = v.choice('hub', ('given', 'missing'))
    uv = c('u', pos=True, gen=lambda r: r.uniform(.1, 4))
    H = c('H', pos=True, gen=lambda r: r.uniform(40, 60))
    if hub == 'missing' or kind == 'other':
        t.rel_hub_height = None if hub == 'missing' else 10.
        v.check('missing hub height or unknown structure refused', isinstance(raises(t.rotor_averaged_velocity, uv, H)[0], ValueError))
        return
    t.rel_hub_height = c('hub', pos=True, gen=lambda r: r.uniform(12, 20))
    if n != 10:
        t.rotor_weightings = numpy.array([1. / n] * n)
    ws = [num(v, float(x)) for x in t.rotor_weightings]
    h, D, U, d = (c.val[k] for k in ('hub', 'D', 'u', 'H'))
    z0 = h if kind == 'bottom-fixed' else d - h
    zs = [z0 - D / 2 + (D * num(v, i / (n - 1)) if n > 1 else 0) for i in range(n)]
    if v.symbolic:
        v.assume(z0 > D / 2)             # the rotor is within the water
    v.cover()
    val = c.ev(t.rotor_averaged_velocity(uv, H))
    tot = 0
    for w, z in zip(ws, zs):
        tot = tot + w * (v.sqrt(U * U) * v.pow(z / (num(v, .4) * d), 1 / c.val['alpha']))**3
    v.check('rotor average: cube root of the mean cube', v.eq(val, v.pow(tot, num(v, 1. / 3))))


def bump(v, c, x, p, rad):
    """one bump centred at p with radius rad and unit integral"""
    out = 1
    for i in range(2):
        y = (x[i] - p[i]) / rad
        a = abs(y)
        if (v.sign(a - 1) < 0) if v.symbolic else a < 1:
            out = out * (v.uf('exp', 1 - 1 / (1 - y * y)) if v.symbolic else math.exp(1 - 1 / (1 - y * y)))
        else:
            return 0
    return out / (rad * rad * num(v, 1.45661))


@contract('C24', [T + 'DiscreteTidalTurbineFarm.__init__', T + 'DiscreteTidalTurbineFarm.add_turbines', T + 'TidalTurbineFarm.__init__',
                  T + 'TidalTurbineFarm.friction_coefficient'], samples=60)
def discrete_density(v):
    """density of a discrete farm: one unit bump per turbine, placed at the turbine, whatever was there before"""
    c = Consts(v)
    m = mesh2d()
    o = topt.DiscreteTidalTurbineFarmOptions()
    o.turbine_options.projected_diameter = 3.
    o.break_even_wattage = 7.
    o.upwind_correction = v.flag('upwind')
    n0, n1 = v.choice('at construction', (0, 1)), v.choice('added', (0, 1, 2))
    g = lambda r: r.uniform(-2, 2)
    pts = [[c('p%d_%d' % (k, i), gen=g) for i in range(2)] for k in range(n0 + n1)]
    P = [[c.val['p%d_%d' % (k, i)] for i in range(2)] for k in range(n0 + n1)]
    o.turbine_coordinates = []
    rad = num(v, 1.5)
    farm = tb.DiscreteTidalTurbineFarm.__new__(tb.DiscreteTidalTurbineFarm)
    ov = SimpleNamespace(turbine_type='constant', turbine_options=o.turbine_options, turbine_coordinates=pts[:n0], upwind_correction=o.upwind_correction,
                         break_even_wattage=o.break_even_wattage)
    measure = dx(3, domain=m)
    farm.__init__(m, measure, ov)
    v.check('measure, wattage and correction kept', farm.dx is measure and farm.break_even_wattage == 7. and farm.turbine.upwind_correction == o.upwind_correction)
    if v.flag('density replaced'):
        farm.turbine_density = c('d0')
        base = c.val['d0']
        here = []
    else:
        base, here = 0, list(range(n0))
    if n1:
        farm.add_turbines(pts[n0:])
        here += list(range(n0, n0 + n1))
    x = [v.real('x_%d' % i, gen=g) for i in range(2)]
    d = farm.turbine_density
    d = c.ev(d) if not isinstance(d, (int, float)) else d
    spec = base
    for k in here:
        spec = spec + bump(v, c, x, P[k], rad)
    v.check('sum of the bumps', v.eq(d, spec))
    if not isinstance(base, (int, float)) or base == 0:
        v.check('bumps only add', v.le(base, d))
    v.cover()


@contract('C24', [T + 'DiscreteTidalTurbineFarm.add_turbines'], kind='concrete', samples=1, bounded='numerical quadrature of one bump, three radii')
def bump_integral(v):
    """every turbine counts as one"""
    o = topt.DiscreteTidalTurbineFarmOptions()
    for D in (1., 3.5, 20.):
        o.turbine_options.projected_diameter = D
        o.turbine_coordinates = [[.2, -.3]]
        farm = tb.DiscreteTidalTurbineFarm(mesh2d(), None, o)
        q, w = numpy.polynomial.legendre.leggauss(24)
        tot = 0.
        for i in range(24):
            for j in range(24):
                tot += w[i] * w[j] * (D / 2)**2 * evaluate_at(v, farm.turbine_density, .2 + q[i] * D / 2, -.3 + q[j] * D / 2)
        v.check('unit integral', abs(tot - 1) < 1e-3, '%s %s' % (D, tot))


def evaluate_at(v, expr, x, y):
    env = uflsem.Env(v, 2)
    p = (x, y)
    terminal = env.terminal

    def term(e, comp, derivs, r):
        if type(e).__name__ == 'SpatialCoordinate' and not derivs:
            return p[comp[0]]
        return terminal(e, comp, derivs, r)
    env.terminal = term
    return float(uflsem.evaluate(expr, env))


@contract('C24', [T + 'TidalTurbineFarm.__init__', T + 'TidalTurbineFarm.number_of_turbines', T + 'TidalTurbineFarm.power_output', T + 'TidalTurbineFarm.friction_coefficient'])
def farm_integrals(v):
    """number of turbines and power are the integrals of density and density times power over the farm; the drag is the turbine's"""
    c = Consts(v)
    m = mesh2d()
    kind = v.choice('turbine', ('constant', 'table'))
    o = topt.TidalTurbineFarmOptions()
    o.turbine_type = kind
    dens = Function(FunctionSpace(m, 'CG', 1), name='dens')
    meas = dx(5, domain=m)
    f = tb.TidalTurbineFarm(dens, meas, o)
    v.check('turbine of the selected kind', type(f.turbine) is {'constant': tb.ConstantThrustTurbine, 'table': tb.TabulatedThrustTurbine}[kind])
    v.check('continuous farms: no upwind correction', f.turbine.upwind_correction is False)
    seen = []
    v.patch(tb, 'assemble', lambda form: seen.append(form) or 3.25)
    pw, fr = c('pw'), c('fr')
    v.patch(f.turbine, 'power', lambda a, b: (v.check('arguments', a == 'uv' and b == 'h'), pw)[1])
    v.patch(f.turbine, 'friction_coefficient', lambda a, b: (v.check('arguments', a == 'uv' and b == 'h'), fr)[1])
    v.check('number', f.number_of_turbines() == 3.25)
    v.check('power', f.power_output('uv', 'h') == 3.25)
    v.check('drag coefficient of the turbine', f.friction_coefficient('uv', 'h') is fr)
    d = v.real('dens')
    I = [uflsem.integrals(x, c.env) for x in seen]
    v.check('on the farm only', [list(i) for i in I] == [[('cell', 5)]] * 2)
    v.check('integral of the density', v.eq(I[0][('cell', 5)], d))
    v.check('integral of density times power', v.eq(I[1][('cell', 5)], d * c.val['pw']))
    v.cover()


@contract('C24', [T + 'MinimumDistanceConstraints.__init__', T + 'MinimumDistanceConstraints.length', T + 'MinimumDistanceConstraints.function',
                  T + 'MinimumDistanceConstraints.jacobian'], bounded='0 to 5 turbines, all positions')
def distances(v):
    """one constraint per pair: squared distance minus squared minimum; the Jacobian is its derivative"""
    n = v.choice('turbines', (0, 1, 2, 3, 4, 5))
    dmin = v.real('dmin', pos=True)
    m = v.reals('m', 2 * n)
    con = tb.MinimumDistanceConstraints([[0., 0.]] * n, dmin)
    if v.symbolic:
        from pyvc import symarr
        v.patch(tb, 'any', lambda x: False)
        v.patch(tb, 'numpy', Np())
        v.patch(tb, 'print_output', lambda *a, **k: None)
    else:
        v.patch(tb, 'print_output', lambda *a, **k: None)
        m = numpy.array(m)
    h = list(con.function(m))
    pairs = [(i, j) for i in range(n) for j in range(i)]
    v.check('one constraint per pair', len(h) == con.length() == len(pairs))
    want = [(m[2 * i] - m[2 * j])**2 + (m[2 * i + 1] - m[2 * j + 1])**2 - dmin**2 for i, j in pairs]
    # the order of the pairs is free: every pair occurs as often among the constraints as among the pairs (here: same order or a permutation found by value)
    order = match(v, h, want)
    v.check('squared distance minus squared minimum, every pair once', order is not None)
    J = con.jacobian(m)
    if not v.symbolic:
        v.check('shape', J.shape == (len(pairs), 2 * n))
    s = v.real('s', pos=True)
    for col in range(2 * n):
        up, dn = list(m), list(m)
        up[col], dn[col] = m[col] + s, m[col] - s
        hp, hm = list(con.function(up if v.symbolic else numpy.array(up))), list(con.function(dn if v.symbolic else numpy.array(dn)))
        for r in range(len(pairs)):
            v.check('derivative (central difference of a quadratic is exact)', v.eq(2 * s * J[r, col], hp[r] - hm[r]))
    v.cover()


def match(v, h, want):
    left = list(range(len(want)))
    out = []
    for x in h:
        for k in left:
            if core.ring.key(core.zreal(x)) == core.ring.key(core.zreal(want[k])) if v.symbolic else v.eq(x, want[k]):
                out.append(k)
                left.remove(k)
                break
        else:
            return None
    return out


class Mat:
    def __init__(self, shape):
        self.d, self.shape = {}, shape

    def _k(self, k):
        k = tuple(k)
        assert len(k) == len(self.shape) and all(0 <= i < n for i, n in zip(k, self.shape)), k
        return k

    def __getitem__(self, k): return self.d.get(self._k(k), 0)
    def __setitem__(self, k, x): self.d[self._k(k)] = x


class Vec(list):
    def __le__(self, o): return []


class Np:
    """numpy, for arrays with a concrete shape and symbolic entries"""
    def array(self, x): return Vec(x)
    def zeros(self, shape): return Mat(shape)
    def __getattr__(self, k): raise core.Unsupported('numpy.' + k)


@contract('C24', [T + 'TurbineFunctionalCallback.__init__', T + 'TurbineFunctionalCallback._evaluate_timestep', T + 'TurbineFunctionalCallback.__call__'], tol=1e-6)
def functional(v):
    """energy of each farm accumulates power times step; average over the elapsed time; profit over the break-even of its own turbines"""
    n = v.choice('farms', (1, 2, 3))
    steps = v.choice('first call', (True, False))
    m = mesh2d()
    uv, eta = Function(VectorFunctionSpace(m, 'DG', 1) * FunctionSpace(m, 'DG', 1)), None
    P, N, B = v.reals('P', n), v.reals('N', n), v.reals('B', n)
    depth = object()
    args = []
    farms = [SimpleNamespace(number_of_turbines=lambda i=i: N[i], power_output=lambda a, b, i=i: (args.append((a, b)), P[i])[1], break_even_wattage=B[i]) for i in range(n)]
    dt = v.real('dt', pos=True)
    made = []
    sol = SimpleNamespace(options=SimpleNamespace(timestep=dt, output_directory='x', simulation_initial_date=None),
                          fields=SimpleNamespace(solution_2d=uv, bathymetry_2d=depth), simulation_time=0., comm=None)

    def create():
        made.append(1)
        sol.tidal_farms = farms
    sol.create_equations = create
    if v.flag('equations exist'):
        sol.tidal_farms = farms
    v.patch(tb, 'print_output', lambda *a, **k: None)
    cb = tb.TurbineFunctionalCallback(sol, export_to_hdf5=False, append_to_log=v.flag('log'))
    v.check('equations created if needed', len(made) <= 1 and cb.farms is farms)
    E = [0] * n
    t = 0
    if not steps:                # an arbitrary earlier history
        t = v.real('t', pos=True)
        E = v.reals('E', n)
        v.check('starts empty', cb.time_period == 0 and list(cb.integrated_power) == [0] * n)
        cb.time_period = t
        cb.integrated_power = list(E)
    cur, av, prof = cb()
    v.check('elapsed time', v.eq(cb.time_period, t + dt))
    for i in range(n):
        v.check('current power', v.eq(cur[i], P[i]))
        v.check('instantaneous', v.eq(cb.instantaneous_power[i], P[i]))
        v.check('energy', v.eq(cb.integrated_power[i], E[i] + P[i] * dt))
        v.check('average power', v.eq(av[i] * (t + dt), E[i] + P[i] * dt))
        v.check('profit', v.eq(prof[i], av[i] - B[i] * N[i]))
    v.check('power of the current velocity', len(args) == n and all(a is cb.uv and b is depth for a, b in args))
    v.cover()


@contract('C24', [T + 'load_turbine'], kind='concrete', bounded='24 random turbine files (yaml, json; constant, table; with and without support structure)')
def files(v):
    r = random.Random(3)
    import yaml
    for n in range(24):
        d = dict(name='t%d' % n, diameter=r.uniform(5, 25))
        tab = n % 2
        if tab or r.random() < .5:
            d['turbine_thrust_def'] = 'table' if tab else 'constant'
        xs = sorted(r.uniform(.5, 5) for _ in range(4))
        if tab:
            d['curves'] = dict(speeds=xs, thrust=[r.random() for _ in xs], power=[r.random() for _ in xs])
        else:
            d['thrust_coefficient'], d['power_coefficient'] = r.uniform(.1, .9), r.uniform(.1, .5)
        if n % 3:
            d['support_structure'] = dict(type=r.choice(('bottom-fixed', 'floating')), rel_hub_height=r.uniform(5, 20), C_support=r.random(), A_support=r.uniform(1, 40))
        if n % 4:
            d['upwind_correction'] = bool(r.random() < .5)
        with tempfile.TemporaryDirectory() as tmp:
            p = os.path.join(tmp, 'a' + ('.json', '.yaml', '.yml')[n % 3])
            with open(p, 'w') as f:
                json.dump(d, f) if p.endswith('json') else yaml.safe_dump(d, f)
            sup, disc = bool(n % 5), bool(n % 7)
            o = tb.load_turbine(p, mesh2d(), include_support=sup, discrete=disc)
        t = o.turbine_options
        v.check('kind', type(o) is (topt.DiscreteTidalTurbineFarmOptions if disc else topt.TidalTurbineFarmOptions) and o.turbine_type == ('table' if tab else 'constant'))
        v.check('diameter', t.diameter == d['diameter'])
        if tab:
            v.check('curves', (t.thrust_speeds, t.thrust_coefficients, t.power_coefficients) == (d['curves']['speeds'], d['curves']['thrust'], d['curves']['power']))
        else:
            v.check('coefficients', (t.thrust_coefficient, t.power_coefficient) == (d['thrust_coefficient'], d['power_coefficient']))
        s = d.get('support_structure') if sup else None
        v.check('support', (t.C_support, t.A_support) == ((s['C_support'], s['A_support']) if s else (0., 0.)))
        if s:
            v.check('structure', (t.structure_type, t.rel_hub_height) == (s['type'], s['rel_hub_height']))
        if disc:
            v.check('upwind correction', o.upwind_correction is d.get('upwind_correction', True))
