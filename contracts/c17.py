"""C17 options and containers: typed values, paired groups, frozen containers, field dictionaries."""
import datetime
import itertools
import math
import numpy
import pytz
import traitlets
import firedrake as fd
from firedrake import *
import ufl
import thetis
from thetis import configuration as cf, options as op, utility as ut
from thetis.field_defs import field_metadata
from pyvc import core
from pyvc.contract import contract
from .swe import mesh2d
from .common import raises

ASSUMPTIONS = [
    'traitlets (external): a trait stores what its validate returns and nothing when it raises; observers run after a change; Integer and Float accept exactly integers / real numbers',
    'a frozen container is written through attribute assignment (constructor keywords are screened by traitlets, which only warns)',
]
C = 'thetis.configuration:'
U = 'thetis.utility:'
NUM = {'PositiveInteger': (int, lambda x: x > 0), 'PositiveFloat': (float, lambda x: x > 0), 'NonNegativeInteger': (int, lambda x: x >= 0), 'NonNegativeFloat': (float, lambda x: x >= 0),
       'BoundedInteger': (int, None), 'BoundedFloat': (float, None)}


@contract('C17', [C + k + '.validate' for k in NUM] + [C + 'BoundedInteger.__init__', C + 'BoundedFloat.__init__'], samples=120)
def numbers(v):
    """a number is accepted exactly if it lies in the domain; an accepted one is read back, a refused one leaves the previous value"""
    nm = v.choice('trait', tuple(NUM))
    typ, dom = NUM[nm]
    val = (lambda n, **k: v.int(n, **k)) if typ is int else (lambda n, **k: v.real(n, **k))
    bnd = nm.startswith('Bounded')
    if bnd:
        lo, hi = val('lo'), val('hi')
        v.assume(v.le(lo, hi))
        ini = lo
        ok = lambda x: v.all([x >= lo, x <= hi])
        t = getattr(cf, nm)(0, bounds=[lo, hi])
    else:
        ini = val('initial', lo=1) if 'Pos' in nm else val('initial', lo=0)
        ok = (lambda x: x > 0) if 'Positive' in nm else (lambda x: x >= 0)
        t = getattr(cf, nm)(1)
    if v.symbolic:
        base = traitlets.Integer if typ is int else traitlets.Float
        v.patch(base, 'validate', lambda self, obj, x: x)
    if not v.symbolic and ini <= 0 and 'Positive' in nm:
        ini = 1
    T = type('T', (traitlets.HasTraits,), {'x': t})
    o = T()
    o.x = ini
    cur = ini
    for k in range(2):
        new = val('new%d' % k)
        ex, _ = raises(setattr, o, 'x', new)
        v.check('accepted exactly in the domain', v.iff(ex is None, ok(new)), '%s %r %r' % (nm, ex, new))
        v.check('refused with an error', ex is None or isinstance(ex, (traitlets.TraitError, AssertionError)))
        cur = new if ex is None else cur
        v.check('reads what was last accepted', v.eq(o.x, cur))
        v.check('keeps the kind', v.symbolic or isinstance(o.x, (int, float)))
    v.cover()


def pool():
    m = mesh2d()
    S, V, T = FunctionSpace(m, 'CG', 1), VectorFunctionSpace(m, 'CG', 1), TensorFunctionSpace(m, 'CG', 1)
    f, g, t, c = fd.Function(S), fd.Function(V), fd.Function(T), Constant(2.0)
    i = ufl.Index()
    tz = pytz.timezone('UTC')
    return [
        (1, 'int'), (0, 'int'), (-3, 'int'), (7, 'int'), (10**30, 'int'), (2.5, 'float'), (0.0, 'float'), (-0.0, 'float'), (-1e-30, 'float'), (1e-30, 'float'), (float('inf'), 'float'), (-float('inf'), 'float'),
        (float('nan'), 'float'), (numpy.float64(3.), 'float'), (None, None), ('3', None), ([1], None), ({}, 'dict'), ({'a': 1}, 'dict'), (numpy.array([1.]), None), (1 + 1j, None), (object(), None), (max, None),
        (c, 'scalar coefficient constant'), (Constant((1., 2.)), 'vector coefficient constant'), (Constant(((1., 2.), (3., 4.))), 'tensor coefficient constant'),
        (f, 'scalar coefficient'), (g, 'vector coefficient'), (t, 'tensor coefficient'), (f + c, 'scalar'), (f * g, 'vector'), (grad(g), 'tensor'), (div(g), 'scalar'), (g[0], 'scalar'), (as_vector([c, f]), 'vector'),
        (dot(t, g), 'vector'), (outer(g, g), 'tensor'), (g[i], 'free'), (t[i, 0], 'free'), (t[i, i], 'scalar'), (g[i]*g[i], 'scalar'), (conditional(f > 0, c, f), 'scalar'), (SpatialCoordinate(m), 'vector'),
        (FacetNormal(m), 'vector'), (f*dx, 'form'), (S, None), (m, None),
        (datetime.datetime(2000, 1, 1), None), (datetime.datetime(2000, 1, 1, tzinfo=tz), 'date'), (tz.localize(datetime.datetime(2001, 5, 1)), 'date'), (datetime.date(2000, 1, 1), None), ('a', None),
        ('b', None), (True, 'bool'),
    ]


def domain(nm):
    isn = lambda k: k in ('int', 'float')
    isi = lambda x, k: k == 'int' or (k == 'float' and math.isfinite(x) and x == int(x))
    return {
        'PositiveInteger': lambda x, k: isi(x, k) and x > 0 or k == 'bool', 'NonNegativeInteger': lambda x, k: isi(x, k) and x >= 0 or k == 'bool', 'BoundedInteger': lambda x, k: isi(x, k) and -1 <= x <= 7 or k == 'bool',
        'PositiveFloat': lambda x, k: isn(k) and x > 0 or k == 'bool', 'NonNegativeFloat': lambda x, k: isn(k) and x >= 0 or k == 'bool', 'BoundedFloat': lambda x, k: isn(k) and -1 <= x <= 2.5 or k == 'bool',
        'FiredrakeConstantTraitlet': lambda x, k: bool(k) and k.endswith('constant'), 'FiredrakeCoefficient': lambda x, k: bool(k) and 'coefficient' in k,
        'FiredrakeScalarExpression': lambda x, k: bool(k) and k.split()[0] == 'scalar', 'FiredrakeVectorExpression': lambda x, k: bool(k) and k.split()[0] == 'vector',
        'DatetimeTraitlet': lambda x, k: k == 'date', 'PETScSolverParameters': lambda x, k: k == 'dict',
    }[nm]


TRAITS = ('PositiveInteger', 'NonNegativeInteger', 'BoundedInteger', 'PositiveFloat', 'NonNegativeFloat', 'BoundedFloat', 'FiredrakeConstantTraitlet', 'FiredrakeCoefficient',
          'FiredrakeScalarExpression', 'FiredrakeVectorExpression', 'DatetimeTraitlet', 'PETScSolverParameters')


@contract('C17', [C + k + '.validate' for k in TRAITS], kind='concrete', bounded='54 values of all kinds in random order, every trait', samples=6)
def kinds(v):
    """every trait accepts exactly the kinds of its documented domain"""
    P = pool()
    for nm in TRAITS:
        t = getattr(cf, nm)
        trait = t(0, bounds=[-1, 7 if 'Int' in nm else 2.5]) if nm.startswith('Bounded') else t(1) if nm in NUM else t(None, allow_none=True) if 'PETSc' not in nm else t({})
        o = type('T', (cf.FrozenHasTraits,), {'x': trait, 'name': 'T'})()
        ok = domain(nm)
        cur = o.x
        none = nm not in NUM and 'PETSc' not in nm
        order = list(range(len(P)))
        v.rng.shuffle(order)
        for i in order:
            x, k = P[i]
            ex, _ = raises(setattr, o, 'x', x)
            want = ok(x, k) or (x is None and none)
            v.check('%s accepts exactly its kind' % nm, (ex is None) == bool(want), '%r (%s): %r' % (x, k, ex))
            v.check('refused with an error', ex is None or isinstance(ex, (traitlets.TraitError, AssertionError)))
            if ex is None:
                cur = x
            v.check('an integer option reads an integer', 'Integer' not in nm or isinstance(o.x, int), '%s %r' % (nm, o.x))
            v.check('reads what was last accepted', o.x is cur or (isinstance(cur, (int, float)) and (o.x == cur or (o.x != o.x and cur != cur))))


# ------------------------------------------------------------------ paired options

EX = dict(SSPRK33='Explicit%sTimeStepperOptions2d', ForwardEuler='Explicit%sTimeStepperOptions2d', BackwardEuler='SemiImplicit%sTimeStepperOptions2d', CrankNicolson='CrankNicolson%sTimeStepperOptions2d',
          DIRK22='SemiImplicit%sTimeStepperOptions2d', DIRK33='SemiImplicit%sTimeStepperOptions2d')
TR = {k: x % 'Tracer' for k, x in EX.items()}
PAIRS = [
    ('ModelOptions2d', 'swe_timestepper_type', 'swe_timestepper_options', dict({k: x % 'SWE' for k, x in EX.items()}, SteadyState='SteadyStateTimeStepperOptions2d', PressureProjectionPicard='PressureProjectionSWETimeStepperOptions2d',
                                                                            SSPIMEX='IMEXSWETimeStepperOptions2d'), 'CrankNicolson'),
    ('ModelOptions2d', 'tracer_timestepper_type', 'tracer_timestepper_options', dict(TR, SteadyState='SteadyStateTimeStepperOptions2d'), 'CrankNicolson'),
    ('SedimentModelOptions', 'sediment_timestepper_type', 'sediment_timestepper_options', TR, 'CrankNicolson'),
    ('SedimentModelOptions', 'exner_timestepper_type', 'exner_timestepper_options', TR, 'CrankNicolson'),
    ('NonhydrostaticModelOptions', 'free_surface_timestepper_type', 'free_surface_timestepper_options', TR, 'CrankNicolson'),
    ('ModelOptions3d', 'timestepper_type', 'timestepper_options', dict(LeapFrog='LeapFrogTimeStepperOptions3d', SSPRK22='SSPRKTimeStepperOptions3d'), 'SSPRK22'),
    ('ModelOptions3d', 'turbulence_model_type', 'turbulence_model_options', dict(gls='GLSModelOptions', pacanowski='PacanowskiPhilanderModelOptions'), 'gls'),
    ('ModelOptions3d', 'equation_of_state_type', 'equation_of_state_options', dict(full='EquationOfStateOptions', linear='LinearEquationOfStateOptions'), 'full'),
    ('TidalTurbineFarmOptions', 'turbine_type', 'turbine_options', dict(constant='ConstantTidalTurbineOptions', table='TabulatedTidalTurbineOptions'), 'constant'),
    ('DiscreteTidalTurbineFarmOptions', 'turbine_type', 'turbine_options', dict(constant='ConstantTidalTurbineOptions', table='TabulatedTidalTurbineOptions'), 'constant'),
]


@contract('C17', [C + 'attach_paired_options', C + 'PairedEnum.__init__'], bounded='histories of two choices in two containers', max_paths=20000)
def paired(v):
    """the group always is of the kind of the selected value, private to its container; choosing the current value again keeps the group and its settings; other values are refused"""
    cls, name, group, table, default = v.choice('pair', tuple(range(len(PAIRS)))), None, None, None, None
    cls, name, group, table, default = PAIRS[cls]
    K = getattr(op, cls)
    o, p = K(), K()
    kind = lambda x: type(getattr(x, group)).__name__
    how = v.choice('start', ('read', 'not read', 'constructor'))
    want = default
    if how == 'constructor':
        want = v.choice('first', tuple(table))
        o = K(**{name: want})
    if how != 'not read':
        v.check('initial group', kind(o) == table[want] and getattr(o, name) == want)
    for k in range(2):
        val = v.choice('value%d' % k, tuple(table) + ('nonsense',))
        before = getattr(o, group) if how != 'not read' else None
        ex, _ = raises(setattr, o, name, val)
        v.check('known values only', (ex is None) == (val != 'nonsense') and (ex is None or isinstance(ex, traitlets.TraitError)))
        if val != 'nonsense':
            same, want = val == want, val
            v.check('group of the chosen kind', kind(o) == table[want])
        else:
            same = True
        v.check('choice', getattr(o, name) == want)
        if before is not None:
            v.check('kept exactly if the choice is the same', (getattr(o, group) is before) == same)
    v.check('other container untouched', kind(p) == table[default] and getattr(p, name) == default and getattr(o, group) is not getattr(p, group))
    ex, _ = raises(setattr, o, group, 3)
    v.check('a group is an option group', isinstance(ex, traitlets.TraitError))
    v.cover()


def groups(o, seen=None, path='', depth=0):
    """all mutable option groups, dictionaries and lists reachable from an option container"""
    out = []
    names = {n for n in dir(type(o)) if not n.startswith('_')} | set(vars(o))
    for n in sorted(names):
        if n.startswith('_') or n in ('cross_validation_lock', 'config', 'parent', 'log'):
            continue
        try:
            x = getattr(o, n)
        except Exception:
            continue
        if isinstance(x, (cf.FrozenHasTraits, cf.FrozenConfigurable)):
            out += [(path + n, x)] + (groups(x, path=path + n + '.', depth=depth + 1) if depth < 4 else [])
        elif isinstance(x, (dict, list)):
            out.append((path + n, x))
    return out


@contract('C17', ['thetis.options:SSPRKTimeStepperOptions3d', 'thetis.options:LeapFrogTimeStepperOptions3d', 'thetis.options:ModelOptions2d.__init__'], kind='concrete', samples=1,
          bounded='all option classes of the module, all selectable groups')
def private(v):
    """two containers never share an option group, dictionary or list: settings of one run do not change those of another"""
    for nm in sorted(dir(op)):
        K = getattr(op, nm)
        if not (isinstance(K, type) and issubclass(K, (cf.FrozenHasTraits, cf.FrozenConfigurable))) or K in (cf.FrozenHasTraits, cf.FrozenConfigurable):
            continue
        ex, a = raises(K)
        if ex is not None:
            continue
        b = K()
        A, B = dict(groups(a)), dict(groups(b))
        v.check('same structure', set(A) == set(B), nm)
        for k in A:
            v.check('private settings', A[k] is not B[k], '%s.%s' % (nm, k))


# ------------------------------------------------------------------ frozen containers

def frozen_classes():
    class A(cf.FrozenHasTraits):
        name = 'A'
        x = cf.PositiveFloat(1.0)
        y = 3

    class B(cf.FrozenConfigurable):
        name = 'B'
        x = cf.PositiveFloat(1.0)
        y = 3

    class D(ut.FrozenClass):
        x = 1.0
        y = 3

        def __init__(self): self._isfrozen = True

    class E(ut.FrozenClass):
        x, y = 1.0, 3

        @ut.unfrozen
        def __init__(self): self.z0 = 1
    for c in (A, B, D, E):
        def write(self, k, val): setattr(self, k, val)

        def fail(self, k, val):
            setattr(self, k, val)
            raise ArithmeticError('inside')

        def nested(self, k, val):
            self.write(k, val)
            setattr(self, k + '_n', val)

        def nested_fail(self, k, val):
            try:
                self.fail(k, val)
            except ArithmeticError:
                pass
            setattr(self, k + '_n', val)
        for f in (write, fail, nested, nested_fail):
            setattr(c, f.__name__, ut.unfrozen(f))
    return A, B, D, E


@contract('C17', [C + 'FrozenHasTraits.__init__', C + 'FrozenHasTraits.__setattr__', C + 'FrozenConfigurable.__init__', C + 'FrozenConfigurable.__setattr__', U + 'FrozenClass.__setattr__', U + 'unfrozen'],
          bounded='histories of three operations')
def frozen(v):
    """outside methods marked as unfreezing an unknown name is always refused and a known one is written; also after such a method failed or was nested"""
    c = v.choice('class', (0, 1, 2, 3))
    kw = {'x': 4.0} if c < 2 and v.flag('constructed with a value') else {}
    o = frozen_classes()[c](**kw)
    v.check('constructor values', o.x == kw.get('x', 1.0))
    for k in range(3):
        act = v.choice('op%d' % k, ('known', 'unknown', 'write', 'fail', 'nested', 'nested_fail'))
        nm = 'new%d' % k
        if act == 'known':
            a = ('x', 'y')[k % 2]
            o.__setattr__(a, 2.5 + k)
            v.check('reads what was written', getattr(o, a) == 2.5 + k)
        elif act == 'unknown':
            ex, _ = raises(setattr, o, nm, 1)
            v.check('unknown name refused', isinstance(ex, TypeError) and not hasattr(o, nm))
        else:
            ex, _ = raises(getattr(o, act), nm, k)
            v.check('error handed on', isinstance(ex, ArithmeticError) if act == 'fail' else ex is None, repr(ex))
            v.check('written while unfrozen', getattr(o, nm, None) == k and (not act.startswith('nested') or getattr(o, nm + '_n', None) == k))
    ex, _ = raises(setattr, o, 'unknown_at_the_end', 1)
    v.check('frozen at the end', isinstance(ex, TypeError))
    v.cover()


@contract('C17', [U + 'unfrozen'])
def unfreeze(v):
    """at any depth of nesting, whether the method returns or raises: unfrozen inside, depth restored, frozen again exactly at the outermost level"""
    d = v.int('depth', lo=0)
    out = v.choice('outcome', ('returns', 'raises'))
    seen = []

    class A:
        _isfrozen = True

        @ut.unfrozen
        def f(self, a, b=0):
            seen.append((self._isfrozen, self._unfreezedepth, a, b))
            if out == 'raises':
                raise ArithmeticError('inside')
            return 'r'
    o = A()
    o._unfreezedepth = d
    o._isfrozen = v.eq(d, 0)
    ex, r = raises(o.f, 1, b=2)
    v.check('error handed on', isinstance(ex, ArithmeticError) if out == 'raises' else r == 'r')
    v.check('unfrozen inside, arguments passed', len(seen) == 1 and seen[0][0] is False and seen[0][2:] == (1, 2))
    v.check('one deeper inside', v.eq(seen[0][1], d + 1))
    v.check('depth restored', v.eq(o._unfreezedepth, d))
    v.check('frozen exactly outside', v.iff(o._isfrozen, v.eq(d, 0)))
    v.cover()


@contract('C17', [U + 'AttrDict.__init__', U + 'FieldDict.__setitem__', U + 'FieldDict.__setattr__', U + 'FieldDict._check_inputs', U + 'FieldDict._set_functionname'],
          bounded='histories of two assignments of seven kinds of values to three names', max_paths=20000)
def fields(v):
    """only functions and constants under known names (any name for mixed functions); a refused one leaves the dictionary as it was; item and attribute are the same entry; functions carry their name"""
    m = mesh2d()
    d = ut.FieldDict()
    S, V = FunctionSpace(m, 'CG', 1), VectorFunctionSpace(m, 'CG', 1)
    known = ('elev_2d', 'uv_2d')
    v.check('known fields', all(k in field_metadata for k in known))
    cur = {}
    for k in range(2):
        nm = v.choice('name%d' % k, ('elev_2d', 'uv_2d', 'mystery') if k else ('elev_2d', 'mystery'))
        what = v.choice('what%d' % k, ('scalar', 'vector', 'constant', 'mixed', 'number', 'expression', 'none') if k == 0 else ('scalar', 'constant', 'mixed', 'number'))
        x = {'scalar': lambda: fd.Function(S), 'vector': lambda: fd.Function(V), 'constant': lambda: Constant(1.0), 'mixed': lambda: fd.Function(V * S), 'number': lambda: 3.0,
             'expression': lambda: fd.Function(S) + 1, 'none': lambda: None}[what]()
        attr = v.flag('attribute%d' % k)
        ex, _ = raises(setattr if attr else d.__class__.__setitem__, d, nm, x)
        ok = what in ('scalar', 'vector', 'constant', 'mixed') and (nm in known or what == 'mixed')
        v.check('accepted exactly then', (ex is None) == ok, '%s %s %r' % (nm, what, ex))
        if ok:
            cur[nm] = x
            v.check('carries its name', what == 'constant' or x.name() == nm)
        v.check('reads what was last accepted', set(d) == set(cur) and all(d[q] is cur[q] and getattr(d, q) is cur[q] for q in cur))
    v.check('unknown entry is no attribute', isinstance(raises(getattr, d, 'nothing')[0], AttributeError) and isinstance(raises(lambda: d['nothing'])[0], KeyError))
    v.cover()


# ------------------------------------------------------------------ option methods

@contract('C17', [C + 'OptionsBase.update', C + 'OptionsBase.__str__'], bounded='paired groups with one changed setting')
def update(v):
    """after an update every option of the other container or dictionary reads the same, in particular the group of a paired choice with its settings, in whatever order the entries come"""
    a, b = op.ModelOptions2d(), op.ModelOptions2d()
    first = v.flag('group touched before')
    val = v.choice('type', ('CrankNicolson', 'SSPRK33', 'SSPIMEX', 'SteadyState'))
    if first:
        a.swe_timestepper_options.solver_parameters = {'x': 1}
    a.swe_timestepper_type = val
    a.swe_timestepper_options.solver_parameters = {'x': 2}
    a.timestep = v.choice('dt', (3.0, 0.5))
    how = v.choice('source', ('container', 'dictionary', 'dictionary reversed'))
    if how == 'container':
        b.update(a)
    else:
        d = [('swe_timestepper_type', a.swe_timestepper_type), ('timestep', a.timestep), ('swe_timestepper_options', a.swe_timestepper_options)]
        b.update(dict(d if how == 'dictionary' else d[::-1]))
    v.check('choice', b.swe_timestepper_type == val and b.timestep == a.timestep)
    v.check('group with its settings', type(b.swe_timestepper_options) is type(a.swe_timestepper_options) and b.swe_timestepper_options.solver_parameters == {'x': 2})
    v.check('unknown names refused', isinstance(raises(b.update, {'nonsense': 1})[0], TypeError))
    v.check('containers and dictionaries only', isinstance(raises(b.update, 3)[0], AssertionError))
    v.check('printable', 'timestep' in str(b))
    v.cover()


@contract('C17', ['thetis.options:ModelOptions2d.add_tracer_2d', 'thetis.options:ModelOptions2d.add_tracer_system_2d'], bounded='up to three tracers')
def tracers(v):
    """tracers are registered once under valid labels with exactly the given settings; those of a system under one common field; settings may be given for some of them only"""
    o = op.ModelOptions2d()
    case = v.choice('case', ('single', 'bad', 'system', 'system bad'))
    S = FunctionSpace(mesh2d(), 'DG', 1)
    if case == 'single':
        kw = {}
        f, c = fd.Function(S), Constant(2.0)
        if v.flag('source'):
            kw['source'] = c
        if v.flag('diffusivity'):
            kw['diffusivity'] = f
        if v.flag('function'):
            kw['function'] = f
        if v.flag('conservative'):
            kw['use_conservative_form'] = v.flag('conservative on')
        sh = v.choice('short', (None, 'S'))
        o.add_tracer_2d('a', 'A name', 'Fa', shortname=sh, unit='kg', **kw)
        t = o.tracer['a']
        v.check('settings', t.source is kw.get('source') and t.diffusivity is kw.get('diffusivity') and t.function is kw.get('function') and t.use_conservative_form == kw.get('use_conservative_form', False))
        v.check('metadata', t.metadata == {'name': 'A name', 'shortname': sh or 'A name', 'unit': 'kg', 'filename': 'Fa'})
        v.check('own field', list(o.tracer_fields) == ['a'] and o.tracer_fields['a'] is kw.get('function'))
        v.check('once', isinstance(raises(o.add_tracer_2d, 'a', 'B', 'Fb')[0], AssertionError) and list(o.tracer) == ['a'] and o.tracer['a'] is t)
    elif case == 'bad':
        args = v.choice('args', ((1, 'A', 'F'), ('a', 2, 'F'), ('a', 'A', None), ('a b', 'A', 'F'), ('a,b', 'A', 'F'), ('a', 'A', 'F F')))
        v.check('refused', isinstance(raises(o.add_tracer_2d, *args)[0], AssertionError) and not o.tracer and not o.tracer_fields)
    elif case == 'system':
        n = v.choice('n', (1, 2, 3))
        lab = ['t%d' % i for i in range(n)]
        fn = fd.Function(MixedFunctionSpace([S] * n)) if v.flag('function') and n > 1 else None
        which = [v.flag('kw%d' % i) for i in range(n)]
        kw = {l: {'source': Constant(float(i)), 'use_conservative_form': True} for i, l in enumerate(lab) if which[i]}
        give = {l: dict(x) for l, x in kw.items()}
        ex, _ = raises(o.add_tracer_system_2d, lab, ['N' + l for l in lab], ['F' + l for l in lab], function=fn, **give)
        v.check('accepted', ex is None, repr(ex))
        if ex is not None:
            return
        v.check('one common field', list(o.tracer_fields) == [','.join(lab)] and o.tracer_fields[','.join(lab)] is fn)
        v.check('in order', list(o.tracer) == lab)
        for i, l in enumerate(lab):
            t = o.tracer[l]
            v.check('own settings', t.source is kw.get(l, {}).get('source') and t.use_conservative_form == which[i] and t.metadata == {'name': 'N' + l, 'shortname': 'N' + l, 'unit': '-', 'filename': 'F' + l})
            v.check('own part of the function', (t.function is None) if fn is None else t.function is fn.subfunctions[i])
    else:
        k = v.choice('fault', ('unknown label', 'lengths'))
        ex, _ = raises(o.add_tracer_system_2d, ['a', 'b'], ['A', 'B'], ['F'] if k == 'lengths' else ['Fa', 'Fb'], **({'z': {}} if k != 'lengths' else {}))
        v.check('refused', isinstance(ex, AssertionError) and not o.tracer)
    v.cover()


@contract('C17', ['thetis.options:ModelOptions2d.set_timestepper_type', 'thetis.options:GLSModelOptions.apply_defaults'])
def methods(v):
    """one call sets the type and the settings of all active components; closure defaults are those of the named closure, unknown ones are refused"""
    if v.flag('closure'):
        nm = v.choice('name', ('k-epsilon', 'k-omega', 'Generic Length Scale', 'other'))
        o = op.GLSModelOptions()
        lim = o.limit_psi = not o.limit_psi
        ex, _ = raises(o.apply_defaults, nm)
        v.check('known closures', (ex is None) == (nm != 'other') and (ex is None or isinstance(ex, ValueError)))
        if ex is None:
            # psi = (cmu0)^p k^m l^n : dissipation, frequency, generic (Umlauf & Burchard)
            want = {'k-epsilon': (3, 1.5, -1.0), 'k-omega': (-1.0, .5, -1.0), 'Generic Length Scale': (2.0, 1.0, -.67)}[nm]
            v.check('exponents', (o.p, o.m, o.n) == want)
            v.check('others kept', o.limit_psi is lim)
        v.cover()
        return
    o = op.ModelOptions2d()
    sed, ex, nh = v.flag('sediment'), v.flag('exner'), v.flag('nh')
    o.sediment_model_options.solve_suspended_sediment, o.sediment_model_options.solve_exner, o.nh_model_options.solve_nonhydrostatic_pressure = sed, ex, nh
    t = v.choice('type', ('SSPRK33', 'DIRK22', 'CrankNicolson', 'nonsense'))
    par = {'k': 1}
    er, _ = raises(o.set_timestepper_type, t, **({'solver_parameters': par} if v.flag('settings') else {'ad_block_tag': 'q'}))
    v.check('known types', (er is None) == (t != 'nonsense'))
    if er is None:
        s, n = o.sediment_model_options, o.nh_model_options
        act = [(o.swe_timestepper_type, o.swe_timestepper_options, True), (o.tracer_timestepper_type, o.tracer_timestepper_options, True), (s.sediment_timestepper_type, s.sediment_timestepper_options, sed),
               (s.exner_timestepper_type, s.exner_timestepper_options, ex), (n.free_surface_timestepper_type, n.free_surface_timestepper_options, nh)]
        for ty, g, on in act:
            v.check('active components', not on or (ty == t and (g.solver_parameters == par or g.ad_block_tag == 'q')))
            v.check('others untouched', on or (ty == 'CrankNicolson' and g.solver_parameters != par and g.ad_block_tag is None))
    v.cover()
