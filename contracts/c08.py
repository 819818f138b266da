from firedrake import *
import itertools
from thetis import equation
from pyvc import uflsem, core
from pyvc.contract import contract
from .swe import swe, mesh2d
from .tracers import tracer2d, tracer3d
from .mom3d import mom3d
from .c10 import bed
from .common import raises

E = 'thetis.equation:Equation.'
G = [E + m for m in ('__init__', 'add_term', 'label_term', 'select_terms', 'residual', 'jacobian')]
LABELS = ('source', 'explicit', 'implicit', 'nonlinear')


def gls_equations():
    from thetis import turbulence
    t3 = tracer3d('DG', 'DG', True, False)
    o = type('O', (), dict(schmidt_nb_tke=1., schmidt_nb_psi=1.))()
    g = type('G', (), dict(options=o))()
    return [(n, cls(t3.Q, g, bathymetry=t3.bath, v_elem_size=t3.vh, h_elem_size=t3.hh)) for n, cls in (('tke', turbulence.TKEEquation), ('psi', turbulence.PsiEquation))]


_EQS = {}


def equations():
    if not _EQS:
        for k in ('full', 'modesplit', 'freesurface', 'momentum'):
            _EQS['swe-' + k] = swe('dg-dg', True, False, k)
        for cons in (False, True):
            _EQS['tracer2d-%d' % cons] = tracer2d('DG', 1, cons, True, False, False)
            _EQS['tracers2d-%d' % cons] = tracer2d('DG', 2, cons, True, False, False)
            b = bed(cons, True, False, True, True)
            _EQS['sediment-%d' % cons] = b.sed
            _EQS['exner-%d' % cons] = b.ex
        _EQS['tracer3d'] = tracer3d('DG', 'DG', True, False)
        _EQS['momentum3d'] = mom3d('DG', 'DG', True, False, True)
        for n, e in gls_equations():
            _EQS[n] = e
    return _EQS


NAMES = ('swe-full', 'swe-modesplit', 'swe-freesurface', 'swe-momentum', 'tracer2d-0', 'tracer2d-1', 'tracers2d-0', 'tracers2d-1', 'sediment-0', 'sediment-1',
         'exner-0', 'exner-1', 'tracer3d', 'momentum3d', 'tke', 'psi')
SW = 'thetis.shallowwater_eq:'


@contract('C08', G + [SW + c + '.residual' for c in ('ShallowWaterEquations', 'ModeSplit2DEquations', 'FreeSurfaceEquation', 'ShallowWaterMomentumEquation')]
          + [SW + 'BaseShallowWaterEquation.residual_uv_eta', SW + 'BaseShallowWaterEquation.add_momentum_terms', SW + 'BaseShallowWaterEquation.add_continuity_terms',
             'thetis.tracer_eq_2d:TracerEquation2D.__init__', 'thetis.tracer_eq:TracerEquation.__init__', 'thetis.momentum_eq:MomentumEquation.__init__',
             'thetis.turbulence:TKEEquation.__init__', 'thetis.turbulence:PsiEquation.__init__'], budget=200)
def partition(v):
    """every equation of the model: the residual for a selection of labels is the sum of its terms with those labels, whatever the terms evaluate to"""
    name = v.choice('equation', NAMES)
    h = equations()[name]
    eq = getattr(h, 'eq', h)
    v.check('every term has a supported label', set(eq.labels) == set(eq.terms) and all(x in LABELS for x in eq.labels.values()))
    v.check('has terms', len(eq.terms) > 0)
    fields, fields_old, bnd = {'uv': 'UV', 'eta': 'ETA', 'a': 1}, {'uv': 'UVO', 'eta': 'ETAO'}, {1: {}}
    mixed = name in ('swe-full', 'swe-modesplit')
    sol, sol_old = (h.sol, h.sol_old) if mixed else ('SOL', 'OLD')
    if mixed:
        aslist = v.flag('solution_as_list')
        exp = (('U', 'E') if aslist else tuple(split(sol))) + tuple(split(sol_old))
        sol = ['U', 'E'] if aslist else sol
    elif name == 'swe-freesurface':
        exp = ('UV', 'SOL', 'UVO', 'OLD')
    elif name == 'swe-momentum':
        exp = ('SOL', 'ETA', 'OLD', 'ETAO')
    else:
        exp = ('SOL', 'OLD')
    calls = []
    R = {}
    for k, t in eq.terms.items():
        R[k] = v.real('r_' + k)

        def stub(*a, k=k, **kw):
            calls.append((k, a, kw))
            return R[k]
        v.patch(t, 'residual', stub)
    if v.flag('relabelled'):
        # any later assignment of labels
        lab = {k: LABELS[(i * 7 + v.choice('shift', (0, 1, 2, 3))) % 4] for i, k in enumerate(eq.terms)}
        v.patch(eq, 'labels', dict(eq.labels))
        for k, x in lab.items():
            eq.label_term(k, x)
        v.check('labels as assigned', eq.labels == lab)
    sel = v.choice('selection', ('all',) + LABELS + (('source', 'explicit'), ['implicit', 'nonlinear'], frozenset(['explicit']), ()))
    want = LABELS if sel == 'all' else ((sel,) if isinstance(sel, str) else tuple(sel))
    got = eq.residual(sel, sol, sol_old, fields, fields_old, bnd)
    v.check('sum of the selected terms', v.eq(got, sum((R[k] for k in eq.terms if eq.labels[k] in want), 0)))
    v.check('each once', sorted(c[0] for c in calls) == sorted(k for k in eq.terms if eq.labels[k] in want))
    for k, a, kw in calls:
        full = list(a) + list(kw.values())
        v.check('arguments passed through', len(full) == len(exp) + 3 and all(x is y or x == y for x, y in zip(full, exp)))
        v.check('fields and boundary data', full[-3] is fields and full[-2] is fields_old and full[-1] is bnd)
    v.cover()


class T:
    def __init__(self, val): self.val = val

    def residual(self, *a, **k): return self.val
    def jacobian(self, *a, **k): return 2 * self.val


class T1(T): pass
class T2(T): pass


@contract('C08', G)
def labels(v):
    """adding and labelling terms: suffixes keep terms apart, unknown labels and terms are refused and change nothing"""
    eq = equation.Equation(FunctionSpace(mesh2d(), 'DG', 1))
    a, b, c = T1(v.real('a')), T2(v.real('b')), T1(v.real('c'))
    la, lb, lc = (v.choice('l' + x, LABELS) for x in 'abc')
    eq.add_term(a, la)
    eq.add_term(b, lb)
    eq.add_term(c, lc, suffix='s')
    v.check('kept apart', len(eq.terms) == 3 and eq.terms['T1'] is a and eq.terms['T2'] is b and eq.terms['T1_s'] is c)
    v.check('labels', eq.labels == {'T1': la, 'T2': lb, 'T1_s': lc})
    for l in LABELS:
        v.check('residual', v.eq(eq.residual(l, 0, 0, {}, {}, {}), sum((t.val for t, x in ((a, la), (b, lb), (c, lc)) if x == l), 0)))
        v.check('jacobian', v.eq(eq.jacobian(l, 0, 0, {}, {}, {}), sum((2 * t.val for t, x in ((a, la), (b, lb), (c, lc)) if x == l), 0)))
    new = v.choice('new', LABELS)
    before = dict(eq.labels)
    how = v.choice('how', ('one', 'several', 'unknown_label', 'unknown_term', 'unknown_label_many'))
    if how == 'one':
        eq.label_term('T2', new)
        v.check('one label changed', eq.labels == dict(before, T2=new))
    elif how == 'several':
        eq.label_term(('T1', 'T1_s'), new)
        v.check('several labels changed', eq.labels == dict(before, T1=new, T1_s=new))
    else:
        ex, _ = raises(eq.label_term, {'unknown_label': 'T1', 'unknown_term': 'T3', 'unknown_label_many': ['T1', 'T2']}[how], new if how == 'unknown_term' else 'nolabel')
        v.check('refused', isinstance(ex, AssertionError))
        v.check('nothing changed', eq.labels == before)
    v.cover()


@contract('C08', [E + 'mass_term'])
def mass(v):
    """the mass term is the L2 inner product with the test function"""
    kind = v.choice('space', ('scalar', 'vector', 'mixed'))
    m = mesh2d()
    Q = FunctionSpace(m, 'DG', 1)
    V = {'scalar': Q, 'vector': VectorFunctionSpace(m, 'DG', 1), 'mixed': Q * Q}[kind]
    eq = equation.Equation(V)
    f = Function(V)
    env = uflsem.Env(v, 2)
    env.set(f, 'f', 'dg')
    env.set(eq.test, 't', 'dg')
    r = uflsem.integrals(eq.mass_term(f), env)
    names = [''] if kind == 'scalar' else ['_0', '_1']
    v.check('cell', v.eq(uflsem.total(r, 'cell'), sum(v.real('f' + n) * v.real('t' + n) for n in names)))
    v.check('cells only', all(k[0] == 'cell' for k in r))
    v.cover()


I, X, S_ = 'implicit', 'explicit', 'source'
SWE_MOM = {'ExternalPressureGradientTerm': I, 'HorizontalAdvectionTerm': I, 'HorizontalViscosityTerm': X, 'CoriolisTerm': I, 'WindStressTerm': S_, 'AtmosphericPressureTerm': S_,
           'QuadraticDragTerm': I, 'LinearDragTerm': I, 'BoundaryDragTerm': I, 'BottomDrag3DTerm': S_, 'MomentumSourceTerm': S_}
SWE_CONT = {'HUDivTerm': I, 'ContinuitySourceTerm': S_}
TR = {'HorizontalAdvectionTerm': X, 'HorizontalDiffusionTerm': X, 'SourceTerm': S_}
CTR = {'Conservative' + k: x for k, x in TR.items()}
MODEL = {
    'swe-full': dict(SWE_MOM, **SWE_CONT), 'swe-momentum': SWE_MOM, 'swe-freesurface': SWE_CONT,
    'swe-modesplit': dict(SWE_CONT, ExternalPressureGradientTerm=I, CoriolisTerm=X, MomentumSourceTerm=S_, AtmosphericPressureTerm=S_),
    'tracer2d-0': {k + '_a_2d': x for k, x in TR.items()}, 'tracer2d-1': {k + '_a_2d': x for k, x in CTR.items()},
    'tracers2d-0': {k + l: x for k, x in TR.items() for l in ('_a_2d', '_b_2d')}, 'tracers2d-1': {k + l: x for k, x in CTR.items() for l in ('_a_2d', '_b_2d')},
    'sediment-0': {'SedimentAdvectionTerm': X, 'SedimentDiffusionTerm': X, 'SedimentErosionTerm': S_, 'SedimentDepositionTerm': I},
    'sediment-1': {'ConservativeSedimentAdvectionTerm': X, 'SedimentDiffusionTerm': X, 'SedimentErosionTerm': S_, 'SedimentDepositionTerm': I},
    'exner-0': {'ExnerSourceTerm': S_, 'ExnerBedloadTerm': I, 'ExnerSedimentSlideTerm': I}, 'exner-1': {'ExnerSourceTerm': S_, 'ExnerBedloadTerm': I, 'ExnerSedimentSlideTerm': I},
    'tracer3d': {'HorizontalAdvectionTerm': X, 'VerticalAdvectionTerm': X, 'HorizontalDiffusionTerm': X, 'VerticalDiffusionTerm': X, 'SourceTerm': S_},
    'momentum3d': {'PressureGradientTerm': S_, 'HorizontalAdvectionTerm': X, 'VerticalAdvectionTerm': X, 'HorizontalViscosityTerm': X, 'VerticalViscosityTerm': X,
                   'BottomFrictionTerm': X, 'LinearDragTerm': X, 'CoriolisTerm': X, 'SourceTerm': S_},
    'tke': {'TKESourceTerm': I, 'GLSVerticalDiffusionTerm': I}, 'psi': {'PsiSourceTerm': I, 'GLSVerticalDiffusionTerm': I}}


@contract('C08', [SW + 'BaseShallowWaterEquation.add_momentum_terms', SW + 'BaseShallowWaterEquation.add_continuity_terms', SW + 'ModeSplit2DEquations.add_momentum_terms',
                  SW + 'BaseShallowWaterEquation.__init__', SW + 'ShallowWaterEquations.__init__', SW + 'ModeSplit2DEquations.__init__', SW + 'FreeSurfaceEquation.__init__', SW + 'ShallowWaterMomentumEquation.__init__',
                                    'thetis.tracer_eq_2d:TracerEquation2D.__init__', 'thetis.tracer_eq_2d:TracerEquation2D.add_conservative_terms', 'thetis.tracer_eq_2d:TracerEquation2D.add_nonconservative_terms', 'thetis.tracer_eq:TracerEquation.__init__', 'thetis.momentum_eq:MomentumEquation.__init__', 'thetis.turbulence:TKEEquation.__init__', 'thetis.turbulence:PsiEquation.__init__'], budget=200, samples=4)
def model_terms(v):
    """every model equation consists of the documented mechanisms with their documented labels, turbine drag exactly when there are farms"""
    name = v.choice('equation', NAMES)
    h = equations()[name]
    eq = getattr(h, 'eq', h)
    v.check('mechanisms and labels', dict(eq.labels) == MODEL[name], repr(sorted(set(eq.labels.items()) ^ set(MODEL[name].items()))))
    for k, t in eq.terms.items():
        v.check('term under its own name', k == type(t).__name__ or k.startswith(type(t).__name__ + '_'), k)
    if name in ('swe-full', 'swe-momentum'):
        nf = v.choice('farms', (0, 1, 2))
        e2 = swe_with(name, nf)
        v.check('turbines', dict(e2.labels) == dict(MODEL[name], **({'TurbineDragTerm': I} if nf else {})), repr(nf))
    v.cover()


_FARMS = {}


def swe_with(name, nf):
    from thetis import shallowwater_eq as sw
    if (name, nf) not in _FARMS:
        h = equations()[name]
        from types import SimpleNamespace as NS
        fs = [NS(turbine_density=Constant(1.0), turbine_options=None, friction_coefficient=lambda *a: Constant(1.0), dx=dx, upwind_correction=False) for _ in range(nf)]
        _FARMS[name, nf] = (sw.ShallowWaterEquations(h.W, h.depth, h.options, tidal_farms=fs) if name == 'swe-full' else
                            sw.ShallowWaterMomentumEquation(h.test, h.U, h.H, h.depth, h.options, tidal_farms=fs))
    return _FARMS[name, nf]
