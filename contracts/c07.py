from firedrake import *
from thetis import utility
from pyvc import uflsem
from pyvc.contract import contract
from .swe import *

T = ['thetis.utility:DepthExpression.get_total_depth', 'thetis.utility:DepthExpression.wd_bathymetry_displacement',
     'thetis.utility:DepthExpression.__init__']


class Num:
    """DepthExpression on plain numbers: its `sqrt` is the UFL one, so numbers enter as constants of an environment"""


def depth(v, nl, wd, kind):
    m = mesh2d()
    b = Function(FunctionSpace(m, 'CG', 1), name='b')
    e1, e2 = Function(FunctionSpace(m, 'CG', 1), name='e1'), Function(FunctionSpace(m, 'CG', 1), name='e2')
    a = Constant(0.5) if kind == 'constant' else Function(FunctionSpace(m, 'CG', 1), name='a')
    d = utility.DepthExpression(b, use_nonlinear_equations=nl, use_wetting_and_drying=wd, wetting_and_drying_alpha=a)
    env = uflsem.Env(v, 2)
    env.set(b, 'b', 'cg')
    env.set(e1, 'e1', 'cg')
    env.set(e2, 'e2', 'cg')
    env.set(a, 'alpha', 'const' if kind == 'constant' else 'cg', pos=True)
    ev = lambda x: uflsem.evaluate(as_ufl(x), env) if not isinstance(x, (int, float)) else x
    return d, b, e1, e2, ev


@contract('C07', T)
def wetting_drying(v):
    nl = v.choice('nonlinear', (True, False))
    d, b, e1, e2, ev = depth(v, nl, True, v.choice('alpha', ('constant', 'field')))
    a = v.real('alpha', pos=True)
    H1, H2, f1, f2 = ev(d.get_total_depth(e1)), ev(d.get_total_depth(e2)), ev(d.wd_bathymetry_displacement(e1)), ev(d.wd_bathymetry_displacement(e2))
    x1, x2 = v.real('b') + v.real('e1'), v.real('b') + v.real('e2')
    v.check('displacement non-negative', v.le(0, f1))
    v.check('displacement <= alpha/2 where wet', v.implies(v.le(0, x1), v.le(f1, a / 2)) if not v.symbolic else v.implies(x1 >= 0, f1 <= a / 2))
    v.check('displacement solves f(f+x)=alpha^2/4', v.eq(f1 * (f1 + x1), a * a / 4))
    if nl:
        v.check('positive depth', H1 > 0)
        v.check('depth = plain depth + displacement', v.eq(H1, x1 + f1))
        v.check('not below the plain depth', v.le(x1, H1))
        v.check('excess at most alpha/2 when wet', v.implies(x1 >= 0, v.le(H1 - x1, a / 2)))
        v.check('monotone in elevation', v.implies(x1 <= x2, v.le(H1, H2)))
        if v.symbolic:
            v.check('strictly increasing in elevation', v.implies(x1 < x2, H1 < H2))
            v.check('displacement decreasing', v.implies(x1 < x2, f1 > f2))
    else:
        v.check('linear: bathymetry', v.eq(H1, v.real('b')))
    v.cover()


@contract('C07', T)
def without_wetting_drying(v):
    nl = v.choice('nonlinear', (True, False))
    d, b, e1, e2, ev = depth(v, nl, False, 'constant')
    H1 = ev(d.get_total_depth(e1))
    v.check('depth', v.eq(H1, v.real('b') + v.real('e1') if nl else v.real('b')))
    v.check('no displacement', v.eq(ev(d.wd_bathymetry_displacement(e1)), 0))
    v.cover()


@contract('C07', ['thetis.shallowwater_eq:ShallowWaterEquations.mass_term', 'thetis.shallowwater_eq:BathymetryDisplacementMassTerm.residual',
                  'thetis.shallowwater_eq:FreeSurfaceEquation.mass_term'])
def displacement_in_mass_term(v):
    """the mass term of the continuity equation carries the same displacement as the depth"""
    fam = v.choice('family', ('dg-dg', 'dg-cg'))
    nm, nl, wd = v.choice('depth', DEPTHS)
    ek = v.choice('equation', ('full', 'freesurface'))
    s = swe(fam, nl, wd, ek)
    env = s.env(v, utest=zero, etest=one)
    form = s.eq.mass_term(s.sol if s.mixed else s.eta)
    ints = uflsem.integrals(form, env)
    eta = s.args()[1]
    x = s.depth.wd_bathymetry_displacement(eta)
    f = uflsem.evaluate(x, env) if wd else 0
    v.check('mass = eta + displacement(eta)', v.eq(uflsem.total(ints, 'cell'), v.real('eta') + f))
    v.cover()
