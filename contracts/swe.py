"""Harness: the real 2D equations on a real (two-triangle) Firedrake mesh, their integrands read by pyvc.uflsem."""
from firedrake import *
import thetis
from thetis import shallowwater_eq as sw, options as topt, utility as tutil
from pyvc import uflsem

_MESH = {}
MARKERS = (1, 2, 3, 4)


def mesh2d(kind='triangle'):
    if kind not in _MESH:
        m = UnitSquareMesh(1, 1, quadrilateral=(kind != 'triangle'))
        m.boundary_len = {k: Constant(1.0 + k) for k in MARKERS}
        _MESH[kind] = m
    return _MESH[kind]


def spaces(m, family, p=1):
    if family in ('rt-dg', 'bdm-dg'):
        U = FunctionSpace(m, {'rt-dg': 'RTF', 'bdm-dg': 'BDMF'}[family] if m.ufl_cell().cellname == 'triangle' else 'RTCF', p + 1)
        H = FunctionSpace(m, 'DG' if m.ufl_cell().cellname == 'triangle' else 'DQ', p)
    elif family == 'dg-cg':
        U = VectorFunctionSpace(m, 'DG', p)
        H = FunctionSpace(m, 'CG', p + 1)
    else:
        D = 'DG' if m.ufl_cell().cellname == 'triangle' else 'DQ'
        U = VectorFunctionSpace(m, D, p)
        H = FunctionSpace(m, D, p)
    return U, H


KU = {'dg-dg': 'dg', 'rt-dg': 'hdiv', 'bdm-dg': 'hdiv', 'dg-cg': 'dg'}
KH = {'dg-dg': 'dg', 'rt-dg': 'dg', 'bdm-dg': 'dg', 'dg-cg': 'cg'}
FAMILIES = ('dg-dg', 'rt-dg', 'bdm-dg', 'dg-cg')
_EQ = {}


class Swe:
    """everything fixed (structure) is built once; the symbolic values are bound in `env`"""
    def __init__(self, family, nonlinear, wd, eqkind='full', farms=None, opts=None, degree=1):
        self.family, self.nonlinear, self.wd, self.eqkind = family, nonlinear, wd, eqkind
        m = self.mesh = mesh2d()
        U, H = self.U, self.H = spaces(m, family, degree)
        W = self.W = U * H
        self.bath = Function(FunctionSpace(m, 'CG', 1), name='bath')
        self.alpha = Constant(0.5)
        self.depth = tutil.DepthExpression(self.bath, use_nonlinear_equations=nonlinear, use_wetting_and_drying=wd,
                                           wetting_and_drying_alpha=self.alpha)
        self.options = topt.ModelOptions2d()
        self.options.use_nonlinear_equations = nonlinear
        for k, x in (opts or {}).items():
            setattr(self.options, k, x)
        self.smoother = Constant(0.1)
        self.sipg = Constant(3.0)
        self.lf = Constant(1.0)
        self.options.norm_smoother = self.smoother
        self.options.sipg_factor = self.sipg
        self.sol, self.sol_old = Function(W, name='sol'), Function(W, name='sol_old')
        if eqkind == 'full':
            self.eq = sw.ShallowWaterEquations(W, self.depth, self.options, tidal_farms=farms)
        elif eqkind == 'modesplit':
            self.eq = sw.ModeSplit2DEquations(W, self.depth, self.options)
        elif eqkind == 'freesurface':
            self.eta, self.eta_old = Function(H, name='eta'), Function(H, name='eta_old')
            self.uv, self.uv_old = Function(U, name='uv'), Function(U, name='uv_old')
            self.test = TestFunction(H)
            self.eq = sw.FreeSurfaceEquation(self.test, H, U, self.depth, self.options)
        elif eqkind == 'momentum':
            self.eta, self.eta_old = Function(H, name='eta'), Function(H, name='eta_old')
            self.uv, self.uv_old = Function(U, name='uv'), Function(U, name='uv_old')
            self.test = TestFunction(U)
            self.eq = sw.ShallowWaterMomentumEquation(self.test, U, H, self.depth, self.options, tidal_farms=farms)
        self.mixed = eqkind in ('full', 'modesplit')

    def env(self, v, uv=None, eta=None, uv_old=None, eta_old=None, utest=None, etest=None, bath_pos=True):
        """uv.. : None (free symbols) or functions (comp, side) -> value with zero gradient; utest/etest likewise"""
        e = uflsem.Env(v, 2)
        ku, kh = KU[self.family], KH[self.family]
        e.set(self.bath, 'bath', 'cg', pos=bath_pos)
        e.set(self.alpha, 'alpha', 'const', pos=True)
        e.set(self.smoother, 'smooth', 'const', pos=True)
        e.set(self.sipg, 'sipg', 'const', pos=True)
        e.set(self.lf, 'lf', 'const', lo=0)
        for k in MARKERS:
            e.set(self.mesh.boundary_len[k], 'len%d' % k, 'const', pos=True)

        def mixed(c, nm, fu, fe):
            def nmf(i):
                return nm[0] if i < 2 else nm[1]
            fs = [uflsem.Field(nm[0], ku), uflsem.Field(nm[0], ku), uflsem.Field(nm[1], kh)]

            class M(uflsem.Field):
                def get(s, env, comp, derivs, r):
                    i = comp[-1]
                    f = fu if i < 2 else fe
                    if f is not None:
                        if isinstance(f, uflsem.Field):
                            return f.get(env, (i,) if i < 2 else (), derivs, r)
                        return 0 if derivs else (f((i,), r) if i < 2 else f((), r))
                    return fs[i].get(env, (i,) if i < 2 else (), derivs, r)
            e.fields[c] = M(nm[0], 'dg')

        def single(c, nm, kind, f):
            if f is None:
                e.set(c, nm, kind)
            elif isinstance(f, uflsem.Field):
                e.fields[c] = f
            else:
                e.set(c, nm, kind, value=f)
        if self.mixed:
            mixed(self.sol, ('uv', 'eta'), uv, eta)
            mixed(self.sol_old, ('uvo', 'etao'), uv_old, eta_old)
            test = self.eq.test
            mixed(TestFunction(self.W), ('ut', 'et'), utest, etest)
        else:
            single(self.uv, 'uv', ku, uv)
            single(self.uv_old, 'uvo', ku, uv_old)
            single(self.eta, 'eta', kh, eta)
            single(self.eta_old, 'etao', kh, eta_old)
            if self.eqkind == 'momentum':
                single(self.test, 'ut', ku, utest)
                single(TestFunction(self.U), 'ut', ku, utest)
            else:
                single(self.test, 'et', kh, etest)
                single(TestFunction(self.H), 'et', kh, etest)
        return e

    def args(self):
        """(uv, eta, uv_old, eta_old) as ufl"""
        if self.mixed:
            return (*split(self.sol), *split(self.sol_old))
        return self.uv, self.eta, self.uv_old, self.eta_old

    def residual(self, label='all', fields=None, fields_old=None, bnd=None):
        fields, fields_old = dict(fields or {}), dict(fields_old if fields_old is not None else (fields or {}))
        fields_old.setdefault('lax_friedrichs_velocity_scaling_factor', self.lf)
        bnd = bnd or {}
        if self.mixed:
            return self.eq.residual(label, self.sol, self.sol_old, fields, fields_old, bnd)
        if self.eqkind == 'freesurface':
            fields['uv'] = self.uv
            fields_old['uv'] = self.uv_old
            return self.eq.residual(label, self.eta, self.eta_old, fields, fields_old, bnd)
        fields['eta'], fields_old['eta'] = self.eta, self.eta_old
        return self.eq.residual(label, self.uv, self.uv_old, fields, fields_old, bnd)

    def assume_depth(self, v, env, exprs=()):
        """precondition: positive total depth for the lagged elevation (cell and both facet sides)"""
        for r in (None, '+', '-'):
            for ex in exprs or (self.args()[3],):
                H = uflsem.evaluate(self.depth.get_total_depth(ex), env, r)
                v.assume(H > 0)
                if r is None:
                    H0 = H
        return H0

    def Hv(self, env, eta, r=None):
        return uflsem.evaluate(self.depth.get_total_depth(eta), env, r)


def swe(family, nonlinear, wd, eqkind='full', **k):
    key = (family, nonlinear, wd, eqkind, repr(sorted(k.items(), key=str)))
    if key not in _EQ:
        _EQ[key] = Swe(family, nonlinear, wd, eqkind, **k)
    return _EQ[key]


one = lambda comp, r: 1
zero = lambda comp, r: 0
DEPTHS = (('nonlinear', True, False), ('wd', True, True), ('linear', False, False))
