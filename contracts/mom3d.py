"""Harness: the real 3D momentum equation."""
from firedrake import *
from thetis import momentum_eq
from pyvc import uflsem
from .swe import MARKERS
from .tracers import mesh3d

_M = {}


class Horizontal(uflsem.Field):
    """a vector field without vertical component"""
    def get(s, env, comp, derivs, r):
        return 0 if comp[-1] == 2 else uflsem.Field.get(s, env, comp, derivs, r)


class Mom3d:
    Horizontal = Horizontal

    def __init__(self, hfam, vfam, nl, lf, fric):
        m = self.mesh = mesh3d()
        p = 1
        el = TensorProductElement(FiniteElement(hfam, triangle, p), FiniteElement(vfam, interval, p))
        self.dg = hfam == 'DG'
        self.U = VectorFunctionSpace(m, el)
        P = FunctionSpace(m, TensorProductElement(FiniteElement('DG', triangle, 1), FiniteElement('DG', interval, 1)))
        self.V = VectorFunctionSpace(m, P.ufl_element())
        cg = FunctionSpace(m, 'CG', 1)
        F = lambda s, n: Function(s, name=n)
        self.bath, self.vh, self.hh = F(cg, 'bath'), F(cg, 'velem'), F(cg, 'helem')
        self.sipg, self.sipgv, self.lf = Constant(1.), Constant(1.), Constant(1.)
        self.eq = momentum_eq.MomentumEquation(self.U, bathymetry=self.bath, v_elem_size=self.vh, h_elem_size=self.hh, use_nonlinear_equations=nl,
                                               use_lax_friedrichs=lf, use_bottom_friction=fric, sipg_factor=self.sipg, sipg_factor_vertical=self.sipgv)
        self.uv, self.uvo = F(self.U, 'uv'), F(self.U, 'uvo')
        self.da, self.w, self.wm, self.eta = F(self.V, 'da'), F(self.V, 'w'), F(P, 'wm'), F(P, 'eta')
        self.pg, self.src, self.wind = F(self.V, 'pg'), F(self.V, 'src'), F(self.V, 'wind')
        self.nu, self.nuv, self.cor, self.ld, self.qd, self.z0 = (F(cg, n) for n in ('nu', 'nuv', 'cor', 'ld', 'qd', 'z0'))
        self.test = TestFunction(self.U)

    def env(self, v, uv=None, test=None, uvo=None, nuk='cg'):
        e = uflsem.Env(v, 3)
        for f, nm, val in ((self.uv, 'uv', uv), (self.uvo, 'uvo', uvo), (self.test, 't', test), (self.da, 'da', None), (self.pg, 'pg', None),
                           (self.src, 'src', None), (self.wind, 'wind', None)):
            if isinstance(val, uflsem.Field):
                e.fields[f] = val
            elif val is None:
                e.fields[f] = Horizontal(nm, 'dg')
            else:
                e.fields[f] = Horizontal(nm, 'dg', value=val)
        e.set(self.w, 'w', 'dg')
        e.set(self.wm, 'wm', 'dg')
        e.set(self.eta, 'eta', 'dg')
        e.set(self.cor, 'cor', 'cg')
        for f, nm in ((self.bath, 'bath'), (self.vh, 'velem'), (self.hh, 'helem'), (self.z0, 'z0')):
            e.set(f, nm, 'cg', pos=True)
        for f, nm in ((self.nu, 'nu'), (self.nuv, 'nuv')):
            e.set(f, nm, nuk, lo=0)
        for f, nm in ((self.ld, 'ld'), (self.qd, 'qd')):
            e.set(f, nm, 'cg', lo=0)
        for k, nm in ((self.sipg, 'sipg'), (self.sipgv, 'sipgv')):
            e.set(k, nm, 'const', pos=True)
        e.set(self.lf, 'lf', 'const', lo=0)
        for k in MARKERS:
            e.set(self.mesh.boundary_len[k], 'len%d' % k, 'const', pos=True)
        return e

    ALL = dict(da='uv_depth_av', w='w', wm='w_mesh', eta='eta', pg='int_pg', src='source', wind='wind_stress', nu='viscosity_h', nuv='viscosity_v',
               cor='coriolis', ld='linear_drag_coefficient', qd='quadratic_drag_coefficient', z0='bottom_roughness')

    def residual(self, *names, bnd=None, label='all', terms=None):
        f = {'lax_friedrichs_velocity_scaling_factor': self.lf, 'eta': self.eta}
        for n in names:
            f[self.ALL[n]] = getattr(self, n)
        if terms:
            r = 0
            for k, t in self.eq.terms.items():
                if any(x in k for x in terms):
                    r += t.residual(self.uv, self.uvo, f, f, bnd or {})
            return r
        return self.eq.residual(label, self.uv, self.uvo, f, f, bnd or {})


def mom3d(*a):
    if a not in _M:
        _M[a] = Mom3d(*a)
    return _M[a]
