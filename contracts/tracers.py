"""Harness: real 2D and 3D tracer equations."""
from firedrake import *
from thetis import tracer_eq_2d, tracer_eq, options as topt, utility as tutil
from pyvc import uflsem
from .swe import mesh2d, MARKERS, DEPTHS

_T = {}


class Tracer2d:
    def __init__(self, space, nsys, cons, nl, wd, lf, supg=False):
        m = self.mesh = mesh2d()
        Q1 = FunctionSpace(m, space, 1)
        self.labels = ['a_2d', 'b_2d'][:nsys]
        self.Q = Q1 if nsys == 1 else MixedFunctionSpace([Q1] * nsys)
        self.kind = space.lower()
        o = self.options = topt.ModelOptions2d()
        o.use_nonlinear_equations = nl
        o.use_lax_friedrichs_tracer = lf
        self.sipg = Constant(5.)
        o.sipg_factor_tracer = self.sipg
        self.c, self.c_old = Function(self.Q, name='c'), Function(self.Q, name='c_old')
        if nsys == 1:
            o.add_tracer_2d('a_2d', 'A', 'A2d', function=self.c, use_conservative_form=cons)
        else:
            o.add_tracer_system_2d(self.labels, ['A', 'B'], ['A2d', 'B2d'], function=self.c,
                                   **{l: dict(use_conservative_form=cons) for l in self.labels})
        self.bath = Function(FunctionSpace(m, 'CG', 1), name='bath')
        self.alpha = Constant(0.5)
        self.depth = tutil.DepthExpression(self.bath, use_nonlinear_equations=nl, use_wetting_and_drying=wd, wetting_and_drying_alpha=self.alpha)
        self.uv = Function(VectorFunctionSpace(m, 'DG', 1), name='uv')
        self.elev = Function(FunctionSpace(m, 'DG', 1), name='elev')
        self.corr = Function(FunctionSpace(m, 'CG', 1), name='corr')
        self.lf = Constant(1.0)
        self.K = [Function(FunctionSpace(m, 'CG', 1), name='K%d' % i) for i in range(nsys)]
        self.S = [Function(FunctionSpace(m, 'DG', 1), name='S%d' % i) for i in range(nsys)]
        self.nsys, self.cons, self.nl, self.wd = nsys, cons, nl, wd
        if supg:
            o.use_supg_tracer = True
            self.U, self.D = o.horizontal_velocity_scale, o.horizontal_diffusivity_scale = Constant(1.0), Constant(1.0)
        self.eq = tracer_eq_2d.TracerEquation2D(','.join(self.labels), self.Q, self.depth, o, self.uv)
        self.test = TestFunction(self.Q)

    def env(self, v, c=None, test=None, uv=None, uvk='dg', kk='cg', corr=None):
        """c, test: functions (component, side) -> value (zero gradient) or Field or None"""
        e = uflsem.Env(v, 2)
        for f, nm, val in ((self.c, 'c', c), (self.c_old, 'co', None), (self.test, 't', test)):
            if val is None:
                e.set(f, nm, self.kind)
            elif isinstance(val, uflsem.Field):
                e.fields[f] = val
            else:
                e.set(f, nm, self.kind, value=val)
        e.set(self.bath, 'bath', 'cg', pos=True)
        e.set(self.alpha, 'alpha', 'const', pos=True)
        e.set(self.sipg, 'sipg', 'const', pos=True)
        e.set(self.lf, 'lf', 'const', lo=0)
        e.set(self.elev, 'elev', 'dg')
        if corr is None:
            e.set(self.corr, 'corr', 'cg', lo=0)
        else:
            e.set(self.corr, 'corr', 'cg', value=corr)
        if uv is None:
            e.set(self.uv, 'uv', uvk)
        else:
            e.set(self.uv, 'uv', uvk, value=uv)
        for i in range(self.nsys):
            e.set(self.K[i], 'K%d' % i, kk, lo=0)
            e.set(self.S[i], 'S%d' % i, 'dg')
        for k in MARKERS:
            e.set(self.mesh.boundary_len[k], 'len%d' % k, 'const', pos=True)
        for r in (None, '+', '-'):
            v.assume(uflsem.evaluate(self.depth.get_total_depth(self.elev), e, r) > 0)
        return e

    def fields(self, adv=True, diff=False, src=False):
        f = {'elev_2d': self.elev, 'tracer_advective_velocity_factor': self.corr, 'lax_friedrichs_tracer_scaling_factor': self.lf}
        f['uv_2d'] = self.uv if adv else None
        for i, l in enumerate(self.labels):
            if diff:
                f['diffusivity_h-' + l] = self.K[i]
            if src:
                f['source-' + l] = self.S[i]
        return f

    def residual(self, bnd=None, label='all', **k):
        f = self.fields(**k)
        if k.get('diff') and not k.get('adv', True):
            # diffusion only, with a velocity for the boundary treatment
            f['uv_2d'] = self.uv
            r = 0
            for key, t in self.eq.terms.items():
                if 'Diffusion' in key:
                    r += t.residual(self.c, self.c_old, f, f, bnd or {})
            return r
        return self.eq.residual(label, self.c, self.c_old, f, f, bnd or {})


def tracer2d(*a):
    if a not in _T:
        _T[a] = Tracer2d(*a)
    return _T[a]


_M3 = []


def mesh3d():
    if not _M3:
        m2 = mesh2d()
        m = ExtrudedMesh(m2, 1, layer_height=1.0)
        m.boundary_len = m2.boundary_len
        _M3.append(m)
    return _M3[0]


class Tracer3d:
    def __init__(self, hfam, vfam, symm, lf, p=1):
        m = self.mesh = mesh3d()
        h = FiniteElement(hfam, triangle, p)
        w = FiniteElement(vfam, interval, p)
        self.Q = FunctionSpace(m, TensorProductElement(h, w))
        dg = TensorProductElement(FiniteElement('DG', triangle, 1), FiniteElement('DG', interval, 1))
        P = FunctionSpace(m, dg)
        self.V = VectorFunctionSpace(m, dg)
        cg = FunctionSpace(m, 'CG', 1)
        self.hdg, self.vdg = hfam == 'DG', vfam == 'DG'
        self.bath = Function(cg, name='bath')
        self.sipg, self.sipgv, self.lf = Constant(1.), Constant(1.), Constant(1.)
        self.vh, self.hh = Function(cg, name='velem'), Function(cg, name='helem')
        self.eq = tracer_eq.TracerEquation(self.Q, bathymetry=self.bath, v_elem_size=self.vh, h_elem_size=self.hh,
                                           use_symmetric_surf_bnd=symm, use_lax_friedrichs=lf, sipg_factor=self.sipg,
                                           sipg_factor_vertical=self.sipgv)
        self.symm, self.lfon = symm, lf
        self.c, self.c_old = Function(self.Q, name='c'), Function(self.Q, name='co')
        self.uv, self.uvda, self.w = Function(self.V, name='uv'), Function(self.V, name='uvda'), Function(self.V, name='w')
        self.wm, self.elev = Function(P, name='wm'), Function(P, name='elev')
        self.K, self.Kv, self.S = Function(cg, name='K'), Function(cg, name='Kv'), Function(P, name='S')
        self.test = TestFunction(self.Q)

    def kind(self):
        return 'dg' if self.hdg or self.vdg else 'cg'

    def env(self, v, c=None, test=None, kk='cg'):
        e = uflsem.Env(v, 3)
        for f, nm, val in ((self.c, 'c', c), (self.c_old, 'co', None), (self.test, 't', test)):
            if val is None:
                e.set(f, nm, 'dg')
            elif isinstance(val, uflsem.Field):
                e.fields[f] = val
            else:
                e.set(f, nm, 'dg', value=val)
        hz = lambda nm: uflsem.Field(nm, 'dg')

        class Horizontal(uflsem.Field):
            def get(s, env, comp, derivs, r):
                return 0 if comp[-1] == 2 else uflsem.Field.get(s, env, comp, derivs, r)
        e.fields[self.uv] = Horizontal('uv', 'dg')
        e.fields[self.uvda] = Horizontal('uvda', 'dg')
        e.set(self.w, 'w', 'dg')
        e.set(self.wm, 'wm', 'dg')
        e.set(self.elev, 'elev', 'dg')
        e.set(self.bath, 'bath', 'cg', pos=True)
        for k, nm in ((self.sipg, 'sipg'), (self.sipgv, 'sipgv')):
            e.set(k, nm, 'const', pos=True)
        e.set(self.lf, 'lf', 'const', lo=0)
        e.set(self.K, 'K', kk, lo=0)
        e.set(self.Kv, 'Kv', kk, lo=0)
        e.set(self.S, 'S', 'dg')
        for k in MARKERS:
            e.set(self.mesh.boundary_len[k], 'len%d' % k, 'const', pos=True)
        return e

    def fields(self, adv=False, da=False, vert=False, wm=False, diff=False, diffv=False, src=False):
        f = {'elev_3d': self.elev, 'lax_friedrichs_tracer_scaling_factor': self.lf, 'uv_depth_av': self.uvda if da else None}
        if adv:
            f['uv_3d'] = self.uv
        if vert:
            f['w'] = self.w
        if wm:
            f['w_mesh'] = self.wm
        if diff:
            f['diffusivity_h'] = self.K
        if diffv:
            f['diffusivity_v'] = self.Kv
        if src:
            f['source'] = self.S
        return f

    def residual(self, bnd=None, label='all', **k):
        f = self.fields(**k)
        return self.eq.residual(label, self.c, self.c_old, f, f, bnd or {})


_T3 = {}


def tracer3d(*a):
    if a not in _T3:
        _T3[a] = Tracer3d(*a)
    return _T3[a]
