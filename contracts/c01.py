"""C01 time loop."""
import datetime
from firedrake import UnitSquareMesh, ExtrudedMesh, FunctionSpace, Function
import thetis.solver2d as s2
import thetis.solver as s3
from thetis.options import ModelOptions2d, ModelOptions3d
from pyvc.contract import contract
from pyvc import loops, core, symdate, shim
from pyvc.core import PathEnd
from .common import OptView, raises

ASSUMPTIONS = [
    'print_state only prints (replaced by a no-op); the sub-steppers (timestepper.advance), CallbackManager.evaluate and '
    'exporter calls are replaced by recording stubs: their own contracts are C12/C13/C22/C03',
    'simulation_end_time comparison tolerance of the code (1e-5 s) accepted up to 1e-4 s',
    'time step and export interval positive',
]
_S = {}


def setup():
    m = UnitSquareMesh(1, 1)
    b = Function(FunctionSpace(m, 'CG', 1)).assign(1.0)
    _S['2d'] = s2.FlowSolver2d(m, b)
    m = UnitSquareMesh(1, 1)
    b = Function(FunctionSpace(m, 'CG', 1)).assign(1.0)
    _S['3d'] = s3.FlowSolver(m, b, 1)


class Spec:
    """Event automaton = the specification of the loop; the stubs feed it."""
    UNROLL = 3

    def __init__(self, v, s, dt, t0, it0, ie0, T, end, has_func):
        self.v, self.s, self.dt, self.t0, self.it0, self.ie0, self.T, self.end = v, s, dt, t0, it0, ie0, T, end
        self.n = 0            # completed advances
        self.k = 0            # completed exports (excluding initial)
        self.phase = 'done'
        self.exported = True  # export happened in the last step
        self.func = True
        self.has_func = has_func
        self.unrolled = 0

    @property
    def due(self):
        return self.t0 + (self.k + 1) * self.T

    @property
    def time(self):
        return self.t0 + self.n * self.dt

    def initial_done(self):
        want = (9, 3 if self.has_func else 2) if self.want_initial else (9, 0)
        self.v.check('initial state exported exactly when requested', self.initial in want)
        self.initial = 9

    def step_complete(self):
        v = self.v
        v.check('per-step diagnostics evaluated once after every step', self.phase == 'done')
        if not self.exported:
            v.check('export not missed: time still before the due export time', v.lt(self.time, self.due))
        v.check('user export hook called exactly with exports', self.func)
        v.check('iteration counter grows by one per step', v.eq(self.s.iteration, self.it0 + self.n))
        v.check('simulation time is start + n*dt', v.eq(self.s.simulation_time, self.time))
        v.check('export counter counts exports', v.eq(self.s.i_export, self.ie0 + self.k))

    # events
    def advance(self, t, *a):
        v = self.v
        self.step_complete()
        v.check('model advanced from the time at the start of the step', v.eq(t, self.time))
        self.initial_done()
        v.check('no step at or after the end time', v.lt(t, self.end))
        v.check('user forcing passed to the step', a == self.args)
        self.n = self.n + 1
        self.phase, self.exported, self.func = 'advanced', False, True
        self.unrolled += 1
        if v.symbolic and self.unrolled > self.UNROLL:
            core.eng().problems.append(('bounded', 'loop unrolled %d times without an invariant' % self.UNROLL, None))
            raise PathEnd()

    def evaluate(self, mode=None, index=None, **kw):
        v = self.v
        if mode == 'timestep':
            v.check('diagnostics after the advance of the same step', self.phase == 'advanced')
            v.check('diagnostics see the new time', v.eq(self.s.simulation_time, self.time))
            v.check('diagnostics see the new iteration', v.eq(self.s.iteration, self.it0 + self.n))
            self.phase = 'done'

    def export(self, time=None):
        v = self.v
        if self.initial in (1, 2) and self.initial: 
            v.check('initial export once', self.initial == 1)
            self.initial = 2
            v.check('initial export at start time', v.eq(time, self.t0))
            return
        v.check('export after step diagnostics', self.phase == 'done')
        v.check('at most one export per step', not self.exported)
        v.check('export at current time', v.eq(time, self.time))
        v.check('export only when due', v.le(self.due - core._frac(1e-4) if v.symbolic else self.due - 1e-4, time))
        self.k = self.k + 1
        self.exported = True
        self.func = not self.has_func
        v.check('export counter incremented before the export', v.eq(self.s.i_export, self.ie0 + self.k))

    def export_func(self):
        v = self.v
        if self.initial in (1, 2) and self.initial == 2: 
            self.initial = 3
            return
        v.check('user export hook once per export', not self.func)
        self.func = True

    def finish(self):
        v = self.v
        self.step_complete()
        v.check('loop ends only at the end time', v.le(self.end, self.s.simulation_time + (core._frac(1e-4) if v.symbolic else 1e-4)))


class CB:
    def __init__(self, spec):
        self.spec = spec

    def evaluate(self, mode=None, index=None, **kw):
        self.spec.evaluate(mode, index)

    def __iter__(self):
        return iter(())

    def add(self, *a, **k):
        pass

    def set_write_mode(self, *a):
        pass


class TS:
    def __init__(self, spec):
        self.advance = spec.advance


def run(v, kind):
    mod = s2 if kind == '2d' else s3
    real = _S[kind]
    cls = type(real)
    s = cls.__new__(cls)
    s.__dict__.update(real.__dict__)
    s.__dict__['_initialized'] = True
    t0 = v.real('t0', -1000, 100000) if not v.symbolic else v.real('t0')
    dt = v.real('dt', pos=True)
    T = v.real('export_interval', pos=True)
    it0 = v.int('iteration0', 0)
    ie0 = v.int('i_export0', 0)
    mode = v.choice('end_given', ['time', 'date', 'both'])
    export_initial = v.choice('export_initial', [True, False])
    has_func = v.choice('has_export_func', [True, False])
    end_t = v.real('end_time')
    over = dict(simulation_end_time=end_t if mode != 'date' else None, simulation_initial_date=None, simulation_end_date=None,
                simulation_export_time=T, check_volume_conservation_2d=False, no_exports=False)
    if not v.symbolic:
        n = v.int('nsteps', 0, 25)
        if v.values is None:
            fr = v.rng.choice([0, 0.25, 0.5])
            dt = v.used['dt'] = v.rng.choice([0.5, 1.0, 2.0, 7.5])
            T = v.used['export_interval'] = dt * v.rng.choice([1, 2, 2.5, 3, 0.75])
            t0 = v.used['t0'] = float(v.rng.choice([0, 3600, 12.5, -4]))
            end_t = v.used['end_time'] = t0 + (n + fr) * dt
            over['simulation_export_time'] = T
            if over['simulation_end_time'] is not None:
                over['simulation_end_time'] = end_t
    end = end_t
    if mode != 'time':
        span = v.real('date_span')      # end date - initial date in seconds
        if v.symbolic:
            d0 = v.real('init_date')
            over['simulation_initial_date'] = symdate.SymDate(d0)
            over['simulation_end_date'] = symdate.SymDate(d0 + span)
            v.assume(span > t0)
        else:
            if v.values is None:
                span = v.used['date_span'] = end_t
            span = v.used['date_span'] = round(span, 6)
            d0 = datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc)
            v.assume(span > t0 and abs(span) < 1e9)
            over['simulation_initial_date'] = d0
            over['simulation_end_date'] = d0 + datetime.timedelta(seconds=span)
        end = span
    if not v.symbolic:
        v.assume((end - t0) / dt <= 400)
        # boundary cases closer than the tolerance are not decided in floating point
        for a in (end,):
            x = (a - t0) / dt
            v.assume(abs(x - round(x)) * dt == 0 or abs(x - round(x)) * dt > 3e-4)
        x = T / dt
        v.assume(abs(x * 8 - round(x * 8)) < 1e-12 or v.values is not None)
    opts = OptView(_S['o2'] if kind == '2d' else _S['o3'], **over)
    spec = Spec(v, s, dt, t0, it0, ie0, T, end, has_func)
    spec.initial = 1 if export_initial else 0
    spec.want_initial = export_initial
    callbacks = CB(spec)
    s.__dict__.update(options=opts, simulation_time=t0, dt=dt, iteration=it0, i_export=ie0, next_export_t=t0 + T, callbacks=callbacks,
                      timestepper=TS(spec), exporters={}, export_initial_state=export_initial, export=spec.export,
                      print_state=lambda *a, **k: None)
    if kind == '3d':
        s.__dict__['_simulation_continued'] = False
    if v.symbolic:
        v.patch(mod, 'datetime', symdate.Module())

    def inv(L):
        s_ = s
        return [('time = start + n*dt', v.eq(s_.simulation_time, spec.time)),
                ('iteration', v.eq(s_.iteration, it0 + spec.n)),
                ('i_export', v.eq(s_.i_export, ie0 + spec.k)),
                ('next export time' if kind == '3d' else 'trivial', v.eq(s_.next_export_t, spec.due) if kind == '3d' else True),
                ('n >= 0', v.le(0, spec.n)), ('k >= 0', v.le(0, spec.k)),
                ('step complete', spec.phase == 'done' and spec.func is True),
                ('no export missed', v.implies(v.not_(spec.exported), v.lt(spec.time, spec.due)))]

    def state(L):
        spec.n = v.havoc_int('n')
        spec.k = v.havoc_int('k')
        spec.exported = core.SBool(core.z3.Bool(core.eng().fresh_name('exported')))
        spec.phase, spec.func = 'done', True
        spec.unrolled = 0
        s.__dict__.update(simulation_time=v.havoc_real('time'), iteration=v.havoc_int('it'), i_export=v.havoc_int('ie'),
                          next_export_t=v.havoc_real('next'))
        spec.initial_done()

    def cands(x, x0, L):
        return [('x - x0 == n', v.eq(x - x0, spec.n)), ('x - x0 == k*T', v.eq(x - x0, spec.k * T)), ('x - x0 == k', v.eq(x - x0, spec.k)),
                ('x - x0 == n*dt', v.eq(x - x0, spec.n * dt)), ('x == x0', v.eq(x, x0)),
                ('x0 - x == n*dt', v.eq(x0 - x, spec.n * dt)), ('x0 - x == n', v.eq(x0 - x, spec.n))]
    if v.symbolic:
        for q in (('FlowSolver2d.create_iterator', 'while', 0), ('FlowSolver.iterate', 'while', 0), ('FlowSolver2d.iterate', 'while', 0)):
            loops.SPECS[q] = loops.LoopSpec(inv, v, state=state, cands=cands)
    upd, upd3 = object(), object()
    ef = spec.export_func if has_func else None
    spec.args = (upd,) if kind == '2d' else (upd, upd3)
    try:
        if kind == '2d':
            if not v.symbolic and v.bool('via_iterate'):
                s.iterate(update_forcings=upd, export_func=ef)
            else:
                for _ in s.create_iterator(update_forcings=upd, export_func=ef):
                    pass
        else:
            s.iterate(update_forcings=upd, update_forcings3d=upd3, export_func=ef)
    finally:
        loops.SPECS.clear()
    spec.initial_done()
    spec.finish()
    v.cover('loop exit reached')


def _setup2():
    setup()
    _S['o2'], _S['o3'] = _S['2d'].options, _S['3d'].options


@contract('C01', ['thetis.solver2d:FlowSolver2d.create_iterator', 'thetis.solver2d:FlowSolver2d.iterate'], setup=_setup2, samples=60)
def time_loop_2d(v):
    run(v, '2d')


@contract('C01', ['thetis.solver:FlowSolver.iterate'], setup=_setup2, samples=60)
def time_loop_3d(v):
    run(v, '3d')
