From 03c79cc981278cb6fc5ad51dcf74a991b345c819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 01/60] fix: interpret the start time as seconds (not days)
 when computing the end time from dates

---
 thetis/solver.py   | 2 +-
 thetis/solver2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index 7083b8e..b37038e 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -1293,7 +1293,7 @@ class FlowSolver(FrozenClass):
         init_date = self.options.simulation_initial_date
         end_date = self.options.simulation_end_date
         if (init_date is not None and end_date is not None):
-            now = init_date + datetime.timedelta(initial_simulation_time)
+            now = init_date + datetime.timedelta(seconds=initial_simulation_time)
             assert end_date > now, f'Simulation end date must be greater than initial time {now}'
             print_output(
                 f'Running simulation\n'
diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index ef5a31b..79a34df 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -1090,7 +1090,7 @@ class FlowSolver2d(FrozenClass):
         init_date = self.options.simulation_initial_date
         end_date = self.options.simulation_end_date
         if (init_date is not None and end_date is not None):
-            now = init_date + datetime.timedelta(initial_simulation_time)
+            now = init_date + datetime.timedelta(seconds=initial_simulation_time)
             assert end_date > now, f'Simulation end date must be greater than initial time {now}'
             print_output(
                 f'Running simulation\n'
-- 
2.43.0


From 797335326f7a500d68f51e8bf131f273d6efb5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 02/60] fix: load_state falls back to iteration*dt when the
 stored state has no time

---
 thetis/solver.py   | 5 ++++-
 thetis/solver2d.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index b37038e..67aa1d2 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -1106,7 +1106,10 @@ class FlowSolver(FrozenClass):
             iteration = int(numpy.ceil(self.next_export_t/self.dt))
         if t is None:
             # prefer metadata time if available
-            t = metadata.get('time', iteration * self.dt)
+            t = metadata.get('time')
+            if t is None:
+                # no time stored in the file
+                t = iteration*self.dt
         self.iteration = iteration
         self.simulation_time = t
 
diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index 79a34df..53b0f01 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -896,7 +896,10 @@ class FlowSolver2d(FrozenClass):
             iteration = int(numpy.ceil(self.next_export_t/self.dt))
         if t is None:
             # prefer metadata time if available
-            t = metadata.get('time', iteration * self.dt)
+            t = metadata.get('time')
+            if t is None:
+                # no time stored in the file
+                t = iteration*self.dt
             if 'initial_time_iso' in metadata and metadata['initial_time_iso'] is not None:
                 initial_time = metadata['initial_time_iso']
                 if isinstance(initial_time, str):
-- 
2.43.0


From f48f5927c4e9752fb51565fa841549d2f1b3c238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 03/60] fix: VTKExporter numbers its files from the
 next_export_ix it was created with

---
 thetis/exporter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thetis/exporter.py b/thetis/exporter.py
index 4eb5001..0ad9fc0 100644
--- a/thetis/exporter.py
+++ b/thetis/exporter.py
@@ -91,6 +91,7 @@ class VTKExporter(ExporterBase):
             self.filename += suffix
         path = os.path.join(path, self.filename)
         self.outfile = VTKFile(path)
+        self.set_next_export_ix(next_export_ix)
         self.cast_operators = {}
 
     def set_next_export_ix(self, next_export_ix):
-- 
2.43.0


From 3756a734191394f4cd652e10c125968156544a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 04/60] fix: ExportManager instances do not share their
 pre-processing callbacks

---
 thetis/exporter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/exporter.py b/thetis/exporter.py
index 0ad9fc0..88b2430 100644
--- a/thetis/exporter.py
+++ b/thetis/exporter.py
@@ -263,7 +263,7 @@ class ExportManager(object):
     def __init__(self, outputdir, fields_to_export, functions, field_metadata,
                  export_type='vtk', next_export_ix=0, verbose=False,
                  legacy_mode=False,
-                 preproc_funcs={},
+                 preproc_funcs=None,
                  include_time=False, initial_time=None):
         """
         :arg string outputdir: directory where files are stored
@@ -284,7 +284,7 @@ class ExportManager(object):
         self.functions.update(functions)
         self.field_metadata = field_metadata
         self.verbose = verbose
-        self.preproc_callbacks = preproc_funcs
+        self.preproc_callbacks = {} if preproc_funcs is None else preproc_funcs
         self.include_time = include_time
         self.initial_time = initial_time
         # for each field create an exporter
-- 
2.43.0


From 5fcb99d350b6d26b315711c74021ecefb3732f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 05/60] fix: VTKExporter tests the end (not the start) of the
 file name for the .pvd suffix

---
 thetis/exporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/exporter.py b/thetis/exporter.py
index 88b2430..8d8330c 100644
--- a/thetis/exporter.py
+++ b/thetis/exporter.py
@@ -87,7 +87,7 @@ class VTKExporter(ExporterBase):
         suffix = '.pvd'
         path = os.path.join(outputdir, filename)
         # append suffix if missing
-        if (len(filename) < len(suffix)+1 or filename[:len(suffix)] != suffix):
+        if not filename.endswith(suffix):
             self.filename += suffix
         path = os.path.join(path, self.filename)
         self.outfile = VTKFile(path)
-- 
2.43.0


From 43c16548b319f65d5440646de999919cd693b498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 06/60] fix: reject an invalid shallow water boundary tag also
 when it follows a valid one

---
 thetis/shallowwater_eq.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/thetis/shallowwater_eq.py b/thetis/shallowwater_eq.py
index cec728c..88cf9ca 100644
--- a/thetis/shallowwater_eq.py
+++ b/thetis/shallowwater_eq.py
@@ -291,9 +291,7 @@ class ShallowWaterTerm(Term):
             if k not in all_tags:
                 raise Exception(f'Invalid boundary tag "{k}" '
                                 f'specified on boundary {bnd_id}')
-            if k in open_tags:
-                return True
-        return False
+        return any(k in open_tags for k in bnd_funcs.keys())
 
 
 class ShallowWaterMomentumTerm(ShallowWaterTerm):
-- 
2.43.0


From 4e025f30e5a6f1a60a04f672e5d219b90dbd723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 07/60] fix: name the boundary (not an undefined variable) in
 the unsupported boundary data error

---
 thetis/shallowwater_eq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/shallowwater_eq.py b/thetis/shallowwater_eq.py
index 88cf9ca..f0fe643 100644
--- a/thetis/shallowwater_eq.py
+++ b/thetis/shallowwater_eq.py
@@ -268,7 +268,7 @@ class ShallowWaterTerm(Term):
         if eta_ext is None or uv_ext is None:
             raise Exception('Unsupported bnd type, one of "elev", "uv", "un", '
                             'or "flux" must be defined on boundary '
-                            f'{bnd_marker}: {funcs}')
+                            f'{bnd_id}: {funcs}')
         return eta_ext, uv_ext
 
     def impose_dynamic_bnd(self, bnd_funcs, bnd_id):
-- 
2.43.0


From 68482d6c8fcbfb62dae6f20e3c98fa136c9d33a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 08/60] fix: apply the tracer velocity factor to a prescribed
 normal boundary velocity too

---
 thetis/tracer_eq_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/tracer_eq_2d.py b/thetis/tracer_eq_2d.py
index 02464c7..3db3ee0 100644
--- a/thetis/tracer_eq_2d.py
+++ b/thetis/tracer_eq_2d.py
@@ -108,7 +108,7 @@ class TracerTerm(Term):
             area = h_ext*self.boundary_len[bnd_id]  # NOTE using external data only
             uv_ext = self.corr_factor * funcs['flux']/area*self.normal
         elif 'un' in funcs:
-            uv_ext = funcs['un']*self.normal
+            uv_ext = self.corr_factor * funcs['un']*self.normal
         else:
             uv_ext = uv_in
 
-- 
2.43.0


From a925f0e50c1287168666d5172c923f253b1ffe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 09/60] fix: index boundary length by boundary id for the 3D
 tracer flux boundary

---
 thetis/tracer_eq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/tracer_eq.py b/thetis/tracer_eq.py
index df32401..3749d86 100644
--- a/thetis/tracer_eq.py
+++ b/thetis/tracer_eq.py
@@ -105,7 +105,7 @@ class TracerTerm(Term):
         elif 'flux' in funcs:
             assert self.bathymetry is not None
             h_ext = elev_ext + self.bathymetry
-            area = h_ext*self.boundary_len  # NOTE using external data only
+            area = h_ext*self.boundary_len[bnd_id]  # NOTE using external data only
             uv_ext = funcs['flux']/area*self.normal
         elif 'un' in funcs:
             uv_ext = funcs['un']*self.normal
-- 
2.43.0


From 7b959bfc6e196569d47ac6a4ee87ee441882efd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:52 +0000
Subject: [PATCH 10/60] fix: unit sediment velocity correction factor must be a
 Constant to reach the lagged fields

---
 thetis/sediment_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/sediment_model.py b/thetis/sediment_model.py
index 02328cb..04ae411 100644
--- a/thetis/sediment_model.py
+++ b/thetis/sediment_model.py
@@ -382,7 +382,7 @@ class SedimentModel(object):
         if self.use_advective_velocity_correction:
             return self.velocity_correction_factor
         else:
-            return 1
+            return Constant(1)
 
     def update(self):
         """Update all functions used by :class:`.SedimentModel`
-- 
2.43.0


From 2a8824868ba13fe41e99078d522a9d691128f8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:30 +0000
Subject: [PATCH 11/60] fix: no bedload flux through closed boundaries that
 only carry wall drag

---
 thetis/exner_eq.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thetis/exner_eq.py b/thetis/exner_eq.py
index 9e72951..1f9355b 100644
--- a/thetis/exner_eq.py
+++ b/thetis/exner_eq.py
@@ -111,11 +111,12 @@ class ExnerBedloadTerm(ExnerTerm):
         # nothing is specified is assumed closed
 
         for bnd_marker in (bnd_conditions or []):
-            no_contr = False
             keys = [*bnd_conditions[bnd_marker].keys()]
             values = [*bnd_conditions[bnd_marker].values()]
+            # without any prognostic variable (e.g. only wall drag) the boundary is closed
+            no_contr = not any(k in ('elev', 'uv', 'un', 'flux') for k in keys)
             for i in range(len(keys)):
-                if keys[i] not in ('elev', 'uv'):
+                if keys[i] in ('un', 'flux'):
                     if float(values[i]) == 0.0:
                         no_contr = True
                 elif keys[i] == 'uv':
-- 
2.43.0


From f3939a21b081649ceab9c04b309ce78798d54d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 12/60] fix: evaluate nonlinear terms of DIRK stages at the
 stage solution

With use_semi_implicit_linearization=False the lagged argument of the
residual was the solution field, i.e. the previous stage, which reduced
DIRK and IMEX schemes to first order.
---
 thetis/rungekutta.py      |  6 ++++++
 thetis/shallowwater_eq.py | 10 ++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/thetis/rungekutta.py b/thetis/rungekutta.py
index 85f58c2..c47d26f 100644
--- a/thetis/rungekutta.py
+++ b/thetis/rungekutta.py
@@ -488,6 +488,8 @@ class DIRKGeneric(RungeKuttaTimeIntegrator):
         else:
             # solve the full nonlinear residual form
             u_nl = u
+        # nonlinear terms are evaluated at the stage solution
+        nonlinear_stages = not getattr(options, 'use_semi_implicit_linearization', True)
 
         # construct variational problems
         self.F = []
@@ -498,6 +500,8 @@ class DIRKGeneric(RungeKuttaTimeIntegrator):
                         u = u_old + self.a[i][j]*self.dt_const*self.k[j]
                     else:
                         u += self.a[i][j]*self.dt_const*self.k[j]
+                if nonlinear_stages:
+                    u_nl = u
                 self.F.append(-inner(self.k[i], test)*dx
                               + self.equation.residual(terms_to_add, u, u_nl, fields, fields, bnd_conditions))
         else:
@@ -512,6 +516,8 @@ class DIRKGeneric(RungeKuttaTimeIntegrator):
                     else:
                         for l, k in enumerate(split(self.k[j])):
                             u[l] += self.a[i][j]*self.dt_const*k
+                if nonlinear_stages:
+                    u_nl = u
                 self.F.append(-inner(self.k[i], test)*dx
                               + self.equation.residual(terms_to_add, u, u_nl, fields, fields, bnd_conditions))
         self.update_solver()
diff --git a/thetis/shallowwater_eq.py b/thetis/shallowwater_eq.py
index f0fe643..f693592 100644
--- a/thetis/shallowwater_eq.py
+++ b/thetis/shallowwater_eq.py
@@ -922,7 +922,10 @@ class ShallowWaterEquations(BaseShallowWaterEquation):
             uv, eta = solution
         else:
             uv, eta = split(solution)
-        uv_old, eta_old = split(solution_old)
+        if isinstance(solution_old, list):
+            uv_old, eta_old = solution_old
+        else:
+            uv_old, eta_old = split(solution_old)
         return self.residual_uv_eta(label, uv, eta, uv_old, eta_old, fields, fields_old, bnd_conditions)
 
 
@@ -960,7 +963,10 @@ class ModeSplit2DEquations(BaseShallowWaterEquation):
             uv, eta = solution
         else:
             uv, eta = split(solution)
-        uv_old, eta_old = split(solution_old)
+        if isinstance(solution_old, list):
+            uv_old, eta_old = solution_old
+        else:
+            uv_old, eta_old = split(solution_old)
         return self.residual_uv_eta(label, uv, eta, uv_old, eta_old, fields, fields_old, bnd_conditions)
 
 
-- 
2.43.0


From d8944dc0393617574c0a90ba4fd0ce592810c728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 13/60] fix: lagged values of fields given as UFL expressions

create_fields_old dropped coefficients given as UFL expressions (accepted
by the options), so the explicit half of Crank-Nicolson and the Forward
Euler right hand side silently lacked those terms.
---
 thetis/timeintegrator.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/thetis/timeintegrator.py b/thetis/timeintegrator.py
index 8c5b14b..3fe8db6 100644
--- a/thetis/timeintegrator.py
+++ b/thetis/timeintegrator.py
@@ -91,6 +91,8 @@ class TimeIntegrator(TimeIntegratorBase):
         """
         # create functions to hold the values of previous time step
         self.fields_old = {}
+        # lagged copies of the functions that appear in UFL expressions
+        self._coefficients_old = {}
         for k in sorted(self.fields):
             if self.fields[k] is not None:
                 if isinstance(self.fields[k], Function):
@@ -102,6 +104,12 @@ class TimeIntegrator(TimeIntegratorBase):
                     # causes issues in the adjoint. Constants with a domain, created by Constaint(.., domain=...),
                     # are now just Functions on the Real space, so are dealt with under isinstance(..., Function)
                     self.fields_old[k] = self.fields[k]
+                elif isinstance(self.fields[k], ufl.core.expr.Expr):
+                    coefficients = [c for c in ufl.algorithms.extract_coefficients(self.fields[k])
+                                    if isinstance(c, Function)]
+                    for c in coefficients:
+                        self._coefficients_old.setdefault(c, Function(c.function_space()))
+                    self.fields_old[k] = replace(self.fields[k], {c: self._coefficients_old[c] for c in coefficients})
 
     def update_fields_old(self):
         """
@@ -110,6 +118,8 @@ class TimeIntegrator(TimeIntegratorBase):
         for k in sorted(self.fields):
             if isinstance(self.fields[k], Function):
                 self.fields_old[k].assign(self.fields[k])
+        for c, c_old in self._coefficients_old.items():
+            c_old.assign(c)
 
 
 class ForwardEuler(TimeIntegrator):
-- 
2.43.0


From db1564d4e3aa7f1101c08ceaff55fdc493149e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:29 +0000
Subject: [PATCH 14/60] fix: do not modify solution_old when building DIRK
 stage forms

With a zero first coefficient the stage expression is solution_old itself
and += assigned to it, so ESDIRKMidpoint evaluated its implicit stage at
the old solution.
---
 thetis/rungekutta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thetis/rungekutta.py b/thetis/rungekutta.py
index c47d26f..fcd106c 100644
--- a/thetis/rungekutta.py
+++ b/thetis/rungekutta.py
@@ -499,7 +499,8 @@ class DIRKGeneric(RungeKuttaTimeIntegrator):
                     if j == 0:
                         u = u_old + self.a[i][j]*self.dt_const*self.k[j]
                     else:
-                        u += self.a[i][j]*self.dt_const*self.k[j]
+                        # u may be u_old itself, do not add in place
+                        u = u + self.a[i][j]*self.dt_const*self.k[j]
                 if nonlinear_stages:
                     u_nl = u
                 self.F.append(-inner(self.k[i], test)*dx
-- 
2.43.0


From 8191734bb8cffef9d65d55e5b0d61ad16849bc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:56 +0000
Subject: [PATCH 15/60] fix: call user-defined 3D forcing update in
 CoupledLeapFrogAM3

---
 thetis/coupled_timeintegrator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thetis/coupled_timeintegrator.py b/thetis/coupled_timeintegrator.py
index de2b988..5ddefd6 100644
--- a/thetis/coupled_timeintegrator.py
+++ b/thetis/coupled_timeintegrator.py
@@ -439,6 +439,9 @@ class CoupledLeapFrogAM3(CoupledTimeIntegrator):
         # - Forward Euler step in fixed domain Omega_n
         # -------------------------------------------------
 
+        if update_forcings3d is not None:
+            update_forcings3d(t + self.timesteppers.mom_expl.dt)
+
         if self.options.use_ale_moving_mesh:
             self.fields.w_mesh_3d.assign(0.0)
 
-- 
2.43.0


From d12149d806bcce321ed2fffec5380550fd64a7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:56 +0000
Subject: [PATCH 16/60] fix: non-hydrostatic 2D integrator without free surface
 update must not access missing fs2d stepper

---
 thetis/coupled_timeintegrator_2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thetis/coupled_timeintegrator_2d.py b/thetis/coupled_timeintegrator_2d.py
index a5f10e0..a0b355b 100644
--- a/thetis/coupled_timeintegrator_2d.py
+++ b/thetis/coupled_timeintegrator_2d.py
@@ -180,7 +180,8 @@ class NonHydrostaticTimeIntegrator2D(CoupledTimeIntegrator2D):
             self.elev_old = Function(self.fields.elev_2d)
         self.serial_advancing = not hasattr(self.timesteppers.swe2d, 'n_stages') \
             or self.options.swe_timestepper_type == 'SSPIMEX'
-        self.multi_stages_fs = hasattr(self.timesteppers.fs2d, 'n_stages') \
+        self.multi_stages_fs = self.nh_options.update_free_surface \
+            and hasattr(self.timesteppers.fs2d, 'n_stages') \
             and self.nh_options.free_surface_timestepper_type != 'BackwardEuler'
         if self.multi_stages_fs:
             msg = 'The multi-stage type of Shallow Water and ' \
-- 
2.43.0


From 27e97f4bcf2419a31ff6648f7a4650b70f1510c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:44 +0000
Subject: [PATCH 17/60] fix: update turbulence closure in CoupledLeapFrogAM3
 also with explicit vertical diffusion

---
 thetis/coupled_timeintegrator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thetis/coupled_timeintegrator.py b/thetis/coupled_timeintegrator.py
index 5ddefd6..00e7c0a 100644
--- a/thetis/coupled_timeintegrator.py
+++ b/thetis/coupled_timeintegrator.py
@@ -559,6 +559,7 @@ class CoupledLeapFrogAM3(CoupledTimeIntegrator):
         else:
             self._update_2d_coupling()
             self._update_baroclinicity()
+            self._update_turbulence(t)
             self._update_vertical_velocity()
             self._update_stabilization_params()
 
-- 
2.43.0


From 944bacb2aced7bc123e647d35568e09bed491ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:49 +0000
Subject: [PATCH 18/60] fix: keep the nearest source points of points outside
 the grid in the 2D interpolator subset

---
 thetis/interpolation.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/thetis/interpolation.py b/thetis/interpolation.py
index 8c6b924..62cccab 100644
--- a/thetis/interpolation.py
+++ b/thetis/interpolation.py
@@ -315,7 +315,14 @@ def _get_subset_nodes(grid_x, grid_y, target_x, target_y):
     tri = qhull.Delaunay(grid_xy)
     simplex = tri.find_simplex(target_xy)
     vertices = numpy.take(tri.simplices, simplex, axis=0)
-    nodes = numpy.unique(vertices.ravel())
+    nodes = vertices.ravel()
+    outside = simplex < 0
+    if numpy.any(outside):
+        # points outside the grid may need the nearest source point
+        from scipy.spatial import cKDTree
+        dist, nearest = cKDTree(grid_xy).query(target_xy[outside])
+        nodes = numpy.concatenate((nodes, nearest))
+    nodes = numpy.unique(nodes)
     nodes_x, nodes_y = numpy.unravel_index(nodes, orig_shape)
 
     # x and y bounds for reading a subset of the netcdf data
-- 
2.43.0


From a9fbb416824dae7611c2d28a259ff3e0218e473e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:49 +0000
Subject: [PATCH 19/60] fix: detect 1D longitude arrays from the longitude
 array

---
 thetis/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/interpolation.py b/thetis/interpolation.py
index 62cccab..df9b5b1 100644
--- a/thetis/interpolation.py
+++ b/thetis/interpolation.py
@@ -468,7 +468,7 @@ class NetCDFLatLonInterpolator2d(SpatialInterpolator2d):
                 grid_lat = ncfile[name_lat][:]
                 grid_lon = ncfile[name_lon][:]
                 lat_is_1d = len(grid_lat.shape) == 1
-                lon_is_1d = len(grid_lat.shape) == 1
+                lon_is_1d = len(grid_lon.shape) == 1
                 assert lat_is_1d == lon_is_1d, 'Unsupported lat lon grid'
                 if lat_is_1d and lon_is_1d:
                     grid_lon, grid_lat = numpy.meshgrid(grid_lon, grid_lat)
-- 
2.43.0


From cf703dbc590aa615f767153e0f009810a0fd3691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:02 +0000
Subject: [PATCH 20/60] fix: standard_name takes precedence over long_name and
 variable name in get_ncvar_name

---
 thetis/interpolation.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/thetis/interpolation.py b/thetis/interpolation.py
index df9b5b1..1c897fe 100644
--- a/thetis/interpolation.py
+++ b/thetis/interpolation.py
@@ -83,21 +83,20 @@ def get_ncvar_name(ncfile, standard_name=None, long_name=None, var_name=None):
     standard_name = listify(standard_name)
     long_name = listify(long_name)
     var_name = listify(var_name)
-    found = False
-    for name, var in ncfile.variables.items():
-        if 'standard_name' in var.ncattrs():
-            if var.standard_name.lower() in standard_name:
-                found = True
-                break
-        if 'long_name' in var.ncattrs():
-            if var.long_name.lower() in long_name:
-                found = True
-                break
-        if var.name.lower() in var_name:
-            found = True
+    name = None
+    for attr, accepted in [('standard_name', standard_name),
+                           ('long_name', long_name),
+                           ('name', var_name)]:
+        matches = [
+            n for n, var in ncfile.variables.items()
+            if (attr == 'name' or attr in var.ncattrs())
+            and getattr(var, attr).lower() in accepted
+        ]
+        if matches:
+            name = matches[0]
             break
 
-    if not found:
+    if name is None:
         filter_str = []
         if standard_name is not None:
             filter_str.append(f'standard_name={standard_name}')
-- 
2.43.0


From 8a690ce9b5b9e6697ff0792fb046a2916d4d692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 21/60] fix: keep the nearest valid points for nearest neighbor
 filling in GenericSpatialInterpolator2D

---
 thetis/forcing.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/thetis/forcing.py b/thetis/forcing.py
index fefce4c..fef9c64 100644
--- a/thetis/forcing.py
+++ b/thetis/forcing.py
@@ -840,6 +840,15 @@ class GenericSpatialInterpolator2D(interpolation.SpatialInterpolator2d):
         assert self.valid_mask.shape == lat.shape, 'mask has wrong shape {self.mask.shape} {lat.shape}'
 
         self.nodes, self.ind_lat, self.ind_lon = self._get_subset_nodes(lat, lon, self.mesh_lonlat[:, 1], self.mesh_lonlat[:, 0])
+        # include nearest valid points, needed for nearest neighbor filling
+        from scipy.spatial import cKDTree
+        mesh_latlon = self.mesh_lonlat[:, [1, 0]]
+        valid_nodes = numpy.nonzero(self.valid_mask.ravel())[0]
+        valid_latlon = numpy.vstack((lat.ravel(), lon.ravel())).T[valid_nodes]
+        dist, ix = cKDTree(valid_latlon).query(mesh_latlon)
+        self.nodes = numpy.unique(numpy.concatenate((self.nodes, valid_nodes[ix])))
+        self.ind_lat, self.ind_lon = numpy.unravel_index(self.nodes, lat.shape)
+
         lat_subset = lat[self.ind_lat, self.ind_lon]
         lon_subset = lon[self.ind_lat, self.ind_lon]
 
@@ -859,7 +868,6 @@ class GenericSpatialInterpolator2D(interpolation.SpatialInterpolator2d):
 
         # building 2D interpolator, this can take a long time (minutes)
         print_output('Constructing 2D GridInterpolator...')
-        mesh_latlon = self.mesh_lonlat[:, [1, 0]]
         self.interpolator = interpolation.GridInterpolator(
             grid_latlon, mesh_latlon, normalize=False,
             fill_mode='nearest'
-- 
2.43.0


From 4d87ae57ccce287848c978c0d41d66d1ebaa6399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 22/60] fix: GenericSpatialInterpolator2D accepts data without
 masked values

---
 thetis/forcing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/forcing.py b/thetis/forcing.py
index fef9c64..80b4713 100644
--- a/thetis/forcing.py
+++ b/thetis/forcing.py
@@ -834,7 +834,7 @@ class GenericSpatialInterpolator2D(interpolation.SpatialInterpolator2d):
         for name, var in ncfile.variables.items():
             if len(var.shape) == 3:
                 v = var[0, ...]  # read first time index
-                self.valid_mask = ~v.mask
+                self.valid_mask = ~numpy.ma.getmaskarray(v)
                 break
         assert self.valid_mask is not None, 'could not determine mask'
         assert self.valid_mask.shape == lat.shape, 'mask has wrong shape {self.mask.shape} {lat.shape}'
-- 
2.43.0


From 2fb16d55607c9909ccbe4e609d21ad05ff103e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 23/60] fix: tidal velocity forcing writes only the boundary
 nodes and zeroes points without data

---
 thetis/forcing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thetis/forcing.py b/thetis/forcing.py
index 80b4713..cb09ede 100644
--- a/thetis/forcing.py
+++ b/thetis/forcing.py
@@ -1083,12 +1083,12 @@ class TidalBoundaryForcing(ABC):
                     lon_vel[node] = self.tnciu.get_val(point, allow_extrapolation=True)
                     lat_vel[node] = self.tnciv.get_val(point, allow_extrapolation=True)
                 except uptide.netcdf_reader.CoordinateError:
-                    uv_data[node, 0] = 0
-                    uv_data[node, 1] = 0
+                    lon_vel[node] = 0
+                    lat_vel[node] = 0
         if self.compute_velocity:
             uv = self.vect_rotator(lon_vel, lat_vel)
-            uv_data[:, 0] = uv[0]
-            uv_data[:, 1] = uv[1]
+            uv_data[self.nodes, 0] = uv[0][self.nodes]
+            uv_data[self.nodes, 1] = uv[1][self.nodes]
 
 
 class TPXOTidalBoundaryForcing(TidalBoundaryForcing):
-- 
2.43.0


From c07d5a43633ac9ac2561a81aebbd4c903e91ae8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:35 +0000
Subject: [PATCH 24/60] fix: coordinate transforms of integer arrays must not
 truncate the result

---
 thetis/coordsys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/coordsys.py b/thetis/coordsys.py
index 8729dad..735177c 100644
--- a/thetis/coordsys.py
+++ b/thetis/coordsys.py
@@ -46,8 +46,8 @@ def proj_transform(x, y, trans):
         assert x_is_array and y_is_array, 'both x and y must be numpy arrays'
         assert x.shape == y.shape, 'x and y must have same shape'
         # transform only non-nan entries as proj behavior can be erratic
-        a = numpy.full_like(x, numpy.nan)
-        b = numpy.full_like(y, numpy.nan)
+        a = numpy.full(x.shape, numpy.nan)
+        b = numpy.full(y.shape, numpy.nan)
         good_ix = numpy.logical_and(numpy.isfinite(x), numpy.isfinite(y))
         a[good_ix], b[good_ix] = trans.transform(x[good_ix], y[good_ix])
     else:
-- 
2.43.0


From 05b2f735cc0840206f387c1594d993f45547fdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 25/60] fix: VerticalIntegrator boundary value enters with the
 correct sign

---
 thetis/utility3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/utility3d.py b/thetis/utility3d.py
index 7a0137a..645771b 100644
--- a/thetis/utility3d.py
+++ b/thetis/utility3d.py
@@ -176,10 +176,10 @@ class VerticalIntegrator(object):
         self.ds_bottom = ds_bottom(degree=self.quad_degree)
 
         if bottom_to_top:
-            bnd_term = normal[2]*inner(bnd_value, phi)*self.ds_bottom
+            bnd_term = -normal[2]*inner(bnd_value, phi)*self.ds_bottom
             mass_bnd_term = normal[2]*inner(tri, phi)*self.ds_surf
         else:
-            bnd_term = normal[2]*inner(bnd_value, phi)*self.ds_surf
+            bnd_term = -normal[2]*inner(bnd_value, phi)*self.ds_surf
             mass_bnd_term = normal[2]*inner(tri, phi)*self.ds_bottom
 
         self.a = -inner(Dx(phi, 2), tri)*self.dx + mass_bnd_term
-- 
2.43.0


From d47d1e1887751437ef9321b28d3551cc7be8739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:54 +0000
Subject: [PATCH 26/60] fix: steady state of stability functions with zero
 quadratic coefficient must not be nan

---
 thetis/stability_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/stability_functions.py b/thetis/stability_functions.py
index d4cfa83..01710fc 100644
--- a/thetis/stability_functions.py
+++ b/thetis/stability_functions.py
@@ -172,7 +172,7 @@ class StabilityFunctionBase(ABC):
             a = -self.d5 + self.n2 - (self.d3 - self.n1 + self.nb2)*ri_st - (self.d4 + self.nb1)*ri_st**2
             b = -self.d2 + self.n0 - (self.d1 + self.nb0)*ri_st
             c = -self.d0
-            a_shear = (-b + numpy.sqrt(b**2 - 4*a*c))/2/a
+            a_shear = 2*c/(-b - numpy.sqrt(b**2 - 4*a*c))
 
         return a_shear
 
@@ -220,7 +220,7 @@ class StabilityFunctionBase(ABC):
             a = self.d5 - self.n2
             b = self.d2 - self.n0
             c = self.d0
-            a_shear = (-b - numpy.sqrt(b**2 - 4*a*c))/2/a
+            a_shear = 2*c/(-b + numpy.sqrt(b**2 - 4*a*c))
             s_m, s_h = self.eval_funcs(a_buoy, a_shear)
             cm0 = s_m**0.25
         else:
-- 
2.43.0


From f8b6d9532144c8c9e09fa7f9a8935da7643f05d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:54 +0000
Subject: [PATCH 27/60] fix: coefficients s2 and s6 of the Cheng (2002) closure

---
 thetis/stability_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/stability_functions.py b/thetis/stability_functions.py
index 01710fc..f705b51 100644
--- a/thetis/stability_functions.py
+++ b/thetis/stability_functions.py
@@ -646,10 +646,10 @@ class ChengStabilityFunctionBase(StabilityFunctionBase):
 
         self.s0 = 0.5*self.l1
         self.s1 = -1.0/3*self.l4*self.l5**-2*(self.l6 + self.l7) + 2.0/3*self.l4/self.l5*(self.l1 - 1.0/3*self.l2 - self.l3) + 0.5*self.l1/self.l5*self.l8
-        self.s2 = 1.0/8*self.l1*self.l5**-2*(self.l6**2 - self.l7**2)
+        self.s2 = -1.0/8*self.l1*self.l5**-2*(self.l6**2 - self.l7**2)
         self.s4 = 2.0/3/self.l5
         self.s5 = 2.0/3*self.l4*self.l5**-2
-        self.s6 = 2.0/3/self.l5*(self.l3**2 - 1.0/3*self.l2**2) - 0.5*self.l1/self.l5*(self.l3 - 1.0/3*self.l2)
+        self.s6 = 2.0/3/self.l5*(self.l3**2 - 1.0/3*self.l2**2) - 0.5*self.l1/self.l5*(self.l3 - 1.0/3*self.l2) + 1.0/4*self.l1*self.l5**-2*(self.l6 - self.l7)
 
         self.dd0 = 1
         self.dd1 = (7.0/3*self.l4 + self.l8)/self.l5
-- 
2.43.0


From 55976164d010c7d28822458dc8cf93b5abb99563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:54 +0000
Subject: [PATCH 28/60] fix: Kantha-Clayson stability function option uses the
 existing class

---
 thetis/turbulence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/turbulence.py b/thetis/turbulence.py
index 300a521..bb179fc 100644
--- a/thetis/turbulence.py
+++ b/thetis/turbulence.py
@@ -421,7 +421,7 @@ class GenericLengthScaleModel(TurbulenceModel):
                      'lim_alpha_buoy': True,
                      'smooth_alpha_buoy_lim': False}
         if stability_function_name == 'Kantha-Clayson':
-            self.stability_func = StabilityFunctionKanthaClayson(**stab_args)
+            self.stability_func = GOTMStabilityFunctionKanthaClayson(**stab_args)
         elif stability_function_name == 'Canuto A':
             self.stability_func = StabilityFunctionCanutoA(**stab_args)
         elif stability_function_name == 'Canuto B':
-- 
2.43.0


From 6d7f99f30530c4b7b5a040df701244cdf1b871f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:54 +0000
Subject: [PATCH 29/60] fix: print_debug of the GLS model evaluates the
 stability functions it prints

---
 thetis/turbulence.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thetis/turbulence.py b/thetis/turbulence.py
index bb179fc..c15b15d 100644
--- a/thetis/turbulence.py
+++ b/thetis/turbulence.py
@@ -581,6 +581,10 @@ class GenericLengthScaleModel(TurbulenceModel):
         Print diagnostic field values for debugging.
         """
         fmt = '{:8s} {:10.3e} {:10.3e}'
+        s_m, s_h = self.stability_func.evaluate(self.m2.dat.data,
+                                                self.n2.dat.data,
+                                                self.k.dat.data,
+                                                self.epsilon.dat.data)
         print_output(' -----')
         print_output(fmt.format('k', self.k.dat.data.min(), self.k.dat.data.max()))
         print_output(fmt.format('psi', self.psi.dat.data.min(), self.psi.dat.data.max()))
-- 
2.43.0


From a0d685d9bcd913268b0d581aca45247aa9818ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:16 +0000
Subject: [PATCH 30/60] fix: no advective velocity correction to update without
 suspended sediment

---
 thetis/sediment_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thetis/sediment_model.py b/thetis/sediment_model.py
index 04ae411..0715ef6 100644
--- a/thetis/sediment_model.py
+++ b/thetis/sediment_model.py
@@ -88,7 +88,8 @@ class SedimentModel(object):
         self.use_sediment_slide = options.sediment_model_options.use_sediment_slide
         self.use_angle_correction = options.sediment_model_options.use_angle_correction
         self.use_slope_mag_correction = options.sediment_model_options.use_slope_mag_correction
-        self.use_advective_velocity_correction = options.sediment_model_options.use_advective_velocity_correction
+        # the correction applies to suspended sediment only
+        self.use_advective_velocity_correction = self.solve_suspended_sediment and options.sediment_model_options.use_advective_velocity_correction
         self.use_secondary_current = options.sediment_model_options.use_secondary_current
 
         self.mesh2d = mesh2d
-- 
2.43.0


From 39e701ebcc8380fca135c4b1a07521cf119720bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:16 +0000
Subject: [PATCH 31/60] fix: bedload direction is zero instead of nan in still
 water

---
 thetis/sediment_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thetis/sediment_model.py b/thetis/sediment_model.py
index 0715ef6..5833436 100644
--- a/thetis/sediment_model.py
+++ b/thetis/sediment_model.py
@@ -213,8 +213,8 @@ class SedimentModel(object):
 
         if self.use_bedload:
             # calculate angle of flow
-            self.calfa = Function(self.P1_2d).interpolate(self.uv_cg[0]/sqrt(self.unorm))
-            self.salfa = Function(self.P1_2d).interpolate(self.uv_cg[1]/sqrt(self.unorm))
+            self.calfa = Function(self.P1_2d).interpolate(conditional(self.unorm > 0, self.uv_cg[0]/sqrt(self.unorm), 0))
+            self.salfa = Function(self.P1_2d).interpolate(conditional(self.unorm > 0, self.uv_cg[1]/sqrt(self.unorm), 0))
 
             if self.use_angle_correction:
                 # slope effect angle correction due to gravity
@@ -407,8 +407,8 @@ class SedimentModel(object):
 
         if self.use_bedload:
             # calculate angle of flow
-            self.calfa.interpolate(self.uv_cg[0]/sqrt(self.unorm))
-            self.salfa.interpolate(self.uv_cg[1]/sqrt(self.unorm))
+            self.calfa.interpolate(conditional(self.unorm > 0, self.uv_cg[0]/sqrt(self.unorm), 0))
+            self.salfa.interpolate(conditional(self.unorm > 0, self.uv_cg[1]/sqrt(self.unorm), 0))
 
             if self.use_angle_correction:
                 # slope effect angle correction due to gravity
-- 
2.43.0


From 2f9f2cc7dcf588acffb48775d1421a737d935031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:37 +0000
Subject: [PATCH 32/60] fix: secondary current correction gives no bedload
 instead of nan where nothing moves

---
 thetis/sediment_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thetis/sediment_model.py b/thetis/sediment_model.py
index 5833436..2a31d2d 100644
--- a/thetis/sediment_model.py
+++ b/thetis/sediment_model.py
@@ -302,8 +302,9 @@ class SedimentModel(object):
             qbx = qb_total*calfamod
             qby = qb_total*salfamod
         elif self.use_secondary_current:
-            qbx = qb_total*calfanew
-            qby = qb_total*salfanew
+            # the corrected angles are undefined where nothing moves
+            qbx = conditional(phi > 0, qb_total*calfanew, 0)
+            qby = conditional(phi > 0, qb_total*salfanew, 0)
         else:
             qbx = qb_total*self.calfa
             qby = qb_total*self.salfa
-- 
2.43.0


From bf79ed4ff4e035a7f5604f0c0929d99f09a9e6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:38 +0000
Subject: [PATCH 33/60] fix: diagnostic callback windows starting or ending at
 time zero were ignored

---
 thetis/callback.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/callback.py b/thetis/callback.py
index 09ba053..c43ffbe 100644
--- a/thetis/callback.py
+++ b/thetis/callback.py
@@ -202,8 +202,8 @@ class DiagnosticCallback(ABC):
         self.include_time = include_time
         self._create_new_file = True
         self._hdf5_initialized = False
-        self.start_time = start_time or -numpy.inf
-        self.end_time = end_time or numpy.inf
+        self.start_time = -numpy.inf if start_time is None else start_time
+        self.end_time = numpy.inf if end_time is None else end_time
 
         init_date = self.solver_obj.options.simulation_initial_date
         if init_date is not None and include_time:
-- 
2.43.0


From 0afaf685db85cbf0936234b40774eddefeca8be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:51 +0000
Subject: [PATCH 34/60] fix: appending diagnostics failed when there was no
 file to append to

---
 thetis/callback.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/callback.py b/thetis/callback.py
index c43ffbe..285b895 100644
--- a/thetis/callback.py
+++ b/thetis/callback.py
@@ -88,7 +88,7 @@ class DiagnosticHDF5(object):
         self.nvars = len(varnames)
         self.array_dim = array_dim
         self.include_time = include_time
-        if comm.rank == 0 and new_file:
+        if comm.rank == 0 and (new_file or not os.path.exists(filename)):
             # create empty file with correct datasets
             with h5py.File(filename, 'w') as hdf5file:
                 if include_time:
-- 
2.43.0


From 4c40220756ecb18c6e0f0b8cc0875b2174123055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:12 +0000
Subject: [PATCH 35/60] fix: diagnostics with a start time crashed in 3D runs
 (export index beyond the empty file)

---
 thetis/callback.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/thetis/callback.py b/thetis/callback.py
index 285b895..0f8238c 100644
--- a/thetis/callback.py
+++ b/thetis/callback.py
@@ -139,15 +139,19 @@ class DiagnosticHDF5(object):
         :type variables: tuple of float
         :kwarg time: time stamp of entry
         :type time: float
-        :kwarg int index: If provided, defines the time index in the file
+        :kwarg int index: If provided, defines the time index of the entry,
+            counted from the index of the first entry of the file
         """
         if self.comm.rank == 0:
             with h5py.File(self.filename, 'a') as hdf5file:
                 if index is not None:
                     nentries = self._nentries(hdf5file)
-                    assert index <= nentries, 'time index out of range {:} <= {:} \n  in file {:}'.format(index, nentries, self.filename)
-                    expand_required = index == nentries
-                    ix = index
+                    if nentries == 0:
+                        # the first entry may come late, e.g. with a start time
+                        hdf5file.attrs['first_index'] = index
+                    ix = index - int(hdf5file.attrs.get('first_index', 0))
+                    assert 0 <= ix <= nentries, 'time index out of range {:} <= {:} \n  in file {:}'.format(ix, nentries, self.filename)
+                    expand_required = ix == nentries
                 if index is None or expand_required:
                     self._expand(hdf5file)
                     ix = self._nentries(hdf5file) - 1
-- 
2.43.0


From 596b9ccdf56decff251d06a2f5c937933f5195c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:39 +0000
Subject: [PATCH 36/60] fix: regularization manager could not be used with its
 default scaling

---
 thetis/inversion_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/inversion_tools.py b/thetis/inversion_tools.py
index 79bc60b..490df2b 100644
--- a/thetis/inversion_tools.py
+++ b/thetis/inversion_tools.py
@@ -1216,7 +1216,7 @@ class ControlRegularizationManager:
     """
     Handles regularization of multiple control fields
     """
-    def __init__(self, function_list, gamma_list, penalty_term_scaling=None,
+    def __init__(self, function_list, gamma_list, penalty_term_scaling=1.0,
                  calculator=HessianRegularizationCalculator, calculator_kwargs=None):
         """
         :arg function_list: list of control functions
-- 
2.43.0


From 6a6426783cf2dddeae694e65c4d96bd9d0321e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:43 +0000
Subject: [PATCH 37/60] fix: unfrozen restores the frozen state when the method
 raises

---
 thetis/utility.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/thetis/utility.py b/thetis/utility.py
index a6654b8..8567236 100755
--- a/thetis/utility.py
+++ b/thetis/utility.py
@@ -49,10 +49,11 @@ def unfrozen(method):
     def wrapper(self, *args, **kwargs):
         self._isfrozen = False
         self._unfreezedepth += 1
-        ret = method(self, *args, **kwargs)
-        self._unfreezedepth -= 1
-        self._isfrozen = self._unfreezedepth == 0
-        return ret
+        try:
+            return method(self, *args, **kwargs)
+        finally:
+            self._unfreezedepth -= 1
+            self._isfrozen = self._unfreezedepth == 0
 
     return wrapper
 
-- 
2.43.0


From 9335c4bb4ff08038fe4183d8e9df70bb3dfd588e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:43 +0000
Subject: [PATCH 38/60] fix: OptionsBase.update sets paired options before
 their groups

---
 thetis/configuration.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/thetis/configuration.py b/thetis/configuration.py
index f78b86e..59d3272 100644
--- a/thetis/configuration.py
+++ b/thetis/configuration.py
@@ -271,7 +271,10 @@ class OptionsBase:
         else:
             assert isinstance(options, traitlets.HasTraits), 'options must be a dict or HasTraits object'
             params_dict = options._trait_values
-        for key in params_dict:
+        # setting a paired option resets the option group paired with it, so
+        # the paired options must precede their groups
+        traits = self.traits()
+        for key in sorted(params_dict, key=lambda k: not isinstance(traits.get(k), PairedEnum)):
             self.__setattr__(key, params_dict[key])
 
     def __str__(self):
-- 
2.43.0


From 92eba841b2622103d9751f8194d7c4c2a9784cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:43 +0000
Subject: [PATCH 39/60] fix: add_tracer_system_2d accepts settings for a subset
 of the labels

---
 thetis/options.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/thetis/options.py b/thetis/options.py
index 3cf395a..464197b 100644
--- a/thetis/options.py
+++ b/thetis/options.py
@@ -1005,11 +1005,8 @@ class ModelOptions2d(CommonModelOptions):
         shortnames = shortnames or names
         units = units or ['-']*N
         assert len(names) == len(filenames) == len(shortnames) == len(units) == N
-        if kwargs == {}:
-            kwargs = {label: {} for label in labels}
         assert set(kwargs.keys()).issubset(set(labels))
-        for label in labels:
-            kwargs[label]['mixed'] = True
+        kwargs = {label: dict(kwargs.get(label, {}), mixed=True) for label in labels}
         self.tracer_fields[','.join(labels)] = function
         if function is not None:
             for label, child in zip(labels, function.subfunctions):
-- 
2.43.0


From cd118ff699e50ec1bfc2938edb3b4f9fdcd12728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:43 +0000
Subject: [PATCH 40/60] fix: 3D time stepper option groups are private to each
 container

---
 thetis/options.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/thetis/options.py b/thetis/options.py
index 464197b..79e0c67 100644
--- a/thetis/options.py
+++ b/thetis/options.py
@@ -265,16 +265,16 @@ class ImplicitTracerTimeStepperOptions3d(TimeStepperOptions3d):
 class SSPRKTimeStepperOptions3d(TimeStepperOptions3d):
     """Options for 3d SSPRK coupled time integrator"""
     use_automatic_timestep = Bool(True, help='Set time step automatically based on local CFL conditions.').tag(config=True)
-    swe_options = SWETimeStepperOptions3d()
-    implicit_momentum_options = ImplicitMomentumTimeStepperOptions3d()
-    explicit_momentum_options = ExplicitMomentumTimeStepperOptions3d()
-    implicit_tracer_options = ImplicitTracerTimeStepperOptions3d()
-    explicit_tracer_options = ExplicitTracerTimeStepperOptions3d()
+    swe_options = Instance(SWETimeStepperOptions3d, args=())
+    implicit_momentum_options = Instance(ImplicitMomentumTimeStepperOptions3d, args=())
+    explicit_momentum_options = Instance(ExplicitMomentumTimeStepperOptions3d, args=())
+    implicit_tracer_options = Instance(ImplicitTracerTimeStepperOptions3d, args=())
+    explicit_tracer_options = Instance(ExplicitTracerTimeStepperOptions3d, args=())
 
 
 class LeapFrogTimeStepperOptions3d(SSPRKTimeStepperOptions3d):
     """Options for 3d LeapFrog coupled time integrator"""
-    swe_options = ImplicitSWETimeStepperOptions3d()
+    swe_options = Instance(ImplicitSWETimeStepperOptions3d, args=())
 
 
 class TurbulenceModelOptions(FrozenHasTraits):
-- 
2.43.0


From e5339a37682ef2b9ecc4c5db312fc51200459aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:43 +0000
Subject: [PATCH 41/60] fix: vector and scalar expression options check the
 rank and free indices

---
 thetis/configuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/configuration.py b/thetis/configuration.py
index 59d3272..86dc965 100644
--- a/thetis/configuration.py
+++ b/thetis/configuration.py
@@ -178,7 +178,7 @@ class FiredrakeScalarExpression(traitlets.TraitType):
 
     def validate(self, obj, value):
         if (isinstance(value, ufl.core.expr.Expr)
-                and ufl.checks.is_ufl_scalar(value)):
+                and ufl.checks.is_true_ufl_scalar(value)):
             return value
         self.error(obj, value)
 
@@ -196,7 +196,7 @@ class FiredrakeVectorExpression(traitlets.TraitType):
 
     def validate(self, obj, value):
         if (isinstance(value, ufl.core.expr.Expr)
-                and not ufl.checks.is_ufl_scalar(value)):
+                and len(value.ufl_shape) == 1 and not value.ufl_free_indices):
             return value
         self.error(obj, value)
 
-- 
2.43.0


From c1d4835d7f62c6ef67342159b3538b77e36c3b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:43 +0000
Subject: [PATCH 42/60] fix: integer options store the integer an integral
 float is cast to

---
 thetis/configuration.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thetis/configuration.py b/thetis/configuration.py
index 86dc965..3c808af 100644
--- a/thetis/configuration.py
+++ b/thetis/configuration.py
@@ -77,7 +77,7 @@ class PositiveInteger(traitlets.Integer):
         return u'a positive integer'
 
     def validate(self, obj, proposal):
-        super(PositiveInteger, self).validate(obj, proposal)
+        proposal = super(PositiveInteger, self).validate(obj, proposal)
         assert proposal > 0, self.error(obj, proposal)
         return proposal
 
@@ -97,7 +97,7 @@ class NonNegativeInteger(traitlets.Integer):
         return u'a non-negative integer'
 
     def validate(self, obj, proposal):
-        super(NonNegativeInteger, self).validate(obj, proposal)
+        proposal = super(NonNegativeInteger, self).validate(obj, proposal)
         assert proposal >= 0, self.error(obj, proposal)
         return proposal
 
@@ -122,7 +122,7 @@ class BoundedInteger(traitlets.Integer):
         return u'an integer between {:} and {:}'.format(self.minval, self.maxval)
 
     def validate(self, obj, proposal):
-        super(BoundedInteger, self).validate(obj, proposal)
+        proposal = super(BoundedInteger, self).validate(obj, proposal)
         assert proposal >= self.minval, self.error(obj, proposal)
         assert proposal <= self.maxval, self.error(obj, proposal)
         return proposal
-- 
2.43.0


From bf87342568a1decc4a233d91a7ceccd681399048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:43 +0000
Subject: [PATCH 43/60] fix: vertical length scale factor decreases with the
 polynomial degree

---
 thetis/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index 67aa1d2..ce13811 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -187,7 +187,7 @@ class FlowSolver(FrozenClass):
         p = self.options.polynomial_degree
         # assuming DG basis functions in an interval
         l_r = 1.0/max(p, 1)
-        factor = 0.5*0.25/l_r
+        factor = 0.5*0.25*l_r
         return factor
 
     @PETSc.Log.EventDecorator("thetis.FlowSolver.compute_dt_2d")
-- 
2.43.0


From 21112c062a99f645ba7b7417158833ec91d76284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:28 +0000
Subject: [PATCH 44/60] fix: get_facet_mask uses the single node of vertically
 constant elements for both facets

---
 thetis/utility.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thetis/utility.py b/thetis/utility.py
index 8567236..af77d2d 100755
--- a/thetis/utility.py
+++ b/thetis/utility.py
@@ -342,7 +342,8 @@ def get_facet_mask(function_space, facet='bottom'):
     # compute top/bottom facet indices
     # extruded dimension is the inner loop in index
     # on interval elements, the end points are the first two dofs
-    offset = 0 if facet == 'bottom' else 1
+    # elements with a single vertical node use it for both facets
+    offset = 0 if facet == 'bottom' or nb_nodes_v == 1 else 1
     indices = numpy.arange(nb_nodes_h)*nb_nodes_v + offset
     return indices
 
-- 
2.43.0


From 7b61c794e1235aaf548c6f0177df2b2eb7d9e5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:28 +0000
Subject: [PATCH 45/60] fix: vector fields are limited in the scalar space of
 their own element

---
 thetis/limiter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/limiter.py b/thetis/limiter.py
index f1cdd80..9fb99f6 100644
--- a/thetis/limiter.py
+++ b/thetis/limiter.py
@@ -65,7 +65,7 @@ class VertexBasedP1DGLimiter(VertexBasedLimiter):
         assert_function_space(p1dg_space, ['Discontinuous Lagrange', 'DQ'], 1)
         self.is_vector = p1dg_space.value_size > 1
         if self.is_vector:
-            p1dg_scalar_space = FunctionSpace(p1dg_space.mesh(), 'DG', 1)
+            p1dg_scalar_space = FunctionSpace(p1dg_space.mesh(), p1dg_space.ufl_element().sub_elements[0])
             super(VertexBasedP1DGLimiter, self).__init__(p1dg_scalar_space)
         else:
             super(VertexBasedP1DGLimiter, self).__init__(p1dg_space)
-- 
2.43.0


From c434d478a0fae80a85460d4d1da3629740a06c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:09 +0000
Subject: [PATCH 46/60] fix: initial conditions for the turbulence fields
 survive the initialisation of the GLS model

---
 thetis/solver.py     | 10 ++++------
 thetis/turbulence.py | 11 +++++++++--
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index ce13811..1fa8738 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -949,12 +949,10 @@ class FlowSolver(FrozenClass):
             self.fields.salt_3d.project(salt)
         if temp is not None and self.options.solve_temperature:
             self.fields.temp_3d.project(temp)
+        turbulence_init = {}
         if self.options.use_turbulence and self.options.turbulence_model_type == 'gls':
-            if tke is not None:
-                self.fields.tke_3d.project(tke)
-            if psi is not None:
-                self.fields.psi_3d.project(psi)
-            self.turbulence_model.initialize()
+            turbulence_init = {'tke': tke, 'psi': psi}
+            self.turbulence_model.initialize(**turbulence_init)
 
         if self.options.use_ale_moving_mesh:
             self.timestepper._update_3d_elevation()
@@ -968,7 +966,7 @@ class FlowSolver(FrozenClass):
                                                   do_stab_params=True,
                                                   do_turbulence=False)
         if self.options.use_turbulence:
-            self.turbulence_model.initialize()
+            self.turbulence_model.initialize(**turbulence_init)
 
     def add_callback(self, callback, eval_interval='export'):
         """
diff --git a/thetis/turbulence.py b/thetis/turbulence.py
index c15b15d..a9484f1 100644
--- a/thetis/turbulence.py
+++ b/thetis/turbulence.py
@@ -460,14 +460,17 @@ class GenericLengthScaleModel(TurbulenceModel):
         self._initialized = False
 
     @PETSc.Log.EventDecorator("thetis.GenericLengthScaleModel.initialize")
-    def initialize(self, l_init=0.01):
+    def initialize(self, l_init=0.01, tke=None, psi=None):
         """
         Initialize turbulent fields.
 
         k is set to k_min value. epsilon and psi are set to a value that
-        corresponds to l_init length scale.
+        corresponds to l_init length scale. User-defined initial conditions
+        for k and psi override these values.
 
         :arg l_init: initial value for turbulent length scale.
+        :kwarg tke: initial condition for turbulent kinetic energy
+        :kwarg psi: initial condition for the generic length scale variable
         """
         if not self.solver._simulation_continued:
             o = self.options
@@ -476,6 +479,10 @@ class GenericLengthScaleModel(TurbulenceModel):
             self.k.assign(self.options.k_min)
             self.psi.assign(psi_init)
             self.epsilon.assign(eps_init)
+            if tke is not None:
+                self.k.project(tke)
+            if psi is not None:
+                self.psi.project(psi)
         self.n2.assign(1e-12)
         self.n2_pos.assign(1e-12)
         self.n2_neg.assign(0.0)
-- 
2.43.0


From 808a5825a434d35713849aea6cb6df174236388e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:14 +0000
Subject: [PATCH 47/60] fix: contraction of the stress with the depth gradient
 in the horizontal viscosity term

---
 thetis/shallowwater_eq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/shallowwater_eq.py b/thetis/shallowwater_eq.py
index f693592..dc4ea22 100644
--- a/thetis/shallowwater_eq.py
+++ b/thetis/shallowwater_eq.py
@@ -609,7 +609,7 @@ class HorizontalViscosityTerm(ShallowWaterMomentumTerm):
                     )
 
         if self.options.use_grad_depth_viscosity_term:
-            f += -dot(self.u_test, dot(grad(total_h)/total_h, stress))*self.dx
+            f += -dot(self.u_test, dot(stress, grad(total_h)/total_h))*self.dx
 
         return -f
 
-- 
2.43.0


From ca528eb007198749b75660f5ab2d7009228dffe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:14 +0000
Subject: [PATCH 48/60] fix: weak gradient in SmagorinskyViscosity misses the
 facets of the extruded direction

---
 thetis/utility3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/utility3d.py b/thetis/utility3d.py
index 645771b..8656006 100644
--- a/thetis/utility3d.py
+++ b/thetis/utility3d.py
@@ -956,8 +956,8 @@ class SmagorinskyViscosity(object):
                 for ix in range(2):
                     i = 2*iuv + ix
                     vol_term = -inner(Dx(test_grad[i], ix), uv[iuv])*dx
-                    int_term = inner(avg(uv[iuv]), jump(test_grad[i], normal[ix]))*dS_v
-                    ext_term = inner(uv[iuv], test_grad[i]*normal[ix])*ds_v
+                    int_term = inner(avg(uv[iuv]), jump(test_grad[i], normal[ix]))*(dS_v + dS_h)
+                    ext_term = inner(uv[iuv], test_grad[i]*normal[ix])*(ds_v + ds_surf + ds_bottom)
                     rhs_terms.extend([vol_term, int_term, ext_term])
             l = sum(rhs_terms)
             prob = LinearVariationalProblem(a, l, self.grad)
-- 
2.43.0


From 5bd6ec665f5701b8df8cad7fce46194c83eb619e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:14 +0000
Subject: [PATCH 49/60] fix: KineticEnergyCalculator stores the interpolated
 energy

---
 thetis/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/diagnostics.py b/thetis/diagnostics.py
index 975dec8..722c92a 100644
--- a/thetis/diagnostics.py
+++ b/thetis/diagnostics.py
@@ -245,7 +245,7 @@ class KineticEnergyCalculator(DiagnosticCalculator):
             self.projector.project()
         else:
             assert hasattr(self, 'interpolator')
-            self.interpolator.assemble()
+            self.interpolator.assemble(tensor=self.ke)
 
 
 class DualWeightedResidual2D(DiagnosticCalculator):
-- 
2.43.0


From 21116a4171803e2bd81e3e00dda9db9d63383ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:14 +0000
Subject: [PATCH 50/60] fix: undefined name in the error message of
 DualWeightedResidual2D

---
 thetis/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/diagnostics.py b/thetis/diagnostics.py
index 722c92a..fe534ef 100644
--- a/thetis/diagnostics.py
+++ b/thetis/diagnostics.py
@@ -283,7 +283,7 @@ class DualWeightedResidual2D(DiagnosticCalculator):
             dim = mesh2d.topological_dimension
             raise ValueError(f"Expected a mesh of dimension 2, not {dim}")
         if mesh2d != dual.ufl_domain():
-            raise ValueError(f"Mismatching meshes ({mesh2d} vs {func.ufl_domain()})")
+            raise ValueError(f"Mismatching meshes ({mesh2d} vs {dual.ufl_domain()})")
         self.F = replace(self.form, {TestFunction(self.space): dual})
 
     @abstractmethod
-- 
2.43.0


From 8053964976b35d76503e0607ebbe3b36019017ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:14 +0000
Subject: [PATCH 51/60] fix: NCOM interpolators accept data without masked
 values

---
 thetis/forcing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thetis/forcing.py b/thetis/forcing.py
index cb09ede..40bf10a 100644
--- a/thetis/forcing.py
+++ b/thetis/forcing.py
@@ -312,7 +312,8 @@ class SpatialInterpolatorNCOMBase(interpolation.SpatialInterpolator):
         assert varkey is not None, 'Could not find variable in file'
         vals = ncfile[varkey][:]  # shape (nz, lat, lon) or (lat, lon)
         is3d = len(vals.shape) == 3
-        land_mask = numpy.all(vals.mask, axis=0) if is3d else vals.mask
+        vals_mask = numpy.ma.getmaskarray(vals)
+        land_mask = numpy.all(vals_mask, axis=0) if is3d else vals_mask
 
         # build 2d mask
         mask_good_values = ~land_mask
@@ -405,7 +406,7 @@ class SpatialInterpolatorNCOM3d(SpatialInterpolatorNCOMBase):
 
         # find 3d mask where data is not defined
         vals = vals[:, self.ind_lat, self.ind_lon]
-        self.good_mask_3d = ~vals.mask
+        self.good_mask_3d = ~numpy.ma.getmaskarray(vals)
 
         # construct vertical grid
         zm = self._get_forcing_grid('model_zm.nc', 'zm')
-- 
2.43.0


From ae760e51668bae0f35787361298744c23590fb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:14 +0000
Subject: [PATCH 52/60] fix: ROMS interpolator fills targets outside the grid
 from the nearest valid data

---
 thetis/forcing.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/thetis/forcing.py b/thetis/forcing.py
index 40bf10a..a318e57 100644
--- a/thetis/forcing.py
+++ b/thetis/forcing.py
@@ -701,6 +701,13 @@ class SpatialInterpolatorROMS3d(interpolation.SpatialInterpolator):
         lon = ncfile['lon_rho'][:]
         self.mask = ncfile['mask_rho'][:].astype(bool)
         self.nodes, self.ind_lat, self.ind_lon = self._get_subset_nodes(lat, lon, self.latlonz_array[:, 0], self.latlonz_array[:, 1])
+        # include nearest valid points, needed for nearest neighbor filling
+        from scipy.spatial import cKDTree
+        valid_nodes = numpy.nonzero(self.mask.ravel())[0]
+        valid_latlon = numpy.vstack((lat.ravel(), lon.ravel())).T[valid_nodes]
+        dist, ix = cKDTree(valid_latlon).query(self.latlonz_array[:, :2])
+        self.nodes = numpy.unique(numpy.concatenate((self.nodes, valid_nodes[ix])))
+        self.ind_lat, self.ind_lon = numpy.unravel_index(self.nodes, lat.shape)
         lat_subset = lat[self.ind_lat, self.ind_lon]
         lon_subset = lon[self.ind_lat, self.ind_lon]
         self.mask = self.mask[self.ind_lat, self.ind_lon]
-- 
2.43.0


From 5f18518948cf4694895d38a0274a6fbdc6410f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:07 +0000
Subject: [PATCH 53/60] fix: GridInterpolator normalization with points that
 share a coordinate

---
 thetis/interpolation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thetis/interpolation.py b/thetis/interpolation.py
index 1c897fe..565c9d6 100644
--- a/thetis/interpolation.py
+++ b/thetis/interpolation.py
@@ -170,6 +170,9 @@ class GridInterpolator(object):
                 max = x.max()
                 if scale is None:
                     scale = max - min
+                if scale == 0:
+                    # all target points share this coordinate
+                    scale = 1.
                 a = 1./scale
                 b = -min*a
                 return a, b
-- 
2.43.0


From 4b2550ac2cc2f584fedfb19251914f93c6eedd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:07 +0000
Subject: [PATCH 54/60] fix: detectors and time series of vector fields in flux
 element spaces

---
 thetis/utility.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thetis/utility.py b/thetis/utility.py
index af77d2d..6788dc7 100755
--- a/thetis/utility.py
+++ b/thetis/utility.py
@@ -1177,7 +1177,8 @@ def vom_interpolator_functions(solver_obj, field_names, locations):
     for field_name in field_names:
         field = solver_obj.fields[field_name]
 
-        if isinstance(field.function_space().ufl_element(), VectorElement):
+        if len(field.ufl_shape) > 0:
+            # any vector valued field, also in the RT and BDM spaces
             P0DG = VectorFunctionSpace(vom, "DG", 0)
             P0DG_input_ordering = VectorFunctionSpace(vom.input_ordering, "DG", 0)
         else:
-- 
2.43.0


From f55c4d95fc5cd2af25f8bc73a8c13bda5c62fb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:07 +0000
Subject: [PATCH 55/60] fix: optimisation exports treat a single vector-valued
 control as one function

---
 thetis/optimisation.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/thetis/optimisation.py b/thetis/optimisation.py
index 5da9380..5d90ea3 100644
--- a/thetis/optimisation.py
+++ b/thetis/optimisation.py
@@ -125,9 +125,8 @@ class DeferredExportManager(object):
               are first copied. The list may contain different functions in subsequent calls,
               but their function space should remain the same.
         """
-        try:
-            len(functions)
-        except (TypeError, NotImplementedError):
+        if not isinstance(functions, (list, tuple)):
+            # NOTE a single vector valued function has a length as well
             functions = [functions]
 
         if self.export_manager is None:
@@ -201,12 +200,9 @@ class DerivativesExportOptimisationCallback(DeferredExportManager, OptimisationC
     def callback(self, *args):
         if len(args) != 3:
             raise TypeError("DerivativesExportOptimisationCallback called with wrong number of arguments: should be used for derivative_cb_post callback only.")
-        try:
-            # get name from controls args[-1]
-            names = [function.name() for function in args[-1]]
-        except (TypeError, NotImplementedError):
-            # args[-1] is not a list but a single control
-            names = [args[-1].name()]
+        # get names from controls args[-1], which may be a single control
+        controls = args[-1] if isinstance(args[-1], (list, tuple)) else [args[-1]]
+        names = [function.name() for function in controls]
         self.export(args[1], suggested_names=names)
 
 
-- 
2.43.0


From 0eaa5fd89eb23e915705fb93171b3853e3d64bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:07 +0000
Subject: [PATCH 56/60] fix: SUPG stabilisation of several tracers in one
 system

---
 thetis/tracer_eq_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/tracer_eq_2d.py b/thetis/tracer_eq_2d.py
index 3db3ee0..a62d59c 100644
--- a/thetis/tracer_eq_2d.py
+++ b/thetis/tracer_eq_2d.py
@@ -492,10 +492,10 @@ class TracerEquation2D(Equation):
         Apply SUPG stabilization in the sense of modifying the test function.
         """
         unorm = self.options.horizontal_velocity_scale
-        self.cellsize = anisotropic_cell_size(self.function_space.mesh())
+        self.cellsize = anisotropic_cell_size(self.function_space[0].mesh())
         tau = 0.5*self.cellsize/unorm
         D = self.options.horizontal_diffusivity_scale
         Pe = 0.5*unorm*self.cellsize/D
         tau = conditional(D > 0, min_value(tau, Pe/3), tau)
-        inc = tau*dot(self.velocity, grad(self.test))
+        inc = tau*dot(self.velocity, grad(test_function))
         return test_function + conditional(unorm > 0, inc, 0)
-- 
2.43.0


From 7c3bf1914f1bbe67c3c7aea31f9bfcf9d53669d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:07 +0000
Subject: [PATCH 57/60] fix: tidal velocity sets all components of the velocity
 field

---
 thetis/forcing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/forcing.py b/thetis/forcing.py
index a318e57..d814475 100644
--- a/thetis/forcing.py
+++ b/thetis/forcing.py
@@ -1095,8 +1095,8 @@ class TidalBoundaryForcing(ABC):
                     lat_vel[node] = 0
         if self.compute_velocity:
             uv = self.vect_rotator(lon_vel, lat_vel)
-            uv_data[self.nodes, 0] = uv[0][self.nodes]
-            uv_data[self.nodes, 1] = uv[1][self.nodes]
+            for i, component in enumerate(uv):
+                uv_data[self.nodes, i] = component[self.nodes]
 
 
 class TPXOTidalBoundaryForcing(TidalBoundaryForcing):
-- 
2.43.0


From ea2d0fa09349cc673e38e93d4d5f8e75064de9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:47:10 +0000
Subject: [PATCH 58/60] fix: functional callback refuses use before the
 evaluation

---
 thetis/optimisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/optimisation.py b/thetis/optimisation.py
index 5d90ea3..78bb8c6 100644
--- a/thetis/optimisation.py
+++ b/thetis/optimisation.py
@@ -270,7 +270,7 @@ class FunctionalOptimisationCallback(DiagnosticOptimisationCallback):
     name = 'functional'
 
     def compute_values(self, *args):
-        if len(args) == 0:
+        if len(args) < 2:
             raise TypeError('FunctionalOptimisationCallback can be used as _post callback only.')
         return [args[0]]
 
-- 
2.43.0


From c5ff0158d2812e295ef035256efc397367da28d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:47:10 +0000
Subject: [PATCH 59/60] fix: 3D view of a 2D field keeps the nodes of its
 element

---
 thetis/utility.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/thetis/utility.py b/thetis/utility.py
index 6788dc7..ce16ce5 100755
--- a/thetis/utility.py
+++ b/thetis/utility.py
@@ -509,12 +509,17 @@ def extend_function_to_3d(func, mesh_extruded):
     family = ufl_elem.family()
     degree = ufl_elem.degree()
     name = func.name()
+    # the data is shared, so the horizontal element must have the same nodes;
+    # Firedrake's default variant is 'spectral'
     if isinstance(ufl_elem, firedrake.VectorElement):
         # vector function space
+        variant = ufl_elem.sub_elements[0].variant() or 'spectral'
         fs_extended = get_functionspace(mesh_extruded, family, degree, 'R', 0,
-                                        dim=2, vector=True)
+                                        dim=2, vector=True, variant=variant)
     else:
-        fs_extended = get_functionspace(mesh_extruded, family, degree, 'R', 0)
+        variant = ufl_elem.variant() or 'spectral'
+        fs_extended = get_functionspace(mesh_extruded, family, degree, 'R', 0,
+                                        variant=variant)
     func_extended = Function(fs_extended, name=name, val=func.dat._data)
     func_extended.source = func
     return func_extended
-- 
2.43.0


From da34276cc3de7778e3dfde55b6a19c1323f4ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:47:10 +0000
Subject: [PATCH 60/60] fix: coordinate fields on periodic meshes share the
 nodes of the mesh coordinates

---
 thetis/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index 1fa8738..549e660 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -483,7 +483,7 @@ class FlowSolver(FrozenClass):
         # mesh velocity etc fields must be in the same space as 3D coordinates
         coord_is_dg = element_continuity(self.mesh2d.coordinates.function_space().ufl_element()).horizontal == 'dg'
         if coord_is_dg:
-            coord_fs = FunctionSpace(self.mesh, 'DG', 1, vfamily='CG', vdegree=1)
+            coord_fs = get_functionspace(self.mesh, 'DG', 1, 'CG', 1)
             coord_fs_2d = self.function_spaces.P1DG_2d
         else:
             coord_fs = self.function_spaces.P1
-- 
2.43.0

