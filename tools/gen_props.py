#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that anchors are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))

prop('C01', 'Time loop: clock, iteration count, export schedule and termination',
 'While a 2D or 3D run iterates, after n time steps the simulation time equals its start value plus n times the time step, the iteration counter has grown by n, and every step advanced the model exactly once from the time at the beginning of that step. An export (export counter +1, user export hook called) happens after exactly those steps whose time first reaches a multiple of the export interval counted from the start of the loop, and the per-step diagnostics are evaluated once after every step at the new time. The loop stops at the first time not earlier than the requested end time (or end date, converted to seconds relative to the initial date and start time) and never before it.',
 ['histories','configurations','inputs'], 'every start time, time step, export interval, end time/date, number of steps (unbounded) and option combination',
 'The stable tests never run a time loop of the solvers; system tests sample a few round-number configurations starting at t=0.',
 ['thetis/solver2d.py','thetis/solver.py'],
 [('loop over steps, export trigger','thetis/solver2d.py FlowSolver2d.create_iterator / iterate'),('3D loop','thetis/solver.py FlowSolver.iterate')],
 [('simulation_time, iteration, i_export','clock and counters','FlowSolver2d/FlowSolver attributes')],['solver state after each step, exported files'])

prop('C02', 'Restart continues the stored run: state, clock, counters, next file index',
 'Loading a stored state restores the clock to the stored simulation time (or the requested time), the export counter to the stored export, and the iteration counter consistently, so the continued run has the time line of the uninterrupted run; a missing stored time falls back to iteration times time step. Continuing in the same output directory never overwrites the loaded export (next file index is stored+1 and the initial state is not re-exported), while a different directory re-exports the initial state at the loaded index. All exporters of the solver get the same next index; the mesh of the continued run is read from a checkpoint of the stored one.',
 ['histories','configurations'], 'every export index, time step, export interval, stored metadata (time present/absent, initial date present/absent) and directory choice',
 'Restart is exercised by one or two system tests outside the stable set with fixed, exactly divisible intervals.',
 ['thetis/solver2d.py','thetis/solver.py','thetis/exporter.py','thetis/utility.py'],
 [('load_state','thetis/solver2d.py FlowSolver2d.load_state, thetis/solver.py FlowSolver.load_state'),('index propagation','thetis/exporter.py ExportManager/ExporterBase.set_next_export_ix')],
 [('i_export,next_export_t,iteration,simulation_time','counters','solver attributes')])

prop('C03', 'Exporters: file naming, index sequence and store/load round trip',
 'Each export of a field goes to a file whose name is determined by the field prefix and the zero-padded export index, indices advance by exactly one per export and continue from any index that was set, and loading index i reads exactly the file that export i wrote, with its metadata. Exporting a group of fields exports every requested field exactly once per call with the caller\'s time; exports made during an optimisation write the functions, controls or derivatives handed to that call, each once and under its own name.',
 ['histories','inputs'], 'all sequences of set-index/export/load calls, all indices and prefixes, all field subsets',
 'Tests export a handful of times from index 0 with fixed names.',
 ['thetis/exporter.py','thetis/optimisation.py'], [('naming and counters','thetis/exporter.py ExporterBase, VTKExporter, HDF5Exporter, ExportManager')],[('next_export_ix','index of next export','ExporterBase')])

prop('C04', 'Discrete water volume is conserved by the free-surface equation',
 'For every velocity, elevation and bathymetry state, element pair and solver formulation, the sum over all test functions of the discretised divergence terms of the free-surface equation (2D depth-averaged and the 3D mode-split one) has no interior contribution: what leaves a cell through an interior facet enters its neighbour, the quantity transported is total depth times velocity (bathymetry times velocity in the linear model), and volume changes only through open boundaries and explicit volume sources; closed boundaries contribute nothing. With wetting and drying the conserved quantity is the modified total depth, so the mass term carries its displacement.',
 ['inputs','configurations'], 'all field values (pointwise), all element families, boundary-condition dictionaries, wetting-drying on/off, nonlinear on/off',
 'Tests check volume for a few runs and initial states; cancellation must hold for every state.',
 ['thetis/shallowwater_eq.py','thetis/utility.py'],
 [('continuity terms','thetis/shallowwater_eq.py HUDivTerm, ContinuitySourceTerm, BathymetryDisplacementMassTerm, ModeSplit2DEquations'),('total depth','thetis/utility.py DepthExpression')])

prop('C05', 'Open-boundary data are mapped to consistent exterior states',
 'For each supported combination of prescribed boundary data (elevation, velocity vector, normal velocity, outward flux and their pairs) the 2D shallow-water equations use an exterior state that equals the prescribed data where given and the interior solution otherwise, a prescribed flux being the flux actually imposed (normal velocity times total depth times boundary length equals it); a boundary with no data is impermeable, and an unsupported combination is rejected with an error. If the prescribed state equals the interior state the boundary flux reduces to the interior flux (consistency).',
 ['configurations','inputs'], 'all subsets of boundary-data keys, all values, all states, linear/nonlinear',
 'Tests cover a few combinations on smooth flows and mostly check convergence order.',
 ['thetis/shallowwater_eq.py'],[('mapping','thetis/shallowwater_eq.py ShallowWaterTerm.get_bnd_functions'),('use in fluxes','ExternalPressureGradientTerm, HUDivTerm, HorizontalAdvectionTerm')])

prop('C06', 'Dissipative terms dissipate, Coriolis does no work, still water stays still',
 'For every state, the bottom, wall and linear friction, turbine drag, and Lax-Friedrichs terms of the 2D momentum equation never increase kinetic energy, the Coriolis term does no work, the viscosity operator is symmetric in trial and test function (constant wetted depth, closed boundaries, no depth-gradient correction), wind stress, atmospheric pressure gradient and momentum sources enter once with their sign, and with zero velocity and uniform elevation over any bathymetry all the elevation-gradient contributions cancel so no acceleration results.',
 ['inputs','configurations'], 'all states and parameter values (friction by drag coefficient, Manning or Nikuradse), all element families',
 'A sign or averaging error only shows for particular states; tests sample smooth or uniform flows.',
 ['thetis/shallowwater_eq.py','thetis/utility.py'],[('drag terms','QuadraticDragTerm, LinearDragTerm, TurbineDragTerm'),('Lax-Friedrichs, Coriolis, viscosity','HorizontalAdvectionTerm, CoriolisTerm, HorizontalViscosityTerm'),('pressure gradient','ExternalPressureGradientTerm')])

prop('C07', 'Wetting-drying total depth is positive, monotone and consistent',
 'With wetting and drying on, the total depth is positive for every elevation and bathymetry and every positive smoothing parameter, increases with elevation, never lies below the plain depth, and exceeds it by at most half the parameter; with it off and the nonlinear option on the total depth is exactly bathymetry plus elevation, and in the linear model exactly the bathymetry. The boundary and displacement formulations agree with that same depth.',
 ['inputs'], 'all elevations, bathymetries, parameters', 'Point samples cannot establish positivity for all values.',
 ['thetis/utility.py'],[('DepthExpression','thetis/utility.py DepthExpression'),('bathymetry displacement mass','thetis/shallowwater_eq.py BathymetryDisplacementMassTerm')])

prop('C08', 'Equations are the sum of their terms, partitioned by label',
 'An equation\'s residual for a set of labels is exactly the sum of the residuals of the terms carrying one of those labels, each once, with current and lagged solution, fields and boundary data passed through unchanged; the explicit, implicit, source and nonlinear parts therefore add up to the full residual. Labels can be changed afterwards for one or several terms, and an unknown term or label is rejected.',
 ['inputs','histories'], 'all sequences of term additions/relabelings and all label sets', 'Tests use fixed built-in equations and the "all" label.',
 ['thetis/equation.py'],[('Equation','thetis/equation.py Equation.add_term/label_term/select_terms/residual/jacobian')])

prop('C09', 'Tracer transport conserves mass and preserves constants',
 'In the 2D and 3D tracer equations, interior advective and diffusive fluxes cancel between neighbouring cells for every tracer and velocity state (conservative form), closed boundaries carry no flux (a 2D boundary without data at most carries the interior value out with the interior normal velocity), and the upwind flux takes the value from the side the flow comes from; a spatially constant tracer is left unchanged by diffusion and by the non-conservative advection up to the velocity divergence. Sources enter with positive sign, boundary data prescribe the exterior value or flux and default to the interior value, and the diffusion operator is symmetric away from open boundaries.',
 ['inputs','configurations'], 'all tracer, velocity, diffusivity states, all boundary dictionaries, Lax-Friedrichs on/off','Convergence tests use smooth exact solutions; sign/side errors at particular facets or boundary types are not sampled.',
 ['thetis/tracer_eq_2d.py','thetis/tracer_eq.py'],[('2D terms','thetis/tracer_eq_2d.py'),('3D terms','thetis/tracer_eq.py')])

prop('C10', 'Sediment exchange: what leaves the bed enters the water',
 'The erosion and deposition that change the bed level in the sediment-bed (Exner) equation are, after the porosity and morphological factors, exactly the opposite of the exchange in the suspended-sediment equation (conservative or depth-averaged form), for every state, and with a continuous bathymetry the divergence of bedload and the slope-failure (slide) diffusion do not create sediment in the interior; the slide diffusion only flattens. Closed boundaries carry no bedload.',
 ['inputs','configurations'],'all fields, porosity, morphological factors, depth-integrated or averaged sediment','Existing tests compare a few runs to stored values.',
 ['thetis/exner_eq.py','thetis/sediment_eq_2d.py'],[('Exner terms','thetis/exner_eq.py'),('sediment source','thetis/sediment_eq_2d.py')])

prop('C11', 'Runge-Kutta tableaux are consistent and of their stated order',
 'Every Runge-Kutta scheme offered satisfies the row-sum and weight-sum conditions and the classical order conditions up to the order it advertises, explicit schemes are strictly lower triangular and diagonally-implicit ones lower triangular, the Shu-Osher coefficients derived from a tableau reproduce it, and the pairs used together in IMEX schemes share their abscissae/weights as coupling order conditions require. The effective CFL coefficient of the explicit SSP schemes (forward Euler, SSPRK33, ERKLSPUM2, ERKLPUM2) is never above the true SSP coefficient, and schemes that advertise stability on the imaginary axis or L-stability have it.',
 ['inputs','programs'],'all schemes, all problems (order conditions are necessary and sufficient for every smooth problem)','Convergence tests cover some schemes on one ODE and tolerate small coefficient errors.',
 ['thetis/rungekutta.py','thetis/implicitexplicit.py'],[('tableaux','thetis/rungekutta.py'),('pairing','thetis/implicitexplicit.py')])

prop('C12', 'Time integrators perform the update of their scheme',
 'For every right-hand side, step size, and start state, one step of each time integrator (explicit RK in Butcher and Shu-Osher form, diagonally implicit RK, forward Euler, Crank-Nicolson, steady state, leapfrog AM3, IMEX) yields exactly the update its formula defines, with forcing evaluated at the stage times of the scheme (for the implicit integrators of the 3D equations the coefficients that depend on other fields are lagged as documented), and its stored previous state updated for the next step. The step size in effect is always the most recently set one.',
 ['inputs','histories'],'all right-hand sides (uninterpreted), step sizes, start values, sequences of steps','Tests integrate one linear ODE or none; a wrong stage time or lag shows only with time-dependent forcing.',
 ['thetis/rungekutta.py','thetis/timeintegrator.py','thetis/implicitexplicit.py'],[('integrators','thetis/rungekutta.py, thetis/timeintegrator.py, thetis/implicitexplicit.py')])

prop('C13', 'Coupled integrators advance every component once, in order, at the right time',
 'In each coupled time step every active sub-model (flow, tracers, suspended sediment, bed level; in 3D also momentum, salinity, temperature, turbulence, mesh) is advanced over exactly one step from the current time in the documented order, limiters run after each limited field was advanced, and user forcings are evaluated at the stage times (in the 3D leap-frog scheme, at a time within the current step). In 3D the moving-mesh velocity and the coordinates are consistent with the free-surface change across stages (mesh velocity times step equals the elevation change at the surface and vanishes at the bed).',
 ['configurations','histories'],'all option combinations, all step sizes','Only a few option combinations are exercised by system tests outside the stable set.',
 ['thetis/coupled_timeintegrator.py','thetis/coupled_timeintegrator_2d.py','thetis/utility3d.py'],[('2D','thetis/coupled_timeintegrator_2d.py'),('3D','thetis/coupled_timeintegrator.py'),('ALE','thetis/utility3d.py ALEMeshUpdater')])

prop('C14', 'Time interpolation of forcing data is exact, bounded and history independent',
 'Interpolating a time series at any time inside its range returns the linear interpolant of the two enclosing records (exact at the records, between their values), whatever times were queried before; the range is half open, from the first record up to but excluding the last, and a query outside it is rejected. Forcing update through the interpolator sets fields to that value.',
 ['inputs','histories'],'all strictly increasing series, all query times, all query sequences','Tests sample a few times in order; cache errors need particular query sequences.',
 ['thetis/interpolation.py'],[('LinearTimeInterpolator','thetis/interpolation.py'),('NetCDFTimeSeriesInterpolator','thetis/interpolation.py')])

prop('C15', 'Time search in file collections returns the enclosing record',
 'For any collection of non-overlapping time-series files with increasing time stamps and any simulation time within its span, the search returns a file and record index whose time stamp is the last one not after (or, for the next-record search, the first one after) the requested time (to a tolerance of a microsecond), and raises an error when no record qualifies. Conversion between time stamps and simulation time is consistent for any initial date and time zone.',
 ['inputs','configurations'],'all file collections (numbers of files and records), time units, initial dates, query times','Tests use one regular collection.',
 ['thetis/interpolation.py','thetis/timezone.py'],[('NetCDFTimeSearch, DailyFileTimeSearch, NetCDFTimeParser','thetis/interpolation.py'),('timezone','thetis/timezone.py')])

prop('C16', 'Spatial interpolation reproduces constants and linear data within bounds',
 'Interpolating gridded data to points uses non-negative weights that sum to one inside the data hull, so constants and linear fields are reproduced and no new extrema are created; outside points are rejected or filled from the nearest data as configured, readers that drop masked source points never let them influence a result, and nearest-neighbour fill changes only missing values.',
 ['inputs'],'all grids, data and target points','Tests sample a few structured grids.',
 ['thetis/interpolation.py','thetis/coordsys.py'],[('GridInterpolator, SpatialInterpolator2d','thetis/interpolation.py')])

prop('C17', 'Options accept only valid values; frozen containers refuse unknown names',
 'Assigning to a typed option trait succeeds exactly for values in its documented domain (positive, non-negative, bounded numbers; Constants; Functions or Constants; scalar expressions; vector expressions; timezone-aware dates; parameter dictionaries; integral floats are stored as integers in integer options) and is otherwise refused with an error that leaves the previous value in place; a read returns what was last accepted. A paired choice always has an option group of the kind of the selected value; selecting the current value again keeps the group and its settings; updating a container from another container or a dictionary reproduces choices and group settings in any order of the entries. Two option containers never share a group, dictionary or list. Frozen containers refuse unknown names by attribute assignment outside methods marked as unfreezing, also after such a method was nested or raised. Field dictionaries accept by item or attribute assignment only Functions and Constants under known names (any name for mixed Functions). Tracers are registered once, with exactly the settings given, also when a system of tracers gives settings for some of them only. Constructor keywords are screened by traitlets, which only warns, and bulk dictionary methods of a field dictionary are not checked: both are outside this property.',
 ['inputs','histories'],'all numbers for the numeric domains; all histories of choices, assignments, nested and failing methods','Tests try a few values in one order.',
 ['thetis/configuration.py','thetis/utility.py','thetis/options.py'],[('traits, paired options, update, frozen containers','thetis/configuration.py'),('unfrozen, FrozenClass, FieldDict/AttrDict','thetis/utility.py'),('groups and tracer registration','thetis/options.py')])

prop('C18', 'Slope limiter: bounded by neighbours and mass preserving',
 'For every discontinuous linear field (scalar, or vector: componentwise), the bounds the limiter uses at a vertex are the extrema of the means of the cells around it and of the arithmetic nodal means of the boundary facets (lateral, surface, bottom) that contain it; limiting keeps every cell mean (on the current, possibly moved mesh) and leaves no value outside those bounds. Other spaces are refused.',
 ['inputs'],'all field values; meshes up to a few cells','Tests run few fields; kernel errors can hide at boundary facets or for vector fields.',
 ['thetis/limiter.py'],[('VertexBasedP1DGLimiter','thetis/limiter.py')])

prop('C19', '2D-3D transfers and mesh motion are exact',
 'Expanding a 2D field to 3D gives each 3D node the value of the 2D node below it; extracting the surface or bottom of a 3D field (or of the top/bottom element: its top, bottom or their average) returns exactly those values and inverts the expansion; flux (HDiv) fields are in addition scaled by the element height. The 3D view of a 2D field, of whichever nodal space, has the value of that field everywhere in the column. The moving mesh (plain or periodic) stays in place when the elevation is zero, keeps the bed fixed, puts the top at the elevation and keeps the levels ordered; the mesh velocity is the displacement of the nodes over the time step factor; element heights are the distances between the levels. Extruding a mesh puts nodes at the requested sigma levels between bathymetry and surface.',
 ['inputs'],'all field values, bathymetries, elevations; small meshes, few layer counts and element pairs','Tests cover a few element types and polynomials.',
 ['thetis/utility3d.py','thetis/utility.py','thetis/solver.py'],[('ExpandFunctionTo3d, SubFunctionExtractor, ALEMeshUpdater','thetis/utility3d.py'),('coordinate fields','thetis/solver.py FlowSolver.create_fields'),('extrude_mesh_sigma, compute_elem_height, get_facet_mask','thetis/utility.py')])

prop('C20', 'Turbulence closure keeps its fields within physical limits',
 'After every update of the generic length scale model, for every flow state, turbulent kinetic energy, dissipation, length scale, the second closure variable, viscosity and diffusivity are finite and at or above their configured minima, length scale and dissipation satisfy the algebraic relations to k and psi with the Galperin-type limit when enabled (the length scale may then fall below its minimum only where that limit is smaller); production and destruction source terms are split so that destruction is treated implicitly with non-negative coefficient. The Pacanowski-Philander (Richardson number) scheme gives viscosities between zero and the maximum, never increasing with stability, and diffusivities (above background) not exceeding the viscosity.',
 ['inputs','histories'],'all shear, buoyancy frequency, k, psi values and model parameters','Tests run one 1D case, outside the stable set.',
 ['thetis/turbulence.py'],[('GLS model','thetis/turbulence.py GenericLengthScaleModel'),('PP','PacanowskiPhilanderModel'),('sources','TKESourceTerm, PsiSourceTerm')])

prop('C21', 'Stability functions and closure constants satisfy their defining relations',
 'For every supported closure the computed steady-state shear number (where one exists) solves the production-dissipation balance, the neutral stability function is consistent with it, the kappa-to-sigma relations are mutually inverse and c3minus gives the requested steady Richardson number, the two published parameterisations of one closure agree, and with the (default) limits on both numbers evaluations are clipped to the admissible range so the stability functions stay positive and finite for any input.',
 ['inputs'],'all shear/buoyancy numbers and parameter values','Tests compare few constants to tolerance.',
 ['thetis/stability_functions.py'],[('StabilityFunctionBase and subclasses','thetis/stability_functions.py')])

prop('C22', 'Diagnostics callbacks: windows, append semantics and correct integrals',
 'A diagnostic is evaluated exactly when the simulation time lies inside its start/end window (a bound of zero counts as given), every evaluation writes exactly one record (time and values of that call): without an index at the first free record of its history, with an index at the position of that index counted from the first record of the file; no other record is altered, and appending works whether or not the file exists. Conservation diagnostics report the current integral (volume: elevation plus depth; tracer mass: concentration times total depth, or the conservative variable itself) and its difference relative to a non-zero initial value; min/max and overshoot diagnostics report global extrema against the initial range; time-integrated diagnostics accumulate the trapezoidal integral over steps; detectors, profiles, transects and time series report every field (scalar, vector or flux) at their own points in order, detectors outside the mesh being dropped or moved to the nearest cell centre within the given distance; every check requested by the options is registered once for its own field.',
 ['histories','inputs'],'all call sequences, times, values, windows','Tests run short fixed sequences outside the stable set.',
 ['thetis/callback.py','thetis/utility.py'],[('callbacks','thetis/callback.py')])

prop('C23', 'Sediment formulas stay in their physical range',
 'For every flow state and grain size the critical Shields parameter, settling velocity and bed roughness are positive, the near-bed to depth-averaged concentration ratio is at least one, the velocity correction factor lies in [0,1], equilibrium concentration and erosion are non-negative and vanish below the threshold of motion, deposition is non-negative, and bedload without slope or secondary-current corrections points along the flow and vanishes below threshold.',
 ['inputs'],'all velocities, depths, grain sizes, densities','Tests compare two runs with stored values.',
 ['thetis/sediment_model.py'],[('SedimentModel','thetis/sediment_model.py')])

prop('C24', 'Turbine model: thrust, power and spacing constraints are consistent',
 'Tabulated thrust and power curves are interpolated linearly between their entries (exact at entries, within the bounds of the neighbours, zero below the first and from the last tabulated speed on), the density of a discrete farm is what was there before plus one normalised bump per added turbine located at the turbine position, the drag coefficient of a turbine is half its thrust area (rotor thrust coefficient times rotor area plus support drag times support area) over the squared upwind velocity correction, its power is half density times rotor area times power coefficient times the cube of the corrected speed, number of turbines and power of a farm are the integrals of density and density times power, the farm functional accumulates power times step, and the minimum-distance constraint values and derivatives agree with the squared distances minus the squared minimum for every layout.',
 ['inputs'],'all tables, speeds, turbine numbers and positions','Tests use a few turbines.',
 ['thetis/turbines.py'],[('turbines','thetis/turbines.py')])

prop('C25', 'Coordinate and vector rotation transforms are invertible isometries',
 'Transforming points to another coordinate system and back returns the points, non-finite points come back as not-a-number instead of wrong values, and rotating vectors between coordinate systems preserves their length and is undone by the inverse rotation. The planar Coriolis parameter uses the beta-plane formula of the given latitude.',
 ['inputs'],'all coordinates and vectors','Tests sample one UTM zone.',
 ['thetis/coordsys.py','thetis/utility.py'],[('coordsys','thetis/coordsys.py'),('beta_plane_coriolis_*','thetis/utility.py')])

prop('C26', 'Surface forcing: wind stress, pressure and tidal data follow their formulas',
 'For every wind vector and bulk formula, the wind stress points along the wind, has magnitude air density times drag coefficient times wind speed squared with a positive drag coefficient, never decreases in magnitude with wind speed (continuous up to the published 1 percent steps of the formulas), and is zero for zero wind; forcing fields are updated, in every component, with the data interpolated at the requested time, never extrapolated, and written only to the configured nodes.',
 ['inputs','histories'],'all wind vectors, all times','Tests sample a few values.',
 ['thetis/forcing.py'],[('wind stress and interpolators','thetis/forcing.py')])

prop('C27', 'Equation of state and vertical integrals are consistent',
 'The seawater density follows the documented equation of state for all salinity, temperature and pressure in range (the array and symbolic implementations agree, negative salinity is treated as zero by the Jackett equation, reference density is subtracted exactly once), and vertical integration and vertical velocity discretisations are consistent: integrating a constant gives depth times constant from the correct end, and the diagnosed vertical velocity satisfies discrete continuity with impermeable bed.',
 ['inputs','configurations'],'all values, all fields','Tests sample a few tabulated points.',
 ['thetis/utility3d.py'],[('EOS','thetis/utility3d.py JackettEquationOfState, LinearEquationOfState'),('VerticalIntegrator, VerticalVelocitySolver','thetis/utility3d.py')])

prop('C28', 'Inversion: misfit and regularisation are non-negative and weight each datum once',
 'The observation misfit of a step is a non-negative weighted sum of squared differences between the model field at the stations and the observations interpolated to the current time: each station whose time window contains the time enters exactly once, with its own series, weight (one, or one over the variance of its own observations) and the configured scaling; stations outside their window contribute nothing. The regularisation of a control is non-negative, scaled by its own penalty parameter and the configured factor, and zero for constant controls (for Real-space controls: for the control equal to its prior). The cost is the regularisation once plus the misfit of every step. Every optimiser iteration appends exactly one record (cost, regularisation, misfit, gradient norms and, in real mode, control values) of the last evaluation; exported controls and gradients are the actual values of their own control, and station series hold one record per iteration, of their own station.',
 ['inputs','histories'],'all observation series, station sets, control values','Adjoint tests are outside the stable set and use one setup.',
 ['thetis/inversion_tools.py'],[('inversion tools','thetis/inversion_tools.py')])

prop('C29', 'Automatic time step respects the stability limits',
 'When an explicit integrator asks for automatic stepping, the time step is positive and never exceeds the limit estimated from the smallest element over all processes: in 2D the given fraction (cfl_2d times the safety factor) of element size over wave speed sqrt(g depth) plus advection speed scale; in 3D the CFL number of the explicit integrator times each of the horizontal and vertical advection limits and the horizontal diffusion limit, where element sizes are scaled by normalised node distances that are at most one eighth and never grow with the polynomial degree (and, where a separate 2D step is chosen from the external mode, also its own wave limit). CFL numbers of explicit schemes lie within the linear monotonicity threshold of their tableau. Estimating the limits does not change bathymetry or element sizes. In 3D the export interval is an integer multiple of the step, automatic or not, and with mode splitting the slow step is an integer multiple of the fast step. A user-set step is used unchanged in 2D; in 3D the largest divisor of the export interval not above it is used.',
 ['inputs','configurations'],'all mesh sizes, depths, speeds, export intervals, option combinations','Tests run with a few meshes, mostly with explicit steps.',
 ['thetis/solver2d.py','thetis/solver.py','thetis/utility.py'],[('set_time_step, compute_dt_*','thetis/solver2d.py, thetis/solver.py')])

prop('C30', '3D momentum equation: antisymmetric transfer, dissipative drag, no spurious work',
 'In the 3D momentum equation the Coriolis term does no work, bottom and linear friction never add energy, interior viscous operators are symmetric, pressure-gradient and advective fluxes cancel between neighbouring cells, closed boundaries carry no normal flux, and sources and wind stress enter once with positive sign at the right boundary.',
 ['inputs','configurations'],'all states and parameter values, boundary dictionaries','3D tests are outside the stable set or sample smooth flows.',
 ['thetis/momentum_eq.py'],[('3D momentum terms','thetis/momentum_eq.py')])

prop('C31', 'Set-up wires options, fields, boundaries and initial state into components',
 'Creating a solver builds exactly the fields, equations, boundary data, farms and helper solvers that the chosen options ask for and connects each to the data meant for it: every equation and diagnostic solver receives the function space, bathymetry, coefficients, forcing and friction fields of the option that names it, and nothing of an option that is switched off; each boundary dictionary of the user reaches the equation of its own field; turbine farms and tidal farms are built once with their own options; field metadata and exporters cover the fields to export, each written under its own name; automatic actions at initialisation happen once. Initial conditions given by the user for a field are that field\'s value when the first step starts (zero or the documented background otherwise) also for the turbulence fields, while a continued run keeps the loaded ones; elevation, mesh geometry, mean velocity, diagnostics and turbulence are then made consistent in dependency order before the integrator is initialised.',
 ['configurations','inputs'],'all option combinations (2D: exhaustively; 3D: all triples of switches), all user-given subsets of initial values','No stable test builds a complete solver beyond a few configurations; mis-wired coefficients give plausible results.',
 ['thetis/solver2d.py','thetis/solver.py'],[('create_function_spaces, create_fields, create_equations, create_exporters, initialize','thetis/solver2d.py, thetis/solver.py'),('assign_initial_conditions','thetis/solver2d.py, thetis/solver.py')])

prop('C32', 'Derived fields and helper problems satisfy their definitions',
 'Every derived quantity is the documented function of its inputs, for all fields, meshes and parameters: vorticity is the weak curl of the velocity, kinetic energy is half density times speed squared (written into the field given, on every call), Smagorinsky viscosity is (c_s dx)^2 times the norm of the deformation rate of the velocity (zero for uniform flow, whatever the shape of the layers) clipped to its bounds, velocity magnitudes use exactly the components asked for and respect their minimum; the non-hydrostatic pressure is the one for which the corrected velocities satisfy depth-integrated continuity, with impermeable closed boundaries and no pressure at open ones; mesh consistency numbers, minimum angles, cell widths, anisotropic cell sizes and boundary lengths are those of the cell; error indicators are the residual tested with the given dual, cell by cell; the automatic wetting-drying parameter is cell width times bed slope within its bounds and negative parameters are rejected; restricted projections, sums of sources and domain constants contain exactly what was given.',
 ['inputs','configurations'],'all values of all fields, all option combinations of each helper','None of these helpers is exercised by the stable tests beyond single smooth fields.',
 ['thetis/utility.py','thetis/utility3d.py','thetis/diagnostics.py','thetis/solver2d.py'],[('VorticityCalculator2D, KineticEnergyCalculator, DualWeightedResidual2D','thetis/diagnostics.py'),('SmagorinskyViscosity, VelocityMagnitudeSolver, Mesh3DConsistencyCalculator','thetis/utility3d.py'),('DepthIntegratedPoissonSolver, get_minimum_angles_2d, get_cell_widths_2d, anisotropic_cell_size','thetis/utility.py')])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p)+'\n')
print(len(P))
