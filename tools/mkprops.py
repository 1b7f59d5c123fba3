"""Writes properties.jsonl (kept as source because JSON lines are unreadable to edit)."""
import json, os
S = 'spectralDNS/'
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': [os.path.normpath(S + f) for f in files], 'mechanism': [{'name': n, 'where': os.path.normpath(S + w)} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

p('P01', 'Time marching takes exactly the steps that fit and reports each one once',
  "A solve advances from the configured start time by the step size each integrator call reports as taken, for as long as one more step of the current size ends no later than the end time (to 1e-12), raising the step counter by one per step. After every step the per-step callback, the output hook and the end-of-step hook each run exactly once, in that order, and see the time, step counter and solution of the completed step; an end-of-step hook that returns true ends the run there and then. However the loop ends, the end-of-run callback runs exactly once, the output files are closed, and the configured step size is what it was before the run.",
  ['inputs', 'histories', 'configurations'], 'every start time/counter, end time, step size sequence reported by the integrator, every point at which the end-of-step hook stops the run, repeated solves',
  'The tests run one fixed T/dt per solver and look only at the final fields; off-by-one steps, callback order and the early-stop and repeated-solve paths are never observed.',
  ['__init__.py', 'solvers/spectralinit.py', 'solvers/NS.py'],
  [('solve loop', '__init__.py:solve'), ('end-of-step hook', 'solvers/NS.py:end_of_tstep')],
  [('t, tstep, dt', 'simulation clock kept in the parameters')])

p('P02', 'Adaptive stepping accepts only steps within tolerance and lands on the end time',
  "With the error-controlled integrator a step is accepted exactly when its embedded error estimate (largest component-wise root-mean-square, over all modes of all processes, of the error scaled by tolerance*(1+max(|old|,|new|))) is at most one; a rejected trial leaves solution, time and step counter untouched, announces the rejection to the additional callback, and is retried with a smaller step. The next step size is the trial size times 0.8*estimate^(-1/5), limited to a factor between 0.01 and 2 (and never an increase once that step has been rejected). With every integrator, the run ends with the time equal to the end time (within 1e-12), wherever that lies relative to the steps: a step that would pass the end time is shortened to reach it, no other step is changed for the end time's sake, and no step is taken once it is reached.",
  ['inputs', 'histories', 'configurations'], 'every error sequence (any pattern of rejections and acceptances), tolerance, start step, end time, number of components and modes',
  'The tests run the adaptive integrator once with a loose comparison of the end state; step rejection and step-size control are not asserted at all.',
  ['maths/integrators.py', 'solvers/NS.py', '__init__.py'],
  [('step controller', 'maths/integrators.py:adaptiveRK'), ('last step', 'solvers/NS.py:end_of_tstep')],
  [('dt, offset, stage storage', 'controller state carried between steps')])

p('P03', 'Every explicit integrator applies its published update formula at every step',
  "For any right-hand side, any state and any step size, each step of the fourth-order Runge-Kutta, forward Euler, second-order Adams-Bashforth (Euler on the first step of a run, then 3/2 and -1/2 weights on the last two evaluations, each times the step size of its own step) and fifth-order Bogacki-Shampine integrators evaluates the right-hand side at exactly the stage states of its tableau and returns exactly the tableau's combination, updating the solution in place and reporting the step size taken. This holds in every optimisation mode, precision and dimension the integrator is offered in, on the first step of a run as well as later ones, whatever the step counter was when the run began, and when the step size changes between steps.",
  ['histories', 'configurations', 'inputs'], 'every step sequence and starting step counter x {RK4, ForwardEuler, AB2, BS5_fixed} x {numpy, cython, numba, pythran} x {2D, 3D} x {single, double}',
  'Tests run a handful of (solver, integrator, optimisation) combinations with tolerances that a wrong low-order coefficient passes; Forward Euler under cython and 2D cython AB2 are never run.',
  ['maths/integrators.py', 'optimization/cython_integrators.in', 'optimization/numba_module.py', 'optimization/pythran_maths.py', 'optimization/pythran_module.py'],
  [('reference integrators', 'maths/integrators.py'), ('compiled integrators', 'optimization/cython_integrators.in'), ('numba integrators', 'optimization/numba_module.py')],
  [('previous right-hand sides', 'AB2 history and BS5 first-same-as-last stage kept inside the integrator')])

p('P04', 'A run restarted from a checkpoint continues as if it had not been interrupted',
  "For every solver, a checkpoint written at a step holds the complete spectral solution (and the previous one where the scheme needs it), the time and the step counter of that step, so that loading it into a new context and continuing gives the uninterrupted trajectory to round-off for single-step schemes and the implicit two-step channel schemes. The two-step explicit scheme restarts with its first-step formula, never with uninitialised history. Nothing about the continued run depends on the step counter it starts from. The loaders of the channel demo programs restore such a run (time and step counter too in the Rayleigh-Benard one).",
  ['crash_points', 'histories', 'configurations'], 'every step at which the run is interrupted x every solver x integrator x a second solve in the same context',
  'No test reads a checkpoint back or starts from a non-zero step counter.',
  ['h5io/HDF5File.py', 'maths/integrators.py', 'solvers/NS.py', 'solvers/VV.py', 'solvers/MHD.py', 'solvers/Bq2D.py', 'solvers/KMM.py', 'solvers/KMMRK3.py', 'solvers/Coupled.py'],
  [('checkpoint contents', 'solvers/*:get_context'), ('checkpoint writing', 'h5io/HDF5File.py:update'), ('previous step rotation', 'solvers/KMM.py:end_of_tstep')],
  [('checkpoint file', 'current and previous spectral solution with t and tstep')])

p('P05', 'Output appears at exactly the configured steps and holds that step\'s data',
  "Physical-space results are stored exactly at the steps divisible by the result interval and the checkpoint is refreshed exactly at the steps divisible by the checkpoint interval; each stored result is the inverse transform of the spectral solution of that very step, keyed by its step counter, and the checkpoint always holds the latest such solution together with its time and step counter. Results already written stay readable and unchanged by later steps, and the files are named after the configured file name. A program that chooses other fields or slices to store, or its own way of preparing them, gets those, prepared once for each due step and at that step's values.",
  ['histories', 'configurations'], 'every combination of intervals, number of steps, starting step counter, solver and stored field set (including slices and user-replaced result sets)',
  'The tests write files but never open them.',
  ['h5io/HDF5File.py', 'solvers/NS.py', 'solvers/VV.py', 'solvers/MHD.py', 'solvers/Bq2D.py', 'solvers/KMM.py', 'solvers/KMM_RB.py', 'solvers/Coupled.py'],
  [('output hook', 'h5io/HDF5File.py:update'), ('field refresh', 'solvers/*:update_components')],
  [('result file, checkpoint file', 'datasets per step and attributes t, tstep')])

p('P06', 'A kill request stops all processes at one step with a checkpoint of that step',
  "When the kill file appears in the running folder at any moment, all processes agree on the first output hook at which any of them sees it, all write a checkpoint of that step (whatever the checkpoint interval), the file is removed so that a restarted run is not killed by it, and every process exits with a non-zero status. Without such a file no process ever stops, and no process continues past the step at which another one stopped.",
  ['schedules', 'fault_sequences', 'crash_points'], 'every interleaving of the file\'s creation with the processes\' directory checks, 1 to 4 processes, every step, including a request only some processes can see in time',
  'No test creates a kill file, and none runs two processes that disagree.',
  ['h5io/HDF5File.py'], [('collective detection', 'h5io/HDF5File.py:check_if_kill'), ('forced checkpoint', 'h5io/HDF5File.py:update')],
  [('kill file', 'request visible in the directory'), ('per-process found flag', 'combined over all processes')])

p('P07', 'Parameters resolve by one precedence rule and select the requested solver',
  "For every problem type, the value of each parameter is the one given on the command line, else the one set by the program beforehand, else the documented default, with mesh sizes equal to 2^M in each direction unless N is given explicitly, domain sizes accepting numbers and expressions in pi, and derived grid spacing equal to domain size over mesh size. What a program sets for one problem type does not change another. Command line values outside a parameter's documented choices are refused, physical coefficients are returned in the configured precision, mesh and domain arrays cannot be modified in place, and attribute and key access always agree. The returned solver is the named one with the callbacks that were supplied installed in it (and those not supplied left as they were), and an unknown solver is refused.",
  ['configurations', 'inputs', 'histories'], 'every ordering of defaults, program updates and command line options for every option of every mesh type',
  'Tests use one or two option sets per solver and never read parameters back.',
  ['config.py', '__init__.py'], [('parameter container', 'config.py:Params'), ('parsers and update', 'config.py'), ('solver lookup', '__init__.py:get_solver')])

NUM = 'A test compares one flow (Taylor-Green, cubic grid, 2*pi box) at a few numbers of digits, so wrong terms that vanish by symmetry, on cubes, without forcing or without aliasing are invisible.'
p('P08', '3D Navier-Stokes right-hand side is the exact dealiased pseudo-spectral operator',
  "For every velocity field without Nyquist content (solenoidal or not), the evaluated right-hand side equals, to round-off, the chosen form of the convective term (standard, divergence, skew-symmetric or rotational) computed with the chosen dealiasing rule (none, 2/3, 3/2), projected by subtracting the pressure gradient, minus viscous diffusion, plus the user's source, and with the Nyquist modes of the nonlinear term removed when so configured. It depends on nothing but the velocity, source and viscosity at the time of the call, not on earlier calls, and leaves the velocity unchanged; a whole step of a run is the integrator's combination of such evaluations.",
  ['inputs', 'histories', 'configurations'], 'every velocity and source field x convection form x dealiasing rule x Nyquist masking x anisotropic domain and mesh (even and odd sizes) x viscosity x sequence of calls', NUM,
  ['solvers/NS.py', 'maths/cross.py', 'solvers/spectralinit.py'],
  [('convection', 'solvers/NS.py:getConvection'), ('pressure and diffusion', 'solvers/NS.py:add_pressure_diffusion'), ('assembly', 'solvers/NS.py:ComputeRHS')],
  [('velocity, source, work arrays', 'spectral fields and recycled buffers')])
p('P09', 'Velocity-vorticity right-hand side is the curl of the rotational-form dynamics',
  "For every vorticity field without Nyquist content, the evaluated right-hand side equals, to round-off, the curl of the dealiased cross product of velocity and vorticity, minus viscous diffusion, plus the user's source, where the velocity is recovered from the vorticity by the Biot-Savart inversion in wavenumber space with zero mean. It depends only on the current vorticity, source and viscosity, does not modify the vorticity, and for solenoidal flow is the curl of the velocity formulation's right-hand side.",
  ['inputs', 'histories', 'configurations'], 'every vorticity and source field x dealiasing rule x Nyquist masking x anisotropic domain and mesh x viscosity x sequence of calls', NUM,
  ['solvers/VV.py', 'solvers/NS.py', 'maths/cross.py'], [('convection', 'solvers/VV.py:getConvection'), ('velocity recovery', 'solvers/VV.py:compute_velocity'), ('diffusion and source', 'solvers/VV.py:add_linear')])
p('P10', 'MHD right-hand side is the exact dealiased momentum and induction operator',
  "For every pair of velocity and magnetic fields without Nyquist content, the evaluated right-hand side equals, to round-off, minus div(uu - bb) with the pressure gradient subtracted and viscous diffusion for the velocity, and -div(ub - bu) with its own resistive diffusion for the magnetic field, all dealiased by the chosen rule with Nyquist modes of the nonlinear terms removed when so configured. It depends only on the current fields and the two diffusivities, and does not modify the fields.",
  ['inputs', 'histories', 'configurations'], 'every pair of fields x dealiasing rule x masking x anisotropic domain and mesh x (nu, eta) x sequence of calls', NUM,
  ['solvers/MHD.py'], [('convection', 'solvers/MHD.py:divergenceConvection'), ('Elsasser assembly', 'solvers/MHD.py:set_Elsasser'), ('pressure and diffusion', 'solvers/MHD.py:add_pressure_diffusion')])
p('P11', '2D Navier-Stokes right-hand side is the exact dealiased operator',
  "For every two-dimensional velocity field without Nyquist content, the evaluated right-hand side equals, to round-off, the dealiased rotational-form convective term with the pressure gradient subtracted, minus viscous diffusion, plus the user's source, with Nyquist modes of the nonlinear term removed when so configured. It depends only on the current velocity, source and viscosity, does not modify the velocity, and holds in every optimisation mode.",
  ['inputs', 'histories', 'configurations'], 'every 2D field and source x dealiasing rule x masking x anisotropic domain and mesh x optimisation mode x sequence of calls', NUM,
  ['solvers/NS2D.py', 'solvers/NS.py', 'maths/cross.py', 'optimization/cython_maths.in'], [('convection', 'solvers/NS2D.py:getConvection'), ('2D cross product', 'maths/cross.py')])
p('P12', '2D Boussinesq right-hand side couples momentum and density exactly',
  "For every velocity and density field without Nyquist content, the evaluated right-hand side equals, to round-off, rotational-form momentum with buoyancy -Ri*rho in the second direction, pressure including the buoyant part subtracted so that the velocity tendency is solenoidal, viscous diffusion, and for the density minus the divergence of the dealiased density flux with diffusivity nu/Pr. It depends only on the current fields and the three parameters, does not modify the fields, and holds in every optimisation mode.",
  ['inputs', 'histories', 'configurations'], 'every pair of fields x (nu, Ri, Pr) x dealiasing rule x masking x anisotropic domain and mesh x optimisation mode x sequence of calls',
  'The Boussinesq solver has no test.', ['solvers/Bq2D.py'], [('convection', 'solvers/Bq2D.py:getConvection'), ('buoyancy and diffusion', 'solvers/Bq2D.py:add_pressure_diffusion')])
p('P13', 'Derived fields of the periodic solvers are the calculus of the current solution',
  "For every periodic solver and any current solution, the velocity, vorticity, density and divergence obtained through the solver's accessors equal, to round-off, the inverse transform of the corresponding spectral derivative of the current solution, and the pressure equals that of the most recent right-hand side evaluation (total pressure for the rotational form). Setting the velocity from physical values and reading it back reproduces it, and asking for a derived field never changes the solution being advanced or the result of any later request.",
  ['inputs', 'histories', 'configurations'], 'every solution field x order of accessor calls interleaved with right-hand side evaluations x anisotropic domain and mesh x dealiasing',
  'Tests look at integral energies of velocity at the end of a run; curl, divergence and pressure accessors are not asserted.',
  ['solvers/NS.py', 'solvers/VV.py', 'solvers/NS2D.py', 'solvers/Bq2D.py', 'solvers/MHD.py'], [('accessors', 'solvers/NS.py:get_*'), ('velocity from vorticity', 'solvers/VV.py:get_velocity')])
p('P14', 'Discrete conservation laws hold for the dealiased dynamics and along runs',
  "With zero viscosity and full (3/2) dealiasing, every solenoidal state has a right-hand side that neither creates nor destroys kinetic energy (rotational and skew forms), total and cross energy (MHD), helicity (rotational form, and in terms of vorticity), enstrophy (2D) or mean density and buoyant energy exchange (Boussinesq), and that leaves mean momentum constant. Every right-hand side of a solenoidal state is solenoidal, and along any run velocity, vorticity and magnetic field stay divergence-free to round-off and real-valued, with viscosity only removing energy.",
  ['inputs', 'histories', 'configurations'], 'every solenoidal state x solver x mesh x run length',
  'Tests compare two energies with stored numbers for one flow; invariance over states is not something samples can show.',
  ['solvers/NS.py', 'solvers/VV.py', 'solvers/MHD.py', 'solvers/NS2D.py', 'solvers/Bq2D.py'], [('convection forms', 'solvers/NS.py:getConvection'), ('projection', 'solvers/NS.py:add_pressure_diffusion')])
p('P15', 'Optimised kernels are interchangeable with the reference implementation',
  "Selecting any optimisation mode changes no result beyond round-off: for all input arrays of the shapes and types a solver passes, every accelerated routine returns what the reference routine returns, modifies only its documented output, and handles zero and negative wavenumbers and sizes of one alike. A routine without an accelerated version in the selected mode, precision or dimension silently uses the reference one, and a 2D problem never runs a 3D routine.",
  ['inputs', 'configurations'], 'every accelerated routine x {cython, numba, pythran} x precision x dimension x array contents and anisotropic shapes',
  'Tests run complete solvers in double precision on one flow per mode, several routines are never reached and symmetric shapes hide index errors.',
  ['optimization/__init__.py', 'optimization/cython_maths.in', 'optimization/cython_solvers.in', 'optimization/numba_module.py', 'optimization/pythran_module.py', 'optimization/pythran_maths.py', 'maths/cross.py', 'maths/maths.py'],
  [('dispatch', 'optimization/__init__.py:optimizer'), ('kernels', 'optimization/cython_maths.in'), ('solver kernels', 'optimization/cython_solvers.in')])
p('P16', 'Results do not depend on the number of processes or the domain decomposition',
  "For every solver, running the same problem on any number of processes and with slab or pencil decomposition gives, to round-off, the same global solution after every step, the same derived fields, the same integrals and the same adaptive step sizes, and the output files have the same content. Modes that live on one process only (the mean flow) are treated identically wherever they live.",
  ['configurations', 'schedules'], '1 to 4 processes x slab/pencil x every solver',
  'The MPI tests use one decomposition and the same loose energy numbers.',
  ['solvers/NS.py', 'solvers/KMM.py', 'solvers/KMMRK3.py', 'solvers/Coupled.py', 'solvers/MHD.py', 'maths/integrators.py', 'utilities/__init__.py', 'h5io/HDF5File.py'],
  [('spaces on communicators', 'solvers/*:get_context'), ('mean-mode treatment on one rank', 'solvers/KMM.py:solve_linear'), ('global error norm', 'maths/integrators.py:adaptiveRK')])
CH = 'The tests follow one small Orr-Sommerfeld perturbation with a tolerance on its growth, so terms that vanish for it (spanwise mean flow, anisotropy, forcing, second step weights) go unseen.'
p('P17', 'Channel step solves the wall-normal velocity-vorticity equations it claims to',
  "Every step of the two-step channel solver satisfies, in the discrete weighted-residual sense and to round-off, the Crank-Nicolson/Adams-Bashforth (3/2, -1/2) equations for the wall-normal velocity and wall-normal vorticity in every wavenumber, and for the mean streamwise and spanwise velocity including the applied pressure gradient. The new velocity vanishes at the walls (with the wall-normal derivative of the wall-normal velocity), is discretely divergence-free, has zero mean wall-normal flow, and its wall-normal curl is the new wall-normal vorticity.",
  ['inputs', 'histories', 'configurations'], 'every solution history x viscosity, time step, pressure gradient, wall-normal quadrature, dealiasing, mesh and domain shape', CH,
  ['solvers/KMM.py', 'shen/Matrices.py'], [('right-hand side', 'solvers/KMM.py:ComputeRHS'), ('solves', 'solvers/KMM.py:solve_linear'), ('history rotation', 'solvers/KMM.py:end_of_tstep')],
  [('current and previous velocity, convection', 'fields rotated at the end of each step')])
p('P18', 'Third-order channel step satisfies its three Runge-Kutta stage equations',
  "Every step of the three-stage channel solver satisfies, to round-off, the three stage equations with implicit weights 8/15, 2/15, 1/3 (Crank-Nicolson over each stage) and explicit weights (8/15, 0), (5/12, -17/60), (3/4, -5/12) on the current and previous stage's convection, for wall-normal velocity, wall-normal vorticity and the mean velocities with the applied pressure gradient. The result satisfies the wall conditions, is discretely divergence-free, and a step depends on nothing but the velocity at its start.",
  ['inputs', 'histories', 'configurations'], 'every state x viscosity, time step, pressure gradient, quadrature, dealiasing, mesh and domain shape x number of preceding steps', CH,
  ['solvers/KMMRK3.py', 'solvers/KMM.py'], [('stage right-hand side', 'solvers/KMMRK3.py:ComputeRHS'), ('stage solve', 'solvers/KMMRK3.py:solve_linear')])
p('P19', 'Channel convection is the Galerkin projection of the chosen convective form',
  "For every channel velocity field satisfying the wall conditions, each offered convective form (standard, divergence, skew, rotational) of each channel solver returns the discrete projection onto its wall-bounded basis of minus the convective term (velocity cross vorticity for the rotational form; products projected before they are differentiated in the divergence form) evaluated at the quadrature points with exact derivatives, with the chosen dealiasing rule in all three directions (products on a mesh with half as many points more, or factors cut off at two thirds). The result depends only on the velocity passed in and leaves it unchanged. Nyquist modes of products excepted.",
  ['inputs', 'configurations', 'histories'], 'every velocity field x convective form x dealiasing x quadrature x solver x mesh and domain shape x sequence of calls',
  'Tests use the default form and a flow with two non-zero wavenumbers.', ['solvers/KMM.py', 'solvers/KMMr.py', 'solvers/Coupled.py', 'solvers/CoupledRK3.py', 'shen/LUsolve.pyx'],
  [('convection forms', 'solvers/KMM.py:getConvection'), ('wall-normal derivative', 'shen/LUsolve.pyx:Mult_CTD_3D_ptr')])
p('P20', 'The rotated channel solver is the channel solver with its axes permuted',
  "For every initial state, running the channel solver whose wall-normal direction is last gives, step by step, convection, velocity, vorticity, velocity gradient, pressure and divergence equal to round-off to those of the wall-normal-first solver under the cyclic relabelling of the axes, for every viscosity, time step, pressure gradient, quadrature, dealiasing rule and convective form (Nyquist modes of products excepted). In particular it satisfies the same stage equations and wall conditions.",
  ['inputs', 'configurations', 'histories'], 'every initial state and number of steps x configuration', CH, ['solvers/KMMr.py', 'solvers/KMM.py'], [('rotated solver', 'solvers/KMMr.py')])
p('P21', 'Coupled channel solvers solve momentum and continuity together at every step',
  "Every step (two-step scheme) and every stage (three-stage scheme) of the coupled channel solvers satisfies, in the discrete weighted-residual sense and to the accuracy of the linear solve, the momentum equations with implicit viscosity, the scheme's explicit convection weights, applied pressure gradient and the gradient of the computed pressure (kept as the pressure's impulse over the stage per time step), together with the continuity constraint in every wavenumber and no-slip at the walls.",
  ['inputs', 'configurations', 'histories'], 'every state and history x viscosity, time step, pressure gradient, quadrature, mesh shape', 'The coupled solvers are not in the reliable test set.',
  ['solvers/Coupled.py', 'solvers/CoupledRK3.py'], [('assembly', 'solvers/Coupled.py:ComputeRHS'), ('block solve', 'solvers/Coupled.py:integrate')])
p('P22', 'Rayleigh-Benard solvers advance temperature and buoyancy consistently',
  "Every step of the Rayleigh-Benard channel solvers satisfies, to round-off, the channel momentum equations with the temperature's buoyancy in the wall-normal direction (extrapolated to mid-step in the two-step scheme, that at the start of each stage in the three-stage scheme), and the temperature equation with implicit diffusion and the convective flux (divergence form with the extrapolated temperature and the velocity at the start of the step in the two-step scheme, advective form with the stage weights in the three-stage scheme); the temperature keeps its fixed wall values and the previous values are rotated correctly. Setting buoyancy to zero (uniform horizontal temperature) reduces the velocity to the plain channel solver's.",
  ['inputs', 'configurations', 'histories'], 'every state and history x Rayleigh/Prandtl numbers, time step, mesh shape', 'The Rayleigh-Benard solvers have no test.',
  ['solvers/KMM_RB.py', 'solvers/KMMRK3_RB.py'], [('assembly', 'solvers/KMM_RB.py:ComputeRHS'), ('temperature solve', 'solvers/KMM_RB.py:solve_linear')])
p('P23', 'Domain integrals of channel fields are exact for resolved polynomials',
  "For every physical field on a channel grid that is a polynomial in the wall-normal direction of degree the quadrature resolves, the integral over the domain equals the exact integral, for either quadrature rule, either parity of the number of points, every wall-normal axis and every domain size, on every number of processes (available on the first, zero on the others).",
  ['inputs', 'configurations'], 'every polynomial and trigonometric field x quadrature x number of points x axis x domain size x processes', 'Tests integrate one field with the default quadrature and even sizes.',
  ['utilities/__init__.py'], [('integral', 'utilities/__init__.py:dx')])
p('P24', 'Wall-normal matrix operators apply the exact Galerkin matrices',
  "For every coefficient array, the combined Helmholtz and biharmonic operator products equal the stated linear combinations of the exact mass, stiffness and fourth-derivative Galerkin matrices of the wall-bounded bases, wavenumber by wavenumber and along the stated axis; the wall-normal derivative product returns the exact Chebyshev coefficients of the derivative, and the divergence product the weak divergence. All agree with inner products computed from the basis polynomials, for both quadratures and both parities of size (from 7 points, 14 for the biharmonic).",
  ['inputs', 'configurations'], 'every coefficient array x size x quadrature x axis x coefficients varying with wavenumber', 'Tests cover a few sizes along the default axis with constant coefficients.',
  ['shen/Matrices.py', 'shen/LUsolve.pyx'], [('operators', 'shen/Matrices.py'), ('derivative products', 'shen/LUsolve.pyx')])
p('P25', 'Derived fields of the channel solvers are the calculus of the current solution',
  "For every channel solver and any current solution, the velocity, vorticity, velocity gradient and divergence obtained through the solver's accessors, and the velocity in the results file, equal, to round-off, the exact derivatives of the current solution evaluated on the grid (divergence being the residual of continuity), and setting the velocity from physical values reproduces any field representable in the basis. Asking for a derived field, the pressure included, changes neither the solution nor the trajectory of the run.",
  ['inputs', 'histories', 'configurations'], 'every solution x accessor order x quadrature x mesh and domain shape x solver', 'Tests check the divergence of one flow only loosely.',
  ['solvers/KMM.py', 'solvers/KMMr.py', 'solvers/Coupled.py', 'solvers/KMM_RB.py'], [('accessors', 'solvers/KMM.py:get_*')])
p('P26', 'Timing statistics cover every step of the run on every process',
  "The reported fastest and slowest step times are, for every run, the minimum and maximum over exactly the completed steps, and the final report gives the extremes of these over all processes, on the first process and only when verbose output is on. Profiling starts after the first completed step, only when enabled, and its summary is the minimum and maximum over processes; neither ever changes the results of a run.",
  ['histories', 'configurations', 'schedules'], 'every sequence of step durations on every process x verbose x profiling', 'No test reads timings.',
  ['utilities/__init__.py', 'utilities/create_profile.py', '__init__.py'], [('timer', 'utilities/__init__.py:Timer'), ('profile summary', 'utilities/create_profile.py')])

p('P27', 'The stand-alone programs compute the same run as the package',
  "The short Python program, the demo written with shenfun alone and the C++ program march the Taylor-Green vortex as the packaged Navier-Stokes solver does with the fourth-order Runge-Kutta scheme: for every mesh size offered (2^M in the C++ program) and number of processes, each kinetic energy the C++ program reports (after every second step, and at the end) is that of the solution at that very time, and the velocity and energy the Python programs end with are those of the packaged solver (with the same dealiasing: the 2/3-rule in the short program, none in the demo), to round-off. The C++ timing summary gives the smallest, then the largest, over processes of the fastest and the slowest step.",
  ['inputs', 'configurations', 'schedules'], 'every mesh size x number of processes', 'No test runs the C++ program; the short program checks 7 digits of one energy.',
  ['../spectralDNS3D_short.py', '../demo/NS_shenfun.py', '../cpp/spectralDNS.cpp'], [('short program', '../spectralDNS3D_short.py:ComputeRHS'), ('shenfun demo', '../demo/NS_shenfun.py:ComputeRHS'), ('C++ program', '../cpp/spectralDNS.cpp:main')])
p('P28', 'Channel pressure balances the momentum of the current and previous velocity',
  "The pressure that the wall-normal velocity/vorticity channel solvers (either wall-normal axis) give for any current and previous velocity is, to round-off and up to a constant, the field whose wall-normal derivative equals, in every resolved coefficient, convection of the current velocity plus viscous diffusion of the mean of the two velocities minus their difference over the time step, and whose part constant in the wall-normal direction has, in every tangential wavenumber but the mean, the divergence that the tangential components of the same balance leave (less the kinetic energy of the mean velocity when convection is in vortex form). So it does within every step of a run, without changing the run.",
  ['inputs', 'histories', 'configurations'], 'every pair of velocities x convection form x dealiasing x quadrature x mesh and domain shape x viscosity, time step x wall-normal axis', 'No test asks for the pressure of a channel solver.',
  ['solvers/KMM.py', 'solvers/KMMr.py'], [('pressure', 'solvers/KMM.py:get_pressure'), ('pressure', 'solvers/KMMr.py:get_pressure')])
p('P29', 'Channel statistics average every sample, however the run is divided',
  "The statistics of the channel demo programs (turbulent channel, Rayleigh-Benard) hold, whenever they are asked for or written, at every wall-normal point the mean over both tangential directions and over all samples taken since the first, of each velocity component, of pressure or temperature, and of each product of two velocity components (and of the temperature with itself), together with the number of samples. This holds for any mesh size, number of processes and decomposition, for any interleaving of sampling, writing and reading, and when a run is continued from the file of an earlier one.",
  ['inputs', 'histories', 'configurations'], 'every sequence of samples, writes, resets and continuations x fields x mesh size x number of processes x decomposition', 'The demo programs are not run by the tests, and statistics are never read.',
  ['../demo/MKM.py', '../demo/RayleighBenard.py'], [('accumulation', '../demo/MKM.py:Stats.__call__'), ('averages and file', '../demo/MKM.py:Stats.get_stats'), ('continuation', '../demo/MKM.py:Stats.fromfile')])
p('P30', 'Turbulence forcing restores the controlled quantity and changes nothing else',
  "In the homogeneous turbulence demo, with velocity or vorticity as the evolved field, the initial field is real, free of divergence, without mean and Nyquist modes and has the kinetic energy the configured Reynolds number demands; after the forcing of every step the energy equals the target, all modes up to the forcing radius have been scaled by one common real factor, and all others are unchanged. In the turbulent channel demo the forcing of every step gives the prescribed flux by changing only the first coefficient of the mean streamwise velocity. All this on any number of processes, decomposition, mesh and domain shape.",
  ['inputs', 'histories', 'configurations'], 'every state (energy above the forced modes less than the target) x step x forcing radius, Reynolds number, flux x mesh and domain shape x processes x decomposition', 'The demo programs are not run by the tests.',
  ['../demo/Isotropic.py', '../demo/MKM.py'], [('initial field', '../demo/Isotropic.py:initialize'), ('energy forcing', '../demo/Isotropic.py:update'), ('flux control', '../demo/MKM.py:update')])

p('P31', 'Looking at a run does not change it',
  "For every solver, scheme, form of convection and number of processes, the solution and time after every step are the same whatever is asked of the run between its steps, or within a step by the additional callback: velocity, vorticity, divergence, pressure, density, velocity gradient, convection, in any order and number, results or checkpoints written at any steps. Every such question has, at one step, one answer, whichever questions came before it, and the results stored at a step do not depend on them either.",
  ['inputs', 'histories', 'configurations', 'schedules'], 'every schedule of questions and output x solver x scheme x convection form x dealiasing x processes', 'Tests ask for one thing, at the end of a run.',
  ['__init__.py', 'solvers/NS.py', 'solvers/KMM.py', 'maths/integrators.py', 'h5io/HDF5File.py'], [('accessors', 'solvers/NS.py:get_*'), ('history of the two-step schemes', 'solvers/KMM.py:integrate'), ('output', 'h5io/HDF5File.py:update')])

p('P32', 'Runs made one after another in a process do not affect each other',
  "What a run gives - the parameters in force, the solution, time and step size after every step, the derived fields, the files - is a function of its configuration and its initial data: whatever the same process did before, with the same or other solvers, meshes, integrators, forms and dealiasing rules, whether those runs were finished, left after a step, or only their contexts were made. The state of a run is in its context: two contexts of one configuration advanced in turns go as each goes alone. (Functions installed by get_solver stay until replaced, and optimised kernels are chosen once per process.)",
  ['histories', 'configurations'], 'every sequence of uses of a process x configuration', 'Tests make a few runs per process, in one order, and compare final energies.',
  ['__init__.py', 'config.py', 'utilities/__init__.py', 'maths/integrators.py', 'solvers/spectralinit.py'], [('configuration', '__init__.py:get_solver'), ('loop', '__init__.py:solve'), ('contexts', 'solvers/*.py:get_context')])

p('P33', 'Runs respect the symmetries of the equations',
  "If the initial data of a run are translated, mirrored, have their axes exchanged (with the mesh and the domain), or are multiplied by a factor (with viscosity and diffusivity multiplied and the time step divided by it; buoyancies by its square), then every state of the run - and the number and times of its steps - is the image of the state of the original run, within the symmetries the problem has: all of them for the periodic solvers, the mirror of the walls and everything in the periodic directions for the channels, no mirror against a pressure gradient, no exchange against gravity, density changing sign with the mirror of gravity. This holds for every form of the convection, dealiasing rule, integrator and number of processes, and singles out no direction, no mode and no sign.",
  ['inputs', 'configurations'], 'every initial state x transformation x configuration', 'Tests run one flow in one orientation; its symmetric errors and errors in other directions do not change the energy they compare.',
  ['solvers/spectralinit.py', 'solvers/NS.py', 'solvers/VV.py', 'solvers/MHD.py', 'solvers/NS2D.py', 'solvers/Bq2D.py', 'solvers/KMM.py', 'solvers/KMMRK3.py', 'solvers/KMMr.py', 'solvers/Coupled.py', 'solvers/KMM_RB.py'], [('right-hand sides', 'solvers/NS.py:ComputeRHS'), ('channel step', 'solvers/KMM.py:integrate')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q) + '\n')
