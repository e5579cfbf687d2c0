#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=state or [], observe_at=observe, hook_needed=hook)))

S = "source/"
prop("C01", "A time step conserves every conserved quantity up to boundary flux",
 "On a domain without boundary flux (periodic, or reflecting walls for mass and energy), the domain total of every conserved quantity after any explicit time step equals the total before it up to round-off. This holds for every supported equation, space dimension, finite-element ansatz, limiter setting and time-stepping scheme, also on meshes with hanging nodes and whether or not the convex limiter is active. For shallow water over topography or with bottom friction it holds for the water volume.",
 ["inputs", "configurations"],
 "every admissible initial field, mesh, ansatz, time integrator, limiter iteration count, number of MPI ranks and threads",
 "Two prm files compare mass, momentum and energy of one vortex at a few digits; nothing covers shallow water, scalar laws, the other equation of state, dG, hanging nodes, shocks where the limiter is active, or random data.",
 [S+"hyperbolic_module.template.h", S+"offline_data.template.h", S+"sparse_matrix_simd.h", S+"time_integrator.template.h", S+"shallow_water/hyperbolic_system.h"],
 [("antisymmetric correction P_ij and symmetrised limiter l_ij", "HyperbolicModule::step, steps 4-7"), ("antisymmetric c_ij, consistent m_ij and lumped m_i", "OfflineData::assemble")],
 ["total mass/momentum/energy of the state vector before and after TimeIntegrator::step / HyperbolicModule::step"])
prop("C02", "Accepted steps keep the state admissible and inside the invariant domain",
 "If the state before an explicit step is admissible, every state accepted by the stepper at the permitted step size is admissible: positive density and (shifted) internal energy for both Euler variants, non-negative water depth, and a scalar solution inside the range of the old data up to the configured relaxation. No accepted step lowers the minimum of the specific entropy of an ideal gas beyond the configured relaxation, and no NaN or infinity ever enters the state.",
 ["inputs", "configurations"],
 "every admissible initial field incl. near vacuum, near dry, strong shocks and expansions; every ansatz, integrator and limiter setting within its CFL range",
 "The existing prm tests run smooth or mildly shocked exact solutions and compare error norms; near-vacuum random fields, dry beds, dG and most integrators are never run.",
 [S+"hyperbolic_module.template.h", S+"euler/limiter.template.h", S+"euler_aeos/limiter.template.h", S+"shallow_water/limiter.template.h", S+"scalar_conservation/limiter.template.h", S+"time_integrator.template.h"],
 [("graph viscosity d_ij from the guaranteed wave speed, CFL bound tau_max", "HyperbolicModule::step"), ("convex limiting of the high-order update", "Limiter::limit")],
 ["state vector after each accepted step"])
prop("C03", "The limiter never leaves the bounds and never limits without need",
 "For any state satisfying given local bounds and any update direction, the limiter returns a factor inside the requested interval for which the updated state satisfies all bounds it is configured to enforce, up to the documented round-off relaxation. If the full update already satisfies the bounds it returns the full factor, otherwise its factor comes close to the largest admissible one. Local bounds built from a stencil contain the states they are built from, relaxing or combining bounds only widens them, and a starting state that violates the bounds and that the update does not repair is reported.",
 ["inputs"],
 "every admissible state, bound, update direction and interval, including near-vacuum, near-dry and huge or tiny updates",
 "The limiter tests print factors for a few hand-made states (shallow water: none at all).",
 [S+"euler/limiter.template.h", S+"euler/limiter.h", S+"euler_aeos/limiter.template.h", S+"euler_aeos/limiter.h", S+"shallow_water/limiter.template.h", S+"shallow_water/limiter.h", S+"scalar_conservation/limiter.template.h", S+"scalar_conservation/limiter.h", S+"newton.h"],
 [("line search with quadratic Newton bracket", "Limiter::limit, quadratic_newton_step"), ("bounds accumulation, relaxation and combination", "Limiter::accumulate/bounds/combine_bounds")],
 ["Limiter::limit return value, Limiter::bounds"])
prop("C04", "The wave-speed estimate bounds the exact Riemann fan",
 "For any two admissible states and any direction the estimated maximal wave speed is finite, non-negative and at least the largest wave speed in absolute value of the exact Riemann solution projected onto that direction (both Euler variants with ideal-gas data, adiabatic exponent at most 5/3 for the ideal-gas solver, shallow water), and at least the Rankine-Hugoniot speed and, in default mode, both characteristic speeds for scalar laws. It is symmetric under exchanging the states together with reversing the direction, and invariant under rotations. For moderate data ratios the estimate is not larger than the exact speed by more than a bounded factor.",
 ["inputs"],
 "every pair of admissible states and unit direction, ratios of density, pressure, depth over many orders of magnitude, vacuum- and dry-generating data",
 "Tests compare printed values of at most a few dozen hand-picked pairs in 1D against stored output; no test has an independent exact Riemann solution.",
 [S+"euler/riemann_solver.template.h", S+"euler_aeos/riemann_solver.template.h", S+"shallow_water/riemann_solver.template.h", S+"scalar_conservation/riemann_solver.template.h"],
 [("two-rarefaction / fail-safe star-state upper bound", "RiemannSolver::compute")],
 ["RiemannSolver::compute return value"])
prop("C05", "The step size obeys the CFL bound everywhere and the step equals the scheme",
 "One explicit stage computes exactly the documented low-order invariant-domain-preserving update from the states, the mesh operators and the wave-speed estimate when limiting is switched off, and the documented limited high-order update otherwise. The reported maximal step size is finite, positive and equals the CFL number times the minimum over all degrees of freedom of all ranks and threads of mass over twice the diagonal viscosity; a prescribed step size is used as given. Constrained degrees of freedom are left to the constraints and nothing else is skipped.",
 ["inputs", "configurations", "schedules"],
 "every admissible field, mesh, ansatz, CFL number, indicator value, stage combination and partition",
 "Tests compare final error norms of full runs to a few digits, which many local mistakes (a missed row, a stale ghost value, a race in the step-size reduction) do not move.",
 [S+"hyperbolic_module.template.h", S+"hyperbolic_module.h", S+"euler/indicator.h", S+"shallow_water/indicator.h", S+"scalar_conservation/indicator.h"],
 [("viscosity assembly, symmetrisation, tau_max reduction", "HyperbolicModule::step, steps 1-3"), ("low-order and limited update", "HyperbolicModule::step, steps 4-7")],
 ["HyperbolicModule::step return value and new state vector"])
prop("C06", "Equilibria are preserved exactly: uniform flow and lake at rest",
 "A spatially uniform admissible state compatible with the boundary data is unchanged by any number of steps on any mesh, ansatz and equation, up to round-off. For shallow water a lake at rest over arbitrary topography, including dry islands and shorelines, stays at rest: the water surface and zero momentum are preserved up to round-off.",
 ["inputs", "configurations"],
 "every uniform state; every topography and water level, on every mesh and time integrator",
 "No test runs a lake at rest or a uniform state; the steady-incline test checks one flow to a few digits.",
 [S+"shallow_water/hyperbolic_system.h", S+"hyperbolic_module.template.h", S+"offline_data.template.h"],
 [("hydrostatic reconstruction star states, affine shift", "ShallowWater::HyperbolicSystemView"), ("partition of unity of c_ij rows", "OfflineData::assemble")],
 ["state vector after N steps"])
prop("C07", "Boundary conditions hold at every boundary node after each step",
 "After the boundary treatment Dirichlet nodes carry exactly the prescribed state of that position and time, slip nodes have no normal momentum and an unchanged tangential momentum, no-slip nodes have zero momentum, do-nothing nodes are untouched, and momentum-only Dirichlet keeps depth or density. Dynamic boundaries prescribe everything for supersonic inflow, nothing for supersonic outflow, and otherwise keep the outgoing Riemann invariants of the interior and take the incoming ones from the data. No interior degree of freedom is changed.",
 ["inputs", "configurations"],
 "every admissible state, unit normal, Mach number on either side of +-1, boundary id and mesh",
 "The hyperbolic-system tests print fluxes only; boundary handling is reached through a few runs whose boundary error is invisible in the norms.",
 [S+"euler/hyperbolic_system.h", S+"shallow_water/hyperbolic_system.h", S+"euler_aeos/hyperbolic_system.h", S+"scalar_conservation/hyperbolic_system.h", S+"hyperbolic_module.template.h", S+"offline_data.template.h"],
 [("characteristic decomposition", "apply_boundary_conditions / prescribe_riemann_characteristic"), ("boundary map with averaged normals", "OfflineData::construct_boundary_map")],
 ["return value of the boundary treatment; state vector after state preparation"])
prop("C08", "Checkpoint and resume continue the run as if it had not stopped",
 "A run that is stopped after a checkpoint and resumed from it reaches the same time, output counters and state as the uninterrupted run up to round-off, on the same or a different number of ranks, also after mesh adaptation. Restarting at time zero from a checkpoint keeps the state and only resets time and counters.",
 ["configurations", "histories"],
 "every equation, mesh, rank count, checkpoint time and number of checkpoint/resume cycles",
 "No test writes or reads a checkpoint.",
 [S+"time_loop.template.h", S+"time_loop.h"],
 [("write_checkpoint / read_checkpoint, state serialisation through the triangulation", "time_loop.template.h")],
 ["files of the run directory; state after resume"])
prop("C09", "A crash while writing a checkpoint never loses the last complete one",
 "At every instant of a run with checkpointing that has completed at least one checkpoint, all files of one complete checkpoint are on disk, each under its regular or its backup name. A crash at any file-system operation of the checkpoint writer leaves such a set, and a resume from an incomplete set is refused with an error rather than silently continuing with wrong data.",
 ["crash_points", "fault_sequences"],
 "a kill before every file-system call of a checkpoint write, for several consecutive checkpoints",
 "Tests never write a checkpoint and cannot crash between system calls.",
 [S+"time_loop.template.h"],
 [("rename-to-backup before writing", "write_checkpoint")],
 ["files in the run directory after a kill at the n-th rename/open/write"])
prop("C10", "Results do not depend on the number of ranks or threads",
 "The same configuration run on any number of MPI ranks and any number of threads gives the same state, step sizes, error norms and recorded quantities up to accumulated round-off (scalar laws: for fluxes that do not vanish in a mesh direction, where viscosities are nothing but round-off). A repeated run with the same ranks and threads reproduces them.",
 ["schedules", "configurations"],
 "every combination of ranks and threads, every thread interleaving, with and without asynchronous ghost exchange",
 "A handful of tests run on 4 ranks against their own stored output with loose tolerance; thread counts are never varied and the asynchronous exchange is not compiled.",
 [S+"hyperbolic_module.template.h", S+"openmp.h", S+"sparse_matrix_simd.template.h", S+"local_index_handling.h", S+"multicomponent_vector.h", S+"offline_data.template.h"],
 [("ghost exchange and synchronisation dispatch", "SynchronizationDispatch, SparseMatrixSIMD::update_ghost_rows"), ("index renumbering with export/internal ranges", "DoFRenumbering, OfflineData::setup")],
 ["state gathered by node position"])
prop("C11", "No memory error or undefined behaviour in any supported run",
 "No supported configuration reads or writes outside its objects, uses freed or uninitialised objects, leaks a thrown error into undefined behaviour, or executes undefined arithmetic or conversions. This includes mesh adaptation, checkpointing, every geometry and every output path.",
 ["inputs", "configurations"],
 "every equation, dimension, ansatz, integrator, geometry, initial state and output option",
 "Tests run the release build without any sanitizer; most geometries, initial states, dG and resume are not run at all.",
 [S+"hyperbolic_module.template.h", S+"offline_data.template.h", S+"sparse_matrix_simd.template.h", S+"time_loop.template.h", S+"quantities.template.h", S+"multicomponent_vector.h"],
 [("index arithmetic in SIMD storage", "SparsityPatternSIMD, SparseMatrixSIMD, MultiComponentVector")],
 ["AddressSanitizer and UndefinedBehaviorSanitizer reports"])
prop("C12", "Thread-parallel regions are free of data races",
 "No two threads access the same memory without synchronisation, one of them writing, in any thread-parallel part of a run. Values that are initialised on demand by several threads at once are initialised exactly once and never seen half-built, and the asynchronous communication trigger fires exactly once per loop, after all data it sends has been written.",
 ["schedules"],
 "every interleaving of the worker threads over all parallel loops of all equations",
 "Tests run with a fixed thread count, without a race detector, and a race rarely shows in a rounded norm.",
 [S+"hyperbolic_module.template.h", S+"openmp.h", S+"lazy.h", S+"scalar_conservation/riemann_solver.template.h", S+"navier_stokes/parabolic_solver.template.h"],
 [("work sharing by rows, atomic step-size minimum", "HyperbolicModule::step"), ("double-checked initialisation", "Lazy::ensure_initialized"), ("checkpoint counter", "SynchronizationDispatch")],
 ["ThreadSanitizer reports over code executed by a race-detector-aware thread team; event order of the dispatch"])
prop("C13", "Mesh operators satisfy their discrete identities on every mesh",
 "The lumped mass of every unconstrained degree of freedom is positive and the masses add up to the domain volume; the consistent mass matrix is symmetric with rows adding up to the lumped mass. The discrete gradient is antisymmetric away from the boundary, its rows add up to zero, it differentiates linear functions exactly on average, and its symmetric part is the boundary normal integral. Boundary nodes, their unit normals, masses and ids describe exactly the boundary of the mesh.",
 ["configurations"],
 "every built-in geometry, refinement, distortion, periodicity, ansatz, hanging nodes and partition",
 "These identities are only asserted in debug builds, which the tests do not use, and only a few geometries with cG Q1 are ever run.",
 [S+"offline_data.template.h", S+"offline_data.h", S+"discretization.template.h", S+"geometry_rectangular_domain.h", S+"geometry_cylinder.h", S+"geometry_step.h", S+"geometry_disk.h", S+"geometry_wall.h", S+"geometry_annulus.h"],
 [("assembly over cells and faces with hanging-node constraints", "OfflineData::assemble"), ("boundary map", "OfflineData::construct_boundary_map")],
 ["OfflineData accessors"])
prop("C14", "Distributed SIMD matrices and vectors store exactly what was written",
 "Every entry written to the sparse matrix, in scalar, vectorised or tensor form, is read back unchanged at its row and column and at no other place, its transpose is found at the transposed position, and assembly from a serial or distributed matrix preserves all entries. After a ghost exchange every rank sees for its ghost rows and ghost vector entries exactly the owner's values, also when the structure is set up again for a different mesh.",
 ["inputs", "configurations", "histories"],
 "every sparsity pattern, block size, partition, and sequence of re-initialisations",
 "Two tests use one mesh and one partition each; re-initialisation, vector-valued entries and several ranks are not covered.",
 [S+"sparse_matrix_simd.h", S+"sparse_matrix_simd.template.h", S+"multicomponent_vector.h", S+"local_index_handling.h"],
 [("interleaved SIMD storage with transposed index table and ghost row lists", "SparsityPatternSIMD::reinit"), ("component-interleaved partitioner", "create_vector_partitioner")],
 ["SparseMatrixSIMD / MultiComponentVector get/write functions and ghost updates"])
prop("C15", "Every time integrator realises its published scheme and order",
 "Each selectable time integrator advances the state by exactly the stage times, weights and combination of its published Runge-Kutta tableau, applies boundary data at the correct stage times, and returns the step size actually taken; on smooth problems it attains its formal order. When a step is rejected, the recovery repeats it from the unmodified old state with the reduced CFL number, and the CFL number afterwards is the configured one.",
 ["configurations", "inputs"],
 "every scheme, equation, step size, CFL strategy and pattern of rejected steps",
 "Convergence is recorded for scalar advection only at three step sizes as text; rejected steps, strang/imex splits and boundary times are not exercised.",
 [S+"time_integrator.template.h", S+"time_integrator.h"],
 [("stage functions step_ssprk_*, step_erk_*, step_strang_*, step_imex_*", "time_integrator.template.h"), ("bang-bang control", "TimeIntegrator::step")],
 ["state and returned step size of TimeIntegrator::step vs. composition of single stages"])
prop("C16", "Mesh adaptation preserves totals, constants and admissibility",
 "When the mesh is refined, coarsened or redistributed during a run, the transferred state is admissible, equals the old one where the mesh did not change, reproduces uniform fields exactly, and refinement reproduces the old finite-element field. The step after an adaptation conserves all totals, and adaptation happens once at each configured time point.",
 ["histories", "configurations"],
 "every sequence of refinement and coarsening, ansatz, equation and partition",
 "Two prm files refine once or at random and compare norms of one vortex.",
 [S+"mesh_adaptor.template.h", S+"time_loop.template.h", S+"offline_data.template.h"],
 [("solution transfer", "TimeLoop::adapt_mesh_and_transfer_state_vector"), ("time point bookkeeping", "MeshAdaptor::analyze")],
 ["state before and after adaptation"])
prop("C17", "The viscous step is conservative, positive and dissipative",
 "On a periodic domain the viscous step leaves the density unchanged everywhere and conserves total momentum and total energy up to the solver tolerance, keeps a uniform state, never lowers the minimum of the internal energy, and never increases the kinetic energy. The computed velocity and energy satisfy the discrete momentum and heat equations to the requested tolerance, with the same result with or without multigrid and for any number of threads.",
 ["inputs", "configurations"],
 "every admissible field, viscosity, heat conductivity, step size, mesh with hanging nodes, solver option",
 "The tests run one exact solution with Dirichlet data, and multigrid on that same problem.",
 [S+"navier_stokes/parabolic_solver.template.h", S+"navier_stokes/parabolic_solver_gmg_operators.h", S+"parabolic_module.template.h"],
 [("backward Euler velocity and internal energy solves", "ParabolicSolver::backward_euler_step / crank_nicolson_step")],
 ["state before and after ParabolicModule steps"])
prop("C18", "Thermodynamic and flux formulas are mutually consistent",
 "For each equation of state, pressure and specific internal energy are inverse to each other, the speed of sound satisfies its thermodynamic definition through the derivatives of the pressure, and temperature is consistent with the configured constants, for every parameter set. For each equation, fluxes, entropies, their derivatives, speeds of sound, surrogate quantities and the conversions between conserved, primitive and initial states agree with one another, transform correctly under rotation, and scalar and array evaluation agree.",
 ["inputs", "configurations"],
 "every admissible state, parameter set and dimension",
 "The existing tests print values for single states and default parameters.",
 [S+"euler_aeos/equation_of_state_van_der_waals.h", S+"euler_aeos/equation_of_state_noble_abel_stiffened_gas.h", S+"euler_aeos/equation_of_state_jones_wilkins_lee.h", S+"euler_aeos/equation_of_state_polytropic_gas.h", S+"euler_aeos/equation_of_state_function.h", S+"euler_aeos/hyperbolic_system.h", S+"euler/hyperbolic_system.h", S+"shallow_water/hyperbolic_system.h", S+"scalar_conservation/flux_function.h"],
 [("equation-of-state library", "EquationOfState::pressure etc."), ("HyperbolicSystemView", "*/hyperbolic_system.h")],
 ["return values of the formulas"])
prop("C19", "Recorded quantities and output files describe the actual state",
 "Interior and boundary quantities written to file equal the mass-weighted spatial averages, point values and trapezoidal time averages of the primitive state computed from the state history, contain exactly the nodes of the requested manifold (boundary manifolds: once per boundary face normal entry of the node), and every series starts in a fresh file with a header. Graphics output and postprocessed fields contain the state at every node, and reported error norms equal the difference to the exact solution.",
 ["histories", "configurations"],
 "every manifold expression, averaging option, write-out interval, rank count and state history",
 "No test enables quantities or graphics output.",
 [S+"quantities.template.h", S+"quantities.h", S+"postprocessor.template.h", S+"vtu_output.template.h", S+"selected_components_extractor.h", S+"time_loop.template.h"],
 [("accumulate / write_out", "Quantities"), ("schlieren and vorticity normalisation", "Postprocessor::compute")],
 ["output files vs. state history"])
prop("C20", "Built-in initial states are the flows they claim to be",
 "Every initial state that is documented as an exact solution satisfies its governing equations in smooth regions and the jump conditions across discontinuities for all parameter values, every initial state is admissible and respects the documented meaning of its parameters, and position and direction settings translate and rotate it. Interpolating an initial state assigns to every node the state at that node's position.",
 ["inputs", "configurations"],
 "every initial state, parameter set, dimension, time, position and direction",
 "A few states are used with one parameter set in convergence tests; the rest is never evaluated.",
 [S+"initial_values.template.h", S+"euler/initial_state_isentropic_vortex.h", S+"euler/initial_state_rarefaction.h", S+"euler/initial_state_shock_front.h", S+"euler/initial_state_leblanc.h", S+"euler/initial_state_noh.h", S+"euler/initial_state_becker_solution.h", S+"shallow_water/initial_state_paraboloid.h", S+"shallow_water/initial_state_smooth_vortex.h", S+"shallow_water/initial_state_ritter_dam_break.h", S+"shallow_water/initial_state_circular_dam_break.h"],
 [("initial state library", "InitialState::compute"), ("affine transformation of points and momenta", "InitialValues")],
 ["InitialValues::initial_state, InitialValues::interpolate"])
prop("C21", "The time loop produces output at the configured times and ends on time",
 "A run ends at the configured final time, exactly when this is enforced and with at most one step beyond it otherwise, and writes output and checkpoints once for each configured interval, in order, with consecutive numbers. Time increases by the step actually taken, and the parameter file it writes reproduces the run.",
 ["configurations", "histories"],
 "every combination of final time, output granularity, multipliers and time integrator",
 "Tests run one granularity each and compare printed norms only.",
 [S+"time_loop.template.h", S+"time_loop.h"],
 [("main loop with timer tick", "TimeLoop::run")],
 ["files written and log lines of a run"])
prop("C22", "Invalid configurations are refused with an error",
 "A misspelt parameter, an unknown name for an equation, geometry, initial state, equation of state, flux, time-stepping scheme or output quantity, an unsupported combination, or an out-of-range CFL or final-time setting stops the program with a non-zero exit status and a message before any time step is taken. A missing parameter file yields default parameter files and no run.",
 ["inputs", "fault_sequences"],
 "every single-parameter corruption of a valid parameter file, on one or several ranks",
 "Tests only use valid parameter files.",
 [S+"main.cc", S+"equation_dispatch.h", S+"time_integrator.template.h", S+"initial_values.template.h", S+"discretization.template.h", S+"selected_components_extractor.h"],
 [("AssertThrow checks in parameter call-backs", "several"), ("exit status", "main.cc")],
 ["exit status, messages and files of the program"])
prop("C23", "Numerical kernels are accurate on their whole domain",
 "The power functions agree with the exact power within a small relative error for every positive base and exponent used by the solvers, in scalar and vectorised form, single and double precision, and the fast variant within its documented tolerance. The bracketed Newton step keeps a bracket, never widens it and converges to the root; splines and positive/negative parts return their mathematical value.",
 ["inputs"],
 "every base, exponent and 3-convex function with a bracketed root",
 "One test prints fast powers of a few bases.",
 [S+"simd.h", S+"simd.template.h", S+"simd.cc", S+"simd_fast_pow.template.h", S+"newton.h", S+"cubic_spline.h"],
 [("pow/fast_pow", "simd.template.h"), ("quadratic_newton_step", "newton.h")],
 ["return values"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
for p in P:
    assert len(p["title"]) <= 80, p["title"]
