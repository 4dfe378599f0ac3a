#!/usr/bin/env python3
"""writes properties.jsonl"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,**kw):
    assert len(title)<=80, (id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],**kw)))
prop('C01','Conserved and primitive gas states are inverse to each other',
 'For every physical gas state (positive density and pressure, any velocity, any adiabatic index above one) converting primitive to conserved variables and back returns the same state, for the adiabatic and isothermal 2D systems, including the angular-momentum form of the 2D system, and to the tolerance of its iteration for the relativistic system. The conserved variables are density, momentum and total energy of that state. Pressure recovery honours the temperature floor; the relativistic recovery returns a state with positive density and pressure and velocity along the momentum, or throws.',
 ['inputs'],'all real-valued states with positive density and pressure, all velocities, gamma > 1, all positions off the origin',
 'the repository tests check a few states with fixed numbers; the identity is over five or more continuous parameters',
 ['src/physics_euler.hpp','src/physics_iso2d.hpp','src/physics_srhd.hpp'],
 [('to_conserved_density / recover_primitive (adiabatic)','src/physics_euler.hpp'),('to_conserved_per_area / recover_primitive, angular-momentum variants','src/physics_iso2d.hpp'),('to_conserved_density / recover_primitive Newton iteration','src/physics_srhd.hpp')])
prop('C02','Numerical fluxes are consistent with the physical flux',
 'When both sides of a face carry the same state, every approximate Riemann solver returns exactly the physical flux of that state, for every state and every face normal. The physical flux is advection of the conserved quantities with the normal velocity plus pressure forces along the normal.',
 ['inputs'],'all physical states, all unit normals, all adiabatic indices and sound speeds',
 'tests sample a handful of states; the identity must hold for all states and normals',
 ['src/physics_euler.hpp','src/physics_iso2d.hpp','src/physics_srhd.hpp'],
 [('riemann_hlle','all three physics headers'),('riemann_hllc, compute_hllc_variables','src/physics_iso2d.hpp'),('flux','all three physics headers')])
prop('C03','Riemann fluxes are conservative, upwind and follow the HLL construction',
 'Exchanging the two states and reversing the face normal negates the flux of every Riemann solver, so what leaves one cell enters its neighbour. The HLLE flux is the HLL average built from the outermost signal speeds (clipped to include zero), hence equals the upwind physical flux in supersonic flow. The HLLC fan has outer speeds that bound both acoustic speeds, and star states that move with the contact.',
 ['inputs'],'all pairs of physical states, all unit normals; for HLLC all pairs whose wave fan is ordered and has no exactly stationary wave',
 'antisymmetry over two continuous states and a direction cannot be sampled exhaustively; no test of it exists',
 ['src/physics_euler.hpp','src/physics_iso2d.hpp','src/physics_srhd.hpp'],
 [('riemann_hlle','all three physics headers'),('riemann_hllc, compute_hllc_variables, hllc_variables_t','src/physics_iso2d.hpp')])
prop('C04','Signal speeds bound the flow, are real, and subluminal where relativistic',
 'For every physical state and direction the wave speeds returned are real and ordered around the fluid velocity along that direction, they are the acoustic eigenvalues of the system (flow velocity plus or minus the sound speed; roots of the relativistic characteristic equation), and in the relativistic system they never reach the speed of light. The speed used for the time step bounds all of them along the grid axes.',
 ['inputs'],'all physical states, all unit directions, gamma > 1 (gamma <= 2 when relativistic)',
 'the time step safety argument needs the bound for every state; tests evaluate a few',
 ['src/physics_euler.hpp','src/physics_iso2d.hpp','src/physics_srhd.hpp'],
 [('wavespeeds, sound_speed_squared, max_wavespeed','all three physics headers')])
prop('C05','The linearised adiabatic system is consistent and hyperbolic',
 'For every physical adiabatic state the flux Jacobian is the derivative of the flux with respect to the conserved variables, it is diagonalised by the right and left eigenvector matrices, those matrices are inverse to each other, and its eigenvalues are the signal speeds u-a, u, u, u, u+a. The Roe averages (adiabatic and isothermal) are root-density weighted, symmetric in the two states, lie between them and reproduce equal states; the adiabatic average satisfies the documented Roe relation where the documentation claims it.',
 ['inputs'],'all physical states (velocity, density, pressure), all adiabatic indices above one, all pairs of states',
 'matrix identities in five continuous parameters; the tests evaluate one or two states',
 ['src/physics_euler.hpp','src/physics_iso2d.hpp'],
 [('flux_jacobian, right_eigenvectors, left_eigenvectors, eigenvalues, eigensystem, roe_average','src/physics_euler.hpp'),('roe_average','src/physics_iso2d.hpp')])
prop('C06','Geometric source terms match the curvilinear equations',
 'For every state and position the source terms of the spherical (1D and 2D) adiabatic and relativistic systems and of the angular-momentum form of the 2D isothermal system are those of the curvilinear conservation laws: no source of mass, energy or angular momentum, the documented stress terms in the radial and polar momentum, and exact balance of the pressure gradient terms for a fluid at rest with uniform pressure. The angular-momentum fluxes are the position-weighted projections of the linear momentum fluxes.',
 ['inputs'],'all physical states, all positive radii, all polar angles strictly inside (0, pi), all positions off the origin',
 'identities in state and position; the repository has no test of them',
 ['src/physics_euler.hpp','src/physics_srhd.hpp','src/physics_iso2d.hpp'],
 [('spherical_geometry_source_terms (and _radial)','src/physics_euler.hpp, src/physics_srhd.hpp'),('source_terms_conserved_angmom, flux_angmom','src/physics_iso2d.hpp')])
prop('C07','Slope limiting never creates new extrema',
 'The limited slope is the minmod of the scaled one-sided and centred differences: reconstructed face values lie between the neighbouring cell averages for every admissible parameter, the slope vanishes at extrema, linear data are reproduced exactly, and the limiter commutes with mirror reflection, sign change, shift and positive scaling, component by component for vectors and tuples.',
 ['inputs'],'all triples of real values and all limiter parameters between one and two (zero to two where stated)',
 'monotonicity is an inequality over all triples of reals; tests sample a few',
 ['src/math_interpolation.hpp','src/subprog_cloud.cpp'],
 [('plm_gradient / minmod','src/math_interpolation.hpp'),('component-wise extension','src/math_interpolation.hpp')])
prop('C08','Changing the mesh level conserves the data and its geometry',
 'For blocks of every size, prolongation copies cell values to the finer cells and inserts vertices half way, restriction averages (or, for extensive quantities, sums) the finer cells, bisection and recombination of the 2^Rank child blocks are inverse to each other, and restriction undoes prolongation; odd sizes are rejected where halves are needed. In every tree of blocks the block seen at a node is the leaf itself, the refined parent leaf, or the average of what its children show (and a request two levels below a leaf is refused); a leaf is reported over-refined exactly when a face neighbour is refined twice or more, and the vertex quadtree that is created is balanced and tiles the square exactly.',
 ['inputs'],'all block sizes and contents, all tree indexes, all leaf patterns around a node; vertex quadtrees up to depth 3',
 'conservation across refinement jumps depends on block parity, orthant and relative level, and the tests use a few uniform blocks',
 ['src/mesh_prolong_restrict.hpp','src/mesh_tree_operators.hpp'],
 [('refine/coarsen/combine cells and verts','src/mesh_prolong_restrict.hpp'),('get_cell_block, get_vertex_block, over_refined_neighbors, create_vertex_quadtree','src/mesh_tree_operators.hpp')])
prop('C09','Array regions address exactly their elements, in order, inside the buffer',
 'For every shape and index inside it the buffer offset is in bounds and different for different indexes (row-major); the number of elements is the product of the extents. For every strided region (start, stop, stride) the region contains precisely the indexes it generates, the mapping to source indexes is injective and stays within the region bounds, acceptance of a region by a shape is exact, and iteration visits every element once in row-major order and nothing for an empty region.',
 ['inputs'],'all ranks 1-3, all extents, all starts, stops and strides',
 'index arithmetic over unbounded integers; off-by-one errors appear only for particular strides and remainders',
 ['src/core_ndarray.hpp'],
 [('shape_t, index_t, jumps_t, memory_strides_t','src/core_ndarray.hpp'),('access_pattern_t map/inverse/generates/within/advance/shape','src/core_ndarray.hpp')])
prop('C10','Lazy array operators mean their documented element-wise formulas',
 'For arrays of every size, each array operator (arithmetic, comparison, map, zip/unzip, cartesian product, select, shift, freeze, collect, concat, replace, read_indexes, arange, linspace, guard-cell extension with periodic, zero-gradient or zero values, neighbouring pairs/triples, differences, midpoints, reductions, evaluation to memory) has the documented shape and element values, never reads outside its operands, and throws exactly when shapes or axes do not match.',
 ['inputs'],'all extents of every operand, all element values, all regions, counts and axes',
 'operators compose lazily and errors show only at edges of particular shapes; tests use a few small arrays',
 ['src/core_ndarray.hpp','src/core_ndarray_ops.hpp'],
 [('map, zip, select, shift_by, freeze, collect, concat, replace','src/core_ndarray.hpp'),('adjacent_*, extend_*, difference, midpoint','src/core_ndarray_ops.hpp')])
prop('C11','Work and domain decomposition cover every element exactly once',
 'Dividing a range into groups, an index space into parts, or a domain into blocks assigns every element to exactly one part; parts are contiguous, adjacent, ordered, and balanced to within one element; requests for more blocks than cells are rejected; a proposed block decomposition has exactly as many blocks as subdomains and the prime factorisation it uses multiplies back to its argument; evaluating an array by any number of threads, whenever these run, gives every element its value.',
 ['inputs'],'all lengths and all numbers of parts',
 'gaps and overlaps occur for particular remainders only',
 ['src/core_ndarray.hpp','src/app_parallel.hpp'],
 [('partition_shape','src/core_ndarray.hpp'),('divvy','src/core_ndarray.hpp'),('create_access_pattern_array, propose_block_decomposition, prime_factors','src/app_parallel.hpp')])
prop('C12','Tree indexes form a consistent hierarchy',
 'For every level and every coordinate on it: the parent of each child is the node itself, the children tile the parent exactly and are distinct, descending one level through the orthant addresses the same node relative to the child, next and previous neighbours are inverse and wrap periodically, validity is exactly being within the level, bit representation round-trips, and the Hilbert index visits each node of a level once, moving between adjacent nodes.',
 ['inputs'],'levels 0-30 and all coordinates on them, ranks 1-3; the Hilbert curve on levels 0-4',
 'index arithmetic over all levels; tests use small fixed indexes',
 ['src/core_tree.hpp','src/mesh_prolong_restrict.hpp'],
 [('tree_index_t','src/core_tree.hpp'),('hilbert_index','src/core_tree.hpp')])
prop('C13','The tree container behaves as a map from leaves to values',
 'For every tree: lookup finds exactly the leaves and nodes that exist and otherwise throws out-of-range (find returns nothing); size, depth, sum, min, max, any and all are those of the leaves; map, pairing and arithmetic keep the shape and act leaf by leaf, throwing exactly when shapes differ; insert, update and bifurcation change exactly the addressed leaves, leave the others and the original tree unchanged; leaves are visited once in order and indexes name them.',
 ['inputs','histories'],'all tree shapes up to depth 2 (rank 1-2) or 1 (rank 3) with all leaf values, and by induction over the node structure any depth for lookup and reductions',
 'trees are recursive and immutable with shared children; tests build one or two trees',
 ['src/core_tree.hpp'],
 [('arithmetic_binary_tree_t','src/core_tree.hpp')])
prop('C15','Two-body states are the Kepler orbit of their elements, and back',
 'For all orbital elements (positive semi-major axis, mass and mass ratio, eccentricity in [0,1)) and every time, the two bodies have the given total mass and mass ratio, center of mass at rest at the origin, relative position on the ellipse with one focus at the companion, moving counter-clockwise, with exactly the energy and angular momentum reported for the elements, at periapse at time zero, and Kepler\'s equation satisfied to 1e-10 at any elapsed time. Full elements place that orbit: rotated by the argument of periapse, moved to the center of mass, boosted, with time (and mean anomaly) counted from periapse passage; the elements computed from a state have its masses, center of mass and energy, reproduce the state, and unbound pairs are refused. Differences of elements take the shorter way round; the perturbation formula is the derivative of the semi-major axis.',
 ['inputs'],'all elements with 0 <= e < 1 and all times (any number of Newton iterations); all pairs of bodies for the inverse; angle and time of periapse of the inverse are sampled',
 'a continuum of elements and times, with an iterative solver; the tests use a handful of orbits',
 ['src/model_two_body.hpp'],
 [('compute_two_body_state, solve_newton_rapheson','src/model_two_body.hpp'),('compute_orbital_elements, orbital_energy, orbital_angular_momentum, orbital_period','src/model_two_body.hpp'),('diff, diff_cm, mean_anomaly, delta_a_over_a, element arithmetic','src/model_two_body.hpp')])
prop('C14','Rational numbers are exact, reduced, and ordered like fractions',
 'Every rational number built by the library is in lowest terms with a positive denominator (zero is 0 / 1), arithmetic (sum, difference, product, quotient, negation, mixed with integers) is the exact arithmetic of fractions, equal values compare equal, comparisons order them as fractions, integral values convert exactly, and zero denominators are refused.',
 ['inputs'],'all numerators and denominators for which no intermediate product overflows; that gcd returns the greatest divisor: all arguments up to 48 and samples beyond',
 'exactness for every pair of fractions, including signs, zero and non-reduced arguments; the iteration count of every solver is such a number',
 ['src/core_rational.hpp'],
 [('rational_number_t arithmetic and comparison','src/core_rational.hpp'),('gcd, reduce','src/core_rational.hpp')])
prop('C18','The steps of the spherical codes are conservative finite-volume updates',
 'For any mesh and any states, one step of the blast wave code (Newtonian or relativistic, radial) and of the jet and cloud code (relativistic, radius and polar angle, piecewise constant or limited linear reconstruction) changes the content of each zone by exactly the fluxes through its faces (Riemann fluxes of the reconstructed states on both sides, times the face area) and the geometric source terms times the volume: what leaves a zone enters its neighbour; the inner boundary reflects (blast wave) or carries the jet inflow (jet and cloud), the outer copies, nothing crosses the poles; the mesh is kept, time and iteration advance by one step of the documented length, and the second order step is the average with the state two steps later.',
 ['inputs'],'all radii, angles, states and time steps on meshes of 1 to 4 zones (radial) and 1 to 2 by 2 to 3 zones (radius and angle); Riemann solver, recovery, limiter and sources through their contracts',
 'conservation must hold for every state and mesh; the applications have no unit test',
 ['src/subprog_sedov.cpp','src/subprog_cloud.cpp'],
 [('SedovProblem::advance, next_solution','src/subprog_sedov.cpp'),('CloudProblem::advance, next_solution, cell_volumes, radial_face_areas, polar_face_areas, extend_inflow_nozzle_inner','src/subprog_cloud.cpp')])
prop('C19','The circumbinary disk step is a conservative update with exact budgets',
 'One step of the disk code changes every zone by exactly the difference of single-valued face fluxes (Riemann plus viscous flux of limited reconstructions; where resolution changes the coarse face carries the sum of the fine fluxes) and by the source terms: softened gravity of both bodies, sinks, wave-damping buffer. The recorded totals are exactly what the sources removed: mass, angular momentum, work and momentum taken by each body or ejected, and the orbital elements change by the reaction of accretion and gravity on the bodies, only while the binary is live; no torque leaves through the domain edge in the angular momentum form. The time step keeps every signal within its zone in both formulations; negative densities are refused; the Runge-Kutta average acts on every recorded quantity; disk mass and angular momentum are the integrals over the mesh. The program takes the step of the requested size and order, and repeats one that fails with a tenth of it in safe mode, from the same state.',
 ['inputs','histories'],'all states, positions, bodies and parameters; meshes of 1 to 9 zones in one or four blocks, and four blocks with one refined for the flux matching; Riemann solver, limiter and orbital elements through their contracts',
 'conservation and bookkeeping over a whole mesh for arbitrary states; the application has no unit test',
 ['src/subprog_binary_scheme.cpp','src/subprog_binary_diagnostics.cpp','src/subprog_binary.cpp'],
 [('advance_u, advance_q, block fluxes, block updates, source terms','src/subprog_binary_scheme.cpp'),('correct_fluxes_x/y, extend, maximum_timestep, recover_primitive, solution_t arithmetic, validate','src/subprog_binary_scheme.cpp'),('disk_mass, disk_angular_momentum','src/subprog_binary_diagnostics.cpp'),('next_solution','src/subprog_binary.cpp')])
prop('C16','Numbers in containers: elementwise algebra, units, matrices, lists',
 'Fixed sequences, tuples (also the derived named kinds) and matrices of any values add, subtract, scale, compare and map element by element; sums, extrema, all/any, access, replacement and rearrangement (reverse, head/tail, concat, append, transpose) are those of the sequence; out-of-range access is refused; matrix products are row times column. Dimensional values carry exact exponents and values through products, quotients and powers; unit vectors have length one along the given direction; immutable linked lists behave as sequences and leave their originals unchanged.',
 ['inputs'],'all values; sequences of 3, tuples of 2, matrices 2x3 and 3x2 (the code is generic in the size); lists of 0 to 3 items',
 'every state, flux and coordinate in the code is such a container; tests use a few literals',
 ['src/core_sequence.hpp','src/core_tuple.hpp','src/core_matrix.hpp','src/core_dimensional.hpp','src/core_geometric.hpp','src/core_linked_list.hpp'],
 [('arithmetic_sequence_t','src/core_sequence.hpp'),('matrix_t, matrix_product','src/core_matrix.hpp'),('dimensional_value_t','src/core_dimensional.hpp'),('unit_vector_t','src/core_geometric.hpp'),('linked_list_t','src/core_linked_list.hpp')])
prop('C17','Polynomial solvers, analytic models and the shock locator are exact',
 'For all coefficients, the cubic and quartic solvers return zeros of the polynomial and all its real ones, reporting exactly the pairs that are real; the vertex of a parabola through three points is exact. Atmosphere masses are the integrals of the density and an atmosphere of given mass has it, the jet carries its total energy, velocities in the envelope are below light speed and consistent with four-velocity, radius and mass element, and the mass coordinate found for a radius has that radius. The shock is located at the steepest fall of entropy, and the maximum and plateau next to it are where the search says.',
 ['inputs'],'all real coefficients and model parameters; the shock locator on arrays of 2 to 5 values',
 'branches of the solvers depend on the signs of discriminants; no test covers the models',
 ['src/math_polynomial.hpp','src/model_atmosphere.hpp','src/model_jet_nozzle.hpp','src/post_shock_locator.hpp'],
 [('cubic_roots, quartic_roots, parabola_vertex','src/math_polynomial.hpp'),('power_law_atmosphere_model, cloud_and_envelop_model, solve_secant','src/model_atmosphere.hpp'),('jet_nozzle_model','src/model_jet_nozzle.hpp'),('find_shock_index, find_index_of_maximum_behind','src/post_shock_locator.hpp')])
prop('C20','Scheduled tasks are performed once per interval, in order',
 'For all times, intervals and task states: a task is marked due exactly when at least its interval has passed since its last performance, and its clock then advances by exactly one interval, so that with steps no longer than the interval none is lost or repeated; due tasks, and only those, run in the given order, each receiving the state left by the one before; completing a task counts it and clears its mark. Other tasks and the given state are untouched, and unknown tasks are refused. The blast wave, jet and circumbinary disk codes mark each of their tasks by its own interval (in orbits for the disk), run exactly the due ones, start with the tasks due, and go on exactly until the final time.',
 ['inputs','histories'],'all times, intervals, counts and marks of three tasks; one step from any state (by induction, any history)',
 'the cadence must hold along every history of time steps; tests try one',
 ['src/app_schedule.hpp','src/subprog_sedov.cpp','src/subprog_cloud.cpp','src/subprog_binary.cpp'],
 [('schedule_t','src/app_schedule.hpp'),('mark_tasks_in, run_scheduled_tasks, complete_task_in','src/app_schedule.hpp'),('next_schedule, run_tasks, create_schedule, simulation_should_continue','src/subprog_sedov.cpp'),('the same','src/subprog_cloud.cpp'),('next_schedule, create_schedule, simulation_should_continue','src/subprog_binary.cpp')])
prop('C21','Run configurations hold exactly the declared options and given values',
 'A configuration created from a template has the default of every option; setting or updating options (by value or from text) changes exactly these, to the given values, leaves the original configuration unchanged, and refuses unknown options, values of another type and text that is not a number. Command-line arguments are split at the first equals sign, others are ignored, and duplicates are refused.',
 ['inputs'],'all values of int and double options; option names, strings and command lines are examples',
 'every run depends on it, and a refused option must never be silently ignored',
 ['src/app_config.hpp'],
 [('config_t, config_template_t','src/app_config.hpp'),('argv_to_string_map','src/app_config.hpp')])
prop('C22','Files: what is written to HDF5 is read back equal',
 'Every number, text (also the empty one), sequence, array, list, tree of arrays or numbers, task schedule, configuration and disk state written to an HDF5 group and read back is equal to the original, of the same type and shape; a selection is written exactly at the selected elements, and a series grows by the samples appended. Existing values are replaced by values of the same type and shape; another type or shape, and names that are not there, are refused and change nothing.',
 ['inputs'],'all values; texts, names, array sizes (up to 6) and tree depths (up to 3) are bounded examples',
 'serialisation must be lossless for every value; tests write a few',
 ['src/core_hdf5.hpp','src/app_serialize.hpp','src/app_serialize_tree.hpp','src/subprog_binary_io.cpp'],
 [('h5::Location::write, read, require_dataset; h5::Dataset','src/core_hdf5.hpp'),('write_schedule, read_schedule, write_config, read_config, hdf5_type_info','src/app_serialize.hpp'),('write_tree, read_tree','src/app_serialize_tree.hpp'),('write, read of binary::state_t','src/subprog_binary_io.cpp')])
prop('C23','A run restarted from a checkpoint starts from the state in which it was written',
 'For every state of the blast wave code, of the jet and cloud code and of the circumbinary disk code, starting the program with restart=<checkpoint written in that state> gives the same solution (time, iteration, grid, conserved quantities, recorded totals and time series), the same task schedule (counts, times, and which tasks are due) and the same run configuration, so that the run goes on as the uninterrupted one does. The checkpoint is written under the number of times the task was performed.',
 ['inputs','crash_points'],'all values, times, counts and marks; up to 3 x 2 zones',
 'it must hold for every point at which a run can stop; no test restarts a run',
 ['src/subprog_sedov.cpp','src/subprog_cloud.cpp','src/subprog_binary.cpp','src/subprog_binary_io.cpp','src/app_serialize.hpp','src/app_schedule.hpp'],
 [('write_checkpoint, create_run_config, create_app_state','src/subprog_sedov.cpp'),('write_checkpoint, create_run_config, create_app_state','src/subprog_cloud.cpp'),('run_tasks, create_run_config, create_state','src/subprog_binary.cpp')])
prop('C24','The thread pool runs every enqueued task exactly once',
 'For every schedule of the worker threads, each enqueued task is run exactly once, its future receives its value or its exception, parallel evaluation of an array equals serial evaluation, and stopping the pool completes or joins all workers without deadlock.',
 ['schedules'],'all interleavings and any number of tasks','interleavings are not enumerated by tests',
 ['src/core_thread_pool.hpp','src/app_parallel.hpp'],
 [('ThreadPool::enqueue','src/core_thread_pool.hpp'),('evaluate_on','src/app_parallel.hpp')])
prop('C25','Messages between processes arrive whole, once, at the addressed rank',
 'Every value sent with the MPI wrapper is received equal by the addressed rank, requests complete exactly once, and no process waits for a message that is not sent.',
 ['schedules'],'all communicators and message orders','depends on every ordering of messages',
 ['src/core_mpi.hpp'],
 [('Communicator::send, recv, isend, irecv','src/core_mpi.hpp')])
with open(ROOT + '/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
