NB = "contracts not written yet"
FLT = "Unit tests evaluate single states with fixed tolerances; "

prop("A01", "Explicit DG flux between neighbours is consistent and conservative",
     "For equal states on both sides of a point, the numerical flux of the explicit DG scheme equals the physical shallow water flux through the given normal, for every gravity and every spherical metric factor. Swapping the two sides and reversing the normal negates every component of the flux, so nothing is created between neighbours. For unequal states the flux is the average of the two physical fluxes plus half of the larger wave speed estimate (normal speed plus metric-scaled gravity wave speed) times the jump, and nothing but the addressed point is written.",
     ["inputs"], "all wet states, depths, bathymetries, gravities, metric factors, unit normals and any number of points",
     FLT + "flux consistency and conservation are identities over the whole state space.",
     ["source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_numerical_fluxes.hpp"],
     [("LLF_flux", "rkdg_swe_numerical_fluxes.hpp")])
prop("A02", "Flux functions are the shallow water fluxes and Jacobians their derivatives",
     "The volume fluxes and the normal fluxes computed for any wet state are exactly the nonlinear shallow water fluxes (including bathymetry in the pressure term) in both coordinate directions. The normal flux Jacobian used by the implicit and hybridized schemes is exactly the derivative of that normal flux with respect to surface elevation and both momenta.",
     ["inputs"], "all wet states, gravities, unit normals, every point of arbitrarily long point lists",
     "A test compares a few numbers; a wrong term can cancel at the sampled state, and a Jacobian that is not the derivative only slows or breaks convergence elsewhere.",
     ["source/problem/SWE/problem_flux/swe_flux.hpp", "source/problem/SWE/problem_jacobian/swe_jacobian.hpp"],
     [("get_F, get_Fn", "swe_flux.hpp"), ("get_dFn_dq", "swe_jacobian.hpp")])
prop("A03", "Wave decomposition and stabilization matrices are those of the flux Jacobian",
     "For every wet state the left and right eigenvectors are inverse to each other and diagonalize the normal flux Jacobian with speeds un-c, un, un+c; the absolute, positive and negative parts recompose it and differ by the speed signs. The Lax-Friedrichs stabilization is the largest wave speed times the identity, dominates every wave speed, and agrees between its single-point and all-point forms. The derivatives of all of these with respect to each conserved variable are the true derivatives.",
     ["inputs"], "all wet states, positive gravities, unit normals, every point of arbitrarily long point lists",
     "The unit tests check one state per matrix; sign cases of the wave speeds and derivative terms are only reached at other states.",
     ["source/problem/SWE/problem_jacobian/swe_jacobian.hpp", "source/problem/SWE/problem_stabilization_parameters/swe_stab_param_LF.hpp"],
     [("get_A, get_absA, get_Aplus, get_Aminus, get_d*", "swe_jacobian.hpp"), ("get_tau_LF, get_dtau_dze/dqx/dqy_LF", "swe_stab_param_LF.hpp")])
prop("A04", "No water crosses a land boundary",
     "At a land boundary the mass flux is zero for every state, depth, wall direction and spherical metric factor, in the explicit DG scheme and in both hybridized schemes. The mirrored (explicit DG) or trace (hybridized) state keeps surface elevation and momentum along the wall and reverses or removes the momentum through it, and in the implicit scheme the land residual and both of its Jacobians say exactly that. Still water at a wall feels only the hydrostatic pressure.",
     ["inputs"], "all wet states, unit normals, metric factors, every point of arbitrarily long edges",
     FLT + "the metric factor and oblique walls are not varied by any test.",
     ["source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp", "source/problem/SWE/discretization_EHDG/boundary_conditions/ehdg_swe_bc_land.hpp", "source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_land.hpp"],
     [("RKDG Land::ComputeFlux, GetEX", "rkdg_swe_bc_land.hpp"), ("EHDG Land::ComputeNumericalFlux, ComputeFlux", "ehdg_swe_bc_land.hpp"), ("IHDG Land::ComputeInitTrace, ComputeGlobalKernels", "ihdg_swe_bc_land.hpp")])
prop("A05", "Tide, flow and function boundaries impose the prescribed forcing",
     "At a tide boundary the exterior state has the interior momentum and the elevation given by the ramped sum of all tidal constituents (amplitude times cosine of frequency times time plus equilibrium argument minus phase, phases in degrees) interpolated from the nodes; at a flow boundary it has the interior elevation and the same sum as normal discharge; at a function boundary it is the configured function of time and place. The explicit schemes use the current stage time, the implicit scheme the end of the step, and all of them impose it through their flux or characteristic condition.",
     ["inputs"], "all times, ramps, constituent data (1 to 3 constituents, two nodes), states, normals, every point of arbitrarily long edges",
     FLT + "no test evaluates a forced boundary with phases, ramps or several constituents.",
     ["source/problem/SWE/discretization_RKDG/boundary_conditions/", "source/problem/SWE/discretization_EHDG/boundary_conditions/", "source/problem/SWE/discretization_IHDG/boundary_conditions/"],
     [("RKDG Tide/Flow/Function", "discretization_RKDG/boundary_conditions"), ("EHDG Tide/Flow/Function, compute_bc_trace", "discretization_EHDG/boundary_conditions"), ("IHDG Tide/Flow/Function ComputeInitTrace, ComputeGlobalKernels", "discretization_IHDG/boundary_conditions")])
prop("A06", "Interior interfaces conserve mass and never drain dry elements",
     "Across an interior interface the mass flux leaving one element is the mass flux entering the other at every matching point, in the explicit DG and both hybridized schemes. An element flagged dry never loses water through an interface while its neighbour receives none of it, gravity does not act across a wet/dry front into the dry side, and two wet neighbours exchange exactly the numerical flux of the two traces.",
     ["inputs"], "all states, wet/dry combinations, normals, metric factors, any number of points (explicit hybridized kernel: bounded to 1, 2, 3 points)",
     FLT + "conservation is an identity over every pair of states and every wet/dry combination; wet/dry fronts are not unit tested.",
     ["source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_internal.hpp", "source/problem/SWE/discretization_EHDG/interface_specializations/", "source/problem/SWE/discretization_IHDG/interface_specializations/"],
     [("RKDG Internal::ComputeFlux", "rkdg_swe_is_internal.hpp"), ("EHDG Internal, edge interface kernels", "discretization_EHDG/interface_specializations"), ("IHDG Internal ComputeInitTrace, ComputeGlobalKernels", "discretization_IHDG/interface_specializations")])
prop("A07", "Splitting the mesh over processes does not change the interface flux",
     "A face split over two processes computes on each process exactly the flux that the same face computes as an interior interface: the wet flag and the states of both sides travel in the message and are unpacked in the order of the other side's points. The communication offsets reserved for each face leave room for its message and never overlap.",
     ["inputs", "schedule"], "all states, wet/dry combinations, normals, metric factors, message offsets, any number of points, any number of neighbouring faces",
     FLT + "parallel runs are compared for a single mesh and partition, where a wet/dry front never crosses the process boundary.",
     ["source/problem/SWE/discretization_RKDG/dist_boundary_conditions/", "source/problem/SWE/discretization_EHDG/dist_boundary_conditions/", "source/problem/SWE/discretization_IHDG/dist_boundary_conditions/", "source/simulation/stepper/", "source/problem/SWE/discretization_RKDG/kernels_preprocessor/rkdg_swe_pre_create_dbound.hpp"],
     [("RKDG Distributed::ComputeFlux, distributed_boundary_send_kernel", "rkdg_swe_dbc_distributed.hpp"), ("EHDG/IHDG Distributed", "discretization_EHDG, discretization_IHDG"), ("comm_buffer_offsets", "kernels_preprocessor")])
prop("A08", "Levees are walls until overtopped and then follow the weir formula",
     "Where the water on both sides of a levee is at most one centimetre above the crest, or the two sides differ by at most one centimetre, no water crosses. Otherwise the discharge goes from the higher to the lower side with the subcritical or supercritical weir formula chosen by the two thirds rule, with crest and coefficients interpolated from the levee nodes, and gravity is off on a dry receiving side. A levee split over two processes gives the same flux.",
     ["inputs"], "all states, crest heights, coefficients, normals, metric factors, wet/dry combinations, any number of points",
     FLT + "no test overtops a levee from both sides in both regimes.",
     ["source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp", "source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp"],
     [("Levee::Initialize, ComputeFlux", "rkdg_swe_is_levee.hpp"), ("DistributedLevee::Initialize, ComputeFlux", "rkdg_swe_dbc_distributed_levee.hpp")])
prop("A09", "Wetting and drying keeps the water and leaves wet elements alone",
     "Moving water between the nodes of an element never changes its volume, except that an element left with no water at all is given the minimum film and flagged dry. Afterwards every depth is positive, an element flagged dry has neither momentum nor a tendency, a partly dry element keeps its total momentum with none in its shallow nodes, and an element that was and is wet at all nodes is untouched. The wet flag follows the documented rule from its old value and the highest surface.",
     ["inputs", "history"], "all nodal depths, bathymetries, momenta, flags, thresholds and minimum depths for linear and quadratic elements",
     FLT + "wetting and drying has one scenario test with a dozen fixed states.",
     ["source/problem/SWE/problem_postprocessor/swe_post_wet_dry.hpp", "source/basis/bases_2D/basis_dubiner_2D.cpp"],
     [("wetting_drying_kernel", "swe_post_wet_dry.hpp")])
prop("A10", "The slope limiter keeps element averages and stays out of smooth and dry regions",
     "Limiting never changes the average water level or momentum of an element. It leaves elements alone that are dry or touch a dry neighbour, leaves variations below the threshold alone, flattens an isolated extremum over equal neighbours, and limits each edge with its own neighbour and the next one only. The neighbour averages and wet flags it uses are those of the element across the edge, also when that element lives on another process.",
     ["inputs", "schedule"], "all wet states, neighbour averages, edge geometries, limiter parameters and wet/dry combinations for linear and quadratic elements",
     "No unit test covers the limiter; an error in one characteristic field or sign regime shows only in particular flows.",
     ["source/problem/SWE/problem_slope_limiter/swe_CS_slope_limiter.hpp", "source/problem/SWE/problem_data_structure/swe_data_slope_limit.hpp"],
     [("slope_limiting_kernel, slope_limiting_prepare_*_kernel", "swe_CS_slope_limiter.hpp")])
prop("A11", "Explicit time stepping is strong stability preserving, of its order, and on time",
     "Every explicit method on offer has non-negative stage weights adding up to one with no step without a weight, and satisfies the Runge-Kutta conditions of its stated order. Each stage is evaluated at the time consistent with its coefficients, and one increment of the stepper, from any point of a run, moves to the next stage or to the next step exactly one step size later. The stage update combines all earlier stage values and right hand sides with exactly these weights for every degree of freedom, leaves earlier stages alone, and hands the last stage over as the next step value.",
     ["inputs", "history"], "all twelve methods; all states, right hand sides, step sizes, times, step counts, ramps, any number of degrees of freedom",
     "The unit test integrates one ODE to two digits, which first order stage times or a wrong low-order weight survive.",
     ["source/simulation/stepper/explicit_ssp_rk_stepper.hpp", "source/simulation/stepper/explicit_ssp_rk_stepper.cpp"],
     [("ESSPRKStepper constructor, InitializeCoefficients, operator++, UpdateState", "explicit_ssp_rk_stepper.cpp")])
prop("A12", "Implicit and split steppers keep time, ramp and accept only known methods",
     "The implicit stepper accepts only backward Euler and Crank-Nicolson with the matching weight of the old state, the explicit stepper only its listed methods, and everything else is refused. From any point of a run one increment advances time by one step and keeps the ramp of the current and the next time in step; the ramp starts from nothing and never leaves zero to one. The split stepper runs half steps of the first problem so that both problems reach the same time.",
     ["inputs", "history"], "all orders and stage counts up to 5 and 9, all step sizes, times, step counts and ramp durations",
     "No unit test touches the implicit or split stepper or the ramp.",
     ["source/simulation/stepper/implicit_stepper.hpp", "source/simulation/stepper/second_strang_stepper.hpp", "source/simulation/stepper/explicit_ssp_rk_stepper.hpp"],
     [("ImplicitStepper", "implicit_stepper.hpp"), ("SecondStrangStepper", "second_strang_stepper.hpp"), ("ESSPRKStepper ramp", "explicit_ssp_rk_stepper.hpp")])
prop("A13", "Basis functions are orthogonal polynomials with true derivatives",
     "At every order the triangle and segment basis functions are orthogonal with the announced squared norms, span all polynomials of that degree, and their tabulated derivatives are the derivatives of the tabulated values at every point, the collapsed vertex included. Values do not depend on which other points are evaluated with them, and the nodal and linear parts of an expansion reproduce every linear function.",
     ["inputs"], "every point of the reference triangle and segment; triangle orders to the limit given in the contract (exact integrals of the code's own polynomials)",
     "The unit test checks orthogonality through the same quadrature tables the code uses and never evaluates derivatives elsewhere.",
     ["source/basis/bases_2D/basis_dubiner_2D.cpp", "source/basis/bases_1D/basis_legendre_1D.cpp", "source/basis/polynomials/basis_polynomials.cpp"],
     [("Dubiner_2D::GetPhi, GetDPhi, GetMinv, ProjectLinearToBasis, ProjectBasisToLinear", "basis_dubiner_2D.cpp"), ("Legendre_1D", "basis_legendre_1D.cpp"), ("jacobi_polynomial", "basis_polynomials.cpp")])
prop("A14", "Every quadrature rule integrates all polynomials of its order exactly",
     "For each order on offer the triangle and segment rules have as many points as announced and integrate every polynomial up to that order exactly. The segment rules have positive weights and inner points and are symmetric about the middle, so the two sides of a face, which walk it in opposite directions, meet at the same points.",
     ["inputs"], "all triangle orders 0 to 20, all segment orders 0 to 65, all monomials",
     "The unit test integrates a few polynomials of the basis; one mistyped digit in a high order table survives it.",
     ["source/integration/integrations_2D/integration_dunavant_2D.cpp", "source/integration/integrations_1D/integration_gausslegendre_1D.cpp"],
     [("Dunavant_2D::GetRule, GPData", "integration_dunavant_2D.cpp"), ("GaussLegendre_1D::GetRule, GPData", "integration_gausslegendre_1D.cpp")])
prop("A15", "Triangle geometry: mapping, Jacobians, edge lengths and normals are consistent",
     "For every triangle the reference map sends vertices to vertices, is affine and is inverted by its inverse Jacobian, whose determinant is the ratio of areas; a clockwise triangle is turned and a point is found inside exactly when it is. Edge lengths are half the true length, unit normals point outwards and close up around the triangle, nodal functions interpolate, and edge points seen from the two elements sharing an edge coincide with opposite normals.",
     ["inputs"], "all non-degenerate triangles, points and quadrature positions",
     "The unit test has one right triangle; sign and index errors of general triangles do not show there.",
     ["source/shape/shapes_2D/shape_straighttriangle.cpp", "source/master/"],
     [("StraightTriangle", "shape_straighttriangle.cpp"), ("Master::Triangle", "master_triangle.tpp")])
prop("A16", "Element and edge operators integrate, project and differentiate exactly",
     "On every triangle the element reproduces any discrete or nodal linear function through its projections, point values, gradients and the inverse of its mass matrix, and its integrals are those of the true functions over the element. Integration by parts holds between element and edges, so constant and polynomial fields leave no spurious residual. Each edge evaluates and integrates the trace of its elements and its own trace functions, identically from both sides, survey points and written output carry the values of the discrete function, and the error norm is the integral of the squared difference.",
     ["inputs"], "all counter-clockwise triangles and all discrete functions of the orders given in the contracts (1 to 3)",
     "The unit tests use one triangle with few fields and compare tables built from the same quadrature.",
     ["source/geometry/element.hpp", "source/geometry/boundary.hpp", "source/geometry/interface.hpp", "source/geometry/edge_interface.hpp", "source/geometry/edge_boundary.hpp", "source/basis/bases_1D/basis_legendre_1D.cpp", "source/shape/shapes_2D/shape_straighttriangle.cpp"],
     [("Element", "element.hpp"), ("Boundary, Interface", "boundary.hpp"), ("EdgeInterface, EdgeBoundary", "edge_interface.hpp")])
prop("A17", "A lake at rest stays at rest and the volume of water is conserved",
     "One full stage of either explicit scheme (with discontinuous or hybridized interfaces) on a closed basin leaves still water over any bed exactly as it is: level and momentum keep their values in every element. For any flow, wet or dry on either side, the tendencies of the volumes of neighbouring elements cancel so that nothing is created or lost inside closed walls, and the amount of water and momentum in an element changes over a stage by the step size times its total tendency.",
     ["inputs"], "all triangles and pairs of triangles joined along any of their edges, depths, flows, gravities, step sizes and wet/dry combinations (wet columns of at least 0.1)",
     "Balance and conservation are identities between initialization, volume, source, interface and boundary kernels that no unit test runs together.",
     ["source/problem/SWE/discretization_RKDG/kernels_processor/", "source/problem/SWE/discretization_EHDG/kernels_processor/", "source/problem/SWE/discretization_EHDG/interface_specializations/", "source/problem/SWE/problem_source/swe_source.hpp", "source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp"],
     [("stage_serial, volume_kernel, source_kernel, interface_kernel, boundary_kernel", "discretization_RKDG/kernels_processor"), ("initialize_data_serial", "swe_pre_init_data.hpp"), ("get_source", "swe_source.hpp")])
prop("A18", "Initialization puts bathymetry, projection factors, flags and geometry in place",
     "After initialization every element, side and face point has the bathymetry linearly interpolated from the vertices and its exact slope, the same from both sides of a face, and the spherical factor cos(reference latitude) over cos(latitude) of that very point, or one without projection. The state is the configured initial state, an element is flagged wet exactly when all its vertices are deeper than the threshold and otherwise starts without momentum and with at least the minimum film, and the Coriolis parameter belongs to the mean latitude. The limiter knows centres, midpoints, distances and directions, the centre of the element across each side (mirrored at boundaries, received by message from other processes) and the weights that combine two of them into the midpoint.",
     ["inputs", "schedule"], "all triangles and pairs of triangles joined along any edges, depths, levels, thresholds, radii, latitudes, orders 1 and 2",
     "No unit test runs the initialization; mistakes in the outer side, the projection or the limiter geometry appear only in particular meshes.",
     ["source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp", "source/communication/db_data_exchanger.hpp"],
     [("initialize_data_serial, initialize_data_parallel_pre_send, initialize_data_parallel_post_receive", "swe_pre_init_data.hpp"), ("DBDataExchanger", "db_data_exchanger.hpp")])
prop("A19", "The source terms balance the bed slope and friction always opposes the flow",
     "At every point of every element the source adds no water and adds gravity times level times bed slope to the momentum, in both directions. Bottom friction removes momentum against the flow, quadratic in the speed, with the coefficient of that very point: the configured one, or the Manning value of the local depth but never below the configured one. Dry elements get no source; wet ones have exactly its integral with every basis function added to their tendencies.",
     ["inputs"], "all states, depths, slopes, coefficients, gravities and any number of points and basis functions",
     FLT + "the unit test has one state in one element and no Manning friction, where a coefficient carried over from another point cannot show.",
     ["source/problem/SWE/problem_source/swe_source.hpp", "source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_source.hpp", "source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_source.hpp"],
     [("get_source", "swe_source.hpp"), ("source_kernel", "rkdg_swe_proc_source.hpp"), ("source_kernel", "ehdg_swe_proc_source.hpp")])
prop("A20", "The implicit scheme solves the right equations with their exact linearisation",
     "The residual of every element, side and trace in the implicit scheme is the weighted difference quotient, flux, source and stabilised trace flux of the shallow water equations at the new time plus the old ones with the weight of the method. Every matrix block is exactly minus the derivative of its residual in the unknown it belongs to, for fluxes, bed slope, both friction laws and the stabilisation. Terms of several sides add up, land traces reflect, and the first guess of a step is the old state.",
     ["inputs"], "all wet states, traces, bathymetries, normals, coefficients, step sizes, both methods, any number of points (each point's contribution arbitrary)",
     "No unit test touches the implicit kernels; a wrong entry in a Jacobian only slows or stops convergence for particular flows.",
     ["source/problem/SWE/discretization_IHDG/kernels_processor/", "source/problem/SWE/discretization_IHDG/interface_specializations/", "source/problem/SWE/problem_jacobian/swe_jacobian.hpp"],
     [("local_volume_kernel, local_source_kernel, local_interface_kernel, local_boundary_kernel, local_distributed_boundary_kernel, local_edge_*_kernel, global_edge_*_kernel, init_*_kernel", "discretization_IHDG/kernels_processor")])
prop("A21", "Each Newton step of the implicit scheme solves the whole coupled system",
     "Every unknown of every trace owns exactly one row and column of the global system, the same from both sides of a face. Whatever the element, coupling and trace blocks are, the sparse system that is assembled is the elimination of the element unknowns from the coupled system: with its solution, the updates of all elements and traces satisfy every element equation and every trace equation. A step is reported converged only when the unknowns no longer move.",
     ["inputs"], "all blocks and right hand sides of two elements sharing any of their sides, or three elements over two submeshes in the parallel solver, several numbers of basis functions per element and trace; every matrix for the element inverses and every vector for the sparse solution",
     "No unit test runs the implicit solver; a block coupled to the wrong side or an update of the wrong sign only shows as slow or wrong convergence.",
     ["source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_serial_sol_glob_prob.hpp", "source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_sol_glob_prob.hpp", "source/problem/SWE/discretization_IHDG/kernels_preprocessor/ihdg_swe_pre_init_global_prob.hpp"],
     [("serial_solve_global_problem", "ihdg_swe_proc_serial_sol_glob_prob.hpp"), ("ompi_solve_global_problem", "ihdg_swe_proc_ompi_sol_glob_prob.hpp"), ("initialize_global_problem_serial", "ihdg_swe_pre_init_global_prob.hpp")])
prop("A22", "A stage runs every part exactly once and in order, also across processes",
     "One stage evaluates volume, source, side and boundary terms of every element from the state at its start, applies the mass matrix, updates and advances time once, and then applies wetting and drying and the limiter, each when enabled. Split over processes it gives the same states as in one process, never uses data that has not arrived or overwrites data still being sent, never deadlocks and leaves no message open. Input is read before every stage and output written once after the step; the implicit step repeats its solve until converged or a hundred times and ends with the new state.",
     ["inputs", "schedule"], "two neighbouring elements in one or two processes, arbitrary linear kernels, states and step sizes, wetting and drying, limiter, input and output on and off, two-stage method and implicit steps",
     "The unit tests never run a distributed stage; a message waited for too late or a kernel run twice only shows in some schedules.",
     ["source/problem/SWE/discretization_RKDG/kernels_processor/", "source/problem/SWE/discretization_EHDG/kernels_processor/", "source/problem/SWE/discretization_IHDG/kernels_processor/", "source/problem/SWE/problem_slope_limiter/"],
     [("step_serial, step_ompi, stage_serial, stage_ompi", "*_swe_proc_serial_step.hpp, *_swe_proc_ompi_step.hpp"), ("CS_slope_limiter_serial, CS_slope_limiter_ompi", "swe_CS_sl_serial.hpp, swe_CS_sl_ompi.hpp"), ("init_iteration", "ihdg_swe_proc_init_iter.hpp")])
prop("A23", "Setup gives every trace its unknowns, bed and numbers, in any partition",
     "Before the first step the trace on a face carries the mean bed of both sides at the same place and the trace on a wall its own, also when the face is shared between submeshes, and every block of the hybridized systems has the size of its unknowns. The implicit scheme numbers all trace unknowns of all submeshes and processes one after another without gap or overlap, every element and submesh at a face sees the same numbers, and each finds its part of the gathered solution. The preprocessors exchange their messages in an order that cannot deadlock or read data before it arrives, initialize every mesh once and leave room for all stages.",
     ["inputs", "schedule"], "any number of points per side and any message offset, any sides joined, any first numbers, one or two submeshes in one or two processes in either order, any rank of one to three processes with any numbers of unknowns elsewhere",
     "No unit test sets up a distributed or hybridized problem; a number shared by two traces or a bed taken from the wrong end of a face only shows as a wrong solution.",
     ["source/problem/SWE/discretization_EHDG/kernels_preprocessor/", "source/problem/SWE/discretization_IHDG/kernels_preprocessor/", "source/problem/SWE/discretization_RKDG/kernels_preprocessor/"],
     [("initialize_global_problem_*", "ehdg_swe_pre_init_global_prob.hpp, ihdg_swe_pre_init_global_prob.hpp"), ("preprocessor_serial, preprocessor_ompi", "*_swe_pre_serial.hpp, *_swe_pre_ompi.hpp")])
prop("N01", "Mesh and input files are read as written",
     "Every number, boundary and option of a mesh, forcing or input file ends up in the simulation as written, and malformed files are refused.",
     ["inputs"], "all input files", "Tests read a few small files.", ["source/preprocessor/ADCIRC_reader/", "source/preprocessor/input_parameters.hpp"], [("AdcircFormat", "adcirc_format.cpp")],
     na="the behaviour is that of iostream and yaml-cpp extraction, for which the deductive engine has no contracts; assuming them would assume the property")
prop("N02", "Partitioning gives every element one process and keeps cut faces matched",
     "Every element belongs to exactly one submesh and both sides of every cut face are told about each other.",
     ["inputs"], "all meshes and numbers of processes", "Tests partition one small mesh.", ["partitioner/"], [("partition", "partitioner/csrmat.hpp")],
     na="the assignment is computed by the external METIS library and passed through maps of run-time size and files; no contract within reach decides it")
prop("N03", "Threads and processes running concurrently do not race",
     "With several threads and processes no run has a data race and results do not depend on timing.",
     ["schedule"], "all interleavings", "Tests run one interleaving.", ["source/simulation/ompi/"], [("OMPISimulation::Run", "ompi_simulation.hpp")],
     na="the verifier is sequential: OpenMP barriers and real MPI have no semantics in it (the message protocol of a stage is property A22)")
NOTES = {
    "A06": "proved for all inputs over the reals, except the explicit hybridized interface with wet/dry cases, which is bounded to 1-3 points (bounded_contracts in the evidence)",
    "A13": "proved for all points; the polynomial orders are those listed in the contracts",
    "A20": "proved for all values; one arbitrary integration point and two degrees of freedom stand for arbitrarily many (integration is linear, blocks are assembled entry by entry)",
    "A21": "proved for all values of two elements (parallel: three over two submeshes) joined by any sides with 1 or 2 unknown functions; inverse(), the sparse solver, MPI and PETSc are assumed contracts (any matrix, any vector)",
    "A23": "proved for all values, points per side, offsets and numbers on two elements per submesh and two submeshes; MPI, PETSc and the communicator are assumed contracts (other processes contribute arbitrary values)",
    "A22": "proved for all linear kernels, states and options on two elements in one or two processes; kernels and the MPI communicator are assumed contracts (adversarial buffers)",
}
