import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=hook)))
OC="lumos/optimal_control/"; MO="lumos/models/"; NU="lumos/numpy/"
p("C01","Decision-variable layout is a bijection and all views of it agree",
 "For every problem shape, each (group, variable, stage) and each global variable owns exactly one position of the flat decision vector, and looking up by name, group, stage (negative stages counting from the end), all stages at once, or through flatten/unflatten, the per-stage table and the overlapping per-interval view always addresses that same position. Flattening then unflattening (and the reverse) returns the original values, and consecutive intervals share exactly their boundary stage. Stages outside the problem, unknown names and shapes that cannot be cut evenly into intervals are rejected, never wrapped to another position.",
 ["configurations","inputs"],"every combination of group sizes (including empty groups), number of intervals, stages per interval and number of global variables, and every lookup made on it",
 "The tests build one or two layouts and look up a few names; index arithmetic errors show only for other group sizes, stage counts, negative stages or empty groups.",
 [OC+"utils.py",MO+"base.py"],[("DecVarOperator index arithmetic",OC+"utils.py"),("batch_conv1d, create_offset_structure, stack_and_increment",OC+"utils.py"),("get_var_index_in_flat / _split_flat_vars",MO+"base.py")],
 [("decision vector","flat array of all unknowns","DecVarOperator")],["results of the index, flatten, unflatten and tensor methods"])
p("C02","A composite problem is exactly the concatenation and sum of its parts",
 "After any history of adding and deleting constraint blocks and objectives, the problem's constraint vector and Jacobian are the blocks in insertion order, its objective, gradient and Lagrangian Hessian are the sums over the remaining parts (each constraint weighted by its own multipliers, the objectives by the objective factor), and the reported counts, sparsity structures and the by-name split of a constraint vector all describe that same current set. Sparsity structures and values always have equal length and align entry by entry. A duplicate name or a block of the wrong size is rejected and changes nothing.",
 ["histories","inputs"],"every sequence of add, delete, query-structure and evaluate operations, for blocks with dense or sparse derivatives, and every point and multiplier vector",
 "The tests build one problem once and evaluate it; stale caches, offset errors and ordering errors appear only after particular add/delete/evaluate histories.",
 [OC+"nlp.py"],[("CompositeProblem add/delete/aggregate methods",OC+"nlp.py"),("cached upper-triangle mask",OC+"nlp.py")],
 [("constraints, objectives","ordered named parts","CompositeProblem")],["num_con, constraints, jacobian(structure), hessian(structure), objective, gradient, split_constraints"])
p("C03","Scaling is a pure change of units",
 "Whatever scales are set, and in whatever order scales, objectives and constraints are set or added, evaluating the problem at scaled variables gives the physical values divided by the constraint scales: values, gradients, Jacobians and Hessians are related to the unscaled ones by exactly the chain-rule factors. Setting scales replaces all earlier scales (variables not mentioned return to one), every stage of a variable gets the same scale. State-derivative and integration equations are scaled by the scale of the state they belong to, constraint-output equations by that of the constraint output, and residual, cyclic and added equations by one. Parts added later see the scales in force.",
 ["histories","inputs"],"every history of scale settings and of adding or deleting parts, over every problem formulation, and every point",
 "The tests set scales once and compare a few stored scale numbers; wrong factors in one derivative, one formulation or after a second setting are not exercised.",
 [OC+"nlp.py",OC+"scaled_mesh_ocp.py"],[("BaseConstraints/BaseObjective scale bookkeeping",OC+"nlp.py"),("ScaledMeshOCP.set_scales",OC+"scaled_mesh_ocp.py")],
 [("decision and constraint scales","units of variables and equations","nlp, ocp")],["constraints, jacobian, hessian, objective, gradient at scaled points"])
p("C04","Variable bounds follow last-write-wins and never override boundary conditions",
 "After any sequence of bound updates and boundary-condition updates, the bound in force on a variable at a stage is the boundary condition most recently added for it if there is one, otherwise the value most recently set for it, otherwise unbounded; nothing else changes. Scalar bounds apply to all stages, array bounds stage by stage, and negative stages count from the end. An update that is rejected (unknown name, stage out of range, wrong length, lower above upper) leaves all bounds and boundary conditions as they were and does not affect later updates.",
 ["histories","configurations"],"every history of legal and illegal bound and boundary-condition updates, over fixed and free mesh, condensed or not",
 "The tests apply one update of each kind; overwrites depend on the order of several updates and on what earlier updates remembered.",
 [OC+"scaled_mesh_ocp.py",OC+"config.py"],[("update_bounds/update_boundary_conditions/_set_var_bounds",OC+"scaled_mesh_ocp.py"),("BoundConfig validation",OC+"config.py")],
 [("lb, ub","bounds per decision variable","ocp"),("boundary conditions","list remembered for re-application","ocp")],["lb, ub, get_lb, get_ub"])
p("C05","The transcribed constraints are the model and scheme equations and nothing else",
 "For every model, scheme, mesh, cyclicity setting and backend, the constraint vector at a point consists of the model's state derivatives, constraint outputs and residuals at every stage (evaluated at that stage's mesh position), the scheme's integration equations over every interval, and first-stage-equals-last-stage for exactly the variables not declared non-cyclic. Forward Euler, trapezoidal and the collocation schemes have zero integration error on polynomials up to their order on every mesh. All constraints are equalities to zero.",
 ["configurations","inputs"],"every combination of model, scheme, interval count and spacing, fixed or free mesh, cyclicity, backend and decision vector",
 "The tests check one scheme and one mesh at random points, mostly against autodiff of the same code rather than against the equations.",
 [OC+"scaled_mesh_ocp.py",OC+"fixed_mesh_ocp.py",OC+"convolution.py",OC+"transcription.py",OC+"collocation.py",MO+"base.py"],
 [("continuity, model algebra and cyclic constraints",OC+"scaled_mesh_ocp.py"),("transcription matrices",OC+"transcription.py")],
 (),["constraints(x), split_constraints, get_continuity_matrices"])
p("C06","Derivatives handed to the solver are the exact derivatives of its functions",
 "At every point, for every formulation and backend, the objective gradient, constraint Jacobian and Lagrangian Hessian (for any multipliers and objective factor) equal the true derivatives of the objective and constraints the problem reports, with every nonzero entry present in the declared sparsity structure and each symmetric Hessian entry listed in one triangle only.",
 ["configurations","inputs"],"every model, scheme, mesh, cyclicity, fixed or free mesh, backend, point and multiplier vector",
 "The tests compare with automatic differentiation of the same functions for one drone model on one mesh; wrong structure rows for other group sizes, backends or schemes are not reached.",
 [OC+"scaled_mesh_ocp.py",OC+"fixed_mesh_ocp.py",OC+"nlp.py",OC+"convolution.py",MO+"base.py","lumos/simulations/laptime_simulation.py"],
 [("hand-written continuity/cyclic/time derivatives and structures",OC+"scaled_mesh_ocp.py"),("mapped model derivatives per backend",OC+"nlp.py"),("custom-derivative models",MO+"base.py")],
 (),["gradient, jacobian, jacobianstructure, hessian, hessianstructure"])
p("C07","The condensed formulation is the full one with state derivatives eliminated",
 "For every model, scheme and mesh, the condensed problem's constraints equal those of the full problem with the state-derivative unknowns replaced by the model's own derivatives, and its Jacobian and Lagrangian Hessian are the exact derivatives of those constraints with respect to the remaining unknowns, regardless of the values held in the unused state-derivative entries, which are pinned to zero. Constraint outputs, residuals, cyclic constraints and objectives are the same in both.",
 ["configurations","inputs"],"every model, scheme, mesh (fixed or free scale), cyclicity, backend, point and multiplier vector",
 "The tests compare shapes and derivatives of one configuration; the two formulations are never compared with each other at arbitrary points.",
 [OC+"scaled_mesh_ocp.py"],[("_condensed_constraints/_jacobian/_hessian chain rule",OC+"scaled_mesh_ocp.py")],(),["constraints, jacobian, hessian of both formulations"])
p("C08","Re-meshing is equivalent to building the problem on the new mesh",
 "The mesh always starts at zero, ends at the mesh scale, and places every interval's stages at the scheme's points between the given interval ends; meshes of the wrong length, not covering zero to one, or not strictly increasing are rejected and leave the old mesh in place. After any sequence of re-meshing and mesh-scale changes the problem's constraints, derivatives and reported meshes equal those of a problem freshly built on the final mesh.",
 ["histories","configurations"],"every sequence of legal and illegal mesh changes and of positive mesh-scale changes, for every scheme, formulation and backend, with models that depend on the mesh position",
 "The tests re-mesh once and compare only the reported mesh; parts that remember the old mesh are visible only for mesh-dependent models evaluated after the change.",
 [OC+"scaled_mesh_ocp.py",OC+"fixed_mesh_ocp.py",OC+"convolution.py"],[("set_normalized_mesh, set_mesh_scale",OC+"scaled_mesh_ocp.py"),("mesh handed to the batched model constraints",OC+"convolution.py")],
 [("normalized mesh","interval points per scheme","ocp"),("mesh scale","fixed or decision variable","ocp")],["get_mesh, get_mesh_from_scale, constraints, jacobian, hessian"])
p("C09","Parameter changes reach every evaluation; evaluation never changes parameters",
 "After changing a model parameter through a problem, every later evaluation of that problem (constraints, derivatives, batched model calls, on every backend and formulation), and after changing it through the model, every later evaluation of the model itself, uses the new value and none a stale one. Building, evaluating, differentiating, compiling or exporting a model never alters the parameters stored in it, and parameter trees handed out are independent copies whose modification does not affect the model.",
 ["histories","configurations"],"every interleaving of parameter changes, parameter reads, evaluations, problem constructions and exports, for all backends, full and condensed, with scalar and array parameters",
 "The tests change one parameter once on one backend; leaks and stale values depend on the order of tracing, evaluation and modification.",
 [OC+"scaled_mesh_ocp.py",OC+"convolution.py",MO+"base.py",MO+"composition.py",MO+"tree_utils.py"],
 [("modify_model_param / set_params",OC+"scaled_mesh_ocp.py"),("set/get_recursive_params, restore after tracing",MO+"base.py")],
 [("model parameters","values stored in the model tree","model")],["constraints, batched_forward, get_recursive_params, export_c_code"])
p("C10","Parameter and configuration trees keep structure, values and independence",
 "For every tree, converting to nested or flat dictionaries or to a flat vector and back yields an equal tree with the same shapes, for numpy, JAX and CasADi values alike; setting a value or replacing a subtree changes exactly that path, and copies and dictionaries made from a tree never share mutable state with it. Operations naming a missing subtree are rejected and change nothing.",
 ["histories","inputs"],"every tree shape, parameter value shape (scalar, length-one, empty, vector, matrix) and sequence of operations on several trees and their copies",
 "The tests use one two-level tree with scalar values; shape loss, order changes and aliasing need particular shapes or operation sequences.",
 [MO+"tree_utils.py"],[("Tree, ParameterTree, ConfigTree and the ravel functions",MO+"tree_utils.py")],[("tree","nested data","tree_utils")],["get_param, to_dict, to_flat_dict, tree_ravel, jax flatten/unflatten"])
p("C11","Models are assembled exactly as configured",
 "A model built from a configuration has, at every path, a submodel of the configured type with its own parameters (the given ones, or that type's defaults), and models built from equal configurations never share state. The type registry maps each name to the type last registered under it; duplicate registrations, lookups and removals of unknown names and configurations for the wrong type are rejected without side effects.",
 ["histories","configurations"],"every sequence of registry operations, configuration edits, subtree replacements, model builds and parameter sets",
 "The tests build three fixed models in one order; interference between models and registry histories are not explored.",
 [MO+"composition.py",MO+"tree_utils.py"],[("ModelMaker registry",MO+"composition.py"),("CompositeModel construction and recursive params",MO+"composition.py")],[("registry","name to type","ModelMaker")],["make_config, make_model_from_*, get_submodel, get_recursive_params"])
p("C12","Submodel outputs are collected exactly once per evaluation",
 "A model's outputs are its own outputs plus every submodel's outputs under the submodel's name, from the current evaluation only: calling a submodel twice or not at all before collection is an error, collection clears the record, and an evaluation that fails part-way never makes a later evaluation fail or return stale values. Missing inputs or outputs are rejected, and dictionary and array forms of inputs, outputs, constraint outputs and residuals always agree by name.",
 ["histories","fault_sequences"],"every order of submodel calls, collections and failures (missing keys, submodel errors) at any depth, and every selection of constraint outputs and residuals",
 "The tests run complete, successful evaluations plus one forgotten call; histories with failures in between are not exercised.",
 [MO+"base.py"],[("call_submodel buffer and make_outputs_dict",MO+"base.py"),("forward_with_arrays and name checks",MO+"base.py")],[("submodel return record","returns since last collection","Model")],["forward, forward_with_arrays, call_submodel, make_outputs_dict, errors raised"])
p("C13","Selecting a numerical backend is properly scoped",
 "Inside a backend scope the chosen backend is in force, and leaving it, normally or by exception, restores the backend that was in force on entry, for any nesting, re-entry, recursion or reuse of the same scope object or decorated function. Selecting an unknown backend leaves the current one in force. (One thread; scopes are left in the reverse order of entry.)",
 ["histories"],"every nesting and sequence of backend selections, scopes, decorated calls and exceptions",
 "The tests use one scope; restoring the wrong backend needs a scope created under one backend and entered under another, or nested reuse.",
 [NU+"__init__.py",NU+"utils.py"],[("set_backend",NU+"__init__.py"),("use_backend context/decorator",NU+"utils.py")],[("current backend","global selection","lumos.numpy")],["get_backend and array types produced"])
p("C14","Batched mapping equals one-at-a-time evaluation",
 "Mapping a function over a batch gives, for every element, exactly what calling the function on that element gives, in order, for single, tuple and named outputs, dense and sparse results, and arguments shared by all elements; reusing one mapped function with different batch sizes or shared values never returns results of an earlier call.",
 ["histories","inputs"],"every sequence of calls with varying batch sizes, argument positions that are shared, and output kinds, for the loop-based and the threaded mapping",
 "The tests map once with one batch size; cached batch functions and shared arguments in the first position are not reached.",
 [NU+"utils.py"],[("lmap, cmap",NU+"utils.py")],[("cached mapped function","per batch size","cmap")],["return values"])
p("C15","Array operations mean the same on every backend",
 "Every array operation offered for the CasADi backend gives, for real vectors (a vector of n elements is a CasADi column) and matrices of the shapes the operation supports, the same values in the same layout as the operation of that name in NumPy, for numeric and symbolic arguments, and so do the backend-neutral vector helpers.",
 ["inputs"],"all operations over all small integer vectors and matrices, scalar/array mixtures and argument options the operation accepts",
 "The tests call each operation on one or two inputs, mostly symmetric or one-dimensional ones that hide row/column order and off-by-one differences.",
 [NU+"casadi_numpy/",NU+"utils.py"],[("casadi_numpy functions",NU+"casadi_numpy/"),("vector_concat/split/tile",NU+"utils.py")],(),["returned arrays"])
p("C16","Every shipped model computes the same function on every backend",
 "For every shipped model, parameter set and operating point, evaluation with NumPy, JAX and CasADi (direct, batched, compiled) gives the same outputs, state derivatives and residuals up to rounding, the same values whether called with dictionaries or arrays and whatever was evaluated before, and derivatives that agree between backends.",
 ["inputs","histories"],"all shipped aero, tire, kinematic, vehicle and drone models, over parameter sets and operating points in their domain, and any order of evaluations",
 "The tests smoke-call each model at one point per backend and rarely compare values; branches on sign or range differ only elsewhere.",
 [MO+"aero/aero.py",MO+"ml.py",MO+"kinematics.py",MO+"drone_model.py",MO+"tires/pacejka.py",MO+"tires/perantoni.py",MO+"tires/utils.py",MO+"vehicles/simple_vehicle.py",MO+"simple_vehicle_on_track.py",MO+"base.py"],
 [("backend-neutral model code",MO)],(),["forward, forward_with_arrays, batched_forward, compiled functions"])
p("C17","Iteration logs are a faithful record of each solve",
 "For every sequence of solver iterations (including repeated notifications on entering restoration and any logging stride), after a solve the log holds exactly one metrics row per notified iteration in order, one saved table per stride iteration plus the final one, each carrying that iteration's physical variables, mesh and constraint values, with temporary files removed and the largest violation attributed to the right iteration, constraint and mesh position. Solving again with the same problem records the new solve without mixing in the previous one, and nothing is written when logging is off.",
 ["histories","configurations"],"every sequence of solver callbacks, logging stride, scaling, formulation and number of consecutive solves",
 "The logging tests need a working solver and run one solve; restoration repeats, final-iteration coincidences and repeated solves are not covered.",
 [OC+"scaled_mesh_ocp.py",OC+"nlp.py",OC+"config.py"],[("intermediate, _log, _log_final_iter, _create_result_df",OC+"scaled_mesh_ocp.py")],
 [("iteration count, metrics history","log state","ocp")],["files in the logging directory"])
p("C18","Compiled model libraries always match the model that requested them",
 "Whatever other processes or earlier runs do in the same working directory (building other models at the same time, being killed at any moment, failing to compile, or leaving partial files), a CasADi-backed model evaluates exactly its own equations, or reports an error when built, and the latter only if its own compiler run failed; a library left by one run is reused only for identical equations. (Files are those that building leaves; libraries damaged or put there by other programs are not considered.)",
 ["schedules","crash_points","fault_sequences"],"all interleavings of several building processes and crashes or compiler failures at every step",
 "The tests build sequentially in one process; races on shared file names and partially written libraries need particular interleavings or crashes.",
 [MO+"base.py"],[("generated source, content hash and library cache",MO+"base.py")],[("files in the working directory","source and libraries","cwd")],["values returned by the built constraints; errors"])
p("C19","Configuration objects are validated, independent and round-trip",
 "Every configuration that is built keeps exactly the values given, survives conversion to a plain dictionary and back with equal meaning, and never shares mutable defaults or alters the values passed in; using a configuration to build one or more problems leaves it unchanged. Invalid bounds (lower above upper, mixed or mismatched types and sizes, wrong dimension) are rejected, and lap-time configurations always treat time and track heading as non-cyclic.",
 ["histories","inputs"],"every combination of configuration values and every sequence of constructions, conversions and uses",
 "The tests round-trip one default configuration; sharing and mutation appear only when a configuration is reused.",
 [OC+"config.py","lumos/simulations/laptime_simulation.py",OC+"scaled_mesh_ocp.py"],[("dataclass configs and __post_init__",OC+"config.py")],(),["config fields, to_dict, equality"])
p("C20","Track data drives lap-time problems faithfully",
 "A track's curvature, heading and side distances at any distance are the linear interpolation of its table measured from its start, with headings continuous and the distance origin at zero; imported centre lines get the heading and curvature of their points, and the rates of a vehicle's time, lateral position and heading along the track follow from its motion and the track's curvature. After any sequence of track, mesh, bound, boundary-condition and scale changes a lap-time problem uses the last track only: its mesh covers that track's length, curvature and heading inputs are fixed to the track's values at every stage and lateral position is limited by the side distances, while other bounds and boundary conditions stay in force; its objective is the lap time plus the mean squared steering, whatever the scales. A track that is rejected changes nothing.",
 ["histories","inputs"],"every track table and query distance, and every sequence of track, mesh, bound, boundary-condition and scale changes, legal and illegal",
 "The tests load one or two shipped tracks once; repeated track changes and interactions with bounds are not explored.",
 [MO+"tracks.py","lumos/simulations/laptime_simulation.py",MO+"kinematics.py"],[("RaceTrack lookup and import",MO+"tracks.py"),("set_track",  "lumos/simulations/laptime_simulation.py")],
 [("track","current track table","simulation")],["curvature_at, heading_at, left/right_distance_at, lb, ub, distance_mesh, initial guess"])
p("C21","Steady-state problems pose exactly the model's algebra and requested limits",
 "A steady-state problem's constraints are the model's equations at the parameters it was built with, its bounds are the last limits set per variable, its objective is the weighted sum of the selected variables, and scales are the last ones set per variable, consistently in values and all derivatives including the Hessian. Rejected settings (unknown group or name, non-positive scale, lower above upper) change nothing.",
 ["histories","inputs"],"every sequence of bound, scale and objective settings, legal and illegal, with evaluations in between",
 "The tests set each item once and most need a working solver; the Hessian is never evaluated.",
 [OC+"model_solver.py",OC+"nlp.py"],[("ModelSolver",OC+"model_solver.py")],[("scales, bounds, objectives","problem settings","ModelSolver")],["constraints, jacobian, hessian, objective, get_bounds"])
p("C22","Solving exchanges physical values with the user, scaled ones with the solver",
 "For every problem, scaling and solve history, the solver receives bounds and starting point divided by the variable scales, the problem's own constraint bounds and the user's options over the defaults, and the user gets back the solver's result multiplied by the scales, its information and the iteration count of that solve; multipliers returned by the solver reach it unchanged when the user passes them on for a warm start; a problem without objective is solved as a feasibility problem, solver error states raise, and solving does not otherwise change the problem.",
 ["histories","configurations","fault_sequences"],"every problem state, option set, starting point (given or default), solver return state, and sequence of solves",
 "Solver-based tests do not run reliably here and check only final answers of well-behaved problems; what crosses the solver boundary is never observed.",
 [OC+"nlp.py",OC+"scaled_mesh_ocp.py"],[("solve, _construct_ipopt_problem",OC+"nlp.py")],[("problem","bounds, scales, objectives","nlp")],["arguments of the solver construction and call, return values"],None)
p("C23","Tyre models evaluate their published formulas for any parameters",
 "For every parameter file or set of parameters and every operating point, the MF5.2 tyre returns the forces, combined-slip factors, stiffnesses and (unless built in the mode that leaves them out) moments of the Magic Formula, and the Perantoni tyre those of its paper; parameters read from a parameter file are exactly the numbers in the file. Consequently a mirrored tyre gives the mirrored forces and moments, and results do not depend on the units chosen.",
 ["inputs","configurations","histories"],"every parameter value (including those inactive in the default file), operating point, output mode, parameter file layout and history of parameter changes",
 "The tests compare a grid of operating points for the default parameter file, in which many coefficients vanish or compensate, so most terms of the formulas are not distinguishable.",
 [MO+"tires/pacejka.py",MO+"tires/perantoni.py",MO+"tires/utils.py"],[("_calculate_* methods",MO+"tires/pacejka.py"),("forward",MO+"tires/perantoni.py"),("read_tir_file",MO+"tires/utils.py")],
 [("parameters","tyre coefficients","Model")],["outputs of forward and forward_with_arrays, parameters read"])
p("C24","Vehicle, track and drone models obey the laws of motion",
 "For every set of parameters, operating point and tyre model plugged in at each corner: the wheel loads of the car carry its weight and downforce and balance the roll and pitch moments of its accelerations; the drive torques deliver throttle times maximum power and differ by the differential friction; the brake torque is shared by the brake balance; the accelerations are those of the tyre forces (taken in the wheel's frame at the wheel's velocity) and the drag acting on the rigid body, and the wheels accelerate by drive, brake and road torque, so energy is conserved; a mirrored situation gives the mirrored result. The track kinematics splits the speed into progress along the centre line and motion across it, the car on a track changes per distance as the car does per time, divided by that progress, and the drone is moved by thrust along its axis and gravity only. Outputs report the quantities used.",
 ["inputs","configurations","histories"],"every parameter value, operating point, steering and heading angle, tyre response at each corner, and history of parameter changes",
 "The tests only check that the models evaluate and that backends agree with each other; a wrong sign, swapped corner or missing factor in a force balance leaves all of them passing.",
 [MO+"vehicles/simple_vehicle.py",MO+"kinematics.py",MO+"simple_vehicle_on_track.py",MO+"drone_model.py"],[("forward",MO+"vehicles/simple_vehicle.py"),("forward",MO+"kinematics.py"),("forward",MO+"simple_vehicle_on_track.py"),("forward",MO+"drone_model.py")],
 [("parameters","tree of the model and its submodels","Model")],["states_dot and outputs of forward and forward_with_arrays"])
p("C25","The drone problem is the minimum-time flight it is documented to be",
 "For every configuration (integration scheme, mesh, condensed or not, cyclic or not, constraint outputs, backend, default or own limits and boundary conditions) and every history of scales, meshes, limits, boundary conditions, parameters, added parts and solves, the shipped drone problem minimises the flight time, which is its mesh scale; its equations and their first and second derivatives are those of the drone's motion under the gravity in force; by default it flies from rest at the origin to rest five metres higher having turned once, within the documented limits; its starting point satisfies the equations of motion for the current gravity; a solve exchanges physical values with the user and scaled ones with the solver.",
 ["histories","configurations","inputs"],"every configuration and history of the drone problem, every decision vector whose pitch angles have rational sine and cosine plus whole turns",
 "One test solves one drone problem once; that its equations, derivatives and limits stay those of the documented flight after any change of settings is not observed.",
 ["lumos/simulations/drone_simulation.py","lumos/models/drone_model.py","lumos/optimal_control/scaled_mesh_ocp.py"],[("DroneSimulation","lumos/simulations/drone_simulation.py"),("ScaledMeshOCP","lumos/optimal_control/scaled_mesh_ocp.py")],
 [("problem","scales, mesh, bounds, boundary conditions, parameters","DroneSimulation")],["constraints, jacobian, hessian, objective, gradient, lb, ub, get_total_time, get_init_guess, arguments of the solver"])
p("C26","Problems are built as their configurations say, or refused",
 "For every configuration of an optimal control problem, each setting given or left at its documented default, the problem built meets it in full: model, integration scheme, number of intervals, mesh, mesh scale, constraint outputs, cyclic and condensed form, bounds, boundary conditions, scales and backend. A configuration that cannot be met (unknown variables, groups, schemes, backends or outputs, outputs named twice, illegal meshes, bounds, stages or mesh scales, scales that are not positive) is refused. A construction, refused or not, changes neither the configuration nor the model's parameters, nor any problem built before; problems may share models and configurations, and a problem keeps its own settings.",
 ["histories","configurations","inputs"],"every configuration and every history of building problems on one model, with parameters of the model and the problems changed in between",
 "The tests build a few problems from a few configurations; a setting ignored, taken from another problem, shared through a default, or accepted though it cannot be met shows only for particular combinations and orders.",
 [OC+"scaled_mesh_ocp.py",OC+"fixed_mesh_ocp.py",OC+"config.py",OC+"transcription.py",MO+"base.py"],[("ScaledMeshOCP construction",OC+"scaled_mesh_ocp.py"),("FixedMeshOCP construction",OC+"fixed_mesh_ocp.py"),("SimConfig and its parts",OC+"config.py"),("set_con_outputs",MO+"base.py")],
 [("problems","problems built so far, each with its settings","problem instances"),("model","parameters shared by problems built later","StateSpaceModel")],["constraints, jacobian, hessian, objective, lb, ub, scales, mesh of every problem held","configuration objects and model parameters after each construction"])
p("C27","Aerodynamic maps are the functions their parameters describe",
 "A constant map returns its coefficients; a Gaussian-process map returns, for every output, the sum over its points of its weight times exp(-squared distance); a network map returns the alternation of its weight matrices, in the order of the layers, with tanh. Default parameters have the sizes the class states. This holds for any number and order of points, layers and widths, any place, scalar or array evaluation, every backend, derivatives included, with the parameters of the very instance or those given for one evaluation; evaluating changes no parameter, and instances do not share theirs.",
 ["inputs","configurations","histories"],"every parameter set, number of points, layers and layer width, every place, every history of setting parameters of several instances",
 "The tests evaluate the maps once with random default parameters and check that backends agree; no value is compared with the function the parameters describe.",
 [MO+"aero/aero.py",MO+"ml.py"],[("ConstAero, GPAero, MLPAero",MO+"aero/aero.py"),("gp, mlp",MO+"ml.py")],
 [("parameters","per instance","Model._params")],["forward, forward_with_arrays, apply_and_forward and their derivatives"])
p("C28","A solve returns the optimum of the problem as it stands",
 "With the solver converged, solve returns - in physical units - the minimiser of the sum of the objectives present subject to the equations of the transcription (for a steady-state problem, of the model) and the bounds and boundary conditions in force, whatever the scheme, formulation, mesh, scales, parameters, starting point, warm start and Hessian option, and however the problem was changed since it was built or solved before; the reported objective value and, with logging, the recorded results and metrics are those of the solution.",
 ["inputs","configurations","histories"],"every mesh, scheme, formulation, parameter, cost, bound, scale, start, and history of changes between solves",
 "Tests solve a few problems and compare formulations with each other; none knows the optimum, and none solves a problem object again after it was changed.",
 [OC+"nlp.py",OC+"scaled_mesh_ocp.py",OC+"fixed_mesh_ocp.py",OC+"model_solver.py"],[("solve, objective and constraint composition",OC+"nlp.py"),("bounds, scales, transcription",OC+"scaled_mesh_ocp.py")],
 [("bounds, scales, objectives, parameters, mesh","problem","ScaledMeshOCP")],["solution and info returned by solve","results.csv, metrics_history.csv"])
for d in P: assert len(d["title"])<=80,(d["id"],len(d["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
