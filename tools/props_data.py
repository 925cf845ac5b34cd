prop("C01", "Plant models agree across array and tensor inputs",
     "Every plant model and rotation helper that accepts both numpy arrays "
     "and torch tensors computes the same mathematical function with either, "
     "for every state, input and plant parameter, with the same output "
     "shape. This covers the dynamics of the rockets, pendulum, planar and "
     "3D quadrotors, unicycle, acceleration car and pole, the energies and "
     "linearizations that have two back ends, and the roll-pitch-yaw "
     "conversions with their differentials.",
     ["inputs", "configurations"],
     "all states, inputs and physical parameters, each back end",
     "Existing tests compare the two back ends at a few states (or not at "
     "all); a swapped sign or index that vanishes at those states survives.",
     [EXD + "rocket/rocket.py", EXD + "pendulum/pendulum.py",
      EXD + "quadrotor2d/quadrotor_2d.py", EXD + "quadrotor3d/quadrotor.py",
      EXD + "car/unicycle.py", EXD + "car/acceleration_car.py",
      EXD + "pole/pole.py", NN + "geometry_transform.py"],
     [("isinstance(x, np.ndarray) / torch.Tensor branches",
       "the dynamics methods and geometry_transform")],
     [EXD + "quadrotor3d/quadrotor.py: Quadrotor.dynamics"])

prop("C02", "Hand-written gradients equal the Jacobians of the model",
     "Every hand-written linearization or gradient in the repository is the "
     "exact Jacobian of the function it documents, at every state, input and "
     "parameter value: the plant linearizations, the differentials of the "
     "roll-pitch-yaw map and of rotations, the spring-loaded pendulum's "
     "stance/flight/transition/guard gradients, and the conversion between "
     "body rate and rpy rate.",
     ["inputs"], "all states, inputs and parameters off the singular set",
     "Tests compare against finite differences or autograd at a few random "
     "points, for some of the gradients only, within a tolerance.",
     [EXD + "rocket/rocket.py", EXD + "pendulum/pendulum.py",
      EXD + "quadrotor2d/quadrotor_2d.py", EXD + "quadrotor3d/quadrotor.py",
      EXD + "car/unicycle.py", NN + "geometry_transform.py",
      NN + "spring_loaded_inverted_pendulum.py"],
     [("linearized_dynamics / dynamics_gradient", "plant classes"),
      ("drpy2rotmat, *_gradient", "geometry_transform.py, "
       "spring_loaded_inverted_pendulum.py")])

prop("C03", "Plant models obey the mechanics they document",
     "Each plant's state derivative satisfies the Newton-Euler or "
     "Euler-Lagrange equations of the documented body for every state, input "
     "and parameter; wheeled vehicles never slip sideways, the documented "
     "hover inputs are equilibria, energies are consistent with the "
     "dynamics, and rotations built from rpy are orthonormal with "
     "determinant one. The spring-loaded pendulum's guards and transitions "
     "conserve energy and touchdown followed by lift-off is the identity.",
     ["inputs", "configurations"],
     "all states, inputs and physical parameters",
     "Tests check a handful of states, often against a re-typed formula.",
     [EXD + "rocket/rocket.py", EXD + "pendulum/pendulum.py",
      EXD + "quadrotor2d/quadrotor_2d.py", EXD + "quadrotor3d/quadrotor.py",
      EXD + "car/unicycle.py", EXD + "car/acceleration_car.py",
      EXD + "pole/pole.py", NN + "geometry_transform.py",
      NN + "spring_loaded_inverted_pendulum.py"],
     [("dynamics methods", "plant classes")])

prop("C04", "Simulation holds the control and integrates the given dynamics",
     "One step of the fixed-step integrator is a fourth-order accurate "
     "approximation of the flow with the controller's value at the start of "
     "the step held throughout, several steps compose, and every simulation "
     "helper built on the library ODE solver integrates exactly the plant's "
     "state derivative from the given state, over the given time span, "
     "with the control evaluated (held or fed back) as documented, and "
     "returns the trajectory in order. Accumulated costs along a trajectory "
     "are the integral of the documented running cost.",
     ["inputs", "configurations"],
     "all vector fields, controllers, initial states and step lengths",
     "Tests integrate one or two fixed systems and compare to a tolerance "
     "that hides a wrong order or a re-evaluated control.",
     [NN + "integrator.py", EXD + "rocket/rocket.py",
      EXD + "pendulum/pendulum.py", EXD + "quadrotor2d/quadrotor_2d.py",
      EXD + "quadrotor3d/quadrotor.py", EXD + "car/unicycle.py",
      NN + "utils.py", NN + "hybrid_linear_system.py"],
     [("rk4_constant_control_step and the next_pose / simulate helpers",
       "integrator.py, examples/, utils.py")])

prop("C05", "Line-search optimizers accept only sufficient decrease",
     "A step of either line-search optimizer tries step sizes that shrink "
     "geometrically along its documented search direction, accepts the first "
     "whose loss is below the initial loss minus the documented fraction of "
     "step times directional derivative, and leaves the parameters at that "
     "trial while returning the loss there; with no acceptable trial it "
     "stops at the documented minimum step or iteration limit. The search "
     "direction (momentum, damping, Nesterov, weight decay; Adam moments, "
     "bias correction, amsgrad) follows the documented recursion over any "
     "number of steps.",
     ["inputs", "histories", "configurations"],
     "all parameters, gradients, hyper-parameters, loss sequences",
     "Tests minimise one quadratic and check that the loss went down.",
     [NN + "line_search_gd.py", NN + "line_search_adam.py"],
     [("step loops", "LineSearchGD.step, LineSearchAdam.step")])

prop("C06", "Encoders and decoders are shape-inverse and keep samples apart",
     "For every supported image size each encoder maps a batch of image "
     "pairs to a mean and a log-variance of the latent size, taken from two "
     "disjoint parts of its last layer, and the matching decoder maps a "
     "latent batch back to images of the original shape with pixels in "
     "[0, 1]. Each output row depends on the whole of its own sample and on "
     "no other sample of the batch.",
     ["inputs", "configurations"], "all images, weights and batch sizes at "
     "the supported image sizes",
     "Tests only look at the output shapes of a single batch.",
     [NN + "encoders.py"], [("forward methods", "encoders.py")])

prop("C07", "Generated data rows are the transitions they are labelled with",
     "In generated data sets, the row labelled as current and the row "
     "labelled as next are the states and images of the same simulation run "
     "exactly one sampling interval apart, with initial states drawn inside "
     "the requested bounds and written to the simulator joint by joint, for "
     "every image channel configuration. Adding noise, splitting into "
     "roll-outs and batching keep the rows of inputs and labels paired.",
     ["inputs", "histories", "configurations"],
     "all random draws, bounds, numbers of samples and steps",
     "Tests check shapes of one small data set with a live simulator.",
     [NN + "pybullet_data_generation.py", NN + "worlds.py"],
     [("generate_sample, generate_rollout, generate_dataset, rollouts",
       "pybullet_data_generation.py")])

prop("C08", "Mixed-integer encodings of piecewise-linear units are exact",
     "For every choice of finite bounds, the mixed-integer linear "
     "constraints built for a piecewise-linear unit admit exactly the points "
     "of its graph inside the bounds: the product of a binary and a "
     "continuous variable, the ReLU and leaky ReLU, the (leaky) ReLU "
     "gradient times a variable, the absolute value (with and without the "
     "binary for zero), the maximum of several variables, saturation between "
     "limits, and the boundary of a box. A binary value stands for the "
     "documented branch, no feasible point is cut off, none is added, "
     "whatever the signs of the bounds; the interval returned for a leaky "
     "ReLU's output is its exact range.",
     ["inputs", "configurations"],
     "all bounds (every sign case), slopes, points and 0/1 assignments",
     "Tests solve a few programs at sampled bounds; a row that is too tight "
     "or too loose only shows for particular bounds and points.",
     [NN + "utils.py"],
     [("replace_*/max_as/absolute_value_as/add_saturation_as/box_boundary/"
       "leaky_relu_* functions", "utils.py")],
     technique="abstract interpretation of the encoders, then polyhedral "
     "inclusion both ways per binary assignment (Farkas certificates over "
     "an interval-sign domain)")

prop("C11", "The tensor mirror of a program is the program the solver gets",
     "For every sequence of variable and constraint additions (bounds, "
     "types, senses, coefficients, repeated variables, constraints with "
     "infinite or merged bounds), the matrices and right-hand sides that "
     "gurobi_torch_mip keeps describe the same feasible set, constraint by "
     "constraint and bound by bound, as the model handed to Gurobi; binary "
     "relaxation is the same on both sides. The MILP/MIQP objective "
     "evaluated from these tensors at a fixed binary assignment and active "
     "set equals the objective of the program at the optimal solution and "
     "is differentiable in all data of the program; the active sets and the "
     "pool solution used are those of the requested solution. "
     "linear_program_cost solves exactly the linear program given and "
     "returns its cost at the vertex of all constraints active there, as a "
     "function of the data.",
     ["inputs", "histories", "configurations"],
     "all coefficients, bounds and right-hand sides; call sequences by kind",
     "Tests compare the two sides for a handful of hand-written programs.",
     [NN + "gurobi_torch_mip.py", NN + "utils.py"],
     [("GurobiTorchMIP/MILP/MIQP methods", "gurobi_torch_mip.py"),
      ("linear_program_cost", "utils.py")],
     technique="abstract interpretation against a symbolic solver model; "
     "row-by-row comparison and KKT identities over polynomials")

prop("C12", "Combining and adding constraint blocks preserves their meaning",
     "Concatenating mixed-integer constraint blocks, transforming the input "
     "of a block, cloning it, and adding a block to a program (with given "
     "or new variables, with given, default or relaxed binary types) yield "
     "rows, bounds and output maps with exactly the meaning of the parts: "
     "every row, bound and output of each operand appears in the result, on "
     "the right variables, with the right sense, for every combination of "
     "absent and present fields; the operands are not consumed by "
     "transforming the clone. Row and variable counts reported for a block "
     "are those of its matrices.",
     ["inputs", "configurations"],
     "all matrix entries, every present/absent pattern of fields, all "
     "stacking modes",
     "Tests use a few blocks with most fields present.",
     [NN + "gurobi_torch_mip.py"],
     [("MixedIntegerConstraintsReturn, concatenate_mixed_integer_"
       "constraints, add_mixed_integer_linear_constraints",
       "gurobi_torch_mip.py")],
     technique="abstract interpretation over symbolic blocks, row-by-row "
     "polynomial comparison")

prop("C13", "Lyapunov programs and sample losses state the Lyapunov conditions",
     "For discrete-time systems with the Lyapunov candidate V(x) = ReLU(x) - "
     "ReLU(x*) + lambda*|R(x-x*)|_1: the value function, the positivity and "
     "derivative losses on samples, and the mixed-integer programs built for "
     "positivity, for the derivative (every convergence type, with and "
     "without bounds on V, with and without R, binary or relaxed), for the "
     "boundary of the state box and for the region of attraction all state "
     "exactly the documented condition. In each program the objective at a "
     "feasible point is the documented violation, every block of the network "
     "encodings is present once on the right variables, the state, next "
     "state and network inputs are tied together, the ranges given to the "
     "absolute values are those of R(x-x*) over the box, and no row excludes "
     "a state of the box.",
     ["inputs", "configurations"],
     "all states, weights, R, lambda, epsilon and bounds; every option "
     "combination",
     "Tests solve the programs for a few small networks and compare the "
     "optimum with the value at a handful of samples.",
     [NN + "lyapunov.py"],
     [("lyapunov_value, lyapunov_positivity_as_milp, lyapunov_derivative_as_"
       "milp, *_loss_at_samples*, region of attraction", "lyapunov.py")],
     technique="abstract interpretation with opaque network blocks, taking "
     "the assembled program apart row by row")

prop("C09", "Network encodings and neuron bounds are sound and exact",
     "For a piecewise-linear network (ReLU or leaky ReLU, any weights, with "
     "or without biases): the pre- and post-activation bounds computed for a "
     "box of inputs (interval arithmetic, linear programming, mixed-integer "
     "programming, and the combination) contain every value the network "
     "takes on the box, interval arithmetic is the exact image layer by "
     "layer, and the optimisation-based bounds are those of the program that "
     "describes the preceding layers. The mixed-integer rows of "
     "ReLUFreePattern.output_constraint, for every neuron that is always on, "
     "always off or undetermined, admit exactly the points (x, network(x), "
     "neuron values, activation pattern) with x in the box; the reported "
     "output bounds contain all outputs.",
     ["inputs", "configurations"],
     "all weights, biases and boxes, cases of neuron sign enumerated on "
     "networks of fixed small shapes",
     "Tests compare bounds and encodings of a few networks at samples.",
     [NN + "relu_to_optimization.py", NN + "relu_to_optimization_utils.py",
      NN + "mip_utils.py"],
     [("ReLUFreePattern bounds and output_constraint",
       "relu_to_optimization.py"),
      ("propagate_bounds", "mip_utils.py")],
     technique="abstract interpretation with parametrised neuron cases; "
     "polyhedral projection and comparison of the assembled rows")

prop("C15", "System constraints describe exactly the simulated dynamics",
     "For every neural-network system class (autonomous, given equilibrium, "
     "residual, with control, second order, second-order residue; discrete "
     "and continuous): step_forward / possible_dx compute the documented "
     "dynamics for single states and batches, the equilibrium is a fixed "
     "point (zero of the vector field), and add_dynamics_constraint (also "
     "through _add_system_constraint) adds rows that hold exactly for x_next "
     "= step_forward(x, u) over the state box and the intersection of all "
     "control limits, for every binary type; bounds and bound programs "
     "reported for the next state follow from those of the network; the "
     "reported variables are those of the network; networks, boxes and "
     "equilibria are left unchanged.",
     ["inputs", "configurations", "histories"],
     "all states, controls, weights, boxes, equilibria; all binary types and "
     "bound methods; all patterns of additional control limits",
     "Tests solve the constraints at a few sampled states of one network.",
     [NN + "relu_system.py", NN + "dynamic_system.py"],
     [("AutonomousReLUSystem*, ReLUSystem*, ReLUSecondOrder*",
       "relu_system.py"), ("_add_system_constraint", "dynamic_system.py")],
     technique="abstract interpretation with opaque network blocks; the "
     "assembled rows are solved for the next state and compared as rational "
     "normal forms")

prop("C16", "The closed loop of a feedback system is encoded as it is "
     "simulated",
     "For FeedbackSystem with a network or linear controller: compute_u is "
     "saturate(phi(x) - phi(x*) + u*) for single states and batches, "
     "step_forward / possible_dx are the forward system under this control, "
     "and add_dynamics_mip_constraint adds exactly this law: the controller "
     "network over the state box, the unsaturated control, one saturation "
     "block per limited channel over the true range of the unsaturated "
     "control, and the forward dynamics over the range of the saturated "
     "control. Reported control bounds contain every control and are exact "
     "for the given network range; the program for control bounds encodes "
     "the same controller; strengthening adds only cuts of the two networks, "
     "on their own variables, chosen at those variables' values.",
     ["inputs", "configurations"],
     "all weights, equilibria and boxes; limits below, above, across and "
     "inside the control range per channel; all bound methods and binary "
     "types",
     "Tests sample states of one closed loop with wide limits.",
     [NN + "feedback_system.py"],
     [("FeedbackSystem, _add_input_saturation_constraint",
       "feedback_system.py")],
     technique="abstract interpretation with opaque controller and forward "
     "blocks; the assembled rows are solved for control and next state")

prop("C14", "Barrier programs and losses state the barrier conditions",
     "For the discrete-time barrier h(x) = phi(x) - phi(x*) + c: value (single "
     "and batch) and derivative compute h and -h(x+) + (1-eps) h(x); "
     "value_as_milp maximises h over an unsafe region and -h over a safe "
     "region, derivative_as_milp maximises -h(x+) + (1-eps) h(x); in both, "
     "the objective at a feasible point is exactly that quantity, network, "
     "region and dynamics are present once on the right variables, over the "
     "state box, and no other row restricts the state; sample losses are the "
     "requested reduction of the hinge of the same condition with margin.",
     ["inputs", "configurations"],
     "all states, weights, x*, c, epsilon and margins; every binary type, "
     "bound method and reduction",
     "Tests compare a few optima and samples of one small network.",
     [NN + "barrier.py"],
     [("Barrier, DiscreteTimeBarrier", "barrier.py")],
     technique="abstract interpretation with opaque network blocks, taking "
     "the assembled programs apart")

prop("C27", "Activation patterns and network gradients are those of the network",
     "For a (leaky) ReLU network with or without biases: the activation "
     "pattern at a point marks a unit active iff its input is positive; the "
     "list of all patterns at a point contains exactly the patterns "
     "consistent with it (a unit at zero taken both ways); the unit outputs, "
     "the affine piece (slope, offset, region) given by a pattern, the "
     "gradient for a pattern and at a point (relu_network_gradient: one for "
     "either side of every unit within the tolerance of its kink), and the "
     "mixed-integer encodings "
     "of gradient-times-vector (fixed and decision-variable vectors, scalar "
     "and vector outputs, ranges by either method) equal those of the "
     "composition of the layers; setting an activation warm start gives each "
     "binary its unit's activation.",
     ["inputs", "weights", "activation patterns"],
     "all weights, biases, slopes, points and vectors of small generic "
     "architectures and every activation pattern",
     "Tests check a few random networks and points.",
     [NN + "relu_to_optimization.py", NN + "relu_to_optimization_utils.py"],
     [("ReLUFreePattern, ReLUGivenActivationPattern, "
       "ComputeReLUActivationPattern, compute_all_relu_activation_patterns",
       "relu_to_optimization.py")],
     technique="abstract interpretation with sign-definite and fully symbolic "
     "networks; normal forms and polyhedra compared with the composition")

prop("C26", "Continuous-time Lyapunov programs and losses state the conditions",
     "For V(x) = phi(x) - phi(x*) + lambda |R(x-x*)|_1 and continuous-time "
     "dynamics: lyapunov_derivative returns all values of dV/dx xdot + eps V "
     "over the one-sided gradients (and, for hybrid systems, the possible "
     "derivatives); the derivative programs maximise exactly that quantity "
     "over the state box - dynamics, network and norm encoded once at the "
     "state, gradient products using the activation binaries of the encoded "
     "network over the range of the derivative (by interval, LP or MIP "
     "bounds), optional lower/upper limits on V, no other restriction; "
     "unsupported convergence types are refused; the sample losses are the "
     "requested reduction of the hinge of the same condition with margin. "
     "Relaxed binaries may be shared between encodings.",
     ["inputs", "configurations"],
     "all states, weights, R, lambda, epsilon, margins; every bound method, "
     "binary type and reduction; two-mode hybrid systems",
     "Tests compare optima and samples of a few systems.",
     [NN + "continuous_time_lyapunov.py", NN + "lyapunov.py"],
     [("LyapunovContinuousTimeSystem, LyapunovContinuousTimeHybridSystem",
       "continuous_time_lyapunov.py")],
     technique="abstract interpretation with opaque networks, taking the "
     "assembled programs apart; symbolic gradients at a kink point")

prop("C24", "Hybrid linear systems: modes, bounds, constraints and rollouts agree",
     "For a piecewise affine system with any mode data: bounds from a polytope "
     "are the optima of each coordinate over {P x <= q} (no bound is reported "
     "for a program that was not solved; unbounded directions give infinity); "
     "a polytope is called bounded iff {P x <= 0, x_i = +-1} is empty for "
     "every i and sign; the per-mode and overall ranges of state, control, "
     "A x and derivative are those optima and their min / max over modes; "
     "mode data of wrong shapes is refused; the mixed-integer constraints, at "
     "each 0/1 choice of modes, say exactly that one mode is active, state "
     "and control lie in its polytope and in the given (or system) range and "
     "the next state is its affine map; mode() is the first mode containing "
     "the point, step_forward (single and batch) its affine map, possible_dx "
     "the maps of all modes containing it, points outside all modes being "
     "reported as such; discrete cost-to-go is the sum of one-step costs "
     "along the trajectory up to the goal or horizon, per-step costs are the "
     "tails, inputs are not modified; the continuous one integrates (A x + "
     "g, cost); sample generation keeps all states of the trajectories that "
     "stay in the domain, minus pruned ones, and skips the others; "
     "partition_state_input_space returns every grid cell once with its "
     "centre and boundaries moved by delta cell widths within the space.",
     ["inputs", "configurations"],
     "all matrices, polytopes, states and bounds for systems of one to three "
     "modes; all 0/1 assignments of two modes; all solver statuses",
     "Tests check a handful of fixed systems and points.",
     [NN + "hybrid_linear_system.py", NN + "utils.py"],
     [("HybridLinearSystem, AutonomousHybridLinearSystem, "
       "compute_discrete_time_system_cost_to_go, "
       "compute_continuous_time_system_cost_to_go, "
       "generate_cost_to_go_samples, partition_state_input_space",
       "hybrid_linear_system.py"),
      ("compute_bounds_from_polytope, is_polyhedron_bounded", "utils.py")],
     technique="abstract interpretation on symbolic mode data; recorded "
     "solver programs; polyhedra at every 0/1 assignment of the modes")

prop("C29", "Control-affine systems are encoded as they are simulated",
     "For every control-affine system class: dynamics(x, u) equals f(x) + "
     "G(x) clamp(u, u_lo, u_up) and does not modify its arguments; the "
     "constraints returned by mixed_integer_constraints have f(x) and the "
     "row-major entries of G(x) as outputs - A x and B for linear systems, "
     "(v, a(x)) and (0, b(x)) for second-order systems, whichever parts of "
     "the encodings of a and b are absent - with exactly the rows and "
     "variable bounds of those encodings, networks being encoded over the "
     "state box with the method of the system; the ranges returned are those "
     "of the terms over the state box; data of wrong shape, empty boxes and "
     "networks of wrong size are refused. The forward-model trainer fits "
     "f(x) + G(x) u - f(x*) - G(x*) u* with the parameters of both networks.",
     ["inputs", "configurations"],
     "all states, controls, limits, matrices and networks for up to 2 second-"
     "order coordinates and 3 controls; every bound method and every "
     "combination of absent parts",
     "Tests check two or three fixed systems and sampled states.",
     [NN + "control_affine_system.py"],
     [("ControlPiecewiseAffineSystem, LinearSystem, "
       "SecondOrderControlAffineSystem, ReluSecondOrderControlAffineSystem, "
       "train_control_affine_forward_model", "control_affine_system.py")],
     technique="abstract interpretation with opaque networks; normal forms "
     "of outputs, rows and bounds")

prop("C21", "The piecewise linear Lyapunov program states the conditions",
     "For a piecewise affine system and V = c_i'x + d_i per mode, the program "
     "solved by SimplePWLLyapunov minimises (1-weight) s1 + weight s2 over c, "
     "d, s1, s2 subject to exactly: s1 >= 0, s2 >= 0, V(x*) = 0 in the "
     "equilibrium's mode, s1 >= dV/dx (A_i v + g_i) + eps2 V(v) at each "
     "vertex added for a mode, s2 >= eps1 |v - x*|_1 - V(v) at each vertex "
     "added for positivity, and equality of V at each vertex shared by two "
     "modes; rows added by earlier calls stay. solve() returns the optimal "
     "values of c, d, s1, s2, and no values if the program was not solved. "
     "Vertices on the other side of x* than stated, signs other than +-1, "
     "data of wrong shape and weights outside (0, 1) are refused.",
     ["inputs", "histories"],
     "all matrices, vertices, equilibria and epsilons for up to 3 states, "
     "modes and vertices; every sign pattern; all solver statuses",
     "Tests check one or two fixed systems and need a licensed solver.",
     [NN + "simple_pwl_lyapunov.py"],
     [("SimplePWLLyapunov", "simple_pwl_lyapunov.py")],
     technique="abstract interpretation on symbolic data; the recorded "
     "linear program compared row by row with the documented one")

prop("C28", "Strengthening cuts keep every true point of the network",
     "For a unit y = max(wx + b, c(wx + b)) over a box, the cut of an index "
     "set is the facet y <= ax + alpha beta + k of the ideal formulation: "
     "implied by the unit's two branches at beta = 0 and 1, for every sign "
     "of the weights. The index set chosen at a point gives the smallest "
     "right hand side there. strengthen_relu_mip adds the cuts of all proper "
     "nonempty index sets of every switching unit, or, when asked to select, "
     "exactly those whose bound lowers the maximum of y over the relaxation; "
     "strengthen_relu_mip_given_pts, strengthen_mip_at_point and "
     "strengthen_relu_mip_at_solution add exactly the violated best cuts, on "
     "the variables of the unit itself and its inputs; nothing else changes. "
     "The ranges of beta, the vertices of the linear piece and the largest y "
     "are those of the relaxed unit. strengthen_lyapunov_derivative_as_milp "
     "returns the derivative program plus such cuts with its binaries binary "
     "again, using a relaxed solution only when OPTIMAL. "
     "strengthen_lyapunov_derivative_milp_binary ties two binaries iff "
     "opposite values were proved infeasible, and leaves no other row, "
     "parameter or objective change. compute_range_by_lp returns the row "
     "optima for each solver status.",
     ["inputs", "histories"],
     "all weights, biases, boxes and slopes in every sign pattern for up to "
     "3 inputs; every solver status and relaxed solution at the boundary "
     "cases",
     "A cut that removes a true point makes a failed certificate look "
     "verified; tests check two or three fixed units.",
     [NN + "mip_utils.py", NN + "relu_to_optimization.py",
      NN + "lyapunov.py"],
     [("strengthen_relu_mip, find_index_set_to_strengthen, "
       "compute_range_by_lp", "mip_utils.py"),
      ("ReLUFreePattern.strengthen_mip_at_point", "relu_to_optimization.py"),
      ("strengthen_lyapunov_derivative_as_milp", "lyapunov.py")],
     technique="abstract interpretation on symbolic units with a modelled "
     "solver; normal forms of rows compared with the closed-form ideal "
     "facets")

prop("C22", "Training certifies, learns and restores what it claims",
     "Trainer.train and train_adversarial return True only if, for the "
     "parameters they leave in place, proven upper bounds of both the "
     "positivity and the derivative violation are within their tolerances: a "
     "program without a solution never yields a value, and one the solver "
     "stopped before optimality yields its bound. The programs solved are "
     "those of the trainer's settings (epsilons, R, warm start, "
     "strengthening, pool size, solver parameters, early termination only "
     "above the threshold). Adversarial states are the pool solutions (those "
     "with a positive violation, if asked for), with their next states, also "
     "in hybrid systems, and are appended to the training set, of which the "
     "most recent samples are used. The total loss is the weighted sum of "
     "the sample losses at those samples and the programs' objectives as "
     "functions of the parameters; the barrier losses and the boundary gap "
     "likewise. Each step uses the gradient of one loss, from zero, on V, R "
     "and, if asked for, the controller; next states are those of the "
     "current controller. train_lyapunov_on_samples and the descent on "
     "samples restore all parameters of the best evaluation, in place. "
     "Clusters of adversarial states keep their first state and size. The "
     "value approximator minimises the mean squared error of V, and reports "
     "success only within its tolerance.",
     ["inputs", "histories", "configurations"],
     "all sample values, weights and parameters; every solver status; pools "
     "of up to 3 solutions; all sequences of verdicts of up to 3 iterations; "
     "autonomous, hybrid and feedback systems",
     "A certificate taken from an incumbent, a stale gradient or a restored "
     "half of the parameters shows only in long runs with a licensed solver.",
     [NN + "train_lyapunov_barrier.py", NN + "utils.py"],
     [("Trainer, TrainValueApproximator, _cluster_adversarial_states",
       "train_lyapunov_barrier.py"),
      ("get_gurobi_terminate_if_callback", "utils.py")],
     technique="abstract interpretation of the training loops on stand-in "
     "programs and enumerated solver answers; typestate of gradients and "
     "steps; normal forms of losses")

prop("C19", "R parametrizations yield the documented full-rank matrix",
     "For every size, value and scalar, the options that search R of the "
     "Lyapunov candidate give the documented matrix: the SPD "
     "parametrization R = [L L' + eps I; bottom] with L the lower triangular "
     "matrix packed column by column in the variables, hence symmetric "
     "positive definite on top; the SVD one R = U S V with S_ii = a_i + "
     "v_i^2 (tall, wide and square; U, V identities until a value is set); "
     "the free one the searched matrix itself; the fixed one the given "
     "matrix. Setting a value and reading R() back gives that value, the top "
     "block made symmetric for SPD. variables() lists exactly the tensors "
     "R() is computed from, requiring gradients, also after a value was set; "
     "fixed_R and extract_params report the truth. Values of another size, "
     "limits that are not positive and values whose singular values lie "
     "below the limits are refused, the value given is not modified.",
     ["inputs", "configurations"],
     "all values of the variables, matrices and scalars; sizes up to 5 x 3 "
     "and 1 x 3",
     "A mistake in packing L or in the order U S V keeps R full rank, so "
     "training goes on with another matrix than the one set or saved.",
     [NN + "r_options.py"],
     [("SearchRwithSPDOptions, SearchRwithSVDOptions, SearchRfreeOptions, "
       "FixedROptions", "r_options.py")],
     technique="abstract interpretation to normal forms over symbolic "
     "variables; factorizations as uninterpreted factors of their argument")

prop("C25", "Dynamics learning uses the documented losses, rollouts and "
     "samples",
     "For all samples, weights, networks and schedules: lyapunov_loss solves "
     "the positivity program and the derivative programs with the lower and "
     "the upper rate of the options (epsilons, lambda, R, warm start at the "
     "last worst state when asked for) and returns weight times the "
     "objective of each, to optimality or stopped early above its own "
     "threshold, zero for a program whose active constraints cannot be "
     "found; adversarial_samples returns per condition the solutions with "
     "positive violation; lyapunov_loss_at_samples is weight times the "
     "sample losses at exactly the samples (or their encodings) within the "
     "box, with next states under the learned dynamics, zero if there are "
     "none. The dynamics loss is the mean squared error of the predicted "
     "next states, or in image space the reconstruction of the current and "
     "of the next images (a single next image preceded by the last current "
     "one) by mean squared error or cross entropy, plus the scheduled KL "
     "divergence of variational encodings, plus the weighted loss of the "
     "decoded equilibrium. Roll-outs apply the learned dynamics repeatedly "
     "(through decoder and encoder if asked for) with the Lyapunov value of "
     "each state; their loss is per step, validation its mean over the "
     "roll-outs. Training takes, per batch, one step on the sum of dynamics "
     "and sample losses and every lyap_loss_freq batches one on the program "
     "losses, each from a zero gradient, on all networks or the Lyapunov "
     "network only; validation trains nothing and averages over samples. "
     "A learner that was saved and loaded has the same parts.",
     ["inputs", "histories", "configurations"],
     "all samples, images, weights and network functions; batches of up to 3 "
     "samples, roll-outs of up to 3 steps, up to 2 epochs of 3 batches",
     "A wrong weight, epsilon, box test or image half still trains to a low "
     "loss; the difference shows as a certificate of other conditions.",
     [NN + "dynamics_learning.py", NN + "utils.py"],
     [("DynamicsLearning, StateSpaceDynamicsLearning, "
       "LatentSpaceDynamicsLearning", "dynamics_learning.py"),
      ("SigmoidAnneal", "utils.py")],
     technique="abstract interpretation on opaque networks and stand-in "
     "programs; normal forms of losses and roll-outs; event order of "
     "gradients and steps")

prop("C10", "Solver answers are used only under a status that supports them",
     "Every number the library takes from a solver (bounds of network units "
     "and outputs by LP / MIP, of gradient-times-vector encodings, of "
     "R*xdot, of coordinates over a polytope, of rows over {C x <= d}, the "
     "largest y under strengthening cuts, the optimal cost of a linear "
     "program, region of attraction levels, active constraints and "
     "objectives of a solved program) is the optimal value only if that "
     "solve ended OPTIMAL. An unbounded or infeasible program gives the "
     "documented infinite bound (+inf / -inf for a maximum, the opposite for "
     "a minimum; an infeasible half of the region of attraction program "
     "imposes no bound; no cost for an unsolved linear program), with dual "
     "reductions off where the two are told apart by neuron bounds, "
     "polytope bounds and the region of attraction; every other status "
     "(time limit, numerical trouble, infeasible-or-unbounded, "
     "interruption, ...) raises instead of giving a number, except that the "
     "objective and its gradient may be taken at the incumbent of an "
     "interrupted or timed-out program.",
     ["inputs", "solver answers"],
     "all statuses of the solver at each solve of each function, optimal "
     "values symbolic",
     "Tests see optimal solves; a time-out or numerical failure turns into "
     "a wrong bound and a false certificate only on hard instances.",
     [NN + "relu_to_optimization.py", NN + "mip_utils.py", NN + "utils.py",
      NN + "lyapunov.py", NN + "continuous_time_lyapunov.py",
      NN + "gurobi_torch_mip.py"],
     [("_compute_linear_output_bound_by_optimization, "
       "_compute_Wz_bounds_optimization", "relu_to_optimization.py"),
      ("compute_range_by_lp, _max_y_given_linear_input", "mip_utils.py"),
      ("compute_bounds_from_polytope, linear_program_cost", "utils.py"),
      ("compute_region_of_attraction", "lyapunov.py"),
      ("_add_dl1dx_times_xdot", "continuous_time_lyapunov.py"),
      ("get_active_constraint_indices_and_binary_val, "
       "compute_objective_from_mip_data_and_solution",
       "gurobi_torch_mip.py")],
     technique="abstract interpretation of every solver call site with all "
     "solver statuses enumerated; optimal values as symbols tracked to the "
     "result")

prop("C30", "Network, gradient-set, sampling and small training helpers",
     "setup_relu builds alternating linear layers and (leaky) ReLUs whose "
     "weights (row by row) then bias, layer by layer, are the parameter "
     "vector, sharing no memory with it; update_relu_params sets, and "
     "extract_relu_parameters copies out, the same vector, so each inverts "
     "the other; extract_relu_parameters_grad gives the gradients in that "
     "order with zeros where there is none; extract_relu_structure gives "
     "the widths, slope and bias flag and refuses mixed networks; the saved "
     "models hold every argument under its name and rebuild the same "
     "network. l1_gradient lists each one-sided or sampled gradient of the "
     "1-norm once, l_infinity_gradient the signed unit vectors of the "
     "entries attaining the norm within the tolerance, minkowski_sum all "
     "pairs; loss_reduction is mean, max or 4-norm and refuses others. Box "
     "samples cover [lo, hi] with a draw of their own per coordinate, "
     "boundary samples lie on one face with every face reachable, for all "
     "draws in [0, 1); a mesh lists every grid point once. "
     "compute_numerical_gradient is exact for quadratic functions, one "
     "matrix per argument, without changing its arguments; "
     "project_to_polyhedron returns the point itself when inside and else "
     "solves min |y - x|^2, A y <= b. train_model and train_approximator "
     "put all parameters into one optimizer, and zero, back-propagate the "
     "squared error of each batch at the current parameters and step, in "
     "that order. project_gradient sets the documented direction per mode, "
     "from the gradients of the two losses only. TrainingLog writes each "
     "loss once, under its name and step, and copies are independent, "
     "keeping the prefix and mode not given. torch_to_numpy converts every "
     "tensor of a list, squeezed when asked for, and passes other entries "
     "on; find_nearest gives the entry closest to the value.",
     ["inputs", "random draws", "history"],
     "all weights, gradients, data, bounds, tolerances and draws, for "
     "several layer widths and sizes",
     "Tests compare a few random networks and draws; ties, zero draws, "
     "missing gradients and aliasing do not occur in them.",
     [NN + "utils.py", NN + "train_utils.py", NN + "training_log.py"],
     [("setup_relu, update_relu_params, extract_relu_*, save_*",
       "utils.py"),
      ("l1_gradient, l_infinity_gradient, minkowski_sum, "
       "uniform_sample_*, compute_numerical_gradient, "
       "project_to_polyhedron, train_model, train_approximator", "utils.py"),
      ("project_gradient", "train_utils.py"),
      ("TrainingLog", "training_log.py")],
     technique="abstract interpretation with symbolic weights, gradients, "
     "data and draws; normal-form equality; alias tracking of parameter "
     "memory; event order of training steps")

prop("C17", "Losses and programs stay connected to what is trained",
     "Whatever training differentiates is not cut out of the autograd "
     "graph: with respect to the weights of the networks (Lyapunov "
     "function, barrier, controller, dynamics), the matrix R and the other "
     "tensors handed in, the values of V and of the barrier and their "
     "derivatives, the sample losses (discrete time, continuous time, "
     "hybrid, barrier, dynamics learning) and the total losses, the output "
     "of R options, controllers and system models, the coefficients, "
     "right hand sides and bounds of the mixed-integer encodings of "
     "networks, dynamics, closed loops, and of the Lyapunov and barrier "
     "programs kept on the torch side, the propagated bounds of interval "
     "arithmetic, and the objective recomputed from a solved program and "
     "its active constraints depend on them differentiably: no part of such "
     "a value has passed through detach, .data, item, tolist, numpy, "
     "torch.tensor of a tensor or a no_grad block. Input boxes, sample "
     "points, solver results and the conditions of branches are constants.",
     ["inputs", "network weights", "solver answers"],
     "all weights, boxes, samples and solver results, symbolic; every "
     "operation of the evaluations of C09, C11-C16, C19, C22, C25, C26 and "
     "C29",
     "Values stay right when a gradient is lost, so a test of values "
     "passes; gradient tests exist for a few functions and one random "
     "network each.",
     [NN + "lyapunov.py", NN + "continuous_time_lyapunov.py",
      NN + "barrier.py", NN + "control_affine_system.py",
      NN + "relu_to_optimization.py", NN + "relu_system.py",
      NN + "feedback_system.py", NN + "gurobi_torch_mip.py",
      NN + "mip_utils.py", NN + "r_options.py",
      NN + "train_lyapunov_barrier.py", NN + "dynamics_learning.py"],
     [("lyapunov_*_as_milp, *_loss_at_samples", "lyapunov.py"),
      ("total_loss, lyapunov_sample_loss", "train_lyapunov_barrier.py"),
      ("compute_objective_from_mip_data_and_solution",
       "gurobi_torch_mip.py"),
      ("ReLUFreePattern.output_constraint", "relu_to_optimization.py")],
     technique="dataflow (taint) analysis of the autograd graph by abstract "
     "interpretation: operations that leave the graph rename the symbols of "
     "their result, the values to be differentiated may not contain renamed "
     "symbols")

prop("C20", "The spring-loaded pendulum's return map and its linearisation",
     "For every apex state, leg angle, stone and pendulum parameter, the "
     "spring-loaded inverted pendulum's apex_map is the composition of the "
     "ballistic fall to touchdown, the touchdown transition, the stance "
     "dynamics integrated until the leg regains its rest length (or the mass "
     "falls to the ground), the lift-off transition and the ballistic ascent, "
     "with the total time; there is no answer (all None) exactly when the "
     "foot starts below the ground, the leg points against the motion, the "
     "mass falls during stance or leaves it downward. apex_to_apex_gradient "
     "returns the derivatives of that composition (states and times, with "
     "respect to the apex state and the leg angle), using the variational "
     "equation of the stance dynamics corrected for the event time. "
     "apex_map_linear_approximation is the first-order expansion of the map, "
     "of its duration and of each of its constraints (foot above the stone, "
     "upward lift-off, foot within the stone's finite ends) at the given "
     "point. time_to_touchdown and can_touch_stepping_stone decide whether "
     "and when the foot lands on the stone; simulate alternates flight and "
     "stance phases continuously in time and stops at a fall.",
     ["inputs", "configurations"],
     "all apex states, leg angles, stones and parameters; every outcome of "
     "the integration (lift-off, fall, horizon reached)",
     "Tests compare with finite differences or with a simulation at a few "
     "states, and only at states from which the step succeeds.",
     [NN + "spring_loaded_inverted_pendulum.py",
      NN + "slip_hybrid_linear_system.py"],
     [("apex_map, apex_to_apex_gradient, touchdown_to_liftoff_gradient, "
       "time_to_touchdown, simulate", "SLIP"),
      ("apex_map_linear_approximation", "SlipHybridLinearSystem")])

prop("C18", "Asking changes nothing",
     "Evaluating a plant, a closed loop, a network, a Lyapunov function, a "
     "barrier, a controller, a loss, an R option, a bound or a roll-out, and "
     "building mixed-integer constraints and programs from them, leaves "
     "everything that existed before the call as it was: the states, "
     "samples, boxes, equilibria, matrices and option lists handed in, the "
     "network parameters, mode matrices, bounds and other data of the object "
     "asked and of the objects it refers to, default arguments, class "
     "attributes and module variables. Repeating a question therefore gives "
     "the same answer, in whatever order questions are asked. Only what a "
     "function is documented to change changes: the program that a "
     "constraint is added to, the modes of a system under construction, the "
     "values passed to setters, a constraint block's own data in "
     "transform_input, the trainable parameters (but not the data) in the "
     "training functions, and a trainer's own logs and warm starts. The "
     "activations of the networks made by setup_relu leave their input as it "
     "is.",
     ["inputs", "histories"],
     "all arguments of the calls made by the other checks, symbolic; every "
     "history made of such calls, since each leaves the state unchanged",
     "A test looks at the result of a call; the overwritten argument or "
     "bound shows in a later call.",
     [NN + "lyapunov.py", NN + "continuous_time_lyapunov.py",
      NN + "barrier.py", NN + "hybrid_linear_system.py",
      NN + "control_affine_system.py", NN + "relu_to_optimization.py",
      NN + "relu_system.py", NN + "feedback_system.py",
      NN + "gurobi_torch_mip.py", NN + "mip_utils.py", NN + "utils.py",
      NN + "train_lyapunov_barrier.py", NN + "dynamics_learning.py"],
     [("every public evaluation and *_as_milp", "lyapunov.py, barrier.py"),
      ("mixed_integer_constraints", "systems"),
      ("propagate_bounds, setup_relu", "mip_utils.py, utils.py")],
     technique="write-effect analysis by abstract interpretation: the heap "
     "reachable from arguments, receiver, defaults, classes and module "
     "variables is compared before and after every call from outside")

prop("C23", "A double-precision problem stays in double precision",
     "With double-precision inputs (systems, networks, bounds, samples, "
     "equilibria, options of dtype float64, which is the precision the "
     "library works in), no tensor that holds problem data or a quantity "
     "computed from it (states, bounds, matrices, coefficients, right-hand "
     "sides, samples, losses, mode boundaries) is created in, stored into "
     "or converted to single precision anywhere in the library, whether the "
     "data arrive as tensors, numpy arrays or Python numbers; a "
     "single-precision tensor only ever holds constants that single "
     "precision represents exactly (zeros, ones, signs, infinities) or "
     "random noise; and no matrix product or linear layer mixes single with "
     "double precision, which PyTorch refuses.",
     ["inputs"],
     "all values of the data of the calls made by the other checks "
     "(symbolic); every place in the library where they create, convert or "
     "store a floating-point array",
     "A test compares to a tolerance that hides a rounding of 1e-8, and "
     "only in the branch it takes; a bound rounded to single precision is "
     "no longer a bound, and a product of mixed precision raises in the "
     "branch nobody ran.",
     [NN + "utils.py", NN + "mip_utils.py", NN + "gurobi_torch_mip.py",
      NN + "relu_to_optimization.py", NN + "hybrid_linear_system.py",
      NN + "relu_system.py", NN + "control_affine_system.py",
      NN + "feedback_system.py", NN + "lyapunov.py", NN + "barrier.py",
      NN + "continuous_time_lyapunov.py", NN + "train_lyapunov_barrier.py",
      NN + "dynamics_learning.py", NN + "geometry_transform.py"],
     [("torch.zeros/ones/empty/tensor/full calls", "the whole library"),
      ("partition_state_input_space", "hybrid_linear_system.py"),
      ("addVars, addLConstr", "gurobi_torch_mip.py")],
     technique="precision (type-like) abstract interpretation: each array of "
     "the abstract heap carries its floating-point precision, propagated by "
     "the libraries' promotion rules")

prop("C31", "Defaults: an optional argument left out means its documented "
     "value",
     "Leaving an optional argument of a library function out, or an option "
     "of a trainer unset, means its documented default. Binary variables of "
     "every function that adds them are GRB.BINARY; variables added by "
     "addVars are continuous with bounds 0 and infinity; sample losses use "
     "margin 0 and the mean; gradient tolerances are 0, and activity "
     "tolerances, objective tolerance and penalties of the program "
     "derivatives 1e-6, 1e-3, and 0 (linear) or 1e-8 (quadratic); "
     "learning-time loss thresholds are 0; ReLU systems are discrete-time "
     "and bound their networks by interval arithmetic; data are float64; "
     "the line searches, network builders and training helpers use the "
     "learning rates, decrements, reductions, sizes and flags of their "
     "signatures; Trainer, AdversarialTrainingOptions and "
     "TrainValueApproximator start with the documented weights, margins, "
     "tolerances, pool sizes and switches; and all implementations of one "
     "operation (add_dynamics_constraint, add_mode, "
     "lyapunov_derivative_as_milp, the sample losses) agree on the defaults "
     "they share, so that a caller need not know which system it holds.",
     ["inputs", "configurations"],
     "every call that leaves an optional argument out; every public function "
     "with optional arguments (65 functions, 90 parameters) and 47 options",
     "Tests mostly pass the argument, and a changed default (a relaxed "
     "binary, a non-zero margin, a looser tolerance) turns a certificate "
     "into a non-certificate without any error.",
     [NN + "lyapunov.py", NN + "barrier.py",
      NN + "continuous_time_lyapunov.py", NN + "relu_system.py",
      NN + "hybrid_linear_system.py", NN + "feedback_system.py",
      NN + "dynamic_system.py", NN + "gurobi_torch_mip.py",
      NN + "line_search_adam.py", NN + "line_search_gd.py",
      NN + "utils.py", NN + "train_lyapunov_barrier.py",
      NN + "dynamics_learning.py", NN + "training_log.py",
      NN + "pybullet_data_generation.py"],
     [("default argument expressions", "the whole library"),
      ("Trainer.__init__", "train_lyapunov_barrier.py")],
     technique="signature analysis: the default expressions are evaluated in "
     "their modules by the abstract interpreter and compared with the "
     "documented values and across the implementations of one operation; "
     "constructors of option classes are evaluated the same way")

prop("C32", "Answers follow the current networks",
     "Every Lyapunov, barrier, controller and dynamics value, every program, "
     "bound, loss, sample, roll-out and gradient that an object of the "
     "library returns is computed from the parameters its networks have when "
     "it is asked, and from the arguments it is asked about: after a "
     "training step changed the parameters in place, or when it is asked "
     "about another point, it gives what an object newly built on the "
     "changed networks would give. Objects refer to the networks they were "
     "given instead of copying them, and no network output, parameter, "
     "constraint coefficient or quantity derived from earlier arguments is "
     "remembered from one call to the next in the object, its class, the "
     "module, default arguments or memoized functions.",
     ["histories", "inputs"],
     "all network parameters before and after a change, all arguments, every "
     "earlier call of the same object",
     "Training changes the networks in place between calls of one long-lived "
     "object; a test builds an object, asks once and stops, so a value "
     "remembered from before the change is always the right one there.",
     [NN + "lyapunov.py", NN + "continuous_time_lyapunov.py",
      NN + "barrier.py", NN + "relu_system.py",
      NN + "feedback_system.py", NN + "dynamic_system.py",
      NN + "relu_to_optimization.py", NN + "hybrid_linear_system.py",
      NN + "train_lyapunov_barrier.py", NN + "dynamics_learning.py"],
     [("network evaluation at the equilibrium",
       "lyapunov_value, step_forward, add_dynamics_constraint"),
      ("ReLUFreePattern.output_constraint", "relu_to_optimization.py")],
     technique="information flow over the abstract heap: network outputs, "
     "parameters and constraint coefficients which library memory retains "
     "between two calls are marked, and a mark must not reach the answer of "
     "the next call")
