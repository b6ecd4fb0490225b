"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe_at=None):
    anchors = {"files": ["movement_primitives/" + f for f in files],
               "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if observe_at:
        anchors["observe_at"] = [observe_at]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})


prop("C01", "Compiled and pure-Python implementations give the same motion",
     "Running the same primitive (DMP, Cartesian DMP, dual-arm DMP) with the compiled step function and with the "
     "corresponding pure-Python step function gives the same trajectory up to rounding, whatever gains, smooth scaling, "
     "feedback gain, tracking error and coupling terms are used. The same holds for the compiled and the Python variant of "
     "the phase variable, of 2D obstacle avoidance and of the quaternion and axis-angle helpers exported by the extension.",
     ["inputs", "configurations"],
     "all dimensions, durations, step sizes (also not dividing the duration), weights, per-dimension gains, starts, goals, "
     "coupling terms, Euler and RK4, stepwise execution with imperfect tracking and open loop",
     "The tests compare both variants at a handful of fixed states with uniform gains and no coupling, never along whole "
     "trajectories, never with tracking errors or per-dimension gains.",
     ["dmp/_dmp.py", "dmp/_cartesian_dmp.py", "dmp/_dual_cartesian_dmp.py", "dmp/_coupling_terms.py", "dmp_fast.pyx"],
     [("step functions", "dmp/_dmp.py, dmp/_cartesian_dmp.py, dmp/_dual_cartesian_dmp.py, dmp_fast.pyx"),
      ("obstacle avoidance", "dmp/_coupling_terms.py, dmp_fast.pyx")],
     "open_loop(step_function=...), step(step_function=...)")

prop("C02", "Executed trajectories solve the documented DMP equation",
     "With shrinking time steps, every trajectory generated by a DMP, Cartesian DMP or dual-arm DMP converges to the "
     "solution of tau^2*a = alpha*(beta*(g - y) - tau*v - s) + f + c from the configured start state, where f is the "
     "phase-gated normalized radial-basis forcing term of the weights, s = beta*(g - y0)*z only when smooth scaling is on, c is the "
     "coupling acceleration, and orientation differences are rotation vectors of the shortest rotation. Each dimension uses its own "
     "alpha, beta and weights. Coupling values given to a step in advance act like a coupling term that returns them.",
     ["inputs", "configurations"],
     "all weights, starts, start velocities, goals, durations, per-dimension gains, smooth scaling on or off, with and without obstacle coupling, every "
     "integrator, both arms",
     "Tests check end points and a few reproductions with uniform gains and tau=1; none compares against an "
     "independent solution of the equation, so scale factors, gain indices and term signs are open.",
     ["dmp/_dmp.py", "dmp/_cartesian_dmp.py", "dmp/_dual_cartesian_dmp.py", "dmp/_forcing_term.py", "dmp_fast.pyx"],
     [("transformation system", "dmp/_dmp.py, dmp/_cartesian_dmp.py, dmp/_dual_cartesian_dmp.py"),
      ("forcing term", "dmp/_forcing_term.py")],
     "open_loop")

prop("C03", "Every movement primitive converges to its goal",
     "Whatever weights, start state and intermediate perturbations or goal changes, a DMP, Cartesian DMP, dual-arm DMP, "
     "final-velocity DMP or (orientation) spring-damper that keeps running approaches the goal configured last, comes to rest there and stays finite. "
     "The remaining distance shrinks with the phase variable: it is no larger than the decayed forcing amplitude and initial offset allow.",
     ["inputs", "histories", "configurations"],
     "all weights, starts, start velocities, goals (also equal to the start or antipodal orientations), gains, durations, run times beyond the duration, goal "
     "switches and pushes during stepwise execution, many or few weights",
     "Tests check convergence for a few hand-picked trajectories with default gains; none switches the goal or pushes the "
     "state during execution, runs far beyond the duration or uses random weights.",
     ["dmp/_dmp.py", "dmp/_cartesian_dmp.py", "dmp/_dual_cartesian_dmp.py", "dmp/_dmp_with_final_velocity.py",
      "dmp/_forcing_term.py", "spring_damper.py", "dmp_fast.pyx"],
     [("goal attractor", "step functions of every primitive"), ("phase gating", "dmp/_forcing_term.py")],
     "step, open_loop, configure(goal_y=...)")

prop("C04", "Imitation reproduces the demonstration",
     "After imitating a smooth demonstration that starts and ends at rest, the primitive starts and ends at the demonstrated start and goal, "
     "and its open-loop trajectory follows the demonstration up to an error that vanishes with more weights and "
     "smaller steps. A trajectory generated by a primitive itself is recovered by a second primitive of the same structure, and imitation depends only on the "
     "demonstration (and regularization), not on what was imitated or executed before; stronger regularization never increases the weights' norm.",
     ["inputs", "configurations"],
     "demonstrations that are random combinations of smooth shapes in any number of dimensions (position, pose, dual pose, "
     "with final velocity), any time origin and duration, gains, smooth scaling, regularization",
     "Tests imitate a few cosine shapes starting at time zero with default gains.",
     ["dmp/_dmp.py", "dmp/_cartesian_dmp.py", "dmp/_dual_cartesian_dmp.py", "dmp/_dmp_with_final_velocity.py", "dmp/_forcing_term.py"],
     [("force estimation and ridge regression", "dmp/_dmp.py, dmp/_cartesian_dmp.py, dmp/_dmp_with_final_velocity.py")],
     "imitate, open_loop")

prop("C05", "Changing the duration re-times the motion without reshaping it",
     "Scaling the execution time (and step sizes) of a DMP, Cartesian, dual-arm or state-following DMP scales the time axis and leaves the visited states unchanged; "
     "setting a new execution time on an existing primitive is equivalent to constructing it with that execution time and keeps its weights. "
     "Demonstrations that differ only in time origin and duration lead to the same weights.",
     ["inputs", "histories", "configurations"],
     "all positive scale factors, time offsets, weights, gains, starts, goals and sequences of execution time changes, for "
     "every DMP type",
     "One test per class doubles the execution time of one trajectory and compares loosely; time offsets and repeated changes are never tried.",
     ["dmp/_dmp.py", "dmp/_cartesian_dmp.py", "dmp/_dual_cartesian_dmp.py", "dmp/_dmp_with_final_velocity.py",
      "dmp/_forcing_term.py", "dmp/_canonical_system.py", "dmp/_state_following_dmp.py"],
     [("execution time property", "dmp/_dmp.py and siblings"), ("RBF placement", "dmp/_forcing_term.py")],
     "execution_time_, open_loop, imitate")

prop("C06", "Motions do not depend on the choice of coordinates",
     "Shifting start and goal shifts the trajectory; trajectories are jointly linear in start, goal and weights; dimensions are independent of "
     "each other and permuting them permutes the result. Rotating start, goal and rotational weights of an orientation rotates its trajectory; each "
     "arm of a dual-arm DMP moves exactly like a single-arm Cartesian DMP with the same parameters, and swapping the arms swaps the results.",
     ["inputs", "configurations"],
     "all shifts, factors, permutations, rotations, weights, gains, starts and goals; with and without smooth scaling",
     "No test relates two runs with transformed inputs; cross-talk between dimensions or arms and wrong index ranges are "
     "invisible when gains are uniform.",
     ["dmp/_dmp.py", "dmp/_cartesian_dmp.py", "dmp/_dual_cartesian_dmp.py", "dmp/_dmp_with_final_velocity.py",
      "dmp/_state_following_dmp.py", "spring_damper.py", "dmp_fast.pyx"],
     [("per-dimension index handling", "dmp/_dual_cartesian_dmp.py, dmp/_cartesian_dmp.py, dmp_fast.pyx")],
     "open_loop")

prop("C07", "Stepwise execution equals open-loop execution",
     "Stepping a freshly configured primitive and feeding back its own output visits exactly the samples that open-loop execution returns, whatever "
     "the feedback gain, and advancing several steps at once equals single steps. The returned time axis starts at zero, is spaced by the step size, "
     "covers the requested run time and overshoots it by at most one step.",
     ["inputs", "configurations", "histories"],
     "all primitives offering both modes, all step sizes and run times (also not multiples of each other), internal step "
     "sizes larger or smaller than the step size, start velocities, coupling terms, feedback gains",
     "Tests compare both modes for one configuration per class, without start velocities, feedback gains or coupling terms.",
     ["base.py", "dmp/_dmp.py", "dmp/_cartesian_dmp.py", "dmp/_dual_cartesian_dmp.py", "dmp/_dmp_with_final_velocity.py",
      "dmp/_state_following_dmp.py", "spring_damper.py"],
     [("step and open loop implementations", "all primitives")],
     "step, open_loop, n_steps_open_loop")

prop("C08", "No hidden state survives a reset or an open-loop run",
     "After any sequence of configure, imitate, weight changes, steps and open-loop runs, a primitive that is reset behaves exactly like a "
     "newly constructed primitive with the same parameters, regardless of whether the start is configured before or after the reset. "
     "Open-loop execution is repeatable and does not depend on earlier executions.",
     ["histories"],
     "all interleavings of configure, set weights, imitate, step, perturbed step, open loop, execution time change and reset on every primitive",
     "Tests run one fixed sequence (step, reset, step) on a single class; interleavings are never explored.",
     ["base.py", "dmp/_base.py", "dmp/_dmp.py", "dmp/_cartesian_dmp.py", "dmp/_dual_cartesian_dmp.py",
      "dmp/_dmp_with_final_velocity.py", "dmp/_state_following_dmp.py", "spring_damper.py", "minimum_jerk_trajectory.py"],
     [("reset", "dmp/_base.py, spring_damper.py, minimum_jerk_trajectory.py"), ("open loop", "dmp/_dual_cartesian_dmp.py")],
     "reset, step, open_loop")

prop("C09", "Orientations stay unit quaternions and their sign does not matter",
     "All orientations generated by Cartesian and dual-arm DMPs and orientation spring-dampers are unit quaternions. "
     "Replacing any start, goal, fed-back or demonstrated quaternion by its negative changes no rotation that is generated and no "
     "weight that is learned, and orientations take the shortest way to the goal.",
     ["inputs", "configurations", "histories"],
     "all start and goal orientations including identical, antipodal and (nearly) 180 degree apart ones, weights, gains, sign "
     "flips at any subset of samples",
     "Tests use a few smooth orientation paths with consistent signs.",
     ["dmp/_cartesian_dmp.py", "dmp/_dual_cartesian_dmp.py", "spring_damper.py", "dmp_fast.pyx"],
     [("quaternion difference, logarithm and exponential", "dmp_fast.pyx, dmp/_cartesian_dmp.py, spring_damper.py")],
     "open_loop, step, imitate")

prop("C10", "Weights can be read, stored and written back without loss",
     "Reading weights returns an independent vector of the announced length; writing it back, to the same or another primitive of the same structure, at any later "
     "time reproduces the same motion. Each entry of the vector influences exactly one dimension, ordered by "
     "dimension, and weights survive configuration, execution and duration changes.",
     ["inputs", "histories"],
     "all weight vectors, DMP types, numbers of weights and interleavings of reading, writing, imitation and execution",
     "Tests write and read once per class and do not keep a vector across later changes.",
     ["dmp/_base.py", "dmp/_cartesian_dmp.py", "dmp/_dual_cartesian_dmp.py", "dmp/_forcing_term.py"],
     [("weight accessors", "dmp/_base.py, dmp/_cartesian_dmp.py")],
     "get_weights, set_weights, n_weights")

prop("C11", "Phase and forcing term have the documented shape",
     "The phase starts at one, decreases exponentially with time and reaches the requested final value at the end of the movement, for any start and "
     "end time. The forcing term is the phase times a convex combination of the weights: linear in the weights, bounded by the "
     "largest weight times the phase, equal to weight times phase if all weights are equal, finite at all times, and centred "
     "so that each weight dominates at its own equally spaced time.",
     ["inputs", "configurations"],
     "all start/end times, final phases, numbers of weights (2 to several hundred), times before, within and far beyond the movement",
     "Tests check the phase at two points for one interval and never look at activations.",
     ["dmp/_canonical_system.py", "dmp/_forcing_term.py", "dmp_fast.pyx"],
     [("canonical system", "dmp/_canonical_system.py"), ("radial basis functions", "dmp/_forcing_term.py")],
     "canonical_system_alpha, phase, forcing_term(t)")

prop("C12", "Final-velocity DMP meets its boundary conditions",
     "A final-velocity DMP starts with the configured position and velocity and reaches the configured goal position with the "
     "configured goal velocity at the end of the execution time (exactly the quintic between both boundary conditions if the weights are zero), "
     "and settles at the goal afterwards. Its trajectory solves the spring-damper equation that tracks this quintic plus forcing and coupling terms.",
     ["inputs", "configurations"],
     "all boundary positions, velocities and accelerations, durations, gains, weights, step sizes",
     "Tests look at one imitated trajectory per aspect with unit duration.",
     ["dmp/_dmp_with_final_velocity.py"],
     [("quintic boundary constraints", "dmp/_dmp_with_final_velocity.py")],
     "open_loop, step")

prop("C13", "Spring coupling terms enforce distances and respect leader/follower",
     "A spring coupling term exerts nothing at the desired distance (and zero velocity), pulls towards it otherwise in proportion to gains and deviation, with opposite "
     "influence on both sides scaled by the leader/follower weights; a side with weight zero moves exactly as without coupling. "
     "Pose couplings do not depend on the choice of the base frame, uncoupled components are untouched, and a trajectory coupling exerts nothing "
     "while the demonstrated relative pose is followed, at and between the demonstrated times.",
     ["inputs", "configurations"],
     "all positions, velocities, orientations, desired distances/poses, gains, leader/follower weights, base frame changes, coupled subsets",
     "Three tests run one coupled trajectory each and check the median distance.",
     ["dmp/_coupling_terms.py", "dmp/_dmp.py", "dmp/_dual_cartesian_dmp.py", "dmp_fast.pyx"],
     [("coupling terms", "dmp/_coupling_terms.py")],
     "coupling(y, yd), open_loop(coupling_term=...)")

prop("C14", "Obstacle avoidance steers around the obstacle, consistently in 2D and 3D",
     "The obstacle avoidance acceleration has magnitude gamma*|v|*theta*exp(-beta*theta), where theta is the angle between velocity and "
     "direction to the obstacle, is the velocity rotated by 90 degrees away from the obstacle, and is finite for all finite inputs. 2D and 3D versions agree in the plane, "
     "batches equal single evaluations with shapes preserved, and the result rotates and shifts with the scene.",
     ["inputs"],
     "all positions, velocities (also zero or exactly towards/away from the obstacle), obstacle positions, gains, scales from millimetres to metres, batch shapes",
     "Tests evaluate one scene and check the distance to the obstacle.",
     ["dmp/_coupling_terms.py", "dmp_fast.pyx"],
     [("obstacle avoidance accelerations", "dmp/_coupling_terms.py, dmp_fast.pyx")],
     "obstacle_avoidance_acceleration_2d/3d, coupling")

prop("C15", "Saved movement primitives behave like the originals when loaded",
     "Writing a movement primitive (any DMP type, ProMP, spring-damper, minimum jerk trajectory) to pickle, JSON or YAML and reading it back yields an object that produces the same "
     "open-loop trajectories and continues a partially executed motion identically, and saving the loaded object again changes nothing. Writing does not alter the original.",
     ["inputs", "histories", "configurations"],
     "all primitives, constructor arguments (also numpy scalars), weights, configurations and states reached by imitation, "
     "conditioning or partial execution; all three formats",
     "Three tests save one fresh object each in one format; states in the middle of an execution and numpy scalars are never stored.",
     ["io.py"],
     [("recursive export and import", "io.py")],
     "read_*/write_* of pickle, yaml, json")

prop("C16", "ProMP trajectory distributions are consistent linear-Gaussian models",
     "Mean, covariance and variance of positions and velocities are the exact push-forward of the weight distribution through one linear "
     "normalized basis map, velocities are the time derivatives of positions, and results do not depend on the time unit beyond that scaling. "
     "Fitting weights to a trajectory and evaluating them reproduces representable trajectories; sampled trajectories are "
     "reproducible for a given random state and follow mean and covariance.",
     ["inputs", "configurations"],
     "all weight distributions, numbers of dimensions and weights, time vectors of any duration and spacing, random states",
     "Tests check one trained 1D/2D model on unit time with coarse tolerances.",
     ["promp.py"],
     [("basis functions and block structure", "promp.py")],
     "weights, trajectory_from_weights, mean/cov/var_trajectory, mean/cov/var_velocities, sample_trajectories")

prop("C17", "Conditioning a ProMP is exact Bayesian conditioning",
     "Conditioning on a position gives the exact Gaussian posterior of the weights: it passes through noise-free via-points with zero variance, never "
     "increases any variance, leaves the original ProMP unchanged, and for several via-points does not depend on their order. The time of a via-point is relative to the given maximum time.",
     ["inputs", "histories"],
     "all priors (full-rank covariances), observation times, means and covariances in any number of dimensions, sequences of conditionings",
     "One plotting example only; no test conditions a ProMP.",
     ["promp.py"],
     [("conditioning", "promp.py")],
     "condition_position, via_points")

prop("C18", "ProMP imitation recovers the distribution of demonstrations",
     "After imitation the weight covariance is symmetric positive semi-definite and finite, the mean trajectory approximates the mean of the demonstrations and "
     "the variance their spread when they come from a ProMP with little noise; the result does not depend on the order "
     "of the demonstrations or the time unit, and permuting dimensions permutes it. More iterations continue the same optimization until the change is below the threshold.",
     ["inputs", "configurations"],
     "all sets of demonstrations (also of different lengths), dimensions, numbers of weights and iterations",
     "Tests imitate one noisy cosine family with equally long demonstrations.",
     ["promp.py"],
     [("expectation maximization", "promp.py")],
     "imitate, mean_trajectory, var_trajectory")

prop("C19", "Minimum jerk trajectories connect start and goal as documented",
     "A minimum jerk trajectory has one sample per time step including both ends, starts at the start and ends at the goal, at rest at both, follows the "
     "quintic minimum jerk profile (up to one step) in between in every dimension, and its velocities and accelerations are the "
     "derivatives of its positions. Stepping through it returns its samples in order, and again after a reset.",
     ["inputs", "histories"],
     "all starts, goals, dimensions and all combinations of duration and step size where the duration is a multiple of at least two of the step size (also when not exactly "
     "representable), reset and reconfiguration sequences",
     "Tests use unit duration with step 0.01 only.",
     ["data/_minimum_jerk.py", "minimum_jerk_trajectory.py"],
     [("recursive quintic generator", "data/_minimum_jerk.py"), ("stepping", "minimum_jerk_trajectory.py")],
     "generate_minimum_jerk, MinimumJerkTrajectory.step")

prop("C20", "Forward kinematics equals the product of link and joint transforms",
     "The end-effector pose of a kinematic chain is the product of the URDF's fixed joint origins and the joint motions along the path from base to end effector, with joint values clipped to their limits, "
     "for revolute, prismatic and continuous joints with any axis. It depends only on the joint values passed last, and a trajectory of poses equals pose-by-pose evaluation.",
     ["inputs", "configurations", "histories"],
     "randomly generated URDF trees (chains with branches, fixed joints, arbitrary origins and axes, limits) and joint values inside and outside "
     "of the limits, sequences of calls, any base and end-effector frames",
     "Tests use two industrial robots and only check that inverse and forward are consistent with each other.",
     ["kinematics.py"],
     [("joint transforms and chain", "kinematics.py")],
     "Kinematics.create_chain, forward, forward_trajectory")

prop("C21", "Inverse kinematics returns admissible joints whose error is as reported",
     "Inverse kinematics returns joint values within the joint limits (and the requested bounds or search interval around the previous configuration), "
     "the reported error is the weighted sum of rotation angle and distance between desired and reached pose, and is not worse than that of an admissible initial "
     "guess, up to the accuracy of the solver. Started close to a solution it approaches one, trajectories are tracked, results are reproducible for a given random state, and restarts return the best attempt.",
     ["inputs", "configurations"],
     "reachable and unreachable poses (also rotated by 180 degrees from the current one), initial guesses, weights, bounds, intervals, solvers, robots",
     "Tests check the reached pose for a few reachable poses in the interior of the joint range.",
     ["kinematics.py"],
     [("pose error and bounded optimization", "kinematics.py")],
     "inverse, inverse_with_random_restarts, local_inverse_with_random_restarts, inverse_trajectory, ee_pose_error")

prop("C22", "Invalid arguments are rejected without side effects",
     "Wrongly sized start, goal, gain or state vectors, unknown step functions, too few weights, non-positive durations, negative regularization "
     "and mismatching shapes are rejected with an exception instead of producing a trajectory, and a rejected call leaves the "
     "primitive's behaviour unchanged. Valid arguments are never rejected.",
     ["inputs", "configurations", "histories"],
     "all argument positions and wrong sizes for all primitives, also in the middle of an execution",
     "Tests try one or two wrong values for some of the arguments and never look at the object afterwards.",
     ["base.py", "utils.py", "dmp/_dmp.py", "dmp/_cartesian_dmp.py", "dmp/_dual_cartesian_dmp.py", "dmp/_forcing_term.py",
      "dmp/_state_following_dmp.py", "data/_minimum_jerk.py", "io.py"],
     [("argument checks", "utils.py, base.py, constructors")],
     "constructors, configure, step, open_loop, imitate")

prop("C23", "The potential field shows the acceleration the DMP would apply",
     "For a 2D DMP at any time of its execution, the potential field's total acceleration at a grid point is the sum of its three parts and equals the "
     "acceleration of the DMP in that position with its current velocity, including gains, duration, smooth scaling and obstacle. "
     "Grid coordinates cover the requested ranges, the DMP is not modified, and the plot draws each part and the total as arrows in its documented color at every grid point, "
     "with one common scale multiplied by the requested factor.",
     ["inputs", "configurations", "histories"],
     "all weights, gains, durations, ranges, grid sizes, obstacles, arrow sizes and execution states",
     "The test checks shapes and that the parts add up for one default DMP.",
     ["dmp_potential_field.py", "dmp/_dmp.py"],
     [("field decomposition", "dmp_potential_field.py"), ("transformation system", "dmp/_dmp.py")],
     "potential_field_2d, plot_potential_field_2d")

prop("C24", "Propagated state distributions are those of the demonstrations' parameters",
     "The state space distribution estimated from a dataset of dual-arm demonstrations is the unscented push-forward of the Gaussian over weights, start and goal "
     "through DMP execution: it has one block of 14 values per time step, its mean "
     "stays close to the common trajectory for similar demonstrations, its covariance is symmetric and vanishes when they coincide, and caching does not change the result.",
     ["inputs", "configurations"],
     "all datasets of similar dual-arm demonstrations, durations, numbers of weights, step sizes, cached and uncached calls",
     "The only test needs a download and does not run offline.",
     ["dmp_to_state_space_distribution.py"],
     [("unscented transform", "dmp_to_state_space_distribution.py")],
     "propagate_weight_distribution_to_state_space")

prop("C25", "Spring-dampers follow the analytic solution",
     "A spring-damper follows the closed-form solution of a = k*(g - y) - c*v from the configured start state with critical damping by default, "
     "in every dimension independently, up to integration error; critically or over-damped motion from rest never overshoots the goal. "
     "The orientation spring-damper does the same along the shortest rotation from start to goal, and coupling terms add their acceleration.",
     ["inputs", "configurations"],
     "all starts, start velocities, goals, stiffness and damping values, step sizes, run times, dimensions",
     "Tests check that the goal is approached for one configuration.",
     ["spring_damper.py"],
     [("spring-damper step", "spring_damper.py")],
     "open_loop, step")

prop("C26", "State-following DMPs track their via-points as weighted springs",
     "With shrinking steps a state-following DMP converges to the motion of a mass pulled by springs to all via-points with phase-dependent normalized weights, the time "
     "constant being half the duration. Started at rest with critical damping it never leaves the range of start and via-points, after its end it settles at the via-points' "
     "average with their final weights (dominated by the last one), and moving start and via-points together moves the trajectory.",
     ["inputs", "configurations"],
     "all via-point sets (one to many), starts, durations, gains, step sizes",
     "Two tests check that one trajectory passes near its via-points.",
     ["dmp/_state_following_dmp.py"],
     [("via-point activations and integration", "dmp/_state_following_dmp.py")],
     "open_loop, step")

prop("C27", "Calls never modify their arguments and returned arrays are independent",
     "No public call changes the arrays passed to it, and arrays returned earlier never change through later calls, so "
     "trajectories can be collected and inputs reused. Overwriting a returned array does not influence the object that returned it.",
     ["inputs", "histories"],
     "all public functions and primitives with all array arguments; sequences of calls that keep earlier results",
     "Tests copy arrays before use or never look at them again.",
     ["base.py", "dmp/_base.py", "dmp/_dmp.py", "dmp/_cartesian_dmp.py", "dmp/_dual_cartesian_dmp.py", "dmp/_state_following_dmp.py",
      "promp.py", "spring_damper.py", "minimum_jerk_trajectory.py", "kinematics.py", "data/_minimum_jerk.py"],
     [("copies of state", "step functions, promp.py")],
     "all public functions")

prop("C28", "Dataset generators and loaders deliver what they describe",
     "Toy trajectory distributions have the requested size, are the cosine plus a linear offset within the given ranges plus smooth noise proportional to the noise factor, and are "
     "reproducible for a given random state (by default always the same data). The handwriting loader returns positions, velocities, "
     "accelerations and time step of the selected shape, in alphabetical order of shapes, as stored in the files.",
     ["inputs", "configurations"],
     "all sizes, ranges, noise factors, random states; all synthetic handwriting datasets (numbers of shapes, demonstrations and steps)",
     "The generator is only used as input of other tests; the loader needs a download and does not run offline.",
     ["data/_toy_1d.py", "data/_lasa.py"],
     [("toy distribution", "data/_toy_1d.py"), ("matlab conversion", "data/_lasa.py")],
     "generate_1d_trajectory_distribution, load_lasa")

prop("C29", "Plots show exactly the given data in the right axes",
     "Plotting a trajectory draws in the axes of each dimension exactly that dimension's values over the given times (or step numbers); plotting a distribution "
     "draws the mean and, for each factor, a band or pair of lines at mean plus/minus factor times standard deviation. Axes are ordered row by row, or column by column if "
     "transposed, given axes are reused, and titles and axis labels belong to the right dimension.",
     ["inputs", "configurations"],
     "all trajectories, subplot shapes, transposition, factors, labels, with and without given axes or times",
     "Plot functions are not tested at all.",
     ["plot.py"],
     [("axes layout and drawing", "plot.py")],
     "plot_trajectory_in_rows, plot_distribution_in_rows")

prop("C30", "The simulation mock-up executes a primitive faithfully",
     "Stepping a primitive through the simulation mock-up for some time records the initial state followed by exactly the states that the primitive's own stepwise "
     "execution produces, one per simulation step, including coupling terms. Poses converted for the physics engine and back are unchanged and describe the same rotation in the engine's convention, so that the pose "
     "reported by the simulated robot arm is the one of its joint angles.",
     ["inputs", "configurations"],
     "all primitives with a step function, execution times, step sizes, coupling terms, poses, joint angles of the arm within its limits",
     "One test runs the mock-up for one DMP and checks little; pose conversion is not tested.",
     ["testing/simulation.py"],
     [("mock-up loop", "testing/simulation.py")],
     "SimulationMockup.step_through_cartesian")

prop("C31", "Only the values of array arguments matter",
     "Arrays of integers, views with any memory layout and read-only arrays give the same results as new arrays of floating point numbers with the same values. "
     "An array that is changed by the caller after a call returned (start, goal, weights, demonstration, distribution, via-points) does not change the primitive it was given to.",
     ["inputs", "histories"],
     "all primitives and histories of configure, imitate, set_weights, step, open_loop, reset; probabilistic primitives; free functions; kinematic chains; integer types, strides, orders, write protection, reused buffers",
     "Tests pass new floating point arrays almost everywhere and do not use them afterwards.",
     ["base.py", "dmp/_dmp.py", "dmp/_dmp_with_final_velocity.py", "dmp/_cartesian_dmp.py", "dmp/_dual_cartesian_dmp.py", "dmp/_forcing_term.py", "dmp/_state_following_dmp.py",
      "dmp/_coupling_terms.py", "spring_damper.py", "minimum_jerk_trajectory.py", "data/_minimum_jerk.py", "promp.py", "dmp_fast.pyx", "kinematics.py"],
     [("configuration of start and goal", "base.py"), ("forces of demonstrations", "dmp/_dmp.py"), ("distribution of weights", "promp.py")],
     "all public functions that take arrays")

prop("C32", "Error ellipsoids and point clouds show the given data",
     "The error ellipsoid of a Gaussian is centered at its mean, has a right-handed orthonormal frame, and the squares of its radii along the axes of the frame reproduce the covariance, including singular covariances and equal radii. "
     "A plotted point cloud contains every k-th given point, each with the given color, and is added to the figure exactly once.",
     ["inputs"],
     "all means and positive semi-definite covariances, point clouds, colors, downsampling factors",
     "The visualization module is not tested.",
     ["visualization.py"],
     [("ellipsoid and point cloud", "visualization.py")],
     "to_ellipsoid, plot_pointcloud")

prop("C33", "Velocity and acceleration of coupling terms act on every primitive",
     "In each integration step the velocity of a coupling term, divided by the duration, is added to the velocity of the primitive, and its acceleration, divided by the squared duration, is added to the acceleration; the duration is the execution time, half of it for state-following DMPs, and one for spring-dampers, and the new velocity moves the position (except that RK4 adds the coupling velocity after the position was computed). "
     "Coupling terms are first asked for their values at the position and velocity before the step. "
     "A coupling term of zeros is the same as no coupling term, and stepwise execution with a coupling term is the same as open-loop execution.",
     ["inputs", "programs"],
     "all primitives that accept coupling terms, step functions, time steps, durations, weights, coupling velocities and accelerations, states along the execution",
     "Tests use coupling terms with particular springs and obstacles and check that something happens, mostly for one step function; velocities of coupling terms are zero for most of them.",
     ["dmp/_dmp.py", "dmp/_dmp_with_final_velocity.py", "dmp/_cartesian_dmp.py", "dmp/_dual_cartesian_dmp.py", "dmp/_state_following_dmp.py", "spring_damper.py", "dmp_fast.pyx"],
     [("integration of coupling in position DMPs", "dmp/_dmp.py"), ("integration of coupling in state-following DMPs", "dmp/_state_following_dmp.py"), ("integration of coupling in spring-dampers", "spring_damper.py")],
     "step and open_loop with coupling_term")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
