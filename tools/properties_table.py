# ----------------------------------------------------------------- the solver
prop("S01", "Strict priority: a lower task never disturbs a higher one",
 "For any stack of distinct tasks, adding tasks below the existing ones, removing, reordering, re-valuing or (de)selecting lower tasks changes the control only in ways the higher tasks do not see: the Jacobian of every active, non-disabled higher task maps the old and the new control to the same value, up to the damping threshold times the change. With an initial projector with orthonormal columns, every correction lies in its range. When posture acceleration is enabled, this is about the tasks above the accelerated one.",
 ["inputs", "configurations", "histories"],
 "every robot size, number of tasks, task dimensions and ranks (full, redundant, conflicting, zero), Jacobians and desired task velocities, and every position at which a lower task is added",
 NOBUILD + "Priority is a statement over all Jacobians and ranks; no test samples rank-deficient or conflicting stacks.",
 ["src/sot/sot.cpp", "include/sot/core/sot.hh", "include/sot/core/memory-task-sot.hh", "src/sot/memory-task-sot.cpp"],
 [("successive projection of the tasks in the kernel of the previous ones", "src/sot/sot.cpp computeControlLaw"), ("SVD kernel", "include/sot/core/memory-task-sot.hh")],
 ["control output signal of the stack of tasks"])

prop("S02", "The control is the hierarchical least-squares solution of the stack",
 "The computed control is the hierarchical least-squares solution of the stack of distinct tasks: each task in order adds the minimum-norm correction of its remaining residual, within the null space of the tasks above it, singular values not above the damping threshold counting as zero; a task only uses the joints of its control selection, and a task without any selected joint or any row adds nothing. It starts from the initial control when given (zero otherwise), keeps corrections in the range of the initial projector (orthonormal columns) when given, ignores and reports a projector of the wrong height, and skips and reports a task whose correction's squared norm exceeds the configured maximum, without affecting the tasks below it. With posture acceleration, a last task made of one posture feature alone on all non-free-flyer joints adds its residual projected on the remaining null space.",
 ["inputs", "configurations"],
 "all task sets, ranks, damping thresholds, initial controls, initial projectors and maximum increments",
 NOBUILD + "The reference solution must be matched for every matrix, including singular ones and thresholded singular values.",
 ["src/sot/sot.cpp", "src/sot/memory-task-sot.cpp"],
 [("control law", "src/sot/sot.cpp SotJacobian/computeControlLaw"), ("rank decision", "include/sot/core/memory-task-sot.hh")],
 ["control output signal of the stack of tasks"])

prop("S03", "The control depends only on current inputs, never on past evaluations",
 "At any evaluation, the control is the one a freshly built stack with the same tasks, options and current inputs computes, whatever was computed before: tasks that changed dimension, value or selection, were pushed, removed, reordered or reused, a different robot size, threshold, projector, initial control or maximum increment. Reading the control again at the same time returns the same value. The computation never reads or writes outside its buffers while these change.",
 ["histories", "inputs"],
 "all sequences of evaluations interleaved with stack edits, task dimension changes, robot size changes and option changes",
 NOBUILD + "Stale per-task work buffers only show after particular multi-step histories.",
 ["src/sot/sot.cpp", "src/sot/memory-task-sot.cpp", "include/sot/core/memory-task-sot.hh", "src/task/task.cpp"],
 [("per-task work memory", "src/sot/memory-task-sot.cpp"), ("retrieval of that memory", "src/sot/sot.cpp")],
 ["control output signal of the stack of tasks"])

prop("S04", "Stack editing commands behave as an ordered list of tasks",
 "The stack is an ordered list: push appends at the lowest priority, pop removes and returns the lowest, remove deletes the task wherever it is, up and down exchange it with its neighbour (no effect at the ends or when absent), clear empties it; the list and display commands, the membership test and the graph export report exactly the tasks in priority order, and the next control read, even at the same time, follows the edited order. Pushing before the number of joints is set, naming an unknown task, evaluating an empty stack without initial control and evaluating with an initial control of the wrong size raise an error and leave the stack unchanged and usable.",
 ["histories"],
 "all sequences of push, pop, remove, up, down, clear and list on any number of tasks, including tasks that are not in the stack",
 NOBUILD + "Edit sequences are unbounded; the tests push one or two tasks.",
 ["src/sot/sot.cpp", "include/sot/core/sot.hh"],
 [("stack editing", "src/sot/sot.cpp push/pop/remove/up/down/clear/exist")],
 ["list command, control output"])

# ----------------------------------------------------------------- tasks
prop("T01", "A task stacks its features in order and drives them with its gain",
 "A task's error and Jacobian are the vertical concatenation, in the order the features were added, of the features' selected errors and Jacobians, and its desired velocity is minus the gain times the error, from which the stacked feature error rates are also subtracted when velocity feed-forward is enabled. This holds from the first evaluation and after any feature is added, removed or changes dimension; a change of the list shows at once, even at a time already evaluated, and features taken out of the list are no longer used and may be destroyed. The task's control selection is the one last set, with what was added since, and is empty once cleared.",
 ["histories", "inputs"],
 "all lists of features, dimensions and selections, gains, and sequences of add, remove, clear and evaluation",
 NOBUILD + "Only single-feature tasks are evaluated by tests.",
 ["src/task/task.cpp", "include/sot/core/task.hh", "src/task/task-abstract.cpp"],
 [("stacking", "src/task/task.cpp computeError/computeJacobian"), ("velocity law", "src/task/task.cpp computeTaskExponentialDecrease")],
 ["task output, error and jacobian signals"])

prop("T02", "Derived tasks add exactly their own term to the basic task law",
 "The proportional-derivative task's command is the basic task's command minus the derivative gain times the feature error rate; the continuity task starts so that the first control equals the previous control and its transition term then decays exponentially to the basic law; the one-sided task reports, for each row, its limits minus the current position divided by the control period.",
 ["inputs", "histories"],
 "all gains, errors, error rates, previous controls, and times after the start",
 NOBUILD + "They need a trajectory of evaluations.",
 ["src/task/task-pd.cpp", "src/task/task-conti.cpp", "src/task/task-unilateral.cpp"],
 [("PD law", "src/task/task-pd.cpp"), ("transition", "src/task/task-conti.cpp"), ("bounds", "src/task/task-unilateral.cpp")],
 ["task output signals"])

prop("T03", "Error-dependent gains interpolate monotonically between their limits",
 "The adaptive gain is exactly the configured near-zero gain a + c at zero error, tends to the far gain c for large errors, stays between the two, is monotone in the norm of the error, and follows a*exp(-b*|e|)+c, where b gives the configured slope at zero error, or makes the curve pass through the configured fraction of the way at the configured error when set by passing point; setting a constant, or forcing it, gives that constant for every error. The hyperbolic gain follows a*(tanh(-b(|e|-d))+1)/2+c with b = slope/(2a): it stays between its limits, is monotone, is midway at the offset d and tends to c. Reconfiguring at run time takes effect at the next evaluation with a new error.",
 ["inputs", "configurations"],
 "all gain parameters and error vectors of any size",
 NOBUILD + "Monotonicity and limits are over all errors and parameters; tests check a single configuration.",
 ["src/task/gain-adaptive.cpp", "src/task/gain-hyperbolic.cpp", "include/sot/core/gain-adaptive.hh", "include/sot/core/gain-hyperbolic.hh"],
 [("gain law", "src/task/gain-adaptive.cpp computeGain"), ("gain law", "src/task/gain-hyperbolic.cpp computeGain")],
 ["gain output signal"])

prop("T04", "Interval values keep and report exactly the bounds they were given",
 "A task command entry is either a single value or an interval with an optional lower and an optional upper bound, and reports exactly what it was built from and last set to: its kind, each bound's presence, and each bound's value; asking for a value or bound that does not exist is an error. Writing a list of such entries to text and reading it back gives the same entries (for numbers the chosen precision represents) and reads no further than the list; text that ends too early or misses a bracket or comma is refused with an error.",
 ["inputs"],
 "all entries (value, lower only, upper only, both), all lists of them, copies and assignments",
 NOBUILD + "The round trip is over all lists.",
 ["src/task/multi-bound.cpp", "include/sot/core/multi-bound.hh"],
 [("interval type", "src/task/multi-bound.cpp")],
 ["accessors and stream operators"])

# ----------------------------------------------------------------- features
prop("F01", "Selection keeps exactly the selected coordinates, in order",
 "For every feature whose coordinates can be selected (generic, 6D point, relative 6D point, relative pose, visual point, joint limits, and posture with its own list of degrees of freedom), the dimension is the number of selected coordinates, and the error, the Jacobian and the error rate hold exactly the rows of the fully selected feature's values for the selected coordinates, in increasing order; features that do not select (1D, 3D vector, line distance) keep their full size. Changing the selection, the reference, the inputs or (for a generic feature) the size takes effect on every output at the next evaluation, and a reference, rate or Jacobian too short for the selection is refused. 'actuate' on joint limits selects every joint after the six free-flyer ones.",
 ["inputs", "configurations"],
 "all features, all selections (none, all, partial, longer than the feature), and any history of selections, references and inputs",
 NOBUILD + "Tests use one or two selections.",
 ["src/feature/feature-generic.cpp", "src/feature/feature-point6d.cpp", "src/feature/feature-vector3.cpp", "src/feature/feature-posture.cpp", "src/feature/feature-visual-point.cpp", "src/feature/feature-joint-limits.cpp", "include/sot/core/feature-pose.hxx", "src/feature/feature-abstract.cpp"],
 [("row selection", "each feature's computeError/computeJacobian/getDimension")],
 ["feature error, jacobian, dimension, errordot signals"])

prop("F02", "A feature's Jacobian is the derivative of its error",
 "For each feature, the Jacobian times a control vector is the rate of change of the feature's error when the measured body (or joints) moves with the velocity its own input Jacobian gives for that control and the reference stays fixed: generic, posture, joint limits (with lower < upper), half square norm (1D), 3D vector, line distance, visual point (camera velocity, point in front of the camera; a point behind the camera or in its plane is refused), relative pose (R3xSO3 and SE3, both bodies moving) and the translation of a 6D point in either frame. The rotation rows of a 6D point give the angular velocity of the point relative to its reference expressed in the reference frame (opposite sign in frame 'current'), which is the derivative of the rotation error where that error is zero and yields the derivative of its norm everywhere. The Jacobian of a relative 6D point gives the twist of the relative pose seen from the point.",
 ["inputs", "configurations"],
 "all poses, references, input Jacobians, controls and computation frames away from half turns and parallel lines",
 NOBUILD + "Only finite-difference checks at a few random poses exist upstream, none of them runs here.",
 ["src/feature/feature-point6d.cpp", "include/sot/core/feature-pose.hxx", "src/feature/feature-vector3.cpp", "src/feature/feature-visual-point.cpp", "src/feature/feature-point6d-relative.cpp", "src/feature/feature-posture.cpp", "src/feature/feature-1d.cpp"],
 [("Jacobian formulas", "each feature's computeJacobian")],
 ["feature jacobian and error signals"])

prop("F03", "A feature's error is its documented difference to the reference",
 "Each feature's error is its documented difference: generic s - s*; posture state - posture; 6D point translation and rotation vector of M^-1 M* (frame 'current') or M*^-1 M (frame 'desired'), with M* the identity when there is no reference; relative 6D point those of pMref (pMref*)^-1; relative pose (t - t*, log(R*^T R)) or log6(M*^-1 M); visual point xy - xy*; joint limits 2(q - low)/(up - low) - 1; 1D half the square norm; 3D vector R v - v*; line distance the signed offset along the common normal divided by |d0 x d1|. It is zero exactly when current and desired coincide. Setting (by pointer or by name), replacing or removing the reference, and changing the frame, take effect at the next evaluation even when no input changes, and a replaced or removed reference may be destroyed. 'keep' and 'initSdes' make the desired value the current one. A 3D point is projected in the frame of the camera as x/z, y/z.",
 ["inputs", "histories"],
 "all current values and references away from half turns, all frames, and any sequence of reference, frame and input changes",
 NOBUILD + "Statement over all poses; tests use a few.",
 ["src/feature/feature-generic.cpp", "src/feature/feature-posture.cpp", "src/feature/feature-point6d.cpp", "include/sot/core/feature-pose.hxx", "src/feature/feature-vector3.cpp", "src/feature/feature-abstract.cpp", "include/sot/core/feature-abstract.hh", "src/feature/feature-1d.cpp", "src/feature/feature-visual-point.cpp"],
 [("error formulas", "each feature's computeError"), ("reference handling", "include/sot/core/feature-abstract.hh")],
 ["feature error signal"])

prop("F04", "A feature's error rate is the derivative of its error along its inputs",
 "The error rate is the time derivative of the error when only the reference moves: for a 6D point the reference moves with the linear velocity of its origin and its angular velocity in the world, in either frame (second-order terms are dropped when the squared rotation error is below 1e-8); for an SE3 relative pose the desired pose moves with the given twist seen from frame A; for an R3xSO3 relative pose the rotation rows are that derivative and the translation rows are minus the velocity of that twist at the current position; for generic features and visual points it is minus the reference's rate, for posture minus the posture rate. Without a reference, or with a generic reference that has no rate, it is zero of the feature's dimension. New velocities take effect at the next evaluation.",
 ["inputs"],
 "all poses, references, reference velocities and selections away from half turns",
 NOBUILD + "Needs a derivative over all motions.",
 ["src/feature/feature-abstract.cpp", "src/feature/feature-point6d.cpp", "src/feature/feature-posture.cpp", "include/sot/core/feature-pose.hxx"],
 [("error rate", "each feature's computeErrorDot")],
 ["feature errordot signal"])

prop("F05", "Selection flags form a bit-set algebra that survives text round trips",
 "Flags behave as a sequence of bits with an infinite constant tail: building from a boolean, a string of 0 and 1 (spaces ignored) or a vector of bits, appending, setting and clearing a stored bit, and, or, complement, their assigning forms, reading any index and testing for any set bit agree with the same operations on sequences of bits, so the laws of Boolean algebra hold; setting or clearing an index beyond the stored bits changes nothing. Text written by flags reads back as the same stored bits with a clear tail, and any other character is refused.",
 ["inputs", "histories"],
 "all bit patterns, indices and operation sequences",
 NOBUILD + "An algebra over all bit strings.",
 ["src/sot/flags.cpp", "include/sot/core/flags.hh"],
 [("bit operations", "src/sot/flags.cpp")],
 ["flags operators and text"])

# ----------------------------------------------------------------- device
prop("D01", "The simulated device integrates its control exactly once per step",
 "Each increment of duration dt reads the control once and integrates it over dt: without integration the last coordinates of the state take the control, with velocity control each joint moves by dt times its control, and with acceleration control the joint moves by dt times its velocity plus half dt squared times its control and its velocity by dt times its control. When the control has the size of the state, its first six coordinates move the free-flyer base as a rigid-body twist in the base's frame; otherwise the control acts on the last coordinates of the state. One increment advances the device's state time by exactly one, and the new state (and, with velocity or acceleration control, the velocity) is published, stamped with the new time. Setting the state, the size, the velocity or the root position takes effect at once, and a device whose bounds were never set is integrated unbounded.",
 ["histories", "inputs", "configurations"],
 "all sequences of increments and set-state commands, all control types, all controls and step durations",
 NOBUILD + "Conservation over histories of many steps.",
 ["src/tools/device.cpp", "include/sot/core/device.hh"],
 [("integration", "src/tools/device.cpp increment/integrate")],
 ["state, velocity, motorcontrol signals"])

prop("D02", "Configured bounds hold at every step when sanity checks are on",
 "With sanity checks enabled and bounds set for the current size, no position of the state leaves its bounds after a step, whatever the control type; under velocity control the velocity that is integrated, and under acceleration control the new velocity, stay within the velocity bounds; a control that holds a not-a-number leaves the state unchanged; and quantities within bounds are not altered. Bounds of the wrong size are rejected and leave the previous ones in force, and sanity checks cannot be enabled (nor, while they are enabled, the state set) without the bounds that the control type needs.",
 ["histories", "inputs", "configurations"],
 "all sequences of controls, bounds, control types and configuration commands",
 NOBUILD + "A safety invariant over all control histories.",
 ["src/tools/device.cpp", "include/sot/core/device.hh"],
 [("saturation", "src/tools/device.cpp saturateBounds/integrate"), ("checks", "src/tools/device.cpp setSanityCheck/set*Bounds")],
 ["state and velocity signals"])

prop("D03", "Before and after callbacks run once per device step, in order",
 "At each increment the 'before' periodic callbacks are evaluated before the control is read, seeing the old state, and the 'after' ones after the new state is published, seeing it; each callback due at that step is evaluated exactly once with the step's time (those listed after one that fails may be skipped for that step). An exception in a callback prevents neither the step nor the other list.",
 ["histories", "fault_sequences"],
 "all sequences of increments with any set of registered callbacks, including failing ones",
 NOBUILD + "Ordering over histories with faults.",
 ["src/tools/device.cpp", "src/tools/periodic-call.cpp"],
 [("step", "src/tools/device.cpp increment")],
 ["callback log"])

# ----------------------------------------------------------------- filters
prop("C01", "The causal filter realises its difference equation",
 "For any numerator and denominator, the causal filter's output at every sample satisfies the difference equation of the rational transfer function (denominator on outputs equals numerator on inputs) with history before the first sample taken at the steady state of that sample; the reported derivatives are the finite differences of the last outputs over the sampling period. Each signal component is filtered independently, and nothing outside the filter's history is read or written.",
 ["inputs", "histories"],
 "all filter orders (numerator and denominator of any length), coefficients, signal sizes, periods and sample sequences, including filter switching",
 "No test runs the causal filter on more than a short constant sequence; the property ranges over all coefficient vectors and sample histories.",
 ["src/filters/causal-filter.cpp", "include/sot/core/causal-filter.hh", "src/filters/filter-differentiator.cpp"],
 [("circular buffers and difference equation", "src/filters/causal-filter.cpp get_x_dx_ddx")],
 ["get_x_dx_ddx result"])

prop("C02", "Finite-impulse filters convolve the last samples with their coefficients",
 "A finite-impulse-response filter's output is the sum of its coefficients times the latest samples, newest first, over the samples seen since its size was last set; the temporal convolution does the same row by row with its matrix of coefficients, over as many samples as the matrix has columns. Elements set one by one or in any order, any size and any sequence of samples give the same result, a sample counts once however often the output is read at one time, and coefficients and size read back as set.",
 ["inputs", "histories"],
 "all filter sizes from 1, coefficient lists (scalar or square matrices), sample sequences of one size, coefficient and size changes between samples",
 NOBUILD + "Circular indexing must hold for every length and phase.",
 ["include/sot/core/fir-filter.hh", "src/matrix/fir-filter.cpp"],
 [("circular buffer", "include/sot/core/fir-filter.hh")],
 ["filter output signal"])

prop("C03", "The Euler integrator advances its state by its input derivative",
 "The integrator realises its transfer function in differential form by explicit Euler steps of the configured period: with X_0 the input and X_i the finite difference of X_(i-1), the highest derivative of the output is the numerator applied to the X_i minus the lower denominator coefficients applied to the output and its derivatives before the step, and each lower derivative then advances by the period times the one above it. The output is the state, the derivative output is its first derivative, both start at the input given at initialisation, and neither depends on which is read first or how often at one time. Ill-formed coefficients are refused at initialisation, and an evaluation without initialisation for the current number of coefficients is refused.",
 ["inputs", "histories"],
 "all numerators and denominators (scalar or matrix), input sequences, periods and orders of commands and readings",
 NOBUILD + "Recurrence over all histories.",
 ["include/sot/core/integrator-abstract.hh", "include/sot/core/integrator-euler.hh", "src/matrix/integrator-euler.cpp"],
 [("recurrence", "include/sot/core/integrator-euler.hh")],
 ["integrator output"])

prop("C04", "Derivative, averaging and gradient blocks follow their recurrences",
 "The derivator outputs zero at its first sample and then the difference of the two last samples divided by the time step, component by component (for matrices and quaternion coefficients too); the moving average outputs alpha times the previous average plus (1 - alpha) times the sample, from a zero start; the gradient block adds rate times gradient to its state, from a zero start. The average and the gradient advance exactly once at each time they are read, whether or not the input was refreshed; the derivator once per refreshed sample.",
 ["inputs", "histories"],
 "all input sequences, times and parameters (alpha in [0,1], positive time steps)",
 NOBUILD + "Recurrences over histories.",
 ["include/sot/core/derivator.hh", "src/matrix/derivator.cpp", "src/tools/exp-moving-avg.cpp", "src/tools/gradient-ascent.cpp"],
 [("recurrences", "each entity's output function")],
 ["output signals"])

prop("C05", "The attitude filter always outputs a unit quaternion that tracks gravity",
 "For any sequence of inertial measurements the estimated orientation is a unit quaternion and follows the published gradient-descent update (gyroscope integration corrected by beta times the normalised gradient of the gravity error, left out for a null acceleration); with a stationary sensor it converges, to within a few beta times period, so that measured gravity is vertical. An invalid gain or period is refused and leaves the previous one in force, and before initialisation the estimate does not move.",
 ["inputs", "histories"],
 "all finite measurement sequences, gains in [0,1] and periods; convergence from every orientation not opposite to gravity",
 NOBUILD + "Convergence and norm preservation are over sequences.",
 ["src/filters/madgwickahrs.cpp", "include/sot/core/madgwickahrs.hh"],
 [("update", "src/filters/madgwickahrs.cpp madgwickAHRSupdateIMU")],
 ["orientation output"])

prop("C06", "The Kalman filter computes the standard prediction and update",
 "At every step at which a model or noise input is refreshed the filter's variance and state follow the standard Kalman recurrences from the given initial state and variance, whichever of the two outputs is read first, and the variance stays symmetric and non-negative.",
 ["inputs", "histories"],
 "all model matrices, positive noise covariances, measurements and initial states; steps refreshing all inputs or any one of F, H, Q, R",
 NOBUILD + "Recurrence over histories.",
 ["src/tools/kalman.cpp", "include/sot/core/kalman.hh"],
 [("recurrence", "src/tools/kalman.cpp")],
 ["state and variance outputs"])

# ----------------------------------------------------------------- operators
prop("O01", "Rotation and pose conversions are mutual inverses",
 "Conversions between rotation matrix, roll-pitch-yaw, quaternion and axis-angle vector, and between homogeneous matrix and position-plus-orientation vectors (roll-pitch-yaw, quaternion, axis-angle), each denote the same rotation or pose: converting to any representation and back gives the same rotation, every produced rotation matrix is orthonormal with determinant one, and every produced axis-angle turns by the shortest angle, at most half a turn.",
 ["inputs"],
 "all rotations, including identity, half turns and near-singular pitch, and all positions",
 NOBUILD + "Singular orientations are not sampled.",
 ["src/matrix/operator.hh", "src/matrix/operator.cpp", "include/sot/core/matrix-geometry.hh"],
 [("conversion operators", "src/matrix/operator.hh")],
 ["operator entity outputs"])

prop("O02", "Pose composition, inversion and twist maps respect the group laws",
 "Composition of poses, rotations and quaternions is associative with the identity as neutral element, inversion gives the two-sided inverse, a pose applied to a vector acts as the composed transform, and the twist (velocity change) matrix of a composed pose is the product of the twist matrices.",
 ["inputs"],
 "all poses, rotations, vectors and operand counts",
 NOBUILD + "Group laws over all poses.",
 ["src/matrix/operator.hh", "src/matrix/operator.cpp", "include/sot/core/matrix-geometry.hh"],
 [("composition operators", "src/matrix/operator.hh")],
 ["operator entity outputs"])

prop("O03", "Selection and stacking operators move elements without loss",
 "Vector, matrix and component selectors return exactly the requested elements in the requested order, and the stack operators concatenate the selected parts of their inputs in order; a combination of stacking and complementary selections gives back the original data. Mixing takes each element from the most recent source that claims it.",
 ["inputs", "configurations"],
 "all sizes, index ranges and selections within bounds",
 NOBUILD + "Index arithmetic over all ranges.",
 ["src/matrix/operator.hh", "src/matrix/operator.cpp"],
 [("selectors", "src/matrix/operator.hh")],
 ["operator entity outputs"])

prop("O04", "Arithmetic, comparison and boolean operators compute their definition",
 "Sums (with coefficients), products, differences, weighted sums, comparisons and boolean combinations equal the mathematical operation applied to all inputs in order, for any number of inputs, including inputs added and removed between evaluations.",
 ["inputs", "histories"],
 "all operand values, counts and coefficients",
 NOBUILD + "Over all operand counts.",
 ["src/matrix/operator.hh", "src/matrix/operator.cpp", "include/sot/core/variadic-op.hh", "include/sot/core/binary-op.hh", "include/sot/core/unary-op.hh", "src/matrix/matrix-constant.cpp", "src/matrix/vector-constant.cpp"],
 [("operators", "src/matrix/operator.hh"), ("variadic inputs", "include/sot/core/variadic-op.hh")],
 ["operator entity outputs"])

prop("O05", "Pseudo-inverses and damped inverses compute their definition",
 "For every matrix, pseudoInverse returns the Moore-Penrose inverse of its part above the threshold: singular values greater than the threshold are inverted, all others count as zero. dampedInverse returns V diag(s / (s^2 + threshold^2)) U^T, by whichever overload (matrix, matrix with factors, ready-made thin or full decomposition), which is never larger than 1 / (2 threshold); the overload with factors also returns orthonormal U and V and the singular values, largest first, that rebuild the matrix. The default threshold is 1e-6, the input is not changed, and what the output held before does not matter.",
 ["inputs"],
 "all matrices of any shape and rank, all thresholds",
 NOBUILD + "The existing matrix test only times a few inversions.",
 ["src/matrix/matrix-svd.cpp", "include/sot/core/matrix-svd.hh"],
 [("pseudo-inverse", "src/matrix/matrix-svd.cpp pseudoInverse"), ("damped inverse", "src/matrix/matrix-svd.cpp dampedInverse")],
 ["returned matrices"])

# ----------------------------------------------------------------- tools
prop("L01", "The sequencer fires each event once, at its time, in order",
 "Once the sequencer is started with its stack of tasks, every event registered for step k (counted from the first step played) fires exactly once, at that step, in the order in which events were registered, and is handed the configured stack. An event that adds or removes a task edits that stack. Removing an event by step and name takes away the first event of that type and name registered for that step and no other. While not playing nothing fires; steps passed while paused are skipped; clearing removes every event; display and trace list the registered events.",
 ["histories"],
 "all event sets, start and stop times and step sequences",
 NOBUILD + "Exactly-once over histories.",
 ["src/tools/sequencer.cpp", "include/sot/core/sequencer.hh"],
 [("trigger", "src/tools/sequencer.cpp")],
 ["stack contents, trigger signal"])

prop("L02", "Event, switch and latch blocks follow their inputs' logic",
 "A check of an event block outputs true exactly when its condition differs from the one at the previous evaluation (the first evaluation always differs). The block fires its added signals, in the order added and at the time evaluated, each time the condition rises from false and, if only-up with a repetition of N > 0 is configured, again at every N-th evaluation while it stays up, never while it is down. A switch outputs the input its selection designates (an integer selection takes precedence over a boolean one, where false is 0 and true is 1) and reports an error out of range. A latch outputs true from when it is turned on, by command or by evaluating its turn-on signal, until it is turned off, by command or by its turn-off signal.",
 ["histories", "inputs"],
 "all boolean sequences, selections and option combinations",
 NOBUILD + "Temporal logic over histories.",
 ["include/sot/core/event.hh", "include/sot/core/switch.hh", "include/sot/core/latch.hh", "src/tools/event.cpp", "src/tools/switch.cpp", "src/tools/latch.cpp"],
 [("logic", "include/sot/core/event.hh"), ("selection", "include/sot/core/switch.hh"), ("memory", "include/sot/core/latch.hh")],
 ["output signals"])

prop("L03", "The mailbox hands over whole messages between threads, without races",
 "With one thread posting values and another reading, every value read, through any of the outputs, is one that was posted as a whole, with its own timestamp, never a mixture and never older than one already read (before anything was read it may be the empty value with a zero timestamp), with no data race; a read that overlaps no post gives the last value posted. The mailbox says it has been updated exactly when a post was made since the last read, or no when a post is under way.",
 ["schedules", "histories"],
 "all interleavings of posts and reads and all message sizes",
 NOBUILD + "A schedule property: a test samples one interleaving.",
 ["include/sot/core/mailbox.hh", "include/sot/core/mailbox.hxx", "src/tools/mailbox-vector.cpp"],
 [("double buffer and mutex", "include/sot/core/mailbox.hxx")],
 ["object and timestamp outputs"])

prop("L04", "Robot description maps stay consistent and invertible",
 "Joint names, identifiers, limits, force sensors, their limits and sides recorded in the robot description are returned as last recorded; an identifier leads to a name that has it now, and to none otherwise. Joint permutations between the two joint orders are inverse bijections that lose no element, for positions, velocities and whole configurations; base orientations convert between quaternion and roll-pitch-yaw without changing the rotation (up to the documented cut near vertical pitch) and base velocities between body and world axes. Unknown names give -1, unknown identifiers a not-found name or void limits; converting before the joint map is set is refused. The mimic joints extracted from a robot model are exactly its joints with a mimic element, in order.",
 ["inputs", "histories"],
 "all sequences of settings and queries",
 NOBUILD + "Consistency over histories of edits.",
 ["src/tools/robot-utils.cpp", "include/sot/core/robot-utils.hh"],
 [("maps", "src/tools/robot-utils.cpp")],
 ["accessors"])

prop("L05", "The parameter server stores parameters and refuses invalid use",
 "Values set through the parameter server are those that the shared robot description and the server's getters report; each parameter keeps its type and exact value, overwriting replaces, several servers of one robot share it. A command before a successful initialisation, an initialisation with a non-positive period, a simple initialisation when not exactly one robot is known and an unknown foot or hand side change nothing; reading a parameter that is unknown, of another type, or before initialisation is an error.",
 ["histories", "inputs"],
 "all sequences of commands, before and after initialisation",
 NOBUILD + "Histories of commands.",
 ["src/tools/parameter-server.cpp", "include/sot/core/parameter-server.hh"],
 [("parameter maps", "src/tools/parameter-server.cpp")],
 ["commands and robot description"])

prop("L06", "Trajectory text is parsed into exactly the data it spells",
 "Reading a well-formed trajectory text (header, joint names, then points made of positions, velocities, accelerations and efforts written in fixed decimal notation, at least one joint) yields exactly its sequence number, time stamp (whole seconds and nanoseconds), frame, joint names and every value of every point, in order, replacing what the trajectory held before; a copy equals the original, and displaying lists every joint name and value at the precision of the stream. Reading text that is not a trajectory ends without harm.",
 ["inputs"],
 "all trajectories of any length, joint count and value; all mutations of their texts",
 NOBUILD + "One sample trajectory is tested upstream.",
 ["src/tools/trajectory.cpp", "include/sot/core/trajectory.hh"],
 [("parser", "src/tools/trajectory.cpp")],
 ["parsed structure"])

prop("L07", "Trajectory playback emits every point once, in order, then holds",
 "Each new time consumes one point, whichever outputs are read and in whatever order: the points of the trajectories given are played in order, each once (an empty trajectory takes one step and changes nothing), and after the last one it is held. Giving an initial trajectory takes such a step too. A trajectory at the input is queued after those already queued when its time stamp is neither zero nor that of the last one queued, or when it is the first one of all. The outputs publish the parts of the current point unmodified: its last five values are the centre of mass (three) and the zero-moment point (two, at height -0.055), the ones before are the joint position, and the waist is at the first two centre-of-mass values and height 0.65, turned about the vertical by the third; the sequence number is that of its trajectory. A point of fewer than five values changes no part.",
 ["histories"],
 "all sequences of trajectories and steps, at increasing times",
 NOBUILD + "Ordering over histories.",
 ["src/tools/joint-trajectory-entity.cpp", "include/sot/core/joint-trajectory-entity.hh"],
 [("queue", "src/tools/joint-trajectory-entity.cpp")],
 ["output signals"])

prop("L08", "The data reader replays its file row by row",
 "Loading a text file appends its rows: each line, of any length and with or without a final newline, gives the numbers it starts with (in any usual notation, separated by blanks), and a line without any gives no row; an absent file adds nothing. Each new time at which an output is read yields the next row in order, restricted to the selected columns, whichever outputs are read and however often; after the last one it is held. The matrix output is the first rows times columns values of the vector, row by row, at the size last set, and stays as it was when the row is too short. Rewinding restarts from the first row, and clearing empties the data.",
 ["inputs", "histories"],
 "all files, selections, sizes and command and read sequences (no load past the end without rewinding)",
 NOBUILD + "Ordering over histories.",
 ["src/traces/reader.cpp", "include/sot/core/reader.hh"],
 [("data cursor", "src/traces/reader.cpp")],
 ["vector and matrix outputs"])

prop("L09", "The continuous file reader delivers each appended line exactly once",
 "Every complete line (ended by a newline) appended to the followed file after the first poll is delivered exactly once, in order and unchanged, whatever its length (empty lines included) and whatever the batches in which lines are written and polled. Complete lines present at the first poll are skipped. An unfinished line is delivered when it is completed, as one line. A poll answers true exactly when complete lines are waiting, and getting the next line hands back the oldest one not yet handed back.",
 ["histories", "schedules"],
 "all interleavings of appends and polls, all line lengths",
 "The traces test only writes files; the follower is exercised by no test.",
 ["src/debug/contiifstream.cpp", "include/sot/core/contiifstream.hh"],
 [("cursor", "src/debug/contiifstream.cpp loop/next")],
 ["next() results"])

prop("L10", "The stopwatch reports consistent durations and counts",
 "For every named measure, in real-time and in processor-time mode: the total equals the sum of the spans between start and stop or pause, the count is the number of laps (closed by stop), minimum, maximum and last are those of the laps, a lap being the span that stop closes (spans closed by pause count in the total only), and the average is the total over the count. Reset clears one measure or all without touching the others, a switched-off stopwatch measures nothing and asking about an unknown measure is an error; so is measuring before a mode is set. The report shows the same figures, in milliseconds.",
 ["histories"],
 "all sequences of well-paired start, pause and stop, with reset and report, over any names in both clock modes",
 "No test uses the stopwatch.",
 ["src/utils/stop-watch.cpp", "include/sot/core/stop-watch.hh"],
 [("accumulation", "src/utils/stop-watch.cpp")],
 ["get_* accessors and report text"])

prop("L11", "Exceptions carry their code and the exact message they were given",
 "Every exception class reports the code and the message it was constructed with, followed by the printf-formatted arguments when a format is given; the formatted part is limited to 255 characters and longer ones are truncated without overrunning memory. It can be caught as the common base, gives its own class name, and prints name, code and message.",
 ["inputs"],
 "all classes, codes, messages and format arguments of any length",
 "No test constructs them with formats or long messages.",
 ["include/sot/core/exception-abstract.hh", "src/exception/exception-abstract.cpp", "src/exception/exception-task.cpp", "src/exception/exception-feature.cpp", "src/exception/exception-factory.cpp", "src/exception/exception-signal.cpp", "src/exception/exception-dynamic.cpp", "src/exception/exception-tools.cpp"],
 [("formatting", "src/exception/exception-*.cpp")],
 ["getCode, getStringMessage, getExceptionName, stream operator"])

prop("L12", "The debug trace writes what it is given, at enabled levels only",
 "Trace output goes to the configured stream exactly when the requested level does not exceed the verbosity level (of the trace object and of the compilation unit), after any pending prefix, and formatted messages are complete up to 511 characters and truncated beyond. The in and out marks and location macros write their documented prefix, trace arguments are evaluated only when traced, a trace opened on a file writes there until closed, and code compiled with traces off writes and evaluates nothing.",
 ["inputs", "configurations"],
 "all levels, messages and formats",
 "The traces test only opens files.",
 ["src/debug/debug.cpp", "include/sot/core/debug.hh"],
 [("level filter", "include/sot/core/debug.hh")],
 ["trace stream"])

prop("L13", "Limiters never let a command go beyond the limit",
 "The joint limiter zeroes exactly the controls whose next position (position plus 5 ms of control) would not be strictly within the joint's bounds, passes the others and those of the free flyer, and reports each joint's range. The gripper asks each selected joint to move from its position towards the wanted one by a factor that shrinks by the offset at each step where its torque exceeds its limit in the direction of motion, grows back by it otherwise, and stays between 0 and 1; an offset outside ]0,1[ is refused. The workspace clamp outputs complementary projectors and a reference at the workspace centre whose yaw follows the lateral position; the neck limiter clamps the tilt to its pan-dependent bound and changes nothing else.",
 ["inputs", "histories"],
 "all positions, controls, limits and sequences",
 NOBUILD + "Safety limits over all inputs.",
 ["src/tools/joint-limitator.cpp", "src/tools/gripper-control.cpp", "src/tools/clamp-workspace.cpp", "src/tools/neck-limitation.cpp"],
 [("limits", "each entity's compute function")],
 ["output signals"])

prop("L14", "Reference shapers follow their documented profile",
 "A smooth reach goes from the start value seen at its first step to its goal over the configured number of steps, following its linear, tanh or arctangent profile, staying between the two and remaining at the goal afterwards, whatever the start input does meanwhile; periodic motions are constants, sines or cosines of their period, phase and amplitude, and repeat with their period; the centre-of-mass freezer follows its input while the pattern generator runs and for 200 steps after it stops (or after its first step), then holds the last value followed; the binary converter gives one exactly for non-negative inputs.",
 ["inputs", "histories"],
 "all start and goal values, durations, modes and step sequences",
 NOBUILD + "Profiles over histories.",
 ["src/tools/smooth-reach.cpp", "src/tools/com-freezer.cpp", "src/tools/motion-period.cpp", "src/tools/binary-int-to-uint.cpp"],
 [("profiles", "each entity's compute function")],
 ["output signals"])

prop("L15", "Low-level control laws compute their formula within saturation",
 "The PD controller outputs position gain times position error plus velocity gain times velocity error; the computed-torque controller outputs inertia matrix times acceleration plus gravity; the force-control admittance, at each refreshed step, adds dt times its proportional gain times (wanted minus measured force expressed in the world frame by the sensor pose) minus its derivative gain times its state to the state, clamps each component to plus or minus its saturation and outputs that state moved to the operational frame. It gives nothing before initialisation, and initialising or resetting zeroes the state. Every output follows the refresh of any single input.",
 ["inputs", "histories"],
 "all gains, measurements, references and sequences",
 NOBUILD + "Formulas over all inputs, saturation over histories.",
 ["src/control/control-pd.cpp", "src/control/control-gr.cpp", "src/control/admittance-control-op-point.cpp"],
 [("laws", "src/control")],
 ["control outputs"])

prop("L16", "Operational-point shifting moves pose and Jacobian consistently",
 "Modifying an operational point by a constant transformation (none until one is set) outputs the composed pose, and the Jacobian it outputs maps every control to the velocity of the shifted point that rigid-body motion gives, in the shifted frame for an end effector and in world orientation otherwise; both follow the refresh of the pose or of the Jacobian alone. Projecting a point into a camera gives the image coordinates and depth of the point expressed in the camera frame.",
 ["inputs"],
 "all poses, transformations, Jacobians and points in front of the camera",
 NOBUILD + "Rigid-body identity over all inputs.",
 ["src/math/op-point-modifier.cpp", "src/feature/visual-point-projecter.cpp"],
 [("transport", "src/math/op-point-modifier.cpp"), ("projection", "src/feature/visual-point-projecter.cpp")],
 ["output signals"])

prop("L17", "Periodic calls evaluate each signal at its own rate",
 "Each registered signal (period at least 1, times not negative) is evaluated exactly at the steps that are multiples of its period and never otherwise, in name order; one registered to be triggered once runs at the next step and is then forgotten; registering under the same name replaces; removing a signal stops it, clearing stops all, and the name listing reports those registered. Naming an unknown entity is an error.",
 ["histories"],
 "all registrations, periods and step sequences",
 NOBUILD + "Rates over histories.",
 ["src/tools/periodic-call.cpp", "src/tools/periodic-call-entity.cpp"],
 [("downsampling", "src/tools/periodic-call.cpp run")],
 ["evaluation log"])

prop("L18", "The registry of tasks and features holds exactly the live objects",
 "A task or feature is found under its name from construction to destruction and not outside that span; a second object of the same name is refused and leaves the first registered, a construction that fails leaves nothing behind, a name is reusable after destruction, and looking up an unknown name is an error. The written graph lists the live tasks.",
 ["histories"],
 "all sequences of creation, destruction and lookup",
 NOBUILD + "Over histories of creations and destructions.",
 ["src/factory/pool.cpp", "include/sot/core/pool.hh"],
 [("registry", "src/factory/pool.cpp")],
 ["lookups and listing"])

prop("L19", "Clock blocks report the true time and durations",
 "The time stamp's time signal gives the clock's seconds and microseconds at each access, and its double form the same in milliseconds; the synchro forms read the clock once per time of the graph and hold that reading until another time is asked. A timer passes its input through unchanged, evaluates it at most once per time, at that time, and reports on its timer signal, in milliseconds, the wall-clock time (sout) or processor time (clockSout) that this evaluation took, zero before the first; the chrono command reports the elapsed time likewise.",
 ["inputs", "histories"],
 "all clock readings, including second boundaries, evaluation times and access orders",
 NOBUILD + "Clock values cannot be fixed by a unit test.",
 ["src/tools/timer.cpp", "src/tools/time-stamp.cpp", "include/sot/core/timer.hh", "include/sot/core/time-stamp.hh"],
 [("clock", "src/tools/time-stamp.cpp getTimeStamp"), ("duration", "include/sot/core/timer.hh compute")],
 ["time and timer signals"])

prop("L20", "The loader runs exactly one controller, only while started",
 "The loader takes the controller library's name from its options (--sot-dynamic-library, else --input-file; --help and no name return -1 and change nothing, unknown options are an error) or from a call. Initialization opens it, creates one controller and prepares Python (PYTHONPATH entries on the path, arguments, numpy), or returns false, having created none, if the file or the symbol is missing. An iteration hands the caller's maps to the controller's sensors and then control, once each, only while started; an exception raised inside reaches the caller unchanged, and no control is computed after failed sensors. Python commands and files give back result, output and error, and a device handed over is found there by its name. Clean-up and destruction destroy the controller once and only then close the library, empty the pool, and leave the device alive.",
 ["histories", "faults"],
 "all sequences of options, initializations with missing files or symbols, start, stop, iterations (throwing or not), Python calls, device hand-over and clean-up",
 "The upstream loader tests cannot be built here and follow one path each.",
 ["src/tools/sot-loader.cpp", "include/sot/core/sot-loader.hh", "include/sot/core/abstract-sot-external-interface.hh"],
 [("life cycle", "src/tools/sot-loader.cpp initialization, cleanUp"), ("iteration", "src/tools/sot-loader.cpp oneIteration"), ("options", "src/tools/sot-loader.cpp parseOptions")],
 ["calls into the controller library and dynamic linker, caught exceptions, Python state"])

prop("L21", "Blocks that are not configured fail cleanly and keep nothing",
 "Every block of the library is created by its class name under any unused name, answers with that class, and offers all its signals and all its documented commands with their parameter types; a name in use is refused without disturbing its holder. Before its inputs are connected or it is initialised, reading an output, giving a command with arguments in its range, or displaying the block gives a value or raises an exception: nothing outside its memory is touched, and what it answers never depends on what memory held before (coefficient ranks or removals a filter does not have are refused; a device shows the identity attitude before its first step). Reads refused for want of an input leave no trace: connected afterwards, the block gives the values of a fresh one. Whatever was done with it, a destroyed block frees its name and all the memory it took.",
 ["configurations", "histories"],
 "all block classes, and all sequences of reads, commands, displays and connections before a block is configured",
 "Upstream tests create few of the 131 classes and use each only once it is configured.",
 ["src/filters/filter-differentiator.cpp", "include/sot/core/fir-filter.hh", "include/sot/core/integrator-abstract.hh", "include/sot/core/derivator.hh", "src/matrix/operator.cpp", "src/feature/feature-task.cpp", "src/tools/clamp-workspace.cpp", "src/tools/robot-simu.cpp", "src/tools/device.cpp", "src/matrix/double-constant.cpp", "src/matrix/vector-to-rotation.cpp"],
 [("registration by class name", "each source file of a block, DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN and the macros of src/matrix/operator.cpp"), ("signals and commands", "the constructors of the blocks: signalRegistration, addCommand"), ("state before configuration", "the constructors and compute functions of the blocks")],
 ["outputs and exceptions of two instances in differently filled memory, the registry of blocks, allocated bytes"])

prop("L22", "Outputs always follow the current inputs, whichever changed",
"Whenever an output of a block is read at a new time, it is the value for the inputs as they are then, whichever of them changed since the block was last read and whichever outputs were read in between: a connected block never serves a value of an input that has been replaced. Reading an output again at the same time gives the same answer and advances nothing. Blocks without a history (operators, conversions, features with and without a reference, tasks with their features, gains, the stack of tasks, limiters, low-level control laws) answer exactly as a fresh block given only the current inputs; blocks with a history (filters, integrators, estimators, admittance) advance exactly as their twin does whose inputs are all given again. The variance of a Kalman filter advances when its model or noise is refreshed, the finite difference of a task when its error is.",
["inputs", "configurations", "histories"],
"all block classes with inputs and outputs, all sequences of input changes and partial reads",
"Staleness shows only when one particular input changes while the others are held and a particular subset of outputs is read; tests refresh everything or read once.",
["src/feature/feature-joint-limits.cpp", "src/feature/feature-1d.cpp", "src/feature/feature-generic.cpp", "src/feature/feature-posture.cpp", "src/feature/feature-point6d.cpp", "src/feature/feature-point6d-relative.cpp", "src/feature/feature-vector3.cpp", "src/feature/feature-line-distance.cpp", "src/feature/feature-visual-point.cpp", "src/task/task.cpp", "src/task/task-pd.cpp", "src/task/task-unilateral.cpp", "src/sot/sot.cpp", "src/control/control-pd.cpp", "src/control/control-gr.cpp", "src/tools/gripper-control.cpp", "src/tools/joint-limitator.cpp", "src/math/op-point-modifier.cpp", "include/sot/core/variadic-op.hh", "include/sot/core/binary-op.hh", "include/sot/core/unary-op.hh", "src/feature/visual-point-projecter.cpp", "src/tools/clamp-workspace.cpp"],
[("dependencies between signals", "the constructors of the blocks: SignalTimeDependent with its list of inputs, addDependency"), ("dependencies on what is added later", "Task::addFeature, Sot::push, FeatureAbstract::setReference, VariadicAbstract::addSignal")],
["outputs of a block whose inputs change one at a time, against a fresh block or a twin whose inputs are all given again"])

prop("L23", "Written graphs are well formed and show exactly the structure",
 "The text that the registry, the stack of tasks, the tasks and the features write to describe themselves is a well-formed graph description, whatever the objects and the file are called (names without quotes) and wherever the file is: the registry's file is one complete graph named after the file, with every live task once, labelled with its name; together the stack, the tasks and the features give one edge between each task and the next lower one, in the order of the stack, one from each feature to each task that contains it, one from each reference to its feature, a node for each task of the stack, and nothing else.",
 ["inputs", "histories"],
 "all names and paths, all edited stacks, tasks and features",
 NOBUILD + "Graph files are checked by no test; a malformed one shows only when somebody opens it.",
 ["src/factory/pool.cpp", "src/sot/sot.cpp", "src/task/task.cpp", "src/feature/feature-abstract.cpp"],
 [("registry file", "PoolStorage::writeGraph"), ("structure", "Sot::writeGraph, Task::writeGraph, FeatureAbstract::writeGraph")],
 ["the text written, parsed"])

# ----------------------------------------------------------------- python
prop("P01", "Python matrix helpers convert poses consistently",
 "The Python helpers agree on what a pose means: rpy2tr and RPYToMatrix give the rotation Rz(yaw) Ry(pitch) Rx(roll) with the given position, matrixToRPY gives back angles that denote the same rotation (within the helpers' own tolerance next to vertical pitch) and the same angles when they are unique, and tr2rpy lists them yaw first. rotate builds the elementary rotation about the named axis, quaternionToMatrix (x, y, z, w) the rotation of a unit quaternion, distVector(M2, M1) is the position of M1 minus that of M2, tuple conversions lose nothing for arrays, rows and columns, and generateOrthonormalM returns a rotation matrix whose first column is the normalised argument.",
 ["inputs"],
 "all poses including singular pitch, all vectors and matrices",
 "The five existing cases check a handful of fixed values.",
 ["src/dynamic_graph/sot/core/matrix_util.py"],
 [("conversions", "src/dynamic_graph/sot/core/matrix_util.py")],
 ["return values"])

prop("P02", "The event calendar runs each action at its time and only then",
 "At each run at a time, the calendar first calls every permanent action still registered, in registration order, then, if actions are registered for that time, the pings, then those actions in registration order; each gets the arguments of the run and each is called exactly once, and actions of other times are not called. All accepted registration forms (function, function and text, pairs, several at once, decorator) mean the same. A stopped permanent action is never called again and stopping one does not make another miss a step (an action may stop itself); stopping an unknown action is an error. fastForward(t) does the runs 0 to t in order. Actions run for a time are announced with it and their text, and the listing shows times in increasing order with their texts.",
 ["histories"],
 "all sequences of registrations, removals and runs",
 "No test imports it.",
 ["src/dynamic_graph/sot/core/utils/attime.py"],
 [("calendar", "src/dynamic_graph/sot/core/utils/attime.py")],
 ["call log"])

prop("P03", "Recorded history round-trips and stays aligned",
 "The history recorder keeps one sample (position, velocity and, when the robot has a waist and a zero-moment-point signal is given, that point in the waist frame) at each record call whose step is a multiple of the configured period, and none otherwise. When every step from zero on was recorded, restoring at a time prints the position and velocity of the sample in force then and the time of that sample. The dump writes one row per sample, at steps of 5 ms, with joints 6 to 35 and ten zeros, waist angles, waist pose and zero-moment point, plus the first posture in degrees, and reads back as the same values.",
 ["histories", "inputs"],
 "all sequences of record steps and values",
 "No test imports it.",
 ["src/dynamic_graph/sot/core/utils/history.py"],
 [("recording", "src/dynamic_graph/sot/core/utils/history.py")],
 ["recorded lists and files"])

prop("P04", "The interruptible loop starts, pauses, steps and stops as commanded",
 "The loop thread runs its step repeatedly while playing, not at all while paused (after at most the step already under way or decided), exactly once per single-step command given while idle, and goes on when play is commanded during a single step. Quit ends the thread after the step under way. The same holds for commands issued while the thread is only starting. Steps run in one thread, never overlap, always complete, and the iteration count is the number of completed steps. The shortcuts play, pause and run by hand exactly the number of steps asked.",
 ["schedules", "histories"],
 "all interleavings of play, pause, single step and quit with the running loop (single steps issued while idle)",
 "No test imports it.",
 ["src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py"],
 [("loop", "src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py")],
 ["step log"])

prop("P05", "Meta-task helpers wire signals and targets as documented",
 "The Python task helpers create, wire and configure their feature, task, gain, reference and shift so that the chosen body is driven to the requested target: the feature is pushed once and reads the point (or the shifted point while a shift is on, and only then), the gain reads the task error and feeds the task, operational points are created only when missing. Gains in every accepted form, poses given as position, matrix or position with roll-pitch-yaw, posture targets by limb and by full posture, image points and relative poses reach the right inputs, with the right selection, for several tasks and robots at once. The position feature wrappers expose the right signals of the right features.",
 ["inputs", "configurations", "histories"],
 "all accepted argument forms",
 "No test imports them.",
 ["src/dynamic_graph/sot/core/meta_tasks.py", "src/dynamic_graph/sot/core/meta_task_6d.py", "src/dynamic_graph/sot/core/meta_task_posture.py", "src/dynamic_graph/sot/core/meta_task_visual_point.py", "src/dynamic_graph/sot/core/meta_tasks_kine_relative.py", "src/dynamic_graph/sot/core/feature_position.py", "src/dynamic_graph/sot/core/feature_position_relative.py"],
 [("helpers", "src/dynamic_graph/sot/core")],
 ["recorded wiring on stand-in entities"])

prop("P06", "Viewer helpers show each new robot state once and log it faithfully",
 "Once a viewer is attached to a robot (alone or next to others of its class, once or again), each increment, set or refresh changes the robot exactly once and then shows its full state exactly once, under the display name of that robot (hrp for robots named robot or robot_device, the robot's own name otherwise) and with the configured number of extra zeros, and then calls each display callback once in order. Without a reachable viewer the robot works and nothing is shown. The logging viewer forwards every element unchanged and appends one row per element with the time of the state, in the element's own file, removing earlier logs only.",
 ["inputs", "histories", "configurations"],
 "all robots, states, options and sequences of display operations",
 "No test imports them.",
 ["src/dynamic_graph/sot/core/utils/viewer_helper.py", "src/dynamic_graph/sot/core/utils/viewer_loger.py"],
 [("display", "src/dynamic_graph/sot/core/utils/viewer_helper.py refreshView/incrementView/setView"), ("log", "src/dynamic_graph/sot/core/utils/viewer_loger.py")],
 ["display calls and rows"])
