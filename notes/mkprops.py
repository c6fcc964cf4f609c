import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],**({'observe_at':observe} if observe else {}),**({'state':state} if state else {}),hook_needed=None)))
NT="The baseline suite does not build or execute this code at all; a unit test could only sample a handful of "
p("C01","Causal filter realises its difference equation on every sample",
 "For every pair of numerator/denominator coefficient sequences with non-zero leading denominator coefficient, and for every input stream, the k-th filter output y satisfies a0*y[k] = sum_i b_i*u[k-i] - sum_{j>=1} a_j*y[k-j], component by component, where samples older than the first one are the first input (for u) and its steady-state image (for y). The reported first and second derivatives are the backward differences of the outputs divided by the timestep. Switching to other coefficients keeps the filter well formed and restarts it from a steady state built from the most recent input.",
 ["inputs","histories"],"all signal dimensions, filter orders, coefficients, timesteps and all histories of update/switch calls",
 "The only related test is not built here and checks one short signal; circular-buffer errors appear only once the indices wrap for particular pairs of orders.",
 ["src/filters/causal-filter.cpp","include/sot/core/causal-filter.hh"],
 [("circular buffers of past inputs/outputs and their write positions","src/filters/causal-filter.cpp CausalFilter::get_x_dx_ddx"),("re-initialisation","src/filters/causal-filter.cpp CausalFilter::switch_filter")],["returned (x, dx, ddx)"])
p("C02","Stopwatch statistics describe exactly the recorded intervals",
 "For every history of start, pause, stop and reset on named performances, a performance's stop count, last, minimum, maximum, total and average times are exactly those of the intervals recorded for that name since its last reset, and other names are unaffected. While the stopwatch is disabled no operation changes anything. Asking about (or stopping) a name that does not exist raises the stopwatch exception instead of inventing data.",
 ["histories","inputs"],"all call histories, all names, all clock readings (including equal readings) and both clock modes",
 "No test exercises the stopwatch; which of min/max/first-sample handling is wrong depends on the order of durations.",
 ["src/utils/stop-watch.cpp","include/sot/core/stop-watch.hh"],
 [("per-name record map","include/sot/core/stop-watch.hh Stopwatch::PerformanceData"),("start/stop/pause/reset","src/utils/stop-watch.cpp")],["get_*_time, get_time_so_far, performance_exists"])
p("C03","Exceptions keep their code and their full message",
 "Every exception class of the library reports the numeric code it was built with and exactly the message it was built with; when built with a printf-style format, the message is the given text followed by the formatted arguments. The text streamed for an exception contains its class name, its code and that message. The error-code ranges of the different exception classes are disjoint, so a code identifies its family.",
 ["inputs"],"all codes, messages, and formatted arguments (below the documented formatting buffer size)",
 "No test constructs these exceptions; catching them only by type hides a lost code or message.",
 ["src/exception/exception-abstract.cpp","include/sot/core/exception-abstract.hh","src/exception/exception-task.cpp","src/exception/exception-feature.cpp","src/exception/exception-dynamic.cpp","src/exception/exception-factory.cpp","src/exception/exception-signal.cpp","src/exception/exception-tools.cpp"],
 [("constructors store code and message","src/exception/*.cpp"),("code enumerations","include/sot/core/exception-*.hh")],["getCode, getMessage, what, operator<<"])
p("C04","Python pose utilities agree on one rotation convention",
 "For every roll/pitch/yaw triple, axis/angle and unit quaternion, the matrices built by the pose utilities are proper rotations (or rigid transforms with bottom row 0 0 0 1), and building a rotation from roll-pitch-yaw equals composing the three elementary rotations yaw*pitch*roll. Extracting the angles from a rotation matrix away from the gimbal singularity and rebuilding gives the same matrix. The tuple conversions keep every entry at its place and the distance function returns, component by component, the difference of the two translations (second argument minus first). Completing a vector to an orthonormal basis gives orthonormal columns, the first along the vector.",
 ["inputs"],"all real angles, all quaternions, all matrices and vector sizes",
 "The Python test checks a single matrix to two decimals; sign and order errors vanish at zero or symmetric angles.",
 ["src/dynamic_graph/sot/core/matrix_util.py"],
 [("rotation constructors and inverses","src/dynamic_graph/sot/core/matrix_util.py")])
p("C05","Selection flags form a boolean algebra over all indices",
 "A flag set answers every non-negative index, including those beyond the stored prefix; and, or, negation (and their assigning forms) act index by index on the whole infinite sequence; setting or unsetting one index changes that index only. The set tests true as a whole exactly when at least one index, stored or beyond, is set.",
 ["inputs","histories"],"all flag sets of any stored lengths and tail value, all indices",
 NT+"short flag strings of equal length, while the failures sit at operands of different stored lengths and in the infinite tail.",
 ["src/sot/flags.cpp","include/sot/core/flags.hh"],
 [("stored prefix plus tail value","include/sot/core/flags.hh"),("operators","src/sot/flags.cpp")])
p("C06","A task stacks its features' errors and Jacobians in order",
 "For every list of features of any dimensions, a task's error is the concatenation, in feature-list order, of the features' errors, its error derivative the concatenation of the features' error derivatives, and its Jacobian the row concatenation of the features' Jacobians; nothing is dropped, duplicated or left from an earlier evaluation. A task without features refuses to compute. Jacobians with different column counts are refused rather than mixed.",
 ["inputs","histories"],"all numbers of features, all feature dimensions and values, and any previous content of the output buffers",
 NT+"feature lists; the cursor and resizing logic fails only for particular size sequences.",
 ["src/task/task.cpp","include/sot/core/task.hh"],
 [("cursor based concatenation with growth","src/task/task.cpp computeError/computeErrorTimeDerivative/computeJacobian")])
p("C07","Task control references follow their control law",
 "A task's desired velocity is minus gain times error, minus the error's time derivative when that derivative is requested. The proportional-derivative task adds minus its gain times the finite-difference error rate, and the unilateral task returns per-component bounds equal to (reference bound minus position) divided by the time step.",
 ["inputs","histories"],"all error dimensions and values, all gains and time steps, all evaluation histories",
 NT+"vectors; wrong signs or stale previous errors need specific histories.",
 ["src/task/task.cpp","src/task/task-pd.cpp","src/task/task-unilateral.cpp"],
 [("computeTaskExponentialDecrease","src/task/task.cpp"),("errorDot / computeTaskModif","src/task/task-pd.cpp"),("computeTaskUnilateral","src/task/task-unilateral.cpp")])
p("C08","The stack of tasks keeps priorities exactly as commanded",
 "The stack behaves as an ordered list: push appends at lowest priority, pop removes and returns the lowest, remove deletes the named task only, up/down exchange it with its immediate neighbour and do nothing at the ends, clear empties it, and membership answers truthfully; all other tasks keep their relative order. Unknown tasks leave the stack unchanged, and pushing before the problem size is known is refused. The push, remove, up, down and clear commands perform these operations on the task of the given name, and the control output depends on a task's signals from the moment it is pushed until it leaves.",
 ["histories","inputs"],"all stacks of any length and all sequences of stack operations",
 NT+"operation sequences; iterator-order mistakes show only for tasks at interior or extreme positions.",
 ["src/sot/sot.cpp","include/sot/core/sot.hh"],
 [("std::list of tasks and its operations","src/sot/sot.cpp push/pop/exist/remove/up/down/clear")])
p("C09","The solver adds each task's contribution within what higher priorities leave",
 "The control starts from the initial velocity supplied from outside (zero without one; one of the wrong length is refused, and so is an empty stack without one). Each task, in order, adds the contribution that brings its reference closest along the directions left by the tasks before it (all of them, or the span of an initial projector of the right size, for the first), given the control so far and the joints the task may use; singular values up to the threshold are ignored. A contribution whose squared norm exceeds the limit is discarded as a whole, and only it: the later tasks then keep the directions and the control they would have had without that task. With the posture acceleration, a last task of one posture feature covering every joint is applied directly along the directions left (without that limit). References are taken component by component and refused when some component is a double bound. All this holds whatever sizes the tasks and the robot had earlier.",
 ["inputs","configurations","histories"],"all stacks, reference lengths and bound kinds, all Jacobian sizes and values, ranks, kernel bases, limits and control selections, all earlier sizes",
 NT+"stacks; the arithmetic has to be right for all sizes, and a discarded or degenerate task shows only in the tasks after it.",
 ["src/sot/sot.cpp","include/sot/core/memory-task-sot.hh"],
 [("taskVectorToMlVector, updateControl, getMemory, computeControlLaw, computeJacobianActivated, isFullPostureTask","src/sot/sot.cpp")])
p("C10","Gain laws interpolate between their prescribed limits",
 "The adaptive gain equals the prescribed value at zero error, tends monotonically to the prescribed value at infinity with the prescribed slope at zero, and passes through the requested point when configured by a passing point; the hyperbolic gain follows its tanh law with the same end values. A configuration with a single value yields that constant gain whatever the error, and every gain stays between its two limits.",
 ["inputs","configurations"],"all limit values, slopes, passing points and error vectors",
 NT+"parameter triples at which several wrong laws coincide.",
 ["src/task/gain-adaptive.cpp","src/task/gain-hyperbolic.cpp"],
 [("init, computeGain","src/task/gain-adaptive.cpp"),("init, computeGain","src/task/gain-hyperbolic.cpp")])
p("C11","The simulated device integrates controls inside its bounds",
 "With safety checks enabled, a control that would take a joint outside the position bounds that were set is stopped at the bound, whatever the control mode; the velocity applied under velocity control, and the velocity reached under acceleration control, are clamped to the velocity bounds that were set; joints inside their bounds move by exactly their velocity (plus half the acceleration times the step) times the time step, a control shorter than the state drives the last degrees of freedom and one of its size also moves the free flyer as a rigid body. A control containing NaN leaves state and velocity untouched. Setters refuse bounds whose size does not match, and refuse states or checks whose bounds are missing for the control mode, and leave the device unchanged; an unknown control type changes nothing; setting the root places the free flyer at the given pose and moves no joint. Each period integrates the control computed for that period exactly once and reports the new state at the next instant, whatever the periodic calls do.",
 ["inputs","histories","configurations"],"all state sizes, bounds, control modes and control histories",
 NT+"trajectories; saturation faults need a joint exactly past one bound in one mode.",
 ["src/tools/device.cpp","include/sot/core/device.hh"],
 [("integrate, saturateBounds, integrateRollPitchYaw, increment","src/tools/device.cpp"),("set*Bounds, setState, setSanityCheck, setRoot, setControlInputType","src/tools/device.cpp")])
p("C12","Selection and stacking operators pick exactly the requested entries",
 "Vector, matrix, column and component selectors return exactly the requested entries in the requested order, stacking returns the selected part of the first operand followed by the selected part of the second, the mixing operator replaces exactly the configured segments, and transposition, diagonal and constant operators place every entry where it belongs. A selection inside the operand reads and writes nothing outside the operand and the result; a mixing request naming an input that does not exist is refused.",
 ["inputs","configurations"],"all operand sizes, all selection ranges and lists",
 "The repository's operator tests are not built here and use fixed small sizes.",
 ["src/matrix/operator.hh","src/matrix/operator.cpp"],
 [("VectorSelecter, MatrixSelector, MatrixColumnSelector, VectorComponent, VectorStack, Diagonalizer, MatrixTranspose","src/matrix/operator.hh"),("VectorMix","src/matrix/operator.cpp")])
p("C13","Pose conversions are mutually inverse and orientation preserving",
 "Conversions between homogeneous matrices, rotation matrices, roll-pitch-yaw, quaternions, pose vectors and twists all describe the same rigid motion: composing a conversion with its inverse is the identity, and all of them agree on one angle convention. The twist matrix built from a pose is [R, [t]x R; 0, R], the cross-product matrix built from a vector multiplies like the cross product and converts back to the same vector.",
 ["inputs"],"all rigid transforms, unit quaternions, angles and vectors",
 "The repository's test of these functions is not built here and samples two poses.",
 ["src/matrix/operator.hh","include/sot/core/matrix-geometry.hh"],
 [("conversion operators","src/matrix/operator.hh"),("buildFrom","include/sot/core/matrix-geometry.hh")])
p("C14","Temporal filters compute their defining recurrences",
 "After any input history, the finite-impulse-response filter returns the sum of its coefficients times the most recent inputs (fewer while it fills), the exponential average returns alpha times its last average plus (1-alpha) times the input, and the derivator returns the difference of the last two inputs divided by the time step (zero on its first evaluation). The circular buffer always presents the most recent elements in order, newest first, whatever its capacity.",
 ["histories","inputs"],"all buffer capacities, coefficient lists and input histories",
 NT+"histories shorter than one wrap of the buffer.",
 ["include/sot/core/fir-filter.hh","src/tools/exp-moving-avg.cpp","include/sot/core/derivator.hh"],
 [("circular_buffer and FIRFilter::compute","include/sot/core/fir-filter.hh"),("ExpMovingAvg::update","src/tools/exp-moving-avg.cpp"),("Derivator::computeDerivation","include/sot/core/derivator.hh")])
p("C15","The task-sequence of timed events fires every event exactly on time",
 "Events registered for an instant fire when, and only when, the sequencer is running and its clock relative to its start reaches that instant, in the order they were registered and on the sequencer's stack of tasks. Removing an event removes one matching entry and keeps all others; clearing removes them all. The events that add or remove a task push it on, or remove it from, that stack when both exist.",
 ["histories"],"all schedules, event names, start times and trigger histories",
 NT+"schedules.",
 ["src/tools/sequencer.cpp","include/sot/core/sequencer.hh"],
 [("addTask, rmTask, clearAll, trigger","src/tools/sequencer.cpp")])
p("C16","Periodic calls refresh each signal at its own rate",
 "A registered signal is recomputed at iteration t exactly when t is a multiple of its downsampling factor (factor one when none is given), each registered name refers to one signal and one factor (the last registered under it, given directly or by its path), and removing a name affects that name only. Registering a factor of zero has no effect other than its rejection. The trigger refreshes the signals that are due; the one-shot trigger does so and then clears the registrations.",
 ["histories","inputs"],"all sets of registered signals, factors and iteration numbers",
 NT+"iterations.",
 ["src/tools/periodic-call.cpp","include/sot/core/periodic-call.hh"],
 [("addSignal, addDownsampledSignal, rmSignal, clear, runSignals","src/tools/periodic-call.cpp"),("trigerCall, trigerOnceCall","src/tools/periodic-call-entity.cpp")])
p("C17","Discrete signal blocks latch, switch and detect exactly",
 "The latch output is the value set by the last on or off command (false before any), however it was given; the switch returns precisely the selected input and refuses an index that does not exist; the sign converter returns 0 exactly for negative inputs; the boolean and/or operators and vector comparisons return the logical result over all their inputs.",
 ["inputs","histories"],"all numbers of inputs, selections and command histories",
 NT+"inputs.",
 ["include/sot/core/latch.hh","include/sot/core/switch.hh","src/tools/binary-int-to-uint.cpp","src/matrix/operator.hh"],
 [("turnOn, turnOff, latchOutput","include/sot/core/latch.hh"),("signal","include/sot/core/switch.hh"),("computeOutput","src/tools/binary-int-to-uint.cpp"),("BoolOp, Comparison, MatrixComparison","src/matrix/operator.hh")])
p("C18","Pose features report the selected components of the relative pose",
 "The six-dimensional point feature's error consists of the selected translation components and rotation-vector components of the pose of reference relative to current (or the converse, according to the chosen frame), in index order, and its dimension is the number of selected components. Its Jacobian has exactly the selected rows of the interaction matrix applied to the point's Jacobian, in the same order; its error rate has the selected rows of the derivative of that error as the reference moves; and an unknown computation frame is refused. The pose feature (in its R3xSO3 and SE3 forms) computes the pose of frame b in frame a from the poses of the two joints and of the frames in them, and its error, Jacobian (of both joints, or of joint b alone) and error rate have exactly the selected rows of the difference between current and desired pose and of its derivatives, in the same order. Keeping the current position makes the desired pose the current one.",
 ["inputs","configurations"],"all poses, all 64 selections, both computation frames and both representations, with and without reference, desired velocity and moving first joint",
 NT+"selections; a misplaced row cursor shows only for particular selections.",
 ["src/feature/feature-point6d.cpp","include/sot/core/feature-pose.hxx"],
 [("computeError, computeJacobian, getDimension, computeErrordot, inverseJacobianRodrigues","src/feature/feature-point6d.cpp"),("computefaMfb, computeQfaMfb, computeError, computeJacobian, computeErrorDot, servoCurrentPosition","include/sot/core/feature-pose.hxx")])
p("C19","Vector features expose exactly their selected components",
 "For the generic, posture, joint-limit, scalar and 3D-vector features, the error contains the selected components of (current minus reference), or their normalised joint range position, in index order and nothing else; the dimension equals the number of selected components; and the Jacobian rows correspond one-to-one to the error components. A reference that lacks a selected component is refused, and the error rate contains minus the selected components of the reference's rate, in the same order. Selecting and deselecting posture joints keeps the count of active joints equal to the number selected and the Jacobian a row selection of the identity.",
 ["inputs","configurations","histories"],"all feature sizes, selections, values, and select/deselect histories",
 NT+"selections and sizes.",
 ["src/feature/feature-generic.cpp","src/feature/feature-posture.cpp","src/feature/feature-joint-limits.cpp","src/feature/feature-1d.cpp","src/feature/feature-vector3.cpp"],
 [("computeError/computeJacobian/getDimension","src/feature/feature-*.cpp"),("selectDof","src/feature/feature-posture.cpp")])
p("C20","A bound value is either single or double and never confuses the two",
 "A multi-bound created with one value is single and returns that value; one created with two values is double and returns the lower and upper values it was given; one created with a single-sided bound reports only that side as set. Asking a bound for something it does not hold raises the task exception, and setters switch the mode so that later queries agree with the last assignment.",
 ["inputs","histories"],"all values and all sequences of setter calls",
 NT+"call sequences.",
 ["src/task/multi-bound.cpp","include/sot/core/multi-bound.hh"],
 [("mode and setup flags","include/sot/core/multi-bound.hh"),("accessors and setters","src/task/multi-bound.cpp")])
p("C21","Limiters never emit a command beyond the limits they guard",
 "The joint limitator forwards a joint command unchanged when the predicted position stays strictly inside the joint range (or the joint is part of the free-flyer) and zeroes it otherwise; the neck limitation forces the tilt on its side of the piecewise-linear limit and leaves all other joints alone; the gripper control keeps its reduction factor within [0,1], reduces it exactly when torque exceeds its limit in the direction of motion, and applies each joint's own factor to that joint's motion.",
 ["inputs","histories"],"all sizes, positions, limits, torques and histories",
 NT+"points; limit faults sit on one side of one limit.",
 ["src/tools/joint-limitator.cpp","src/tools/neck-limitation.cpp","src/tools/gripper-control.cpp"],
 [("computeControl","src/tools/joint-limitator.cpp"),("computeJointLimitation","src/tools/neck-limitation.cpp"),("computeIncrement, computeDesiredPosition, selector","src/tools/gripper-control.cpp")])
p("C22","The Python calendar runs each registered action exactly at its time",
 "Running the calendar at an iteration executes every action registered for that iteration, in registration order, after the actions registered for every iteration, and no others (the registered pings are called once, between the two, when the iteration has actions); registering an action in any of the accepted forms stores it once under the given time. Fast-forwarding to t runs the iterations 0 to t once each in order.",
 ["histories","inputs"],"all schedules and registration forms",
 "No test imports this module.",
 ["src/dynamic_graph/sot/core/utils/attime.py"],
 [("Calendar.registerEvent(s), run, fastForward","src/dynamic_graph/sot/core/utils/attime.py")])
p("C23","Registries hand back exactly what was registered under a name",
 "The task/feature pool returns for a registered name exactly the object registered under it, refuses to register a name twice without altering the existing entry, and raises an error for unknown names; tasks and features do not share a name space.",
 ["histories"],"all sequences of registrations and look-ups",
 NT+"registrations.",
 ["src/factory/pool.cpp"],
 [("registerTask, getTask, registerFeature, getFeature","src/factory/pool.cpp")])
p("C24","Joint re-ordering and base conversion are mutually inverse",
 "For every permutation between model order and controller order, converting joint positions to controller order and back returns the original vector, joint i going to the position the permutation prescribes; velocity conversion rotates the base velocity by the base orientation and back. Name-to-index tables and their reverse tables agree, limits are returned as stored (lower stays lower), and look-ups of unknown names or indices yield the documented default instead of creating entries.",
 ["inputs","configurations"],"all numbers of joints, permutations, vectors, and name tables",
 "The repository's test of this module is not built here and uses one permutation.",
 ["src/tools/robot-utils.cpp","include/sot/core/robot-utils.hh"],
 [("joints_urdf_to_sot / joints_sot_to_urdf / velocity_* / set_* / get_*","src/tools/robot-utils.cpp")])
p("C25","The Kalman filter applies the textbook update",
 "At every step after initialisation the predicted variance is F P F' + Q, the gain is P H' (H P H' + R)^-1, the updated variance is (I - K H) P, and the state estimate is the prediction plus the gain times the innovation; at the initial instant the configured state and variance are returned unchanged. The variance carried to the next step is the updated one.",
 ["inputs","histories"],"all state/measure dimensions and all matrices with invertible innovation covariance",
 "The repository's Kalman test is not built here and is one numeric example.",
 ["src/tools/kalman.cpp","include/sot/core/kalman.hh"],
 [("computeVarianceUpdate, computeStateUpdate","src/tools/kalman.cpp")])
p("C26","Feedback controllers implement their control law",
 "The PD controller outputs Kp*(desired position - position) + Kd*(desired velocity - velocity) per joint and reports those very errors; the gravity controller outputs mass matrix times acceleration plus gravity; the admittance controller's velocity follows its recurrence and never exceeds its saturation in absolute value; gradient ascent adds learning rate times gradient to its accumulated value starting from zero.",
 ["inputs","histories"],"all sizes, gains, saturations and histories",
 NT+"vectors.",
 ["src/control/control-pd.cpp","src/control/control-gr.cpp","src/control/admittance-control-op-point.cpp","src/tools/gradient-ascent.cpp"],
 [("computeControl","src/control/control-pd.cpp"),("computeControl","src/control/control-gr.cpp"),("w_dq function","src/control/admittance-control-op-point.cpp"),("update","src/tools/gradient-ascent.cpp")])
p("C27","Algebraic signal operators compute their named operation",
 "Addition, subtraction, weighted sum, products of any number of operands in order, normalisation, and applying a pose or rotation to a vector return exactly the result their name announces, with coefficients paired with the right operand. Temporal convolution returns the kernel applied to the most recent inputs.",
 ["inputs","histories","configurations"],"all operand sizes, numbers of operands, coefficients and values",
 "The repository's variadic-operator test is not built here and uses fixed numbers.",
 ["src/matrix/operator.hh","src/matrix/operator.cpp"],
 [("WeightedAdder, AdderVariadic, Multiplier, Composer, Substraction, Multiplier_*","src/matrix/operator.hh"),("ConvolutionTemporal","src/matrix/operator.hh")])
p("C28","The operational-point modifier transports pose and Jacobian rigidly",
 "The modified position is the original pose composed with the configured transformation, and the modified Jacobian is the original one transported by the matching twist, in the end-effector frame or in the world-aligned frame according to the mode, so that position and Jacobian outputs always refer to the same displaced point.",
 ["inputs","configurations"],"all poses, transformations and Jacobians, both modes",
 "The repository's test of this entity is not built here and samples a few poses.",
 ["src/math/op-point-modifier.cpp"],
 [("positionSOUT_function, jacobianSOUT_function","src/math/op-point-modifier.cpp")])
p("C29","Numerical integration follows the recurrence of its transfer function",
 "After initialisation the integrator's successive outputs satisfy the difference equation given by its numerator and denominator coefficients and the time step, for every order; initialisation refuses empty coefficient lists and a leading denominator coefficient other than the identity, and the derivative output is refused when there is none.",
 ["histories","inputs"],"all orders, coefficients and input histories",
 NT+"histories.",
 ["include/sot/core/integrator-euler.hh","include/sot/core/integrator-abstract.hh"],
 [("initialize, integrate","include/sot/core/integrator-euler.hh")])
p("C30","Mailbox readers never see a torn or out-of-date posted object",
 "Whatever the interleaving of a posting thread and a reading thread, a read returns a complete object that was posted, together with its own time stamp, and never an older one than an earlier read returned.",
 ["schedules"],"all interleavings of post and get",
 "Interleavings cannot be enumerated by running the threads once.",
 ["include/sot/core/mailbox.hh","include/sot/core/mailbox.hxx"],
 [("double buffer with a mutex","include/sot/core/mailbox.hxx")])
p("C31","Following a log file delivers every completed line exactly once",
 "From its first reading on (the lines already complete then are skipped), and whatever is appended between two readings - empty lines, lines of any length, lines written in several pieces - the reader of a growing log file queues each newline-terminated line exactly once, whole and in order. A reading tells whether it consumed a line, ready() whether a line is queued, and next() takes the oldest queued line. Opening another file restarts at its beginning.",
 ["fault_sequences","inputs","histories"],"all file contents, all moments of reading and all interleavings of appending, reading, opening and taking lines",
 "No test reads a growing file; the fault shows only for particular line lengths or for a reading that happens between two writes.",
 ["src/debug/contiifstream.cpp","include/sot/core/contiifstream.hh"],
 [("position of the first unread line, queue of lines","src/debug/contiifstream.cpp Contiifstream::loop, next"),("open, ready","include/sot/core/contiifstream.hh")],["ready, next"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+'\n')
print(len(P))
