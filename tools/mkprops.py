#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": hook}})
LS = "dmpbbo/bbo/LearningSession.py"; LT = "dmpbbo/bbo_of_dmps/LearningSessionTask.py"
JC = "dmpbbo/json_for_cpp.py"; SS = "dmpbbo/bbo_of_dmps/step_by_step_optimization.py"
RO = "dmpbbo/bbo/run_optimization.py"; RT = "dmpbbo/bbo_of_dmps/run_optimization_task.py"
UP = "dmpbbo/bbo/updaters.py"; DG = "dmpbbo/bbo/DistributionGaussian.py"; DB = "dmpbbo/bbo/DistributionGaussianBounded.py"
DM = "dmpbbo/dmps/Dmp.py"; DS = "dmpbbo/dynamicalsystems/DynamicalSystem.py"; DW = "dmpbbo/dmps/DmpWithSchedules.py"
FA = "dmpbbo/functionapproximators/FunctionApproximator.py"; TS = "dmpbbo/bbo_of_dmps/TaskSolverDmp.py"
SUBS = ["dmpbbo/dynamicalsystems/%sSystem.py" % n for n in ("Exponential", "Richards", "Sigmoid", "SpringDamper", "Time")]
NOTEST = "No test touches this part of the repository; the only tests compare Python and C++ numbers for fixed inputs. "

prop("S01", "A learning session returns exactly what was stored under each key",
  "The object last stored in a learning session under a name, update number and sample number is what a query for that key returns afterwards, in the same process, in a process that opens the session's directory later, or after exporting an in-memory session to a directory: numbers are bit-identical and the kind of object is preserved (text-stored lists and integers come back as arrays, and a matrix with one column as a vector). "
  "Existence queries are true for exactly the keys stored so far, also for large update and sample numbers, numpy integers as numbers, and the evaluation label. Storing under one key never changes what any other key returns, and overwriting replaces the previous object even if it is of another type.",
  ["histories", "schedules", "inputs"], "Every history of stores, overwrites, queries, existence checks, exports, restarts and re-openings by several processes, for every mix of keys and storable object types.",
  NOTEST + "A test samples a couple of keys in one process; collisions, type-changing overwrites and reloads only show in multi-step histories across restarts.",
  [LS, LT, JC], [("one file per (name, update, sample); cache in front", LS + ": get_base_name, tell, ask, exists, save, save_all, from_dir")],
  [("cache", "objects already told/asked in this process", LS), ("files", "durable copy of each entry", LS + ": save")], ["values returned by ask/exists", "files in the session directory"])
prop("S02", "Objects in a learning session are snapshots",
  "Modifying an object after handing it to a learning session, or modifying an object obtained from it, never changes what later queries return, no matter whether the entry came from memory or from disk. Running an optimization does not modify the initial distribution, task, solver, updater or DMP that the caller passed in.",
  ["histories", "schedules"], "Every history in which told and asked objects are modified in place between any two session operations, in memory-only and directory-backed sessions, fresh and re-opened.",
  NOTEST + "Aliasing shows only when a mutation falls between two particular operations, with a particular cache state.",
  [LS, SS, RO, RT, UP], [("deep copies on tell and ask", LS + ": tell, ask"), ("deep copy of distribution before updating", UP)], [("cache", "private copies", LS)], ["values returned by ask", "caller's objects"])
prop("S03", "Storing is all-or-nothing under crashes and I/O errors",
  "If the process dies, or an I/O operation fails (disk full, I/O error, short write), at any point while an entry is stored, every process that opens the session later finds for that entry either the complete previous object (or nothing if there was none) or the complete new object, never a truncated or mixed one; for a DMP this holds for the Python and the C++ version of its file each. Entries whose store had returned normally are never lost or changed by a later crash or failed store of another entry, and repeating the failed store succeeds once the fault is gone.",
  ["crash_points", "fault_sequences"], "Every file-system operation of every store, every partial write length, every error kind, for all object types (text, csv, json, C++ json), for first stores and overwrites, repeated crashes included.",
  NOTEST + "Tests never kill the process or fail the disk inside a store.",
  [LS, LT, JC], [("write to temporary file, then replace", JC + ": atomic_write, savejson, savejson_for_cpp"), ("save", LS + ": save")], [("files", "durable copy of each entry", LS + ": save")], ["entries read by a fresh process after the crash"])
prop("S04", "Opening and reading a session never disturbs it or sees half an entry",
  "Opening a learning session from its directory and querying it, at any moment of an optimization running in another process, changes no file in the directory, needs no write permission and does not change the outcome of the optimization. Each entry that such an observer reads is a complete object that was stored under that key, or is reported as missing if it was not stored yet.",
  ["schedules"], "Every interleaving (at the level of file operations) of observers with a running store, step-by-step optimization or optimization loop, and with each other.",
  NOTEST + "Depends on the interleaving of two processes.",
  [LS, LT, JC], [("from_dir only reads", LS + ": from_dir"), ("atomic replacement", JC + ": atomic_write")], [("files", "session directory", LS)], ["directory contents before/after", "values returned to the observer"])
prop("O01", "Step-by-step optimization follows the update rule for any rollout schedule",
  "In a step-by-step optimization, in which rollouts are executed by other processes, each update uses exactly the stored distribution, samples and rollout results of that update: the stored cost of each sample is the task's cost of that sample's rollout, the stored weights and new distribution are those of the updater for the total costs of the samples (the evaluation rollout excluded), and the next update starts from that new distribution. "
  "The results are the same whatever the order, delay or repetition of the rollouts, and whether the steps run in one process or in a new process each, for any number of samples and dimensions including one.",
  ["schedules", "histories", "configurations"], "Every order, delay and duplication of rollouts, every split of steps over operator processes, all updaters, search-space sizes and batch sizes.",
  NOTEST + "The outcome depends on the schedule of several processes over several updates.",
  [SS, LT, LS, UP], [("update_step reads its inputs from the session", SS + ": update_step"), ("_generate_samples", SS)], [("update directories", "distribution, samples, costs, weights, new distribution of each update", SS)], ["entries of all updates in the session directory"])
prop("O02", "A crashed optimization step can be repeated without loss",
  "If the process executing a step of a step-by-step optimization crashes or fails with an I/O error at any point, running that step again in a new process completes it with the same costs, weights and new distribution as without the crash, for the same rollout results. No entry of a finished update ever changes, and afterwards the next batch is complete and consistent, so the optimization continues.",
  ["crash_points", "fault_sequences"], "A crash or I/O error at every file operation of a step, repeated crashes during the repetition, then eventually fault-free.",
  NOTEST + "Needs a crash at a particular point in the middle of a step.",
  [SS, LS, LT, JC], [("update_step only adds entries derived from stored ones", SS)], [("update directories", "durable state of the optimization", SS)], ["entries of all updates after recovery"])
prop("O03", "A step with missing or invalid rollouts is refused without damage",
  "As long as the result of any sample or of the evaluation rollout of the current update is missing or unreadable, or the samples' costs cannot be turned into weights (not-a-number, with cost-proportional weighting), executing the optimization step fails with an error: no weights or new distribution for the update are stored, the next batch is not generated and the update is not counted as finished. Once all results have arrived, the same step succeeds with the results it would have had.",
  ["schedules", "fault_sequences"], "Every subset of missing, late or failed (not-a-number) rollouts and every moment at which the step is attempted.",
  NOTEST + "Depends on which rollouts are lost or late.",
  [SS, LS, UP], [("ask raises for missing entries before the update is made", SS + ": update_step"), ("weights are checked", UP + ": costs_to_weights")], [], ["entries of the update and of the next one"])
prop("O04", "Every published batch of rollouts is complete and consistent",
  "When preparing or a step of a step-by-step optimization has finished, the announced files exist and the batch contains, for each sample, a DMP whose selected parameters equal that row of the stored samples, plus an evaluation DMP whose parameters equal the distribution's mean; apart from the selected parameters all of them equal the initial DMP, and the C++-readable version of each file describes the same DMP. "
  "The samples are drawn from the stored distribution, one row per sample, and the stored initial DMP, task, solver and updater never change.",
  ["histories", "configurations", "crash_points"], "Every update of every optimization history, including ones with restarts and crashes, for all DMP types, selected parameters, batch sizes (1, many, more than 100) and dimensions.",
  NOTEST + "Only a history over several updates, processes and samples exposes leakage between samples or updates.",
  [SS, LT, LS, JC, DM, FA], [("_generate_samples", SS), ("C++ json next to the json", LT + ": tell")], [], ["files of the batch"])
prop("O05", "An optimization run keeps the same history in memory, on disk and if cut short",
  "For the same random seed, running an optimization of a cost function or of a task gives bit-identical histories whether it is kept in memory, written to a directory, or re-opened from that directory in another process, and independent of other processes. "
  "Every update of it satisfies the loop's definition: the stored costs are those of the stored samples, the evaluation is that of the distribution's mean, the new distribution is the updater's result and is the next update's distribution. If the run dies or the cost function raises during update k, the stored updates before k are complete and identical to those of the undisturbed run.",
  ["crash_points", "histories", "configurations"], "Every crash point of a run, every update at which the cost function or rollout may raise, all updaters, distributions, batch sizes, cost shapes.",
  NOTEST + "Bookkeeping across updates, processes and crashes is never exercised.",
  [RO, RT, LS, LT], [("bookkeeping in the optimization loops", RO + ", " + RT), ("add_update, add_eval, add_rollout", LS + ", " + LT)], [], ["all entries of the session"])
prop("O06", "Progress reports count exactly the finished updates",
  "At any moment during or after an optimization (loop or step-by-step, running, interrupted or re-opened), the reported number of updates equals the number of updates whose results are completely stored. The learning curve has one row per finished update, with the number of samples used before its evaluation and the evaluation cost of that update (total cost first, then components), or the mean cost of its samples if there was no evaluation; the exploration reported for an update is the (real) square root of the largest eigenvalue of its covariance matrix, and the plotted curves show these same values; the summary's costs before and after are those of the first and last finished update, and the cost ratio that of their total costs; reports by the optimizing process and by an observer agree.",
  ["schedules", "crash_points", "histories"], "Every moment (file operation) at which the process is observed, interrupted or crashes, in-memory and on-disk sessions, any number of updates including none.",
  NOTEST + "Depends on the moment of observation relative to the store operations of an update.",
  [LS, LT], [("get_n_updates, get_eval_costs, get_learning_curve", LS)], [], ["values returned by the reporting functions"])
prop("O07", "Rollouts executed by the C++ robot are the movements of their samples",
  "In a step-by-step optimization in which Python draws samples and updates the distribution, and robots use the C++ implementation to load the stored DMPs (or trajectories) of a batch, execute them and save the cost-relevant variables into the session's directory, what Python reads back for a sample (and for the evaluation) is the movement of exactly that sample, as Python itself would have executed it, to the precision of the file (6 decimals); costs and updates follow from these. "
  "This holds for any order, repetition, delay and interleaving of robots and operator, and after crashes of robots (also while saving), of the operator, and failing system calls and allocations; a step for which a rollout is missing, empty or torn within a row is refused and stores no update.",
  ["schedules", "crash_points", "fault_sequences", "histories"], "Every interleaving of robot and operator processes, crash of either at any moment, failing system call while the robot saves, failing allocation during control steps, premature step attempt; DMP types known to C++, samples of weights and goals, batch sizes.",
  NOTEST + "No test connects the two implementations through a learning session; they are compared on files that are written and read undisturbed.",
  [SS, LT, JC, LS, "src/dmp/Dmp.cpp", "src/dmp/Trajectory.cpp", "src/eigenutils/eigen_file_io.tpp"], [("announced files and C++ files", SS + ": _generate_samples; " + LT + ": tell"), ("update_step reads cost_vars", SS), ("from_json, integrateStep, saveMatrix", "src")], [("dmp, traj and cost_vars files", "exchange between learner and robot", "session directory")], ["cost_vars, costs, weights and distributions of the session", "return values of the C++ functions"])
prop("U01", "Every update yields a valid distribution that favours cheaper samples",
  "In every update of an optimization history the sample weights are non-negative, sum to one, never give a cheaper sample less weight than a more expensive one, and depend only on the samples' total costs; the new mean is the weighted average of the samples. "
  "The new covariance matrix is that of the chosen strategy (kept, decayed by the squared factor, or weighted sample covariance around the previous mean, optionally low-pass filtered and restricted to its diagonal) and is finite, symmetric and positive semi-definite with standard deviations within the configured limits. Costs that cannot be turned into weights are refused with an error; neither the previous distribution nor the samples are modified.",
  ["histories", "inputs", "fault_sequences"], "Every sequence of updates under adversarial random draws and cost results (ties, huge ranges, constant, not-a-number), for all weighting methods and covariance strategies and limits.",
  NOTEST + "Invalid distributions arise after several updates or for unusual costs and limits.",
  [UP, DG], [("costs_to_weights, update_distribution", UP)], [], ["weights and distributions of each update"])
prop("U02", "Bounded exploration never leaves the bounds",
  "Every sample drawn from a bounded distribution lies within its bounds, in every update of a history, for scalar, one-sided and per-dimension bounds, also after the distribution has been updated, stored and re-loaded in another process. If the initial mean lies within the bounds, so do the means of all later updates, and the bounds themselves never change.",
  ["histories", "fault_sequences"], "Every history of updates, restarts and draws, including extreme draws by the random generator.",
  NOTEST + "Bounds may get lost only by updating or reloading.",
  [DB, DG, UP, LS], [("clipping of the samples", DB + ": generate_samples"), ("deep copy keeps the bounds", UP)], [], ["samples, means and bounds of each update"])
prop("D01", "A control step depends only on state, step size and parameters",
  "The state and rates of change returned by integrating a DMP one step depend only on the given state, the step size and the DMP's current parameters, initial state and goal: any interleaving (step by step) with other controllers using the same DMP, pre-emption at any point by controllers using copies of it, queries (analytical solution, parameter reads, state conversion, plotting, storing), restarts of the integration, or an exception interrupting a step or a query, leave all further steps unchanged. "
  "Integration never modifies the state it is given, and returned states never share memory with the DMP or with each other.",
  ["schedules", "histories", "configurations"], "Every interleaving of controllers, queries, episodes and interrupts, for all DMP types, dimensions and scalings.",
  NOTEST + "Hidden state in the subsystems shows only for particular interleavings.",
  [DM, DS, DW] + SUBS, [("differential_equation recomputes all coupling terms", DM), ("integrate_step", DS)], [("coupling terms in subsystems", "spring attractor and damping set at each evaluation", DM)], ["returned states and rates"])
prop("D02", "A movement can be resumed in another process",
  "A DMP stored to a file in the middle of a movement and loaded in another process continues from the current state exactly as the uninterrupted movement would, including after changes of goal, start, time constant or parameters and whether or not it was trained. Repeating store and load any number of times does not change the movement.",
  ["crash_points", "histories", "configurations"], "Every step of the control loop as the point of the restart, any number of restarts, all DMP types and parameter changes before and after.",
  NOTEST + "Only a restart at a particular point of a movement exposes state that is not in the file.",
  [DM, JC] + SUBS, [("savejson/loadjson of the complete object", JC)], [], ["trajectory after the restart"])
prop("D03", "A DMP reaches its goal once disturbances stop",
  "When integrated online with irregular step sizes, stalls, perturbations of position and velocity, and changes of goal and time constant during the movement, the state of a DMP remains finite, and once the disturbances stop the position converges to the current goal, with velocity going to zero, within a bounded number of time constants. This holds for all DMP types, whatever the (finite) parameters of the forcing term, for steps of at most 8% of the time constant (2% for types with Richards gating), and, for types with an unscaled Richards goal system, if the goal changes only before the movement.",
  ["fault_sequences", "schedules", "configurations"], "Every sequence of step sizes up to a fraction of the time constant, perturbations and goal/time-constant changes (for goal systems without scaling that are Richards systems: goal changes only before the movement).",
  NOTEST + "Convergence must hold after every disturbance sequence, tests run undisturbed fixed movements.",
  [DM, DS] + SUBS, [("critically damped spring, gated forcing term, delayed goal", DM)], [], ["position and velocity after the last disturbance"])
prop("D04", "Online integration follows the documented equations for any step-size sequence",
  "For any sequence of step sizes, perturbations and goal changes, each online integration step of a DMP equals a fourth-order Runge-Kutta step (or an Euler step where requested) of the documented equations: spring-damper pulled to the (delayed) goal, plus the forcing term predicted from the phase, multiplied by gating and scaling, divided by the time constant. All rates returned equal those equations at the returned state (for Euler steps, at the given state), and the dimensions are coupled only through phase and gating.",
  ["schedules", "fault_sequences", "configurations"], "Every jitter/stall/perturbation sequence, all DMP types, scalings and dimensions.",
  NOTEST + "Fixed step sizes and undisturbed movements only.",
  [DM, DS] + SUBS, [("differential_equation", DM), ("integrate_step_runge_kutta", DS)], [], ["returned states and rates"])
prop("D05", "A rollout's outcome depends only on its sample",
  "The cost-relevant variables of a rollout depend only on the sample and the solver's configuration: not on the order of rollouts, on how often they are repeated, on earlier rollouts that failed or were interrupted at any point, on later changes to the sample vector, or on changes to the DMP with which the solver was made. The parameter vector of a DMP consists of the parameters selected last, and those read back are those set last.",
  ["schedules", "fault_sequences", "histories"], "Every order, repetition and interruption (at every executed line) of rollouts, all DMP types and parameter selections.",
  NOTEST + "Leakage needs a particular preceding rollout or interruption.",
  [TS, DM, FA, DW], [("all selected parameters are set before integrating", TS + ": perform_rollout"), ("values are copied", FA + ": set_param_vector")], [], ["rollout results", "parameter vectors"])
prop("D06", "Schedules stay within their bounds and follow the phase online",
  "At every step of an online movement of a DMP with gain schedules, each schedule value lies within that schedule's configured minimum and maximum, for any number of schedules and for scalar, one-sided and per-schedule bounds, whatever the step sizes, perturbations and parameters. The value is the (clipped) prediction at the current phase only, so it agrees with the offline solution at equal phase and is not affected by the state of the movement, other schedules or other controllers.",
  ["schedules", "fault_sequences", "configurations"], "Every jitter, perturbation and interleaving, any number of schedules and kind of bounds.",
  NOTEST + "DMPs with schedules have no test.",
  [DW, DM], [("_enforce_schedule_bounds", DW), ("integrate_start_sched, integrate_step_sched, analytical_solution_sched", DW)], [], ["schedules returned by each step"])
prop("D07", "Changing the time constant only scales time",
  "If the time constant of a DMP is changed by some factor, before or during a movement and any number of times, integrating with step sizes scaled by the same factor passes through the same states as without the change, with rates scaled inversely, online and in the offline (analytical) solution, with the default subsystems as well as with the user's own. Setting the previous time constant again restores the previous behaviour.",
  ["schedules", "histories", "configurations"], "Every moment and sequence of changes of the time constant, every step-size schedule, all DMP types.",
  NOTEST + "No test changes the time constant.",
  [DM] + SUBS, [("tau is passed on to all subsystems", DM + ": tau setter")], [], ["states along the movement"])
prop("D08", "Offline rollouts predict online movements",
  "For a DMP in any condition (after any changes of goal, start, time constant and parameters, re-training, earlier movements, and storing and loading it), the offline (analytical) solution at arbitrary times and the undisturbed online integration with arbitrary small step sizes describe the same movement: positions, velocities, accelerations, delayed goal, phase, gating and damping agree at each time, up to the integration error.",
  ["histories", "schedules", "configurations"], "Every history of the DMP object before the movement and every step-size sequence, all DMP types, scalings and dimensions.",
  NOTEST + "Optimizations evaluate the offline solution, robots execute the online one; a discrepancy that depends on the history of the object or on a parameter change shows in neither alone.",
  [DM, DS] + SUBS, [("analytical_solution", DM), ("integrate_start, integrate_step, differential_equation", DM + ", " + DS)], [], ["states and rates of both"])
prop("C01", "The C++ runtime executes a stored DMP like Python, without allocating memory",
  "The C++ implementation, loading the C++-readable file of a DMP that Python stored (of the types both support: IJSPEERT_2002_MOVEMENT, KULVICIUS_2012_JOINING, COUNTDOWN_2013, with the default or the user's own subsystems) or constructing the same DMP itself, goes through the same states, rates, positions, velocities and accelerations as Python for any sequence of step sizes, perturbations, restarts and changes of goal, start and time constant, online and in the offline solution; the same holds for the single dynamical systems and trained function approximators it consists of. "
  "During a control step (integrating one step, evaluating the rates, converting the state, changing the goal, real-time prediction) it performs no dynamic memory allocation, so failing allocations do not affect it, and it never writes outside its memory. Interleaved controllers do not affect each other.",
  ["schedules", "fault_sequences", "configurations"], "Every jitter/perturbation/restart/goal/time-constant sequence, allocation failing at any moment of a control step, supported DMP types, dynamical systems, function approximators and dimensions.",
  "The one passing test compares function approximators only; real-time checks are compiled in only in debug mode and not exercised under disturbances.",
  ["src/dmp/Dmp.cpp", "src/dynamicalsystems/DynamicalSystem.cpp", "src/dynamicalsystems/ExponentialSystem.cpp", "src/dynamicalsystems/SigmoidSystem.cpp", "src/dynamicalsystems/SpringDamperSystem.cpp", "src/dynamicalsystems/TimeSystem.cpp", "src/functionapproximators/FunctionApproximatorRBFN.cpp", "src/functionapproximators/FunctionApproximatorLWR.cpp", JC],
  [("preallocated members", "src/dmp/Dmp.cpp, src/dynamicalsystems/DynamicalSystem.cpp"), ("from_json", "src/dmp/Dmp.cpp")], [], ["states returned by integrateStep", "calls of the allocator"])
EIO = "src/eigenutils/eigen_file_io.tpp"; CTJ = "src/dmp/Trajectory.cpp"
prop("C02", "Trajectories pass between Python and C++ unharmed, or the failure is reported",
  "What the C++ implementation reads from a file with a trajectory or matrix (written by Python, by C++, or edited) is exactly what the file contains; a file that is missing, torn by a crash, empty or damaged, or that cannot be read, is reported as such: nothing hangs, crashes, or makes up values. What it reports as saved is in the file, to 6 decimals, and can be read by Python and C++; if the disk is full, a system call fails, the directory cannot be used, or an existing file must not be overwritten, saving reports failure, and an existing file that must not be overwritten remains as it is. "
  "In between, C++ trajectories that are generated (minimum jerk, polynomial, through a viapoint), joined and extended contain the values that these operations define, for any times.",
  ["fault_sequences", "histories", "inputs"], "Every sequence of operations, transfers between the two processes, crashes of the writing process at any byte, failing, short and interrupted system calls, and edited files; trajectories of any length, dimension and time range.",
  "The tests read only undamaged files that were written just before, and hardly use C++ trajectories; no test makes a system call fail.",
  [EIO, CTJ, "dmpbbo/dmps/Trajectory.py"], [("loadMatrix, saveMatrix", EIO), ("append, generateMinJerkTrajectory, generatePolynomialTrajectory, readFromFile, saveToFile", CTJ)], [("ts_, ys_, yds_, ydds_, misc_", "the trajectory", CTJ)], ["files", "return values", "values of trajectories"])
SYSF = ["dmpbbo/dynamicalsystems/DynamicalSystem.py"] + SUBS
CTX = "dmpbbo/dmps/DmpContextualTwoStep.py"
GPR = "dmpbbo/functionapproximators/FunctionApproximatorGPR.py"; WLS = "dmpbbo/functionapproximators/FunctionApproximatorWLS.py"
RBFN = "dmpbbo/functionapproximators/FunctionApproximatorRBFN.py"; LWR = "dmpbbo/functionapproximators/FunctionApproximatorLWR.py"
TRJ = "dmpbbo/dmps/Trajectory.py"
prop("D09", "Single dynamical systems follow their equations whatever happened before",
  "An exponential, sigmoid, Richards, time or spring-damper system, in any condition (after any changes of time constant, attractor, initial state and coupling of its parameters, interrupted calls, storing and loading, and with copies of it in use), integrated online by steps of any small size from any state, follows the solution of its differential equation for its current parameters, with scalar as well as per-dimension parameters. "
  "The offline (analytical) solution from its initial state (of spring-damper systems: if critically damped, as they are by default for any mass) is the same solution at any times, with rates that satisfy the differential equation. Integrating never modifies the given state, and what is returned never shares memory with the system.",
  ["schedules", "histories", "configurations"], "Every sequence of jittery steps, perturbations, parameter changes, restarts, interruptions and reloads, all kinds of systems, dimensions and parameter shapes.",
  "The tests plot the systems for fixed parameters and regular time steps; wrong cached values, scaling or coupling show only after changes or in several dimensions.",
  SYSF, [("integrate_step_runge_kutta, integrate_step_euler, integrate", DS), ("differential_equation, analytical_solution", "dmpbbo/dynamicalsystems")], [("x_init, tau, parameters, cached parameters", "configuration of the system", DS)], ["returned states and rates"])
prop("D10", "A contextual DMP's movement depends only on its current task parameters",
  "A contextual DMP moves as the DMP whose function approximators have the parameters that regression of the parameters of DMPs trained on the single demonstrations predicts for the task parameters given when the movement started; its time constant, start and goal are the means over the demonstrations. "
  "Nothing else has an influence: earlier movements, predictions for or plots of other task parameters, interrupted calls, re-training before on other demonstrations, storing and loading, other contextual DMPs or copies, or later changes by the caller to the demonstrations.",
  ["histories", "schedules", "configurations"], "Every history of training, movements and queries for different task parameters, interruptions and reloads, before and during a movement, all DMP types and regression methods.",
  NOTEST + "Only one parameter set is held at a time; leakage between contexts needs a particular history.",
  [CTX, DM, FA], [("train, two regressions", CTX), ("integrate_start, analytical_solution set the parameters", CTX)], [("dmp and policy parameter approximators", "trained models", CTX)], ["states of movements, predicted parameters"])
prop("D11", "Training gives the model that its data and settings determine",
  "Training a function approximator or a DMP gives the model that its training data, meta-parameters and (for DMPs) the trajectory determine, whatever happened to the object before: earlier training on other data, changed parameters, refused or interrupted training, storing and loading, copying. "
  "Training of a function approximator that fails or is interrupted leaves the old or the new model, never a mixture. The model does not change when the caller later modifies the data, and predictions for a batch of inputs are those for the single inputs.",
  ["histories", "fault_sequences", "configurations"], "Every history of training, parameter changes, refused data, interruptions at any line, pre-emptions and reloads, for all function approximators, input dimensions and settings.",
  "The passing test trains each function approximator once on fixed data.",
  [FA, GPR, WLS, RBFN, LWR, DM], [("train, _train", FA), ("Dmp.train", DM)], [("model parameters", "result of the training", FA)], ["predictions, parameter vectors"])
prop("D12", "Trajectories stay consistent under any sequence of operations",
  "After any sequence of operations (generating from boundary conditions, cropping by index or time, padding, appending, prepending, shifting time, differentiating, filtering, converting, storing and loading, also after I/O errors), the times, positions, velocities, accelerations, miscellaneous variables and derived values (length, duration, mean time step, range) of a trajectory are those which the operations define: all have the same number of rows, kept samples keep their values, joined parts follow each other by one time step. "
  "An operation on one trajectory changes neither other trajectories nor the caller's arrays, and an operation that is refused changes nothing.",
  ["histories", "fault_sequences", "inputs"], "Every sequence of operations on several trajectories that share arrays, including joins with itself, refused operations, disk errors and reloads; regular and irregular times that start anywhere.",
  NOTEST + "Inconsistencies show only for combinations of operations and for times that do not start at zero.",
  [TRJ], [("crop, append, prepend, pad_front, pad_end, from_polynomial, from_min_jerk, recompute_derivatives", TRJ)], [("ts, ys, yds, ydds, misc, dt_mean", "the trajectory", TRJ)], ["attributes of all trajectories after each operation"])
# not addressable by simulation
prop("N01", "Function approximators generalize well",
  "With suitable meta-parameters, a trained function approximator predicts its training targets, and points between its training inputs, with the accuracy that its number of basis functions allows.",
  ["inputs"], "All smooth target functions and settings.", "Tests use fixed data.", ["dmpbbo/functionapproximators/FunctionApproximator.py"], [("training", "dmpbbo/functionapproximators")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    s = p["statement"]; n = len([x for x in s.replace("e.g.", "eg").replace("i.e.","ie").split(". ") if x.strip()])
    assert n <= 3, (p["id"], n)
