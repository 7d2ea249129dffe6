"""Source of properties.jsonl and MANIFEST.json: python3 tools/gen.py"""
O, S, F, C, L, T = "src/oqnlp.rs", "src/scatter_search.rs", "src/filters.rs", "src/checkpoint.rs", "src/local_solver/runner.rs", "src/types.rs"
V, V1, V2 = "src/observers/mod.rs", "src/observers/stage1.rs", "src/observers/stage2.rs"
B, R = "src/local_solver/builders.rs", "src/problem.rs"
def P(id, title, statement, over, text, why, files, mech, observe=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **({"observe_at": observe} if observe else {})))
PROPS = [
P("C01", "The best solution returned is the best any local search found",
  "Whenever a run returns a solution set, every solution in it is the exact (point, objective) result of one of the run's local searches, and no admissible local search of the run found an objective better than the best returned one by more than the solution tolerance. A NaN or infinite result never hides a finite one, and a run with at least one admissible local result never fails with 'no feasible solution'.",
  ["inputs", "histories", "configurations"], "Every sequence of local-search outcomes (points, objectives including ties, near-ties, NaN and infinities), sequential and batched stage 2, absolute and relative tolerance.",
  "Tests run a handful of smooth functions whose local searches return well-separated finite minima; they never see near-ties, NaN or an improving result arriving after the set was filled.",
  [O, T], [("process_local_solution: replace / append / drop", O), ("SolutionSet::best_solution", T)], ["OQNLP::run's return value", "local solver results"]),
P("C02", "Returned solutions are equally good, mutually distinct and complete",
  "All solutions of a returned set agree with its first one in objective within the configured absolute/relative tolerance and are pairwise at least the distance factor apart. No solution is lost: when every found objective is either exactly the best one or well outside the tolerance, each best-valued local result is in the set or lies within the distance factor of a member.",
  ["inputs", "histories", "configurations"], "Every sequence of local-search outcomes with arbitrary points and objectives, every supported batch mode, absolute and relative tolerance.",
  "Existing tests check set sizes on two or three functions with one global minimum basin; distance and tolerance boundaries are not sampled.",
  [O], [("tolerance comparison and is_duplicate_in_set", O)], ["OQNLP::run's return value"]),
P("C03", "Excluded out-of-bounds solutions are never returned",
  "With out-of-bounds exclusion enabled no returned solution has a coordinate outside the variable bounds (a NaN coordinate is outside), excluded results neither reach the target nor replace or hide admissible ones, and a run whose local results are all out of bounds reports that no feasible solution was found. Without exclusion the results are kept as they are.",
  ["inputs", "histories", "configurations"], "Every sequence of local results inside, on and outside the bounds, in one and two dimensions, with and without NaN coordinates, sequential and batched.",
  "Tests use unconstrained solvers on one function that happens to drift out of bounds; order of in- and out-of-bounds results is not varied.",
  [O], [("is_within_bounds, process_local_solution, target_objective_reached", O)], ["OQNLP::run's return value"]),
P("C04", "The target objective stops the run as soon as it is reached, and only then",
  "When a target objective is set, no local search is started after one whose admissible result reached the target (searches of the same parallel batch excepted), and the returned best solution reaches the target. While it has not been reached, the run performs all its iterations.",
  ["inputs", "histories", "configurations"], "Every target and every sequence of local results (including results exactly at the target, NaN, infinite, out of bounds), reached in stage 1 or stage 2, sequential and batched.",
  "Tests set an easily reached target and look at the final objective only; they do not observe whether searching continued, nor boundary equality.",
  [O], [("target_objective_reached and the stage-1/stage-2 early exits", O)], ["number and order of local searches", "OQNLP::run's return value"]),
P("C05", "Local searches start exactly from candidates passing both filters",
  "The first local search starts at the best reference point; in stage 2 a candidate gets a local search exactly when its own objective does not exceed the merit threshold and it is farther than the distance factor from every solution found before. The threshold follows the last candidate searched and improved solutions, and rises by threshold_factor*(1+|threshold|) after wait_cycle consecutive rejections.",
  ["inputs", "histories", "configurations"], "Every assignment of objectives (including NaN) to the reference points and every sequence of local results, every small wait cycle and prior unchanged count, sequential and batched.",
  "Tests check the two filters in isolation on fixed numbers; the interplay of shuffled reference set, cached objectives, threshold and distance filter across iterations is not observed.",
  [O, F], [("should_start_local, adjust_threshold, process_batch_*", O), ("MeritFilter, DistanceFilter", F)], ["start points of local searches"]),
P("C06", "The scatter-search reference set is in bounds, full-sized and the best of what was evaluated",
  "Scatter search returns exactly population-size points inside the variable bounds, each paired with its own objective value, containing the best point evaluated, and keeps no point worse than one it evaluated and dropped; the bounds, the midpoint and custom points are always among those evaluated. The objective is never evaluated outside the variable bounds.",
  ["inputs", "configurations"], "Every assignment of objective values (including NaN and infinities) to the points, one and two dimensions, several seeds, custom points, parallel and sequential; every pair of parents and every pair of bounds on a grid for the generators.",
  "Tests check lengths and bounds for one seed and one smooth objective; replacement under ties, NaN and extreme parents is not sampled.",
  [S], [("initialize/diversify/compute_trial_points/update_reference_set", S)], ["ScatterSearch::run's return value", "objective evaluations"]),
P("C07", "A run is a function of problem, parameters and seed only",
  "Two runs with the same problem, parameters, seed and batch size return bit-identical solution sets and start the same local searches, whatever the thread count, work splitting and order in which parallel closures are scheduled, whatever the clock shows, and whether or not an observer, verbose output or checkpointing is attached. Parallel execution with batches of one iteration equals sequential execution. Scatter search returns the same reference set sequentially and in parallel.",
  ["schedules", "inputs", "configurations"], "Every order of the closures of a parallel operation, every assignment of grid objectives and local results, batches of 1-4, one and two dimensions, thread counts and split points.",
  "A test sees one schedule of one machine per run; a schedule-dependent tie-break or a draw taken inside a parallel closure shows up once in many runs.",
  [O, S], [("process_batch_parallel collects then applies in order", O), ("seed-derived random numbers drawn outside parallel closures", S)], ["OQNLP::run's return value", "start points of local searches", "ScatterSearch::run's return value"]),
P("C08", "A checkpoint is loaded exactly as it was saved, and the latest one is found",
  "Loading a checkpoint returns every field bit for bit as saved (parameters, solver configuration, solution and reference sets, filter state, seed, target, tolerances). With keep_all every iteration's file is kept and the highest iteration is the latest, otherwise exactly one file holds the last save; cleanup keeps exactly the most recent requested number and deletes nothing that is not one of its checkpoints. A missing, truncated or empty file is reported as such and never loaded as something else.",
  ["inputs", "histories", "configurations"], "Every value (all 64-bit patterns) of every field for every solver type, optional parts present or absent, every order of saves over iteration numbers of different widths, foreign files in the directory, every truncation length.",
  "Tests save one default-valued checkpoint and load it back.",
  [C, T], [("save_checkpoint, load_latest_checkpoint, find_latest_checkpoint, cleanup_old_checkpoints", C)], ["CheckpointManager's results", "files in the checkpoint directory"]),
P("C09", "A crash or I/O error while saving never loses the previous checkpoint",
  "If the process dies or an I/O call fails at any point of saving a checkpoint, loading afterwards yields exactly the previous or exactly the new checkpoint (never a torn one, and nothing only if there was none before); a save that reported success is the one loaded, and later saves work.",
  ["crash_points", "fault_sequences", "histories"], "A crash before or after every file-system call of the save, writes cut at several lengths, an I/O error at every call, with and without a previous checkpoint, keep_all on and off, same and different iteration.",
  "Unit tests cannot kill the process between two system calls of a save.",
  [C], [("write to a temporary file, then rename", C)], ["CheckpointManager::load_latest_checkpoint after the interruption"]),
P("C10", "A run resumed after a crash ends exactly like an uninterrupted one",
  "When a checkpointing run is killed at any point and started again with auto_resume, the second run returns the same solution set as an uninterrupted run, its local searches are exactly the remaining ones in the same order, and it neither repeats stage 1 nor a completed iteration. Starting a completed run again returns the same result without new searches.",
  ["crash_points", "histories", "configurations"], "A crash at every file-system call of the run, every sequence of grid local results, checkpoint frequencies 1-2, keep_all on and off, sequential and batched, with target, distance filter and out-of-bounds exclusion.",
  "Tests resume from one hand-made checkpoint and check that the result is finite.",
  [O, C], [("maybe_save_checkpoint, create_checkpoint, restore_from_checkpoint, run's resume path", O)], ["OQNLP::run's return value", "start points of local searches of both runs"]),
P("C11", "Resuming with modified parameters applies them and loses nothing",
  "Resuming a finished run with more iterations gives the result and the searches of a run that had that many iterations from the start. Changed population size, distance factor, threshold factor, wait cycle and local solver settings are in force after the resume, solutions found before are kept, the reference set only grows (with in-bounds, feasible points), and without a checkpoint or with auto_resume off nothing is resumed.",
  ["histories", "inputs", "configurations"], "Every sequence of grid local results of the first and second run, each changed parameter, both resume functions, sequential and batched.",
  "Tests only check that the call returns Ok and that a parameter field changed.",
  [O], [("resume_with_modified_params, resume_from_checkpoint_with_params, expand_reference_set", O)], ["OQNLP::run's return value", "checkpoints written", "local solver calls"]),
P("C12", "Observer counters and times are truthful",
  "An attached observer's numbers are those of the run: stage-1 and stage-2 function evaluations equal the objective evaluations made in each stage, stage 2's local-search count and improving count equal the local searches whose result was processed and those that entered or replaced the solution set, reference- and solution-set sizes, best objective and best point equal what the run holds and returns, and the time of a finished stage stays what it was when the stage ended. A resumed run reports its own work only. A stage excluded by the observer mode stays unrecorded.",
  ["inputs", "histories", "configurations"], "Every sequence of local results (ties, NaN, infinities, out of bounds, repeated), every number of evaluations per search within 0-2, all observer modes, sequential and batched, fresh and resumed runs, with and without target.",
  "Tests check that counters are positive or that setters set; they never compare with an independent count, nor on rejected, repeated or NaN results.",
  [V, V1, V2, O, S], [("stage-1 accounting in run and ScatterSearch::run", O), ("stage-2 accounting in process_batch_*", O), ("Stage1State, Stage2State", V2)], ["Observer getters during and after a run"]),
P("C13", "Observer callbacks run exactly when they should",
  "The callback runs once at the end of each stage-1 substage in order and then exactly once for every processed stage-2 iteration that is a multiple of the callback frequency (a frequency of 0 counts as 1), in sequential runs in iteration order; only the iteration that reaches the target may go unreported. During stage 1 the stage-2 state is not visible, afterwards the live stage-1 state is not, and stage_1_final always is. A resumed run reports only its own iterations.",
  ["inputs", "histories", "configurations"], "Every frequency 0-3, every pattern of accepted and rejected candidates, all observer modes, sequential and batched, fresh and resumed, with and without target.",
  "Tests count that some callback happened on one run; the per-candidate-kind code paths of a batch (rejected, single search, parallel searches) are not told apart.",
  [V, O, S], [("should_invoke_callback, invoke_callback", V), ("callback sites in run and process_batch_*", O)], ["callback invocations"]),
P("C14", "COBYLA gets the user's problem and settings, and its result comes back unchanged",
  "A COBYLA local search starts exactly at the given point with the problem's variable bounds, all constraints, evaluation limit, step size and tolerances as configured; every objective and constraint value it asks for is the problem's value at that point (a failing evaluation counts as +infinity); its point and objective are returned unchanged with the true number of evaluations, a failure is reported as such, and settings or points of the wrong dimension give an error instead of a run or a panic.",
  ["inputs", "configurations"], "Every value (all doubles) of start point, bounds, settings, objective, constraints and result, one and two dimensions, 0-3 constraints, tracking on and off, every xtol_abs length.",
  "Tests run COBYLA on one quadratic; a swapped or dropped setting still converges there.",
  [L, B], [("solve_cobyla", L), ("COBYLABuilder, LocalSolverConfig::clone", B)], ["arguments of cobyla::minimize", "LocalSolver::solve results"]),
P("C15", "Gradient and simplex solvers get the user's problem and settings, and their result comes back unchanged",
  "For L-BFGS, Nelder-Mead, steepest descent, trust region and Newton-CG with either line search: exactly the configured solver runs with every configured setting and iteration limit from the given start point (Nelder-Mead: the configured simplex around it), sees the problem's objective, gradient and Hessian at the points it asks for and their errors, and its best point and cost are returned unchanged with the true number of evaluations. A failed search, a search without a solution, a rejected setting and a configuration of another solver are reported as what they are and run nothing. Every local search of a run uses the configured solver.",
  ["inputs", "configurations"], "Every value (all doubles and integers) of every setting, start point, objective, gradient, Hessian and result; settings given through builder methods or constructors and copied; each setting rejected in turn; every pair of solver type and configuration.",
  "Tests run each solver on a smooth function where a swapped, dropped or defaulted setting still converges to the same minimum.",
  [L, B, O], [("solve_lbfgs, solve_nelder_mead, solve_steepestdescent, solve_trust_region, solve_newton_cg", L), ("builders and LocalSolverConfig::clone", B)], ["what reaches argmin's Executor", "LocalSolver::solve results"]),
P("C16", "The stage-2 time limit is honoured",
  "With a time limit, no stage-2 batch of iterations starts once the elapsed stage-2 time exceeds the limit, none is skipped before, and the run still returns the best solution found until then.",
  ["inputs", "schedules", "configurations"], "Every limit and every duration of every local search (virtual clock), sequential and batched, with and without a target.",
  "Tests can only sleep for a fixed time and assert on wall time loosely.",
  [O], [("timeout check before each batch", O)], ["number of local searches against the clock"]),
P("C17", "Parameters are validated exactly, and accepted ones never make a run fail",
  "OQNLP::new accepts parameters exactly when population size > 3, iterations <= population size, threshold factor > 0 and distance factor >= 0 (NaN is rejected), and otherwise the error names the offending parameter and value. With accepted parameters, whatever the batch size (0 included), wait cycle, factors, seed, time limit or target, a run on a well-behaved problem neither panics nor fails, and makes at most one local search per iteration plus the first.",
  ["inputs", "configurations"], "Every value of the sizes, factors and seed for validation; for running: populations 4-7 with every combination of extreme iterations, batch sizes, wait cycles, factors, limits and targets, and arbitrary grid objectives and results including NaN and infinities.",
  "Tests reject two or three fixed parameter sets and never run with extreme accepted ones.",
  [O, F], [("OQNLP::new, batch_iterations", O), ("DistanceFilter::new", F)], ["OQNLP::new's result", "OQNLP::run's return value"]),
P("C18", "Nonlinear constraints hold for every evaluated and searched point",
  "On a constrained problem scatter search only evaluates points that satisfy every constraint (a NaN constraint value violates it), local searches start only at such points and the local solver is given every constraint and the bounds; feasible seed and custom points are kept. If no feasible point can be found the run reports exactly that.",
  ["inputs", "configurations"], "Every pattern of constraint values (negative, zero, positive, NaN) over the sampled points, one and two constraints, parallel and sequential, with custom points.",
  "Tests use one or two fixed feasible regions containing the midpoint; infeasible seeds, zero and NaN values are not sampled.",
  [S, O, L], [("feasibility filter of the reference set and trial points", S), ("solve_cobyla passes constraints", L)], ["objective evaluations", "local solver calls"]),
P("C19", "Custom starting points are validated exactly and always used",
  "Custom points are accepted exactly when they have the problem's dimension and lie within the bounds (NaN does not), and the error names the offending point. Every accepted point is evaluated in the initial reference set, and the first local search starts from the best of all of them.",
  ["inputs", "configurations"], "Every pair of doubles as a custom point, first or later in the list; every objective assignment and every grid position for their use.",
  "Tests use four fixed point sets.",
  [O, S], [("with_points", O), ("initialize_reference_set with custom points", S)], ["with_points' result", "objective evaluations"]),
P("C20", "Variable bounds are validated",
  "Constructing the search succeeds exactly when every dimension has finite bounds with lower < upper that can be sampled; otherwise an error names the dimension and its bounds, and nothing panics.",
  ["inputs"], "Every pair of doubles (including NaN, infinities, signed zeros, subnormals) as bounds.",
  "Tests use one reversed pair.",
  [S], [("ScatterSearch::new", S)], ["ScatterSearch::new's result"]),
P("C21", "Failures of the objective or the local solver are reported, never swallowed",
  "If an evaluation of a reference point or a local search fails, the run returns an error of the matching kind carrying the original cause and starts no further (batch of) local searches; a failing trial point merely is not used. Without failures no error is reported.",
  ["inputs", "fault_sequences", "configurations"], "Every position of the failing evaluation or local search, both failure outcomes of the solver, sequential and batched.",
  "Tests use objectives that always fail or never fail.",
  [O, S, L], [("error mapping in run and process_batch_*", O), ("evaluation error propagation", S)], ["OQNLP::run's return value"]),
P("C22", "Solution sets and solver names say what they hold",
  "A solution set reports its solutions unchanged and in order (length, indexing, iteration), its best solution is a member that no other member beats, NaN ranking below every number, and there is none exactly when it is empty. A solver name selects its solver in any capitalisation, every other text is rejected.",
  ["inputs"], "Every assignment of doubles to the objectives and points of up to 3 solutions; every ASCII text of the lengths of the known names.",
  "Tests use two or three ordered finite objectives and the lower-case names.",
  [T], [("SolutionSet, LocalSolverType::from_string", T)], ["return values"]),
P("C23", "The Python bindings return what the Rust library computes",
  "Optimising through pyglobalsearch gives the same solution set, errors, observer values and checkpoints as the same problem, parameters and seed through the Rust API, and errors or exceptions raised by Python callbacks are reported.",
  ["inputs", "configurations"], "Every Python problem, parameter set and callback outcome.",
  "The Python tests compare a few runs with known minima only.",
  ["python/src/lib.rs", "python/src/builders.rs", "python/src/observers.rs"], [("PyProblem, optimize", "python/src/lib.rs")], ["pyglobalsearch.optimize's return value"]),
P("C24", "The search finds the global minimum",
  "For a sufficiently smooth problem with a bounded feasible region, raising iterations and population size makes the returned best objective approach the global minimum.",
  ["inputs"], "Every objective function.",
  "Tests use benchmark functions.",
  [O, S], [("OQNLP::run", O)], ["OQNLP::run's return value"]),
]
NA = [dict(property="C23", reason="The binding layer runs inside CPython through pyo3's C API: its behaviour is the interpreter's object protocol and reference counting, which the symbolic executor (LLVM IR of the Rust crates, with models for rayon, cobyla, argmin and libc files) cannot execute; modelling CPython would decide properties of the model."),
      dict(property="C24", reason="A probabilistic limit statement over arbitrary real functions and real local solvers; no finite bound on iterations, dimensions or objective values decides it, and the local solvers' numerics are outside the code under check.")]
