#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=None):
    a = {"files": files, "mechanism": [{"name": mechanism, "where": ", ".join(files)}]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

QP = ["src/QProblem.cpp", "src/QProblemB.cpp"]
p("C01", "Solved QPs satisfy the optimality conditions",
  "Whenever solving a strictly convex quadratic program from scratch reports success, the returned point satisfies all bounds and constraints, the returned multipliers have the sign belonging to the side they act on and vanish on inactive sides, and the gradient of the Lagrangian is zero, all up to a small tolerance. In particular the primal solution is the unique minimiser.",
  ["inputs", "configurations"], "All strictly convex QPs of moderate conditioning and size (with and without general constraints; equalities, one-sided and absent bounds) and every matrix representation.",
  "The tests solve a fixed list of examples and random dense QPs from one generator, mostly checking one option set; a wrong pivot, sign or factor update shows only on particular active-set sequences.",
  QP, "Online active set homotopy: step direction, ratio tests, and TQ/Cholesky updates keep the iterate optimal for the current parametric QP.",
  [("x, y", "primal and dual iterate"), ("R, Q, T", "factorisations of the working set")],
  "getPrimalSolution / getDualSolution after init()")
p("C02", "Result queries are consistent with the solution",
  "After every successful solve the reported objective value equals the objective evaluated at the reported primal solution, the reported working sets agree with the signs of the multipliers and with which bounds and constraints are attained, and the reported numbers of fixed, free, active, inactive, equality and null-space quantities agree with those working sets and with the problem data. Queries never change the state of the solver.",
  ["inputs", "histories"], "All solved problems, after cold starts and after hot starts, for problems with any Hessian kind.",
  "Tests compare the objective for a few examples only and never recount the working set or equality/unbounded counts after a change of vectors.",
  QP + ["src/Bounds.cpp", "src/Constraints.cpp", "src/SubjectTo.cpp"], "Query methods evaluate stored vectors and index lists that every active-set change must keep in step.",
  [("index lists", "fixed/free variables, active/inactive constraints")], "getObjVal, getWorkingSet*, getNFX/NFR/NAC/NIAC/NZ/NFV/NBV/NUV/NEC/NIC/NUC")
p("C03", "Success, infeasible and unbounded verdicts are right",
  "A problem that has no feasible point is reported as infeasible, a feasible problem whose objective is clearly unbounded below is reported as unbounded (apart from rare cases in which numerical trouble is reported instead), and a feasible problem with an optimal solution is solved; neither verdict is given to a well-posed problem of another kind. The infeasible and unbounded queries and the simple status agree with the returned code.",
  ["inputs", "histories"], "All problems of each kind with a construction-time certificate, reached by cold start or by hot start from a solved problem of another kind.",
  "The tests contain a handful of infeasible or unbounded problems; which ratio test detects infeasibility depends on the active-set path and cannot be sampled by a few cases.",
  QP + ["src/Utils.cpp"], "Linear independence and non-zero-curvature tests decide exchange, infeasibility and unboundedness; far bounds and ramping participate.",
  [("infeasible, unbounded flags", "verdict of the last solve")], "return code of init/hotstart, isInfeasible, isUnbounded, getSimpleStatus")
p("C04", "Hot starts give the same answer as cold starts",
  "For any sequence of problems differing in gradient, bounds and constraint bounds, hot-starting from the previous solution reports the same verdict, primal solution and objective as solving each problem from scratch, whatever working-set guesses are supplied and whichever vectors are omitted because they do not exist.",
  ["histories", "inputs"], "All sequences of vector changes (small, large, sides appearing, disappearing, bounds becoming equalities, repeated data), for bound-constrained and generally constrained problems.",
  "Example tests run one or two hot starts; stale activities, shifts and factor updates need long, specific sequences to surface.",
  QP + ["src/Bounds.cpp", "src/Constraints.cpp"], "Shift determination, constraint type updates and homotopy from the previous parametric QP.",
  [("g, lb, ub, lbA, ubA", "data of the parametric QP currently solved"), ("Ax, Ax_l, Ax_u", "cached constraint activities")], "hotstart() results compared with fresh objects")
p("C05", "Sequences with changing matrices equal cold starts",
  "When Hessian and constraint matrix change along a sequence of problems, every hot start reports the same verdict, primal solution and objective as solving that problem from scratch, whether the matrices change, stay the same or only the vectors change.",
  ["histories", "inputs"], "All interleavings of matrix-changing and vector-only hot starts for dense and sparse matrix inputs.",
  "The tests cover two short varying-matrix examples.",
  ["src/SQProblem.cpp"] + QP, "Auxiliary QP set-up for new matrices refactorises the kept working set and recomputes activities.",
  [("A, H, R, T, Q, Ax", "matrices and factors replaced at each step")], "SQProblem::hotstart results compared with fresh objects")
p("C06", "Initial guesses change the path, never the answer",
  "Starting a solve from a guessed primal point, dual point, bound working set, constraint working set, Hessian factor or any combination of them gives the same verdict, primal solution and objective as starting without a guess, unless the guess is rejected with an error before solving.",
  ["inputs", "configurations"], "All combinations of present/absent guesses, correct, nearly correct or entirely wrong, for well-posed problems.",
  "Tests use one or two hand-written guesses; wrong guesses produce arbitrary initial working sets which the fixed examples never reach.",
  QP, "Auxiliary working set and auxiliary QP are built so that the guess is optimal for the starting problem.",
  [("auxiliary QP", "starting problem of the homotopy")], "init() with xOpt,yOpt,guessedBounds,guessedConstraints,R")
p("C07", "Iteration limits are honoured, reported and resumable",
  "A solve never performs more working-set recalculations than allowed, reports the number actually performed, and reports exhaustion of the budget with its own status rather than success. Continuing an interrupted solve on the same object reaches the same solution as an uninterrupted solve.",
  ["inputs", "histories", "fault_sequences"], "Every limit from zero up to the number needed, on every solvable problem, with any chain of interrupted and resumed solves.",
  "Tests always give a generous limit; interruption at each possible iteration is never exercised.",
  QP + ["src/SQProblem.cpp"], "Homotopy loop budget check and consistent intermediate parametric QP.",
  [("nWSR", "remaining/performed working set recalculations"), ("status", "PERFORMINGHOMOTOPY after an interruption")], "nWSR output and return code")
p("C08", "A failed solve leaves the object usable",
  "After a solve that ends infeasible, unbounded, out of budget or rejected because of bad arguments, the same object solves the next well-posed problem of the sequence correctly by a hot start, or reports failure; after a reset and a fresh initialisation it always solves it. It never reports a wrong answer as success.",
  ["histories", "fault_sequences"], "All sequences mixing well-posed, infeasible, unbounded, inconsistent-bound and budget-limited problems.",
  "No existing test continues to use an object after an error.",
  QP + ["src/SQProblem.cpp"], "Flag clearing, status transitions and shift computation when re-entering after an error.",
  [("status, infeasible, unbounded", "left by the failed solve")], "hotstart/init after failure")
p("C09", "Copies are equivalent and independent",
  "A copied or assigned problem, working-set or option object answers every query like the original and solves every further problem like the original would, and nothing done to either object afterwards, including destroying it, affects the other.",
  ["histories", "inputs"], "All states in which an object can be copied or assigned over (fresh, initialised, solved, failed), followed by any operations on both.",
  "Tests copy objects in two places without using both afterwards.",
  QP + ["src/SQProblem.cpp", "src/SQProblemSchur.cpp", "src/Matrices.cpp", "src/Flipper.cpp", "src/Options.cpp"], "Copy constructors, assignment operators and duplicate() of matrices.",
  [("owned arrays", "every array has exactly one owner")], "two objects driven in lock step")
p("C10", "Equivalent formulations have the same solution",
  "The same mathematical problem stated in different ways has the same verdict, optimal objective and primal solution: bounds given as constraints, trivial Hessians given as flags or explicit matrices, absent vectors or single sides given as null pointers, as 1e20, as larger values or as IEEE infinities (in cold starts and whenever sides come and go in hot starts), the specialised bound-constrained solver or the general one, permuted or scaled variables and constraints, mirrored signs.",
  ["inputs", "configurations"], "All pairs of equivalent statements of well-posed problems.",
  "No test compares formulations; special-case code for trivial Hessians and missing constraints is exercised by single examples.",
  QP + ["src/Matrices.cpp"], "Specialised branches for Hessian type, null pointers, bound-only problems.", (), "metamorphic pairs of solves")
p("C11", "Matrix storage formats compute the same algebra",
  "All matrix formats represent exactly the matrix they were built from, and every operation on them (element, row and column access, row norms, products with whole or selected rows and columns, transposed products, bilinear forms, diagonal updates, duplication, conversion to dense, submatrix extraction) gives the result of plain dense arithmetic on that matrix.",
  ["inputs"], "All shapes, sparsity patterns, leading dimensions, index selections in any order, scalars alpha and beta and numbers of right-hand sides.",
  "The matrix unit tests use fixed small matrices and few index sets and scalars.",
  ["src/Matrices.cpp", "include/qpOASES/Matrices.hpp"], "Format-specific loops with special cases for scalars and for full or partial index sets.",
  [("row/column index arrays", "compressed storage"), ("jd", "position of diagonal entries")], "Matrix class methods versus a naive reference")
p("C12", "Working-set bookkeeping matches a simple model",
  "After any sequence of additions, removals, moves, exchanges, flips, shifts and rotations, the sets of free, fixed, active and inactive members, their status, order and counts are those of a simple list model, every member is in exactly one set, and impossible operations are rejected without effect.",
  ["histories"], "All operation sequences on bounds, constraints and index lists of any size, including shifting and rotation by any offset.",
  "There is a single short index list unit test; bounds and constraints containers have none.",
  ["src/Bounds.cpp", "src/Constraints.cpp", "src/SubjectTo.cpp", "src/Indexlist.cpp"], "Unsorted number lists with a sorted permutation for lookup.",
  [("number, iSort", "insertion order and sort order"), ("status, type", "per member state")], "container methods versus model")
p("C13", "A constraint-product callback changes nothing but speed",
  "Supplying a user function that computes constraint products gives the same iterates, verdict, solution and multipliers as letting the solver multiply with the constraint matrix, is only called with valid constraint indices and points of the right length, and errors it signals make the solve fail rather than succeed.",
  ["inputs", "histories", "fault_sequences"], "All problems and hot-start histories, with callback failures injected at any call.",
  "One example uses the callback; no test injects failures.",
  ["src/QProblem.cpp", "include/qpOASES/ConstraintProduct.hpp"], "Products with selected constraint rows are replaced by callback calls.", [("constraintProduct", "user callback")], "setConstraintProduct plus solves")
p("C14", "Problem data read from files equals data in memory",
  "Initialising or hot-starting from data files gives exactly the result of passing the same numbers in memory, also when some files are absent by design; a missing, truncated or malformed file is reported as an error and never solved with made-up numbers. Vectors and matrices written by the library read back as the same values, and exported problem data files are readable and hold the problem data.",
  ["inputs", "fault_sequences", "histories"], "All problem data, all subsets of optional files, and file faults (missing, empty, truncated at any entry, non-numeric).",
  "Tests only read well-formed files.",
  QP + ["src/SQProblem.cpp", "src/Utils.cpp"], "File parsing helpers and file-based init/hotstart overloads.", (), "init/hotstart with file names; writeToFile/readFromFile; problem export")
p("C15", "Benchmark interface reports true residuals and results",
  "Running a benchmark data set reports the maximum stationarity, feasibility and complementarity residuals that its returned solutions really have and the largest iteration count, its solutions agree with solving each problem of the set individually, with and without hot starts and for bound-only sets, and missing or truncated data are reported as errors.",
  ["inputs", "fault_sequences"], "All data sets of well-posed problems (any number of QPs, equality or inequality constraints), all hot-start/regularisation settings, file faults.",
  "The unit test runs only when a benchmark collection is present, which it is not here.",
  ["src/OQPinterface.cpp"], "Loop over the parametric vectors with one solver object.", (), "runOqpBenchmark / solveOqpBenchmark / readOqp*")
p("C16", "The optimality-violation measure is exact",
  "The reported stationarity, feasibility and complementarity violations of any given primal-dual pair equal those computed directly from the problem data, for every combination of absent Hessian, constraints, bounds or sides; the maximum violation reported for a solved problem equals the one of its own solution.",
  ["inputs"], "All problem data and all candidate points, optimal or not.",
  "Tests use the measure to judge solutions, so an error that makes it too small hides itself.",
  ["src/Utils.cpp", "src/SolutionAnalysis.cpp"], "Residual evaluation with special cases for absent data.", (), "getKktViolation versus a reference")
p("C17", "Variance propagation equals the dense reference",
  "For a solved, non-degenerate problem, the primal-dual variance-covariance matrix equals the one obtained by propagating the given input covariance through the linearised solution map, i.e. through the inverse of the optimality system of the final active set.",
  ["inputs"], "All solved non-degenerate strictly convex problems with constraints and all covariance matrices.",
  "A single example compares one matrix.",
  ["src/SolutionAnalysis.cpp"], "Back-solves with the final factorisation, one per covariance row.", (), "getVarianceCovariance")
p("C18", "The C interface agrees with the C++ library",
  "Every call sequence through the C interface yields the same primal and dual solution, objective, iteration count and status as the same sequence on the C++ classes with the same options, options set in C mean the same as in C++, and calls in the wrong order are rejected.",
  ["histories", "inputs", "configurations"], "All call sequences over the three C solver families with arbitrary options and problem data.",
  "Three fixed C examples.",
  ["interfaces/c/qpOASES_wrapper.cpp", "interfaces/c/qpOASES_wrapper.h"], "Global objects behind C functions and field-by-field option copying.", [("global objects", "one per solver family")], "C functions versus C++ objects")
p("C19", "The Octave and MATLAB interfaces agree with the C++ library",
  "Solving through the Octave or MATLAB interface, one-shot or as a sequence with several live handles, with dense or sparse matrices, any subset of empty arguments, infinite bounds, several parametric vectors, guesses and options, returns the solution, objective, status, iterations, multipliers and working sets that the C++ library returns for that data, for every number of requested outputs. Inputs stay untouched, malformed calls and dead handles are refused without disturbing live ones, and no memory is lost.",
  ["inputs", "histories", "configurations"], "All argument patterns and handle histories of well-posed and infeasible problems.",
  "The Octave tests use dense random problems solved one way only.",
  ["interfaces/octave/qpOASES.cpp", "interfaces/octave/qpOASES_sequence.cpp", "interfaces/octave/qpOASES_octave_utils.cpp", "interfaces/matlab/qpOASES.cpp", "interfaces/matlab/qpOASES_sequence.cpp", "interfaces/matlab/qpOASES_matlab_utils.cpp"], "Argument parsing, sparse conversion, handle table, auxiliary input and options structs.", [("handle table", "live QP instances")], "mex functions called by generated programs through a stand-in for the MEX API")
p("C20", "Calls that make no sense are rejected without harm",
  "Initialisations, hot starts and analysis calls with missing mandatory data, incomplete guesses, impossible combinations of guesses, contradicting bounds, unreadable files, or in an unsuitable state return an error and never success. A solver that was solved before a rejected hot start still answers its queries as before and can go on; after a rejected initialisation it refuses to hand out solutions and can be initialised again; a solver without a problem hands out no solution.",
  ["histories", "inputs"], "All API calls in all object states with all kinds of invalid arguments.",
  "Only the documented happy paths are tested.",
  QP + ["src/SQProblem.cpp", "src/SubjectTo.cpp"], "Argument and status checks at each entry point.", [("status", "protocol state of the object")], "return codes and queries after rejected calls")
p("C21", "No API history corrupts memory or leaks",
  "No sequence of API calls with arbitrary numeric problem data (huge, tiny, infinite and not-a-number included), any sizes, finite option values, guesses and matrix formats reads or writes outside its arrays, uses freed memory, lets uninitialised memory influence an answer, triggers undefined behaviour, hangs, or leaks memory once all objects are destroyed.",
  ["histories", "inputs", "configurations"], "All histories of constructing, solving, failing, copying, resetting and destroying problem objects, with ill-conditioned, degenerate, huge and indefinite data.",
  "Valgrind runs cover the example programs only.",
  ["src/QProblem.cpp", "src/QProblemB.cpp", "src/SQProblem.cpp", "src/Matrices.cpp", "src/Flipper.cpp", "src/Bounds.cpp", "src/Constraints.cpp"], "Manual memory management throughout.", (), "sanitizers and a leak check around generated histories")
p("C22", "Options change the path, never the answer",
  "Every combination of admissible options yields the same solution of a well-posed problem; the presets hold their documented values, inconsistent settings are repaired to the nearest admissible ones and kept by the solver, copies of option sets are complete, and the print level never influences results.",
  ["configurations", "inputs"], "All combinations of switches, numerical values in their documented ranges, presets and print levels.",
  "Tests use the presets on a few problems; combinations of switches are exponential.",
  ["src/Options.cpp", "include/qpOASES/Options.hpp"] + QP, "Options select branches all over the solver.", [("options", "current option set")], "solves under generated option sets; ensureConsistency")
p("C23", "Caller data is never modified and never referenced late",
  "Solving leaves every array passed by the caller unchanged, the vectors (gradient, bounds, guesses) may be freed or overwritten by the caller right after the call without affecting later results, and a solution array too is written only within its documented length.",
  ["inputs", "histories"], "All init, hot-start and query calls with read-only, guarded or scribbled caller arrays.",
  "Tests never change their arrays between calls nor compare them afterwards.",
  QP + ["src/SQProblem.cpp"], "Vectors are copied at entry; matrices are referenced but only read.", (), "guarded caller buffers compared and scribbled between calls")
p("C24", "Results are deterministic and objects do not interfere",
  "Repeating the same call history on a fresh object gives bit-identical results, regardless of what other solver objects in the process do in between and of memory contents.",
  ["histories", "schedules"], "All interleavings of histories of several objects, with different prior heap contents.",
  "Tests run each problem once in a fresh process.",
  QP + ["src/SQProblem.cpp", "src/MessageHandling.cpp"], "No hidden global state besides messaging; all work arrays initialised.", (), "two runs of the same histories, interleaved differently")
p("C25", "LPs and semidefinite problems reach the optimal value",
  "Linear programs and convex problems with a singular Hessian whose variables are bounded, or whose minimiser is unique and regularisation is on, are solved to a feasible point with the optimal objective value, and the multipliers certify optimality; a reported success is always right, and failures of hot starts or with singular quadratic Hessians stay rare exceptions.",
  ["inputs", "configurations"], "All bounded LPs and semidefinite QPs of moderate size, including those with non-unique minimisers, cold and hot started; with the MPC preset cold starts of bounded LPs and hot starts between problems with unique minimisers.",
  "The tests contain one LP and few semidefinite problems.",
  QP, "Regularisation with post-processing steps, curvature tests, ramping and bound flipping.", [("regVal", "regularisation added to the Hessian")], "objective and optimality residuals against a planted optimum")
p("C26", "The sparse Schur-complement solver agrees with the dense one",
  "With any correct linear solver plugged in, the Schur-complement variant reports the same verdict, primal solution, objective and multipliers as the null-space variant, for any update budget before refactorisation and along any hot-start sequence; without a linear solver it refuses rather than returns wrong results. Analysing the curvature after a solve judges the inertia of the problem without the strongly active bounds and leaves the solver as it was.",
  ["inputs", "histories", "configurations"], "All sparse convex problems, all Schur update budgets, cold starts, hot starts and matrix changes.",
  "This build has no sparse solver, so none of the tests executes this variant beyond construction.",
  ["src/SQProblemSchur.cpp", "src/SparseSolver.cpp"], "Schur complement factor updates on top of a factorised KKT matrix.", [("Schur factors", "QR of the Schur complement")], "SQProblemSchur with a reference dense factorisation plugged in")
p("C27", "Bundled linear algebra equals its specification",
  "The bundled replacements for the linear algebra kernels compute what the standard kernels are specified to compute for every size, leading dimension, transposition and scalar the library uses, including failure reports for matrices that are not positive definite or are singular, and touch no memory outside the given blocks.",
  ["inputs"], "All sizes, strides, scalars and transposition flags; definite, indefinite and singular matrices.",
  "Only exercised implicitly; scalars and strides used are few.",
  ["src/BLASReplacement.cpp", "src/LAPACKReplacement.cpp", "include/qpOASES/LapackBlasReplacement.hpp"], "Hand-written loops with special cases per scalar and flag.", (), "dgemm/sgemm/dpotrf/spotrf/dtrtrs/dtrcon ... versus naive loops")
p("C28", "Return codes, messages and small helpers tell the truth",
  "Every return code maps to its own message text and every solver outcome to the documented simple status; message reporting honours visibility and error-count settings; and the exported numeric helpers (norms, comparisons, scaling, transposition of inputs) match their definition.",
  ["inputs", "histories"], "All return codes, all visibility settings and reporting sequences, all vectors.",
  "Tests check two of the helpers.",
  ["src/MessageHandling.cpp", "src/Utils.cpp"], "A table of codes and texts looked up per report.", [("error count", "number of further messages shown")], "getSimpleStatus, MessageHandling with a captured stream, utility functions")
p("C29", "Solving for the current active set gives its equality solution",
  "Asking a solved object for the solution belonging to its current active set but other gradient, bounds and constraint bounds returns the minimiser and multipliers of the problem in which exactly the active members are held at the given values, and leaves the object unchanged.",
  ["inputs", "histories"], "All solved problems and all new right-hand sides, with any vectors omitted.",
  "One unit test with a fixed problem.",
  ["src/QProblem.cpp"], "One back-solve with the current factorisation.", [("R, Q, T", "current factorisation")], "solveCurrentEQP versus dense KKT solve")
p("C30", "Redundant and dependent constraints do no harm",
  "Duplicated, scaled, implied, zero or linearly dependent constraints, constraints meeting in one degenerate point, and constraints that merely repeat variable bounds do not change verdict, primal solution or objective, and the multipliers still certify optimality (in hot-start histories with dependent equality constraints a failure may occur as a rare exception, a wrong success never).",
  ["inputs", "histories"], "All well-posed strictly convex problems with any redundant members added, including dependent equality constraints, cold and hot started.",
  "Dependent constraints appear in one or two fixed examples.",
  QP, "Linear independence test with exchange of active members, tie handling in ratio tests, flipping.", [("working set", "kept linearly independent")], "solution with and without redundancy, optimality residuals")
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
