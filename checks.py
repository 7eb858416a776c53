"""One entry per property: harness sources, search time, the rule that makes a case non-trivial, and the deciding method."""
import os
HARNESS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness")
CHECKS = {}
def add(id, src, rule, technique, note, **kw):
    d = dict(id=id, src=src if isinstance(src, list) else [src], rule=rule, technique=technique, note=note); d.update(kw); CHECKS[id] = d

TRUST = "Assurance is that of a search: nothing is proved. Trusts the generator's planted optimality certificates, long double arithmetic of the oracle and the compiler's sanitizers."

add("C01", "c01.cpp",
    "random strictly convex QPs with planted KKT points (generic and exactly representable degenerate data, all matrix formats, three presets); non-trivial: solved with at least one working set change and one non-zero multiplier",
    "property-based testing: generated QPs with planted KKT certificate, residual oracle in extended precision",
    TRUST)
add("C03", "c03.cpp",
    "random feasible, infeasible (planted Farkas certificate) and unbounded (planted ray) problems, cold and hot; non-trivial: the case contains a problem without solution, or at least one working set change",
    "property-based testing: planted feasibility, Farkas and ray certificates against reported verdicts",
    TRUST + " Unboundedness is decided on batches because the library's own tests for it are heuristic.")
add("C04", "c04.cpp",
    "random sequences of 1-6 hot starts with fixed matrices, planted solutions, working set guesses, omitted vectors; non-trivial: a hot start changed the working set",
    "stateful property-based testing: hot-start histories against planted solutions",
    TRUST + " With the MPC preset a wrong guess may end in a reported failure (that preset has no degeneracy handling); it must not end in a wrong success.")
add("C05", "c05.cpp",
    "random sequences of 1-5 hot starts in which Hessian, constraint matrix, storage format and vectors change; non-trivial: a hot start changed the working set or the matrices",
    "stateful property-based testing: matrix-changing histories against planted solutions",
    TRUST)
add("C02", "c02.cpp",
    "random solved, unsolved, infeasible, unbounded and interrupted problems, cold and hot, with every query asked; the objective value also of regularised singular problems with varied regularisation parameters; non-trivial: solved with an active member, or not solved",
    "property-based testing: query results against recomputation from the problem data and the returned solution",
    TRUST)
add("C11", "c11.cpp",
    "random matrices in eight storage formats (owned or borrowed memory, padded rows, missing diagonals), 1-5 random operations with random index lists, scalars and leading dimensions; non-trivial: an operation on a proper selection of rows and columns",
    "property-based testing: differential against plain dense arithmetic (exact on integer data)",
    "Assurance is that of a search. Row-wise sparse matrices have no submatrix extraction; the check demands that this is reported as an error.")

add("C12", "c12.cpp",
    "random operation sequences on index lists, working sets of bounds and constraints and flippers, valid and invalid; non-trivial: at least three accepted operations on at least two members",
    "stateful (model-based) property-based testing against a list model",
    "Assurance is that of a search over sequences of bounded length.")
add("C06", "c06.cpp",
    "random problems (solvable, degenerate, infeasible) started from random combinations of exact, near, zero and arbitrary primal and dual points, working sets and Cholesky factors; non-trivial: a guess was given and the working set changed",
    "property-based testing: planted solutions must not depend on the guess (metamorphic)",
    TRUST + " With the MPC preset a wrong guess may end in a reported failure.")
add("C07", "c07.cpp",
    "random problems and sequences solved with unlimited and with random small iteration budgets and CPU limits, resumed with random budgets; non-trivial: a budget was exhausted",
    "stateful property-based testing: interrupted against uninterrupted histories and planted solutions",
    TRUST)
add("C08", "c08.cpp",
    "random histories of failing calls (infeasible, inconsistent, unbounded, out of budget, missing data, nonconvex) followed by well-posed problems, hot or after a reset; non-trivial: a call failed",
    "stateful property-based testing: planted solutions after injected failures",
    TRUST + " A hot start coming back from a point beyond 1e5 (left by an unbounded problem) is only required not to crash; its accuracy is lost to cancellation.")
add("C09", "c09.cpp",
    "random objects in fresh, solved, interrupted, infeasible and reset state, copied or assigned in five ways, with both futures compared bit-exactly while the other object is destroyed, used or reconfigured; non-trivial: a later solve changed the working set",
    "stateful property-based testing: metamorphic comparison of original and copy",
    TRUST)
add("C16", "c16.cpp",
    "random data (any of Hessian, gradient, matrix, sides, working sets absent) given to the free function, and random solved, interrupted, regularised, infeasible and fresh objects given to the analysis class; non-trivial: general constraints, an active member, or an object without problem",
    "property-based testing: violation measure against the definition in extended precision",
    TRUST + " A solution without curvature resting on an auxiliary far bound is not judged.")
add("C17", "c17.cpp",
    "random solved non-degenerate problems (cold, hot, changing matrices, all formats and presets) with diagonal, low-rank, single-entry and arbitrary covariance input; non-trivial: some member is active and the covariance is not diagonal",
    "property-based testing: propagated covariance against a dense solve of the active optimality system",
    TRUST)
add("C18", "c18.cpp",
    "random interleaved call histories over the three objects of the C interface (setup, init, hotstart, cleanup; wrong order, invalid arguments, infeasible and budget-limited problems, options and timing), mirrored call by call on C++ objects, plus random option structs; non-trivial: a solve changed the working set",
    "stateful property-based testing: differential between C calls and C++ objects, bit-exact",
    "Assurance is that of a search. The wrapper source is compiled against the library without its single-object mode; a C translation unit checks that C and C++ see the same struct layout and constants.",
    extra=[("{repo}/interfaces/c/qpOASES_wrapper.cpp", ["-I", "{repo}/interfaces/c"]), (HARNESS + "/c18c.c", ["-x", "c", "-I", "{repo}/interfaces/c"])])
add("C19", ["c19.cpp", "c19oct.cpp", "c19mat.cpp", "c19mock.cpp"],
    "the sources of the Octave and of the MATLAB interface compiled against a stand-in for the MEX API: random one-shot calls (several columns, dense or sparse matrices with explicit zeros or missing diagonals, empty arguments, Inf for absent sides, option structs in any order with missing or odd fields, start points, working set guesses, Cholesky factors, any number of outputs) and random histories over several live handles (init, hot start, new matrices, equality problem, cleanup, dead handles, calls that do not fit), a part of them spoilt; mirrored on C++ objects; non-trivial: a solve took iterations, or a spoilt call was refused",
    "stateful property-based testing: differential between MEX calls and C++ objects; every returned array compared; inputs compared before and after; memory balance of every call; optimality conditions of the answers",
    "Assurance is that of a search. The stand-in models the documented MEX API (column-major arrays, compressed columns, structs, errors that leave the function); exact-size allocations under the address sanitizer catch accesses outside of arguments. The scripts around the MEX functions (*.m) are not executed.",
    libs=["-Wl,--wrap=_ZN7qpOASES10getCPUtimeEv,--wrap=_ZN7qpOASES8myPrintfEPKc"], deps=["interfaces/octave", "interfaces/matlab"])
add("C14", "c14.cpp",
    "random histories of cold and hot starts (all solver classes, with and without Cholesky factor or guesses, changing matrices) from files in several layouts and with injected faults, mirrored in memory; written and re-read vectors; exported MAT files; non-trivial: a solve from files changed the working set, a round trip, or an export with an active member",
    "stateful property-based testing with fault injection: file-based against in-memory histories, bit-exact; round trips; independent MAT reader",
    "Assurance is that of a search. Files live in a scratch directory and are overwritten or deleted after every call.")

add("C15", "c15.cpp",
    "random data sets of 1-4 problems solved by the benchmark functions (general and bounds-only, dense and sparse, cold and hot, both call forms, iteration budgets) from memory and from files with injected faults (missing, empty, truncated and malformed files, impossible dimensions, faulty optional files); non-trivial: several problems with iterations, an infeasible member, or a fault",
    "property-based testing with fault injection: benchmark results against direct solves and residuals from the definition in extended precision",
    "Assurance is that of a search. Files live in a scratch directory and are removed after every case.")
add("C10", "c10.cpp",
    "random problems (solvable and infeasible) and up to four random reformulations in a row (permutation, scaling, mirroring, shift of origin, scaled objective, bounds as constraints, rows without sides, explicit instead of trivial Hessian), solved by different classes, storage formats, absent or infinite sides; sessions with absent sides written in different ways (null, 1e20, larger, IEEE infinity) under random options, compared bit for bit; non-trivial: reformulated with active members, infeasible, or sides appeared or vanished between hot starts",
    "metamorphic property-based testing: solution mapped back from the reformulation against the original",
    TRUST)

add("C13", "c13.cpp",
    "random problems (all presets, storage formats, infeasible members, empty sides, iteration budgets) solved with and without a callback over hot-start histories, with the callback failing at a random call; non-trivial: iterations with general constraints took place",
    "metamorphic and fault-injecting property-based testing: callback against matrix products, recorded calls checked for valid indices and points",
    TRUST)
add("C22", "c22.cpp",
    "random combinations of all switches, priorities and numerical values around their documented magnitudes, changed between solves, on cold and hot starts of three solver classes; print levels with output captured; arbitrary settings for presets, copies and repairs; non-trivial: iterations with active members, or a repaired setting",
    "property-based testing over option combinations: planted optima, documented tables, quiet against printing histories",
    TRUST + " Numerical values are drawn within two or three orders of magnitude of the presets; finer values promise nothing.")
add("C23", "c23.cpp",
    "random histories of cold and hot starts of three solver classes whose input arrays are read-only during the call, end at an inaccessible page, and are unmapped or overwritten afterwards (matrices when replaced), against a twin with private arrays; output arrays of exactly the documented length; non-trivial: a solve changed the working set",
    "stateful property-based testing with guarded memory: bit-exact differential against a twin with untouched data",
    "Assurance is that of a search. Read-only protection and guard pages make any wrong access fault; the sanitizers run in addition.")
add("C24", "c24.cpp",
    "up to four random histories (well-posed and arbitrary data; cold and hot starts, new matrices, resets, options, copies, analysis calls) run alone and again interleaved, with other heap and stack contents and with unrelated objects working in between; non-trivial: a solve changed the working set",
    "stateful property-based testing: bit-exact comparison of repeated, interleaved histories",
    "Assurance is that of a search. The harness replaces the allocator by one that fills new memory with a pattern that differs between the runs.", flavor="fast")
add("C27", "c27.cpp",
    "random sizes, leading dimensions, scalars, transposition flags and memory guards for matrix products, Cholesky factorisations (definite, indefinite, singular, undefined data) and triangular solves in both precisions; non-trivial: a product with inner dimension, a factorisation of order 2 or more",
    "property-based testing: differential against naive loops, guards around all blocks",
    "Assurance is that of a search over sizes up to 12 or so. The bundled triangular solver and condition estimator are documented dummies; the check demands that they report failure and touch nothing.", quick_secs=25)
add("C28", "c28.cpp",
    "random sequences of reported codes, visibility switches, output files and error counts for own and the global message handler; all message texts; print levels; printing of random vectors and matrices re-read; norms, comparisons, scaling and transposition on random vectors; non-trivial: messages reported, or a non-empty vector",
    "stateful (model-based) property-based testing of messages; property-based testing of helpers against definitions",
    "Assurance is that of a search. The table of message texts in the harness was taken from the documented list of return codes.", quick_secs=30)
add("C29", "c29.cpp",
    "random solved problems (cold, hot, changed matrices, all formats and presets) with 1-3 random right-hand sides, vectors omitted or holding arbitrary values where they cannot matter, and unsolved objects; non-trivial: an equality solution with active members",
    "property-based testing: equality-constrained optimality system checked in extended precision, object snapshots before and after",
    TRUST)
add("C25", "c25.cpp",
    "random bounded or uniquely solvable LPs and QPs with singular Hessians (nullity 1..n; real, integer and degenerate data; flat objectives) with planted optima, cold, hot-started and with changed matrices, three solver classes, all presets with and without regularisation (its size varied); failures that are accepted one by one are judged in batches of 24 histories; non-trivial: a solve changed the working set",
    "property-based testing: planted optima, optimality residuals in extended precision",
    TRUST + " Hot starts, the MPC preset and singular quadratic Hessians may fail on single histories (about 1 in 10 000 here), so only more than three failures among 24 histories count; wrong successes always count.")
add("C30", "c30.cpp",
    "random strictly convex problems with planted solutions plus 1-5 redundant members (copies, multiples, sums, zero rows, repeated bounds, loosened or one-sided), shuffled, over cold starts, guesses, hot starts and matrix changes in which redundancy tightens and loosens, and infeasible problems with redundancy; histories with dependent equalities judged in batches of 24; non-trivial: a solve changed the working set",
    "metamorphic property-based testing: planted solution of the problem without the redundant members",
    TRUST + " In histories with tight copies of equality constraints single failures are accepted (about 1 in 100 000 here).")
add("C26", "c26.cpp",
    "random strictly convex problems with planted solutions over cold starts (with point, multiplier, working-set and factor guesses), hot starts, matrix changes, copies and assignments of the Schur-complement solver with a dense LDL' solver plugged in, update budgets 0-75, all presets; infeasible problems; factorisations that fail at a random point or report no rank; the curvature check of SolutionAnalysis on convex and indefinite problems (verdict against the inertia of the KKT matrix without the active bounds away from zero, the object afterwards bit for bit as before, further hot starts); no solver at all; answers after a nearly singular factorisation (reciprocal condition below 1e-9, MPC 1e-6; about 3 cases in 100000) are not judged; non-trivial: a solve changed the working set, a fault occurred or the curvature verdict is clear",
    "stateful property-based testing with fault injection: planted solutions, verdicts known by construction",
    TRUST + " The plugged-in solver is a dense Bunch-Parlett factorisation of the harness; the triangular routines missing in the bundled LAPACK replacement are supplied by the harness as LAPACK defines them. Matrices are raw, dense or sparse by columns (the row-wise class lacks the required operation).",
    libs=["-Wl,--wrap=dtrtrs_,--wrap=dtrcon_"])
add("C20", "c20.cpp",
    "random solver objects of the four classes that are fresh, reset, solved or solved several times, hit by 1-4 random calls that have to be refused (no gradient, no matrices, contradicting sides, empty, short or partly undefined guesses alone and combined with matrix changes, impossible guess combinations, missing files, impossible export paths, analysis without data, hot starts without initialisation, objects without dimensions), then solved normally; non-trivial: a call was refused",
    "stateful property-based testing: invariance of everything the object answers (bitwise snapshots), planted solutions afterwards",
    TRUST + " Print level none; messages are not judged here.",
    libs=["-Wl,--wrap=dtrtrs_,--wrap=dtrcon_"])
add("C21", "c21.cpp",
    "random histories of 2-12 calls on up to four objects of the four classes (construct, init with all kinds of guesses, hot start, matrix change, copy, assign, reset, options, equality solution, covariance, KKT, export, print, delete), problem data well-posed, partly wild or entirely wild (1e-324..1e308, infinities, NaN, indefinite and dependent matrices, contradicting sides), wild options, every history executed twice on fresh memory filled with different bytes; non-trivial: some call succeeded",
    "stateful property-based testing under address and undefined-behaviour sanitizers with allocation accounting and a memory-fill differential",
    TRUST + " Uninitialised reads are seen when they influence an answer; uninitialised stack variables are not filled.",
    libs=["-Wl,--wrap=dtrtrs_,--wrap=dtrcon_"])
