// every return code with its message text and visibility
M(SUCCESSFUL_RETURN, "Successful return", VS_VISIBLE)
M(RET_DIV_BY_ZERO, "Division by zero", VS_VISIBLE)
M(RET_INDEX_OUT_OF_BOUNDS, "Index out of bounds", VS_VISIBLE)
M(RET_INVALID_ARGUMENTS, "At least one of the arguments is invalid", VS_VISIBLE)
M(RET_ERROR_UNDEFINED, "Error number undefined", VS_VISIBLE)
M(RET_WARNING_UNDEFINED, "Warning number undefined", VS_VISIBLE)
M(RET_INFO_UNDEFINED, "Info number undefined", VS_VISIBLE)
M(RET_EWI_UNDEFINED, "Error/warning/info number undefined", VS_VISIBLE)
M(RET_AVAILABLE_WITH_LINUX_ONLY, "This function is available under Linux only", VS_HIDDEN)
M(RET_UNKNOWN_BUG, "The error occurred is not yet known", VS_VISIBLE)
M(RET_PRINTLEVEL_CHANGED, "Print level changed", VS_VISIBLE)
M(RET_NOT_YET_IMPLEMENTED, "Requested function is not yet implemented.", VS_VISIBLE)
M(RET_INDEXLIST_MUST_BE_REORDERD, "Index list has to be reordered", VS_VISIBLE)
M(RET_INDEXLIST_EXCEEDS_MAX_LENGTH, "Index list exceeds its maximal physical length", VS_VISIBLE)
M(RET_INDEXLIST_CORRUPTED, "Index list corrupted", VS_VISIBLE)
M(RET_INDEXLIST_OUTOFBOUNDS, "Physical index is out of bounds", VS_VISIBLE)
M(RET_INDEXLIST_ADD_FAILED, "Adding indices from another index set failed", VS_VISIBLE)
M(RET_INDEXLIST_INTERSECT_FAILED, "Intersection with another index set failed", VS_VISIBLE)
M(RET_INDEX_ALREADY_OF_DESIRED_STATUS, "Index is already of desired status", VS_VISIBLE)
M(RET_ADDINDEX_FAILED, "Adding index to index set failed", VS_VISIBLE)
M(RET_REMOVEINDEX_FAILED, "Removing index from index set failed", VS_VISIBLE)
M(RET_SWAPINDEX_FAILED, "Cannot swap between different indexsets", VS_VISIBLE)
M(RET_NOTHING_TO_DO, "Nothing to do", VS_VISIBLE)
M(RET_SETUP_BOUND_FAILED, "Setting up bound index failed", VS_VISIBLE)
M(RET_SETUP_CONSTRAINT_FAILED, "Setting up constraint index failed", VS_VISIBLE)
M(RET_MOVING_BOUND_FAILED, "Moving bound between index sets failed", VS_VISIBLE)
M(RET_MOVING_CONSTRAINT_FAILED, "Moving constraint between index sets failed", VS_VISIBLE)
M(RET_SHIFTING_FAILED, "Shifting of bounds/constraints failed", VS_VISIBLE)
M(RET_ROTATING_FAILED, "Rotating of bounds/constraints failed", VS_VISIBLE)
M(RET_QPOBJECT_NOT_SETUP, "The QP object has not been setup correctly, use another constructor", VS_VISIBLE)
M(RET_QP_ALREADY_INITIALISED, "QProblem has already been initialised", VS_VISIBLE)
M(RET_NO_INIT_WITH_STANDARD_SOLVER, "Initialisation via extern QP solver is not yet implemented", VS_VISIBLE)
M(RET_RESET_FAILED, "Reset failed", VS_VISIBLE)
M(RET_INIT_FAILED, "Initialisation failed", VS_VISIBLE)
M(RET_INIT_FAILED_TQ, "Initialisation failed due to TQ factorisation", VS_VISIBLE)
M(RET_INIT_FAILED_CHOLESKY, "Initialisation failed due to Cholesky decomposition", VS_VISIBLE)
M(RET_INIT_FAILED_HOTSTART, "Initialisation failed! QP could not be solved!", VS_VISIBLE)
M(RET_INIT_FAILED_INFEASIBILITY, "Initial QP could not be solved due to infeasibility!", VS_VISIBLE)
M(RET_INIT_FAILED_UNBOUNDEDNESS, "Initial QP could not be solved due to unboundedness!", VS_VISIBLE)
M(RET_INIT_FAILED_REGULARISATION, "Initialisation failed as Hessian matrix could not be regularised", VS_VISIBLE)
M(RET_INIT_SUCCESSFUL, "Initialisation done", VS_VISIBLE)
M(RET_OBTAINING_WORKINGSET_FAILED, "Failed to obtain working set for auxiliary QP", VS_VISIBLE)
M(RET_SETUP_WORKINGSET_FAILED, "Failed to setup working set for auxiliary QP", VS_VISIBLE)
M(RET_SETUP_AUXILIARYQP_FAILED, "Failed to setup auxiliary QP for initialised homotopy", VS_VISIBLE)
M(RET_NO_CHOLESKY_WITH_INITIAL_GUESS, "Externally computed Cholesky factor cannot be combined with an initial guess", VS_VISIBLE)
M(RET_NO_EXTERN_SOLVER, "No extern QP solver available", VS_VISIBLE)
M(RET_QP_UNBOUNDED, "QP is unbounded", VS_VISIBLE)
M(RET_QP_INFEASIBLE, "QP is infeasible", VS_VISIBLE)
M(RET_QP_NOT_SOLVED, "Problems occurred while solving QP with standard solver", VS_VISIBLE)
M(RET_QP_SOLVED, "QP successfully solved", VS_VISIBLE)
M(RET_UNABLE_TO_SOLVE_QP, "Problems occurred while solving QP", VS_VISIBLE)
M(RET_INITIALISATION_STARTED, "Starting problem initialisation...", VS_VISIBLE)
M(RET_HOTSTART_FAILED, "Unable to perform homotopy due to internal error", VS_VISIBLE)
M(RET_HOTSTART_FAILED_TO_INIT, "Unable to initialise problem", VS_VISIBLE)
M(RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED, "Unable to perform homotopy as previous QP is not solved", VS_VISIBLE)
M(RET_ITERATION_STARTED, "Iteration", VS_VISIBLE)
M(RET_SHIFT_DETERMINATION_FAILED, "Determination of shift of the QP data failed", VS_VISIBLE)
M(RET_STEPDIRECTION_DETERMINATION_FAILED, "Determination of step direction failed", VS_VISIBLE)
M(RET_STEPLENGTH_DETERMINATION_FAILED, "Determination of step direction failed", VS_VISIBLE)
M(RET_OPTIMAL_SOLUTION_FOUND, "Optimal solution of neighbouring QP found", VS_VISIBLE)
M(RET_HOMOTOPY_STEP_FAILED, "Unable to perform homotopy step", VS_VISIBLE)
M(RET_HOTSTART_STOPPED_INFEASIBILITY, "Premature homotopy termination because QP is infeasible", VS_VISIBLE)
M(RET_HOTSTART_STOPPED_UNBOUNDEDNESS, "Premature homotopy termination because QP is unbounded", VS_VISIBLE)
M(RET_WORKINGSET_UPDATE_FAILED, "Unable to update working sets according to initial guesses", VS_VISIBLE)
M(RET_MAX_NWSR_REACHED, "Maximum number of working set recalculations performed", VS_VISIBLE)
M(RET_CONSTRAINTS_NOT_SPECIFIED, "Problem does comprise constraints! You have to specify new constraints' bounds", VS_VISIBLE)
M(RET_INVALID_FACTORISATION_FLAG, "Invalid factorisation flag", VS_VISIBLE)
M(RET_UNABLE_TO_SAVE_QPDATA, "Unable to save QP data", VS_VISIBLE)
M(RET_STEPDIRECTION_FAILED_TQ, "Abnormal termination due to TQ factorisation", VS_VISIBLE)
M(RET_STEPDIRECTION_FAILED_CHOLESKY, "Abnormal termination due to Cholesky factorisation", VS_VISIBLE)
M(RET_CYCLING_DETECTED, "Cycling detected", VS_VISIBLE)
M(RET_CYCLING_NOT_RESOLVED, "Cycling cannot be resolved, QP is probably infeasible", VS_VISIBLE)
M(RET_CYCLING_RESOLVED, "Cycling probably resolved", VS_VISIBLE)
M(RET_STEPSIZE, "", VS_VISIBLE)
M(RET_STEPSIZE_NONPOSITIVE, "", VS_VISIBLE)
M(RET_SETUPSUBJECTTOTYPE_FAILED, "Setup of SubjectToTypes failed", VS_VISIBLE)
M(RET_ADDCONSTRAINT_FAILED, "Addition of constraint to working set failed", VS_VISIBLE)
M(RET_ADDCONSTRAINT_FAILED_INFEASIBILITY, "Addition of constraint to working set failed", VS_VISIBLE)
M(RET_ADDBOUND_FAILED, "Addition of bound to working set failed", VS_VISIBLE)
M(RET_ADDBOUND_FAILED_INFEASIBILITY, "Addition of bound to working set failed", VS_VISIBLE)
M(RET_REMOVECONSTRAINT_FAILED, "Removal of constraint from working set failed", VS_VISIBLE)
M(RET_REMOVEBOUND_FAILED, "Removal of bound from working set failed", VS_VISIBLE)
M(RET_REMOVE_FROM_ACTIVESET, "Removing from active set:", VS_VISIBLE)
M(RET_ADD_TO_ACTIVESET, "Adding to active set:", VS_VISIBLE)
M(RET_REMOVE_FROM_ACTIVESET_FAILED, "Removing from active set failed", VS_VISIBLE)
M(RET_ADD_TO_ACTIVESET_FAILED, "Adding to active set failed", VS_VISIBLE)
M(RET_CONSTRAINT_ALREADY_ACTIVE, "Constraint is already active", VS_VISIBLE)
M(RET_ALL_CONSTRAINTS_ACTIVE, "All constraints are active, no further constraint can be added", VS_VISIBLE)
M(RET_LINEARLY_DEPENDENT, "New bound/constraint is linearly dependent", VS_VISIBLE)
M(RET_LINEARLY_INDEPENDENT, "New bound/constraint is linearly independent", VS_VISIBLE)
M(RET_LI_RESOLVED, "Linear independence of active constraint matrix successfully resolved", VS_VISIBLE)
M(RET_ENSURELI_FAILED, "Failed to ensure linear independence of active constraint matrix", VS_VISIBLE)
M(RET_ENSURELI_FAILED_TQ, "Abnormal termination due to TQ factorisation", VS_VISIBLE)
M(RET_ENSURELI_FAILED_NOINDEX, "QP is infeasible", VS_VISIBLE)
M(RET_ENSURELI_FAILED_CYCLING, "QP is infeasible", VS_VISIBLE)
M(RET_BOUND_ALREADY_ACTIVE, "Bound is already active", VS_VISIBLE)
M(RET_ALL_BOUNDS_ACTIVE, "All bounds are active, no further bound can be added", VS_VISIBLE)
M(RET_CONSTRAINT_NOT_ACTIVE, "Constraint is not active", VS_VISIBLE)
M(RET_BOUND_NOT_ACTIVE, "Bound is not active", VS_VISIBLE)
M(RET_HESSIAN_NOT_SPD, "Projected Hessian matrix not positive definite", VS_VISIBLE)
M(RET_HESSIAN_INDEFINITE, "Hessian matrix is indefinite", VS_VISIBLE)
M(RET_MATRIX_SHIFT_FAILED, "Unable to update matrices or to transform vectors", VS_VISIBLE)
M(RET_MATRIX_FACTORISATION_FAILED, "Unable to calculate new matrix factorisations", VS_VISIBLE)
M(RET_PRINT_ITERATION_FAILED, "Unable to print information on current iteration", VS_VISIBLE)
M(RET_NO_GLOBAL_MESSAGE_OUTPUTFILE, "No global message output file initialised", VS_VISIBLE)
M(RET_DISABLECONSTRAINTS_FAILED, "Unable to disable constraints", VS_VISIBLE)
M(RET_ENABLECONSTRAINTS_FAILED, "Unable to enable constraints", VS_VISIBLE)
M(RET_ALREADY_ENABLED, "Bound or constraint is already enabled", VS_VISIBLE)
M(RET_ALREADY_DISABLED, "Bound or constraint is already disabled", VS_VISIBLE)
M(RET_NO_HESSIAN_SPECIFIED, "No Hessian matrix has been specified", VS_VISIBLE)
M(RET_USING_REGULARISATION, "Using regularisation as Hessian matrix is not positive definite", VS_VISIBLE)
M(RET_EPS_MUST_BE_POSITVE, "Eps for regularisation must be sufficiently positive", VS_VISIBLE)
M(RET_REGSTEPS_MUST_BE_POSITVE, "Maximum number of regularisation steps must be non-negative", VS_VISIBLE)
M(RET_HESSIAN_ALREADY_REGULARISED, "Hessian has been already regularised", VS_VISIBLE)
M(RET_CANNOT_REGULARISE_IDENTITY, "Identity Hessian matrix cannot be regularised", VS_VISIBLE)
M(RET_CANNOT_REGULARISE_SPARSE, "Sparse matrix cannot be regularised as diagonal entry is missing", VS_VISIBLE)
M(RET_NO_REGSTEP_NWSR, "No additional regularisation step could be performed due to limits", VS_VISIBLE)
M(RET_FEWER_REGSTEPS_NWSR, "Fewer additional regularisation steps have been performed due to limits", VS_VISIBLE)
M(RET_CHOLESKY_OF_ZERO_HESSIAN, "Cholesky decomposition of (unregularised) zero Hessian matrix", VS_VISIBLE)
M(RET_ZERO_HESSIAN_ASSUMED, "Zero Hessian matrix assumed as null pointer passed without specifying hessianType", VS_VISIBLE)
M(RET_CONSTRAINTS_ARE_NOT_SCALED, "(should not be thrown, no longer in use)", VS_VISIBLE)
M(RET_INITIAL_BOUNDS_STATUS_NYI, "(should not be thrown, no longer in use)", VS_VISIBLE)
M(RET_ERROR_IN_CONSTRAINTPRODUCT, "Error in user-defined constraint product function", VS_VISIBLE)
M(RET_FIX_BOUNDS_FOR_LP, "All initial bounds must be fixed when solving an (unregularised) LP", VS_VISIBLE)
M(RET_USE_REGULARISATION_FOR_LP, "Set options.enableRegularisation=BT_TRUE for solving LPs", VS_VISIBLE)
M(RET_UPDATEMATRICES_FAILED, "Unable to update QP matrices", VS_VISIBLE)
M(RET_UPDATEMATRICES_FAILED_AS_QP_NOT_SOLVED, "Unable to update matrices as previous QP is not solved", VS_VISIBLE)
M(RET_UNABLE_TO_OPEN_FILE, "Unable to open file", VS_VISIBLE)
M(RET_UNABLE_TO_WRITE_FILE, "Unable to write into file", VS_VISIBLE)
M(RET_UNABLE_TO_READ_FILE, "Unable to read from file", VS_VISIBLE)
M(RET_FILEDATA_INCONSISTENT, "File contains inconsistent data", VS_VISIBLE)
M(RET_OPTIONS_ADJUSTED, "Options needed to be adjusted for consistency reasons", VS_VISIBLE)
M(RET_UNABLE_TO_ANALYSE_QPROBLEM, "Unable to analyse (S)QProblem(B) object", VS_VISIBLE)
M(RET_NWSR_SET_TO_ONE, "Maximum number of working set changes was set to 1", VS_VISIBLE)
M(RET_UNABLE_TO_READ_BENCHMARK, "Unable to read benchmark data", VS_VISIBLE)
M(RET_BENCHMARK_ABORTED, "Benchmark aborted", VS_VISIBLE)
M(RET_INITIAL_QP_SOLVED, "Initial QP solved", VS_VISIBLE)
M(RET_QP_SOLUTION_STARTED, "Solving QP no.", VS_VISIBLE)
M(RET_BENCHMARK_SUCCESSFUL, "Benchmark terminated successfully", VS_VISIBLE)
M(RET_NO_DIAGONAL_AVAILABLE, "Sparse matrix does not have entries on full diagonal", VS_VISIBLE)
M(RET_DIAGONAL_NOT_INITIALISED, "Diagonal data of sparse matrix has not been initialised", VS_VISIBLE)
M(RET_ENSURELI_DROPPED, "Linear independence resolved by dropping blocking constraint", VS_VISIBLE)
M(RET_KKT_MATRIX_SINGULAR, "KKT matrix is singular", VS_VISIBLE)
M(RET_QR_FACTORISATION_FAILED, "QR factorization of Schur complement failed", VS_VISIBLE)
M(RET_INERTIA_CORRECTION_FAILED, "Inertia correction of KKT matrix failed", VS_VISIBLE)
M(RET_NO_SPARSE_SOLVER, "No Sparse Solver installed", VS_VISIBLE)
M(RET_SIMPLE_STATUS_P1, "QP problem could not be solved within given number of iterations", VS_VISIBLE)
M(RET_SIMPLE_STATUS_P0, "QP problem solved", VS_VISIBLE)
M(RET_SIMPLE_STATUS_M1, "QP problem could not be solved due to an internal error", VS_VISIBLE)
M(RET_SIMPLE_STATUS_M2, "QP problem is infeasible (and thus could not be solved)", VS_VISIBLE)
M(RET_SIMPLE_STATUS_M3, "QP problem is unbounded (and thus could not be solved)", VS_VISIBLE)
