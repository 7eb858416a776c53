/* the C side's view of the interface: sizes, offsets, constants */
#include <stddef.h>
#include "qpOASES_wrapper.h"
const long cc_sizes[] = { sizeof(qpOASES_Options), sizeof(int_t), sizeof(real_t), offsetof(qpOASES_Options, enableEqualities), offsetof(qpOASES_Options, terminationTolerance), offsetof(qpOASES_Options, initialStatusBounds), offsetof(qpOASES_Options, rcondSMin), offsetof(qpOASES_Options, dropIneqConPriority) };
const long cc_consts[] = { HST_ZERO, HST_IDENTITY, HST_POSDEF, HST_POSDEF_NULLSPACE, HST_SEMIDEF, HST_INDEF, HST_UNKNOWN, ST_LOWER, ST_INACTIVE, ST_UPPER, ST_INFEASIBLE_LOWER, ST_INFEASIBLE_UPPER, ST_UNDEFINED, PL_DEBUG_ITER, PL_TABULAR, PL_NONE, PL_LOW, PL_MEDIUM, PL_HIGH };
int_t cc_opt_init(qpOASES_Options* o, int_t mode) { return qpOASES_Options_init(o, mode); }
