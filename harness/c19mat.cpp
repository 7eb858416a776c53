#include "c19mex.inc"
namespace mat_one {
#include "../matlab/qpOASES.cpp"
}
namespace mat_seq {
#include "../matlab/qpOASES_sequence.cpp"
}
void mexMatOne(int nl, mxArray** l, int nr, const mxArray** r) { mat_one::mexFunction(nl, l, nr, r); }
void mexMatSeq(int nl, mxArray** l, int nr, const mxArray** r) { mat_seq::mexFunction(nl, l, nr, r); }
