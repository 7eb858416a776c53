#include "c19mex.inc"
namespace oct_one {
#include "../octave/qpOASES.cpp"
}
namespace oct_seq {
#include "../octave/qpOASES_sequence.cpp"
}
void mexOctOne(int nl, mxArray** l, int nr, const mxArray** r) { oct_one::mexFunction(nl, l, nr, r); }
void mexOctSeq(int nl, mxArray** l, int nr, const mxArray** r) { oct_seq::mexFunction(nl, l, nr, r); }
