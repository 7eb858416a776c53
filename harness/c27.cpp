// C27: bundled linear algebra equals its specification
#include "qpgen.hpp"
#include <qpOASES/LapackBlasReplacement.hpp>
using namespace qg;
template <class F> struct Fn; 
template <> struct Fn<double> { static void gemm(const char* a, const char* b, la_uint_t m, la_uint_t n, la_uint_t k, double al, const double* A, la_uint_t lda, const double* B, la_uint_t ldb, double be, double* C, la_uint_t ldc) { DGEMM(a, b, &m, &n, &k, &al, A, &lda, B, &ldb, &be, C, &ldc); } static void potrf(const char* u, la_uint_t n, double* a, la_uint_t lda, la_int_t* info) { DPOTRF(u, &n, a, &lda, info); }
    static void trtrs(const char* u, const char* t, const char* d, la_uint_t n, la_uint_t r, double* a, la_uint_t lda, double* b, la_uint_t ldb, la_int_t* info) { DTRTRS(u, t, d, &n, &r, a, &lda, b, &ldb, info); } static void trcon(la_uint_t n, double* a, la_uint_t lda, double* rc, double* w, la_uint_t* iw, la_int_t* info) { DTRCON("1", "U", "N", &n, a, &lda, rc, w, iw, info); } static constexpr double eps = 2.3e-16; static const char* name() { return "double"; } };
template <> struct Fn<float> { static void gemm(const char* a, const char* b, la_uint_t m, la_uint_t n, la_uint_t k, float al, const float* A, la_uint_t lda, const float* B, la_uint_t ldb, float be, float* C, la_uint_t ldc) { SGEMM(a, b, &m, &n, &k, &al, A, &lda, B, &ldb, &be, C, &ldc); } static void potrf(const char* u, la_uint_t n, float* a, la_uint_t lda, la_int_t* info) { SPOTRF(u, &n, a, &lda, info); }
    static void trtrs(const char* u, const char* t, const char* d, la_uint_t n, la_uint_t r, float* a, la_uint_t lda, float* b, la_uint_t ldb, la_int_t* info) { STRTRS(u, t, d, &n, &r, a, &lda, b, &ldb, info); } static void trcon(la_uint_t n, float* a, la_uint_t lda, float* rc, float* w, la_uint_t* iw, la_int_t* info) { STRCON("1", "U", "N", &n, a, &lda, rc, w, iw, info); } static constexpr double eps = 1.3e-7; static const char* name() { return "float"; } };
// column-major block with leading dimension; everything outside the block is a mark that must survive (and must not be used)
template <class F> struct Blk { std::vector<F> v; int r, c, ld, off = 3; Blk(int r_, int c_, int ld_) : v((size_t)ld_ * std::max(c_, 1) + 7, (F)NAN), r(r_), c(c_), ld(ld_) {} F* p() { return v.data() + off; } F& at(int i, int j) { return v[off + (size_t)ld * j + i]; } bool in(size_t k) const { if (k < (size_t)off) return false; size_t t = k - off; return (int)(t / ld) < c && (int)(t % ld) < r; } };
template <class F> static bool same(F a, F b) { return memcmp(&a, &b, sizeof(F)) == 0; }
template <class F> static bool outsideSame(const Blk<F>& a, const Blk<F>& b) { for (size_t k = 0; k < a.v.size(); k++) if (!a.in(k) && !same(a.v[k], b.v[k])) return false; return true; }
template <class F> static bool allSame(const Blk<F>& a, const Blk<F>& b) { return a.v.size() == b.v.size() && memcmp(a.v.data(), b.v.data(), a.v.size() * sizeof(F)) == 0; }
static int gsize(Ctx& c) { return c.raw(12) == 0 ? c.range(9, 24) : c.range(0, 8); }
template <class F> static void gemm(Ctx& c) {
    int m = gsize(c), n = gsize(c), k = gsize(c); bool ta = c.flag(), whole = c.raw(3) != 0; int ar = ta ? k : m, ac = ta ? m : k; Blk<F> A(ar, ac, std::max(1, ar + c.range(0, 3))), B(k, n, std::max(1, k + c.range(0, 3))), C(m, n, std::max(1, m + c.range(0, 3)));
    std::vector<double> sc = {1, -1, 0, 2, 0.5, -3, 1.25}; F al = (F)(c.raw(6) ? c.pick(sc) : c.real(2)), be = (F)(c.raw(6) ? c.pick(sc) : c.real(2)); if (!whole && c.raw(8) == 0) al = (F)(c.flag() ? 1 + 4 * Fn<F>::eps : -1 - 4 * Fn<F>::eps);
    auto fill = [&](Blk<F>& b) { for (int j = 0; j < b.c; j++) for (int i = 0; i < b.r; i++) b.at(i, j) = (F)(whole ? c.sint(6) : c.real(4)); }; fill(A); fill(B); bool nanC = be == 0 && c.flag(); if (!nanC) fill(C); if (c.verbose) c.desc << Fn<F>::name() << " gemm " << (ta ? "T" : "N") << " m=" << m << " n=" << n << " k=" << k << " alpha=" << al << " beta=" << be << " ld=" << A.ld << "," << B.ld << "," << C.ld;
    Blk<F> A0 = A, B0 = B, C0 = C; Fn<F>::gemm(ta ? (c.flag() ? "TRANS" : "T") : (c.flag() ? "NOTRANS" : "N"), c.flag() ? "NOTRANS" : "N", m, n, k, al, A.p(), A.ld, B.p(), B.ld, be, C.p(), C.ld);
    PBT_CHECK(c, allSame(A, A0) && allSame(B, B0), "gemm-inputs", "an input was modified"); PBT_CHECK(c, outsideSame(C, C0), "gemm-outside", "written outside the block, m=" << m << " n=" << n << " ldc=" << C.ld);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { long double t = be == 0 ? 0 : (long double)be * C0.at(i, j), s = fabsl(t); for (int l = 0; l < k; l++) { long double a = ta ? A.at(l, i) : A.at(i, l), x = (long double)al * a * B.at(l, j); t += x; s += fabsl(x); } bool exact = whole && fabs(al * 4) == floor(fabs(al * 4)) && fabs(be * 4) == floor(fabs(be * 4)); F got = C.at(i, j);
        PBT_CHECK(c, exact ? (long double)got == t : fabsl(got - t) <= 4 * (k + 3) * Fn<F>::eps * s, std::string("gemm-") + Fn<F>::name(), "entry " << i << "," << j << " is " << got << " instead of " << (double)t << " m=" << m << " n=" << n << " k=" << k << (ta ? " transposed" : "") << " alpha=" << al << " beta=" << be << " ld " << A.ld << " " << B.ld << " " << C.ld); }
    c.nontrivial = m > 0 && n > 0 && k > 0; c.label(std::string("gemm ") + Fn<F>::name() + (ta ? " transposed" : "")); if (nanC) c.label("beta 0 with undefined contents");
}
template <class F> static void potrf(Ctx& c) {
    int n = c.raw(12) == 0 ? c.range(9, 24) : c.range(0, 8); bool whole = c.raw(3) != 0; if (whole && sizeof(F) == 4 && n > 8) n = 8; Blk<F> A(n, n, std::max(1, n + c.range(0, 3))); std::vector<std::vector<double>> R(n, std::vector<double>(n, 0.0)); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) R[i][j] = j == i ? (whole ? c.range(1, 4) : 0.3 + 3 * c.pos01()) : whole ? c.sint(3) : c.real(1);
    int fail = c.raw(3) == 0 && n ? c.range(0, n - 1) : -1; double drop = 0; bool nan = false;
    // upper triangle of R'R; the strictly lower part holds marks that have to survive
    for (int j = 0; j < n; j++) for (int i = 0; i <= j; i++) { double t = 0; for (int k = 0; k <= i; k++) t += R[k][i] * R[k][j]; A.at(i, j) = (F)t; }
    if (fail >= 0) { double piv = R[fail][fail] * R[fail][fail]; int kind = (int)c.raw(4); drop = kind == 0 ? 0 : whole ? -(double)c.range(1, 30) : -(0.25 + 5 * c.pos01()); if (kind == 3) { nan = true; A.at(fail, fail) = (F)NAN; } else { if (!whole && kind == 0) drop = -0.5; A.at(fail, fail) = (F)((double)A.at(fail, fail) - piv + drop); } }
    bool noInfo = c.raw(8) == 0; if (c.verbose) c.desc << Fn<F>::name() << " potrf n=" << n << " ld=" << A.ld << " fail=" << fail << (nan ? " nan" : "") << " first " << (n ? (double)A.at(0, 0) : 0);
    Blk<F> A0 = A; la_int_t info = 777; Fn<F>::potrf("U", n, A.p(), A.ld, noInfo ? nullptr : &info); PBT_CHECK(c, outsideSame(A, A0), "potrf-outside", "written outside the block, n=" << n << " lda=" << A.ld);
    for (int j = 0; j < n; j++) for (int i = j + 1; i < n; i++) PBT_CHECK(c, same(A.at(i, j), A0.at(i, j)), "potrf-lower", "the lower triangle was used at " << i << "," << j);
    c.nontrivial = n > 1; c.label(std::string("potrf ") + Fn<F>::name() + (fail < 0 ? " definite" : nan ? " nan" : drop == 0 ? " singular" : " indefinite"));
    if (fail >= 0) { if (!noInfo) PBT_CHECK(c, info == fail + 1, "potrf-info", "info " << (long)info << " instead of " << fail + 1 << " n=" << n); double got = A.at(0, 0); if (!nan) PBT_CHECK(c, fabs(got - drop) <= (whole ? 0 : 30 * sqrt(Fn<F>::eps) * (1 + fabs(drop))) , "potrf-pivot", "failing pivot " << got << " instead of " << drop); else PBT_CHECK(c, got != got, "potrf-pivot", "failing pivot " << got << " instead of nan"); return; }
    if (!noInfo) PBT_CHECK(c, info == 0, "potrf-info", "info " << (long)info << " for a positive definite matrix, n=" << n);
    for (int j = 0; j < n; j++) for (int i = 0; i <= j; i++) { double want = R[i][j]; if (whole) { PBT_CHECK(c, A.at(i, j) == (F)want, std::string("potrf-") + Fn<F>::name(), "factor at " << i << "," << j << " is " << A.at(i, j) << " instead of " << want << " n=" << n); } else { long double t = 0, s = 0; for (int k = 0; k <= i; k++) { t += (long double)A.at(k, i) * A.at(k, j); s += fabsl((long double)A.at(k, i) * A.at(k, j)); } PBT_CHECK(c, fabsl(t - A0.at(i, j)) <= 8 * (n + 2) * Fn<F>::eps * (s + 1), std::string("potrf-") + Fn<F>::name(), "product of factors at " << i << "," << j << " is " << (double)t << " instead of " << A0.at(i, j)); } }
    for (int i = 0; i < n; i++) PBT_CHECK(c, A.at(i, i) > 0, "potrf-sign", "diagonal entry not positive");
}
// the bundled triangular solver and condition estimate: either right or refused
template <class F> static void tri(Ctx& c) {
    int n = c.range(1, 7), r = c.range(1, 3); Blk<F> A(n, n, n + c.range(0, 2)), B(n, r, n + c.range(0, 2)); for (int j = 0; j < n; j++) for (int i = 0; i <= j; i++) A.at(i, j) = (F)(i == j ? c.range(1, 3) : c.sint(2)); for (int j = 0; j < r; j++) for (int i = 0; i < n; i++) B.at(i, j) = (F)c.sint(9); Blk<F> A0 = A, B0 = B; la_int_t info = 777; bool t = c.flag(); if (c.verbose) c.desc << Fn<F>::name() << " triangular n=" << n;
    Fn<F>::trtrs("U", t ? "T" : "N", "N", n, r, A.p(), A.ld, B.p(), B.ld, &info); PBT_CHECK(c, allSame(A, A0) && outsideSame(B, B0), "trtrs-outside", "written outside the block"); PBT_CHECK(c, info != 777, "trtrs-info", "no report");
    if (info == 0) for (int j = 0; j < r; j++) for (int i = 0; i < n; i++) { double s = 0, w = 0; for (int k = 0; k < n; k++) { double a = t ? (k <= i ? A.at(k, i) : 0) : (k >= i ? A.at(i, k) : 0); s += a * B.at(k, j); w += fabs(a * B.at(k, j)); } PBT_CHECK(c, fabs(s - B0.at(i, j)) <= 50 * n * Fn<F>::eps * (w + 1), "trtrs", "wrong solution reported as success"); } else PBT_CHECK(c, allSame(B, B0), "trtrs-refused", "right-hand side modified although refused");
    F rc = (F)-1; std::vector<F> w(3 * n + 2, (F)5); std::vector<la_uint_t> iw(n + 2, 9); info = 777; Fn<F>::trcon(n, A.p(), A.ld, &rc, w.data() + 1, iw.data() + 1, &info); PBT_CHECK(c, info != 777 && allSame(A, A0) && w[0] == 5 && w.back() == 5 && iw[0] == 9 && iw.back() == 9, "trcon-outside", "no report, or written outside the arrays"); if (info == 0) PBT_CHECK(c, rc > 0 && rc <= 1.0001, "trcon", "condition estimate " << rc); c.label("triangular"); c.nontrivial = true;
}
PBT_PROP(gemm_double, 4) { gemm<double>(c); }
PBT_PROP(gemm_float, 2) { gemm<float>(c); }
PBT_PROP(potrf_double, 4) { potrf<double>(c); }
PBT_PROP(potrf_float, 2) { potrf<float>(c); }
PBT_PROP(triangular, 1) { if (c.flag()) tri<double>(c); else tri<float>(c); }
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
