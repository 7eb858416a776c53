// A dense linear solver behind the sparse solver interface, and the two LAPACK routines the bundled replacement leaves out.
#pragma once
#include "seq.hpp"
namespace qg {
using namespace qpOASES;
static double g_worst = 1;   // smallest reciprocal condition (estimate) of what was factorised
static long g_factorised = 0, g_singular = 0, g_repaired = 0;
static int g_failAt = -1; static bool g_noRank = false;   // injected: the given factorisation fails; rank detection unsupported
// symmetric indefinite factorisation P'AP = LDL' with complete (Bunch-Parlett) pivoting, 0-based pivot positions
struct DenseLdl : public SparseSolver {
    int n = 0, rank = 0, neig = 0; Vec M, L; std::vector<int> perm, blk; bool ok = false, set = false;
    DenseLdl() {}
    DenseLdl(const DenseLdl& r) : SparseSolver(r), n(r.n), rank(r.rank), neig(r.neig), M(r.M), L(r.L), perm(r.perm), blk(r.blk), ok(r.ok), set(r.set) {}
    SparseSolver& operator=(const SparseSolver& s) override { if (const DenseLdl* r = dynamic_cast<const DenseLdl*>(&s)) { n = r->n; rank = r->rank; neig = r->neig; M = r->M; L = r->L; perm = r->perm; blk = r->blk; ok = r->ok; set = r->set; } return *this; }
    returnValue reset() override { n = rank = neig = 0; ok = set = false; M.clear(); L.clear(); return SUCCESSFUL_RETURN; }
    returnValue setMatrixData(int_t dim, int_t nnz, const int_t* const ir, const int_t* const jc, const real_t* const v) override {
        n = (int)dim; M.assign((size_t)n * n, 0.0); ok = false; set = true;
        for (int_t k = 0; k < nnz; k++) {
            int i = (int)ir[k] - 1, j = (int)jc[k] - 1; if (i < 0 || j < 0 || i >= n || j >= n || i < j) { set = false; fprintf(stderr, "BAD ENTRY %d %d of %d\n", i, j, n); abort(); }
            M[(size_t)i * n + j] += v[k]; if (i != j) M[(size_t)j * n + i] += v[k];
        }
        return SUCCESSFUL_RETURN;
    }
    returnValue factorize() override {
        if (!set) return RET_MATRIX_FACTORISATION_FAILED; g_factorised++; if (g_failAt >= 0 && g_failAt-- == 0) return RET_MATRIX_FACTORISATION_FAILED;
        L = M; perm.resize(n); blk.assign(n, 0); for (int i = 0; i < n; i++) perm[i] = i; neig = 0; rank = n; double mx = 0; for (double t : M) mx = std::max(mx, fabs(t));
        const double al = 0.6403882032022076; auto a = [&](int i, int j) -> double& { return L[(size_t)i * n + j]; };
        auto swp = [&](int p, int q) { if (p == q) return; std::swap(perm[p], perm[q]); for (int k = 0; k < n; k++) std::swap(a(p, k), a(q, k)); for (int k = 0; k < n; k++) std::swap(a(k, p), a(k, q)); };
        for (int k = 0; k < n;) {
            double d = -1, o = -1; int di = k, oi = k, oj = k; for (int i = k; i < n; i++) { if (fabs(a(i, i)) > d) { d = fabs(a(i, i)); di = i; } for (int j = k; j < i; j++) if (fabs(a(i, j)) > o) { o = fabs(a(i, j)); oi = i; oj = j; } }
            if (std::max(d, o) <= 1e-14 * mx || !(std::max(d, o) < 1e300)) { rank = k; break; } g_worst = std::min(g_worst, std::max(d, o) / mx);
            if (d >= al * o) {
                swp(k, di); double p = a(k, k); if (p < 0) neig++; for (int i = k + 1; i < n; i++) { double f = a(i, k) / p; for (int j = k + 1; j < n; j++) a(i, j) -= f * a(k, j); } for (int i = k + 1; i < n; i++) { a(i, k) /= p; a(k, i) = 0; }
                blk[k] = 1; k++;
            } else {
                swp(k, oj); swp(k + 1, oi); double e = a(k, k), f = a(k + 1, k + 1), h = a(k + 1, k), det = e * f - h * h; neig++; 
                for (int i = k + 2; i < n; i++) { double u = a(i, k), w = a(i, k + 1), x = (f * u - h * w) / det, y = (e * w - h * u) / det; for (int j = k + 2; j < n; j++) a(i, j) -= x * a(k, j) + y * a(k + 1, j); a(i, k) = x; a(i, k + 1) = y; }
                for (int i = k + 2; i < n; i++) a(k, i) = a(k + 1, i) = 0;
                blk[k] = 2; blk[k + 1] = 3; k += 2;
            }
        }
        ok = rank == n; if (!ok) { g_singular++; std::sort(perm.begin() + rank, perm.end()); return RET_KKT_MATRIX_SINGULAR; }
        return SUCCESSFUL_RETURN;
    }
    returnValue solve(int_t dim, const real_t* const rhs, real_t* const sol) override {
        if (!ok || dim != n) return RET_MATRIX_FACTORISATION_FAILED;
        Vec r(rhs, rhs + n), x(n, 0.0);
        for (int pass = 0; pass < 2; pass++) {   // one refinement
            Vec z(n); for (int i = 0; i < n; i++) z[i] = r[perm[i]];
            for (int k = 0; k < n; k++) for (int i = k + (blk[k] == 2 ? 2 : 1); i < n; i++) z[i] -= L[(size_t)i * n + k] * z[k];
            for (int k = 0; k < n; k++) if (blk[k] == 1) z[k] /= L[(size_t)k * n + k]; else if (blk[k] == 2) { double e = L[(size_t)k * n + k], f = L[(size_t)(k + 1) * n + k + 1], h = L[(size_t)(k + 1) * n + k], det = e * f - h * h, u = z[k], w = z[k + 1]; z[k] = (f * u - h * w) / det; z[k + 1] = (e * w - h * u) / det; }
            for (int k = n - 1; k >= 0; k--) for (int i = k + (blk[k] == 2 ? 2 : 1); i < n; i++) z[k] -= L[(size_t)i * n + k] * z[i];
            for (int i = 0; i < n; i++) x[perm[i]] += z[i];
            for (int i = 0; i < n; i++) { long double s = rhs[i]; for (int j = 0; j < n; j++) s -= (long double)M[(size_t)i * n + j] * x[j]; r[i] = (double)s; }
        }
        for (int i = 0; i < n; i++) sol[i] = x[i]; return SUCCESSFUL_RETURN;
    }
    int_t getNegativeEigenvalues() override { return ok ? neig : -1; }
    int_t getRank() override { return g_noRank ? -1 : rank; }
    returnValue getZeroPivots(int_t*& z) override { g_repaired++; for (int k = rank; k < n; k++) z[k - rank] = perm[k]; return SUCCESSFUL_RETURN; }
};
// the Schur-complement solver with that linear solver plugged in
struct Schur : public SQProblemSchur {
    Schur(int_t n, int_t m, HessianType h, int_t upd) : SQProblemSchur(n, m, h, upd) { delete sparseSolver; sparseSolver = new DenseLdl; }
    Schur(const Schur& r) : SQProblemSchur(r) { delete sparseSolver; sparseSolver = new DenseLdl(*static_cast<const DenseLdl*>(r.sparseSolver)); }
    Schur& operator=(const Schur& r) { SQProblemSchur::operator=(r); return *this; }
    int updates() const { return (int)nS; }
};
} // namespace qg
// linked with --wrap: triangular solve and condition number as LAPACK defines them
extern "C" {
void __wrap_dtrtrs_(const char* U, const char* T, const char* D, const la_uint_t* N, const la_uint_t* K, double* A, const la_uint_t* LA, double* B, const la_uint_t* LB, la_int_t* info) {
    long n = (long)*N, la = (long)*LA, lb = (long)*LB; *info = 0; bool up = *U == 'U', tr = *T != 'N', unit = *D == 'U';
    if (!unit) for (long i = 0; i < n; i++) if (A[i + i * la] == 0) { *info = i + 1; return; }
    for (long r = 0; r < (long)*K; r++) { double* b = B + r * lb; bool back = up != tr;
        for (long s = 0; s < n; s++) { long i = back ? n - 1 - s : s; double v = b[i]; for (long t = 0; t < s; t++) { long j = back ? n - 1 - t : t; v -= (tr ? A[j + i * la] : A[i + j * la]) * b[j]; } b[i] = unit ? v : v / A[i + i * la]; } }
}
void __wrap_dtrcon_(const char* NORM, const char* U, const char* D, const la_uint_t* N, double* A, const la_uint_t* LA, double* rcond, double*, const la_uint_t*, la_int_t* info) {
    long n = (long)*N, la = (long)*LA; *info = 0; *rcond = n ? 0 : 1; bool up = *U == 'U'; double na = 0, ni = 0; la_int_t f = 0; la_uint_t one = 1;
    bool inf = *NORM == 'I'; std::vector<double> rowA(n, 0.0), rowI(n, 0.0);
    for (long j = 0; j < n; j++) { double s = 0; for (long i = up ? 0 : j; i <= (up ? j : n - 1); i++) { s += fabs(A[i + j * la]); rowA[i] += fabs(A[i + j * la]); } na = std::max(na, s); std::vector<double> e(n, 0.0); e[j] = 1; la_uint_t ln = *N; __wrap_dtrtrs_(U, "N", D, N, &one, A, LA, e.data(), &ln, &f); if (f) return; s = 0; for (long i = 0; i < n; i++) { s += fabs(e[i]); rowI[i] += fabs(e[i]); } ni = std::max(ni, s); }
    if (inf) { na = ni = 0; for (double v : rowA) na = std::max(na, v); for (double v : rowI) ni = std::max(ni, v); }
    if (na > 0 && ni > 0) *rcond = 1 / na / ni; qg::g_worst = std::min(qg::g_worst, *rcond);
}
}
