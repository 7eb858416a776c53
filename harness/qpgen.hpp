// Generators of QPs with known answers, a plain dense reference, and helpers to drive the library.
#pragma once
#include "pbt.hpp"
#include <qpOASES.hpp>
#include <memory>
#include <limits>

namespace qg {
using qpOASES::real_t; using qpOASES::int_t; using qpOASES::BooleanType; using qpOASES::BT_TRUE; using qpOASES::BT_FALSE;
using qpOASES::returnValue; using qpOASES::SUCCESSFUL_RETURN;
typedef std::vector<double> Vec;
typedef pbt::Ctx Ctx;
static const double INF = qpOASES::INFTY;

// ---------------------------------------------------------------- printing
inline std::string str(const Vec& v) { std::ostringstream o; o.precision(17); o << "["; for (size_t i = 0; i < v.size(); i++) o << (i ? " " : "") << v[i]; o << "]"; return o.str(); }
inline std::string strM(const Vec& v, int r, int c) { std::ostringstream o; o.precision(17); o << "["; for (int i = 0; i < r; i++) { o << (i ? "; " : ""); for (int j = 0; j < c; j++) o << (j ? " " : "") << v[(size_t)i * c + j]; } o << "]"; return o.str(); }
template <class T> std::string strI(const std::vector<T>& v) { std::ostringstream o; o << "["; for (size_t i = 0; i < v.size(); i++) o << (i ? " " : "") << v[i]; o << "]"; return o.str(); }

// ---------------------------------------------------------------- problem
enum HKind { HK_DENSE = 0, HK_ID = 1, HK_ZERO = 2 };
struct QP {
    int n = 0, m = 0; int hk = HK_DENSE;
    Vec H, g, A, lb, ub, lbA, ubA;     // H n*n, A m*n row major; absent sides are +-INF
    Vec xs, ys; double obj = 0; bool hasSol = false;
    bool generic = false;
    double h(int i, int j) const { return hk == HK_DENSE ? H[(size_t)i * n + j] : (hk == HK_ID ? (i == j) : 0.0); }
    std::string show() const {
        std::ostringstream o; o << "n=" << n << " m=" << m << " H=" << (hk == HK_DENSE ? strM(H, n, n) : hk == HK_ID ? "identity" : "zero") << " g=" << str(g) << " lb=" << str(lb) << " ub=" << str(ub);
        if (m) o << " A=" << strM(A, m, n) << " lbA=" << str(lbA) << " ubA=" << str(ubA);
        if (hasSol) { o << " planted x=" << str(xs) << " y=" << str(ys) << " obj=" << obj; }
        return o.str();
    }
    double objective(const double* x) const { long double s = 0; for (int i = 0; i < n; i++) { long double hx = 0; for (int j = 0; j < n; j++) hx += (long double)h(i, j) * x[j]; s += x[i] * (0.5L * hx + g[i]); } return (double)s; }
    double objScale(const double* x) const { long double s = 1; for (int i = 0; i < n; i++) { long double hx = 0; for (int j = 0; j < n; j++) hx += fabsl((long double)h(i, j) * x[j]); s += fabsl(x[i]) * (0.5L * hx + fabs(g[i])); } return (double)s; }
};
struct Kkt { double stat = 0, feas = 0, cmpl = 0, sign = 0; double mx() const { return std::max(std::max(stat, feas), std::max(cmpl, sign)); } };
// residuals of the optimality conditions; complementarity: |y| * distance to the side y belongs to
inline Kkt kkt(const QP& q, const double* x, const double* y) {
    Kkt k; int n = q.n, m = q.m;
    for (int i = 0; i < n; i++) {
        long double r = q.g[i]; for (int j = 0; j < n; j++) r += (long double)q.h(i, j) * x[j];
        r -= y[i]; for (int j = 0; j < m; j++) r -= (long double)q.A[(size_t)j * n + i] * y[n + j];
        if (!(fabsl(r) <= k.stat)) k.stat = (double)fabsl(r);
    }
    for (int i = 0; i < n + m; i++) {
        long double v = 0; double l, u;
        if (i < n) { v = x[i]; l = q.lb[i]; u = q.ub[i]; }
        else { for (int j = 0; j < n; j++) v += (long double)q.A[(size_t)(i - n) * n + j] * x[j]; l = q.lbA[i - n]; u = q.ubA[i - n]; }
        if (l > -INF && !(l - v <= k.feas)) k.feas = (double)(l - v);
        if (u < INF && !(v - u <= k.feas)) k.feas = (double)(v - u);
        double cc = 0;
        if (y[i] > 0) { cc = l > -INF ? (double)(y[i] * fabsl(v - l)) : y[i]; }
        else if (y[i] < 0) { cc = u < INF ? (double)(-y[i] * fabsl(v - u)) : -y[i]; }
        else if (!(y[i] == 0)) cc = std::numeric_limits<double>::quiet_NaN();
        if (!(cc <= k.cmpl)) k.cmpl = cc;
    }
    return k;
}
inline double normInf(const Vec& v) { double r = 0; for (double x : v) if (fabs(x) > r) r = fabs(x); return r; }

// ---------------------------------------------------------------- dense reference linear algebra (long double)
typedef std::vector<long double> LVec;
// solves M X = B in place (k right-hand sides, row major); false if singular
inline bool gauss(LVec M, int n, LVec& B, int k, long double* minPivot = nullptr) {
    long double mp = 1e300L;
    for (int c = 0; c < n; c++) {
        int p = c; for (int r = c + 1; r < n; r++) if (fabsl(M[(size_t)r * n + c]) > fabsl(M[(size_t)p * n + c])) p = r;
        long double pv = M[(size_t)p * n + c]; if (fabsl(pv) < mp) mp = fabsl(pv);
        if (fabsl(pv) < 1e-13L) { if (minPivot) *minPivot = mp; return false; }
        if (p != c) { for (int j = 0; j < n; j++) std::swap(M[(size_t)p * n + j], M[(size_t)c * n + j]); for (int j = 0; j < k; j++) std::swap(B[(size_t)p * k + j], B[(size_t)c * k + j]); }
        for (int r = c + 1; r < n; r++) { long double f = M[(size_t)r * n + c] / pv; if (f == 0) continue; for (int j = c; j < n; j++) M[(size_t)r * n + j] -= f * M[(size_t)c * n + j]; for (int j = 0; j < k; j++) B[(size_t)r * k + j] -= f * B[(size_t)c * k + j]; }
    }
    for (int c = n - 1; c >= 0; c--) for (int j = 0; j < k; j++) { long double s = B[(size_t)c * k + j]; for (int l = c + 1; l < n; l++) s -= M[(size_t)c * n + l] * B[(size_t)l * k + j]; B[(size_t)c * k + j] = s / M[(size_t)c * n + c]; }
    if (minPivot) *minPivot = mp; return true;
}
// incremental test that rows stay well-conditioned linearly independent
struct Indep {
    int n; std::vector<LVec> q; explicit Indep(int n_) : n(n_) {}
    bool add(const double* a) {
        if ((int)q.size() >= n) return false;
        LVec v(a, a + n); long double n0 = 0; for (auto x : v) n0 += x * x; if (n0 < 1e-12L) return false;
        for (int rep = 0; rep < 2; rep++) for (auto& w : q) { long double d = 0; for (int i = 0; i < n; i++) d += w[i] * v[i]; for (int i = 0; i < n; i++) v[i] -= d * w[i]; }
        long double n1 = 0; for (auto x : v) n1 += x * x; if (n1 < 0.01L * n0) return false;
        n1 = sqrtl(n1); for (auto& x : v) x /= n1; q.push_back(v); return true;
    }
};

// ---------------------------------------------------------------- generators
struct Shape { int nMax = 8, mMax = 8; bool allowBig = true; bool forceC = false; };
inline void genSize(Ctx& c, QP& q, const Shape& s) {
    int k = c.weighted({6, 3, s.allowBig ? 1 : 0});
    if (k == 0) { q.n = c.range(1, std::min(4, s.nMax)); q.m = s.mMax ? c.range(0, std::min(4, s.mMax)) : 0; }
    else if (k == 1) { q.n = c.range(1, s.nMax); q.m = s.mMax ? c.range(0, s.mMax) : 0; }
    else { q.n = c.range(5, s.nMax + 8); q.m = s.mMax ? c.range(0, s.mMax + 12) : 0; }
    if (s.forceC && q.m == 0) q.m = 1;
}
inline double val(Ctx& c, bool generic, int small) { return generic ? c.real(small) : (double)c.sint(small); }
inline double posval(Ctx& c, bool generic, int small) { return generic ? 0.25 + small * c.pos01() : 1.0 + c.raw(small); }
// strictly convex Hessian of moderate conditioning
inline void genH(Ctx& c, QP& q, bool allowId = true) {
    int n = q.n; int kind = c.weighted({4, allowId ? 1 : 0, 2, 2});
    if (kind == 1) { q.hk = HK_ID; q.H.clear(); return; }
    q.hk = HK_DENSE; q.H.assign((size_t)n * n, 0.0);
    if (kind == 2) { for (int i = 0; i < n; i++) q.H[(size_t)i * n + i] = posval(c, q.generic, 4); return; }
    int dens = kind == 3 ? 3 : 1;
    Vec L((size_t)n * n, 0.0);
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (dens == 1 || c.raw(dens) == 0) L[(size_t)i * n + j] = val(c, q.generic, 2);
    for (int i = 0; i < n; i++) L[(size_t)i * n + i] = val(c, q.generic, 2);
    double s = n > 6 ? 0.25 : 1.0;
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { double v = 0; for (int k = 0; k < n; k++) v += L[(size_t)i * n + k] * L[(size_t)j * n + k]; v *= s; if (i == j) v += 1 + c.raw(3); q.H[(size_t)i * n + j] = q.H[(size_t)j * n + i] = v; }
}
inline void genA(Ctx& c, QP& q) {
    int n = q.n, m = q.m; q.A.assign((size_t)m * n, 0.0); bool sparse = c.flag();
    for (int i = 0; i < m; i++) { bool any = false; for (int j = 0; j < n; j++) if (!sparse || c.raw(3) == 0) { double v = val(c, q.generic, 3); q.A[(size_t)i * n + j] = v; if (v != 0) any = true; } if (!any) q.A[(size_t)i * n + c.raw(n)] = 1.0; }
}
enum SideKind { S_TWO = 0, S_NONE, S_LOW, S_UPP, S_ACTL, S_ACTU, S_EQ };
// degenerate: more sides attained than needed, but the feasible set keeps an interior (relative to the equalities) unless thin
struct VecOpt { bool degenerate = false; bool thin = false; int eqW = 1; double farScale = 0; bool noneAllowed = true; };
// vectors with a planted unique optimum for the current H, A; with !degenerate also a unique multiplier (LICQ + strict complementarity)
inline void genVectors(Ctx& c, QP& q, const VecOpt& o = VecOpt()) {
    int n = q.n, m = q.m; q.xs.resize(n); q.ys.assign(n + m, 0.0); q.lb.resize(n); q.ub.resize(n); q.lbA.resize(m); q.ubA.resize(m); q.g.resize(n);
    for (int i = 0; i < n; i++) q.xs[i] = val(c, q.generic, 4);
    Indep ind(n); int density = c.raw(4);
    std::vector<int> ord; for (int i = 0; i < n + m; i++) ord.push_back(i);
    Vec dir(n, 0.0); if (o.degenerate && !o.thin) for (auto& x : dir) x = 1 + (double)c.raw(3) - (c.flag() ? 4 : 0);
    bool consFirst = c.flag(); if (consFirst) std::rotate(ord.begin(), ord.begin() + n, ord.end());
    for (int idx : ord) {
        bool isB = idx < n; Vec row(n, 0.0); long double v = 0;
        if (isB) { row[idx] = 1; v = q.xs[idx]; } else for (int j = 0; j < n; j++) { row[j] = q.A[(size_t)(idx - n) * n + j]; v += (long double)row[j] * q.xs[j]; }
        int k;
        if ((int)c.raw(4) < density) k = S_ACTL + c.weighted({3, 3, o.eqW}); else k = c.weighted({3, 2, 1, 1});
        double vv = (double)v, l = -INF, u = INF;
        bool active = k >= S_ACTL;
        if (active && !o.degenerate && !ind.add(row.data())) { k = S_TWO; active = false; }
        double mag = posval(c, q.generic, 3);
        if (active && o.degenerate && !o.thin) {
            double slope = 0; for (int j = 0; j < n; j++) slope += row[j] * dir[j];
            if (k == S_EQ) { if (fabs(slope) > 1e-12 || !ind.add(row.data())) { k = S_TWO; active = false; } }
            else if (fabs(slope) < 0.125) { k = S_TWO; active = false; }
            else k = slope > 0 ? S_ACTL : S_ACTU;
        }
        bool weak = o.degenerate && active && c.raw(3) == 0;
        switch (k) {
            case S_TWO: l = vv - posval(c, q.generic, 5); u = vv + posval(c, q.generic, 5); break;
            case S_NONE: break;
            case S_LOW: l = vv - posval(c, q.generic, 5); break;
            case S_UPP: u = vv + posval(c, q.generic, 5); break;
            case S_ACTL: l = vv; if (c.raw(3)) u = vv + posval(c, q.generic, 5); q.ys[idx] = weak ? 0 : mag; break;
            case S_ACTU: u = vv; if (c.raw(3)) l = vv - posval(c, q.generic, 5); q.ys[idx] = weak ? 0 : -mag; break;
            case S_EQ: l = u = vv; q.ys[idx] = weak ? 0 : (c.flag() ? -mag : mag); break;
        }
        if (isB) { q.lb[idx] = l; q.ub[idx] = u; } else { q.lbA[idx - n] = l; q.ubA[idx - n] = u; }
    }
    for (int i = 0; i < n; i++) {
        long double s = q.ys[i]; for (int j = 0; j < m; j++) s += (long double)q.A[(size_t)j * n + i] * q.ys[n + j];
        for (int j = 0; j < n; j++) s -= (long double)q.h(i, j) * q.xs[j];
        q.g[i] = (double)s;
    }
    q.hasSol = true; q.obj = q.objective(q.xs.data());
}
inline int countActive(const QP& q) { int k = 0; for (double v : q.ys) if (v != 0) k++; return k; }
inline QP genPlanted(Ctx& c, const Shape& s = Shape(), const VecOpt& o = VecOpt(), bool allowId = true) {
    QP q; q.generic = c.raw(3) != 0; genSize(c, q, s); genH(c, q, allowId); genA(c, q); genVectors(c, q, o); return q;
}
// convex problem with singular Hessian (or an LP): planted optimal value, minimiser possibly not unique
inline void genHpsd(Ctx& c, QP& q) {
    int n = q.n; int kind = c.weighted({2, 3}); if (kind == 0) { q.hk = HK_ZERO; q.H.clear(); return; }
    q.hk = HK_DENSE; q.H.assign((size_t)n * n, 0.0); int r = c.range(0, n - 1);
    for (int k = 0; k < r; k++) { Vec v(n); for (auto& x : v) x = c.raw(2) ? (double)c.sint(2) : 0.0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) q.H[(size_t)i * n + j] += v[i] * v[j]; }
}

// infeasible by a Farkas certificate with margin; needs m>=1
inline void genInfeasible(Ctx& c, QP& q, bool nondeg = false) {
    VecOpt vo; if (nondeg) vo.degenerate = false;
    int n = q.n, m = q.m; genVectors(c, q, vo); q.hasSol = false;
    // last row := combination of some rows and bounds
    int last = m - 1; if (m > 1) last = (int)c.raw(m);
    Vec row(n, 0.0); long double rhs = 0;  // row = sum lam_i a_i + mu ; sum over >= rhs
    bool any = false;
    for (int i = 0; i < m; i++) if (i != last && c.raw(3) == 0) {
        double lam = c.flag() ? -(1.0 + c.raw(2)) : 1.0 + c.raw(2); any = true;
        for (int j = 0; j < n; j++) row[j] += lam * q.A[(size_t)i * n + j];
        double x = 0; for (int j = 0; j < n; j++) x += q.A[(size_t)i * n + j] * q.xs[j];
        if (lam > 0) { if (q.lbA[i] <= -INF) { q.lbA[i] = x - posval(c, q.generic, 3); } rhs += (long double)lam * q.lbA[i]; }
        else { if (q.ubA[i] >= INF) q.ubA[i] = x + posval(c, q.generic, 3); rhs += (long double)lam * q.ubA[i]; }
    }
    for (int j = 0; j < n; j++) if (!any || c.raw(3) == 0) {
        double mu = c.flag() ? -(1.0 + c.raw(2)) : 1.0 + c.raw(2); any = true; row[j] += mu;
        if (mu > 0) { if (q.lb[j] <= -INF) q.lb[j] = q.xs[j] - posval(c, q.generic, 3); rhs += (long double)mu * q.lb[j]; }
        else { if (q.ub[j] >= INF) q.ub[j] = q.xs[j] + posval(c, q.generic, 3); rhs += (long double)mu * q.ub[j]; }
    }
    double s = c.flag() ? -1.0 : 1.0; double gap = posval(c, q.generic, 3);
    for (int j = 0; j < n; j++) q.A[(size_t)last * n + j] = s * row[j];
    // row x >= rhs for all x satisfying the others; demand row x <= rhs-gap
    double r2 = (double)rhs - gap; double width = posval(c, q.generic, 3); bool two = c.flag();
    if (s > 0) { q.ubA[last] = r2; q.lbA[last] = two ? r2 - width : -INF; } else { q.lbA[last] = -r2; q.ubA[last] = two ? -r2 + width : INF; }
}
// feasible, unbounded below along a ray
inline void genUnbounded(Ctx& c, QP& q, bool oneRay = false) {   // oneRay: the Hessian is positive definite off the ray
    int n = q.n, m = q.m; Vec d(n, 0.0); bool any = false; for (auto& x : d) { x = c.sint(2); if (x != 0) any = true; } if (!any) d[c.raw(n)] = 1;
    double dd = 0; for (double x : d) dd += x * x;
    if (!oneRay && c.raw(3) == 0) { q.hk = HK_ZERO; q.H.clear(); }
    else if (oneRay) {
        q.hk = HK_DENSE; q.H.assign((size_t)n * n, 0.0); double f = 1 + c.raw(3);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) q.H[(size_t)i * n + j] = f * ((i == j ? dd : 0.0) - d[i] * d[j]);
    }
    else {
        q.hk = HK_DENSE; q.H.assign((size_t)n * n, 0.0); int r = c.range(0, n - 1);
        for (int k = 0; k < r; k++) { Vec v(n); double vd = 0; for (int i = 0; i < n; i++) { v[i] = c.sint(1); vd += v[i] * d[i]; } for (int i = 0; i < n; i++) v[i] = (v[i] * dd - vd * d[i]); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) q.H[(size_t)i * n + j] += v[i] * v[j] * (1.0 / 16); }
    }
    Vec x0(n); for (auto& x : x0) x = c.sint(3);
    q.xs = x0;   // feasible
    auto sides = [&](double slope, double v, double& l, double& u) { l = -INF; u = INF; bool wl = c.raw(3) != 0, wu = c.raw(3) != 0; if (slope >= 0 && wl) l = v - c.raw(4); if (slope <= 0 && wu) u = v + c.raw(4); };
    q.lb.resize(n); q.ub.resize(n); q.lbA.resize(m); q.ubA.resize(m);
    for (int i = 0; i < n; i++) sides(d[i], x0[i], q.lb[i], q.ub[i]);
    for (int i = 0; i < m; i++) { double s = 0, v = 0; for (int j = 0; j < n; j++) { s += q.A[(size_t)i * n + j] * d[j]; v += q.A[(size_t)i * n + j] * x0[j]; } sides(s, v, q.lbA[i], q.ubA[i]); }
    q.g.resize(n); double gd = 0; for (int i = 0; i < n; i++) { q.g[i] = c.sint(3); gd += q.g[i] * d[i]; }
    if (gd > -1) { double a = (gd + 1 + c.raw(3)) / dd; for (int i = 0; i < n; i++) q.g[i] -= a * d[i]; }
    q.hasSol = false;
}

// ---------------------------------------------------------------- options
inline qpOASES::Options quietDefault() { qpOASES::Options o; o.printLevel = qpOASES::PL_NONE; return o; }
inline qpOASES::Options genPreset(Ctx& c, std::string* name = nullptr) {
    qpOASES::Options o; int k = c.raw(3);
    if (k == 0) o.setToDefault(); else if (k == 1) o.setToReliable(); else o.setToMPC();
    o.printLevel = qpOASES::PL_NONE; if (name) *name = k == 0 ? "default" : k == 1 ? "reliable" : "mpc"; return o;
}
inline BooleanType B(bool b) { return b ? BT_TRUE : BT_FALSE; }

// ---------------------------------------------------------------- matrices in all storage formats
enum Rep { R_RAW = 0, R_DENSE, R_SPARSE, R_SPARSEROW, R_CSC };
struct Mat {   // keeps arrays alive for matrices that reference them
    std::unique_ptr<qpOASES::Matrix> p; std::vector<double> dense, valv; std::vector<qpOASES::sparse_int_t> ir, jc;
    qpOASES::SymmetricMatrix* sym() { return dynamic_cast<qpOASES::SymmetricMatrix*>(p.get()); }
};
inline void toCsc(const Vec& a, int r, int cN, Mat& s, bool keepDiag) {
    s.ir.clear(); s.jc.assign(1, 0); s.valv.clear();
    for (int j = 0; j < cN; j++) { for (int i = 0; i < r; i++) { double v = a[(size_t)i * cN + j]; if (v != 0 || (keepDiag && i == j)) { s.ir.push_back(i); s.valv.push_back(v); } } s.jc.push_back((int)s.ir.size()); }
    if (s.ir.empty()) { s.ir.reserve(1); s.valv.reserve(1); }
}
inline void toCsr(const Vec& a, int r, int cN, Mat& s, bool keepDiag) {
    s.ir.clear(); s.jc.assign(1, 0); s.valv.clear();
    for (int i = 0; i < r; i++) { for (int j = 0; j < cN; j++) { double v = a[(size_t)i * cN + j]; if (v != 0 || (keepDiag && i == j)) { s.ir.push_back(j); s.valv.push_back(v); } } s.jc.push_back((int)s.ir.size()); }
    if (s.ir.empty()) { s.ir.reserve(1); s.valv.reserve(1); }
}
inline std::unique_ptr<Mat> makeSym(const Vec& h, int n, int rep, bool fullDiag = true) {
    auto s = std::make_unique<Mat>();
    if (rep == R_SPARSE || rep == R_CSC) {
        toCsc(h, n, n, *s, fullDiag);
        auto* m = new qpOASES::SymSparseMat(n, n, s->ir.data(), s->jc.data(), s->valv.data()); m->createDiagInfo(); s->p.reset(m);
    } else { s->dense = h; s->p.reset(new qpOASES::SymDenseMat(n, n, n, s->dense.data())); }
    return s;
}
inline std::unique_ptr<Mat> makeMat(const Vec& a, int r, int cN, int rep) {
    auto s = std::make_unique<Mat>();
    if (rep == R_SPARSE || rep == R_CSC) { toCsc(a, r, cN, *s, false); s->p.reset(new qpOASES::SparseMatrix(r, cN, s->ir.data(), s->jc.data(), s->valv.data())); }
    else if (rep == R_SPARSEROW) { toCsr(a, r, cN, *s, false); s->p.reset(new qpOASES::SparseMatrixRow(r, cN, s->jc.data(), s->ir.data(), s->valv.data())); }
    else { s->dense = a; s->p.reset(new qpOASES::DenseMatrix(r, cN, cN, s->dense.data())); }
    return s;
}
inline qpOASES::HessianType hessType(Ctx& c, const QP& q) {
    using namespace qpOASES;
    if (q.hk == HK_ID) return HST_IDENTITY; if (q.hk == HK_ZERO) return HST_ZERO;
    return HST_UNKNOWN;
}
inline bool allInf(const Vec& v, double s) { for (double x : v) if (x != s) return false; return true; }
// a vector argument, passed as NULL if it consists of absent sides only and the case says so
inline const double* arg(const Vec& v, double absent, bool useNull) { return (useNull && allInf(v, absent)) ? nullptr : v.data(); }

inline std::string rvName(returnValue r) { std::ostringstream o; o << (int)r; return o.str(); }
inline double relErr(const double* a, const double* b, int n) { double e = 0, s = 1; for (int i = 0; i < n; i++) { s = std::max(s, fabs(b[i])); double d = fabs(a[i] - b[i]); if (!(d <= e)) e = d; } return e / s; }
inline double dataScale(const QP& q, const double* x, const double* y) {
    double s = 1; for (int i = 0; i < q.n; i++) { s = std::max(s, fabs(q.g[i])); double r = 0; for (int j = 0; j < q.n; j++) r += fabs(q.h(i, j) * x[j]); s = std::max(s, r); }
    for (int i = 0; i < q.n + q.m; i++) s = std::max(s, fabs(y[i])); return s;
}
} // namespace qg
