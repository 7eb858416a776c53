// Driving the library's solver classes from generated QPs.
#pragma once
#include "qpgen.hpp"
namespace qg {
using qpOASES::QProblem; using qpOASES::QProblemB; using qpOASES::SQProblem; using qpOASES::Options; using qpOASES::Bounds; using qpOASES::Constraints;

// Matrix arguments of one problem in one storage format; must outlive the solver object that refers to them.
struct Args {
    int rep = R_RAW; bool explicitId = false; bool useNull = false;
    Vec H, A; std::unique_ptr<Mat> mh, ma;
    void set(const QP& q, int rep_, bool explicitTrivial = false) {
        rep = rep_; H.clear(); A = q.A; mh.reset(); ma.reset();
        if (q.hk == HK_DENSE) H = q.H;
        else if (explicitTrivial) { H.assign((size_t)q.n * q.n, 0.0); if (q.hk == HK_ID) for (int i = 0; i < q.n; i++) H[(size_t)i * q.n + i] = 1; }
        if (rep != R_RAW) { if (!H.empty()) mh = makeSym(H, q.n, rep); if (q.m) ma = makeMat(A, q.m, q.n, rep); }
        if (A.empty()) A.resize(1);
    }
    const double* hp() const { return H.empty() ? nullptr : H.data(); }
    qpOASES::SymmetricMatrix* hm() const { return mh ? mh->sym() : nullptr; }
    qpOASES::Matrix* am() const { return ma ? ma->p.get() : nullptr; }
};
static const char* const REPN[] = {"raw", "dense", "sparse", "sparserow", "csc"};
inline int genRep(Ctx& c) { return (int)c.raw(4); }
struct Guess { const double *x = nullptr, *y = nullptr, *R = nullptr; const Bounds* b = nullptr; const Constraints* c = nullptr; };

inline const double* lo(const Vec& v, bool n) { return arg(v, -INF, n); }
inline const double* up(const Vec& v, bool n) { return arg(v, INF, n); }
inline returnValue initP(QProblem& p, const QP& q, const Args& a, int_t& nWSR, real_t* cpu = nullptr, const Guess& s = Guess()) {
    const double *lA = q.m ? lo(q.lbA, a.useNull) : nullptr, *uA = q.m ? up(q.ubA, a.useNull) : nullptr;
    if (a.rep == R_RAW) return p.init(a.hp(), q.g.data(), q.m ? a.A.data() : nullptr, lo(q.lb, a.useNull), up(q.ub, a.useNull), lA, uA, nWSR, cpu, s.x, s.y, s.b, s.c, s.R);
    return p.init(a.hm(), q.g.data(), a.am(), lo(q.lb, a.useNull), up(q.ub, a.useNull), lA, uA, nWSR, cpu, s.x, s.y, s.b, s.c, s.R);
}
inline returnValue initP(QProblemB& p, const QP& q, const Args& a, int_t& nWSR, real_t* cpu = nullptr, const Guess& s = Guess()) {
    if (a.rep == R_RAW) return p.init(a.hp(), q.g.data(), lo(q.lb, a.useNull), up(q.ub, a.useNull), nWSR, cpu, s.x, s.y, s.b, s.R);
    return p.init(a.hm(), q.g.data(), lo(q.lb, a.useNull), up(q.ub, a.useNull), nWSR, cpu, s.x, s.y, s.b, s.R);
}
inline returnValue hotP(QProblem& p, const QP& q, const Args& a, int_t& nWSR, real_t* cpu = nullptr, const Bounds* gb = nullptr, const Constraints* gc = nullptr) {
    const double *lA = q.m ? lo(q.lbA, a.useNull) : nullptr, *uA = q.m ? up(q.ubA, a.useNull) : nullptr;
    return p.hotstart(q.g.data(), lo(q.lb, a.useNull), up(q.ub, a.useNull), lA, uA, nWSR, cpu, gb, gc);
}
inline returnValue hotP(QProblemB& p, const QP& q, const Args& a, int_t& nWSR, real_t* cpu = nullptr, const Bounds* gb = nullptr) {
    return p.hotstart(q.g.data(), lo(q.lb, a.useNull), up(q.ub, a.useNull), nWSR, cpu, gb);
}
inline returnValue hotM(SQProblem& p, const QP& q, const Args& a, int_t& nWSR, real_t* cpu = nullptr, const Bounds* gb = nullptr, const Constraints* gc = nullptr) {
    const double *lA = q.m ? lo(q.lbA, a.useNull) : nullptr, *uA = q.m ? up(q.ubA, a.useNull) : nullptr;
    if (a.rep == R_RAW) return p.hotstart(a.hp(), q.g.data(), q.m ? a.A.data() : nullptr, lo(q.lb, a.useNull), up(q.ub, a.useNull), lA, uA, nWSR, cpu, gb, gc);
    return p.hotstart(a.hm(), q.g.data(), a.am(), lo(q.lb, a.useNull), up(q.ub, a.useNull), lA, uA, nWSR, cpu, gb, gc);
}
struct Sol { Vec x, y; double obj = 0; };
template <class P> Sol getSol(const P& p, int n, int m) { Sol s; s.x.assign(n, 1e300); s.y.assign(n + m, 1e300); p.getPrimalSolution(s.x.data()); p.getDualSolution(s.y.data()); s.obj = p.getObjVal(); return s; }

static const double TOL = 1e-6;
// accuracy that may be asked for: the homotopy stops at a relative length of terminationTolerance
inline double tolOf(const Options& o) { return std::max(TOL, 500 * o.terminationTolerance); }
// fails unless (x,y) satisfies the optimality conditions of q
inline void checkKkt(Ctx& c, const QP& q, const Sol& s, const std::string& tag, double tol = TOL) {
    Kkt k = kkt(q, s.x.data(), s.y.data()); double sc = dataScale(q, s.x.data(), s.y.data());
    PBT_CHECK(c, k.stat <= tol * sc, tag + "-stationarity", "stationarity residual " << k.stat << " scale " << sc << " x=" << str(s.x) << " y=" << str(s.y) << "\n" << q.show());
    double fs = 1 + normInf(s.x);
    PBT_CHECK(c, k.feas <= tol * fs * 10, tag + "-feasibility", "infeasibility " << k.feas << " x=" << str(s.x) << " y=" << str(s.y) << "\n" << q.show());
    PBT_CHECK(c, k.cmpl <= tol * sc * fs * 10, tag + "-complementarity", "complementarity " << k.cmpl << " x=" << str(s.x) << " y=" << str(s.y) << "\n" << q.show());
}
inline void checkX(Ctx& c, const QP& q, const Sol& s, const std::string& tag, double tol = TOL) {
    double e = relErr(s.x.data(), q.xs.data(), q.n);
    PBT_CHECK(c, e <= tol, tag + "-primal", "primal solution differs from the planted one, relative error " << e << " x=" << str(s.x) << "\n" << q.show());
}
inline void checkY(Ctx& c, const QP& q, const Sol& s, const std::string& tag, double tol = TOL) {
    double e = relErr(s.y.data(), q.ys.data(), q.n + q.m);
    PBT_CHECK(c, e <= tol, tag + "-dual", "dual solution differs from the planted one, relative error " << e << " y=" << str(s.y) << "\n" << q.show());
}
inline void checkObj(Ctx& c, const QP& q, const Sol& s, const std::string& tag, double tol = TOL) {
    double o = q.objective(s.x.data()), sc = q.objScale(s.x.data());
    PBT_CHECK(c, fabs(o - s.obj) <= tol * sc, tag + "-objective", "reported objective " << s.obj << " but the reported solution has " << o << "\n" << q.show());
}
inline bool eqb(double a, double b) { return memcmp(&a, &b, 8) == 0 || a == b || (a != a && b != b); }

// ---------------------------------------------------------------- working-set guesses
// mode 0: nothing, 1: everything inactive, 2: arbitrary sides that exist, 3: arbitrary sides, 4: the planted active set, 5: planted with mistakes
struct WsGuess { std::unique_ptr<Bounds> b; std::unique_ptr<Constraints> c; std::string show; };
inline qpOASES::SubjectToStatus guessStatus(Ctx& c, int mode, double l, double u, double y) {
    using namespace qpOASES;
    SubjectToStatus plant = y > 0 ? ST_LOWER : y < 0 ? ST_UPPER : ST_INACTIVE;
    if (mode == 1) return ST_INACTIVE;
    if (mode == 4 || (mode == 5 && c.raw(4) != 0)) return plant;
    SubjectToStatus s = (SubjectToStatus)((int)c.raw(3) - 1);
    if (mode == 3) return s;
    if (s == ST_LOWER && l <= -INF) s = ST_INACTIVE; if (s == ST_UPPER && u >= INF) s = ST_INACTIVE;
    return s;
}
inline int guessMode(Ctx& c) { return c.weighted({4, 1, 2, 2, 1, 2}); }
inline WsGuess genGuess(Ctx& c, const QP& q, int modeB, int modeC) {
    using namespace qpOASES; WsGuess w;
    if (modeB) { w.b.reset(new Bounds(q.n)); w.show += " guessB="; for (int i = 0; i < q.n; i++) { auto s = guessStatus(c, modeB, q.lb[i], q.ub[i], q.ys[i]); w.b->setupBound(i, s); w.show += "LIU"[(int)s + 1]; } }
    if (modeC && q.m) { w.c.reset(new Constraints(q.m)); w.show += " guessC="; for (int i = 0; i < q.m; i++) { auto s = guessStatus(c, modeC, q.lbA[i], q.ubA[i], q.ys[q.n + i]); w.c->setupConstraint(i, s); w.show += "LIU"[(int)s + 1]; } }
    return w;
}
} // namespace qg
