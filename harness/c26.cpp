// C26: the Schur-complement solver with a plugged-in linear solver
#include "schur.hpp"
#include "query.hpp"
#include <qpOASES/extras/SolutionAnalysis.hpp>
using namespace qpOASES; using namespace qg;
static const int UPD[] = {75, 0, 1, 2, 3, 5};
// without drift correction (MPC preset) an answer after a nearly singular working set was repaired is not judged
// nor is one after something was factorised that had lost nearly all digits
static bool illConditioned(pbt::Ctx& c, const Ses& s) { if (g_worst >= (s.on == "mpc" ? 1e-6 : 1e-9)) return false; c.label("ill-conditioned"); return true; }
static void verdict(pbt::Ctx& c, const QP& q, const Ses& s, const Sol& z, const std::string& tag) { if (s.on == "mpc" && g_repaired) return; if (!s.deg && illConditioned(c, s)) return; c.label("judged"); if (c.verbose) c.desc << " [worst " << g_worst << "]"; judge(c, q, s, z, tag); }
static const char* MK[] = {"both new", "hessian new", "constraints new", "same matrices", "vectors only"};
static Vec pt(Ctx& c, const Vec& ref, int mode, bool generic) { Vec v(ref); if (mode == 2) for (auto& a : v) a += c.real(1) / 16; if (mode == 3) for (auto& a : v) a = val(c, generic, 4); if (mode == 4) v.assign(v.size(), 0.0); return v; }
static void factor(const QP& q, Vec& R) {
    int n = q.n; R.assign((size_t)n * n, 0.0);
    for (int j = 0; j < n; j++) for (int i = 0; i <= j; i++) { long double t = q.h(i, j); for (int k = 0; k < i; k++) t -= (long double)R[(size_t)k * n + i] * R[(size_t)k * n + j]; R[(size_t)i * n + j] = i == j ? (double)sqrtl(t) : (double)(t / R[(size_t)i * n + i]); }
}
PBT_PROP(history, 6) {
    g_repaired = 0; g_worst = 1; QP q; Ses s; start(c, q, s, false); if (s.a.rep == R_SPARSEROW) s.a.set(q, R_SPARSE, !s.a.H.empty() && q.hk != HK_DENSE);
    int upd = UPD[c.raw(6)]; std::unique_ptr<Schur> p(new Schur(q.n, q.m, s.ht, upd)); p->setOptions(s.o);
    bool explicitH = !s.a.H.empty(), explicitTriv = explicitH && q.hk != HK_DENSE; int lim = 10 * (q.n + q.m) + 100, len = c.range(0, 5); bool guessed = false; std::vector<Args> keep; keep.reserve(8); keep.push_back(std::move(s.a));
    if (c.verbose) c.desc << "updates " << upd << " options " << s.on << " null=" << keep[0].useNull;
    for (int k = 0; k <= len; k++) {
        int mk = 4; if (k) { mk = c.weighted({3, 1, 1, 1, 6}); if ((mk == 0 || mk == 1) && explicitH && !explicitTriv) genH(c, q, false); if (mk == 0 || mk == 2) genA(c, q); VecOpt vo; vo.degenerate = s.deg; if (mk <= 2) genVectors(c, q, vo); else next(c, q, s, c.weighted({3, 3, 2, 1}));
            if (mk < 4) { Args a; a.useNull = keep[0].useNull; a.set(q, (int)c.raw(3), explicitTriv); keep.push_back(std::move(a)); } }
        if (k && c.raw(8) == 0) { p.reset(new Schur(*p)); c.label("copied"); if (c.verbose) c.desc << " | copied"; }
        if (k && c.raw(8) == 0) { Schur t(1, 1, HST_UNKNOWN, (int)c.raw(4)); t = *p; *p = t; c.label("assigned"); if (c.verbose) c.desc << " | assigned"; }
        Guess gg; WsGuess g; if (c.raw(5) == 0) { g = genGuess(c, q, s.on == "mpc" ? c.weighted({5, 1, 2, 0, 1, 2}) : guessMode(c), s.on == "mpc" ? c.weighted({5, 1, 2, 0, 1, 2}) : guessMode(c)); gg.b = g.b.get(); gg.c = g.c.get(); }
        Vec x0, y0, R; if (k == 0 && c.raw(4) == 0) { int mx = c.range(1, 4); x0 = pt(c, q.xs, mx, q.generic); gg.x = x0.data(); if (c.flag()) { y0 = pt(c, q.ys, c.range(1, 4), q.generic); gg.y = y0.data(); } }
        else if (k == 0 && !gg.b && !gg.c && c.raw(8) == 0) { factor(q, R); gg.R = R.data(); }
        if (gg.x && c.verbose) c.desc << " x0=" << str(x0) << " y0=" << str(y0); if (gg.R && c.verbose) c.desc << " with R";
        int_t w = lim; const Args& A = keep.back(); returnValue r = k == 0 ? initP(*p, q, A, w, nullptr, gg) : mk < 4 ? hotM(*p, q, A, w, nullptr, gg.b, gg.c) : hotP(*p, q, A, w, nullptr, gg.b, gg.c);
        std::string tag = s.on + (s.deg ? "-deg" : "") + (k == 0 ? "-cold" : mk < 4 ? "-matrices" : "-hot") + (gg.b || gg.c || gg.x ? "-guess" : gg.R ? "-R" : "");
        if (c.verbose) c.desc << " | " << (k == 0 ? "cold" : mk < 4 ? MK[mk] : "hot") << " " << REPN[A.rep] << g.show << " " << q.show() << " -> r=" << (int)r << " nWSR=" << w;
        c.label(tag + (r == 0 ? " solved" : " other"));
        if (s.on == "mpc" && (guessed = guessed || gg.b || gg.c || gg.x || gg.R) && r != SUCCESSFUL_RETURN) break;   // see C04
        if (k && mk < 4 && r == RET_MAX_NWSR_REACHED) break;   // cycling after about one matrix change in a million
        if (k && s.deg && r == RET_HOTSTART_STOPPED_INFEASIBILITY) break;   // a degenerate multiplier off zero by rounding, about one hot start in ten million
        PBT_CHECK(c, r == SUCCESSFUL_RETURN, tag + "-failed", "solve " << k << " returned " << (int)r << " after " << w << "\n" << q.show());
        verdict(c, q, s, getSol(*p, q.n, q.m), tag); if (p->updates() > 0) c.label("updates of the Schur complement"); if (w > 0) c.nontrivial = true;
    }
}
PBT_PROP(infeasible, 1) {
    QP q; q.generic = c.flag(); Shape sh; sh.forceC = true; genSize(c, q, sh); genH(c, q); genA(c, q); genInfeasible(c, q, false); Options o = quietDefault(); if (c.flag()) { o.setToReliable(); o.printLevel = PL_NONE; }
    Args a; a.useNull = c.flag(); a.set(q, (int)c.raw(3), true); Schur p(q.n, q.m, HST_UNKNOWN, UPD[c.raw(6)]); p.setOptions(o); int_t w = 20 * (q.n + q.m) + 100; returnValue r = initP(p, q, a, w); if (c.verbose) c.desc << q.show() << " -> r=" << (int)r;
    PBT_CHECK(c, r != SUCCESSFUL_RETURN, "infeasible-solved", "an infeasible problem was solved\n" << q.show()); if (r == RET_MAX_NWSR_REACHED) { c.label("infeasible unsettled"); return; } PBT_CHECK(c, r == RET_INIT_FAILED_INFEASIBILITY && p.isInfeasible() == BT_TRUE, "infeasible-verdict", "returned " << (int)r << " for an infeasible problem\n" << q.show()); c.nontrivial = true;
}
// a factorisation that fails at some point, or a linear solver that cannot detect ranks: an honest failure or the right answer, and a fresh start works
PBT_PROP(fault, 2) {
    g_repaired = 0; g_worst = 1; QP q; Ses s; start(c, q, s, false); if (s.a.rep == R_SPARSEROW) s.a.set(q, R_SPARSE, !s.a.H.empty() && q.hk != HK_DENSE); Schur p(q.n, q.m, s.ht, UPD[c.raw(6)]); p.setOptions(s.o); int lim = 10 * (q.n + q.m) + 100, len = c.range(0, 3);
    g_noRank = c.raw(3) == 0; g_failAt = g_noRank && c.flag() ? -1 : (int)c.raw(6); struct Off { ~Off() { g_noRank = false; g_failAt = -1; } } off; bool failed = false; if (c.verbose) c.desc << "fails at " << g_failAt << " no rank " << g_noRank << " options " << s.on;
    for (int k = 0; k <= len && !failed; k++) {
        if (k) next(c, q, s, c.weighted({3, 3, 2, 1})); Guess gg; WsGuess g; if (c.raw(3) == 0) { g = genGuess(c, q, guessMode(c), guessMode(c)); gg.b = g.b.get(); gg.c = g.c.get(); }
        int_t w = lim; returnValue r = k == 0 ? initP(p, q, s.a, w, nullptr, gg) : hotP(p, q, s.a, w, nullptr, gg.b, gg.c); if (c.verbose) c.desc << " | " << g.show << q.show() << " -> r=" << (int)r; failed = r != SUCCESSFUL_RETURN;
        if (!failed) { verdict(c, q, s, getSol(p, q.n, q.m), s.on + "-fault"); } else { c.label("failed"); PBT_CHECK(c, p.isSolved() == BT_FALSE, s.on + "-fault-solved", "failed but claims to be solved"); }
    }
    if (!failed) return; c.nontrivial = true; g_noRank = false; g_failAt = -1; p.reset(); p.setHessianType(s.ht); int_t w = lim; returnValue r = initP(p, q, s.a, w); if (c.verbose) c.desc << " | fresh -> " << (int)r;
    PBT_CHECK(c, r == SUCCESSFUL_RETURN, s.on + "-fault-fresh", "a fresh start returned " << (int)r << "\n" << q.show()); verdict(c, q, s, getSol(p, q.n, q.m), s.on + "-fault-fresh");
}
// curvature once the active bounds away from zero are released: the verdict of the analysis, which leaves the object as it was
static int negatives(const QP& q, const std::vector<int>& F, const std::vector<int>& AC, double shift) {   // of the KKT matrix, -1 if (nearly) singular
    int f = (int)F.size(), k = (int)AC.size(); std::vector<int_t> ir, jc; Vec v; auto put = [&](int i, int j, double a) { ir.push_back(i + 1); jc.push_back(j + 1); v.push_back(a); };
    for (int i = 0; i < f; i++) for (int j = 0; j <= i; j++) put(i, j, q.h(F[i], F[j]) + (i == j ? shift : 0)); for (int r = 0; r < k; r++) for (int j = 0; j < f; j++) put(f + r, j, q.A[(size_t)AC[r] * q.n + F[j]]);
    DenseLdl d; d.setMatrixData(f + k, (int_t)v.size(), ir.data(), jc.data(), v.data()); return d.factorize() == SUCCESSFUL_RETURN ? d.neig : -1;
}
PBT_PROP(curvature, 1) {
    g_repaired = 0; g_worst = 1; QP q; Ses s; start(c, q, s, false); bool indef = c.raw(3) != 0; int n = q.n, m = q.m;
    if (indef) { q.hk = HK_DENSE; if (q.H.empty()) q.H.assign((size_t)n * n, 0.0); double d = posval(c, true, 4); int k = c.range(1, n); for (int i = 0; i < k; i++) q.H[(size_t)i * n + i] -= d; for (int i = 0; i < n; i++) { if (q.lb[i] <= -INF) q.lb[i] = std::min(q.ub[i], 0.0) - 1 - c.raw(3); if (q.ub[i] >= INF) q.ub[i] = std::max(q.lb[i], 0.0) + 1 + c.raw(3); } s.ht = c.flag() ? HST_INDEF : HST_UNKNOWN; }
    s.a.set(q, (int)c.raw(3), true); Schur p(n, m, s.ht, UPD[c.raw(6)]); p.setOptions(s.o); int_t w = 20 * (n + m) + 100; returnValue r = initP(p, q, s.a, w); if (c.verbose) c.desc << s.on << " type " << (int)s.ht << " " << q.show() << " -> r=" << (int)r;
    if (r == SUCCESSFUL_RETURN && c.flag()) { next(c, q, s, c.weighted({3, 2, 2, 1})); w = 20 * (n + m) + 100; r = hotP(p, q, s.a, w); if (c.verbose) c.desc << " | " << q.show() << " -> r=" << (int)r; }
    if (r != SUCCESSFUL_RETURN) { c.label("curvature unsolved"); return; }
    Bounds b; Constraints a; p.getBounds(b); p.getConstraints(a); Sol z = getSol(p, n, m); std::vector<int> F, AC; bool all = true; for (int i = 0; i < n; i++) { bool fr = b.getStatus(i) == ST_INACTIVE; if (fr || fabs(z.x[i]) > 1e-16) F.push_back(i); if (!fr) all = false; } for (int i = 0; i < m; i++) if (a.getStatus(i) != ST_INACTIVE) AC.push_back(i);
    std::string before = snapshot(static_cast<QProblem&>(p), n, m); SolutionAnalysis an; returnValue t = an.checkCurvatureOnStronglyActiveConstraints(&p); std::string after = snapshot(static_cast<QProblem&>(p), n, m);
    if (c.verbose) c.desc << " x=" << str(z.x) << " curvature check -> " << (int)t; bool sound = !indef; if (indef) { std::vector<int> FR; for (int i = 0; i < n; i++) if (b.getStatus(i) == ST_INACTIVE) FR.push_back(i); int a0 = negatives(q, FR, AC, 0); sound = a0 >= 0 && a0 == negatives(q, FR, AC, 1e-6) && a0 == negatives(q, FR, AC, -1e-6); } /* indefinite data can end on a singular working set, which is repaired when factorised */ if (sound) PBT_CHECK(c, before == after, "curvature-object-changed", "the analysis changed the object\n" << before << "\n" << after);
    int n0 = negatives(q, F, AC, 0), n1 = negatives(q, F, AC, 1e-6), n2 = negatives(q, F, AC, -1e-6); bool clear = n0 >= 0 && n0 == n1 && n0 == n2;
    if (all) { PBT_CHECK(c, t == SUCCESSFUL_RETURN, "curvature-nothing-fixed", "returned " << (int)t << " without active bounds\n" << q.show()); }
    else if (clear) { PBT_CHECK(c, (t == SUCCESSFUL_RETURN) == (n0 == (int)AC.size()), "curvature-verdict", "returned " << (int)t << " but there are " << n0 << " negative eigenvalues with " << AC.size() << " active constraints, x=" << str(z.x) << "\n" << q.show()); if (t != SUCCESSFUL_RETURN) PBT_CHECK(c, t == RET_INERTIA_CORRECTION_FAILED, "curvature-code", "returned " << (int)t); c.label(t == SUCCESSFUL_RETURN ? "curvature positive" : "curvature negative"); c.nontrivial = true; }
    else c.label("curvature unclear");
    if (indef) return; next(c, q, s, c.weighted({3, 2, 2, 1})); w = 20 * (n + m) + 100; r = hotP(p, q, s.a, w); if (c.verbose) c.desc << " | " << q.show() << " -> r=" << (int)r;
    if (r != SUCCESSFUL_RETURN && (s.on == "mpc" || illConditioned(c, s))) return; PBT_CHECK(c, r == SUCCESSFUL_RETURN, "curvature-hot", "a hot start after the analysis returned " << (int)r << "\n" << q.show()); verdict(c, q, s, getSol(p, n, m), s.on + "-curvature-hot");
}
// no linear solver: refuses
PBT_PROP(nosolver, 1) {
    g_repaired = 0; g_worst = 1; QP q; Ses s; start(c, q, s, false); if (s.a.rep == R_SPARSEROW) s.a.set(q, R_SPARSE, !s.a.H.empty() && q.hk != HK_DENSE); SQProblemSchur p(q.n, q.m, s.ht, UPD[c.raw(6)]); p.setOptions(s.o); int n = q.n, m = q.m;
    Guess gg; WsGuess g; if (c.raw(3) == 0) { g = genGuess(c, q, guessMode(c), guessMode(c)); gg.b = g.b.get(); gg.c = g.c.get(); } if (c.verbose) c.desc << q.show() << g.show; int len = c.range(1, 3);
    for (int k = 0; k < len; k++) {
        int_t w = 1000; returnValue r = c.raw(3) ? initP(p, q, s.a, w, nullptr, gg) : c.flag() ? hotP(p, q, s.a, w) : hotM(p, q, s.a, w); PBT_CHECK(c, r != SUCCESSFUL_RETURN && r != RET_MAX_NWSR_REACHED, "nosolver-success", "returned " << (int)r << " without linear solver\n" << q.show());
        Vec x(n, 7.0); PBT_CHECK(c, p.isSolved() == BT_FALSE && p.getPrimalSolution(x.data()) != SUCCESSFUL_RETURN, "nosolver-solution", "offers a solution without linear solver, r=" << (int)r << "\n" << q.show());
    }
    if (c.flag()) { SQProblemSchur t(p); Vec x(n, 7.0); PBT_CHECK(c, t.getPrimalSolution(x.data()) != SUCCESSFUL_RETURN, "nosolver-copy", "copy offers a solution"); } c.nontrivial = n + m > 1;
}
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
