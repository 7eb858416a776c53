// C20: calls that make no sense are rejected without harm
#include "schur.hpp"
#include "query.hpp"
using namespace qpOASES; using namespace qg;
static const char* CLS[] = {"bounds", "general", "varying", "schur"};
struct Obj {   // one solver object of any class
    int cls, n, m; std::unique_ptr<QProblemB> p; QProblem* g = nullptr; SQProblem* s = nullptr;
    void make(int cls_, int n_, int m_, HessianType ht) { cls = cls_; n = n_; m = m_; if (cls == 0) p.reset(new QProblemB(n, ht)); else if (cls == 1) p.reset(new QProblem(n, m, ht)); else if (cls == 2) p.reset(new SQProblem(n, m, ht)); else p.reset(new Schur(n, m, ht, 5)); g = dynamic_cast<QProblem*>(p.get()); s = dynamic_cast<SQProblem*>(p.get()); }
    std::string snap() { return g ? snapshot(*g, n, m) : snapshot(*p, n, 0); }
    returnValue ini(const QP& q, const Args& a, int_t& w, const Guess& gg = Guess()) { return g ? initP(*g, q, a, w, nullptr, gg) : initP(*p, q, a, w, nullptr, gg); }
    returnValue hot(const QP& q, const Args& a, int_t& w, const Bounds* b = nullptr, const Constraints* k = nullptr) { return g ? hotP(*g, q, a, w, nullptr, b, k) : hotP(*p, q, a, w, nullptr, b); }
};
static const char* NOFILE = "/nonexistent-dir/none";
// a guess of another dimension, or with undefined members
static std::unique_ptr<Bounds> badBounds(Ctx& c, int n, std::string& how) { std::unique_ptr<Bounds> b; int k = n > 1 ? (int)c.raw(3) : (int)c.raw(2); if (k == 0) { how = "empty"; b.reset(new Bounds()); } else if (k == 1) { how = "undefined"; b.reset(new Bounds(n)); int u = (int)c.raw(n); for (int i = 0; i < n; i++) if (i != u) b->setupBound(i, (SubjectToStatus)((int)c.raw(3) - 1)); } else { how = "short"; int d = c.range(1, n - 1); b.reset(new Bounds(d)); for (int i = 0; i < d; i++) b->setupBound(i, (SubjectToStatus)((int)c.raw(3) - 1)); } return b; }
static std::unique_ptr<Constraints> badCons(Ctx& c, int m, std::string& how) { std::unique_ptr<Constraints> b; int k = m > 1 ? (int)c.raw(3) : (int)c.raw(2); if (k == 0) { how = "empty"; b.reset(new Constraints()); } else if (k == 1) { how = "undefined"; b.reset(new Constraints(m)); int u = (int)c.raw(m); for (int i = 0; i < m; i++) if (i != u) b->setupConstraint(i, (SubjectToStatus)((int)c.raw(3) - 1)); } else { how = "short"; int d = c.range(1, m - 1); b.reset(new Constraints(d)); for (int i = 0; i < d; i++) b->setupConstraint(i, (SubjectToStatus)((int)c.raw(3) - 1)); } return b; }
static void contradict(Ctx& c, QP& t) { int i = (int)c.raw(t.n + t.m); double& l = i < t.n ? t.lb[i] : t.lbA[i - t.n]; double& u = i < t.n ? t.ub[i] : t.ubA[i - t.n]; if (u >= INF) u = l > -INF ? l : 0; l = u + posval(c, t.generic, 3); }
// nothing that looks like a solution is offered
static void noSolution(Ctx& c, Obj& o, const std::string& tag) {
    Vec x(o.n + 1, 7.0), y(o.n + o.m + 1, 7.0); PBT_CHECK(c, o.p->isSolved() == BT_FALSE, tag + "-solved", "claims to be solved"); PBT_CHECK(c, o.p->getPrimalSolution(x.data()) != SUCCESSFUL_RETURN, tag + "-primal", "offers a primal solution"); PBT_CHECK(c, o.p->getDualSolution(y.data()) != SUCCESSFUL_RETURN, tag + "-dual", "offers a dual solution");
    for (double v : x) PBT_CHECK(c, v == 7.0, tag + "-written", "refused to offer a solution but wrote one"); double f = o.p->getObjVal(); PBT_CHECK(c, f >= INF, tag + "-objective", "offers objective " << f);
}
// a call that has to be refused; returns what it was
static returnValue badHot(Ctx& c, Obj& o, const QP& q, const Args& a, std::string& what, bool& flag) {
    QP t = q; int_t w = 1000; Bounds* nb = nullptr; (void)nb; flag = false; int k = c.weighted({3, 3, o.s && o.m ? 2 : 0, o.s && a.hp() ? 2 : 0, o.s ? 2 : 0, 3, o.g && o.m ? 3 : 0, 2, o.s ? 2 : 0, 1, 1});
    const double *l = t.lb.data(), *u = t.ub.data(), *lA = t.lbA.data(), *uA = t.ubA.data(); const double* none = nullptr; Args b; b.useNull = a.useNull;
    if (k == 0) { what = "no gradient"; WsGuess g; if (c.raw(3) == 0) { g = genGuess(c, q, 2, 2); what += " with guess"; } return o.g ? o.g->hotstart(none, l, u, lA, uA, w, nullptr, g.b.get(), g.c.get()) : o.p->hotstart(none, l, u, w, nullptr, g.b.get()); }
    if (k == 1) { what = "contradicting sides"; flag = true; contradict(c, t); WsGuess g; if (c.raw(3) == 0) { g = genGuess(c, q, 2, o.g ? 2 : 0); what += " with guess"; } if (o.s && c.raw(3) == 0) { what += " and matrices"; return hotM(*o.s, t, a, w, nullptr, g.b.get(), g.c.get()); } return o.hot(t, a, w, g.b.get(), g.c.get()); }
    if (k == 2) { what = "no constraint matrix"; if (a.rep == R_RAW) return o.s->hotstart(a.hp(), t.g.data(), none, l, u, lA, uA, w); return o.s->hotstart(a.hm(), t.g.data(), (Matrix*)nullptr, l, u, lA, uA, w); }
    if (k == 3) { what = "no Hessian"; if (a.rep == R_RAW) return o.s->hotstart(none, t.g.data(), o.m ? a.A.data() : none, l, u, lA, uA, w); return o.s->hotstart((SymmetricMatrix*)nullptr, t.g.data(), a.am(), l, u, lA, uA, w); }
    if (k == 4) { what = "no gradient, new matrices"; if (a.rep == R_RAW) return o.s->hotstart(a.hp(), none, o.m ? a.A.data() : none, l, u, lA, uA, w); return o.s->hotstart(a.hm(), none, a.am(), l, u, lA, uA, w); }
    if (k == 5) { auto g = badBounds(c, o.n, what); what = "bounds guess " + what; if (o.s && c.raw(4) == 0) { what += " and matrices"; return hotM(*o.s, t, a, w, nullptr, g.get(), nullptr); } return o.hot(t, a, w, g.get(), nullptr); }
    if (k == 6) { auto g = badCons(c, o.m, what); what = "constraints guess " + what; if (o.s && c.raw(4) == 0) { what += " and matrices"; return hotM(*o.s, t, a, w, nullptr, nullptr, g.get()); } return o.hot(t, a, w, nullptr, g.get()); }
    if (k == 7) { const char* f = c.flag() ? NOFILE : nullptr; what = f ? "missing files" : "no file names"; return o.g ? o.g->hotstart(f, f, f, f, f, w) : o.p->hotstart(f, f, f, w); }
    if (k == 8) { const char* f = c.flag() ? NOFILE : nullptr; what = f ? "missing matrix files" : "no matrix file names"; return o.s->hotstart(f, f, f, f, f, f, f, w); }
    if (k == 9) { what = "export to an impossible path"; if (o.g) return c.flag() ? o.g->writeQpDataIntoMatFile(NOFILE) : o.g->writeQpWorkspaceIntoMatFile(NOFILE); SolutionAnalysis s; Vec C(1); return s.getVarianceCovariance(o.p.get(), nullptr, nullptr); }
    what = "covariance without data"; SolutionAnalysis s; if (o.g) return s.getVarianceCovariance(o.g, nullptr, nullptr); return s.getVarianceCovariance(o.p.get(), nullptr, nullptr);
}
static void first(Ctx& c, Obj& o, QP& q, Ses& s, int cls) { start(c, q, s, cls == 0); if (cls == 3 && s.a.rep == R_SPARSEROW) s.a.set(q, R_SPARSE, s.a.hp() && q.hk != HK_DENSE); o.make(cls, q.n, q.m, s.ht); o.p->setOptions(s.o); }
static void solved(Ctx& c, int cls) {
    QP q; Ses s; Obj o; first(c, o, q, s, cls); int lim = 20 * (q.n + q.m) + 200; int_t w = lim; returnValue r = o.ini(q, s.a, w); if (c.verbose) c.desc << CLS[cls] << " " << s.on << " " << REPN[s.a.rep] << " " << q.show() << " -> r=" << (int)r; if (r != SUCCESSFUL_RETURN) return; int len = c.range(1, 4);
    for (int k = 0; k < len; k++) {
        if (c.raw(3) == 0) { next(c, q, s, c.weighted({3, 3, 2, 1})); w = lim; r = o.hot(q, s.a, w); if (c.verbose) c.desc << " | hot " << q.show() << " -> r=" << (int)r; if (r != SUCCESSFUL_RETURN) return; }
        QP t = q; VecOpt vo; if (c.flag()) genVectors(c, t, vo); std::string before = o.snap(), what; bool flag; r = badHot(c, o, t, s.a, what, flag); if (c.verbose) c.desc << " | " << what << " -> r=" << (int)r; c.label(std::string(CLS[cls]) + " " + what);
        std::string tag = std::string(CLS[cls]) + "-" + what; PBT_CHECK(c, r != SUCCESSFUL_RETURN, tag + "-accepted", "the call was accepted: " << what << "\n" << q.show());
        if (flag) { PBT_CHECK(c, r == RET_HOTSTART_STOPPED_INFEASIBILITY && o.p->isInfeasible() == BT_TRUE, tag + "-verdict", "contradicting sides gave " << (int)r); }
        std::string after = o.snap(); if (flag) { size_t i = before.find(" st="), j = after.find(" st="); before.erase(i, 10); after.erase(j, 10); }   // status and flags tell about the infeasible attempt
        PBT_CHECK(c, before == after, tag + "-changed", "a rejected call (" << what << ", r=" << (int)r << ") changed what the object answers\nbefore " << before << "\nafter  " << after << "\n" << q.show());
        c.nontrivial = true;
    }
    // and it goes on as if nothing had happened
    next(c, q, s, c.weighted({3, 3, 2, 1})); w = lim; r = o.hot(q, s.a, w); if (c.verbose) c.desc << " | hot " << q.show() << " -> r=" << (int)r; if (s.on == "mpc" && r == RET_MAX_NWSR_REACHED) return;
    PBT_CHECK(c, r == SUCCESSFUL_RETURN, std::string(CLS[cls]) + "-later", "a later hot start returned " << (int)r << "\n" << q.show()); judge(c, q, s, getSol(*o.p, q.n, q.m), std::string(CLS[cls]) + "-later");
}
// an initialisation that has to be refused
static returnValue badInit(Ctx& c, Obj& o, const QP& q, const Args& a, std::string& what) {
    QP t = q; int_t w = 1000; const double* none = nullptr; const double *l = t.lb.data(), *u = t.ub.data(), *lA = t.lbA.data(), *uA = t.ubA.data(); int k = c.weighted({3, o.m ? 3 : 0, 3, 3, o.m ? 3 : 0, 2, 2, 2});
    if (k == 0) { what = "no gradient"; return o.g ? (c.flag() ? o.g->init(a.hp(), none, a.A.data(), l, u, lA, uA, w) : o.g->init(a.hm(), none, a.am(), l, u, lA, uA, w)) : o.p->init(a.hp(), none, l, u, w); }
    if (k == 1) { what = "no constraint matrix"; return c.flag() ? o.g->init(a.hp(), t.g.data(), none, l, u, lA, uA, w) : o.g->init(a.hm(), t.g.data(), (Matrix*)nullptr, l, u, lA, uA, w); }
    if (k == 2) { what = "contradicting sides"; contradict(c, t); return o.ini(t, a, w); }
    Guess gg; std::unique_ptr<Bounds> gb; std::unique_ptr<Constraints> gc; Vec x = q.xs, y(q.n + q.m, 0.0), R((size_t)q.n * q.n, 0.0);
    if (k == 3) { gb = badBounds(c, o.n, what); what = "bounds guess " + what; gg.b = gb.get(); if (c.flag()) gg.x = x.data(); return o.ini(t, a, w, gg); }
    if (k == 4) { gc = badCons(c, o.m, what); what = "constraints guess " + what; gg.c = gc.get(); if (c.flag()) gg.x = x.data(); return o.ini(t, a, w, gg); }
    if (k == 5) { what = "multipliers and working set only"; WsGuess g; gb.reset(new Bounds(q.n)); for (int i = 0; i < q.n; i++) gb->setupBound(i, ST_INACTIVE); gg.y = y.data(); gg.b = gb.get(); return o.ini(t, a, w, gg); }
    if (k == 6) { what = "factor and another guess"; for (int i = 0; i < q.n; i++) R[(size_t)i * q.n + i] = 1; gg.R = R.data(); gg.x = x.data(); return o.ini(t, a, w, gg); }
    const char* f = c.flag() ? NOFILE : nullptr; what = f ? "missing files" : "no file names"; return o.g ? o.g->init(f, f, f, f, f, f, f, w) : o.p->init(f, f, f, f, w);
}
// calls on an object without a problem
static returnValue early(Ctx& c, Obj& o, const QP& q, const Args& a, std::string& what) {
    int_t w = 1000; int k = c.weighted({3, o.s ? 3 : 0, 1, o.s ? 1 : 0, 1, o.g ? 1 : 0}); WsGuess g; if (c.raw(4) == 0) g = genGuess(c, q, 2, o.g ? 2 : 0);
    if (k == 0) { what = "hot start"; return o.hot(q, a, w, g.b.get(), g.c.get()); } if (k == 1) { what = "hot start with matrices"; return hotM(*o.s, q, a, w, nullptr, g.b.get(), g.c.get()); }
    if (k == 2) { what = "hot start from files"; return o.g ? o.g->hotstart(NOFILE, NOFILE, NOFILE, NOFILE, NOFILE, w) : o.p->hotstart(NOFILE, NOFILE, NOFILE, w); } if (k == 3) { what = "hot start with matrix files"; return o.s->hotstart(NOFILE, NOFILE, NOFILE, NOFILE, NOFILE, NOFILE, NOFILE, w); }
    if (k == 4) { what = "covariance"; SolutionAnalysis s; int d = 2 * o.n + o.m + 1; Vec C((size_t)d * d, 0.0), D((size_t)d * d, 0.0); return o.g ? s.getVarianceCovariance(o.g, C.data(), D.data()) : s.getVarianceCovariance(o.p.get(), C.data(), D.data()); }
    what = "equality solution"; Vec x(o.n), y(o.n + o.m); return o.g->solveCurrentEQP(1, q.g.data(), q.lb.data(), q.ub.data(), q.lbA.data(), q.ubA.data(), x.data(), y.data());
}
static void unsolved(Ctx& c, int cls) {
    QP q; Ses s; Obj o; first(c, o, q, s, cls); int st = c.weighted({4, 2, 2}); int lim = 20 * (q.n + q.m) + 200; int_t w = lim; if (c.verbose) c.desc << CLS[cls] << " " << s.on << " " << REPN[s.a.rep] << " " << q.show();
    std::string state = "fresh"; bool live = false; if (st == 1) { state = "reset"; if (o.ini(q, s.a, w) != SUCCESSFUL_RETURN) return; o.p->reset(); o.p->setHessianType(s.ht); } if (st == 2) { state = "solved"; if (o.ini(q, s.a, w) != SUCCESSFUL_RETURN) return; live = true; }
    int len = c.range(1, 4); if (c.verbose) c.desc << " | " << state; bool bad = false;
    for (int k = 0; k < len; k++) {
        std::string what; bool ini = live || bad || c.flag(); if (ini) bad = false; returnValue r = ini ? badInit(c, o, q, s.a, what) : early(c, o, q, s.a, what); what = (ini ? "init: " : "") + what; if (ini) live = false; std::string tag = std::string(CLS[cls]) + "-" + state + "-" + what; if (c.verbose) c.desc << " | " << what << " -> r=" << (int)r; c.label(std::string(CLS[cls]) + " " + what + " (" + state + ")");
        PBT_CHECK(c, r != SUCCESSFUL_RETURN, tag + "-accepted", "the call was accepted: " << what << "\n" << q.show()); if (what == "init: contradicting sides") { PBT_CHECK(c, o.p->isSolved() == BT_FALSE && o.p->isInfeasible() == BT_TRUE, tag + "-verdict", "contradicting sides: solved=" << (int)o.p->isSolved() << " infeasible=" << (int)o.p->isInfeasible()); bad = true; } else if (!bad) noSolution(c, o, tag); c.nontrivial = true; if (ini && what == "init: contradicting sides") state = "refused"; else if (ini) state = "refused";
    }
    if (o.p->isInitialised() == BT_TRUE || state == "refused") { o.p->reset(); o.p->setHessianType(s.ht); } w = lim; returnValue r = o.ini(q, s.a, w); if (c.verbose) c.desc << " | init -> r=" << (int)r;
    PBT_CHECK(c, r == SUCCESSFUL_RETURN, std::string(CLS[cls]) + "-later", "a later initialisation returned " << (int)r << "\n" << q.show()); judge(c, q, s, getSol(*o.p, q.n, q.m), std::string(CLS[cls]) + "-later");
}
// objects of impossible dimension
static void nodim(Ctx& c) {
    QP q; Ses s; Obj o; int cls = (int)c.raw(4); start(c, q, s, cls == 0); if (cls == 3 && s.a.rep == R_SPARSEROW) s.a.set(q, R_SPARSE, s.a.hp() && q.hk != HK_DENSE); int n = -(int)c.raw(3), m = (int)c.raw(4) - 1, how = (int)c.raw(3); if (c.verbose) c.desc << CLS[cls] << " dimension " << n << " " << m;
    if (how == 0) { if (cls == 0) o.p.reset(new QProblemB()); else if (cls == 1) o.p.reset(new QProblem()); else if (cls == 2) o.p.reset(new SQProblem()); else o.p.reset(new SQProblemSchur()); } else if (cls == 0) o.p.reset(new QProblemB(n)); else if (cls == 1) o.p.reset(new QProblem(n, m)); else if (cls == 2) o.p.reset(new SQProblem(n, m)); else o.p.reset(new SQProblemSchur(n, m));
    o.g = dynamic_cast<QProblem*>(o.p.get()); o.s = dynamic_cast<SQProblem*>(o.p.get()); o.cls = cls; o.n = how ? 1 : 0; o.m = 0; o.p->setOptions(s.o); int len = c.range(1, 3); std::string tag = std::string(CLS[cls]) + "-nodim";
    int ev = how ? 1 : 0, ec = how && m > 0 && cls ? m : 0; PBT_CHECK(c, o.p->getNV() == ev && (!o.g || o.g->getNC() == ec), tag + "-nv", "dimensions " << n << "," << m << " gave NV=" << o.p->getNV() << " NC=" << (o.g ? o.g->getNC() : 0)); o.m = ec;
    for (int k = 0; k < len; k++) { int_t w = 100; int z = how ? 1 + (int)c.raw(o.s ? 2 : 1) : (int)c.raw(o.s ? 3 : 2); returnValue r = z == 0 ? o.ini(q, s.a, w) : z == 1 ? o.hot(q, s.a, w) : hotM(*o.s, q, s.a, w); PBT_CHECK(c, r != SUCCESSFUL_RETURN && r != RET_MAX_NWSR_REACHED, tag + "-accepted", "dimension " << n << "," << m << " call " << z << " returned " << (int)r); noSolution(c, o, tag); if (c.raw(4) == 0) o.p->reset(); }
    if (c.flag()) { if (cls == 1) { QProblem t(*o.g), v; v = t; } else if (cls == 2) { SQProblem t(*o.s), v; v = t; } else if (cls == 0) { QProblemB t(*o.p), v; v = t; } } c.nontrivial = true; c.label(tag);
}
PBT_PROP(solved_general, 3) { solved(c, 1); }
PBT_PROP(solved_varying, 3) { solved(c, 2); }
PBT_PROP(solved_bounds, 2) { solved(c, 0); }
PBT_PROP(solved_schur, 1) { solved(c, 3); }
PBT_PROP(unsolved_general, 2) { unsolved(c, 1); }
PBT_PROP(unsolved_varying, 2) { unsolved(c, 2); }
PBT_PROP(unsolved_bounds, 2) { unsolved(c, 0); }
PBT_PROP(unsolved_schur, 1) { unsolved(c, 3); }
PBT_PROP(nodim, 1) { nodim(c); }
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
