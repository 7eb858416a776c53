// C02: result queries agree with the solution and never change it
#include "seq.hpp"
#include "query.hpp"
using namespace qpOASES; using namespace qg;

static void consQueries(Ctx& c, QProblemB&, const QP&, const Sol&, const Options&, bool, bool, const std::string&) {}
static void consQueries(Ctx& c, QProblem& p, const QP& q, const Sol& s, const Options& o, bool deg, bool cold, const std::string& tag) {
    int n = q.n, m = q.m; Constraints k; p.getConstraints(k); int act = 0, eq = 0, teq = 0;
    PBT_CHECK(c, k.getNC() == m && p.getNC() == m, "count-nc", "number of constraints");
    Vec wc(m + 1, 77); PBT_CHECK(c, p.getWorkingSetConstraints(wc.data()) == SUCCESSFUL_RETURN && wc[m] == 77, "ws-length", "working set of constraints written beyond its length");
    double tol = 10 * tolOf(o), sc = 1 + normInf(s.x);
    for (int i = 0; i < m; i++) {
        int st = (int)k.getStatus(i); double y = s.y[n + i]; long double v = 0; for (int j = 0; j < n; j++) v += (long double)q.A[(size_t)i * n + j] * s.x[j];
        PBT_CHECK(c, st == -1 || st == 0 || st == 1, tag + "cstatus", "constraint " << i << " has status " << st);
        PBT_CHECK(c, wc[i] == st, tag + "ws-constraints", "working set vector says " << wc[i] << ", constraint status " << st);
        if (st != 0) act++; if (q.lbA[i] == q.ubA[i]) eq++; if (k.getType(i) == ST_EQUALITY) { teq++; PBT_CHECK(c, q.lbA[i] == q.ubA[i], tag + "cequality", "constraint " << i << " called an equality\n" << q.show()); }
        bool e = q.lbA[i] == q.ubA[i];
        if (st == 0) PBT_CHECK(c, y == 0, tag + "cinactive", "inactive constraint " << i << " has multiplier " << y << "\n" << q.show());
        if (st == -1) PBT_CHECK(c, (e || y >= -tol * (1 + normInf(s.y))) && q.lbA[i] > -INF && fabsl(v - q.lbA[i]) <= tol * sc * 3, tag + "clower", "constraint " << i << " active at its lower side: value " << (double)v << " multiplier " << y << "\n" << q.show());
        if (st == 1) PBT_CHECK(c, (e || y <= tol * (1 + normInf(s.y))) && q.ubA[i] < INF && fabsl(v - q.ubA[i]) <= tol * sc * 3, tag + "cupper", "constraint " << i << " active at its upper side: value " << (double)v << " multiplier " << y << "\n" << q.show());
        if (!deg && q.ys[n + i] != 0 && !e) PBT_CHECK(c, st == (q.ys[n + i] > 0 ? -1 : 1), tag + "cplanted", "constraint " << i << " must be active with multiplier " << q.ys[n + i] << " but has status " << st << "\n" << q.show());
        if (!deg && q.ys[n + i] == 0) PBT_CHECK(c, st == 0, tag + "cplanted0", "constraint " << i << " must be inactive but has status " << st << "\n" << q.show());
        if (!deg && e) PBT_CHECK(c, st != 0, tag + "cplantedE", "equality " << i << " must be active\n" << q.show());
    }
    PBT_CHECK(c, p.getNAC() == act && p.getNIAC() == m - act && k.getNAC() == act && k.getNIAC() == m - act, tag + "count-active", "active " << p.getNAC() << " inactive " << p.getNIAC() << " but " << act << " of " << m << " are active\n" << q.show());
    PBT_CHECK(c, p.getNEC() == teq && k.getNEC() == teq && k.getNEC() + k.getNIC() + k.getNUC() == m, tag + "count-eq", "number of equality constraints " << p.getNEC() << "\n" << q.show());
    if (o.enableEqualities && cold && !deg) PBT_CHECK(c, p.getNEC() == eq, tag + "count-eq-data", "reported " << p.getNEC() << " equality constraints, the data have " << eq << "\n" << q.show());
    for (int i = 0; i < m; i++) { bool a = k.getActive()->isMember(i) == BT_TRUE, b = k.getInactive()->isMember(i) == BT_TRUE; PBT_CHECK(c, a == ((int)k.getStatus(i) != 0) && b == !a, tag + "clists", "constraint " << i << " list membership\n"); }
    std::vector<BooleanType> f(n); PBT_CHECK(c, p.getFreeVariablesFlags(f.data()) == SUCCESSFUL_RETURN, "freeflags", "getFreeVariablesFlags failed"); Bounds b; p.getBounds(b);
    for (int i = 0; i < n; i++) PBT_CHECK(c, (f[i] == BT_TRUE) == (b.getStatus(i) == ST_INACTIVE), tag + "freeflags", "free flag of variable " << i << " is " << (int)f[i]);
    PBT_CHECK(c, p.getNZ() == p.getNFR() - act, tag + "count-nz", "null space dimension " << p.getNZ() << " free " << p.getNFR() << " active " << act);
}
template <class P> void queries(Ctx& c, P& p, const QP& q, const Options& o, bool deg, bool cold, const std::string& tag) {
    int n = q.n, m = q.m; Vec x(n + 1, 77), y(n + m + 1, 77);
    PBT_CHECK(c, p.getPrimalSolution(x.data()) == SUCCESSFUL_RETURN && p.getDualSolution(y.data()) == SUCCESSFUL_RETURN, tag + "solution", "solution refused after success");
    PBT_CHECK(c, x[n] == 77 && y[n + m] == 77, tag + "length", "solution written beyond its length");
    Sol s = getSol(p, n, m); double tol = 10 * tolOf(o), sc = 1 + normInf(s.x);
    PBT_CHECK(c, fabs(s.obj - q.objective(s.x.data())) <= 1e-9 * q.objScale(s.x.data()) , tag + "objective", "reported objective " << bitsOf(s.obj) << " " << s.obj << " but the reported solution has " << q.objective(s.x.data()) << "\n" << q.show());
    Vec z(n); for (auto& v : z) v = val(c, true, 5); double oz = p.getObjVal(z.data());
    PBT_CHECK(c, fabs(oz - q.objective(z.data())) <= 1e-9 * q.objScale(z.data()), tag + "objective-at", "objective at " << str(z) << " reported as " << oz << " but is " << q.objective(z.data()) << "\n" << q.show());
    PBT_CHECK(c, p.isInitialised() == BT_TRUE && p.isSolved() == BT_TRUE && p.isInfeasible() == BT_FALSE && p.isUnbounded() == BT_FALSE && p.getStatus() == QPS_SOLVED, tag + "flags", "status flags after success");
    PBT_CHECK(c, getSimpleStatus(SUCCESSFUL_RETURN) == 0, "simple", "simple status of success");
    HessianType ht = p.getHessianType(); PBT_CHECK(c, q.hk == HK_ID ? (ht == HST_IDENTITY || ht == HST_POSDEF || ht == HST_UNKNOWN) : (ht != HST_ZERO && ht != HST_INDEF && (ht != HST_IDENTITY || normInf(q.H) == 1)), tag + "hessiantype", "Hessian type " << (int)ht << "\n" << q.show());
    Bounds b; p.getBounds(b); int fx = 0, eq = 0, teq = 0; Vec w(n + m + 1, 77), wb(n + 1, 77);
    PBT_CHECK(c, p.getWorkingSet(w.data()) == SUCCESSFUL_RETURN && p.getWorkingSetBounds(wb.data()) == SUCCESSFUL_RETURN && w[n + m] == 77 && wb[n] == 77, tag + "ws-length", "working set written beyond its length");
    PBT_CHECK(c, b.getNV() == n && p.getNV() == n, "count-nv", "number of variables");
    for (int i = 0; i < n; i++) {
        int st = (int)b.getStatus(i); double yi = s.y[i]; bool e = q.lb[i] == q.ub[i];
        PBT_CHECK(c, st == -1 || st == 0 || st == 1, tag + "bstatus", "bound " << i << " has status " << st);
        PBT_CHECK(c, w[i] == st && wb[i] == st, tag + "ws-bounds", "working set vectors say " << w[i] << " " << wb[i] << ", bound status " << st);
        if (st != 0) fx++; if (e) eq++; if (b.getType(i) == ST_EQUALITY) { teq++; PBT_CHECK(c, e, tag + "bequality", "variable " << i << " called fixed\n" << q.show()); }
        if (st == 0) PBT_CHECK(c, yi == 0, tag + "binactive", "free variable " << i << " has multiplier " << yi << "\n" << q.show());
        if (st == -1) PBT_CHECK(c, (e || yi >= -tol * (1 + normInf(s.y))) && q.lb[i] > -INF && fabs(s.x[i] - q.lb[i]) <= tol * sc, tag + "blower", "variable " << i << " fixed at its lower bound: value " << s.x[i] << " multiplier " << yi << "\n" << q.show());
        if (st == 1) PBT_CHECK(c, (e || yi <= tol * (1 + normInf(s.y))) && q.ub[i] < INF && fabs(s.x[i] - q.ub[i]) <= tol * sc, tag + "bupper", "variable " << i << " fixed at its upper bound: value " << s.x[i] << " multiplier " << yi << "\n" << q.show());
        if (!deg && q.ys[i] != 0 && !e) PBT_CHECK(c, st == (q.ys[i] > 0 ? -1 : 1), tag + "bplanted", "bound " << i << " must be active with multiplier " << q.ys[i] << " but has status " << st << "\n" << q.show());
        if (!deg && q.ys[i] == 0) PBT_CHECK(c, st == 0, tag + "bplanted0", "bound " << i << " must be inactive but has status " << st << "\n" << q.show());
        bool a = b.getFree()->isMember(i) == BT_TRUE, d = b.getFixed()->isMember(i) == BT_TRUE; PBT_CHECK(c, a == (st == 0) && d == !a, tag + "blists", "bound " << i << " list membership");
    }
    PBT_CHECK(c, p.getNFX() == fx && p.getNFR() == n - fx && b.getNFX() == fx && b.getNFR() == n - fx, tag + "count-fixed", "fixed " << p.getNFX() << " free " << p.getNFR() << " but " << fx << " of " << n << " are fixed\n" << q.show());
    PBT_CHECK(c, p.getNFV() == teq && b.getNFV() == teq && b.getNFV() + b.getNBV() + b.getNUV() == n, tag + "count-fv", "implicitly fixed " << p.getNFV() << "\n" << q.show());
    if (o.enableEqualities && cold && !deg) PBT_CHECK(c, p.getNFV() == eq, tag + "count-fv-data", "reported " << p.getNFV() << " implicitly fixed variables, the data have " << eq << "\n" << q.show());
    if (q.m == 0 || dynamic_cast<QProblem*>(&p) == nullptr) PBT_CHECK(c, p.getNZ() == n - fx, tag + "count-nz", "null space dimension " << p.getNZ());
    consQueries(c, p, q, s, o, deg, cold, tag);
    PBT_CHECK(c, p.getPrintLevel() == o.printLevel, tag + "printlevel", "print level");
}
template <class P> void run(Ctx& c, P& p, P& twin, QP& q, Ses& s, const char* cls) {
    // the twin runs the same history without any query
    getGlobalMessageHandler()->setOutputFile(devNull());
    p.setOptions(s.o); twin.setOptions(s.o); int lim = 10 * (q.n + q.m) + 100; int_t w = lim, w2 = lim; returnValue r = initP(p, q, s.a, w), r2 = initP(twin, q, s.a, w2);
    if (c.verbose) c.desc << cls << " " << REPN[s.a.rep] << " options " << s.on << " null=" << s.a.useNull << " first " << q.show() << " -> r=" << (int)r;
    PBT_CHECK(c, r == SUCCESSFUL_RETURN && r2 == r, s.on + "-first", "first problem not solved, r=" << (int)r << "\n" << q.show());
    queries(c, p, q, s.o, s.deg, true, std::string(cls) + "-cold-"); unsigned cnt = p.getCount();
    PBT_CHECK(c, cnt == 1, "counter", "problem counter " << cnt << " after first solve");
    int len = c.range(0, 3); bool nt = w > 0;
    for (int k = 0; k <= len; k++) {
        std::string before = snapshot(p, q.n, q.m); int how = (int)c.raw(4);
        if (how == 1) { p.printProperties(); p.printOptions(); } if (how == 2) { p.setPrintLevel(PL_HIGH); p.printProperties(); p.printOptions(); p.setPrintLevel(s.o.printLevel); } if (how == 3) { double none = 0; p.getWorkingSet(nullptr); p.getWorkingSetBounds(nullptr); (void)none; p.setOptions(p.getOptions()); }
        std::string after = snapshot(p, q.n, q.m);
        PBT_CHECK(c, before == after, std::string(cls) + "-query-effect", "queries changed the state:\n" << before << "\n" << after);
        if (k == len) break;
        next(c, q, s, c.weighted({3, 3, 2, 1})); w = lim; w2 = lim; r = hotP(p, q, s.a, w); r2 = hotP(twin, q, s.a, w2);
        if (c.verbose) c.desc << " | hot " << q.show() << " -> r=" << (int)r << " nWSR=" << w;
        PBT_CHECK(c, r == SUCCESSFUL_RETURN, s.on + "-hot", "hot start returned " << (int)r << "\n" << q.show());
        PBT_CHECK(c, r2 == r && w2 == w, std::string(cls) + "-query-effect2", "queries changed the next solve: nWSR " << w << " without queries " << w2);
        PBT_CHECK(c, p.getCount() == ++cnt, "counter", "problem counter " << p.getCount() << " after hot start");
        if (w) nt = true;
        queries(c, p, q, s.o, s.deg, false, std::string(cls) + "-hot-");
    }
    PBT_CHECK(c, snapshot(p, q.n, q.m) == snapshot(twin, q.n, q.m), std::string(cls) + "-query-twin", "an object that was queried differs from one that was not\n" << snapshot(p, q.n, q.m) << "\n" << snapshot(twin, q.n, q.m));
    if (c.raw(3) == 0) { p.resetCounter(); PBT_CHECK(c, p.getCount() == 0, "counter", "counter after reset"); }
    c.label(std::string(cls) + " " + s.on + " " + REPN[s.a.rep]); c.nontrivial = nt;
}
PBT_PROP(general, 4) { QP q; Ses s; start(c, q, s, false); QProblem p(q.n, q.m, s.ht), t(q.n, q.m, s.ht); run(c, p, t, q, s, "general"); }
PBT_PROP(varying, 1) { QP q; Ses s; start(c, q, s, false); SQProblem p(q.n, q.m, s.ht), t(q.n, q.m, s.ht); run(c, p, t, q, s, "varying"); }
PBT_PROP(bounds, 2) { QP q; Ses s; start(c, q, s, true); QProblemB p(q.n, s.ht), t(q.n, s.ht); run(c, p, t, q, s, "bounds"); }
// before anything is solved, and after failures, nothing is offered as a solution
template <class P> void unsolved(Ctx& c, P& p, const QP& q, const Args& a, const Options& o, const char* cls) {
    int n = q.n, m = q.m; p.setOptions(o); Vec x(n, 77), y(n + m, 77);
    auto refused = [&](const char* when) {
        bool sv = p.isSolved() == BT_TRUE; QProblemStatus st = p.getStatus();
        if (st == QPS_NOTINITIALISED || st == QPS_PREPARINGAUXILIARYQP || st == QPS_PERFORMINGHOMOTOPY) {
            PBT_CHECK(c, p.getPrimalSolution(x.data()) == RET_QP_NOT_SOLVED && p.getDualSolution(y.data()) == RET_QP_NOT_SOLVED && x == Vec(n, 77), std::string(cls) + "-unsolved", "a solution was returned " << when);
            PBT_CHECK(c, p.getObjVal() >= INF, std::string(cls) + "-unsolved-obj", "an objective was returned " << when << ": " << p.getObjVal());
        }
        PBT_CHECK(c, !sv || st == QPS_SOLVED, "solved-flag", "isSolved");
    };
    refused("before initialisation"); PBT_CHECK(c, p.isInitialised() == BT_FALSE && p.isSolved() == BT_FALSE && p.getCount() == 0, "fresh", "fresh object claims to be initialised");
    int lim = c.flag() ? 500 : (int)c.raw(3); int_t w = lim; returnValue r = initP(p, q, a, w);
    if (c.verbose) c.desc << cls << " limit " << lim << " " << q.show() << " -> r=" << (int)r << " nWSR=" << w;
    refused("after init"); PBT_CHECK(c, (p.isSolved() == BT_TRUE) == (r == SUCCESSFUL_RETURN), std::string(cls) + "-solved", "isSolved is " << p.isSolved() << " after return code " << (int)r << "\n" << q.show());
    PBT_CHECK(c, (p.isInfeasible() == BT_TRUE) == (r == RET_INIT_FAILED_INFEASIBILITY), std::string(cls) + "-infeasible", "isInfeasible is " << p.isInfeasible() << " after return code " << (int)r << "\n" << q.show());
    PBT_CHECK(c, (p.isUnbounded() == BT_TRUE) == (r == RET_INIT_FAILED_UNBOUNDEDNESS), std::string(cls) + "-unbounded", "isUnbounded is " << p.isUnbounded() << " after return code " << (int)r << "\n" << q.show());
    c.label(std::string(cls) + " -> " + (r == 0 ? "solved" : r == RET_INIT_FAILED_INFEASIBILITY ? "infeasible" : r == RET_INIT_FAILED_UNBOUNDEDNESS ? "unbounded" : r == RET_MAX_NWSR_REACHED ? "limit" : "other")); c.nontrivial = r != SUCCESSFUL_RETURN;
    p.reset(); refused("after reset"); PBT_CHECK(c, p.isInitialised() == BT_FALSE && p.isSolved() == BT_FALSE && p.isInfeasible() == BT_FALSE && p.isUnbounded() == BT_FALSE, "reset", "flags survive a reset");
}
PBT_PROP(unsolved, 2) {
    int kind = (int)c.raw(3); QP q; q.generic = c.flag(); Shape sh; sh.forceC = kind == 1; bool useB = kind != 1 && c.flag(); if (useB) sh.mMax = 0; genSize(c, q, sh); if (kind == 2) { q.generic = false; genA(c, q); genUnbounded(c, q, true); } else { genH(c, q); genA(c, q); if (kind == 1) genInfeasible(c, q); else genVectors(c, q); }
    Args a; a.useNull = c.flag(); a.set(q, genRep(c)); Options o = genPreset(c);
    HessianType ht = a.H.empty() ? hessType(c, q) : HST_UNKNOWN;
    if (useB) { QProblemB p(q.n, ht); unsolved(c, p, q, a, o, "bounds"); } else { QProblem p(q.n, q.m, ht); unsolved(c, p, q, a, o, "general"); }
}
// the objective is that of the problem as given, however strongly its Hessian is regularised for the solution
template <class P> void regularised(Ctx& c, P& p, QP& q, Ses& s, const std::string& cls) {
    int n = q.n, m = q.m; p.setOptions(s.o); int_t w = 40 * (n + m) + 200; returnValue r = initP(p, q, s.a, w);
    if (c.verbose) c.desc << cls << " " << REPN[s.a.rep] << " eps " << s.o.epsRegularisation << " steps " << s.o.numRegularisationSteps << " " << q.show();
    int more = (int)c.raw(3); for (int k = 0; ; k++) {
        if (r != SUCCESSFUL_RETURN) { c.label(cls + " not solved"); return; }
        Sol t = getSol(p, n, m); Vec z(n); for (auto& v : z) v = val(c, true, 5); double oz = p.getObjVal(z.data());
        PBT_CHECK(c, fabs(t.obj - q.objective(t.x.data())) <= 1e-9 * q.objScale(t.x.data()), cls + "-objective", "reported objective " << t.obj << " but the reported solution has " << q.objective(t.x.data()) << " regularised " << p.usingRegularisation() << " type " << (int)p.getHessianType() << "\n" << q.show());
        PBT_CHECK(c, fabs(oz - q.objective(z.data())) <= 1e-9 * q.objScale(z.data()), cls + "-objective-at", "objective at " << str(z) << " reported as " << oz << " but is " << q.objective(z.data()) << " regularised " << p.usingRegularisation() << " type " << (int)p.getHessianType() << "\n" << q.show());
        c.label(cls + (p.usingRegularisation() ? " regularised" : " plain")); if (p.usingRegularisation()) c.nontrivial = true;
        if (k >= more) return; next(c, q, s, c.weighted({3, 2, 1, 1})); w = 40 * (n + m) + 200; r = hotP(p, q, s.a, w);
    }
}
PBT_PROP(regularised, 1) {
    QP q; q.generic = true; bool useB = c.flag(); Shape sh; if (useB) sh.mMax = 0; genSize(c, q, sh); Ses s; s.deg = false; s.o = genPreset(c, &s.on);
    if (c.flag()) { genHpsd(c, q); s.o.enableRegularisation = BT_TRUE; } else { genH(c, q); if (c.flag()) s.o.enableRegularisation = BT_TRUE; } genA(c, q); VecOpt vo; genVectors(c, q, vo);
    s.a.useNull = c.flag(); s.a.set(q, genRep(c), c.raw(3) == 0); s.ht = s.a.H.empty() ? hessType(c, q) : c.flag() ? HST_SEMIDEF : HST_UNKNOWN;
    s.o.epsRegularisation = c.pick(std::vector<double>{1e-8, 1e-4, 1e-2, 0.3}); s.o.numRegularisationSteps = (int_t)c.raw(4);
    if (useB) { QProblemB p(q.n, s.ht); regularised(c, p, q, s, "reg-bounds"); } else if (c.flag()) { QProblem p(q.n, q.m, s.ht); regularised(c, p, q, s, "reg-general"); } else { SQProblem p(q.n, q.m, s.ht); regularised(c, p, q, s, "reg-varying"); }
}
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
