// C09: copies are equivalent and independent
#include "seq.hpp"
#include "query.hpp"
using namespace qpOASES; using namespace qg;
static const char* CLS[] = {"general", "varying", "bounds"};
typedef std::unique_ptr<QProblemB> PP;
static PP mk(int cls, int n, int m, HessianType ht = HST_UNKNOWN) { PP p; if (cls == 2) p.reset(new QProblemB(n, ht)); else if (cls == 1) p.reset(new SQProblem(n, m, ht)); else p.reset(new QProblem(n, m, ht)); return p; }
static std::string snap(int cls, QProblemB& p, int n, int m) { return cls == 2 ? snapshot(p, n, m) : snapshot(*dynamic_cast<QProblem*>(&p), n, m); }
static returnValue ini(int cls, QProblemB& p, const QP& q, const Args& a, int_t& w, const Guess& g = Guess()) { return cls == 2 ? initP(p, q, a, w, nullptr, g) : initP(*dynamic_cast<QProblem*>(&p), q, a, w, nullptr, g); }
static returnValue hot(int cls, QProblemB& p, const QP& q, const Args& a, int_t& w, const WsGuess& g) { return cls == 2 ? hotP(p, q, a, w, nullptr, g.b.get()) : hotP(*dynamic_cast<QProblem*>(&p), q, a, w, nullptr, g.b.get(), g.c.get()); }
static PP dup(int cls, const QProblemB& p) { PP r; if (cls == 2) r.reset(new QProblemB(p)); else if (cls == 1) r.reset(new SQProblem(dynamic_cast<const SQProblem&>(p))); else r.reset(new QProblem(dynamic_cast<const QProblem&>(p))); return r; }
static void assign(int cls, QProblemB& d, const QProblemB& s) { if (cls == 2) d = s; else if (cls == 1) dynamic_cast<SQProblem&>(d) = dynamic_cast<const SQProblem&>(s); else dynamic_cast<QProblem&>(d) = dynamic_cast<const QProblem&>(s); }
// matrix arguments as separate memory with the same contents
static std::unique_ptr<Args> args(const QP& q, int rep, bool useNull, bool triv) { auto a = std::make_unique<Args>(); a->useNull = useNull; a->set(q, rep, triv); return a; }
static void scribble(Args& a) { for (auto& v : a.H) v = 1e77; for (auto& v : a.A) v = -1e77; for (Mat* m : {a.mh.get(), a.ma.get()}) if (m) { for (auto& v : m->dense) v = 1e77; for (auto& v : m->valv) v = 1e77; } }
struct Cell { PP p; std::vector<std::unique_ptr<Args>> a; };
static void body(Ctx& c, int cls) {
    QP q; Ses s; start(c, q, s, cls == 2); int n = q.n, m = q.m, big = 20 * (n + m) + 200; std::string tag = std::string(CLS[cls]); bool triv = q.hk != HK_DENSE && s.a.hp(); int rep = s.a.rep; bool nl = s.a.useNull;
    if (c.raw(4) == 0) { s.o.enableDriftCorrection = 1 + (int_t)c.raw(2); s.o.enableCholeskyRefactorisation = (int_t)c.raw(2); s.o.numRefinementSteps = (int_t)c.raw(3); } if (c.raw(4) == 0) { s.o.epsFlipping *= 2; s.o.growFarBounds *= 2; s.o.dropBoundPriority = 2; s.o.rcondSMin *= 2; s.o.enableInertiaCorrection = BT_FALSE; }
    Cell A; A.p = mk(cls, n, m, s.ht); A.p->setOptions(s.o); A.a.push_back(args(q, rep, nl, triv)); returnValue r = SUCCESSFUL_RETURN; int_t w = 0; int state = c.weighted({6, 1, 2, 1, 1});   // solved, fresh, interrupted, infeasible, reset
    if (c.verbose) c.desc << tag << " " << REPN[rep] << " options " << s.on << " null=" << nl << " " << q.show() << " state " << state;
    if (state != 1) { w = state == 2 ? (int_t)c.raw(4) : big; Guess g; WsGuess wg; if (c.raw(3) == 0) { wg = genGuess(c, q, guessMode(c), cls == 2 ? 0 : guessMode(c)); g.b = wg.b.get(); g.c = wg.c.get(); } r = ini(cls, *A.p, q, *A.a[0], w, g); if (c.verbose) c.desc << " -> r=" << (int)r << " nWSR=" << w; }
    int pre = state == 0 ? c.range(0, 2) : 0; for (int k = 0; k < pre; k++) { next(c, q, s, c.weighted({3, 2, 1, 1})); w = big; r = hot(cls, *A.p, q, *A.a.back(), w, WsGuess()); if (c.verbose) c.desc << " | " << q.show() << " -> r=" << (int)r; }
    if (state == 3) { QP t = q; int i = (int)c.raw(n + m); double& l = i < n ? t.lb[i] : t.lbA[i - n]; double& u = i < n ? t.ub[i] : t.ubA[i - n]; if (u >= INF) u = 0; l = u + 1; w = big; hot(cls, *A.p, t, *A.a.back(), w, WsGuess()); }
    if (state == 4) A.p->reset();
    std::string before = snap(cls, *A.p, n, m);
    // --- copy
    Cell B; int how = (int)c.raw(5);
    if (how == 0) B.p = dup(cls, *A.p);
    else if (how == 1) { B.p = mk(cls, n, m); assign(cls, *B.p, *A.p); }
    else if (how == 2) { int n2 = c.range(1, 6), m2 = cls == 2 ? 0 : c.range(0, 5); B.p = mk(cls, n2, m2); assign(cls, *B.p, *A.p); }
    else if (how == 3) { QP o; Ses t; start(c, o, t, cls == 2); B.p = mk(cls, o.n, o.m, t.ht); B.p->setOptions(t.o); w = 1000; ini(cls, *B.p, o, t.a, w); assign(cls, *B.p, *A.p); t.a.H.assign(t.a.H.size(), 5); }
    else { PP x = dup(cls, *A.p); B.p = mk(cls, 2, cls == 2 ? 0 : 1); assign(cls, *B.p, *x); if (c.flag()) assign(cls, *B.p, *B.p); }
    static const char* HOW[] = {"constructed", "assigned", "assigned to another size", "assigned to a solved one", "copy of a copy"}; if (c.verbose) c.desc << " | " << HOW[how];
    PBT_CHECK(c, snap(cls, *A.p, n, m) == before, tag + "-source", "copying changed the source\n" << before << "\n" << snap(cls, *A.p, n, m));
    PBT_CHECK(c, snap(cls, *B.p, n, m) == before, tag + "-equal", "the copy (" << HOW[how] << ") answers differently\n" << before << "\n" << snap(cls, *B.p, n, m));
    Vec z(n); for (auto& v : z) v = c.sint(3); if (state != 1 && state != 4) PBT_CHECK(c, bitsOf(A.p->getObjVal(z.data())) == bitsOf(B.p->getObjVal(z.data())), tag + "-objective", "objective at another point differs");
    // --- same future, with the other one doing something else or being gone; B keeps its own matrix memory
    Cell* X = &B; Cell* Y = &A; bool orig = c.raw(3) == 0;   // which one is checked against the reference: usually the copy
    PP ref = dup(cls, *A.p); std::vector<std::unique_ptr<Args>> refA;
    if (orig) std::swap(X, Y);
    int dist = (int)c.raw(4); bool yAlive = true; std::string ys = snap(cls, *Y->p, n, m);
    auto disturb = [&]() {
        if (!yAlive) return; int_t w2 = big; returnValue d = SUCCESSFUL_RETURN;
        if (dist == 1) { Y->p.reset(); if (Y == &A && rep == R_RAW) { for (auto& a : A.a) scribble(*a); A.a.clear(); } yAlive = false; }
        else if (dist == 2) { QP o = q; VecOpt vo; vo.degenerate = s.deg; genVectors(c, o, vo); if (Y->p->isInitialised()) { if (cls == 1 && c.flag()) { genA(c, o); genVectors(c, o, vo); Y->a.push_back(args(o, (int)c.raw(4), nl, triv)); d = hotM(dynamic_cast<SQProblem&>(*Y->p), o, *Y->a.back(), w2); } else { Args x; x.useNull = nl; d = hot(cls, *Y->p, o, x, w2, WsGuess()); } } }
        else if (dist == 3) { Options o; o.setToReliable(); o.printLevel = PL_NONE; Y->p->setOptions(o); Y->p->reset(); }
        (void)d;
    };
    // a copied object must not depend on the arrays given to the original (matrix objects stay with the caller and are shared)
    int len = c.range(1, 3); bool nt = false; if (!orig && dist == 1) disturb();
    for (int k = 0; k < len; k++) {
        if (!(dist == 1 && orig)) disturb();
        bool initNow = X->p->getStatus() == QPS_NOTINITIALISED; VecOpt vo; vo.degenerate = s.deg; bool mats = !initNow && cls == 1 && c.flag();
        if (mats) { if (q.hk == HK_DENSE && s.a.hp()) genH(c, q, false); genA(c, q); genVectors(c, q, vo); } else next(c, q, s, c.weighted({3, 3, 2, 1}));
        WsGuess g; if (c.raw(3) == 0) g = genGuess(c, q, guessMode(c), cls == 2 ? 0 : guessMode(c)); int lim = c.raw(5) ? big : (int)c.raw(4); int_t w1 = lim, w2 = lim; returnValue r1, r2; int rp = mats ? (int)c.raw(4) : rep;
        if (initNow) { HessianType ht = s.a.hp() ? HST_UNKNOWN : s.ht; ref->setHessianType(ht); X->p->setHessianType(ht); }
        if (initNow || mats) { refA.push_back(args(q, rp, nl, triv)); X->a.push_back(args(q, rp, nl, triv)); }
        Args nul; nul.useNull = nl; Guess gg; gg.b = g.b.get(); gg.c = g.c.get();
        if (initNow) { r1 = ini(cls, *X->p, q, *X->a.back(), w1, gg); r2 = ini(cls, *ref, q, *refA.back(), w2, gg); }
        else if (mats) { r1 = hotM(dynamic_cast<SQProblem&>(*X->p), q, *X->a.back(), w1, nullptr, gg.b, gg.c); r2 = hotM(dynamic_cast<SQProblem&>(*ref), q, *refA.back(), w2, nullptr, gg.b, gg.c); }
        else { r1 = hot(cls, *X->p, q, nul, w1, g); r2 = hot(cls, *ref, q, nul, w2, g); }
        if (c.verbose) c.desc << " | " << (initNow ? "init " : mats ? "matrices " : "hot ") << q.show() << g.show << " -> r=" << (int)r1 << " nWSR=" << w1;
        std::string a = snap(cls, *X->p, n, m), b = snap(cls, *ref, n, m);
        PBT_CHECK(c, r1 == r2 && w1 == w2 && a == b, tag + (orig ? "-original" : "-copy") + "-future", "solving step " << k + 1 << " gives r=" << (int)r1 << " nWSR=" << w1 << " on the " << (orig ? "original" : "copy") << " (" << HOW[how] << "), r=" << (int)r2 << " nWSR=" << w2 << " on a second copy, disturbance " << dist << "\n" << a << "\n" << b << "\n" << q.show());
        if (w1 > 0) nt = true;
        if (r1 == SUCCESSFUL_RETURN && s.on != "mpc" && state <= 1) judge(c, q, s, getSol(*X->p, n, m), tag + "-answer");
        if (dist == 0 && yAlive) PBT_CHECK(c, snap(cls, *Y->p, n, m) == ys, tag + "-independent", "using one object changed the other\n" << ys << "\n" << snap(cls, *Y->p, n, m));
    }
    if (yAlive && dist == 0 && c.flag()) { X->p.reset(); PBT_CHECK(c, snap(cls, *Y->p, n, m) == ys, tag + "-independent", "destroying one object changed the other"); if (Y->p->isInitialised() && Y->p->getStatus() != QPS_NOTINITIALISED) { int_t w2 = big; Args nul; nul.useNull = nl; QP t = q; hot(cls, *Y->p, t, nul, w2, WsGuess()); } }
    c.label(tag + " " + HOW[how] + " disturbance " + std::to_string(dist)); c.label(std::string("state ") + (state == 0 ? "solved" : state == 1 ? "fresh" : state == 2 ? "interrupted" : state == 3 ? "infeasible" : "reset")); c.nontrivial = nt;
}
PBT_PROP(general, 4) { body(c, 0); }
PBT_PROP(varying, 3) { body(c, 1); }
PBT_PROP(bounds, 2) { body(c, 2); }
PBT_PROP(options, 1) {
    Options o; o.printLevel = PL_NONE; auto rb = [&] { return c.flag() ? BT_TRUE : BT_FALSE; }; auto rr = [&] { return 0.001 + c.pos01(); }; auto ri = [&] { return (int_t)c.raw(9); };
    o.printLevel = (PrintLevel)((int)c.raw(3)); o.enableRamping = rb(); o.enableFarBounds = rb(); o.enableFlippingBounds = rb(); o.enableRegularisation = rb(); o.enableFullLITests = rb(); o.enableNZCTests = rb(); o.enableDriftCorrection = ri(); o.enableCholeskyRefactorisation = ri(); o.enableEqualities = rb(); o.terminationTolerance = rr(); o.boundTolerance = rr(); o.boundRelaxation = rr(); o.epsNum = -rr(); o.epsDen = rr(); o.maxPrimalJump = rr(); o.maxDualJump = rr(); o.initialRamping = rr(); o.finalRamping = rr(); o.initialFarBounds = rr(); o.growFarBounds = rr(); o.initialStatusBounds = c.flag() ? ST_UPPER : ST_INACTIVE; o.epsFlipping = rr(); o.numRegularisationSteps = ri(); o.epsRegularisation = rr(); o.numRefinementSteps = ri(); o.epsIterRef = rr(); o.epsLITests = rr(); o.epsNZCTests = rr(); o.rcondSMin = rr(); o.enableInertiaCorrection = rb(); o.enableDropInfeasibles = rb(); o.dropBoundPriority = ri(); o.dropEqConPriority = ri(); o.dropIneqConPriority = ri();
    std::string s = optStr(o); Options p(o), q; q.setToReliable(); q = o; if (c.verbose) c.desc << "options " << s;
    PBT_CHECK(c, optStr(p) == s && optStr(q) == s, "options-copy", "copy of options differs:\n" << s << "\n" << optStr(p) << "\n" << optStr(q));
    o.setToMPC(); PBT_CHECK(c, optStr(p) == s && optStr(q) == s, "options-independent", "copies of options change with their source"); c.nontrivial = true;
}
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
