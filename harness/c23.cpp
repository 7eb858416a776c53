// C23: caller data is never modified and never referenced late
#include "seq.hpp"
#include "query.hpp"
using namespace qpOASES; using namespace qg;
// memory ending at an inaccessible page; inputs are read-only while the library works
struct Page {
    char* base = nullptr; size_t pages = 0, n = 0; double* p = nullptr; bool null = true;
    Page() {} Page(const Page&) = delete;
    void set(const double* src, size_t k) {
        release(); null = src == nullptr; if (null) return; n = k; pages = (k * 8 + 4095) / 4096 + 1; base = (char*)mmap(nullptr, pages * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (base == MAP_FAILED) { base = nullptr; throw pbt::Discard(); }
        mprotect(base + (pages - 1) * 4096, 4096, PROT_NONE); p = (double*)(base + (pages - 1) * 4096 - k * 8); if (k) memcpy(p, src, k * 8);
    }
    void set(const Vec& v) { set(v.data(), v.size()); }
    void readOnly() { if (base) mprotect(base, (pages - 1) * 4096, PROT_READ); }
    void gone(int how) { if (!base) return; if (how == 0) { munmap(base, pages * 4096); base = nullptr; } else { mprotect(base, (pages - 1) * 4096, PROT_READ | PROT_WRITE); for (size_t i = 0; i < n; i++) p[i] = how == 1 ? NAN : -3.5e7; } }
    void release() { if (base) munmap(base, pages * 4096); base = nullptr; }
    const double* get() const { return null ? nullptr : p; }
    ~Page() { release(); }
};
// an output array of documented length: preceded by a mark, followed by an inaccessible page
struct Out { Page g; size_t k; explicit Out(size_t n) : k(n) { Vec v(n + 8, 77.25); g.set(v); } double* p() { return g.p + 8; } bool ok() const { for (int i = 0; i < 8; i++) if (g.p[i] != 77.25) return false; return true; } Vec vec() const { return Vec(g.p + 8, g.p + 8 + k); } };
static const char* CLS[] = {"general", "varying", "bounds"};
struct Call { Page g, lb, ub, lbA, ubA, x, y, R; };
static std::vector<double> raw(const Mat* m) { Vec v; if (m) { v = m->dense; v.insert(v.end(), m->valv.begin(), m->valv.end()); } return v; }
static std::string snap(int cls, QProblemB& p, int n, int m) { return cls == 2 ? snapshot(p, n, m) : snapshot(*dynamic_cast<QProblem*>(&p), n, m); }
static void body(Ctx& c, int cls) {
    QP q; Ses s; start(c, q, s, cls == 2); bool semi = c.raw(5) == 0 && q.hk == HK_DENSE; int n = q.n, m = q.m, lim0 = 10 * (n + m) + 60;
    if (semi) { int i = (int)c.raw(n); for (int j = 0; j < n; j++) q.H[(size_t)i * n + j] = q.H[(size_t)j * n + i] = 0; s.o.enableRegularisation = B(c.raw(4) != 0); s.o.numRegularisationSteps = 1 + (int)c.raw(2); s.a.set(q, s.a.rep); if (c.flag()) s.ht = HST_SEMIDEF; }
    std::string tag = std::string(CLS[cls]); auto mk = [&]() { std::unique_ptr<QProblemB> p; if (cls == 2) p.reset(new QProblemB(n, s.ht)); else if (cls == 1) p.reset(new SQProblem(n, m, s.ht)); else p.reset(new QProblem(n, m, s.ht)); p->setOptions(s.o); return p; };
    std::vector<std::unique_ptr<Page>> mats; std::vector<std::unique_ptr<Args>> keepB, keepA; auto a = mk(), b = mk(); Page *H = nullptr, *A = nullptr; bool any = false; int len = c.range(0, 4), rep = s.a.rep; bool triv = q.hk != HK_DENSE && s.a.hp(), nl = s.a.useNull; if (c.verbose) c.desc << tag << " " << REPN[rep] << " " << s.on << (semi ? " semidefinite" : "");
    int how = (int)c.raw(3);
    for (int k = 0; k <= len; k++) {
        bool mat = false, cold = k == 0 || c.raw(10) == 0; int kind = -1;
        if (k) { if (cls == 1 && !cold && c.raw(3) == 0) { if (q.hk == HK_DENSE && !semi) genH(c, q, false); genA(c, q); VecOpt vo; genVectors(c, q, vo); mat = true; rep = (int)c.raw(4); } else { kind = c.weighted({4, 3, 2, 1}); next(c, q, s, kind); } }
        QP t = q; if (c.raw(8) == 0) { int i = (int)c.raw(n); t.lb[i] = 2; t.ub[i] = c.flag() ? 1 : 2; } int lim = c.raw(6) ? lim0 : (int)c.raw(5);
        Call u; u.g.set(t.g); auto side = [&](Page& p, const Vec& v, double inf) { p.set(arg(v, inf, nl), v.size()); }; side(u.lb, t.lb, -INF); side(u.ub, t.ub, INF); if (m) { side(u.lbA, t.lbA, -INF); side(u.ubA, t.ubA, INF); }
        Guess ga, gb; WsGuess wg; Vec R; if (c.raw(3) == 0) { if (cold && c.flag()) { u.x.set(t.xs); ga.x = u.x.get(); gb.x = t.xs.data(); if (c.flag()) { u.y.set(t.ys); ga.y = u.y.get(); gb.y = t.ys.data(); } } if (c.flag()) { wg = genGuess(c, t, guessMode(c), cls == 2 ? 0 : guessMode(c)); ga.b = gb.b = wg.b.get(); ga.c = gb.c = wg.c.get(); } }
        if (cold && c.raw(6) == 0) { R.assign((size_t)n * n, 0.0); bool ok = true; for (int i = 0; i < n && ok; i++) for (int j = i; j < n; j++) { double v = t.h(i, j); for (int l = 0; l < i; l++) v -= R[(size_t)l * n + i] * R[(size_t)l * n + j]; if (j == i) { if (v <= 1e-9) { ok = false; break; } R[(size_t)i * n + i] = sqrt(v); } else R[(size_t)i * n + j] = v / R[(size_t)i * n + i]; } if (ok) { u.R.set(R); ga.R = u.R.get(); gb.R = R.data(); } }
        // matrices: raw arrays are referenced as long as they are in use, matrix objects belong to the caller
        Page *oldH = H, *oldA = A; Args* aa = nullptr; Args nul; nul.useNull = nl;
        if (cold || mat) { keepB.push_back(std::make_unique<Args>()); keepB.back()->useNull = nl; keepB.back()->set(t, rep, triv); keepA.push_back(std::make_unique<Args>()); aa = keepA.back().get(); aa->useNull = nl; aa->set(t, rep, triv); if (rep == R_RAW) { mats.push_back(std::make_unique<Page>()); H = mats.back().get(); if (!aa->H.empty()) H->set(aa->H); H->readOnly(); mats.push_back(std::make_unique<Page>()); A = mats.back().get(); if (m) A->set(aa->A); A->readOnly(); } else H = A = nullptr; }
        Vec mh, ma; if (aa) { mh = raw(aa->mh.get()); ma = raw(aa->ma.get()); }
        for (Page* p : {&u.g, &u.lb, &u.ub, &u.lbA, &u.ubA, &u.x, &u.y, &u.R}) p->readOnly(); Bounds kb; Constraints kc; if (wg.b) kb = *wg.b; if (wg.c) kc = *wg.c;
        int_t w1 = lim, w2 = lim; returnValue r1, r2; QProblem *ga_ = dynamic_cast<QProblem*>(a.get()), *gb_ = dynamic_cast<QProblem*>(b.get()); auto *sa = dynamic_cast<SQProblem*>(a.get()), *sb = dynamic_cast<SQProblem*>(b.get());
        if (cold) { HessianType ht = keepB.back()->H.empty() ? s.ht : semi ? s.ht : HST_UNKNOWN; a->setHessianType(ht); b->setHessianType(ht);
            if (ga_) { r2 = initP(*gb_, t, *keepB.back(), w2, nullptr, gb); r1 = rep == R_RAW ? ga_->init(H->get(), u.g.get(), A->get(), u.lb.get(), u.ub.get(), u.lbA.get(), u.ubA.get(), w1, 0, ga.x, ga.y, ga.b, ga.c, ga.R) : ga_->init(aa->hm(), u.g.get(), aa->am(), u.lb.get(), u.ub.get(), u.lbA.get(), u.ubA.get(), w1, 0, ga.x, ga.y, ga.b, ga.c, ga.R); }
            else { r2 = initP(*b, t, *keepB.back(), w2, nullptr, gb); r1 = rep == R_RAW ? a->init(H->get(), u.g.get(), u.lb.get(), u.ub.get(), w1, 0, ga.x, ga.y, ga.b, ga.R) : a->init(aa->hm(), u.g.get(), u.lb.get(), u.ub.get(), w1, 0, ga.x, ga.y, ga.b, ga.R); } }
        else if (mat) { r2 = hotM(*sb, t, *keepB.back(), w2, nullptr, gb.b, gb.c); r1 = rep == R_RAW ? sa->hotstart(H->get(), u.g.get(), A->get(), u.lb.get(), u.ub.get(), u.lbA.get(), u.ubA.get(), w1, 0, ga.b, ga.c) : sa->hotstart(aa->hm(), u.g.get(), aa->am(), u.lb.get(), u.ub.get(), u.lbA.get(), u.ubA.get(), w1, 0, ga.b, ga.c); }
        else if (ga_) { r2 = hotP(*gb_, t, nul, w2, nullptr, gb.b, gb.c); r1 = ga_->hotstart(u.g.get(), u.lb.get(), u.ub.get(), u.lbA.get(), u.ubA.get(), w1, 0, ga.b, ga.c); } else { r2 = hotP(*b, t, nul, w2, nullptr, gb.b); r1 = a->hotstart(u.g.get(), u.lb.get(), u.ub.get(), w1, 0, ga.b); }
        std::ostringstream d; d << (cold ? "cold" : mat ? "matrices" : KIND[kind]) << " " << REPN[rep] << " " << t.show() << wg.show << (ga.x ? " x" : "") << (ga.y ? " y" : "") << (ga.R ? " R" : "") << " limit " << lim << " -> r=" << (int)r1 << "/" << (int)r2 << " nWSR=" << w1 << "/" << w2; if (c.verbose) c.desc << " | " << d.str();
        auto cmp = [&](const Page& p, const Vec& v, const char* nm) { if (p.get()) PBT_CHECK(c, memcmp(p.get(), v.data(), v.size() * 8) == 0, std::string("modified-") + nm, nm << " was modified\n" << d.str()); }; cmp(u.g, t.g, "gradient"); cmp(u.lb, t.lb, "lb"); cmp(u.ub, t.ub, "ub"); cmp(u.lbA, t.lbA, "lbA"); cmp(u.ubA, t.ubA, "ubA"); cmp(u.x, t.xs, "x"); cmp(u.y, t.ys, "y"); cmp(u.R, R, "R");
        if (aa) PBT_CHECK(c, mh == raw(aa->mh.get()) && ma == raw(aa->ma.get()), "modified-matrix", "a matrix object of the caller was modified\n" << d.str());
        if (wg.b) for (int i = 0; i < n; i++) PBT_CHECK(c, kb.getStatus(i) == wg.b->getStatus(i), "modified-guess", "guessed bounds modified"); if (wg.c) for (int i = 0; i < m; i++) PBT_CHECK(c, kc.getStatus(i) == wg.c->getStatus(i), "modified-guess", "guessed constraints modified");
        // everything but the matrices disappears
        for (Page* p : {&u.g, &u.lb, &u.ub, &u.lbA, &u.ubA, &u.x, &u.y, &u.R}) p->gone(how); wg.b.reset(); wg.c.reset(); if (mat && r1 == SUCCESSFUL_RETURN) { if (oldH) oldH->gone(how); if (oldA) oldA->gone(how); if (c.flag()) for (size_t i = 0; i + 1 < keepA.size(); i++) keepA[i].reset(); }
        std::string x = snap(cls, *a, n, m), y = snap(cls, *b, n, m); PBT_CHECK(c, r1 == r2 && w1 == w2 && x == y, "late", "results depend on memory of the caller that may be released\nreleased " << x << "\nkept     " << y << "\n" << d.str());
        // outputs
        Out ox(n), oy(n + m), ws(n + m), wb(n), wc(m); returnValue rp = a->getPrimalSolution(ox.p()), rd = a->getDualSolution(oy.p()); a->getWorkingSet(ws.p()); a->getWorkingSetBounds(wb.p()); a->getWorkingSetConstraints(wc.p()); PBT_CHECK(c, ox.ok() && oy.ok() && ws.ok() && wb.ok() && wc.ok(), "output", "written in front of an output array\n" << d.str());
        for (double v : ox.vec()) PBT_CHECK(c, v != 77.25 || rp != SUCCESSFUL_RETURN, "output-primal", "primal solution " << str(ox.vec()) << " after return code " << (int)rp << "\n" << d.str());
        for (double v : oy.vec()) PBT_CHECK(c, v != 77.25 || rd != SUCCESSFUL_RETURN, "output-dual", "dual solution " << str(oy.vec()) << " after return code " << (int)rd << "\n" << d.str());
        if (a->isSolved() == BT_TRUE && r1 == SUCCESSFUL_RETURN) {
            Page px; px.set(ox.vec()); px.readOnly(); double o1 = a->getObjVal(px.get()), o2 = a->getObjVal(); PBT_CHECK(c, fabs(o1 - o2) <= 1e-9 * t.objScale(ox.p()) || semi, "objective-at", "objective at the solution " << o1 << " reported " << o2 << "\n" << d.str());
            if (ga_ && c.raw(3) == 0) { Page g2, l2, u2, lA2, uA2; g2.set(t.g); l2.set(t.lb); u2.set(t.ub); lA2.set(t.lbA); uA2.set(t.ubA); for (Page* p : {&g2, &l2, &u2, &lA2, &uA2}) p->readOnly(); Out x2(n), y2(n + m); ga_->solveCurrentEQP(1, g2.get(), l2.get(), u2.get(), lA2.get(), uA2.get(), x2.p(), y2.p()); PBT_CHECK(c, x2.ok() && y2.ok(), "output-eqp", "written in front of an output array\n" << d.str()); }
            if (ga_ && c.raw(6) == 0 && n + m <= 20) { int dd = 2 * n + m; Vec v((size_t)dd * dd, 0.0); for (int i = 0; i < dd; i++) v[(size_t)i * dd + i] = 1; Page pv; pv.set(v); pv.readOnly(); Out vo((size_t)dd * dd); SolutionAnalysis an; if (cls == 1) an.getVarianceCovariance(sa, (double*)pv.get(), vo.p()); else an.getVarianceCovariance(ga_, (double*)pv.get(), vo.p()); PBT_CHECK(c, vo.ok(), "output-covariance", "written in front of an output array\n" << d.str()); }
            Page pH, pA, pg, pl, pu, plA, puA, py; if (!keepB.empty()) { Vec hh((size_t)n * n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) hh[(size_t)i * n + j] = t.h(i, j); pH.set(hh); } if (m) { pA.set(t.A); plA.set(t.lbA); puA.set(t.ubA); } pg.set(t.g); pl.set(t.lb); pu.set(t.ub); py.set(oy.vec()); for (Page* p : {&pH, &pA, &pg, &pl, &pu, &plA, &puA, &py}) p->readOnly(); double st, fe, cm; getKktViolation(n, m, pH.get(), pg.get(), pA.get(), pl.get(), pu.get(), plA.get(), puA.get(), px.get(), py.get(), st, fe, cm);
            if (w1 > 0) any = true; }
        if (c.raw(12) == 0) { std::unique_ptr<QProblemB> t1, t2; if (cls == 2) { t1.reset(new QProblemB(*a)); t2.reset(new QProblemB(*b)); } else if (cls == 1) { t1.reset(new SQProblem(*sa)); t2.reset(new SQProblem(*sb)); } else { t1.reset(new QProblem(*ga_)); t2.reset(new QProblem(*gb_)); } a = std::move(t1); b = std::move(t2); if (H) H->gone(how); if (A) A->gone(how); H = A = nullptr; if (c.verbose) c.desc << " copied"; }
        c.label(std::string(cold ? "cold" : mat ? "matrices" : KIND[kind]) + (how == 0 ? " unmapped" : " scribbled"));
    }
    // the objects stay usable without the vectors, and matrices outlive nothing
    a.reset(); for (auto& p : mats) if (p->base) p->gone(1);
    c.nontrivial = any; c.label(tag + (semi ? " semidefinite" : ""));
}
PBT_PROP(general, 3) { body(c, 0); }
PBT_PROP(varying, 3) { body(c, 1); }
PBT_PROP(bounds, 2) { body(c, 2); }
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
