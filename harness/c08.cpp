// C08: a failed solve leaves the object usable
#include "seq.hpp"
#include "query.hpp"
using namespace qpOASES; using namespace qg;
static returnValue ini(QProblemB& p, const QP& q, const Args& a, int_t& w) { if (QProblem* g = dynamic_cast<QProblem*>(&p)) return initP(*g, q, a, w); return initP(p, q, a, w); }
static returnValue hot(QProblemB& p, const QP& q, const Args& a, int_t& w) { if (QProblem* g = dynamic_cast<QProblem*>(&p)) return hotP(*g, q, a, w); return hotP(p, q, a, w); }
static const char* FN[] = {"infeasible", "inconsistent", "unbounded", "limit", "no gradient", "no sides", "bad matrix", "nonconvex"};
static const char* CLS[] = {"general", "varying", "bounds"};
static std::string phase;
// what a failed solve may end in
static void run(Ctx& c, int cls) {
    QP q; Ses s; start(c, q, s, cls == 2); int n = q.n; bool mpc = s.on == "mpc"; if (cls != 2 && q.m == 0) { q.m = 1; genA(c, q); VecOpt vo; vo.degenerate = s.deg; genVectors(c, q, vo); s.a.set(q, s.a.rep, s.a.hp() && q.hk != HK_DENSE); }
    std::unique_ptr<QProblemB> p; if (cls == 2) p.reset(new QProblemB(n, s.ht)); else if (cls == 1) p.reset(new SQProblem(n, q.m, s.ht)); else p.reset(new QProblem(n, q.m, s.ht)); p->setOptions(s.o);
    int big = 20 * (n + q.m) + 200; int_t w = big; bool live = false, far = false; if (c.verbose) c.desc << CLS[cls] << " " << REPN[s.a.rep] << " options " << s.on << " null=" << s.a.useNull << " " << q.show();
    if (c.raw(4) != 0) { returnValue r = ini(*p, q, s.a, w); PBT_CHECK(c, r == SUCCESSFUL_RETURN, s.on + "-first", "first problem not solved, r=" << (int)r << "\n" << q.show()); live = true; }
    std::vector<Args> keep; keep.reserve(40); keep.push_back(std::move(s.a)); bool tied = true;   // tied: the object's matrices are those of q
    int fails = c.range(1, 3);
    for (int k = 0; k < fails; k++) {
        // --- something that must fail
        int f = c.weighted({cls == 2 ? 0 : 4, 3, 2, 4, 1, 0, cls == 1 ? 1 : 0, 1}); if (mpc && f == 7) f = 1; QP t = q; Args b; b.useNull = keep[0].useNull; bool cold = !live || !tied || f == 2 || f == 7 || c.raw(5) == 0, mat = false; int_t lim = big; Args* A = &keep.back();
        if (f == 0) { if (cold) { genInfeasible(c, t, mpc); } else { // keep the matrix: two contradicting sides of one row and its bounds
                int i = (int)c.raw(t.m); double x = 0; bool box = true; for (int j = 0; j < n; j++) { double a = t.A[(size_t)i * n + j]; if (a == 0) continue; double lo = t.lb[j], up = t.ub[j]; if (lo <= -INF) lo = t.xs[j] - 2; if (up >= INF) up = t.xs[j] + 3; t.lb[j] = lo; t.ub[j] = up; x += a > 0 ? a * up : a * lo; } (void)box; t.lbA[i] = x + posval(c, q.generic, 3); t.ubA[i] = c.flag() ? INF : t.lbA[i] + 1; } t.hasSol = false; }
        else if (f == 1) { int i = (int)c.raw(n + t.m); double& l = i < n ? t.lb[i] : t.lbA[i - n]; double& u = i < n ? t.ub[i] : t.ubA[i - n]; if (u >= INF) u = l > -INF ? l : 0; l = u + posval(c, q.generic, 3); t.hasSol = false; }
        else if (f == 2) { t.generic = false; QP z = t; genUnbounded(c, z, true); if (z.hk == HK_ZERO) { z.hk = HK_DENSE; z.H.assign((size_t)n * n, 0.0); } t = z; }
        else if (f == 3) { VecOpt vo; vo.degenerate = s.deg; genVectors(c, t, vo); lim = (int)c.raw(3); }
        else if (f == 7) { t.hk = HK_DENSE; t.H.assign((size_t)n * n, 0.0); for (int i = 0; i < n; i++) t.H[(size_t)i * n + i] = -1 - (double)c.raw(2); t.hasSol = false; }
        if (f != 4 && f != 6 && cold) { b.set(t, genRep(c), f == 1 || f == 3 ? keep[0].hp() != nullptr : false); keep.push_back(std::move(b)); A = &keep.back(); far = false; tied = f == 1 || f == 3; }
        if (cold && A->H.empty() && t.hk == HK_DENSE) throw pbt::Discard();
        returnValue r; w = lim; phase = FN[f];
        if (f == 4) { int mm = (int)c.raw(2); const double* l = q.lb.data(); w = big; if (mm == 0 || cls == 2) r = cls == 2 ? p->hotstart((const double*)nullptr, l, q.ub.data(), w) : dynamic_cast<QProblem*>(p.get())->hotstart((const double*)nullptr, l, q.ub.data(), q.lbA.data(), q.ubA.data(), w); else r = dynamic_cast<QProblem*>(p.get())->init((SymmetricMatrix*)nullptr, nullptr, (Matrix*)nullptr, nullptr, nullptr, nullptr, nullptr, w); }
        else if (f == 6) { mat = true; w = big; r = dynamic_cast<SQProblem*>(p.get())->hotstart(A->hp(), q.g.data(), (const double*)nullptr, q.lb.data(), q.ub.data(), q.lbA.data(), q.ubA.data(), w); }
        else if (cold) { HessianType ht = (A->H.empty() && q.hk == HK_ID) ? HST_IDENTITY : HST_UNKNOWN; p->reset(); p->setHessianType(ht); r = ini(*p, t, *A, w); if (f == 2 || f == 7 || f == 0) tied = false; }
        else r = hot(*p, t, *A, w);
        (void)mat; if (cold && f < 4) live = true;
        if (c.verbose) c.desc << " | " << FN[f] << (cold ? " cold " : " hot ") << t.show() << " limit " << lim << " -> r=" << (int)r << " nWSR=" << w;
        std::string tag = std::string(CLS[cls]) + "-" + s.on + "-after-" + FN[f];
        if (f == 3) { if (r == SUCCESSFUL_RETURN) { if (!far || cold) judge(c, t, s, getSol(*p, n, t.m), tag); q = t; } else PBT_CHECK(c, p->isSolved() == BT_FALSE, tag + "-flag", "solved after return code " << (int)r); }
        else if (f == 2 || f == 7) { if (r == SUCCESSFUL_RETURN && f == 7 ) { bool boxed = true; for (int i = 0; i < n; i++) if (t.lb[i] <= -INF || t.ub[i] >= INF) boxed = false; (void)boxed; } if (r != SUCCESSFUL_RETURN) PBT_CHECK(c, p->isSolved() == BT_FALSE, tag + "-flag", "solved after return code " << (int)r); }
        else { PBT_CHECK(c, r != SUCCESSFUL_RETURN || (far && !cold && f == 0), tag + "-success", "reported success\n" << t.show()); if (f == 0 && r != SUCCESSFUL_RETURN) PBT_CHECK(c, p->isSolved() == BT_FALSE, tag + "-flag", "solved after return code " << (int)r); }
        c.label(std::string(CLS[cls]) + " " + FN[f] + (cold ? " cold" : " hot") + (r == SUCCESSFUL_RETURN ? " solved" : ""));
        c.nontrivial = true;
        // --- then a well-posed problem by hot start: right or refused
        int tries = c.range(0, 2);
        for (int j = 0; j < tries && live; j++) {
            if (c.raw(3)) { VecOpt vo; vo.degenerate = s.deg; genVectors(c, q, vo); }
            w = big; returnValue h; phase = std::string("after ") + FN[f]; Vec xp(n, 0.0); p->getPrimalSolution(xp.data()); if (!(normInf(xp) < 1e5)) far = true;   // coming back from very far out costs all digits
            if (cls == 1 && (c.flag() || !tied)) { Args nb; nb.useNull = keep[0].useNull; bool ex = q.hk != HK_DENSE && keep.back().hp(); nb.set(q, genRep(c), ex); keep.push_back(std::move(nb)); if (keep.back().H.empty() && p->getHessianType() != HST_IDENTITY) break; h = hotM(*dynamic_cast<SQProblem*>(p.get()), q, keep.back(), w); if (h == SUCCESSFUL_RETURN) tied = true; }
            else if (!tied) break;
            else h = hot(*p, q, keep.back(), w);
            if (c.verbose) c.desc << " | well-posed " << q.show() << " -> r=" << (int)h << " nWSR=" << w;
            c.label("well-posed hot start " + std::string(phase) + (h == SUCCESSFUL_RETURN ? ": solved" : ": refused") + (mpc ? " (mpc)" : ""));
            if (h == SUCCESSFUL_RETURN) { PBT_CHECK(c, p->isSolved() == BT_TRUE && p->isInfeasible() == BT_FALSE && p->isUnbounded() == BT_FALSE, tag + "-flags", "flags after success"); if (!far) judge(c, q, s, getSol(*p, n, q.m), tag); }
            else {
                if (h != RET_INVALID_ARGUMENTS && h != RET_SETUP_AUXILIARYQP_FAILED && h != RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED) PBT_CHECK(c, p->isSolved() == BT_FALSE, tag + "-flag", "solved after return code " << (int)h);
                // nothing was touched when the arguments or the sides were refused, or when the budget ended: then it has to work
                if (!mpc && tied && (f == 1 || f == 3) && fails == 1) PBT_FAIL(c, tag + "-refused", "well-posed problem refused with " << (int)h << "\n" << q.show());
            }
        }
        // --- reset and fresh start always work
        if (c.flag() || !live || !tied) {
            p->reset(); if (c.flag()) { VecOpt vo; vo.degenerate = s.deg; genVectors(c, q, vo); } w = big; Args nb; nb.useNull = keep[0].useNull; nb.set(q, genRep(c), q.hk != HK_DENSE); keep.push_back(std::move(nb)); phase = std::string("reset after ") + FN[f];
            p->setHessianType(HST_UNKNOWN); returnValue h = ini(*p, q, keep.back(), w);
            if (c.verbose) c.desc << " | reset, fresh " << q.show() << " -> r=" << (int)h;
            PBT_CHECK(c, h == SUCCESSFUL_RETURN, tag + "-reset", "fresh start after reset returned " << (int)h << "\n" << q.show()); judge(c, q, s, getSol(*p, n, q.m), tag + "-reset"); live = tied = true; far = false;
        }
    }
}
PBT_PROP(general, 4) { run(c, 0); }
PBT_PROP(varying, 2) { run(c, 1); }
PBT_PROP(bounds, 2) { run(c, 2); }
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
