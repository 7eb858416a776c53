// C18: the C interface agrees with the C++ library
#include "seq.hpp"
#include "query.hpp"
#include <cstddef>
using namespace qpOASES;
extern "C" {
#include "qpOASES_wrapper.h"
extern const long cc_sizes[]; extern const long cc_consts[]; int_t cc_opt_init(qpOASES_Options* o, int_t mode);
}
using namespace qg;
static Options conv(const qpOASES_Options& f) {   // what the fields of the C struct mean
    Options t; t.printLevel = (PrintLevel)f.printLevel; auto b = [](int_t v) { return v ? BT_TRUE : BT_FALSE; };
    t.enableRamping = b(f.enableRamping); t.enableFarBounds = b(f.enableFarBounds); t.enableFlippingBounds = b(f.enableFlippingBounds); t.enableRegularisation = b(f.enableRegularisation); t.enableFullLITests = b(f.enableFullLITests); t.enableNZCTests = b(f.enableNZCTests); t.enableDriftCorrection = f.enableDriftCorrection; t.enableCholeskyRefactorisation = f.enableCholeskyRefactorisation; t.enableEqualities = b(f.enableEqualities);
    t.terminationTolerance = f.terminationTolerance; t.boundTolerance = f.boundTolerance; t.boundRelaxation = f.boundRelaxation; t.epsNum = f.epsNum; t.epsDen = f.epsDen; t.maxPrimalJump = f.maxPrimalJump; t.maxDualJump = f.maxDualJump; t.initialRamping = f.initialRamping; t.finalRamping = f.finalRamping; t.initialFarBounds = f.initialFarBounds; t.growFarBounds = f.growFarBounds; t.initialStatusBounds = (SubjectToStatus)f.initialStatusBounds; t.epsFlipping = f.epsFlipping; t.numRegularisationSteps = f.numRegularisationSteps; t.epsRegularisation = f.epsRegularisation; t.numRefinementSteps = f.numRefinementSteps; t.epsIterRef = f.epsIterRef; t.epsLITests = f.epsLITests; t.epsNZCTests = f.epsNZCTests; t.rcondSMin = f.rcondSMin; t.enableInertiaCorrection = b(f.enableInertiaCorrection); t.enableDropInfeasibles = b(f.enableDropInfeasibles); t.dropBoundPriority = f.dropBoundPriority; t.dropEqConPriority = f.dropEqConPriority; t.dropIneqConPriority = f.dropIneqConPriority; return t;
}
static qpOASES_Options preset(Ctx& c, int mode, const char* tag) { qpOASES_Options o; memset(&o, (int)(c.flag() ? 0x5a : 0xff), sizeof o); int_t r = c.flag() ? qpOASES_Options_init(&o, mode) : cc_opt_init(&o, mode); PBT_CHECK(c, r == 0, std::string(tag) + "-preset-return", "setting options to mode " << mode << " returned " << r); return o; }
static Options cppPreset(int mode) { Options o; if (mode == 0) o.setToDefault(); else if (mode == 1) o.setToReliable(); else o.setToMPC(); return o; }
PBT_PROP(options, 1) {
    int mode = (int)c.raw(3); qpOASES_Options f = preset(c, mode, "options"); if (c.verbose) c.desc << "mode " << mode;
    std::string want = optStr(cppPreset(mode)); PBT_CHECK(c, optStr(conv(f)) == want, "options-preset", "preset " << mode << " in C:   " << optStr(conv(f)) << "\nin C++: " << want); PBT_CHECK(c, f.printResiduals == 0 || f.printResiduals == 1, "options-preset-residuals", "printResiduals left undefined");
    auto rb = [&] { return (int_t)c.raw(2); }; auto rr = [&] { return 0.001 + c.pos01(); }; auto ri = [&] { return (int_t)c.raw(9); };
    f.printLevel = (int)c.raw(6) - 2; f.enableRamping = rb(); f.enableFarBounds = rb(); f.enableFlippingBounds = rb(); f.enableRegularisation = rb(); f.enableFullLITests = rb(); f.enableNZCTests = rb(); f.enableDriftCorrection = ri(); f.enableCholeskyRefactorisation = ri(); f.enableEqualities = rb(); f.terminationTolerance = rr(); f.boundTolerance = rr(); f.boundRelaxation = rr(); f.epsNum = -rr(); f.epsDen = rr(); f.maxPrimalJump = rr(); f.maxDualJump = rr(); f.initialRamping = rr(); f.finalRamping = rr(); f.initialFarBounds = rr(); f.growFarBounds = rr(); f.initialStatusBounds = (int)c.raw(3) - 1; f.epsFlipping = rr(); f.numRegularisationSteps = ri(); f.epsRegularisation = rr(); f.numRefinementSteps = ri(); f.epsIterRef = rr(); f.epsLITests = rr(); f.epsNZCTests = rr(); f.rcondSMin = rr(); f.enableInertiaCorrection = rb(); f.enableDropInfeasibles = rb(); f.dropBoundPriority = ri(); f.dropEqConPriority = ri(); f.dropIneqConPriority = ri();
    Options t = cppPreset((int)c.raw(3)); PBT_CHECK(c, qpOASES_Options_copy(&f, &t) == 0, "options-copy-return", "copy failed"); PBT_CHECK(c, optStr(t) == optStr(conv(f)), "options-copy", "C options arrive as\n" << optStr(t) << "\nwant\n" << optStr(conv(f)));
    int bad = c.flag() ? -1 - (int)c.raw(5) : 3 + (int)c.raw(5); std::string s0 = optStr(conv(f)); PBT_CHECK(c, qpOASES_Options_init(&f, bad) != 0 && optStr(conv(f)) == s0, "options-bad-mode", "mode " << bad << " accepted"); PBT_CHECK(c, qpOASES_Options_init(nullptr, 0) != 0 && qpOASES_Options_copy(nullptr, &t) != 0 && qpOASES_Options_copy(&f, nullptr) != 0, "options-null", "NULL accepted");
    const long sz[] = {sizeof(qpOASES_Options), sizeof(int_t), sizeof(real_t), offsetof(qpOASES_Options, enableEqualities), offsetof(qpOASES_Options, terminationTolerance), offsetof(qpOASES_Options, initialStatusBounds), offsetof(qpOASES_Options, rcondSMin), offsetof(qpOASES_Options, dropIneqConPriority)};
    const long cs[] = {HST_ZERO, HST_IDENTITY, HST_POSDEF, HST_POSDEF_NULLSPACE, HST_SEMIDEF, HST_INDEF, HST_UNKNOWN, ST_LOWER, ST_INACTIVE, ST_UPPER, ST_INFEASIBLE_LOWER, ST_INFEASIBLE_UPPER, ST_UNDEFINED, PL_DEBUG_ITER, PL_TABULAR, PL_NONE, PL_LOW, PL_MEDIUM, PL_HIGH};
    PBT_CHECK(c, !memcmp(sz, cc_sizes, sizeof sz), "layout", "C and C++ see different option layouts"); PBT_CHECK(c, !memcmp(cs, cc_consts, sizeof cs), "constants", "C and C++ constants differ"); c.nontrivial = true; c.label("mode " + std::to_string(mode));
}
struct Obj { int cls = 0, n = 0, m = 0; std::unique_ptr<QProblemB> ref; bool inited = false, opts = false; QP q; Ses s; std::string log; Options eff; };
struct Out { Vec x, y; double obj; int_t status; int_t w; };
static const char* CLS[] = {"general", "varying", "bounds"};
// a history over the three global objects of the C interface, mirrored on C++ objects
PBT_PROP(history, 6) {
    QProblem_cleanup(); QProblemB_cleanup(); SQProblem_cleanup(); Obj o[3]; int steps = c.range(2, 9); bool nt = false; std::vector<std::unique_ptr<Args>> keep; int focus = c.raw(3) ? (int)c.raw(3) : -1;
    for (int st = 0; st < steps; st++) {
        int cls = focus >= 0 && c.raw(4) ? focus : (int)c.raw(3); Obj& z = o[cls]; z.cls = cls; bool B_ = cls == 2; int act = !z.ref ? c.weighted({8, 1, 1, 1}) : !z.inited ? c.weighted({1, 10, 1, 1}) : c.weighted({1, 1, 10, 1});   // setup, init, hotstart, cleanup
        std::string tag = CLS[cls];
        if (act == 0) {
            bool bad = c.raw(6) == 0; QP q; Ses s; start(c, q, s, B_); int n = q.n, m = q.m; int_t ht = s.ht; if (s.ht == HST_UNKNOWN && c.flag()) ht = HST_UNKNOWN;
            if (bad) { int k = (int)c.raw(4); if (k == 0) n = -(int)c.raw(3); else if (k == 1) ht = -1 - (int)c.raw(3); else if (k == 2) ht = 7 + (int)c.raw(3); else if (!B_) m = -1 - (int)c.raw(3); else n = 0; }
            int_t r = cls == 0 ? QProblem_setup(n, m, ht) : cls == 1 ? SQProblem_setup(n, m, ht) : QProblemB_setup(n, ht); if (c.verbose) c.desc << " | setup " << tag << " n=" << n << " m=" << m << " ht=" << ht << " -> " << r;
            PBT_CHECK(c, bad ? r != 0 : r == 0, tag + "-setup", "setup(" << n << "," << m << "," << ht << ") returned " << r); if (bad) { c.label(tag + " bad setup"); continue; }
            z.q = q; z.s.on = s.on; z.s.o = s.o; z.s.deg = s.deg; z.s.ht = s.ht; z.n = n; z.m = m; z.inited = false; z.ref.reset(); if (cls == 0) z.ref.reset(new QProblem(n, m, (HessianType)ht)); else if (cls == 1) z.ref.reset(new SQProblem(n, m, (HessianType)ht)); else z.ref.reset(new QProblemB(n, (HessianType)ht)); z.s.a.useNull = s.a.useNull; z.s.a.rep = R_RAW; z.s.a.H = s.a.H; z.s.a.A = s.a.A; z.opts = false; continue;
        }
        if (act == 3) { int_t r = cls == 0 ? QProblem_cleanup() : cls == 1 ? SQProblem_cleanup() : QProblemB_cleanup(); PBT_CHECK(c, r == 0, tag + "-cleanup", "cleanup returned " << r); z.ref.reset(); z.inited = false; if (c.verbose) c.desc << " | cleanup " << tag; continue; }
        if (!z.ref) {   // not set up: refused, nothing written
            Vec h(4, 1.0), g(4, 0.0), x(4, 77.0), y(4, 77.0); real_t ob = 77; int_t status = 77, w = 50; int_t r; bool ini = act == 1;
            if (cls == 0) r = ini ? QProblem_init(h.data(), g.data(), nullptr, nullptr, nullptr, nullptr, nullptr, &w, nullptr, nullptr, x.data(), y.data(), &ob, &status) : QProblem_hotstart(g.data(), nullptr, nullptr, nullptr, nullptr, &w, nullptr, x.data(), y.data(), &ob, &status);
            else if (cls == 1) r = ini ? SQProblem_init(h.data(), g.data(), nullptr, nullptr, nullptr, nullptr, nullptr, &w, nullptr, nullptr, x.data(), y.data(), &ob, &status) : SQProblem_hotstart(h.data(), g.data(), nullptr, nullptr, nullptr, nullptr, nullptr, &w, nullptr, x.data(), y.data(), &ob, &status);
            else r = ini ? QProblemB_init(h.data(), g.data(), nullptr, nullptr, &w, nullptr, nullptr, x.data(), y.data(), &ob, &status) : QProblemB_hotstart(g.data(), nullptr, nullptr, &w, nullptr, x.data(), y.data(), &ob, &status);
            PBT_CHECK(c, r != 0 && status == 77 && ob == 77 && x[0] == 77 && y[0] == 77, tag + "-order", (ini ? "init" : "hotstart") << " before setup returned " << r); if (c.verbose) c.desc << " | early call " << tag; c.label(tag + " refused order"); continue;
        }
        QP& q = z.q; int n = z.n, m = z.m, big = 20 * (n + m) + 200; bool mats = act == 2 && cls == 1; VecOpt vo; vo.degenerate = z.s.deg;
        if (act == 2 || z.inited) { if (mats && c.flag()) { if (q.hk == HK_DENSE && z.s.a.hp()) genH(c, q, false); genA(c, q); genVectors(c, q, vo); } else next(c, q, z.s, c.weighted({3, 3, 2, 1})); }
        QP t = q; int spoil = c.weighted({8, 1, 1, 1}); if (spoil == 1) { int i = (int)c.raw(n + m); double& l = i < n ? t.lb[i] : t.lbA[i - n]; double& u = i < n ? t.ub[i] : t.ubA[i - n]; if (u >= INF) u = 0; l = u + 1; } else if (spoil == 2 && m) genInfeasible(c, t, true);
        const Args* a = &z.s.a; if (mats || act == 1) { keep.push_back(std::make_unique<Args>()); keep.back()->useNull = z.s.a.useNull; keep.back()->set(t, R_RAW, q.hk != HK_DENSE && z.s.a.hp()); a = keep.back().get(); }
        qpOASES_Options co; bool giveOpt = false; if (act == 1) { giveOpt = !z.opts || c.flag(); if (giveOpt) { int mode = z.s.on == "default" ? 0 : z.s.on == "reliable" ? 1 : 2; co = preset(c, mode, "history"); co.printLevel = PL_NONE; if (c.raw(3) == 0) { co.enableDriftCorrection = (int_t)c.raw(3); co.numRefinementSteps = (int_t)c.raw(3); co.enableCholeskyRefactorisation = (int_t)c.raw(3); } if (c.raw(12) == 0) co.enableDriftCorrection = -1; z.opts = true; } }
        int lim = spoil == 3 ? (int)c.raw(4) : big; bool useCpu = c.raw(4) == 0; real_t cpu1 = 1000, cpu2 = 1000; int_t w1 = lim, w2 = lim; bool useNull = z.s.a.useNull; Vec gz = t.g; const double* g = t.g.data(); if (c.raw(20) == 0) g = nullptr;
        const double *L = lo(t.lb, useNull), *U = up(t.ub, useNull), *LA = m ? lo(t.lbA, useNull) : nullptr, *UA = m ? up(t.ubA, useNull) : nullptr, *H = a->hp(), *A = m ? a->A.data() : nullptr;
        Vec x1(n + 1, 77), y1(n + m + 1, 77), x2(n + 1, 77), y2(n + m + 1, 77); real_t o1 = 77; int_t s1 = 77; int_t r; returnValue r2; QProblem* qp = dynamic_cast<QProblem*>(z.ref.get()); SQProblem* sq = dynamic_cast<SQProblem*>(z.ref.get()); real_t *c1 = useCpu ? &cpu1 : nullptr, *c2 = useCpu ? &cpu2 : nullptr;
        if (giveOpt) z.ref->setOptions(conv(co));
        if (act == 1) {
            if (cls == 0) { r = QProblem_init(H, g, A, L, U, LA, UA, &w1, c1, giveOpt ? &co : nullptr, x1.data(), y1.data(), &o1, &s1); r2 = qp->init(H, g, A, L, U, LA, UA, w2, c2); }
            else if (cls == 1) { r = SQProblem_init(H, g, A, L, U, LA, UA, &w1, c1, giveOpt ? &co : nullptr, x1.data(), y1.data(), &o1, &s1); r2 = qp->init(H, g, A, L, U, LA, UA, w2, c2); }
            else { r = QProblemB_init(H, g, L, U, &w1, c1, giveOpt ? &co : nullptr, x1.data(), y1.data(), &o1, &s1); r2 = z.ref->init(H, g, L, U, w2, c2); }
            z.inited = true;
        } else {
            if (cls == 0) { r = QProblem_hotstart(g, L, U, LA, UA, &w1, c1, x1.data(), y1.data(), &o1, &s1); r2 = qp->hotstart(g, L, U, LA, UA, w2, c2); }
            else if (cls == 1) { r = SQProblem_hotstart(H, g, A, L, U, LA, UA, &w1, c1, x1.data(), y1.data(), &o1, &s1); r2 = sq->hotstart(H, g, A, L, U, LA, UA, w2, c2); }
            else { r = QProblemB_hotstart(g, L, U, &w1, c1, x1.data(), y1.data(), &o1, &s1); r2 = z.ref->hotstart(g, L, U, w2, c2); }
        }
        z.ref->getPrimalSolution(x2.data()); z.ref->getDualSolution(y2.data()); double o2 = z.ref->getObjVal(); int s2 = (int)getSimpleStatus(r2);
        if (c.verbose) c.desc << " | " << (act == 1 ? "init " : "hotstart ") << tag << " " << z.s.on << " limit " << lim << " " << t.show() << " -> status " << s1 << " (C++ " << (int)r2 << ")";
        tag += act == 1 ? "-init" : "-hotstart"; PBT_CHECK(c, r == 0, tag + "-return", "C call returned " << r); PBT_CHECK(c, s1 == s2, tag + "-status", "status " << s1 << " in C, " << s2 << " in C++ (return value " << (int)r2 << ")\n" << t.show()); PBT_CHECK(c, w1 == w2, tag + "-iterations", "iterations " << w1 << " in C, " << w2 << " in C++\n" << t.show());
        for (int i = 0; i <= n; i++) PBT_CHECK(c, eqb(x1[i], x2[i]), tag + "-primal", "primal solutions differ: " << str(x1) << " in C, " << str(x2) << " in C++\n" << t.show()); for (int i = 0; i <= n + m; i++) PBT_CHECK(c, eqb(y1[i], y2[i]), tag + "-dual", "dual solutions differ: " << str(y1) << " in C, " << str(y2) << " in C++\n" << t.show());
        PBT_CHECK(c, eqb(o1, o2), tag + "-objective", "objective " << o1 << " in C, " << o2 << " in C++\n" << t.show()); if (useCpu) PBT_CHECK(c, cpu1 >= 0 && cpu1 <= 1000, tag + "-cputime", "cpu time " << cpu1);
        if (s1 == 0 && w1 > 0) nt = true; static const char* SP[] = {"", " inconsistent", " infeasible", " limited"}; c.label(tag + SP[spoil] + " status " + std::to_string((long)s1));
    }
    QProblem_cleanup(); QProblemB_cleanup(); SQProblem_cleanup(); c.nontrivial = nt;
}
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
