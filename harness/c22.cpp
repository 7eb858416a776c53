// C22: options change the path, never the answer
#include "seq.hpp"
#include "query.hpp"
using namespace qpOASES; using namespace qg;
static double lg(Ctx& c, double a, double b) { double t = c.pos01(); return pow(10.0, a + (b - a) * t); }   // between 10^a and 10^b
// admissible settings; tolerances within two or three orders of magnitude of the preset values
static std::string genOptions(Ctx& c, Options& o) {
    std::string s; Options base; int k = (int)c.raw(3); if (k == 0) o.setToDefault(); else if (k == 1) o.setToReliable(); else o.setToMPC(); s = k == 0 ? "default" : k == 1 ? "reliable" : "mpc"; o.printLevel = PL_NONE; int p = 1 + (int)c.raw(4);   // how rarely a member is changed
    auto w = [&]() { return c.raw(p) == 0; };
    if (w()) { o.enableRamping = B(c.flag()); s += " ramping=" + std::to_string((int)o.enableRamping); } if (w()) { o.enableFarBounds = B(c.flag()); s += " far=" + std::to_string((int)o.enableFarBounds); } if (w()) { o.enableFlippingBounds = B(c.flag()); s += " flipping=" + std::to_string((int)o.enableFlippingBounds); }
    if (w()) { o.enableRegularisation = B(c.flag()); s += " regularisation=" + std::to_string((int)o.enableRegularisation); } if (w()) { o.enableFullLITests = B(c.flag()); s += " fullLI=" + std::to_string((int)o.enableFullLITests); } if (w()) { o.enableNZCTests = B(c.flag()); s += " NZC=" + std::to_string((int)o.enableNZCTests); }
    if (w()) { o.enableDriftCorrection = (int)c.raw(4); s += " drift=" + std::to_string((int)o.enableDriftCorrection); } if (w()) { o.enableCholeskyRefactorisation = (int)c.raw(4); s += " refactor=" + std::to_string((int)o.enableCholeskyRefactorisation); } if (w()) { o.enableEqualities = B(c.flag()); s += " equalities=" + std::to_string((int)o.enableEqualities); }
    if (w()) { o.initialStatusBounds = c.pick(std::vector<SubjectToStatus>{ST_LOWER, ST_INACTIVE, ST_UPPER}); s += " initial=" + std::to_string((int)o.initialStatusBounds); } if (w()) { o.numRefinementSteps = (int)c.raw(4); s += " refinement=" + std::to_string((int)o.numRefinementSteps); } if (w()) { o.numRegularisationSteps = (int)c.raw(4); s += " regsteps=" + std::to_string((int)o.numRegularisationSteps); }
    auto num = [&](double& v, const char* nm, double x) { v = x; std::ostringstream t; t << " " << nm << "=" << x; s += t.str(); };
    if (w()) num(o.terminationTolerance, "termination", lg(c, -12, -7)); if (w()) num(o.boundTolerance, "boundTolerance", lg(c, -14, -9)); if (w()) num(o.boundRelaxation, "boundRelaxation", lg(c, 0, 5)); if (w()) num(o.epsNum, "epsNum", -lg(c, -14, -11)); if (w()) num(o.epsDen, "epsDen", lg(c, -14, -11));
    if (w()) num(o.maxPrimalJump, "maxPrimalJump", lg(c, 6, 10)); if (w()) num(o.maxDualJump, "maxDualJump", lg(c, 6, 10)); if (w()) num(o.initialRamping, "initialRamping", c.pos01()); if (w()) num(o.finalRamping, "finalRamping", c.pos01()); if (w()) num(o.initialFarBounds, "farBounds", o.boundRelaxation * lg(c, 1, 3)); if (o.initialFarBounds < 1e4) o.initialFarBounds = 1e4; if (w()) num(o.growFarBounds, "growFarBounds", lg(c, 0.1, 4));
    if (w()) num(o.epsFlipping, "epsFlipping", lg(c, -14, -11)); if (w()) num(o.epsRegularisation, "epsRegularisation", lg(c, -14, -11)); if (w()) num(o.epsIterRef, "epsIterRef", lg(c, -15, -10)); if (w()) num(o.epsLITests, "epsLITests", lg(c, -13, -9)); if (w()) num(o.epsNZCTests, "epsNZCTests", lg(c, -14, -10)); if (w()) num(o.rcondSMin, "rcondSMin", lg(c, -16, -10)); if (w()) o.enableInertiaCorrection = B(c.flag());
    if (w()) { o.dropBoundPriority = (int)c.raw(4); o.dropEqConPriority = (int)c.raw(4); o.dropIneqConPriority = (int)c.raw(4); }
    return s;
}
static returnValue ini(QProblemB& p, const QP& q, const Args& a, int_t& w) { if (QProblem* g = dynamic_cast<QProblem*>(&p)) return initP(*g, q, a, w); return initP(p, q, a, w); }
static returnValue hot(QProblemB& p, const QP& q, const Args& a, int_t& w) { if (QProblem* g = dynamic_cast<QProblem*>(&p)) return hotP(*g, q, a, w); return hotP(p, q, a, w); }
static std::unique_ptr<QProblemB> make(int cls, int n, int m, HessianType h) { if (cls == 2) return std::unique_ptr<QProblemB>(new QProblemB(n, h)); if (cls == 1) return std::unique_ptr<QProblemB>(new SQProblem(n, m, h)); return std::unique_ptr<QProblemB>(new QProblem(n, m, h)); }
static const char* CLS[] = {"general", "varying", "bounds"};
static void combos(Ctx& c, int cls) {
    QP q; Ses s; q.generic = true; Shape sh; if (cls == 2) sh.mMax = 0; genSize(c, q, sh); genH(c, q); genA(c, q); genVectors(c, q); s.a.useNull = c.flag(); s.a.set(q, genRep(c), c.raw(3) == 0); s.ht = s.a.H.empty() ? hessType(c, q) : HST_UNKNOWN; std::string os = genOptions(c, s.o); bool early = c.flag();
    std::unique_ptr<QProblemB> p = make(cls, q.n, q.m, s.ht); int lim = 30 * (q.n + q.m) + 200, len = c.range(0, 3); p->setOptions(s.o); bool any = false; (void)early; if (c.verbose) c.desc << CLS[cls] << " " << REPN[s.a.rep] << " " << os;
    for (int k = 0; k <= len; k++) {
        int kind = c.weighted({4, 3, 2, 1}); if (k) next(c, q, s, kind); if (k && c.raw(4) == 0) { os = genOptions(c, s.o); p->setOptions(s.o); os = "then " + os; }
        int_t w = lim; returnValue r = k == 0 ? ini(*p, q, s.a, w) : hot(*p, q, s.a, w); std::string tag = std::string(k ? "hot" : "cold"); if (c.verbose) c.desc << " | " << (k ? KIND[kind] : "cold") << " " << q.show() << " -> r=" << (int)r << " nWSR=" << w;
        PBT_CHECK(c, r == SUCCESSFUL_RETURN, tag + "-verdict", "well-posed problem returned " << (int)r << " with " << os << "\n" << q.show()); judge(c, q, s, getSol(*p, q.n, q.m), tag, 100); if (w > 0 && countActive(q) > 0) any = true;
    }
    c.nontrivial = any; c.label(std::string(CLS[cls]) + (s.o.enableFarBounds ? " far" : " no far") + (s.o.enableRamping ? " ramping" : " no ramping") + (s.o.enableFlippingBounds ? " flipping" : ""));
}
PBT_PROP(general, 5) { combos(c, (int)c.raw(2)); }
PBT_PROP(bounds, 2) { combos(c, 2); }
// the same history with and without output
PBT_PROP(printing, 2) {
    int cls = (int)c.raw(3); QP q; Ses s; start(c, q, s, cls == 2); std::unique_ptr<QProblemB> a = make(cls, q.n, q.m, s.ht), b = make(cls, q.n, q.m, s.ht); Options o = s.o; o.printLevel = c.pick(std::vector<PrintLevel>{PL_DEBUG_ITER, PL_TABULAR, PL_LOW, PL_MEDIUM, PL_HIGH}); a->setOptions(s.o); b->setOptions(o); getGlobalMessageHandler()->setOutputFile(devNull());
    int len = c.range(0, 3), lim = 10 * (q.n + q.m) + 100; bool any = false; if (c.verbose) c.desc << CLS[cls] << " " << REPN[s.a.rep] << " " << s.on << " print level " << (int)o.printLevel;
    for (int k = 0; k <= len; k++) {
        int kind = c.weighted({4, 3, 2, 1}); if (k) next(c, q, s, kind); QP t = q; if (c.raw(6) == 0) { int i = (int)c.raw(q.n); t.lb[i] = 1; t.ub[i] = c.flag() ? 0 : 1; } if (c.raw(6) == 0 && q.m) { int i = (int)c.raw(q.m); t.lbA[i] = 500; t.ubA[i] = 501; } int_t wl = c.raw(5) ? lim : (int_t)c.raw(3), w1 = wl, w2 = wl; if (c.verbose) c.desc << " | " << t.show() << " limit " << wl;
        bool cold = k == 0 || !a->isInitialised(); a->setPrintLevel(PL_NONE); returnValue r1 = cold ? ini(*a, t, s.a, w1) : hot(*a, t, s.a, w1); b->setPrintLevel(o.printLevel); returnValue r2 = cold ? ini(*b, t, s.a, w2) : hot(*b, t, s.a, w2);
        b->setPrintLevel(o.printLevel); if (c.flag()) { b->printProperties(); b->printOptions(); } a->setOptions(s.o); b->setOptions(s.o); a->setPrintLevel(PL_NONE); b->setPrintLevel(PL_NONE);
        std::string x = snapshot(*a, q.n, q.m), y = snapshot(*b, q.n, q.m); PBT_CHECK(c, r1 == r2 && w1 == w2 && x == y, "printing", "r=" << (int)r1 << "/" << (int)r2 << " nWSR=" << w1 << "/" << w2 << "\nquiet " << x << "\nprinting " << y); if (w1 > 0) any = true;
    }
    c.nontrivial = any; c.label("print level " + std::to_string((int)o.printLevel));
}
struct Row { const char* n; double d, r, m; };
static const double E = 2.221e-16;
static void readO(const Options& o, Vec& v) { v = {(double)o.enableRamping, (double)o.enableFarBounds, (double)o.enableFlippingBounds, (double)o.enableRegularisation, (double)o.enableFullLITests, (double)o.enableNZCTests, (double)o.enableDriftCorrection, (double)o.enableCholeskyRefactorisation, (double)o.enableEqualities, o.terminationTolerance, o.boundTolerance, o.boundRelaxation, o.epsNum, o.epsDen, o.maxPrimalJump, o.maxDualJump, o.initialRamping, o.finalRamping, o.initialFarBounds, o.growFarBounds, (double)o.initialStatusBounds, o.epsFlipping, (double)o.numRegularisationSteps, o.epsRegularisation, (double)o.numRefinementSteps, o.epsIterRef, o.epsLITests, o.epsNZCTests, o.rcondSMin, (double)o.enableInertiaCorrection, (double)o.enableDropInfeasibles, (double)o.dropBoundPriority, (double)o.dropEqConPriority, (double)o.dropIneqConPriority, (double)o.printLevel}; }
static void writeO(Options& o, const Vec& v) { int i = 0; auto b = [&](BooleanType& x) { x = v[i++] != 0 ? BT_TRUE : BT_FALSE; }; auto k = [&](int_t& x) { x = (int_t)v[i++]; }; auto d = [&](real_t& x) { x = v[i++]; }; b(o.enableRamping); b(o.enableFarBounds); b(o.enableFlippingBounds); b(o.enableRegularisation); b(o.enableFullLITests); b(o.enableNZCTests); k(o.enableDriftCorrection); k(o.enableCholeskyRefactorisation); b(o.enableEqualities); d(o.terminationTolerance); d(o.boundTolerance); d(o.boundRelaxation); d(o.epsNum); d(o.epsDen); d(o.maxPrimalJump); d(o.maxDualJump); d(o.initialRamping); d(o.finalRamping); d(o.initialFarBounds); d(o.growFarBounds); o.initialStatusBounds = (SubjectToStatus)(int)v[i++]; d(o.epsFlipping); k(o.numRegularisationSteps); d(o.epsRegularisation); k(o.numRefinementSteps); d(o.epsIterRef); d(o.epsLITests); d(o.epsNZCTests); d(o.rcondSMin); b(o.enableInertiaCorrection); b(o.enableDropInfeasibles); k(o.dropBoundPriority); k(o.dropEqConPriority); k(o.dropIneqConPriority); o.printLevel = (PrintLevel)(int)v[i++]; }
static const Row PRE[] = {{"enableRamping", 1, 1, 0}, {"enableFarBounds", 1, 1, 1}, {"enableFlippingBounds", 1, 1, 0}, {"enableRegularisation", 0, 0, 1}, {"enableFullLITests", 0, 1, 0}, {"enableNZCTests", 1, 1, 0}, {"enableDriftCorrection", 1, 1, 0}, {"enableCholeskyRefactorisation", 0, 1, 0}, {"enableEqualities", 0, 0, 1}, {"terminationTolerance", 5e6 * E, 5e6 * E, 1e9 * E}, {"boundTolerance", 1e6 * E, 1e6 * E, 1e6 * E}, {"boundRelaxation", 1e4, 1e4, 1e4}, {"epsNum", -1e3 * E, -1e3 * E, -1e3 * E}, {"epsDen", 1e3 * E, 1e3 * E, 1e3 * E}, {"maxPrimalJump", 1e8, 1e8, 1e8}, {"maxDualJump", 1e8, 1e8, 1e8}, {"initialRamping", .5, .5, .5}, {"finalRamping", 1, 1, 1}, {"initialFarBounds", 1e6, 1e6, 1e6}, {"growFarBounds", 1e3, 1e3, 1e3}, {"initialStatusBounds", -1, -1, 0}, {"epsFlipping", 1e3 * E, 1e3 * E, 1e3 * E}, {"numRegularisationSteps", 0, 0, 1}, {"epsRegularisation", 1e3 * E, 1e3 * E, 1e3 * E}, {"numRefinementSteps", 1, 2, 0}, {"epsIterRef", 1e2 * E, 1e2 * E, 1e2 * E}, {"epsLITests", 1e5 * E, 1e5 * E, 1e5 * E}, {"epsNZCTests", 3e3 * E, 3e3 * E, 3e3 * E}, {"rcondSMin", 1e-14, 1e-14, 1e-14}, {"enableInertiaCorrection", 1, 1, 1}, {"enableDropInfeasibles", 0, 0, 0}, {"dropBoundPriority", 1, 1, 1}, {"dropEqConPriority", 1, 1, 1}, {"dropIneqConPriority", 1, 1, 1}, {"printLevel", 2, 2, 2}};
static const int NO = sizeof PRE / sizeof *PRE;
PBT_PROP(settings, 1) {
    // presets, whatever was there before
    Options o; Vec w(NO), v; bool isB[NO], isI[NO]; for (int i = 0; i < NO; i++) { isB[i] = !strncmp(PRE[i].n, "enable", 6) && strcmp(PRE[i].n, "enableDriftCorrection") && strcmp(PRE[i].n, "enableCholeskyRefactorisation"); isI[i] = strstr(PRE[i].n, "Steps") || strstr(PRE[i].n, "Correction") || strstr(PRE[i].n, "Refactor") || strstr(PRE[i].n, "Priority"); }
    std::vector<double> pool = {0, -1, 1e-20, 1, 1.0999, 1.1, 1e3, -1e-16, E, 5, 1e4, 1e6, -7.5, 1e8, 0.3};
    for (int i = 0; i < NO; i++) { if (isB[i]) w[i] = (double)c.raw(2); else if (isI[i]) w[i] = (double)c.raw(7) - 2; else if (!strcmp(PRE[i].n, "printLevel")) w[i] = (double)c.raw(6) - 2; else if (!strcmp(PRE[i].n, "initialStatusBounds")) w[i] = (double)c.raw(3) - 1; else w[i] = c.flag() ? c.pick(pool) : c.real(3); }
    writeO(o, w); readO(o, v); int k = (int)c.raw(4); if (c.verbose) c.desc << "settings " << str(w) << " preset " << k;
    Options f = o; returnValue r = k == 0 ? f.setToDefault() : k == 1 ? f.setToReliable() : k == 2 ? f.setToMPC() : f.setToFast(); readO(f, v); PBT_CHECK(c, r == SUCCESSFUL_RETURN, "preset-return", "preset returned " << (int)r); for (int i = 0; i < NO; i++) { double want = k == 0 ? PRE[i].d : k == 1 ? PRE[i].r : PRE[i].m; PBT_CHECK(c, fabs(v[i] - want) <= 1e-12 * fabs(want), "preset", "preset " << k << ": " << PRE[i].n << " is " << v[i] << ", documented " << want); }
    { Options fresh; readO(fresh, v); for (int i = 0; i < NO; i++) PBT_CHECK(c, fabs(v[i] - PRE[i].d) <= 1e-12 * fabs(PRE[i].d), "fresh", "a fresh option set has " << PRE[i].n << "=" << v[i] << ", documented " << PRE[i].d); }
    // copies are complete
    Options cp(o), as; as = o; Vec a, b; readO(cp, a); readO(as, b); for (int i = 0; i < NO; i++) PBT_CHECK(c, a[i] == w[i] && b[i] == w[i], "copy", PRE[i].n << " copied as " << a[i] << ", assigned as " << b[i] << ", was " << w[i]);
    // repair: admissible values stay, others move to the limit
    Vec want = w; double eps = 2.221e-16; auto at = [&](const char* n) { for (int i = 0; i < NO; i++) if (!strcmp(PRE[i].n, n)) return i; return -1; };
    for (const char* n : {"enableDriftCorrection", "enableCholeskyRefactorisation", "numRegularisationSteps", "numRefinementSteps", "initialRamping", "finalRamping"}) if (want[at(n)] < 0) want[at(n)] = 0;
    for (const char* n : {"terminationTolerance", "epsIterRef", "epsRegularisation", "boundTolerance", "boundRelaxation", "maxPrimalJump", "maxDualJump", "epsFlipping"}) if (want[at(n)] <= 0) want[at(n)] = eps;
    for (const char* n : {"epsLITests", "epsNZCTests"}) if (want[at(n)] < 0) want[at(n)] = eps;
    if (want[at("initialFarBounds")] <= want[at("boundRelaxation")]) want[at("initialFarBounds")] = want[at("boundRelaxation")] + eps; if (want[at("growFarBounds")] < 1.1) want[at("growFarBounds")] = 1.1;
    bool adj = want != w || w[at("initialFarBounds")] <= want[at("boundRelaxation")]; Options e = o; r = e.ensureConsistency(); readO(e, v); for (int i = 0; i < NO; i++) PBT_CHECK(c, fabs(v[i] - want[i]) <= 1e-3 * eps + 1e-14 * fabs(want[i]), "repair", PRE[i].n << " repaired to " << v[i] << " from " << w[i] << ", nearest admissible " << want[i] << " settings " << str(w));
    PBT_CHECK(c, r == (adj ? RET_OPTIONS_ADJUSTED : SUCCESSFUL_RETURN), "repair-return", "ensureConsistency returned " << (int)r << (adj ? " after repairs" : " without need"));
    int cls = (int)c.raw(3); std::unique_ptr<QProblemB> p = make(cls, 2, 2, HST_UNKNOWN); p->setOptions(o); Options g = p->getOptions(); readO(g, v); for (int i = 0; i < NO; i++) PBT_CHECK(c, fabs(v[i] - want[i]) <= 1e-3 * eps + 1e-14 * fabs(want[i]), "kept", "solver keeps " << PRE[i].n << "=" << v[i] << " given " << w[i] << ", expected " << want[i]);
    PBT_CHECK(c, (double)p->getPrintLevel() == want[NO - 1], "kept-print", "print level " << (int)p->getPrintLevel()); if (c.flag()) { p->reset(); g = p->getOptions(); readO(g, a); for (int i = 0; i < NO; i++) PBT_CHECK(c, a[i] == v[i], "kept-reset", PRE[i].n << " changed by reset from " << v[i] << " to " << a[i]); }
    c.nontrivial = adj; c.label(adj ? "repaired" : "admissible");
}
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
