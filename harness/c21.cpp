// C21: no history of calls corrupts memory, reads memory that was never written, leaks, or hangs
#include "schur.hpp"
#include "query.hpp"
using namespace qpOASES; using namespace qg;
// ---------------------------------------------------------------- bookkeeping of allocations
extern "C" __attribute__((weak)) int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" __attribute__((weak)) int __lsan_do_recoverable_leak_check(void);
static const size_t TAB = 1 << 17; static const volatile void* g_tab[TAB]; static size_t g_size[TAB]; static bool g_on = false; static unsigned char g_fill = 0; static long g_live = 0;
static size_t slot(const volatile void* p) { return ((size_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 20 & (TAB - 1); }
static void onMalloc(const volatile void* p, size_t n) { if (!g_on || !p) return; if (n < (1u << 20)) memset((void*)p, g_fill, n); size_t k = slot(p); for (size_t t = 0; t < TAB; t++, k = (k + 1) & (TAB - 1)) if (!g_tab[k] || g_tab[k] == (void*)1) { g_tab[k] = p; g_size[k] = n; g_live++; return; } }
static void onFree(const volatile void* p) { if (!p || !g_live) return; size_t k = slot(p); for (size_t t = 0; t < TAB && g_tab[k]; t++, k = (k + 1) & (TAB - 1)) if (g_tab[k] == p) { g_tab[k] = (void*)1; g_live--; return; } }
// ---------------------------------------------------------------- plans
static const char* CLS[] = {"bounds", "general", "varying", "schur"};
struct Obj { int cls = 0, n = 0, m = 0; };
enum { O_NEW, O_INIT, O_HOT, O_HOTM, O_COPY, O_ASSIGN, O_RESET, O_OPT, O_EQP, O_COV, O_KKT, O_FILE, O_PRINT, O_MISC, O_DEL };
static const char* OPN[] = {"new", "init", "hot", "hot+matrices", "copy", "assign", "reset", "options", "eqp", "covariance", "kkt", "export", "print", "misc", "delete"};
struct Op { int kind = 0, obj = 0, src = 0, rep = 0, budget = 5; bool useNull = false, expl = false; Obj d; QP q; Options o; HessianType ht = HST_UNKNOWN; long w = 0; int cpu = 0; Vec gx, gy, gR; std::vector<int> gb, gc; bool hasB = false, hasC = false; int sel = 0; };
struct Wild { int level = 0; bool nan = false; };
static double wildNum(Ctx& c, const Wild& w) {
    switch (c.weighted({6, 4, 4, 2, 2, 2, 2, 1, 1, w.nan ? 2 : 0})) {
        case 0: return c.sint(3); case 1: return c.real(3); case 2: return 0; case 3: return c.real(1e6); case 4: return c.real(1e-8); case 5: return c.real(1) * 1e12;
        case 6: return (c.flag() ? 1 : -1) * c.pick(std::vector<double>{1e19, 1e20, 1e21, 1e30, 9.99e19}); case 7: return (c.flag() ? 1 : -1) * c.pick(std::vector<double>{1e300, 1e-300, 1e-160, 1e160, 4.9e-324, 1.79e308}); case 8: return (c.flag() ? 1 : -1) * c.pick(std::vector<double>{2.2e-16, 1e-12, 1e-9});
        default: return c.flag() ? NAN : (c.flag() ? HUGE_VAL : -HUGE_VAL);
    }
}
static void wildVec(Ctx& c, Vec& v, const Wild& w) { if (w.level == 2) for (double& x : v) x = wildNum(c, w); else { int k = (int)c.raw(3); for (int t = 0; t < k && !v.empty(); t++) v[c.raw((int)v.size())] = wildNum(c, w); } }
static void genData(Ctx& c, QP& q, const Obj& d, const Wild& w, bool matrices) {
    q.n = d.n; q.m = d.m; if (matrices) { q.generic = c.flag(); genH(c, q); genA(c, q); } if (q.H.empty() && q.hk == HK_DENSE) { q.H.assign((size_t)d.n * d.n, 0.0); for (int i = 0; i < d.n; i++) q.H[(size_t)i * d.n + i] = 1; }
    VecOpt vo; vo.degenerate = !q.generic && c.flag(); genVectors(c, q, vo); if (!w.level) return;
    if (matrices) {
        int k = (int)c.raw(4); if (k == 1 && q.hk == HK_DENSE) { for (int i = 0; i < d.n; i++) for (int j = 0; j <= i; j++) q.H[(size_t)i * d.n + j] = q.H[(size_t)j * d.n + i] = c.sint(2); } if (k == 2) { wildVec(c, q.H, w); for (int i = 0; i < d.n && q.hk == HK_DENSE; i++) for (int j = 0; j < i; j++) q.H[(size_t)j * d.n + i] = q.H[(size_t)i * d.n + j]; } if (k == 3) { q.hk = c.raw(2) ? HK_ZERO : HK_ID; q.H.clear(); }
        int a = (int)c.raw(3); if (a == 1) wildVec(c, q.A, w); if (a == 2 && d.m > 1) { int i = (int)c.raw(d.m), j = (int)c.raw(d.m); double f = c.sint(2); for (int t = 0; t < d.n; t++) q.A[(size_t)i * d.n + t] = f * q.A[(size_t)j * d.n + t]; }
    }
    int k = (int)c.raw(5); if (k == 0) wildVec(c, q.g, w); if (k == 1) { wildVec(c, q.lb, w); wildVec(c, q.ub, w); } if (k == 2) { wildVec(c, q.lbA, w); wildVec(c, q.ubA, w); } if (k == 3) { wildVec(c, q.g, w); wildVec(c, q.lb, w); wildVec(c, q.ub, w); wildVec(c, q.lbA, w); wildVec(c, q.ubA, w); }
}
static Options genOpt(Ctx& c, const Wild& w) {
    Options o = genPreset(c); if (c.flag()) return o; int p = 1 + (int)c.raw(4); auto t = [&]() { return c.raw(p) == 0; };
    if (t()) o.enableRamping = B(c.flag()); if (t()) o.enableFarBounds = B(c.flag()); if (t()) o.enableFlippingBounds = B(c.flag()); if (t()) o.enableRegularisation = B(c.flag()); if (t()) o.enableFullLITests = B(c.flag()); if (t()) o.enableNZCTests = B(c.flag()); if (t()) o.enableEqualities = B(c.flag()); if (t()) o.enableInertiaCorrection = B(c.flag()); if (t()) o.enableDropInfeasibles = B(c.flag());
    if (t()) o.enableDriftCorrection = c.range(-1, 3); if (t()) o.enableCholeskyRefactorisation = c.range(-1, 3); if (t()) o.initialStatusBounds = c.pick(std::vector<SubjectToStatus>{ST_LOWER, ST_INACTIVE, ST_UPPER}); if (t()) o.numRefinementSteps = c.range(-1, 3); if (t()) o.numRegularisationSteps = c.range(-1, 3);
    if (t()) { o.dropBoundPriority = (int)c.raw(4); o.dropEqConPriority = (int)c.raw(4); o.dropIneqConPriority = (int)c.raw(4); }
    if (w.level == 2 && c.raw(3) == 0) { real_t* f[] = {&o.terminationTolerance, &o.boundTolerance, &o.boundRelaxation, &o.epsNum, &o.epsDen, &o.maxPrimalJump, &o.maxDualJump, &o.initialRamping, &o.finalRamping, &o.initialFarBounds, &o.growFarBounds, &o.epsFlipping, &o.epsRegularisation, &o.epsIterRef, &o.epsLITests, &o.epsNZCTests, &o.rcondSMin}; Wild v = w; v.nan = false; int k = c.range(1, 4); for (int i = 0; i < k; i++) *f[c.raw(17)] = wildNum(c, v); }
    return o;
}
static void genGuesses(Ctx& c, Op& o, const Obj& d, const Wild& w, bool ini) {
    if (c.flag()) return; bool wild = w.level && c.flag();
    if (ini && c.flag()) { o.gx = o.q.xs; o.gx.resize(d.n, 0.0); if (wild) wildVec(c, o.gx, w); } if (ini && c.raw(3) == 0) { o.gy = o.q.ys; o.gy.resize(d.n + d.m, 0.0); if (wild) wildVec(c, o.gy, w); }
    if (c.raw(3) == 0) { o.hasB = true; int n = c.raw(8) ? d.n : (int)c.raw(d.n + 2); for (int i = 0; i < n; i++) o.gb.push_back(c.raw(20) ? (int)c.raw(3) - 1 : 9); } if (c.raw(3) == 0) { o.hasC = true; int n = c.raw(8) ? d.m : (int)c.raw(d.m + 2); for (int i = 0; i < n; i++) o.gc.push_back(c.raw(20) ? (int)c.raw(3) - 1 : 9); }
    if (ini && c.raw(6) == 0) { if (c.raw(4)) { o.gx.clear(); o.gy.clear(); o.hasB = o.hasC = false; } o.gR.assign((size_t)d.n * d.n, 0.0); for (int i = 0; i < d.n; i++) for (int j = i; j < d.n; j++) o.gR[(size_t)i * d.n + j] = i == j ? 1 + c.raw(2) : c.sint(1); if (wild) wildVec(c, o.gR, w); }
}
static void dims(Ctx& c, Obj& d, int cls) { d.cls = cls; d.n = c.range(1, c.raw(12) ? 5 : 14); d.m = cls ? c.range(0, c.raw(12) ? 5 : 20) : 0; }
static std::vector<Op> plan(Ctx& c, int cls0, const Wild& w) {
    std::vector<Op> P; std::vector<Obj> objs; std::vector<QP> last; int len = c.range(2, 12);
    for (int k = 0; k < len; k++) {
        Op o; bool any = !objs.empty(); int kind = !any ? O_NEW : c.weighted({1, 6, 8, 5, 1, 1, 1, 2, 1, 1, 1, 1, 1, 2, 1}); o.kind = kind; if (kind == O_NEW && objs.size() >= 3) o.kind = kind = O_HOT;
        if (kind == O_NEW) { dims(c, o.d, c.raw(4) ? cls0 : (int)c.raw(4)); if (any && c.flag()) { o.d.n = objs[0].n; o.d.m = o.d.cls ? objs[0].m : 0; } o.ht = c.raw(3) ? HST_UNKNOWN : (HessianType)c.raw(7); o.budget = c.pick(std::vector<int>{0, 1, 5, 75}); o.obj = (int)objs.size(); objs.push_back(o.d); last.emplace_back(); o.o = genOpt(c, w); P.push_back(o); if (c.raw(6) == 0) continue; o.kind = kind = O_INIT; }
        if (kind != O_INIT || o.obj + 1 != (int)objs.size() || any) if (P.back().kind != O_NEW) o.obj = (int)c.raw((int)objs.size());
        Obj& d = objs[o.obj]; o.d = d; o.useNull = c.flag(); o.rep = (int)genRep(c); o.expl = c.raw(3) == 0; o.w = c.raw(4) ? 200 : c.pick(std::vector<int>{0, 1, 2, 5, -1}); o.cpu = c.raw(8) ? 0 : 1;
        if (kind == O_HOTM && (d.cls < 2)) o.kind = kind = O_HOT;
        if (kind == O_INIT || kind == O_HOTM) { genData(c, o.q, d, w, true); last[o.obj] = o.q; genGuesses(c, o, d, w, kind == O_INIT); }
        if (kind == O_HOT || kind == O_EQP || kind == O_KKT || kind == O_COV) { o.q = last[o.obj]; genData(c, o.q, d, w, o.q.g.empty()); if (kind == O_HOT) genGuesses(c, o, d, w, false); if (kind == O_COV) { o.gx.assign((size_t)(2 * d.n + d.m) * (2 * d.n + d.m), 0.0); for (double& v : o.gx) v = w.level ? wildNum(c, w) : c.sint(2); } }
        if (kind == O_COPY) { if (objs.size() >= 4) continue; o.src = (int)c.raw((int)objs.size()); o.obj = (int)objs.size(); Obj e = objs[o.src]; objs.push_back(e); QP lq = last[o.src]; last.push_back(lq); }
        if (kind == O_ASSIGN) { o.src = (int)c.raw((int)objs.size()); if (objs[o.src].cls != d.cls) continue; d = objs[o.src]; last[o.obj] = last[o.src]; }
        if (kind == O_OPT) o.o = genOpt(c, w); o.sel = (int)c.raw(6); if (kind == O_DEL) { if (c.raw(3)) continue; o.o = genOpt(c, w); }
        P.push_back(o);
    }
    return P;
}
// ---------------------------------------------------------------- execution; everything allocated in here has to be gone at the end
static uint64_t g_dig; static void dig(const std::string& s) { for (unsigned char ch : s) { g_dig ^= ch; g_dig *= 1099511628211ull; } }
static QProblemB* create(const Op& o) { const Obj& d = o.d; if (d.cls == 0) return new QProblemB(d.n, o.ht); if (d.cls == 1) return new QProblem(d.n, d.m, o.ht); if (d.cls == 2) return new SQProblem(d.n, d.m, o.ht); return new Schur(d.n, d.m, o.ht, o.budget); }
static int g_solved;
static std::string g_trace; static char g_traceBuf[1 << 14]; static uint64_t g_step[64]; static int g_steps;
static void execute(const std::vector<Op>& P) {
    g_dig = 1469598103934665603ull; g_solved = 0; g_steps = 0; std::vector<std::unique_ptr<Args>> keep; std::vector<std::unique_ptr<QP>> keepQ; std::vector<std::unique_ptr<QProblemB>> pool; std::vector<int> cls; int at = 0;
    for (const Op& o : P) {
        if (o.kind == O_NEW) { pool.emplace_back(create(o)); cls.push_back(o.d.cls); pool.back()->setOptions(o.o); continue; }
        if (o.kind == O_COPY) { QProblemB* s = pool[o.src].get(); int k = cls[o.src]; pool.emplace_back(k == 0 ? new QProblemB(*s) : k == 1 ? new QProblem(*static_cast<QProblem*>(s)) : k == 2 ? new SQProblem(*static_cast<SQProblem*>(s)) : new Schur(*static_cast<Schur*>(s))); cls.push_back(k); continue; }
        QProblemB* p = pool[o.obj].get(); QProblem* g = dynamic_cast<QProblem*>(p); SQProblem* s = dynamic_cast<SQProblem*>(p); int n = (int)p->getNV(), m = g ? (int)g->getNC() : 0; int_t w = o.w; real_t cpu = 1e10; real_t* pc = o.cpu ? &cpu : nullptr; returnValue r = SUCCESSFUL_RETURN;
        Bounds gb; Constraints gc; if (o.hasB) { gb.init((int)o.gb.size()); for (size_t i = 0; i < o.gb.size(); i++) if (o.gb[i] != 9) gb.setupBound((int)i, (SubjectToStatus)o.gb[i]); } if (o.hasC) { gc.init((int)o.gc.size()); for (size_t i = 0; i < o.gc.size(); i++) if (o.gc[i] != 9) gc.setupConstraint((int)i, (SubjectToStatus)o.gc[i]); }
        const Bounds* pb = o.hasB ? &gb : nullptr; const Constraints* pk = o.hasC ? &gc : nullptr; const QP* q = nullptr; if (!o.q.g.empty()) { keepQ.emplace_back(new QP(o.q)); q = keepQ.back().get(); }
        Args* a = nullptr; if (o.kind == O_INIT || o.kind == O_HOTM || o.kind == O_KKT) { keep.emplace_back(new Args); a = keep.back().get(); a->useNull = o.useNull; int rep = o.rep; if (cls[o.obj] == 3 && rep == R_SPARSEROW) rep = R_SPARSE; a->set(*q, (Rep)rep, o.expl && q->hk != HK_DENSE); }
        Args plain; plain.useNull = o.useNull; Guess gg; gg.x = o.gx.empty() ? nullptr : o.gx.data(); gg.y = o.gy.empty() ? nullptr : o.gy.data(); gg.R = o.gR.empty() ? nullptr : o.gR.data(); gg.b = pb; gg.c = pk;
        switch (o.kind) {
            case O_INIT: if (a->H.empty() && p->getHessianType() != HST_IDENTITY && p->getHessianType() != HST_ZERO) p->setHessianType(q->hk == HK_ID ? HST_IDENTITY : HST_ZERO); r = g ? initP(*g, *q, *a, w, pc, gg) : initP(*p, *q, *a, w, pc, gg); break;
            case O_HOT: r = g ? hotP(*g, *q, plain, w, pc, pb, pk) : hotP(*p, *q, plain, w, pc, pb); break;
            case O_HOTM: r = hotM(*s, *q, *a, w, pc, pb, pk); break;
            case O_ASSIGN: { QProblemB* t = pool[o.src].get(); int k = cls[o.obj]; if (k == 0) *p = *t; else if (k == 1) *g = *static_cast<QProblem*>(t); else if (k == 2) *s = *static_cast<SQProblem*>(t); else *static_cast<Schur*>(p) = *static_cast<Schur*>(t); n = (int)p->getNV(); m = g ? (int)g->getNC() : 0; break; }
            case O_RESET: r = p->reset(); break;
            case O_OPT: r = p->setOptions(o.o); break;
            case O_EQP: if (g) { int k = 1 + o.sel % 2; Vec gi, l, u, lA, uA, x((size_t)n * k, 0.0), y((size_t)(n + m) * k, 0.0); for (int i = 0; i < k; i++) { gi.insert(gi.end(), q->g.begin(), q->g.end()); l.insert(l.end(), q->lb.begin(), q->lb.end()); u.insert(u.end(), q->ub.begin(), q->ub.end()); lA.insert(lA.end(), q->lbA.begin(), q->lbA.end()); uA.insert(uA.end(), q->ubA.begin(), q->ubA.end()); } r = g->solveCurrentEQP(k, gi.data(), l.data(), u.data(), lA.data(), uA.data(), x.data(), y.data()); if (r == SUCCESSFUL_RETURN) for (double v : x) dig(bitsOf(v)); } break;
            case O_COV: { SolutionAnalysis an; int d = 2 * n + m; Vec C((size_t)d * d, 0.0); Vec I = o.gx; I.resize((size_t)d * d, 0.0); r = s ? an.getVarianceCovariance(s, I.data(), C.data()) : g ? an.getVarianceCovariance(g, I.data(), C.data()) : an.getVarianceCovariance(p, I.data(), C.data()); if (r == SUCCESSFUL_RETURN) for (double v : C) dig(bitsOf(v)); break; }
            case O_KKT: { SolutionAnalysis an; if (o.sel % 2) dig(bitsOf(s ? an.getKktViolation(s) : g ? an.getKktViolation(g) : an.getKktViolation(p))); else { real_t st, fe, cm; s ? an.getKktViolation(s, &st, &fe, &cm) : g ? an.getKktViolation(g, &st, &fe, &cm) : an.getKktViolation(p, &st, &fe, &cm); } break; }
            case O_FILE: if (g) r = o.sel % 2 ? g->writeQpDataIntoMatFile("/dev/null") : g->writeQpWorkspaceIntoMatFile("/dev/null"); break;
            case O_PRINT: { p->setPrintLevel(o.sel % 2 ? PL_LOW : PL_MEDIUM); p->printProperties(); p->setPrintLevel(PL_NONE); break; }
            case O_MISC: { Options t = p->getOptions(); dig(optStr(t)); if (o.sel == 0) p->printOptions(); if (o.sel == 1) { Options e; e = t; e.ensureConsistency(); p->setOptions(e); } if (o.sel == 2 && g) { std::vector<BooleanType> f(n); g->getFreeVariablesFlags(f.data()); for (BooleanType b : f) dig(b ? "1" : "0"); } if (o.sel == 3) p->resetCounter(); if (o.sel == 4 && s) { Bounds b; p->getBounds(b); b.print(); } break; }
            case O_DEL: pool[o.obj].reset(cls[o.obj] == 0 ? new QProblemB((int_t)n) : cls[o.obj] == 1 ? new QProblem((int_t)n, (int_t)m) : cls[o.obj] == 2 ? new SQProblem((int_t)n, (int_t)m) : (QProblemB*)new Schur(n, m, HST_UNKNOWN, 5)); p = pool[o.obj].get(); g = dynamic_cast<QProblem*>(p); p->setOptions(o.o); break;
        }
        if (o.kind <= O_HOTM && r == SUCCESSFUL_RETURN) g_solved++;
        std::string sn = g ? snapshot(*g, n, m) : snapshot(*p, n, 0); dig(std::to_string((int)r)); if (o.kind <= O_HOTM) dig(std::to_string((long)w)); dig(sn); if (g_steps < 64) g_step[g_steps++] = g_dig; at++;
        snprintf(g_traceBuf + std::min(strlen(g_traceBuf), sizeof(g_traceBuf) - 40), 40, " %s->%d", OPN[o.kind], (int)r);
    }
    (void)at;
}
static std::string showPlan(const std::vector<Op>& P) { std::ostringstream s; for (const Op& o : P) { s << " | " << OPN[o.kind] << " #" << o.obj; if (o.kind == O_NEW) s << " " << CLS[o.d.cls] << " " << o.d.n << "x" << o.d.m << " type " << (int)o.ht << " budget " << o.budget; if (o.kind == O_COPY || o.kind == O_ASSIGN) s << " from #" << o.src; if (o.kind == O_NEW || o.kind == O_OPT) s << " opt " << optStr(o.o); if (!o.q.g.empty()) s << " " << REPN[o.rep] << (o.useNull ? " null" : "") << " w=" << o.w << " " << o.q.show(); if (!o.gx.empty() && o.kind == O_INIT) s << " x0=" << str(o.gx); if (!o.gy.empty()) s << " y0=" << str(o.gy); if (!o.gR.empty()) s << " R=" << str(o.gR); if (o.hasB) { s << " gb="; for (int v : o.gb) s << v << ","; } if (o.hasC) { s << " gc="; for (int v : o.gc) s << v << ","; } } return s.str(); }
static void history(Ctx& c, int cls, int level) {
    Wild w; w.level = level; w.nan = level == 2 && c.raw(4) == 0; std::vector<Op> P = plan(c, cls, w); if (c.verbose) { c.desc << "level " << level << showPlan(P); if (const char* f = getenv("PBT_PLAN")) { FILE* h = fopen(f, "w"); if (h) { fprintf(h, "%s\n", showPlan(P).c_str()); fclose(h); } } }
    uint64_t d[2]; uint64_t st[2][64]; int solved = 0; unsigned char pat[2] = {0x00, 0xC3}; bool hooks = __sanitizer_install_malloc_and_free_hooks != nullptr;
    for (int k = 0; k < 2; k++) {
        memset(g_tab, 0, sizeof(g_tab)); g_live = 0; g_fill = pat[k]; g_traceBuf[0] = 0; g_on = true; execute(P); g_on = false; d[k] = g_dig; memcpy(st[k], g_step, sizeof(g_step)); solved = g_solved;
        if (hooks && g_live) { std::ostringstream z; for (size_t i = 0; i < TAB; i++) if (g_tab[i] && g_tab[i] != (void*)1) z << " " << g_size[i]; if (getenv("PBT_LSAN") && __lsan_do_recoverable_leak_check) { memset(g_tab, 0, sizeof(g_tab)); __lsan_do_recoverable_leak_check(); } PBT_FAIL(c, std::string("leak-") + CLS[cls], g_live << " blocks are still allocated after all objects are gone, sizes" << z.str() << "\n" << showPlan(P)); }
    }
    if (c.verbose) c.desc << " ->" << g_traceBuf;
    if (hooks && d[0] != d[1]) { int k = 0; while (k < g_steps && st[0][k] == st[1][k]) k++; PBT_FAIL(c, std::string("garbage-") + CLS[cls], "answers depend on the content of fresh memory, first at step " << k << " of" << g_traceBuf << "\n" << showPlan(P)); }
    c.nontrivial = solved > 0; c.label(std::string(CLS[cls]) + " level " + std::to_string(level) + (solved ? " solved" : " unsolved"));
}
#define H(nm, cls) PBT_PROP(nm##_sound, 1) { history(c, cls, 0); } PBT_PROP(nm##_mixed, 3) { history(c, cls, 1); } PBT_PROP(nm##_wild, 2) { history(c, cls, 2); }
H(bounds, 0)
H(general, 1)
H(varying, 2)
H(schur, 3)
int main(int argc, char** argv) { static char ob[1 << 16]; setvbuf(stdout, ob, _IOFBF, sizeof(ob)); if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); Options o; o.printLevel = PL_NONE; { QP q; q.n = 1; QProblem p(1, 1); std::ostringstream s; s << 1.5; } return pbt::mainImpl(argc, argv); }
