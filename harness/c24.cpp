// C24: results are deterministic and objects do not interfere
#include <new>
#include <cstring>
#include <cstdlib>
#include <malloc.h>
static unsigned char gFill = 0; static bool gFillOn = false;
static void* grab(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (gFillOn && n < (1u << 22)) memset(p, gFill, n); return p; }
void* operator new(size_t n) { return grab(n); }
void* operator new[](size_t n) { return grab(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#include "seq.hpp"
#include "query.hpp"
using namespace qpOASES; using namespace qg;
static const char* CLS[] = {"general", "varying", "bounds"};
typedef std::unique_ptr<QProblemB> PP;
static PP mk(int cls, int n, int m, HessianType ht) { PP p; if (cls == 2) p.reset(new QProblemB(n, ht)); else if (cls == 1) p.reset(new SQProblem(n, m, ht)); else p.reset(new QProblem(n, m, ht)); return p; }
static PP dup(int cls, const QProblemB& p) { PP r; if (cls == 2) r.reset(new QProblemB(p)); else if (cls == 1) r.reset(new SQProblem(dynamic_cast<const SQProblem&>(p))); else r.reset(new QProblem(dynamic_cast<const QProblem&>(p))); return r; }
static std::string snap(int cls, QProblemB& p, int n, int m) { return cls == 2 ? snapshot(p, n, m) : snapshot(*dynamic_cast<QProblem*>(&p), n, m); }
enum Op { INIT, HOT, HOTM, RESET, OPTIONS, COPY, EQP, KKTOP, COVAR };
static const char* OPN[] = {"init", "hot", "matrices", "reset", "options", "copy", "eqp", "kkt", "covariance"};
struct Step { Op op; QP q; int rep; bool triv, nul; Options o; int lim = 0; std::shared_ptr<WsGuess> g; Vec x, y; HessianType ht; };
struct Hist { int cls, n, m; HessianType ht; Options o; std::vector<Step> st; std::string show; bool wild = false; };
// an arbitrary symmetric Hessian, arbitrary rows and sides: only determinism is asked for
static void makeWild(Ctx& c, QP& q) {
    double s = pow(10, c.range(-3, 6)); for (auto& v : q.A) if (c.raw(3) == 0) v = c.real(3) * s; for (auto& v : q.g) v = c.real(9);
    if (q.hk == HK_DENSE) for (int i = 0; i < q.n; i++) for (int j = 0; j <= i; j++) if (c.raw(4) == 0) q.H[(size_t)i * q.n + j] = q.H[(size_t)j * q.n + i] = c.real(4);
    for (int i = 0; i < q.n + q.m; i++) { double& l = i < q.n ? q.lb[i] : q.lbA[i - q.n]; double& u = i < q.n ? q.ub[i] : q.ubA[i - q.n]; if (c.raw(4) == 0) { l = c.flag() ? -INF : c.real(3); u = c.flag() ? INF : l + (c.flag() ? 0 : c.real(3)); if (l <= -INF && u < INF && c.flag()) u = c.real(3); } }
}
static Hist gen(Ctx& c) {
    Hist h; h.cls = c.weighted({3, 3, 2}); QP q; Ses s; start(c, q, s, h.cls == 2); h.n = q.n; h.m = q.m; h.ht = s.ht; h.o = s.o; h.wild = c.raw(3) == 0; std::ostringstream d; d << CLS[h.cls] << " " << REPN[s.a.rep] << " " << s.on;
    int len = c.range(1, 7), big = 10 * (q.n + q.m) + 60; bool triv = q.hk != HK_DENSE && s.a.hp(); bool init = false;
    for (int k = 0; k < len; k++) {
        Step t; t.op = !init ? (c.raw(12) ? INIT : COPY) : (Op)c.weighted({1, 9, h.cls == 1 ? 5 : 0, 1, 1, 2, 1, 1, 1}); t.rep = t.op == HOTM ? (int)c.raw(4) : s.a.rep; t.triv = triv; t.nul = s.a.useNull; t.o = h.o; t.ht = s.ht; if (t.op == RESET) init = false;
        if (t.op == INIT || t.op == HOT || t.op == HOTM) { if (t.op == HOTM) { if (q.hk == HK_DENSE) genH(c, q, false); genA(c, q); VecOpt vo; genVectors(c, q, vo); } else if (init) next(c, q, s, c.weighted({3, 3, 2, 1})); init = true; t.q = q; if (h.wild) makeWild(c, t.q); else if (c.raw(6) == 0) { int i = (int)c.raw(q.n); t.q.lb[i] = 3; t.q.ub[i] = c.flag() ? 2 : 3; } t.lim = c.raw(5) ? big : (int)c.raw(5); if (c.raw(4) == 0) { t.g = std::make_shared<WsGuess>(genGuess(c, q, guessMode(c), h.cls == 2 ? 0 : guessMode(c))); if (t.op == INIT && c.flag()) { t.x = q.xs; if (c.flag()) t.y = q.ys; } } }
        else t.q = q;
        if (t.op == OPTIONS) { t.o = genPreset(c); }
        d << " | " << OPN[t.op]; if (t.op <= HOTM) d << " " << t.q.show() << (t.g ? t.g->show : "") << (t.x.empty() ? "" : " x") << (t.y.empty() ? "" : " y") << " limit " << t.lim; h.st.push_back(std::move(t));
    }
    h.show = d.str(); return h;
}
// one run of a history, advanced step by step
struct Run {
    const Hist& h; PP p; std::vector<std::shared_ptr<Args>> a; size_t k = 0; std::vector<std::string> out; bool useful = false; std::vector<std::shared_ptr<Args>>* borrow = nullptr;
    explicit Run(const Hist& h_) : h(h_) { p = mk(h.cls, h.n, h.m, h.ht); p->setOptions(h.o); }
    void step() {
        const Step& t = h.st[k]; std::ostringstream s; int_t w = t.lim; returnValue r = SUCCESSFUL_RETURN; std::shared_ptr<Args> A; if (borrow) A = (*borrow)[k]; else { A = std::make_shared<Args>(); if (t.op <= HOTM) { A->useNull = t.nul; A->set(t.q, t.rep, t.triv); } } a.push_back(A); QProblem* g = h.cls == 2 ? nullptr : dynamic_cast<QProblem*>(p.get());
        Guess gg; if (t.g) { gg.b = t.g->b.get(); gg.c = t.g->c.get(); } if (!t.x.empty()) gg.x = t.x.data(); if (!t.y.empty()) gg.y = t.y.data(); Vec b1(h.n + h.m + 1, 7), b2(h.n + h.m + 1, 7); double mx = 0;
        switch (t.op) {
            case INIT: p->setHessianType(A->H.empty() ? t.ht : HST_UNKNOWN); r = g ? initP(*g, t.q, *A, w, nullptr, gg) : initP(*p, t.q, *A, w, nullptr, gg); break;
            case HOT: r = g ? hotP(*g, t.q, *A, w, nullptr, gg.b, gg.c) : hotP(*p, t.q, *A, w, nullptr, gg.b); break;
            case HOTM: r = hotM(dynamic_cast<SQProblem&>(*p), t.q, *A, w, nullptr, gg.b, gg.c); break;
            case RESET: r = p->reset(); break;
            case OPTIONS: r = p->setOptions(t.o); break;
            case COPY: { PP q = dup(h.cls, *p); p = std::move(q); break; }
            case EQP: if (g) r = g->solveCurrentEQP(1, t.q.g.data(), lo(t.q.lb, false), up(t.q.ub, false), h.m ? lo(t.q.lbA, false) : nullptr, h.m ? up(t.q.ubA, false) : nullptr, b1.data(), b2.data()); s << " eqp "; if (r == SUCCESSFUL_RETURN) s << strM(b1) << strM(b2); break;
            case KKTOP: { SolutionAnalysis sa; mx = g ? sa.getKktViolation(g) : sa.getKktViolation(p.get()); break; }
            case COVAR: if (g && p->isSolved() == BT_TRUE && h.n + h.m <= 12) { int N = 2 * h.n + h.m; Vec v((size_t)N * N, 0.0), o((size_t)N * N, 7.0); for (int i = 0; i < N; i++) v[(size_t)i * N + i] = 1 + i; SolutionAnalysis sa; r = sa.getVarianceCovariance(g, v.data(), o.data()); s << " cov " << strM(o); } break;
        }
        if (t.op <= HOTM && w > 0) useful = true; s << " " << OPN[t.op] << " r=" << (int)r << " nWSR=" << w << " " << bitsOf(mx) << " " << snap(h.cls, *p, h.n, h.m); out.push_back(s.str()); k++;
    }
    static std::string strM(const Vec& v) { std::string s; for (double x : v) { uint64_t u; memcpy(&u, &x, 8); s += std::to_string(u) + " "; } return s; }   // NaNs included
    bool done() const { return k >= h.st.size(); }
};
__attribute__((noinline)) static void dirtyStack(unsigned char f) { volatile unsigned char b[60000]; for (size_t i = 0; i < sizeof b; i++) b[i] = f; }
static const unsigned char FILLS[] = {0x00, 0xff, 0x41, 0x01, 0x3f, 0xbf, 0xcd, 0x7f};
static void noise(Ctx& c, std::vector<PP>& z) {
    getGlobalMessageHandler()->setOutputFile(devNull()); int k = (int)c.raw(5);
    if (k == 0 && !z.empty()) { z.erase(z.begin() + c.raw((uint32_t)z.size())); return; }
    if (k == 1) { QProblem p(2, 1); p.setPrintLevel(PL_HIGH); int_t w = 5; p.init((const real_t*)0, 0, 0, 0, 0, 0, 0, w); p.hotstart((real_t*)0, 0, 0, 0, 0, w); return; }
    if (k == 2) { getGlobalMessageHandler()->setErrorCount((int_t)c.raw(9) - 1); getGlobalMessageHandler()->setWarningVisibilityStatus(c.flag() ? VS_VISIBLE : VS_HIDDEN); return; }
    QP q; Ses s; start(c, q, s, c.flag()); PP p; int_t w = c.flag() ? 1000 : 2; if (q.m) p.reset(new SQProblem(q.n, q.m, s.ht)); else p.reset(new QProblemB(q.n, s.ht)); s.o.printLevel = c.flag() ? PL_NONE : PL_MEDIUM; p->setOptions(s.o); if (s.a.rep != R_RAW) s.a.set(q, R_RAW, s.a.hp() && q.hk != HK_DENSE); if (q.m) { initP(dynamic_cast<QProblem&>(*p), q, s.a, w); p.reset(); } else { initP(*p, q, s.a, w); z.push_back(std::move(p)); z.back()->reset(); }
}
PBT_PROP(interleaved, 3) {
    int K = c.range(1, 3); std::vector<Hist> hs; for (int i = 0; i < K; i++) hs.push_back(gen(c)); std::vector<Run*> A, B; std::vector<std::unique_ptr<Run>> own; bool any = false; std::vector<PP> z; unsigned char f1 = c.pick(std::vector<unsigned char>(FILLS, FILLS + 8)), f2 = c.pick(std::vector<unsigned char>(FILLS, FILLS + 8)); bool share = c.raw(3) == 0; if (c.verbose) { c.desc << "fill " << (int)f1 << "/" << (int)f2 << (share ? " shared data" : ""); for (auto& h : hs) c.desc << "\nhistory: " << h.show; }
    getGlobalMessageHandler()->setOutputFile(devNull());
    for (auto& h : hs) { gFill = f1; gFillOn = true; dirtyStack(f1); own.emplace_back(new Run(h)); A.push_back(own.back().get()); while (!A.back()->done()) { dirtyStack(f1); A.back()->step(); } gFillOn = false; A.back()->p.reset(); }
    for (size_t i = 0; i < hs.size(); i++) { gFill = f2; gFillOn = true; own.emplace_back(new Run(hs[i])); gFillOn = false; B.push_back(own.back().get()); if (share) B.back()->borrow = &A[i]->a; }
    std::string order; for (;;) { std::vector<int> open; for (int i = 0; i < K; i++) if (!B[i]->done()) open.push_back(i); if (open.empty()) break; int i = c.pick(open); if (c.raw(3) == 0) noise(c, z); gFill = f2; gFillOn = true; dirtyStack(f2); B[i]->step(); gFillOn = false; order += std::to_string(i); size_t k = B[i]->k - 1;
        PBT_CHECK(c, A[i]->out[k] == B[i]->out[k], std::string("differs-") + OPN[hs[i].st[k].op], "step " << k + 1 << " of history " << i + 1 << " in order " << order << " alone:\n" << A[i]->out[k] << "\ninterleaved:\n" << B[i]->out[k]); any |= B[i]->useful; }
    c.nontrivial = any; c.label(std::to_string(K) + " objects"); for (auto& h : hs) { c.label(std::string(CLS[h.cls]) + (h.wild ? " arbitrary data" : " well-posed")); for (auto& t : h.st) c.label(OPN[t.op]); }
}
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
