// C13: a constraint-product callback changes nothing but speed
#include "seq.hpp"
#include "query.hpp"
using namespace qpOASES; using namespace qg;
struct Cb : public ConstraintProduct {
    const QP* q = nullptr; mutable long calls = 0, bad = 0, failAt = -1; mutable bool failed = false; mutable std::string what;
    int_t operator()(int_t i, const real_t* const x, real_t* const v) const override {
        calls++; if (i < 0 || i >= q->m || !x || !v) { bad++; what = "index " + std::to_string((long)i); return 1; }
        double s = 0; for (int j = 0; j < q->n; j++) { if (!(fabs(x[j]) < 1e25)) { bad++; what = "point with entry " + std::to_string(x[j]); } s += q->A[(size_t)i * q->n + j] * x[j]; }
        if (failAt >= 0 && calls > failAt) { failed = true; return 1 + (int_t)(calls % 3); } *v = s; return 0;
    }
};
struct Obj { std::unique_ptr<QProblem> p; SQProblem* s() { return dynamic_cast<SQProblem*>(p.get()); } };
static void go(Ctx& c, bool varying) {
    QP q; Ses s; start(c, q, s, false); if (q.m == 0) { q.m = c.range(1, 3); genA(c, q); VecOpt vo; vo.degenerate = s.deg; genVectors(c, q, vo); s.a.set(q, s.a.rep, s.a.hp() && q.hk != HK_DENSE); }
    int n = q.n, m = q.m; Obj a, b; auto mk = [&]() { QProblem* p = varying ? new SQProblem(n, m, s.ht) : new QProblem(n, m, s.ht); p->setOptions(s.o); return std::unique_ptr<QProblem>(p); }; a.p = mk(); b.p = mk();
    if (c.raw(4) == 0) { Options o = s.o; o.enableFarBounds = BT_FALSE; o.enableRamping = BT_FALSE; if (!q.generic || s.on == "mpc") o = s.o; a.p->setOptions(o); b.p->setOptions(o); s.o = o; }
    Cb cb; cb.q = &q; PBT_CHECK(c, a.p->setConstraintProduct(&cb) == SUCCESSFUL_RETURN, "set", "setConstraintProduct failed"); std::vector<Args> keep; keep.reserve(30); keep.push_back(std::move(s.a)); Args* A = &keep[0]; bool lateSet = false, copied = false;
    int lim = 10 * (n + m) + 100, len = c.range(0, 5); bool any = false, fail = c.raw(4) == 0; int failStep = fail ? c.range(0, len) : -1; if (c.verbose) c.desc << (varying ? "varying " : "general ") << s.on << (s.deg ? " degenerate " : " ") << REPN[A->rep];
    for (int k = 0; k <= len; k++) {
        int kind = -1; bool mat = false; if (k) { kind = c.weighted({4, 3, 2, 1}); if (varying && c.flag() && !s.deg) { genA(c, q); if (q.hk == HK_DENSE && c.flag()) genH(c, q, false); VecOpt vo; genVectors(c, q, vo); Args nb; nb.useNull = keep[0].useNull; nb.set(q, genRep(c), q.hk != HK_DENSE && keep.back().hp()); keep.push_back(std::move(nb)); A = &keep.back(); mat = true; } else next(c, q, s, kind); }
        if (k && c.raw(6) == 0) { std::unique_ptr<QProblem> t(varying ? new SQProblem(*a.s()) : new QProblem(*a.p)); a.p = std::move(t); copied = true; }
        if (k && c.raw(8) == 0) { bool on = c.flag(); a.p->setConstraintProduct(on ? &cb : 0); lateSet = !on; }
        if (k == failStep) cb.failAt = cb.calls + (long)c.raw(6); cb.failed = false;
        int_t wa = lim, wb = lim; long before = cb.calls; returnValue ra, rb;
        if (k == 0) { ra = initP(*a.p, q, *A, wa); rb = initP(*b.p, q, *A, wb); } else if (mat) { ra = hotM(*a.s(), q, *A, wa); rb = hotM(*b.s(), q, *A, wb); } else { ra = hotP(*a.p, q, *A, wa); rb = hotP(*b.p, q, *A, wb); }
        std::ostringstream d; d << (k == 0 ? "cold" : mat ? "new matrices" : KIND[kind]) << (k == failStep ? " failing" : "") << (lateSet ? " off" : "") << (copied ? " copied" : "") << " " << q.show() << " -> r=" << (int)ra << "/" << (int)rb << " nWSR=" << wa << "/" << wb; if (c.verbose) c.desc << " | " << d.str();
        PBT_CHECK(c, cb.bad == 0, "arguments", "callback called with " << cb.what << "\n" << d.str()); std::string tag = s.on;
        if (cb.failed) {
            PBT_CHECK(c, ra != SUCCESSFUL_RETURN && a.p->isSolved() == BT_FALSE, "ignored-error", "the callback signalled an error but the solve returned " << (int)ra << "\n" << d.str()); c.label("callback error"); c.nontrivial = true;
            cb.failAt = -1; a.p->reset(); bool again = c.flag(); if (again) a.p->setConstraintProduct(&cb); wa = lim; a.p->setHessianType(A->H.empty() ? s.ht : HST_UNKNOWN); ra = initP(*a.p, q, *A, wa);
            PBT_CHECK(c, ra == SUCCESSFUL_RETURN, tag + "-recover", "fresh start after a failing callback returned " << (int)ra << "\n" << d.str()); judge(c, q, s, getSol(*a.p, n, m), tag + "-recover"); return; }
        PBT_CHECK(c, (ra == SUCCESSFUL_RETURN) == (rb == SUCCESSFUL_RETURN) || (s.on == "mpc" && mat), tag + "-verdict", "return code with callback " << (int)ra << ", without " << (int)rb << "\n" << d.str());
        if (ra != SUCCESSFUL_RETURN) { if (s.on == "mpc" && mat) return; PBT_FAIL(c, tag + "-failed", "well-posed problem failed\n" << d.str()); } if (rb != SUCCESSFUL_RETURN) return;
        Sol x = getSol(*a.p, n, m), y = getSol(*b.p, n, m); judge(c, q, s, x, tag); 
        if (!s.deg) { double t = 10 * tolOf(s.o); PBT_CHECK(c, relErr(x.x.data(), y.x.data(), n) <= t && relErr(x.y.data(), y.y.data(), n + m) <= t, tag + "-differs", "x=" << str(x.x) << "/" << str(y.x) << " y=" << str(x.y) << "/" << str(y.y) << "\n" << d.str());
            if (q.generic && !mat) PBT_CHECK(c, wa == wb, tag + "-iterations", "iterations differ\n" << d.str()); }
        Constraints cc; a.p->getConstraints(cc); bool idle = false; for (int i = 0; i < m; i++) idle |= cc.getStatus(i) == ST_INACTIVE && cc.getType(i) != ST_UNBOUNDED;
        if (wa > 0 && idle && !lateSet) PBT_CHECK(c, cb.calls > before, "not-used", "the callback was never called\n" << d.str()); if (lateSet && !mat) PBT_CHECK(c, cb.calls == before, "still-used", "the callback was called after it was removed\n" << d.str());
        if (cb.calls > before && wa > 0) any = true; c.label(s.on + " " + (k == 0 ? "cold" : mat ? "new matrices" : KIND[kind]));
    }
    c.nontrivial = any;
}
PBT_PROP(general, 3) { go(c, false); }
PBT_PROP(varying, 2) { go(c, true); }
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
