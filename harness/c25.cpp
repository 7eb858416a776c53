// C25: LPs and semidefinite problems reach the optimal value
#include "seq.hpp"
using namespace qpOASES; using namespace qg;
static const char* CLS[] = {"general", "varying", "bounds"};
// Hessian without full rank; nullity 1..n
static void singularH(Ctx& c, QP& q, int kind) {
    int n = q.n; if (kind == 0) { q.hk = HK_ZERO; q.H.clear(); return; }
    q.hk = HK_DENSE; q.H.assign((size_t)n * n, 0.0); int r = c.range(0, n - 1);
    if (c.raw(3) == 0) { for (int k = 0; k < r; k++) q.H[(size_t)k * n + k] = q.generic ? 0.25 + c.pos01() * 3 : 1 + (double)c.raw(3); return; }   // diagonal
    for (int k = 0; k < r; k++) { Vec v(n); for (auto& x : v) x = c.raw(3) ? val(c, q.generic, 2) : 0.0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) q.H[(size_t)i * n + j] += v[i] * v[j]; }
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) q.H[(size_t)i * n + j] = q.H[(size_t)j * n + i];
}
// every variable between moderate sides
static void box(Ctx& c, QP& q) { for (int i = 0; i < q.n; i++) { if (q.lb[i] <= -INF) q.lb[i] = q.xs[i] - 1 - posval(c, q.generic, 5); if (q.ub[i] >= INF) q.ub[i] = q.xs[i] + 1 + posval(c, q.generic, 5); } }
// is the planted minimiser the only one (active rows with nonzero multipliers and the Hessian determine it)?
static bool unique(const QP& q) {
    Indep ind(q.n); int k = 0; for (int i = 0; i < q.n + q.m; i++) if (q.ys[i] != 0 || (i < q.n ? q.lb[i] == q.ub[i] : q.lbA[i - q.n] == q.ubA[i - q.n])) { Vec row(q.n, 0.0); if (i < q.n) row[i] = 1; else for (int j = 0; j < q.n; j++) row[j] = q.A[(size_t)(i - q.n) * q.n + j]; if (ind.add(row.data())) k++; }
    for (int i = 0; i < q.n && q.hk == HK_DENSE; i++) { Vec row(q.n); for (int j = 0; j < q.n; j++) row[j] = q.h(i, j); if (ind.add(row.data())) k++; }
    return k == q.n;
}
static void body(Ctx& c, int cls, int* failures = nullptr) {
    std::string on; Options o = genPreset(c, &on); bool mpc = on == "mpc"; if (!mpc) { o.enableRegularisation = B(c.flag()); o.numRegularisationSteps = 1 + (int_t)c.raw(3); if (c.raw(3) == 0) o.epsRegularisation = c.pick(std::vector<double>{1e-12, 1e-11, 1e-10}); }
    bool reg = o.enableRegularisation == BT_TRUE && o.numRegularisationSteps > 0;
    QP q; q.generic = mpc || c.raw(3) != 0; Shape sh; if (cls == 2) sh.mMax = 0; genSize(c, q, sh); int kind = (int)c.raw(2); singularH(c, q, kind); genA(c, q); VecOpt vo; vo.degenerate = !q.generic && c.flag(); genVectors(c, q, vo);
    bool boxed = c.raw(4) != 0 || !reg; if (boxed) box(c, q); int n = q.n, m = q.m, lim = 30 * (n + m) + 100;
    Args a; a.useNull = c.flag(); a.set(q, genRep(c), c.raw(3) == 0); HessianType ht = a.H.empty() ? HST_ZERO : c.raw(4) ? HST_UNKNOWN : q.hk == HK_ZERO && c.flag() ? HST_ZERO : HST_SEMIDEF;
    std::unique_ptr<QProblemB> p; if (cls == 2) p.reset(new QProblemB(n, ht)); else if (cls == 1) p.reset(new SQProblem(n, m, ht)); else p.reset(new QProblem(n, m, ht)); p->setOptions(o); QProblem* g = dynamic_cast<QProblem*>(p.get());
    std::vector<Args> keep; keep.reserve(10); keep.push_back(std::move(a)); int len = c.range(0, 3); if (c.verbose) c.desc << CLS[cls] << " " << REPN[keep[0].rep] << " " << on << " reg=" << reg << " steps=" << o.numRegularisationSteps << " type=" << (int)ht;
    std::string fam = std::string(kind ? "semi-" : "lp-") + on + (reg ? "-reg" : "") + (boxed ? "-box" : "") + (vo.degenerate ? "-deg" : q.generic ? "" : "-int"); bool uprev = true;
    for (int k = 0; k <= len; k++) {
        bool mat = false; if (k) { if (cls == 1 && q.generic && c.raw(3) == 0) { if (q.hk == HK_DENSE) singularH(c, q, 1); genA(c, q); genVectors(c, q, vo); Args b; b.useNull = keep[0].useNull; b.set(q, (int)c.raw(4), !keep[0].H.empty()); keep.push_back(std::move(b)); mat = true; } else { Ses s; s.deg = vo.degenerate; next(c, q, s, c.weighted({4, 3, 2, 1})); } if (boxed) box(c, q); }
        bool uni = unique(q), gz = normInf(q.g) == 0; if ((!boxed && !uni) || (mpc && k && !(uni && uprev))) break; uprev = uni;
        int_t w = lim; const Args& A = keep.back(); returnValue r = k == 0 ? (g ? initP(*g, q, A, w) : initP(*p, q, A, w)) : mat ? hotM(*dynamic_cast<SQProblem*>(g), q, A, w) : g ? hotP(*g, q, A, w) : hotP(*p, q, A, w);
        if (c.verbose) c.desc << " | " << (k == 0 ? "cold " : mat ? "matrices " : "hot ") << q.show() << " -> r=" << (int)r << " nWSR=" << w;
        std::string tag = fam + (k == 0 ? "-cold" : mat ? "-matrices" : "-hot") + (gz ? "-g0" : ""); c.label(tag);
        // hot starts without strict convexity and semidefinite Hessians: failures stay exceptional, see batch
        if (r != SUCCESSFUL_RETURN && (k || mpc || kind || (reg && ht == HST_SEMIDEF))) { if (failures && !(mpc && kind)) ++*failures; c.label("inexact failed"); return; }
        PBT_CHECK(c, r == SUCCESSFUL_RETURN, tag + "-failed", "returned " << (int)r << " after " << w << " iterations\n" << q.show());
        Sol z = getSol(*p, n, m); double tol = tolOf(o); checkKkt(c, q, z, tag, tol);
        PBT_CHECK(c, fabs(z.obj - q.obj) <= tol * q.objScale(z.x.data()) * 10, tag + "-objective", "objective " << z.obj << " planted " << q.obj << " x=" << str(z.x) << "\n" << q.show());
        checkObj(c, q, z, tag, tol); if (uni) { c.label("unique"); checkX(c, q, z, tag, 100 * tol); }
        if (w > 0) c.nontrivial = true;
    }
}
PBT_PROP(general, 4) { body(c, 0); }
PBT_PROP(varying, 2) { body(c, 1); }
PBT_PROP(bounds, 2) { body(c, 2); }
PBT_PROP(batch, 1) { int f = 0; for (int i = 0; i < 24; i++) body(c, (int)c.raw(3), &f); PBT_CHECK(c, f < 4, "batch-failures", f << " of 24 histories failed"); c.label("batch"); }
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
