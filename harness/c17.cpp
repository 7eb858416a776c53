// C17: variance propagation equals the dense reference
#include "seq.hpp"
#include "query.hpp"
#include <qpOASES/extras/SolutionAnalysis.hpp>
using namespace qpOASES; using namespace qg;
typedef long double ld;
// linear map (dg, db, dbA) -> (dx, dyB, dyA) of the final active set
static bool refMap(const QP& q, const Vec& wb, const Vec& wc, LVec& M, ld& pivot) {
    int n = q.n, m = q.m, d = 2 * n + m; std::vector<int> act; for (int i = 0; i < n; i++) if (wb[i] != 0) act.push_back(i); for (int i = 0; i < m; i++) if (wc[i] != 0) act.push_back(n + i);
    int k = n + (int)act.size(); LVec K((size_t)k * k, 0), R((size_t)k * d, 0);
    for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) K[(size_t)i * k + j] = q.h(i, j); R[(size_t)i * d + i] = -1; }
    for (size_t a = 0; a < act.size(); a++) { int t = act[a]; for (int j = 0; j < n; j++) { ld v = t < n ? (t == j) : (ld)q.A[(size_t)(t - n) * n + j]; K[(size_t)j * k + n + a] = -v; K[(size_t)(n + a) * k + j] = v; } R[(size_t)(n + a) * d + n + t] = 1; }
    if (!gauss(K, k, R, d, &pivot)) return false;
    M.assign((size_t)d * d, 0); for (int i = 0; i < n; i++) for (int j = 0; j < d; j++) M[(size_t)i * d + j] = R[(size_t)i * d + j]; for (size_t a = 0; a < act.size(); a++) for (int j = 0; j < d; j++) M[(size_t)(n + act[a]) * d + j] = R[(size_t)(n + a) * d + j]; return true;
}
static void body(Ctx& c, int cls) {
    QP q; Ses s; start(c, q, s, false); if (s.deg) { s.deg = false; VecOpt vo; genVectors(c, q, vo); } int n = q.n, m = q.m, d = 2 * n + m, big = 20 * (n + m) + 200; if (c.raw(4) == 0) s.o.numRefinementSteps = (int_t)c.raw(3);
    std::unique_ptr<QProblem> p; if (cls) p.reset(new SQProblem(n, m, s.ht)); else p.reset(new QProblem(n, m, s.ht)); p->setOptions(s.o); int_t w = big; if (c.verbose) c.desc << (cls ? "varying " : "general ") << REPN[s.a.rep] << " " << s.on << " " << q.show(); Args a2;
    returnValue r = initP(*p, q, s.a, w); int more = (int)c.raw(3);
    for (int k = 0; k < more && r == SUCCESSFUL_RETURN; k++) { next(c, q, s, c.weighted({3, 2, 1, 1})); w = big; if (cls && !k && c.flag()) { if (q.hk == HK_DENSE && s.a.hp()) genH(c, q, false); genA(c, q); VecOpt vo; genVectors(c, q, vo); a2.useNull = s.a.useNull; a2.set(q, genRep(c), q.hk != HK_DENSE && s.a.hp()); r = hotM(dynamic_cast<SQProblem&>(*p), q, a2, w); } else r = hotP(*p, q, s.a, w); if (c.verbose) c.desc << " | " << q.show(); }
    if (r != SUCCESSFUL_RETURN) { PBT_CHECK(c, s.on == "mpc", "solve", "returned " << (int)r); return; }
    Vec wb(n), wc(m + 1); p->getWorkingSetBounds(wb.data()); p->getWorkingSetConstraints(wc.data()); int na = 0; for (double v : wb) na += v != 0; for (int i = 0; i < m; i++) na += wc[i] != 0;
    // covariance: symmetric positive semidefinite, or any matrix (the propagation is linear in it)
    Vec V((size_t)d * d, 0.0); int vk = (int)c.raw(4); if (vk == 0) for (int i = 0; i < d; i++) V[(size_t)i * d + i] = c.sint(3); else if (vk == 1) { int k = c.range(1, d); for (int t = 0; t < k; t++) { Vec f(d); for (auto& v : f) v = c.real(1); for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) V[(size_t)i * d + j] += f[i] * f[j]; } } else if (vk == 2) V[(size_t)c.raw(d) * d + c.raw(d)] = c.real(3); else for (auto& v : V) v = c.real(2);
    Vec keep = V, O((size_t)d * d + 2, 77.0); std::string before = snapshot(*p, n, m); SolutionAnalysis an; returnValue rv = cls ? an.getVarianceCovariance(dynamic_cast<SQProblem*>(p.get()), V.data(), O.data() + 1) : an.getVarianceCovariance(p.get(), V.data(), O.data() + 1);
    if (c.verbose) c.desc << " V=" << strM(V, d, d) << " -> " << (int)rv;
    PBT_CHECK(c, rv == SUCCESSFUL_RETURN, s.on + "-return", "returned " << (int)rv << "\n" << q.show()); PBT_CHECK(c, O[0] == 77 && O.back() == 77, "bounds", "wrote outside the result"); PBT_CHECK(c, V == keep, "input", "input covariance changed");
    std::string after = snapshot(*p, n, m); PBT_CHECK(c, before == after, "object-changed", "analysis changed the object\n" << before << "\n" << after);
    LVec M; ld piv = 1; if (!refMap(q, wb, wc, M, piv)) { PBT_FAIL(c, "reference", "active set is dependent\n" << q.show()); }
    LVec T((size_t)d * d, 0); ld mm = 1, vm = 1; for (auto v : M) mm = std::max(mm, fabsl(v)); for (auto v : V) vm = std::max(vm, (ld)fabs(v));
    for (int i = 0; i < d; i++) for (int k = 0; k < d; k++) { ld f = M[(size_t)i * d + k]; if (f != 0) for (int j = 0; j < d; j++) T[(size_t)i * d + j] += f * V[(size_t)k * d + j]; }
    ld err = 0; int wi = 0, wj = 0; ld ww = 0; for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) { ld v = 0; for (int k = 0; k < d; k++) v += T[(size_t)i * d + k] * M[(size_t)j * d + k]; ld e = fabsl(v - O[1 + (size_t)i * d + j]); if (!(e <= err)) { err = e; wi = i; wj = j; ww = v; } }
    double tol = 1e-8; PBT_CHECK(c, err <= tol * mm * mm * vm * d, s.on + "-value", "entry (" << wi << "," << wj << ") is " << O[1 + (size_t)wi * d + wj] << " but propagates to " << (double)ww << ", scale " << (double)(mm * mm * vm) << "\n" << q.show() << "\nV=" << strM(V, d, d));
    c.nontrivial = na > 0 && vk != 0; c.label(std::string(cls ? "varying " : "general ") + s.on + (na == 0 ? " no active member" : na == n ? " vertex" : " face"));
    // the object goes on as before
    if (c.raw(3) == 0) { next(c, q, s, c.weighted({3, 2, 1})); w = big; const Args& la = a2.A.empty() && a2.H.empty() ? s.a : a2; r = hotP(*p, q, la, w); if (s.on != "mpc") PBT_CHECK(c, r == SUCCESSFUL_RETURN, s.on + "-after", "next solve returned " << (int)r << "\n" << q.show()); if (r == SUCCESSFUL_RETURN) judge(c, q, s, getSol(*p, n, m), s.on + "-after"); }
}
PBT_PROP(general, 3) { body(c, 0); }
PBT_PROP(varying, 1) { body(c, 1); }
PBT_PROP(unsuitable, 1) {   // nothing to propagate: refused
    SolutionAnalysis an; int n = c.range(1, 4), m = c.range(0, 3), d = 2 * n + m; Vec V((size_t)d * d, 1.0), O((size_t)d * d, 77.0); int k = (int)c.raw(5); returnValue r; c.label("kind " + std::to_string(k)); c.nontrivial = true; if (c.verbose) c.desc << "kind " << k << " n=" << n << " m=" << m;
    if (k == 0) r = an.getVarianceCovariance((QProblem*)nullptr, V.data(), O.data()); else if (k == 1) { QProblem p(n, m); r = an.getVarianceCovariance(&p, V.data(), O.data()); } else if (k == 2) { SQProblem p(n, m); r = an.getVarianceCovariance(&p, V.data(), O.data()); }
    else { QP q; Ses s; start(c, q, s, false); d = 2 * q.n + q.m; V.assign((size_t)d * d, 1.0); O.assign((size_t)d * d, 77.0); QProblem p(q.n, q.m, s.ht); p.setOptions(s.o); int_t w = 1000; initP(p, q, s.a, w); if (k == 3) { p.reset(); r = an.getVarianceCovariance(&p, V.data(), O.data()); } else { int z = (int)c.raw(3); r = an.getVarianceCovariance(&p, z == 1 ? nullptr : V.data(), z == 1 ? O.data() : nullptr); } }
    PBT_CHECK(c, r != SUCCESSFUL_RETURN, "unsuitable", "kind " << k << " returned success");
}
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
