// C16: the optimality-violation measure is exact
#include "seq.hpp"
#include "query.hpp"
#include <qpOASES/extras/SolutionAnalysis.hpp>
using namespace qpOASES; using namespace qg;
typedef long double ld;
struct V3 { ld s = 0, f = 0, c = 0, scS = 1, scF = 1, scC = 1; };
static void up3(ld& a, ld v) { if (v > a) a = v; }
// straight from the definition; absent data contribute nothing, complementarity of a member is |multiplier| times distance to the side it acts on
static V3 refer(int n, int m, const double* H, bool id, const double* g, const double* A, const double* lb, const double* ub, const double* lbA, const double* ubA, const double* x, const double* y, const double* wb, const double* wc) {
    V3 r;
    for (int i = 0; i < n; i++) { ld s = g ? g[i] : 0, a = fabsl(s) + fabs(y[i]); s -= y[i]; for (int j = 0; j < n; j++) { ld t = H ? (ld)H[i * n + j] * x[j] : (id && i == j) ? (ld)x[i] : 0; s += t; a += fabsl(t); } if (A) for (int j = 0; j < m; j++) { ld t = (ld)A[j * n + i] * y[n + j]; s -= t; a += fabsl(t); } up3(r.s, fabsl(s)); up3(r.scS, a); }
    for (int i = 0; i < n + m; i++) {
        const double *L = i < n ? lb : lbA, *U = i < n ? ub : ubA, *W = i < n ? wb : wc; int k = i < n ? i : i - n; ld v = 0, a = 0; if (i < n) v = x[i]; else if (A) for (int j = 0; j < n; j++) { v += (ld)A[k * n + j] * x[j]; a += fabsl((ld)A[k * n + j] * x[j]); }
        a += fabsl(v); if (L) a = std::max(a, (ld)fabs(L[k])); if (U) a = std::max(a, (ld)fabs(U[k]));
        if (L && fabs(L[k]) < INF) { } if (L) up3(r.f, L[k] - v); if (U) up3(r.f, v - U[k]); ld afin = 1; if (i >= n && A) for (int j = 0; j < n; j++) afin += fabsl((ld)A[k * n + j] * x[j]); if (i < n) afin += fabs(x[i]); up3(r.scF, afin);
        bool low = W ? W[k] == -1 : y[i] > 0, upp = W ? W[k] == 1 : y[i] < 0; ld p = 0; if (low && L) p = fabsl((v - L[k]) * y[i]); else if (upp && U) p = fabsl((v - U[k]) * y[i]);
        if (!W && fabs(y[i]) < 1e-12) { if (p > 1) p = 0; }   // multipliers at rounding level may or may not count: handled by the caller's tolerance
        up3(r.c, p); up3(r.scC, (a + afin) * fabs(y[i]) + 1e-12L);
    }
    return r;
}
static void cmp(Ctx& c, const V3& r, double s, double f, double k, const std::string& tag, const std::string& show, double tol = 1e-12) {
    PBT_CHECK(c, fabsl(s - r.s) <= tol * r.scS, tag + "-stationarity", "stationarity violation " << s << ", from the data " << (double)r.s << "\n" << show);
    PBT_CHECK(c, fabsl(f - r.f) <= tol * std::max(r.scF, r.f), tag + "-feasibility", "feasibility violation " << f << ", from the data " << (double)r.f << "\n" << show);
    PBT_CHECK(c, fabsl(k - r.c) <= tol * std::max((ld)1, r.scC), tag + "-complementarity", "complementarity violation " << k << ", from the data " << (double)r.c << "\n" << show);
}
PBT_PROP(function, 4) {
    int n = c.range(1, 7), m = c.range(0, 7); bool ints = c.flag(); auto v = [&](double s) { return ints ? (double)c.sint((int)s) : c.real(s); };
    Vec H(n * n), g(n), A(m * n + 1), lb(n), ub(n), lbA(m + 1), ubA(m + 1), x(n), y(n + m), wb(n), wc(m + 1); for (auto& t : H) t = v(3); for (auto& t : g) t = v(5); for (auto& t : A) t = v(3); for (auto& t : x) t = v(4);
    // most members near their sides so that single violations decide the maximum
    int hot = c.raw(3) ? (int)c.raw(n + m) : -1; bool small = c.raw(3) == 0;   // small: tiny multipliers of members far from their sides
    for (int i = 0; i < n + m; i++) { double t = 0; if (i < n) t = x[i]; else for (int j = 0; j < n; j++) t += A[(i - n) * n + j] * x[j]; bool h = hot < 0 || i == hot; double l = h ? t - v(3) : t - fabs(v(1)), u = h ? t + v(3) : t + fabs(v(1)); if (!h && c.flag()) { l = t; u = t; }
        if (c.raw(5) == 0) l = -INF; if (c.raw(5) == 0) u = INF; (i < n ? lb[i] : lbA[i - n]) = l; (i < n ? ub[i] : ubA[i - n]) = u; y[i] = c.raw(3) ? v(3) : 0; if (small && y[i] != 0) { y[i] = ldexp(y[i], -(int)c.raw(30)); if (fabs(y[i]) < 1e-11) y[i] = 0; if (c.flag()) { double d = ldexp(1.0, (int)c.raw(24)); double& sd = y[i] > 0 ? (i < n ? lb[i] : lbA[i - n]) : (i < n ? ub[i] : ubA[i - n]); if (fabs(sd) < INF) sd += y[i] > 0 ? -d : d; } } (i < n ? wb[i] : wc[i - n]) = (double)((int)c.raw(3) - 1); }
    int hk = (int)c.raw(3); bool hasG = c.raw(6) != 0, hasA = c.raw(6) != 0, hl = c.raw(5) != 0, hu = c.raw(5) != 0, hla = c.raw(5) != 0, hua = c.raw(5) != 0, w1 = c.raw(3) == 0, w2 = c.raw(3) == 0, id = hk == 1 || (hk == 0 && c.flag());
    if (c.raw(3) == 0 && hasA) { for (int i = 0; i < n; i++) { double s = -y[i]; for (int j = 0; j < n; j++) s += hk == 0 ? H[i * n + j] * x[j] : (hk == 1 && i == j) ? x[j] : 0; for (int j = 0; j < m; j++) s -= A[j * n + i] * y[n + j]; g[i] = -s; } if (c.flag()) g[c.raw(n)] += v(3); }
    const double *pH = hk == 0 ? H.data() : nullptr, *pg = hasG ? g.data() : nullptr, *pA = hasA && m ? A.data() : nullptr, *pl = hl ? lb.data() : nullptr, *pu = hu ? ub.data() : nullptr, *pla = hla ? lbA.data() : nullptr, *pua = hua ? ubA.data() : nullptr, *pw = w1 ? wb.data() : nullptr, *pc = w2 ? wc.data() : nullptr;
    real_t s = 7, f = 7, k = 7; returnValue r; bool simple = m == 0 && c.flag();
    if (simple) r = getKktViolation((int_t)n, pH, pg, pl, pu, x.data(), y.data(), s, f, k, pw, id ? BT_TRUE : BT_FALSE);
    else r = getKktViolation((int_t)n, (int_t)m, pH, pg, pA, pl, pu, pla, pua, x.data(), y.data(), s, f, k, pw, pc, id ? BT_TRUE : BT_FALSE);
    std::ostringstream o; o << "n=" << n << " m=" << m << " H=" << (pH ? strM(H, n, n) : "-") << " id=" << id << " g=" << (pg ? str(g) : "-") << " A=" << (pA ? strM(A, m, n) : "-") << " lb=" << (pl ? str(lb) : "-") << " ub=" << (pu ? str(ub) : "-") << " lbA=" << (pla ? str(lbA) : "-") << " ubA=" << (pua ? str(ubA) : "-") << " x=" << str(x) << " y=" << str(y) << " wb=" << (pw ? str(wb) : "-") << " wc=" << (pc ? str(wc) : "-");
    if (c.verbose) c.desc << o.str(); PBT_CHECK(c, r == SUCCESSFUL_RETURN, "function-return", "returned " << (int)r);
    cmp(c, refer(n, m, pH, id, pg, pA, pl, pu, pla, pua, x.data(), y.data(), pw, pc), s, f, k, "function", o.str()); c.nontrivial = m > 0 || simple; c.label(std::string(simple ? "bounds" : "general") + (w1 || w2 ? " with working sets" : ""));
}
static void body(Ctx& c, int cls) {
    QP q; Ses s; start(c, q, s, cls == 2); int n = q.n, m = q.m, big = 20 * (n + m) + 200; if (c.raw(5) == 0) { genHpsd(c, q); VecOpt vo; genVectors(c, q, vo); s.a.set(q, s.a.rep, c.raw(3) == 0); s.ht = s.a.H.empty() ? hessType(c, q) : HST_UNKNOWN; s.o.enableRegularisation = BT_TRUE; if (c.flag()) { s.o.epsRegularisation = c.pick(std::vector<double>{1e-6, 1e-3, 0.05}); s.o.numRegularisationSteps = (int_t)c.raw(3); } }
    std::unique_ptr<QProblemB> p; if (cls == 2) p.reset(new QProblemB(n, s.ht)); else if (cls == 1) p.reset(new SQProblem(n, m, s.ht)); else p.reset(new QProblem(n, m, s.ht)); p->setOptions(s.o);
    int fin = c.weighted({5, 1, 1}); int_t w = fin == 1 ? (int_t)c.raw(3) : big; if (fin == 2) { int i = (int)c.raw(n + m); double& l = i < n ? q.lb[i] : q.lbA[i - n]; double& u = i < n ? q.ub[i] : q.ubA[i - n]; if (u >= INF) u = 0; l = u + 1; }
    Ses keep; if (c.verbose) c.desc << (cls == 2 ? "bounds " : cls ? "varying " : "general ") << REPN[s.a.rep] << " " << s.on << " " << q.show() << " fin " << fin; Args a2;
    returnValue r = cls == 2 ? initP(*p, q, s.a, w) : initP(*dynamic_cast<QProblem*>(p.get()), q, s.a, w);
    int more = r == SUCCESSFUL_RETURN ? (int)c.raw(3) : 0; for (int k = 0; k < more; k++) { next(c, q, s, c.weighted({3, 2, 1, 1})); w = c.raw(4) ? big : (int_t)c.raw(4);
        if (cls == 1 && !k && c.flag()) { genA(c, q); VecOpt vo; genVectors(c, q, vo); a2.useNull = s.a.useNull; a2.set(q, genRep(c), q.hk != HK_DENSE && s.a.hp()); r = hotM(*dynamic_cast<SQProblem*>(p.get()), q, a2, w); } else r = cls == 2 ? hotP(*p, q, s.a, w) : hotP(*dynamic_cast<QProblem*>(p.get()), q, s.a, w); if (c.verbose) c.desc << " | " << q.show(); if (r != SUCCESSFUL_RETURN) break; }
    Vec x(n), y(n + m), wb(n), wc(m + 1); returnValue rx = p->getPrimalSolution(x.data()); p->getDualSolution(y.data()); p->getWorkingSetBounds(wb.data()); p->getWorkingSetConstraints(wc.data());
    std::string before = cls == 2 ? snapshot(*p, n, m) : snapshot(*dynamic_cast<QProblem*>(p.get()), n, m); SolutionAnalysis an; real_t st = 7, fe = 7, cm = 7; double mx; int nul = (int)c.raw(8); real_t *ps = nul & 1 ? nullptr : &st, *pf = nul & 2 ? nullptr : &fe, *pc = nul & 4 ? nullptr : &cm;
    if (cls == 2) mx = an.getKktViolation(p.get(), ps, pf, pc); else if (cls == 1) mx = an.getKktViolation(dynamic_cast<SQProblem*>(p.get()), ps, pf, pc); else mx = an.getKktViolation(dynamic_cast<QProblem*>(p.get()), ps, pf, pc);
    std::string after = cls == 2 ? snapshot(*p, n, m) : snapshot(*dynamic_cast<QProblem*>(p.get()), n, m); PBT_CHECK(c, before == after, "object-changed", "analysis changed the object\n" << before << "\n" << after);
    c.label(std::string(cls == 2 ? "bounds" : cls ? "varying" : "general") + (r == SUCCESSFUL_RETURN ? " solved" : " unsolved")); if (rx != SUCCESSFUL_RETURN || r != SUCCESSFUL_RETURN) return;
    // an objective without curvature may leave a variable at an auxiliary far bound, which is no side of the problem
    for (int i = 0; i < n + m; i++) { double b = i < n ? wb[i] : wc[i - n]; if ((b < 0 && (i < n ? q.lb[i] : q.lbA[i - n]) <= -INF) || (b > 0 && (i < n ? q.ub[i] : q.ubA[i - n]) >= INF)) return; }
    Vec H = q.hk == HK_DENSE ? q.H : Vec(n * n, 0.0); if (q.hk == HK_ID) for (int i = 0; i < n; i++) H[i * n + i] = 1;
    V3 t = refer(n, m, H.data(), false, q.g.data(), m ? q.A.data() : nullptr, q.lb.data(), q.ub.data(), m ? q.lbA.data() : nullptr, m ? q.ubA.data() : nullptr, x.data(), y.data(), wb.data(), wc.data()); t.scC = 1 + dataScale(q, x.data(), y.data()) * (1 + normInf(x));
    double tol = 1e-9 + 200 * s.o.terminationTolerance; if (nul == 0) cmp(c, t, st, fe, cm, "object", q.show(), tol); double sc = (double)std::max(std::max(t.scS, t.scF), t.scC), want = (double)std::max(std::max(t.s, t.f), t.c);
    PBT_CHECK(c, fabs(mx - want) <= tol * sc, "object-maximum", "maximum violation " << mx << ", of its own solution " << want << "\n" << q.show());
    if (nul == 0) PBT_CHECK(c, mx == std::max(std::max(st, fe), cm), "object-max-consistent", "maximum " << mx << " of " << st << " " << fe << " " << cm); c.nontrivial = countActive(q) > 0;
}
PBT_PROP(general, 2) { body(c, 0); }
PBT_PROP(varying, 1) { body(c, 1); }
PBT_PROP(bounds, 1) { body(c, 2); }
PBT_PROP(fresh, 1) {   // objects without a problem and no object at all: no violation of zero is invented
    SolutionAnalysis an; int n = c.range(1, 4), m = c.range(0, 3); real_t s = 7, f = 7, k = 7; double v; int w = (int)c.raw(6);
    if (w == 0) v = an.getKktViolation((QProblemB*)nullptr, &s, &f, &k); else if (w == 1) v = an.getKktViolation((QProblem*)nullptr, &s, &f, &k); else if (w == 2) v = an.getKktViolation((SQProblem*)nullptr, &s, &f, &k);
    else if (w == 3) { QProblemB p(n); v = an.getKktViolation(&p, &s, &f, &k); } else if (w == 4) { QProblem p(n, m); v = an.getKktViolation(&p, &s, &f, &k); } else { SQProblem p(n, m); v = an.getKktViolation(&p, &s, &f, &k); }
    c.nontrivial = true; c.label("kind " + std::to_string(w)); PBT_CHECK(c, v > 0, "fresh", "violation " << v << " reported for kind " << w);
}
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
