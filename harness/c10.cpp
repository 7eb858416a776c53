// C10: equivalent formulations have the same solution
#include "seq.hpp"
#include "query.hpp"
using namespace qpOASES; using namespace qg;
static void densify(QP& q) { if (q.hk == HK_DENSE) return; Vec H((size_t)q.n * q.n, 0.0); if (q.hk == HK_ID) for (int i = 0; i < q.n; i++) H[(size_t)i * q.n + i] = 1; q.H = H; q.hk = HK_DENSE; }
// a formulation: the problem as stated plus the way back: x_j = s_j * z_map(j) + d_j, objective = f * stated + k
struct Form { QP q; std::vector<int> map; Vec s, d; double f = 1, k = 0; std::string how; };
static void swapSides(double& l, double& u, double s) { double a = l, b = u; auto m = [&](double v) { return fabs(v) >= INF ? (v > 0) == (s > 0) ? INF : -INF : v * s; }; if (s > 0) { l = m(a); u = m(b); } else { l = m(b); u = m(a); } }
static void change(Ctx& c, Form& F) {
    QP& q = F.q; int n = q.n, m = q.m; int k = c.weighted({2, 3, 2, 3, 2, 2, 2, 1, 2});
    switch (k) {
        case 0: { std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; for (int i = n - 1; i > 0; i--) std::swap(p[i], p[c.raw(i + 1)]);   // new j is old p[j]
            QP o = q; for (int j = 0; j < n; j++) { q.g[j] = o.g[p[j]]; q.lb[j] = o.lb[p[j]]; q.ub[j] = o.ub[p[j]]; if (q.hasSol) { q.xs[j] = o.xs[p[j]]; q.ys[j] = o.ys[p[j]]; } for (int i = 0; i < m; i++) q.A[(size_t)i * n + j] = o.A[(size_t)i * n + p[j]]; if (q.hk == HK_DENSE) for (int i = 0; i < n; i++) q.H[(size_t)i * n + j] = o.H[(size_t)p[i] * n + p[j]]; }
            std::vector<int> inv(n); for (int j = 0; j < n; j++) inv[p[j]] = j; for (auto& v : F.map) v = inv[v]; F.how += " permute variables"; break; }
        case 1: if (m > 1) { for (int i = m - 1; i > 0; i--) { int j = (int)c.raw(i + 1); if (i == j) continue; for (int l = 0; l < n; l++) std::swap(q.A[(size_t)i * n + l], q.A[(size_t)j * n + l]); std::swap(q.lbA[i], q.lbA[j]); std::swap(q.ubA[i], q.ubA[j]); if (q.hasSol) std::swap(q.ys[n + i], q.ys[n + j]); } F.how += " permute constraints"; } break;
        case 2: for (int i = 0; i < m; i++) if (c.flag()) { double s = c.pick(std::vector<double>{-1, 2, 0.5, -2}); for (int j = 0; j < n; j++) q.A[(size_t)i * n + j] *= s; swapSides(q.lbA[i], q.ubA[i], s); if (q.hasSol) q.ys[n + i] /= s; } F.how += " scale constraints"; break;
        case 3: { bool mirror = c.flag(); Vec s(n); for (auto& v : s) v = mirror ? (c.flag() ? -1 : 1) : c.pick(std::vector<double>{1, -1, 2, 0.5, -2}); if (!mirror || true) densify(q);   // stated variable z = x / s
            for (int j = 0; j < n; j++) { q.g[j] *= s[j]; swapSides(q.lb[j], q.ub[j], 1 / s[j]); if (q.hasSol) { q.xs[j] /= s[j]; q.ys[j] *= s[j]; } for (int i = 0; i < m; i++) q.A[(size_t)i * n + j] *= s[j]; for (int i = 0; i < n; i++) q.H[(size_t)i * n + j] *= s[i] * s[j]; }
            for (size_t v = 0; v < F.map.size(); v++) F.s[v] *= s[F.map[v]]; F.how += mirror ? " mirror" : " scale variables"; break; }
        case 4: { double f = c.pick(std::vector<double>{2, 0.5, 4}); densify(q); for (auto& v : q.H) v *= f; for (auto& v : q.g) v *= f; if (q.hasSol) for (auto& v : q.ys) v *= f; F.f /= f; F.how += " scale objective"; break; }
        case 5: { Vec d(n); for (auto& v : d) v = c.sint(4);   // x = z + d
            double k0 = q.objective(d.data()); Vec g = q.g; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) g[i] += q.h(i, j) * d[j]; q.g = g; for (int j = 0; j < n; j++) { if (q.lb[j] > -INF) q.lb[j] -= d[j]; if (q.ub[j] < INF) q.ub[j] -= d[j]; if (q.hasSol) q.xs[j] -= d[j]; } for (int i = 0; i < m; i++) { double t = 0; for (int j = 0; j < n; j++) t += q.A[(size_t)i * n + j] * d[j]; if (q.lbA[i] > -INF) q.lbA[i] -= t; if (q.ubA[i] < INF) q.ubA[i] -= t; }
            for (size_t v = 0; v < F.map.size(); v++) F.d[v] += F.s[v] * d[F.map[v]]; F.k += F.f * k0; F.how += " shift"; break; }
        case 6: { std::vector<int> mv; bool all = c.flag(); for (int j = 0; j < n; j++) if (all || c.flag()) mv.push_back(j); Vec yb, yc; if (q.hasSol) { yb.assign(q.ys.begin(), q.ys.begin() + n); yc.assign(q.ys.begin() + n, q.ys.end()); }
            for (int j : mv) { Vec r(n, 0.0); r[j] = 1; q.A.insert(q.A.end(), r.begin(), r.end()); q.lbA.push_back(q.lb[j]); q.ubA.push_back(q.ub[j]); q.lb[j] = -INF; q.ub[j] = INF; q.m++; if (q.hasSol) { yc.push_back(yb[j]); yb[j] = 0; } } if (q.hasSol) { q.ys = yb; q.ys.insert(q.ys.end(), yc.begin(), yc.end()); } F.how += " bounds as constraints"; break; }
        case 7: { int e = c.range(1, 3); for (int i = 0; i < e; i++) { Vec r(n); for (auto& v : r) v = val(c, q.generic, 3); q.A.insert(q.A.end(), r.begin(), r.end()); q.lbA.push_back(-INF); q.ubA.push_back(INF); q.m++; if (q.hasSol) q.ys.push_back(0); } F.how += " free rows"; break; }
        case 8: densify(q); F.how += " explicit Hessian"; break;
    }
}
struct Res { returnValue r; Vec x; double obj; int_t w; };
// cls 0 QProblem, 1 SQProblem, 2 QProblemB (needs m == 0), 3 QProblem with one free row (m == 0)
static Res solveAs(const QP& q0, const Options& o, int rep, bool useNull, bool explicitH, int cls, bool hugeInf, bool typed) {
    QP q = q0; Args a; if (cls == 3) { q.m = 1; q.A.assign(q.n, 1.0); q.lbA.assign(1, -INF); q.ubA.assign(1, INF); q.ys.push_back(0); } a.useNull = useNull; a.set(q, rep, explicitH);
    if (hugeInf) { auto f = [](Vec& v) { for (auto& e : v) if (fabs(e) >= INF) e *= 1e4; }; f(q.lb); f(q.ub); f(q.lbA); f(q.ubA); }
    HessianType ht = HST_UNKNOWN; if (a.H.empty()) ht = q.hk == HK_ID ? HST_IDENTITY : HST_ZERO; else if (typed && q.hasSol) ht = HST_POSDEF; Res z; z.w = 20 * (q.n + q.m) + 200; z.x.assign(q.n, 0.0);
    auto fin = [&](auto& p) { p.getPrimalSolution(z.x.data()); z.obj = p.getObjVal(); };
    if (cls == 2) { QProblemB p(q.n, ht); p.setOptions(o); z.r = initP(p, q, a, z.w); fin(p); } else if (cls == 1) { SQProblem p(q.n, q.m, ht); p.setOptions(o); z.r = initP(p, q, a, z.w); fin(p); } else { QProblem p(q.n, q.m, ht); p.setOptions(o); z.r = initP(p, q, a, z.w); fin(p); }
    return z;
}
static const char* CN[] = {"general", "varying", "bounds", "general with free row"};
static void go(Ctx& c, int want) {
    QP q; Ses s; if (want == 0) start(c, q, s, c.raw(4) == 0); else { s.o = genPreset(c, &s.on); q.generic = s.on == "mpc" || c.flag(); Shape sh; sh.forceC = true; genSize(c, q, sh); genH(c, q); genA(c, q); genInfeasible(c, q, s.on == "mpc"); }
    double tol = (s.deg ? 100 : 1) * tolOf(s.o) * 10; Form F; F.q = q; F.map.resize(q.n); for (int i = 0; i < q.n; i++) F.map[i] = i; F.s.assign(q.n, 1.0); F.d.assign(q.n, 0.0); int k = c.range(0, 4); for (int i = 0; i < k; i++) change(c, F);
    auto cls = [&](const QP& t) { if (t.m) return (int)c.raw(2); return (int)c.raw(4); }; int c1 = cls(q), c2 = cls(F.q), r1 = genRep(c), r2 = genRep(c); bool n1 = c.flag(), n2 = c.flag(), e1 = c.raw(3) == 0, e2 = c.raw(3) == 0, h2 = c.raw(4) == 0, t2 = c.raw(4) == 0;
    Res a = solveAs(q, s.o, r1, n1, e1, c1, false, false), b = solveAs(F.q, s.o, r2, n2, e2, c2, h2, t2);
    std::ostringstream d; d << s.on << " " << CN[c1] << " " << REPN[r1] << (n1 ? " null" : "") << (e1 ? " explicit" : "") << " " << q.show() << "\n as " << CN[c2] << " " << REPN[r2] << (n2 ? " null" : "") << (e2 ? " explicit" : "") << (h2 ? " huge" : "") << F.how << ": " << F.q.show() << "\n r=" << (int)a.r << " and " << (int)b.r;
    if (c.verbose) c.desc << d.str();
    std::string tag = s.on + "-"; c.label(s.on + " " + (want == 0 ? "solvable" : "infeasible"));
    if (want == 1) { PBT_CHECK(c, a.r == RET_INIT_FAILED_INFEASIBILITY && b.r == RET_INIT_FAILED_INFEASIBILITY, tag + "infeasible-verdict", "verdicts differ or are wrong\n" << d.str()); c.nontrivial = true; return; }
    PBT_CHECK(c, a.r == SUCCESSFUL_RETURN && b.r == SUCCESSFUL_RETURN, tag + "verdict", "verdicts differ\n" << d.str());
    Vec x(q.n); for (int i = 0; i < q.n; i++) x[i] = F.s[i] * b.x[F.map[i]] + F.d[i];
    double sc = 1 + normInf(q.xs) + normInf(F.d); for (int i = 0; i < q.n; i++) PBT_CHECK(c, fabs(x[i] - a.x[i]) <= tol * sc * 4, tag + "primal", "solution " << str(a.x) << " of the first, " << str(x) << " of the other formulation\n" << d.str());
    double os = q.objScale(a.x.data()) + fabs(F.k) + F.f * F.q.objScale(b.x.data()), ob = F.f * b.obj + F.k; PBT_CHECK(c, fabs(ob - a.obj) <= tol * os, tag + "objective", "objective " << a.obj << " of the first, " << ob << " of the other formulation\n" << d.str());
    c.nontrivial = (k > 0 || c1 != c2) && countActive(q) > 0;
}
// however the absence of a side is written, the same steps are taken: whole sessions must agree to the last bit
template <class P> static void spelling(Ctx& c, QP& q, Ses& s, const std::string& tag, bool useB) {
    if (c.raw(3) == 0) { s.on = "any"; s.o.enableFarBounds = B(c.flag()); s.o.enableRamping = B(c.flag()); s.o.enableFlippingBounds = B(c.flag()); s.o.enableRegularisation = B(c.flag()); s.o.enableEqualities = B(c.flag()); s.o.initialStatusBounds = (SubjectToStatus)((int)c.raw(3) - 1); s.o.enableNZCTests = B(c.flag()); s.o.enableFullLITests = B(c.flag()); }
    auto make = [&] { if constexpr (std::is_same<P, QProblemB>::value) return std::make_unique<P>(q.n, s.ht); else return std::make_unique<P>(q.n, q.m, s.ht); }; auto p = make(), r = make(); p->setOptions(s.o); r->setOptions(s.o); Args& a = s.a; int steps = c.range(1, 5); std::string log; bool moved = false;
    for (int k = 0; k < steps; k++) {
        QP was = q; if (k) { int kind = c.weighted({5, 2, 1, 1}); next(c, q, s, kind); if (kind == 0 && c.raw(3) == 0) genVectors(c, q, VecOpt()); } QP t = q; int how = (int)c.raw(4); auto sp = [&](double v) { if (fabs(v) < INF) return v; double f = how < 2 ? (how ? HUGE_VAL : 1e4 * INF) : c.pick(std::vector<double>{s.o.enableFarBounds ? INF : 3 * INF, HUGE_VAL, 1e4 * INF, 1e300}); return v > 0 ? f : -f; }; for (auto* v : {&t.lb, &t.ub, &t.lbA, &t.ubA}) for (auto& e : *v) e = sp(e);
        QP b = q; if (!s.o.enableFarBounds) for (auto* v : {&b.lb, &b.ub, &b.lbA, &b.ubA}) for (auto& e : *v) if (fabs(e) >= INF) e *= 2;   // (without far bounds exactly 1e20 counts as a bound that may be ramped)
        auto differ = [&](const Vec& x, const Vec& y) { bool d = false; for (size_t i = 0; i < x.size(); i++) d |= (fabs(x[i]) < INF) != (fabs(y[i]) < INF); return d; }; if (k) moved |= differ(was.lb, q.lb) || differ(was.ub, q.ub) || differ(was.lbA, q.lbA) || differ(was.ubA, q.ubA);
        int_t w1 = 20 * (q.n + q.m) + 200, w2 = w1; returnValue r1, r2; bool nul = c.raw(3) == 0 && s.o.enableFarBounds; const QP& u = nul ? q : t; if (k == 0) { a.useNull = false; r1 = initP(*p, b, a, w1); a.useNull = nul; r2 = initP(*r, u, a, w2); } else { a.useNull = false; r1 = hotP(*p, b, a, w1); a.useNull = nul; r2 = hotP(*r, u, a, w2); }
        std::ostringstream z; z << (k ? " | hot " : "init ") << (nul ? "NULL" : how == 0 ? "1e24" : how == 1 ? "Inf" : "mixed") << " " << optStr(s.o) << " " << q.show(); log += z.str(); if (c.verbose) c.desc << z.str();
        PBT_CHECK(c, r1 == r2, tag + "-verdict", "return value " << (int)r1 << " with the usual absent sides, " << (int)r2 << " written otherwise\n" << log); PBT_CHECK(c, w1 == w2, tag + "-iterations", w1 << " and " << w2 << " iterations\n" << log); c.label(tag + (r1 == SUCCESSFUL_RETURN ? " solved" : " not solved"));
        Vec x(q.n, 0.0), x2(q.n, 0.0), y(q.n + q.m, 0.0), y2(q.n + q.m, 0.0); p->getPrimalSolution(x.data()); r->getPrimalSolution(x2.data()); p->getDualSolution(y.data()); r->getDualSolution(y2.data()); for (int i = 0; i < q.n; i++) PBT_CHECK(c, eqb(x[i], x2[i]), tag + "-primal", "x " << str(x) << " with the usual absent sides, " << str(x2) << " written otherwise\n" << log); for (int i = 0; i < q.n + q.m; i++) PBT_CHECK(c, eqb(y[i], y2[i]), tag + "-dual", "y " << str(y) << " with the usual absent sides, " << str(y2) << " written otherwise\n" << log);
    }
    c.nontrivial = moved;
}
PBT_PROP(spelling_general, 2) { QP q; Ses s; start(c, q, s, false); spelling<QProblem>(c, q, s, "spelling-general", false); }
PBT_PROP(spelling_varying, 1) { QP q; Ses s; start(c, q, s, false); spelling<SQProblem>(c, q, s, "spelling-varying", false); }
PBT_PROP(spelling_bounds, 1) { QP q; Ses s; start(c, q, s, true); spelling<QProblemB>(c, q, s, "spelling-bounds", true); }
PBT_PROP(solvable, 6) { go(c, 0); }
PBT_PROP(infeasible, 2) { go(c, 1); }
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
