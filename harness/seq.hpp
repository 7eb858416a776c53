// Sequences of related problems with planted answers, shared by the hot-start checks.
#pragma once
#include "solve.hpp"
namespace qg {
using namespace qpOASES;
struct Ses { std::string on; Options o; Args a; HessianType ht = HST_UNKNOWN; bool deg = false; };
// degenerate problems are exactly representable ones; the MPC preset has no degeneracy handling and gets problems in general position
inline void start(Ctx& c, QP& q, Ses& s, bool useB) {
    s.o = genPreset(c, &s.on); bool mpc = s.on == "mpc";
    q.generic = mpc || c.raw(3) != 0; Shape sh; if (useB) sh.mMax = 0; genSize(c, q, sh); genH(c, q); genA(c, q);
    s.deg = !mpc && !q.generic && c.flag();
    VecOpt vo; vo.degenerate = s.deg; genVectors(c, q, vo);
    s.a.useNull = c.flag(); s.a.set(q, genRep(c), c.raw(3) == 0); s.ht = s.a.H.empty() ? hessType(c, q) : HST_UNKNOWN;
}
// the next problem: everything new, small changes, only some vectors, or the same again
static const char* KIND[] = {"new", "near", "gradient", "same"};
inline void next(Ctx& c, QP& q, const Ses& s, int kind) {
    VecOpt vo; vo.degenerate = s.deg;
    if (kind == 0) { genVectors(c, q, vo); return; }
    if (kind == 3) return;
    int n = q.n, m = q.m; double mv = kind == 1 ? 0.0625 : 1;
    // moving the planted point and multipliers keeps the active set and its strictness
    Vec dx(n, 0.0); for (auto& v : dx) v = q.generic ? c.real(1) * mv : c.sint(1); if (kind == 2) dx.assign(n, 0.0);
    Vec dA(m, 0.0); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) dA[i] += q.A[(size_t)i * n + j] * dx[j];
    for (int i = 0; i < n; i++) { q.xs[i] += dx[i]; }
    for (int i = 0; i < n + m; i++) {
        double& l = i < n ? q.lb[i] : q.lbA[i - n]; double& u = i < n ? q.ub[i] : q.ubA[i - n];
        long double v = 0; if (i < n) v = q.xs[i]; else for (int j = 0; j < n; j++) v += (long double)q.A[(size_t)(i - n) * n + j] * q.xs[j];
        double d = i < n ? dx[i] : dA[i - n]; bool eq = l == u;
        if (q.ys[i] > 0 || eq) l = (double)v; else if (l > -INF) l += d;
        if (q.ys[i] < 0 || eq) u = (double)v; else if (u < INF) u += d;
        if (!eq && q.ys[i] == 0) { if (l > v) l = (double)v; if (u < v) u = (double)v; }
        if (q.ys[i] != 0) q.ys[i] = (q.ys[i] > 0 ? 1 : -1) * posval(c, q.generic, 3);
    }
    for (int i = 0; i < n; i++) { long double t = q.ys[i]; for (int j = 0; j < m; j++) t += (long double)q.A[(size_t)j * n + i] * q.ys[n + j]; for (int j = 0; j < n; j++) t -= (long double)q.h(i, j) * q.xs[j]; q.g[i] = (double)t; }
    q.obj = q.objective(q.xs.data());
}
inline void judge(Ctx& c, const QP& q, const Ses& s, const Sol& z, const std::string& tag, double dualFactor = 1) {
    double tol = tolOf(s.o); checkX(c, q, z, tag, s.deg ? 100 * tol : tol); checkKkt(c, q, z, tag, tol);
    PBT_CHECK(c, fabs(z.obj - q.obj) <= (s.deg ? 100 : 1) * tol * q.objScale(q.xs.data()) * 10, tag + "-objective", "objective " << z.obj << " planted " << q.obj << "\n" << q.show());
    if (!s.deg) checkY(c, q, z, tag, dualFactor * tol);
}
} // namespace qg
