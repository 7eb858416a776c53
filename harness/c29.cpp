// C29: solving for the current active set gives its equality solution
#include "seq.hpp"
#include "query.hpp"
using namespace qpOASES; using namespace qg;
static void body(Ctx& c, bool varying) {
    QP q; Ses s; start(c, q, s, false); if (c.raw(3) == 0) { s.o.numRefinementSteps = (int_t)c.raw(4); s.o.epsIterRef = c.flag() ? 1e-12 : 1e-15; } int n = q.n, m = q.m, lim = 10 * (n + m) + 100; std::unique_ptr<QProblem> p(varying ? new SQProblem(n, m, s.ht) : new QProblem(n, m, s.ht)); p->setOptions(s.o); if (c.verbose) c.desc << (varying ? "varying " : "general ") << REPN[s.a.rep] << " " << s.on;
    std::vector<Args> keep; keep.reserve(10); keep.push_back(std::move(s.a)); int len = c.range(0, 3); bool any = false;
    for (int k = 0; k <= len; k++) {
        bool mat = false; if (k) { if (varying && !s.deg && c.raw(3) == 0) { if (q.hk == HK_DENSE) genH(c, q, false); genA(c, q); VecOpt vo; genVectors(c, q, vo); Args a; a.useNull = keep[0].useNull; a.set(q, (int)c.raw(4), q.hk != HK_DENSE && keep[0].hp()); keep.push_back(std::move(a)); mat = true; } else next(c, q, s, c.weighted({4, 3, 2, 1})); }
        int_t w = lim; const Args& A = keep.back(); returnValue r = k == 0 ? initP(*p, q, A, w) : mat ? hotM(*dynamic_cast<SQProblem*>(p.get()), q, A, w) : hotP(*p, q, A, w); if (c.verbose) c.desc << " | " << (k == 0 ? "cold " : mat ? "matrices " : "hot ") << q.show() << " -> r=" << (int)r << " nWSR=" << w;
        if (r != SUCCESSFUL_RETURN) { if (s.on == "mpc") throw pbt::Discard(); PBT_FAIL(c, "solve", "well-posed problem returned " << (int)r << "\n" << q.show()); }
        Bounds b; Constraints cc; p->getBounds(b); p->getConstraints(cc); int nAct = 0; for (int i = 0; i < n + m; i++) nAct += (i < n ? b.getStatus(i) : cc.getStatus(i - n)) != ST_INACTIVE;
        std::string before = snapshot(*p, n, m); int reps = c.range(1, 2);
        for (int e = 0; e < reps; e++) {
            int R = c.range(1, 3); Vec g((size_t)R * n), l((size_t)R * n), u((size_t)R * n), lA((size_t)R * m + 1), uA((size_t)R * m + 1); for (Vec* v : {&g, &l, &u, &lA, &uA}) for (auto& t : *v) t = q.generic ? c.real(3) : c.sint(4);
            bool own = c.raw(4) == 0; if (own) for (int r2 = 0; r2 < R; r2++) for (int i = 0; i < n; i++) { g[(size_t)r2 * n + i] = q.g[i]; }
            // sides that cannot matter may be anything
            auto st = [&](int i) { return i < n ? b.getStatus(i) : cc.getStatus(i - n); }; if (c.flag()) for (int r2 = 0; r2 < R; r2++) for (int i = 0; i < n + m; i++) { double& x = i < n ? l[(size_t)r2 * n + i] : lA[(size_t)r2 * m + i - n]; double& y = i < n ? u[(size_t)r2 * n + i] : uA[(size_t)r2 * m + i - n]; if (st(i) != ST_LOWER) x = -INF; if (st(i) != ST_UPPER) y = INF; }
            bool need[4] = {false, false, false, false}; for (int i = 0; i < n; i++) { need[0] |= st(i) == ST_LOWER; need[1] |= st(i) == ST_UPPER; } for (int i = 0; i < m; i++) { need[2] |= st(n + i) == ST_LOWER; need[3] |= st(n + i) == ST_UPPER; } bool omit[4], bad = false; for (int i = 0; i < 4; i++) { omit[i] = c.raw(need[i] ? 12 : 3) == 0; bad |= omit[i] && need[i]; } bool noG = c.raw(24) == 0, noX = c.raw(24) == 0;
            Vec x((size_t)R * n + 2, 77.5), y((size_t)R * (n + m) + 2, 77.5), kg = g, kl = l, ku = u, kA = lA, kU = uA;
            r = p->solveCurrentEQP(R, noG ? nullptr : g.data(), omit[0] ? nullptr : l.data(), omit[1] ? nullptr : u.data(), omit[2] ? nullptr : lA.data(), omit[3] ? nullptr : uA.data(), noX ? nullptr : x.data() + 1, y.data() + 1);
            std::ostringstream d; d << "right-hand sides " << R << " g=" << str(g) << " lb=" << (omit[0] ? "none" : str(l)) << " ub=" << (omit[1] ? "none" : str(u)) << " lbA=" << (omit[2] ? "none" : str(lA)) << " ubA=" << (omit[3] ? "none" : str(uA)) << " -> r=" << (int)r << " x=" << str(x) << " y=" << str(y) << "\nworking set "; for (int i = 0; i < n + m; i++) d << "LIU"[(int)st(i) + 1]; d << "\n" << q.show();
            PBT_CHECK(c, snapshot(*p, n, m) == before, "state", "the object changed\n" << before << "\n" << snapshot(*p, n, m) << "\n" << d.str()); PBT_CHECK(c, kg == g && kl == l && ku == u && kA == lA && kU == uA, "inputs", "an argument was modified\n" << d.str());
            PBT_CHECK(c, x[0] == 77.5 && x.back() == 77.5 && y[0] == 77.5 && y.back() == 77.5, "outputs", "written outside the output arrays\n" << d.str());
            if (noG || noX || bad) { PBT_CHECK(c, r != SUCCESSFUL_RETURN, "accepted", "success although an argument is missing\n" << d.str()); c.label("missing argument"); continue; }
            PBT_CHECK(c, r == SUCCESSFUL_RETURN, "failed", "solveCurrentEQP failed\n" << d.str());
            for (int z = 0; z < R; z++) {
                const double *X = &x[1 + (size_t)z * n], *Y = &y[1 + (size_t)z * (n + m)], *G = &g[(size_t)z * n], *LA = lA.data() + (size_t)z * m, *UA = uA.data() + (size_t)z * m; double sc = 1; for (int i = 0; i < n; i++) sc = std::max(sc, std::max(fabs(X[i]), fabs(G[i]))); for (int i = 0; i < n + m; i++) sc = std::max(sc, fabs(Y[i])); double hs = 1; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) hs = std::max(hs, fabs(q.h(i, j))); for (double v : q.A) hs = std::max(hs, fabs(v));
                for (int i = 0; i < n + m; i++) { double v = 0; if (i < n) v = X[i]; else { long double t = 0; for (int j = 0; j < n; j++) t += (long double)q.A[(size_t)(i - n) * n + j] * X[j]; v = (double)t; } SubjectToStatus t = st(i);
                    if (t == ST_INACTIVE) PBT_CHECK(c, Y[i] == 0, "inactive", "inactive member " << i << " has multiplier " << Y[i] << "\n" << d.str());
                    else { double want = i < n ? (t == ST_LOWER ? l : u)[(size_t)z * n + i] : (t == ST_LOWER ? LA : UA)[i - n]; PBT_CHECK(c, fabs(v - want) <= (i < n ? 1e-12 : 1e-7) * sc * hs, "held", "member " << i << " is " << v << " instead of " << want << " in right-hand side " << z << "\n" << d.str()); } }
                for (int i = 0; i < n; i++) { long double t = (long double)G[i] - Y[i]; for (int j = 0; j < n; j++) t += (long double)q.h(i, j) * X[j]; for (int j = 0; j < m; j++) t -= (long double)q.A[(size_t)j * n + i] * Y[n + j]; PBT_CHECK(c, fabsl(t) <= 1e-7 * sc * hs, "stationarity", "stationarity residual " << (double)t << " in component " << i << " of right-hand side " << z << "\n" << d.str()); }
            }
            if (nAct > 0) any = true; c.label(std::string(nAct == 0 ? "nothing active" : nAct >= n ? "vertex" : "between") + (R > 1 ? ", several" : ""));
        }
    }
    c.nontrivial = any;
}
PBT_PROP(general, 2) { body(c, false); }
PBT_PROP(varying, 2) { body(c, true); }
PBT_PROP(unsolved, 1) {
    QP q; Ses s; start(c, q, s, false); int n = q.n, m = q.m; std::unique_ptr<QProblem> p(c.flag() ? new SQProblem(n, m, s.ht) : new QProblem(n, m, s.ht)); p->setOptions(s.o); int k = (int)c.raw(3); int_t w = 100 * (n + m) + 100; if (c.verbose) c.desc << "unsolved " << k << " " << q.show();
    if (k == 1) { initP(*p, q, s.a, w); p->reset(); } if (k == 2) { QP t = q; t.lb[0] = 2; t.ub[0] = 1; if (initP(*p, t, s.a, w) == SUCCESSFUL_RETURN) PBT_FAIL(c, "verdict", "inconsistent bounds solved"); }
    Vec x(n + 1, 77.5), y(n + m + 1, 77.5); returnValue r = p->solveCurrentEQP(1, q.g.data(), q.lb.data(), q.ub.data(), q.lbA.data(), q.ubA.data(), x.data(), y.data()); PBT_CHECK(c, r != SUCCESSFUL_RETURN, "unsolved", "an unsolved object gave an equality solution " << str(x)); c.label("unsolved"); c.nontrivial = k > 0;
}
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
