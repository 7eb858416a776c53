// C15: the benchmark interface reports true residuals and results
#include "seq.hpp"
#include <sys/stat.h>
#include <unistd.h>
#include <qpOASES/extras/OQPinterface.hpp>
using namespace qpOASES; using namespace qg;
typedef long double ld;
static std::string dir() { const char* s = getenv("VERIF_SCRATCH"); std::string d = s ? s : "/tmp/exp"; d += "/o" + std::to_string((long)getpid()); mkdir(d.c_str(), 0700); return d + "/"; }
struct Seq { int nQP, n, m, nEC; Vec H, g, A, lb, ub, lA, uA, x, y, obj; std::vector<QP> q; Options o; std::string on; bool deg = false; };
static void genSeq(Ctx& c, Seq& z, bool useB) {
    QP q; Ses s; start(c, q, s, useB); z.on = s.on; z.o = s.o; z.o.printLevel = PL_NONE; z.deg = s.deg; z.n = q.n; z.m = q.m; z.nQP = c.range(1, 4); z.nEC = 0; int n = q.n;
    z.H.assign(n * n, 0.0); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) z.H[i * n + j] = q.h(i, j); z.A = q.A;
    for (int k = 0; k < z.nQP; k++) { if (k) next(c, q, s, c.weighted({3, 3, 1, 1})); z.q.push_back(q); auto app = [](Vec& a, const Vec& b) { a.insert(a.end(), b.begin(), b.end()); }; app(z.g, q.g); app(z.lb, q.lb); app(z.ub, q.ub); app(z.lA, q.lbA); app(z.uA, q.ubA); app(z.x, q.xs); app(z.y, q.ys); z.obj.push_back(q.obj); }
    for (int i = 0; i < z.m; i++) z.nEC += q.lbA[i] == q.ubA[i];
}
struct Out { returnValue r = SUCCESSFUL_RETURN; double maxN = 0, avgN = 0, st = 0, fe = 0, cm = 0; bool unsolved = false, limited = false, vague = false;   // vague: a multiplier at the threshold below which the measure takes it for zero
    int solved = 0; };
static void up(double& a, double b) { if (b > a) a = b; }
// the same work done directly with solver objects, residuals from the definition
static Out direct(Ctx& c, Seq& z, bool sparse, bool hot, bool useB, int_t lim) {
    Out o; int n = z.n, m = z.m; std::unique_ptr<SymmetricMatrix> H; std::unique_ptr<Matrix> A; Vec Hc = z.H, Ac = z.A; Ac.resize(std::max((size_t)1, Ac.size()));
    if (sparse) { auto* S = new SymSparseMat(n, n, n, Hc.data()); S->createDiagInfo(); H.reset(S); if (m || !useB) A.reset(new SparseMatrixRow(m, n, n, Ac.data())); } else { H.reset(new SymDenseMat(n, n, n, Hc.data())); A.reset(new DenseMatrix(m, n, n, Ac.data())); }
    std::unique_ptr<QProblemB> b; std::unique_ptr<QProblem> p; if (useB) { b.reset(new QProblemB(n)); b->setOptions(z.o); } else { p.reset(new QProblem(n, m)); p->setOptions(z.o); }
    double sum = 0;
    for (int k = 0; k < z.nQP; k++) {
        int_t w = lim; real_t t = 1e6; const double *g = &z.g[k * n], *lb = &z.lb[k * n], *ub = &z.ub[k * n], *la = m ? &z.lA[k * m] : nullptr, *ua = m ? &z.uA[k * m] : nullptr; returnValue r;
        if (k == 0 || !hot) r = useB ? b->init(H.get(), g, lb, ub, w, &t) : p->init(H.get(), g, A.get(), lb, ub, la, ua, w, &t); else r = useB ? b->hotstart(g, lb, ub, w, &t) : p->hotstart(g, lb, ub, la, ua, w, &t);
        if (r != SUCCESSFUL_RETURN && r != RET_MAX_NWSR_REACHED) { o.r = r; return o; }
        up(o.maxN, (double)w); sum += (double)w; Vec x(n), y(n + m); returnValue rx, ry; if (useB) { rx = b->getPrimalSolution(x.data()); ry = b->getDualSolution(y.data()); } else { rx = p->getPrimalSolution(x.data()); ry = p->getDualSolution(y.data()); }
        if (r != SUCCESSFUL_RETURN) o.limited = true; if (rx != SUCCESSFUL_RETURN || ry != SUCCESSFUL_RETURN) { o.unsolved = true; continue; } o.solved++;
        Kkt q = kkt(z.q[k], x.data(), y.data()); up(o.st, (double)q.stat); up(o.fe, (double)q.feas); (void)c;
        double cm = 0; for (int i = 0; i < n + m; i++) { ld v = 0; if (i < n) v = x[i]; else for (int j = 0; j < n; j++) v += (ld)z.A[(i - n) * n + j] * x[j]; double L = i < n ? lb[i] : la[i - n], U = i < n ? ub[i] : ua[i - n]; double ya = fabs(y[i]); if (ya > 1e-13 && ya < 5e-13) o.vague = true; if (ya <= 2.3e-13) continue; ld d = y[i] > 0 ? v - L : v - U; if (ya < 1e-9 && fabsl(d) >= 1e19) o.vague = true; up(cm, (double)fabsl(d * y[i])); } up(o.cm, cm);
    }
    o.avgN = sum / z.nQP; return o;
}
struct Got { returnValue r; real_t maxN = -7, avgN = -7, maxT = 1e6, avgT = -7, st = -7, fe = -7, cm = -7; int_t w = 0; };
static void judgeOut(Ctx& c, const Seq& z, const Out& d, const Got& g, bool shortForm, bool limited, const std::string& tag) {
    std::ostringstream o; for (auto& q : z.q) o << q.show() << "\n"; double sc = 1; for (auto& q : z.q) sc = std::max(sc, dataScale(q, q.xs.data(), q.ys.data()) * (1 + normInf(q.xs)));
    PBT_CHECK(c, g.r == d.r, tag + "-return", "returned " << (int)g.r << ", solving directly gave " << (int)d.r << "\n" << o.str()); if (d.r != SUCCESSFUL_RETURN) { PBT_CHECK(c, limited || z.on == "mpc", tag + "-failed", "well-posed data set failed with " << (int)d.r << "\n" << o.str()); return; }
    if (shortForm) PBT_CHECK(c, g.w == (int_t)d.maxN, tag + "-iterations", "maximum " << g.w << " iterations, really " << d.maxN << "\n" << o.str());
    else { PBT_CHECK(c, g.maxN == d.maxN, tag + "-iterations", "maximum " << g.maxN << " iterations, really " << d.maxN << "\n" << o.str()); PBT_CHECK(c, fabs(g.avgN - d.avgN) <= 1e-9 * (1 + d.avgN), tag + "-average", "average " << g.avgN << " iterations, really " << d.avgN); PBT_CHECK(c, g.avgT >= 0 && g.avgT <= g.maxT * (1 + 1e-9), tag + "-time", "average time " << g.avgT << " maximum " << g.maxT); }
    PBT_CHECK(c, g.maxT >= 0, tag + "-time", "maximum time " << g.maxT);
    if (d.unsolved) { PBT_CHECK(c, g.st > 1e-3 * sc || g.fe > 1e-3 * sc || g.cm > 1e-3 * sc, tag + "-claims", "problems without a solution, but residuals " << g.st << " " << g.fe << " " << g.cm << "\n" << o.str()); return; }
    PBT_CHECK(c, fabs(g.st - d.st) <= 1e-11 * sc, tag + "-stationarity", "stationarity " << g.st << ", really " << d.st << "\n" << o.str()); PBT_CHECK(c, fabs(g.fe - d.fe) <= 1e-11 * sc, tag + "-feasibility", "feasibility " << g.fe << ", really " << d.fe << "\n" << o.str()); if (!d.vague) PBT_CHECK(c, fabs(g.cm - d.cm) <= 1e-10 * sc + 1e-12 * d.cm, tag + "-complementarity", "complementarity " << g.cm << ", really " << d.cm << "\n" << o.str());
    if (d.limited) return; double tol = tolOf(z.o) * 10; PBT_CHECK(c, g.st <= tol * sc && g.fe <= tol * sc && (d.vague || g.cm <= tol * sc), tag + "-accuracy", "residuals " << g.st << " " << g.fe << " " << g.cm << "\n" << o.str());
}
static void solve(Ctx& c, bool useB) {
    Seq z; genSeq(c, z, useB); bool sparse = c.flag(), hot = c.flag(), shortForm = c.raw(3) == 0, limited = c.raw(6) == 0; if (shortForm) hot = true; int_t lim = limited ? (int_t)c.raw(5) : 20 * (z.n + z.m) + 200;
    if (c.verbose) { c.desc << (useB ? "bounds " : "general ") << z.on << (sparse ? " sparse" : " dense") << (hot ? " hot" : " cold") << " limit " << lim << " "; for (auto& q : z.q) c.desc << q.show() << " | "; }
    Out d = direct(c, z, sparse, hot, useB, lim); Got g; Vec H0 = z.H, A0 = z.A, g0 = z.g; BooleanType S = sparse ? BT_TRUE : BT_FALSE, T = hot ? BT_TRUE : BT_FALSE; g.w = lim; const double *A = z.m ? z.A.data() : nullptr, *la = z.m ? z.lA.data() : nullptr, *ua = z.m ? z.uA.data() : nullptr;
    if (useB) g.r = shortForm ? solveOqpBenchmark(z.nQP, z.n, z.H.data(), z.g.data(), z.lb.data(), z.ub.data(), S, z.o, g.w, g.maxT, g.st, g.fe, g.cm) : solveOqpBenchmark(z.nQP, z.n, z.H.data(), z.g.data(), z.lb.data(), z.ub.data(), S, T, z.o, lim, g.maxN, g.avgN, g.maxT, g.avgT, g.st, g.fe, g.cm);
    else g.r = shortForm ? solveOqpBenchmark(z.nQP, z.n, z.m, z.nEC, z.H.data(), z.g.data(), A, z.lb.data(), z.ub.data(), la, ua, S, z.o, g.w, g.maxT, g.st, g.fe, g.cm) : solveOqpBenchmark(z.nQP, z.n, z.m, z.nEC, z.H.data(), z.g.data(), A, z.lb.data(), z.ub.data(), la, ua, S, T, z.o, lim, g.maxN, g.avgN, g.maxT, g.avgT, g.st, g.fe, g.cm);
    PBT_CHECK(c, H0 == z.H && A0 == z.A && g0 == z.g, "data-changed", "caller's data changed"); judgeOut(c, z, d, g, shortForm, limited, useB ? "bounds" : "general"); c.nontrivial = d.maxN > 0 && z.nQP > 1; c.label(std::string(useB ? "bounds" : "general") + (hot ? " hot" : " cold") + (d.unsolved ? " limited" : d.r ? " failed" : " solved"));
}
PBT_PROP(general, 3) { solve(c, false); }
PBT_PROP(bounds, 2) { solve(c, true); }
// an infeasible member of the set is reported and not averaged away
PBT_PROP(infeasible, 1) {
    Seq z; bool useB = c.flag(); genSeq(c, z, useB); int k = (int)c.raw(z.nQP), i = (int)c.raw(z.n); z.lb[k * z.n + i] = 1; z.ub[k * z.n + i] = 0; bool hot = c.flag(); Got g; int_t lim = 1000; if (c.verbose) c.desc << "infeasible member " << k << " of " << z.nQP;
    if (useB) g.r = solveOqpBenchmark(z.nQP, z.n, z.H.data(), z.g.data(), z.lb.data(), z.ub.data(), BT_FALSE, hot ? BT_TRUE : BT_FALSE, z.o, lim, g.maxN, g.avgN, g.maxT, g.avgT, g.st, g.fe, g.cm);
    else g.r = solveOqpBenchmark(z.nQP, z.n, z.m, z.nEC, z.H.data(), z.g.data(), z.A.data(), z.lb.data(), z.ub.data(), z.lA.data(), z.uA.data(), BT_FALSE, hot ? BT_TRUE : BT_FALSE, z.o, lim, g.maxN, g.avgN, g.maxT, g.avgT, g.st, g.fe, g.cm);
    PBT_CHECK(c, g.r != SUCCESSFUL_RETURN, "infeasible-success", "data set with an infeasible problem gave success"); c.nontrivial = true; c.label("infeasible member");
}
static void put(const std::string& f, const Vec& d, int cols, int fault, int k) { unlink(f.c_str()); if (fault == 1) return; FILE* o = fopen(f.c_str(), "w"); if (!o) throw pbt::Discard(); if (fault != 2) for (size_t i = 0; i < d.size(); i++) { if ((int)i == k && fault == 3) break; if ((int)i == k && fault == 4) { fprintf(o, "? "); continue; } fprintf(o, "%.17g%s", d[i], (int)(i + 1) % cols ? " " : "\n"); } fclose(o); }
PBT_PROP(files, 4) {
    Seq z; bool useB = c.flag(); genSeq(c, z, useB); std::string d = dir(); int n = z.n, m = z.m, fault = c.raw(3) ? 0 : 1 + (int)c.raw(4), which = fault ? (int)c.raw(m ? 8 : 5) : -1, pos = (int)c.raw(512); bool wx = c.raw(3) != 0, wy = c.raw(3) != 0, wo = c.raw(3) != 0; int optF = fault ? 0 : (int)c.raw(6);   // optF 1..3: one of the optional files is faulty
    std::string nm[] = {"dims", "H", "g", "lb", "ub", "A", "lbA", "ubA"}; Vec dims = {(double)z.nQP, (double)n, (double)m, (double)z.nEC}; bool badDims = c.raw(8) == 0 && !fault; if (badDims) { int k = (int)c.raw(4); dims[k] = k < 2 && c.flag() ? 0 : -1 - (double)c.raw(3); } const Vec* v[] = {&dims, &z.H, &z.g, &z.lb, &z.ub, &z.A, &z.lA, &z.uA}; int cols[] = {1, n, n, n, n, n, std::max(m, 1), std::max(m, 1)};
    for (int i = 0; i < (m ? 8 : 5); i++) put(d + nm[i] + ".oqp", *v[i], cols[i], which == i ? fault : 0, v[i]->empty() ? 0 : pos % (int)v[i]->size());
    int of = 1 + (int)c.raw(3); put(d + "x_opt.oqp", z.x, n, optF == 1 ? of : 0, 0); put(d + "y_opt.oqp", z.y, n + m, optF == 2 ? of : 0, 0); put(d + "obj_opt.oqp", z.obj, 1, optF == 3 ? of : 0, 0);
    if (c.verbose) { c.desc << "files fault " << fault << " in " << (which < 0 ? "-" : nm[which]) << " pos " << pos << " bad dims " << badDims << " optional " << optF << " " << of << " "; for (auto& q : z.q) c.desc << q.show() << " | "; }
    int_t a = -9, b = -9, e = -9, f = -9; returnValue r = readOqpDimensions(d.c_str(), a, b, e, f); bool dimFault = (which == 0) || badDims; PBT_CHECK(c, (r == SUCCESSFUL_RETURN) == !dimFault, "dimensions", "readOqpDimensions returned " << (int)r << " fault " << fault); if (!dimFault) PBT_CHECK(c, a == z.nQP && b == n && e == m && f == z.nEC, "dimensions-values", a << " " << b << " " << e << " " << f);
    real_t *H = 0, *g = 0, *A = 0, *lb = 0, *ub = 0, *la = 0, *ua = 0, *x = 0, *y = 0, *ob = 0; bool nul = !m && c.flag(); r = readOqpData(d.c_str(), a, b, e, f, &H, &g, nul ? 0 : &A, &lb, &ub, nul ? 0 : &la, nul ? 0 : &ua, wx ? &x : 0, wy ? &y : 0, wo ? &ob : 0);
    bool bad = fault || badDims || (optF == 1 && wx) || (optF == 2 && wy) || (optF == 3 && wo); PBT_CHECK(c, (r == SUCCESSFUL_RETURN) == !bad, "data-return", "readOqpData returned " << (int)r << " with fault " << fault << " optional fault " << optF);
    if (!bad) {
        auto eq = [&](const real_t* p, const Vec& w, const char* what) { PBT_CHECK(c, p || w.empty(), "data-missing", what << " not delivered"); for (size_t i = 0; i < w.size(); i++) PBT_CHECK(c, eqb(p[i], w[i]), "data-value", what << "[" << i << "] read as " << p[i] << ", written " << w[i]); };
        eq(H, z.H, "H"); eq(g, z.g, "g"); eq(lb, z.lb, "lb"); eq(ub, z.ub, "ub"); if (m) { eq(A, z.A, "A"); eq(la, z.lA, "lbA"); eq(ua, z.uA, "ubA"); } if (wx) eq(x, z.x, "x"); if (wy) eq(y, z.y, "y"); if (wo) eq(ob, z.obj, "obj");
        delete[] H; delete[] g; delete[] lb; delete[] ub; delete[] x; delete[] y; delete[] ob; if (m) { delete[] A; delete[] la; delete[] ua; } else PBT_CHECK(c, !A && !la && !ua, "data-extra", "constraint data without constraints");
    }
    bool sparse = c.flag(), hot = c.flag(), shortForm = c.raw(3) == 0; if (shortForm) hot = true; BooleanType S = sparse ? BT_TRUE : BT_FALSE, T = hot ? BT_TRUE : BT_FALSE; int_t lim = 20 * (n + m) + 200; Got G; G.w = lim;
    G.r = shortForm ? runOqpBenchmark(d.c_str(), S, z.o, G.w, G.maxT, G.st, G.fe, G.cm) : runOqpBenchmark(d.c_str(), S, T, z.o, lim, G.maxN, G.avgN, G.maxT, G.avgT, G.st, G.fe, G.cm);
    for (auto& s : nm) unlink((d + s + ".oqp").c_str()); for (const char* s : {"x_opt", "y_opt", "obj_opt"}) unlink((d + s + ".oqp").c_str());
    if (fault || badDims) { PBT_CHECK(c, G.r != SUCCESSFUL_RETURN, "run-fault", "benchmark with faulty files gave success"); c.nontrivial = true; c.label("faulty files"); return; }
    Out D = direct(c, z, sparse, hot, m == 0, lim); judgeOut(c, z, D, G, shortForm, false, "run"); c.nontrivial = D.maxN > 0; c.label(std::string("run ") + (m ? "general" : "bounds") + (D.r ? " failed" : " solved"));
}
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
