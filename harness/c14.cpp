// C14: problem data read from files equals data in memory
#include "seq.hpp"
#include "query.hpp"
#include <map>
#include <sys/stat.h>
#include <unistd.h>
using namespace qpOASES; using namespace qg;
static std::string dir() { const char* s = getenv("VERIF_SCRATCH"); std::string d = s ? s : "/tmp/exp"; d += "/f" + std::to_string((long)getpid()); mkdir(d.c_str(), 0700); return d + "/"; }
// own writer: n entries in a random layout; fault 0 none, 1 missing, 2 empty, 3 truncated before entry k, 4 text instead of entry k
static void put(Ctx& c, const std::string& f, const double* d, int rows, int cols, int lay, int fault = 0, int k = 0) {
    unlink(f.c_str()); if (fault == 1) return; FILE* o = fopen(f.c_str(), "w"); if (!o) throw pbt::Discard(); if (fault == 2) { if (lay & 1) fprintf(o, " \n"); fclose(o); return; }
    for (int i = 0; i < rows * cols; i++) { if (i == k && fault == 3) break; if (i == k && fault == 4) { fprintf(o, "%s ", lay & 1 ? "x" : "--"); continue; }
        fprintf(o, lay == 3 ? "%+.17e" : "%.17g", d[i]); fprintf(o, "%s", lay == 0 ? ((i + 1) % cols ? " " : "\n") : lay == 1 ? "\n" : lay == 2 ? "\t" : ((i + 1) % cols ? "  " : " \r\n")); }
    fclose(o);
}
struct Set { std::string H, g, A, lb, ub, lA, uA, R; };
static const char* fn(const std::string& s) { return s.empty() ? nullptr : s.c_str(); }
// which sides are absent by design; the twin gets a null pointer
struct Abs { bool l = false, u = false, la = false, ua = false; };
static Abs genAbs(Ctx& c, QP& q) {
    auto none = [](const Vec& v) { for (double d : v) if (fabs(d) < INF) return false; return true; };
    Abs a; a.l = none(q.lb) && c.flag(); a.u = none(q.ub) && c.flag(); a.la = q.m && none(q.lbA) && c.flag(); a.ua = q.m && none(q.ubA) && c.flag(); return a;
}
// drop whole sides now and then so that absent files occur
static void dropSides(Ctx& c, QP& q) {
    auto drop = [&](Vec& v, const Vec& o, int off, double inf, int sgn) { if (c.raw(4)) return; for (size_t i = 0; i < v.size(); i++) if (q.ys[off + i] * sgn > 0 || v[i] == o[i]) return; for (auto& t : v) t = inf; };
    drop(q.lb, q.ub, 0, -INF, 1); drop(q.ub, q.lb, 0, INF, -1); drop(q.lbA, q.ubA, q.n, -INF, 1); drop(q.ubA, q.lbA, q.n, INF, -1);
}
static const double* pt(const Vec& v, bool absent) { return absent || v.empty() ? nullptr : v.data(); }
template <class P> static void same(Ctx& c, P& a, P& b, int n, int m, const std::string& tag, const std::string& show) { std::string s = snapshot(a, n, m), t = snapshot(b, n, m); PBT_CHECK(c, s == t, tag, "file: " << s << "\nmemory: " << t << "\n" << show); }
struct Fault { int file = -1, kind = 0, pos = 0; };
// writes the files of a problem; returns their names
static Set files(Ctx& c, const std::string& d, const QP& q, const Vec& H, bool mats, const Abs& a, const Fault& f) {
    Set s; int id = 0, lay = (int)c.raw(4); bool lib = f.file < 0 && c.raw(4) == 0;
    auto one = [&](const char* nm, const double* v, int r, int k) { std::string p = d + nm; if (lib) { PBT_CHECK(c, writeIntoFile(v, (int_t)r, (int_t)k, p.c_str(), BT_FALSE) == SUCCESSFUL_RETURN, "write", "writeIntoFile failed"); } else put(c, p, v, r, k, lay, f.file == id ? f.kind : 0, f.pos % std::max(1, r * k)); id++; return p; };
    int n = q.n, m = q.m; s.g = one("g", q.g.data(), 1, n); if (mats && m) s.A = one("A", q.A.data(), m, n); if (mats && !H.empty()) s.H = one("H", H.data(), n, n); if (!a.l) s.lb = one("lb", q.lb.data(), 1, n); if (!a.u) s.ub = one("ub", q.ub.data(), n, 1);
    if (m && !a.la) s.lA = one("lA", q.lbA.data(), m, 1); if (m && !a.ua) s.uA = one("uA", q.ubA.data(), 1, m); return s;
}
static int nFiles(const QP& q, const Vec& H, bool mats, const Abs& a) { return 1 + (mats && q.m) + (mats && !H.empty()) + !a.l + !a.u + (q.m && !a.la) + (q.m && !a.ua); }
static void scribble(Ctx& c, const std::string& d) { int how = (int)c.raw(3); for (const char* f : {"g", "A", "H", "lb", "ub", "lA", "uA", "R"}) { std::string p = d + f; if (how) unlink(p.c_str()); } }
static void body(Ctx& c, int cls) {
    QP q; Ses s; start(c, q, s, cls == 2); dropSides(c, q); int n = q.n, m = q.m, big = 20 * (n + m) + 200; std::string d = dir(); Vec H = s.a.H;
    std::unique_ptr<QProblemB> P, Q; auto mk = [&](std::unique_ptr<QProblemB>& p) { if (cls == 2) p.reset(new QProblemB(n, s.ht)); else if (cls == 1) p.reset(new SQProblem(n, m, s.ht)); else p.reset(new QProblem(n, m, s.ht)); p->setOptions(s.o); };
    mk(P); mk(Q); QProblem *p = dynamic_cast<QProblem*>(P.get()), *r = dynamic_cast<QProblem*>(Q.get());
    auto cmp = [&](const std::string& tag) { if (cls == 2) same(c, *P, *Q, n, m, tag, q.show()); else same(c, *p, *r, n, m, tag, q.show()); };
    std::vector<std::unique_ptr<Vec>> hold;   // the twin keeps references to the matrices
    Vec curH = H, curA = q.A; bool ok = false; int steps = 1 + (int)c.raw(4); bool hist = false; if (c.verbose) c.desc << (cls == 2 ? "bounds " : cls ? "varying " : "general ") << s.on;
    Vec R; Guess gs; Vec gx, gy; bool useR = false; WsGuess wg;
    if (c.raw(4) == 0 && !H.empty()) { useR = true; R.assign(n * n, 0.0); for (int j = 0; j < n; j++) for (int i = 0; i <= j; i++) { long double t = H[i * n + j]; for (int k = 0; k < i; k++) t -= (long double)R[k * n + i] * R[k * n + j]; if (i == j) { if (!(t > 0)) throw pbt::Discard(); R[i * n + i] = (double)sqrtl(t); } else R[i * n + j] = (double)(t / R[i * n + i]); } }
    else if (c.raw(3) == 0) { gx = q.xs; gy = q.ys; gs.x = gx.data(); if (c.flag()) gs.y = gy.data(); }
    for (int k = 0; k < steps; k++) {
        bool first = k == 0 || (!ok && k) || c.raw(8) == 0, mats = first || (cls == 1 && c.flag()); int kind = 0;
        if (k) { if (mats) { if (c.flag() && !(first && false)) { genA(c, q); if (q.hk == HK_DENSE && c.flag()) { auto t = H; genH(c, q); if (q.hk != HK_DENSE) { q.hk = HK_DENSE; q.H = t; } H = q.H; } } VecOpt vo; genVectors(c, q, vo); } else next(c, q, s, kind = c.weighted({3, 2, 1, 1})); dropSides(c, q); }
        if (first && k) { mk(P); mk(Q); p = dynamic_cast<QProblem*>(P.get()); r = dynamic_cast<QProblem*>(Q.get()); useR = false; gs = Guess(); }
        if (mats && !first && H.empty()) mats = false;   // a file for the Hessian is mandatory there
        Abs a = genAbs(c, q); Fault f; if (c.raw(5) == 0) { f.file = (int)c.raw(nFiles(q, H, mats, a)); f.kind = 1 + (int)c.raw(4); f.pos = (int)c.raw(256); }
        std::unique_ptr<Vec> hh(new Vec(H)), aa(new Vec(m ? q.A : Vec())); const double* hp = H.empty() ? nullptr : hh->data(); const double* ap = m ? aa->data() : nullptr;
        for (int att = f.file >= 0 ? 0 : 1; att < 2; att++) {
            bool bad = att == 0, rf = bad && useR && first && f.pos % 3 == 0; Set z = files(c, d, q, H, mats, a, bad && !rf ? f : Fault()); if (useR && first) { z.R = d + "R"; put(c, z.R, R.data(), n, n, (int)c.raw(4), rf ? f.kind : 0, f.pos / 3 % (n * n)); }
            int_t w = c.raw(6) ? big : (int_t)c.raw(4), w2 = w; returnValue e, e2 = SUCCESSFUL_RETURN; bool cpu = c.raw(4) == 0; real_t t1 = 1e6, t2 = 1e6;
            std::string before = cls == 2 ? snapshot(*P, n, m) : snapshot(*p, n, m);
            if (first) { if (cls == 2) e = P->init(fn(z.H), fn(z.g), fn(z.lb), fn(z.ub), w, cpu ? &t1 : nullptr, gs.x, gs.y, nullptr, fn(z.R)); else e = p->init(fn(z.H), fn(z.g), fn(z.A), fn(z.lb), fn(z.ub), fn(z.lA), fn(z.uA), w, cpu ? &t1 : nullptr, gs.x, gs.y, nullptr, nullptr, fn(z.R)); }
            else if (mats) e = dynamic_cast<SQProblem*>(p)->hotstart(fn(z.H), fn(z.g), fn(z.A), fn(z.lb), fn(z.ub), fn(z.lA), fn(z.uA), w, cpu ? &t1 : nullptr);
            else if (cls == 2) e = P->hotstart(fn(z.g), fn(z.lb), fn(z.ub), w, cpu ? &t1 : nullptr); else e = p->hotstart(fn(z.g), fn(z.lb), fn(z.ub), fn(z.lA), fn(z.uA), w, cpu ? &t1 : nullptr);
            scribble(c, d); std::string at = std::string(first ? "init" : mats ? "matrix hot start" : "hot start");
            if (bad) { hist = true; c.label(std::string("fault: ") + (f.kind == 1 ? "missing" : f.kind == 2 ? "empty" : f.kind == 3 ? "truncated" : "text")); if (c.verbose) c.desc << " | fault " << f.kind << " in file " << f.file << " at " << f.pos << " -> " << (int)e;
                PBT_CHECK(c, e != SUCCESSFUL_RETURN, "fault-success", at << " succeeded with file " << f.file << " fault " << f.kind << " at entry " << f.pos << "\n" << q.show());
                if (first) PBT_CHECK(c, P->isSolved() == BT_FALSE, "fault-solved", "object claims to be solved after a failed initialisation");
                else { std::string after = cls == 2 ? snapshot(*P, n, m) : snapshot(*p, n, m); PBT_CHECK(c, before == after, "fault-changed", "object changed by unreadable data\n" << before << "\n" << after); }
                continue; }
            const double *l = pt(q.lb, a.l), *u = pt(q.ub, a.u), *la = pt(q.lbA, a.la), *ua = pt(q.ubA, a.ua);
            if (first) { const double* Rp = useR ? R.data() : nullptr; if (cls == 2) e2 = Q->init(hp, q.g.data(), l, u, w2, cpu ? &t2 : nullptr, gs.x, gs.y, nullptr, Rp); else e2 = r->init(hp, q.g.data(), ap, l, u, la, ua, w2, cpu ? &t2 : nullptr, gs.x, gs.y, nullptr, nullptr, Rp); }
            else if (mats) e2 = dynamic_cast<SQProblem*>(r)->hotstart(hp, q.g.data(), ap, l, u, la, ua, w2, cpu ? &t2 : nullptr);
            else if (cls == 2) e2 = Q->hotstart(q.g.data(), l, u, w2, cpu ? &t2 : nullptr); else e2 = r->hotstart(q.g.data(), l, u, la, ua, w2, cpu ? &t2 : nullptr);
            if (c.verbose) c.desc << " | " << at << " " << (int)e << " " << (int)e2 << " " << q.show();
            PBT_CHECK(c, e == e2 && w == w2, "return", at << " from file returned " << (int)e << " (" << w << " iterations), from memory " << (int)e2 << " (" << w2 << ")\n" << q.show());
            cmp(at); ok = e == SUCCESSFUL_RETURN; if (ok && w > 0 && (m || !a.l || !a.u)) c.nontrivial = true; c.label(at + (ok ? " solved" : " unsolved"));
            if (useR && ok) c.label("with Cholesky factor");
        }
        hold.push_back(std::move(hh)); hold.push_back(std::move(aa));
    }
    (void)hist; for (const char* f : {"g", "A", "H", "lb", "ub", "lA", "uA", "R"}) unlink((d + f).c_str());
}
PBT_PROP(general, 3) { body(c, 0); }
PBT_PROP(varying, 3) { body(c, 1); }
PBT_PROP(bounds, 2) { body(c, 2); }
PBT_PROP(roundtrip, 2) {
    std::string f = dir() + "v"; unlink(f.c_str()); int r = c.range(1, 5), k = c.range(1, 5); auto any = [&]() { int w = (int)c.raw(8); double v = c.real(1); if (w == 0) return 0.0; if (w == 1) return ldexp(v, (int)c.raw(2000) - 1000); if (w == 2) return 1e20; if (w == 3) return -1e20; if (w == 4) return v * 1e-310; if (w == 5) return (double)c.sint(9); return v; };
    if (c.flag()) {
        Vec a(r * k), b(r * k + 1, 7.0); for (auto& v : a) v = any(); int vec = (int)c.raw(2); returnValue e = vec ? writeIntoFile(a.data(), (int_t)(r * k), f.c_str(), BT_FALSE) : writeIntoFile(a.data(), (int_t)r, (int_t)k, f.c_str(), BT_FALSE); PBT_CHECK(c, e == SUCCESSFUL_RETURN, "real-write", "returned " << (int)e);
        int more = (int)c.raw(3); Vec all = a; for (int t = 0; t < more; t++) { Vec x(k); for (auto& v : x) v = any(); PBT_CHECK(c, writeIntoFile(x.data(), (int_t)1, (int_t)k, f.c_str(), BT_TRUE) == SUCCESSFUL_RETURN, "real-append", "failed"); all.insert(all.end(), x.begin(), x.end()); }
        int n = (int)all.size(); b.assign(n + 3, 7.0); int ask = n + (int)c.raw(3); e = c.flag() ? readFromFile(b.data(), (int_t)ask, f.c_str()) : readFromFile(b.data(), (int_t)1, (int_t)ask, f.c_str()); if (c.verbose) c.desc << "reals " << str(all) << " asked " << ask;
        if (ask > n) { PBT_CHECK(c, e != SUCCESSFUL_RETURN, "real-too-few", "reading " << ask << " of " << n << " numbers returned success"); }
        else { PBT_CHECK(c, e == SUCCESSFUL_RETURN, "real-read", "returned " << (int)e); for (int i = 0; i < n; i++) PBT_CHECK(c, eqb(b[i], all[i]), "real-value", "entry " << i << ": wrote " << all[i] << ", read " << b[i]); }
        for (int i = ask; i < n + 3; i++) PBT_CHECK(c, b[i] == 7.0, "real-overrun", "read past the requested count");
    } else {
        std::vector<int_t> a(r), b(r + 4, 7); for (auto& v : a) { v = (int_t)c.sint(1000); if (c.raw(3) == 0) v = (int_t)c.raw(1ull << 62) * (c.flag() ? 1 : -1) / (c.flag() ? 1 : 1 << 20); }
        PBT_CHECK(c, writeIntoFile(a.data(), (int_t)r, f.c_str(), BT_FALSE) == SUCCESSFUL_RETURN, "int-write", "failed"); std::vector<int_t> all = a; if (c.flag()) { int_t v = c.sint(99); PBT_CHECK(c, writeIntoFile(&v, (int_t)1, f.c_str(), BT_TRUE) == SUCCESSFUL_RETURN, "int-append", "failed"); all.push_back(v); }
        int n = (int)all.size(), ask = n + (int)c.raw(2); returnValue e = readFromFile(b.data(), (int_t)ask, f.c_str());
        if (ask > n) PBT_CHECK(c, e != SUCCESSFUL_RETURN, "int-too-few", "reading " << ask << " of " << n << " numbers returned success"); else { PBT_CHECK(c, e == SUCCESSFUL_RETURN, "int-read", "returned " << (int)e); for (int i = 0; i < n; i++) PBT_CHECK(c, b[i] == all[i], "int-value", "entry " << i << ": wrote " << all[i] << ", read " << b[i]); }
    }
    c.nontrivial = true; unlink(f.c_str()); real_t t[2]; PBT_CHECK(c, readFromFile(t, (int_t)1, f.c_str()) != SUCCESSFUL_RETURN, "missing", "missing file read"); PBT_CHECK(c, writeIntoFile(t, (int_t)1, (dir() + "no/such/dir/f").c_str(), BT_FALSE) != SUCCESSFUL_RETURN, "unwritable", "writing into a missing directory succeeded");
}
// reader for MAT files of level 4: five 32 bit words, name, column-major doubles
struct M4 { int r, k; Vec v; };
static std::map<std::string, M4> readMat(Ctx& c, const std::string& f) {
    std::map<std::string, M4> o; FILE* h = fopen(f.c_str(), "rb"); PBT_CHECK(c, h, "mat-open", "no file"); int32_t w[5];
    while (fread(w, 4, 5, h) == 5) { bool sane = w[0] == 0 && w[1] >= 0 && w[2] >= 0 && w[3] == 0 && w[4] > 1 && w[4] < 64 && (long)w[1] * w[2] < 100000; if (!sane) fclose(h); PBT_CHECK(c, sane, "mat-header", "header " << w[0] << " " << w[1] << " " << w[2] << " " << w[3] << " " << w[4]); char nm[64]; M4 m; m.r = w[1]; m.k = w[2]; m.v.resize((size_t)m.r * m.k + 1); bool ok = fread(nm, 1, w[4], h) == (size_t)w[4] && nm[w[4] - 1] == 0 && fread(m.v.data(), 8, (size_t)m.r * m.k, h) == (size_t)m.r * m.k; if (!ok) fclose(h); PBT_CHECK(c, ok, "mat-truncated", "data end early"); o[nm] = m; }
    bool end = feof(h); long pos = ftell(h); fseek(h, 0, SEEK_END); end = ftell(h) == pos; fclose(h); PBT_CHECK(c, end, "mat-rest", "trailing bytes"); return o;
}
PBT_PROP(matfile, 3) {
    QP q; Ses s; bool sq = c.flag(); start(c, q, s, c.raw(5) == 0); int n = q.n, m = q.m, big = 20 * (n + m) + 200; if (c.raw(4) == 0) { genHpsd(c, q); VecOpt vo; genVectors(c, q, vo); s.a.set(q, s.a.rep, c.raw(3) == 0); s.ht = s.a.H.empty() ? hessType(c, q) : HST_UNKNOWN; s.o.enableRegularisation = BT_TRUE; }
    std::unique_ptr<QProblem> p(sq ? new SQProblem(n, m, s.ht) : new QProblem(n, m, s.ht)); p->setOptions(s.o); int_t w = big; std::string f = dir() + "m.mat"; returnValue e = initP(*p, q, s.a, w); Args a2; bool chg = false;
    int more = (int)c.raw(3); for (int k = 0; k < more && e == SUCCESSFUL_RETURN; k++) { next(c, q, s, c.weighted({3, 2, 1, 1})); w = big; if (sq && !k && c.flag()) { genA(c, q); VecOpt vo; genVectors(c, q, vo); a2.useNull = s.a.useNull; a2.set(q, genRep(c), q.hk != HK_DENSE && s.a.hp()); e = hotM(*dynamic_cast<SQProblem*>(p.get()), q, a2, w); chg = true; } else e = hotP(*p, q, s.a, w); }
    (void)chg; if (c.verbose) c.desc << s.on << " " << REPN[s.a.rep] << " " << q.show(); if (e != SUCCESSFUL_RETURN) { c.label("unsolved"); return; }
    std::string before = snapshot(*p, n, m); returnValue x = p->writeQpDataIntoMatFile(f.c_str()); PBT_CHECK(c, x == SUCCESSFUL_RETURN, "mat-return", "returned " << (int)x); auto mt = readMat(c, f); unlink(f.c_str());
    auto cmp = [&](const char* nm, int r, int k, const Vec& v, double tol) { PBT_CHECK(c, mt.count(nm), "mat-missing", nm << " is not in the file"); const M4& t = mt[nm]; PBT_CHECK(c, t.r == r && t.k == k, "mat-size", nm << " is " << t.r << "x" << t.k); for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) { double a = t.v[(size_t)j * r + i], b = v[(size_t)i * k + j]; bool fine = fabs(b) >= INF ? (fabs(a) >= 1e5 && a * b > 0)   /* an auxiliary far bound may stand for no side */ : fabs(a - b) <= tol * (1 + fabs(b)); PBT_CHECK(c, fine, std::string("mat-") + nm, nm << "(" << i << "," << j << ") is " << a << ", given " << b << "\n" << q.show()); } };
    Vec H(n * n); double hs = 1; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { H[i * n + j] = q.h(i, j); hs = std::max(hs, fabs(H[i * n + j])); }
    double tol = 1e-9 + 200 * s.o.terminationTolerance; cmp("H", n, n, H, 1e-13 * hs); if (m) { cmp("A", m, n, q.A, 0); cmp("lbA", m, 1, q.lbA, tol); cmp("ubA", m, 1, q.ubA, tol); } cmp("g", n, 1, q.g, tol * hs); cmp("lb", n, 1, q.lb, tol); cmp("ub", n, 1, q.ub, tol);
    x = p->writeQpWorkspaceIntoMatFile(f.c_str()); PBT_CHECK(c, x == SUCCESSFUL_RETURN, "workspace-return", "returned " << (int)x); PBT_CHECK(c, before == snapshot(*p, n, m), "mat-changed", "export changed the object"); mt = readMat(c, f); unlink(f.c_str());
    Vec xs(n), wb(n), wc(m + 1); p->getPrimalSolution(xs.data()); p->getWorkingSetBounds(wb.data()); p->getWorkingSetConstraints(wc.data());
    auto setOf = [&](const char* nm, const Vec& wset, int cnt, bool act) { PBT_CHECK(c, mt.count(nm) , "workspace-missing", nm << " is not in the file"); const M4& t = mt[nm]; std::vector<int> in(cnt, 0); int tot = 0; for (int i = 0; i < cnt; i++) tot += (wset[i] != 0) == act; PBT_CHECK(c, t.k == 1 && t.r == tot, "workspace-size", nm << " has " << t.r << " entries, expected " << tot); std::vector<int> o; for (int i = 0; i < t.r; i++) { double v = t.v[i]; PBT_CHECK(c, v == floor(v) && v >= 0 && v < cnt && !in[(int)v] && (wset[(int)v] != 0) == act, "workspace-index", nm << " holds " << v); in[(int)v] = 1; o.push_back((int)v); } return o; };
    auto FR = setOf("FR_idx", wb, n, false); setOf("FX_idx", wb, n, true); std::vector<int> AC; if (m) { AC = setOf("AC_idx", wc, m, true); setOf("IAC_idx", wc, m, false); const M4& ax = mt["Ax"]; PBT_CHECK(c, ax.r == m && ax.k == 1, "workspace-Ax", "Ax has wrong size"); for (int i = 0; i < m; i++) { long double v = 0, sc = 1; for (int j = 0; j < n; j++) { v += (long double)q.A[i * n + j] * xs[j]; sc += fabsl((long double)q.A[i * n + j] * xs[j]); } PBT_CHECK(c, fabsl(ax.v[i] - v) <= 1e-8L * sc, "workspace-Ax", "Ax(" << i << ") is " << ax.v[i] << ", product " << (double)v << "\n" << q.show()); } }
    // the free part of Q is orthonormal and turns the active rows into [0 T] with T reverse lower triangular
    const M4& Q = mt["Q"]; PBT_CHECK(c, Q.r == n && Q.k == n, "workspace-Q", "Q has wrong size"); int nF = (int)FR.size(), nA = (int)AC.size(); auto Qm = [&](int i, int j) { return Q.v[(size_t)j * n + i]; };
    for (int a = 0; a < nF; a++) for (int b = 0; b < nF; b++) { long double v = 0; for (int i = 0; i < nF; i++) v += (long double)Qm(FR[i], a) * Qm(FR[i], b); PBT_CHECK(c, fabsl(v - (a == b)) < 1e-8L, "workspace-orthogonal", "columns " << a << "," << b << " of Q have product " << (double)v << "\n" << q.show()); }
    if (m) { const M4& T = mt["T"]; int sT = T.r, nZ = nF - nA; PBT_CHECK(c, sT == T.k && sT == std::min(n, m) && nZ >= 0, "workspace-T", "T has wrong size"); for (int a = 0; a < nA; a++) for (int b = 0; b < nF; b++) { long double v = 0; for (int i = 0; i < nF; i++) v += (long double)q.A[AC[a] * n + FR[i]] * Qm(FR[i], b); double want = b < nZ ? 0 : (b - nZ) < nA - 1 - a ? 0 : T.v[(size_t)(sT - nA + b - nZ) * sT + a]; PBT_CHECK(c, fabsl(v - want) < 1e-7L, "workspace-TQ", "active row " << a << " times column " << b << " of Q is " << (double)v << ", T has " << want << "\n" << q.show()); } }
    c.nontrivial = countActive(q) > 0; c.label(s.a.hp() ? "explicit Hessian" : "trivial Hessian");
}
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
