// C30: redundant and dependent constraints do no harm
#include "seq.hpp"
using namespace qpOASES; using namespace qg;
// one redundant row: a combination of one or two members (variable bounds or rows) with the sides implied by theirs, possibly loosened
struct Rec { int k[2]; double w[2]; int nk; double slack; int loose; };   // loose: 0 tight, 1 both loosened, 2 lower dropped, 3 upper dropped
static const char* KN[] = {"zero row", "duplicate", "scaled", "bound repeated", "sum", "equality combination"};
static Rec genRec(Ctx& c, const QP& b, std::string& kind) {
    Rec r; int n = b.n, m = b.m; r.nk = 0; r.slack = 0; r.loose = c.weighted({5, 2, 1, 1}); r.slack = r.loose == 1 ? posval(c, b.generic, 3) : 0; int t = c.weighted({1, 3, 3, 3, 3, 2}); if (m == 0 && t != 0) t = 3;
    auto w = [&]() { static const double P[] = {2, 0.5, -1, -2, 4, -0.25}; return b.generic ? P[c.raw(6)] : (double)(c.flag() ? 1 : -1) * (1 + (double)c.raw(3)); };
    if (t == 0) { kind = KN[0]; return r; }
    if (t == 5) { std::vector<int> e; for (int i = 0; i < n + m; i++) if (i < n ? b.lb[i] == b.ub[i] : b.lbA[i - n] == b.ubA[i - n]) e.push_back(i); if (e.empty()) t = m ? 1 : 3; else { r.nk = b.generic || e.size() == 1 ? 1 : 2; r.loose = c.raw(3) ? 0 : r.loose; for (int i = 0; i < r.nk; i++) { r.k[i] = e[c.raw((int)e.size())]; r.w[i] = w(); } kind = KN[5]; return r; } }
    if (t == 4) { r.nk = 2; for (int i = 0; i < 2; i++) { r.k[i] = (int)c.raw(n + m); r.w[i] = w(); } if (b.generic && r.loose == 0) { r.loose = 1; r.slack = posval(c, true, 3); } if (b.generic && r.loose > 1) { r.nk = 1; } kind = KN[4]; return r; }
    r.nk = 1; r.k[0] = t == 3 ? (int)c.raw(n) : n + (int)c.raw(m); r.w[0] = t == 2 ? w() : 1; kind = KN[t]; return r;
}
static QP augment(const QP& b, const std::vector<Rec>& rs) {
    QP q = b; int n = b.n; for (auto& r : rs) {
        Vec row(n, 0.0); double l = 0, u = 0; for (int i = 0; i < r.nk; i++) { int k = r.k[i]; double w = r.w[i], bl = k < n ? b.lb[k] : b.lbA[k - n], bu = k < n ? b.ub[k] : b.ubA[k - n]; if (k < n) row[k] += w; else for (int j = 0; j < n; j++) row[j] += w * b.A[(size_t)(k - n) * n + j]; double a = w > 0 ? (bl <= -INF ? -INF : w * bl) : (bu >= INF ? -INF : w * bu), z = w > 0 ? (bu >= INF ? INF : w * bu) : (bl <= -INF ? INF : w * bl); l = l <= -INF || a <= -INF ? -INF : l + a; u = u >= INF || z >= INF ? INF : u + z; }
        if (r.loose == 1) { if (l > -INF) l -= r.slack; if (u < INF) u += r.slack; } if (r.loose == 2) l = -INF; if (r.loose == 3) u = INF;
        q.A.insert(q.A.end(), row.begin(), row.end()); q.lbA.push_back(l); q.ubA.push_back(u); q.ys.push_back(0); q.m++;
    }
    return q;
}
// the same problem with its rows in another order
static QP shuffle(const QP& q, const std::vector<int>& perm) { QP r = q; for (int i = 0; i < q.m; i++) { int s = perm[i]; for (int j = 0; j < q.n; j++) r.A[(size_t)i * q.n + j] = q.A[(size_t)s * q.n + j]; r.lbA[i] = q.lbA[s]; r.ubA[i] = q.ubA[s]; r.ys[q.n + i] = q.ys[q.n + s]; } return r; }
static bool equalityMember(const QP& b, int k) { return k < b.n ? b.lb[k] == b.ub[k] : b.lbA[k - b.n] == b.ubA[k - b.n]; }
// tight copies of equalities are kept loose in histories, where they may end in a false verdict through rounding errors; see dependent()
static void loosen(Ctx& c, const QP& b, std::vector<Rec>& rs) { for (auto& r : rs) { bool all = r.nk > 0; for (int i = 0; i < r.nk; i++) all = all && equalityMember(b, r.k[i]); if (all && r.loose != 1) { r.loose = 1; r.slack = posval(c, b.generic, 3); } } }
static void body(Ctx& c, bool varying, int* failures = nullptr) {
    QP b; Ses s; s.o = quietDefault(); s.on = "default"; if (c.flag()) { s.o.setToReliable(); s.o.printLevel = PL_NONE; s.on = "reliable"; }
    b.generic = c.flag(); Shape sh; genSize(c, b, sh); genH(c, b); genA(c, b); VecOpt vo; vo.degenerate = s.deg = !b.generic && c.flag(); vo.eqW = c.flag() ? 4 : 1; genVectors(c, b, vo); int n = b.n;
    std::vector<Rec> rs; std::vector<int> perm; std::string kinds; auto plan = [&](int R) { rs.clear(); kinds.clear(); for (int i = 0; i < R; i++) { std::string k; rs.push_back(genRec(c, b, k)); kinds += k + ", "; c.label(k); } }; int R = c.range(1, 5); plan(R); int len = c.range(0, 4); if (len && !failures) loosen(c, b, rs); int m = b.m + R; for (int i = 0; i < m; i++) perm.push_back(i); if (c.flag()) for (int i = m - 1; i > 0; i--) std::swap(perm[i], perm[c.raw(i + 1)]);
    QP q = shuffle(augment(b, rs), perm); Args a; a.useNull = c.flag(); a.set(q, genRep(c), c.raw(3) == 0); HessianType ht = a.H.empty() ? hessType(c, q) : HST_UNKNOWN; std::unique_ptr<QProblem> p(varying ? new SQProblem(n, m, ht) : new QProblem(n, m, ht)); p->setOptions(s.o);
    std::vector<Args> keep; keep.reserve(10); keep.push_back(std::move(a)); int lim = 20 * (n + m) + 100; if (c.verbose) c.desc << (varying ? "varying " : "general ") << REPN[keep[0].rep] << " " << s.on << " redundant: " << kinds;
    for (int k = 0; k <= len; k++) {
        bool mat = false; if (k) { if (varying && c.raw(3) == 0) { if (b.hk == HK_DENSE) genH(c, b, false); genA(c, b); genVectors(c, b, vo); plan(R); mat = true; } else next(c, b, s, c.weighted({4, 3, 2, 1}));
            for (auto& r : rs) if (c.raw(4) == 0 && !(b.generic && r.nk == 2)) r.loose = (int)c.raw(4), r.slack = r.loose == 1 ? posval(c, b.generic, 3) : 0;   // redundancy may tighten and loosen
            if (!failures) loosen(c, b, rs); q = shuffle(augment(b, rs), perm); if (mat) { Args t; t.useNull = keep[0].useNull; t.set(q, (int)c.raw(4), q.hk != HK_DENSE && keep[0].hp()); keep.push_back(std::move(t)); } }
        int_t w = lim; const Args& A = keep.back(); WsGuess g; Guess gg; if (c.raw(4) == 0) { g = genGuess(c, q, guessMode(c), guessMode(c)); gg.b = g.b.get(); gg.c = g.c.get(); }
        returnValue r = k == 0 ? initP(*p, q, A, w, nullptr, gg) : mat ? hotM(*dynamic_cast<SQProblem*>(p.get()), q, A, w, nullptr, gg.b, gg.c) : hotP(*p, q, A, w, nullptr, gg.b, gg.c);
        if (c.verbose) c.desc << " | " << (k == 0 ? "cold " : mat ? "matrices " : "hot ") << q.show() << g.show << " -> r=" << (int)r << " nWSR=" << w;
        std::string tag = s.on + (s.deg ? "-degenerate" : b.generic ? "" : "-integer") + (k == 0 ? "-cold" : mat ? "-matrices" : "-hot") + (gg.b || gg.c ? "-guess" : "");
        if (failures && k && r != SUCCESSFUL_RETURN) { ++*failures; return; } if (k && b.generic && s.on == "reliable" && r != SUCCESSFUL_RETURN) return;
        PBT_CHECK(c, r == SUCCESSFUL_RETURN, tag + "-failed", "returned " << (int)r << " after " << w << " iterations\n" << q.show());
        Sol z = getSol(*p, n, m); double tol = tolOf(s.o); checkX(c, q, z, tag, 100 * tol); checkKkt(c, q, z, tag, tol); checkObj(c, q, z, tag, tol);
        PBT_CHECK(c, fabs(z.obj - q.obj) <= 100 * tol * q.objScale(q.xs.data()), tag + "-objective", "objective " << z.obj << " planted " << q.obj << "\n" << q.show());
        if (w > 0) c.nontrivial = true; c.label(tag);
    }
}
// redundancy must not hide infeasibility either
static void infeas(Ctx& c) {
    QP b; b.generic = c.flag(); Shape sh; sh.forceC = true; genSize(c, b, sh); genH(c, b); genA(c, b); genInfeasible(c, b); std::string kinds, on = "default"; std::vector<Rec> rs; int R = c.range(1, 4); for (int i = 0; i < R; i++) { std::string k; rs.push_back(genRec(c, b, k)); kinds += k + ", "; }
    QP q = augment(b, rs); Options o = quietDefault(); if (c.flag()) { o.setToReliable(); o.printLevel = PL_NONE; on = "reliable"; } Args a; a.useNull = c.flag(); a.set(q, genRep(c), true); QProblem p(q.n, q.m); p.setOptions(o); int_t w = 20 * (q.n + q.m) + 100; returnValue r = initP(p, q, a, w); if (c.verbose) c.desc << "infeasible " << on << " redundant: " << kinds << q.show() << " -> r=" << (int)r;
    PBT_CHECK(c, r != SUCCESSFUL_RETURN, on + "-infeasible-solved", "an infeasible problem was solved\n" << q.show()); PBT_CHECK(c, r == RET_INIT_FAILED_INFEASIBILITY && p.isInfeasible() == BT_TRUE, on + "-infeasible-verdict", "returned " << (int)r << " for an infeasible problem\n" << q.show()); c.nontrivial = true; c.label("infeasible " + on);
}
// histories with dependent equalities: successes are always right, and failures stay exceptional
static void dependent(Ctx& c) { int f = 0; for (int i = 0; i < 24; i++) body(c, c.flag(), &f); PBT_CHECK(c, f < 4, "dependent-equalities", f << " of 24 histories with dependent constraints failed"); c.label("batch"); }
PBT_PROP(general, 4) { body(c, false); }
PBT_PROP(varying, 3) { body(c, true); }
PBT_PROP(batch, 1) { dependent(c); }
PBT_PROP(infeasible, 1) { infeas(c); }
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
