// C06: initial guesses never change the answer
#include "seq.hpp"
using namespace qpOASES; using namespace qg;
// 0 none, 1 the solution, 2 near it, 3 anything, 4 zero
static Vec pt(Ctx& c, const Vec& ref, int mode, bool generic, int small) { Vec v(ref); if (mode == 2) for (auto& a : v) a += c.real(1) / 16; if (mode == 3) for (auto& a : v) a = val(c, generic, small); if (mode == 4) v.assign(v.size(), 0.0); return v; }
static returnValue ini(QProblem& p, const QP& q, const Args& a, int_t& w, real_t* cpu, const Guess& g) { return initP(p, q, a, w, cpu, g); }
static returnValue ini(QProblemB& p, const QP& q, const Args& a, int_t& w, real_t* cpu, const Guess& g) { return initP(p, q, a, w, cpu, g); }
template <class P> static void one(Ctx& c, P& p, QP& q, Ses& s, bool isB, const char* cls, bool infeasible) {
    int n = q.n, m = q.m; bool mpc = s.on == "mpc";
    if (c.raw(3) == 0) { int k = (int)c.raw(3); s.o.initialStatusBounds = k == 0 ? ST_LOWER : k == 1 ? ST_UPPER : ST_INACTIVE; if (mpc && k != 2) s.o.initialStatusBounds = ST_INACTIVE; }
    p.setOptions(s.o); Vec xr = q.hasSol ? q.xs : Vec(n, 0.0), yr = q.ys; yr.resize(n + m, 0.0);
    int mx = c.weighted({3, 2, 2, 3, 1}), my = c.weighted({3, 2, 2, 3, 1}), gb = c.raw(3) ? 0 : guessMode(c), gc = c.raw(3) ? 0 : guessMode(c), mr = c.weighted({6, 2, mpc ? 4 : 1});
    if (mr == 2) { mx = my = gb = gc = 0; }
    if (!q.hasSol) { if (gb >= 4) gb = 2; if (gc >= 4) gc = 2; if (mx == 1) mx = 3; if (my == 1) my = 3; }
    Vec x0 = pt(c, xr, mx, q.generic, 4), y0 = pt(c, yr, my, q.generic, 3); WsGuess g = genGuess(c, q, gb, isB ? 0 : gc);
    Vec R; if (mr) { Vec H = q.hk == HK_DENSE ? q.H : Vec((size_t)n * n, 0.0); if (q.hk == HK_ID) for (int i = 0; i < n; i++) H[(size_t)i * n + i] = 1; R.assign((size_t)n * n, 0.0);
        for (int j = 0; j < n; j++) { for (int i = 0; i <= j; i++) { long double t = H[(size_t)i * n + j]; for (int k = 0; k < i; k++) t -= (long double)R[(size_t)k * n + i] * R[(size_t)k * n + j]; R[(size_t)i * n + j] = i == j ? (double)sqrtl(t) : (double)(t / R[(size_t)i * n + i]); } } }
    Guess gs; if (mx) gs.x = x0.data(); if (my) gs.y = y0.data(); gs.b = g.b.get(); gs.c = g.c.get(); if (mr) gs.R = R.data();
    bool mixR = mr && (gs.x || gs.y || gs.b || gs.c); int lim = 20 * (n + m) + 200; int_t w = lim; returnValue r = ini(p, q, s.a, w, nullptr, gs);
    std::string how = std::string(mx ? "x" : "") + (my ? "y" : "") + (gs.b ? "B" : "") + (gs.c ? "C" : "") + (mr ? "R" : ""); if (how.empty()) how = "none";
    if (c.verbose) c.desc << cls << " " << REPN[s.a.rep] << " options " << s.on << " initial bounds " << (int)s.o.initialStatusBounds << " null=" << s.a.useNull << " guess " << how << " x0=" << (mx ? str(x0) : "-") << " y0=" << (my ? str(y0) : "-") << g.show << " " << q.show() << " -> r=" << (int)r << " nWSR=" << w;
    c.label(std::string(cls) + " " + s.on + " " + how + (r == 0 ? " solved" : r == RET_INIT_FAILED_INFEASIBILITY ? " infeasible" : r == RET_NO_CHOLESKY_WITH_INITIAL_GUESS ? " rejected" : " other"));
    std::string tag = std::string(cls) + "-" + s.on + "-" + (infeasible ? "inf-" : "") + ((gs.b || gs.c) ? "ws" : (mr ? "R" : (my ? "y" : "x"))); c.nontrivial = how != "none" && w > 0;
    // multipliers and a working set without a primal point are declared invalid
    if (my && !mx && (gs.b || gs.c)) { PBT_CHECK(c, r == RET_INVALID_ARGUMENTS && p.isSolved() == BT_FALSE, tag + "-invalid", "multipliers and working set without primal point gave " << (int)r); return; }
    if (mixR) { PBT_CHECK(c, r == RET_NO_CHOLESKY_WITH_INITIAL_GUESS, tag + "-mixR", "a factor together with another guess gave " << (int)r); PBT_CHECK(c, p.isSolved() == BT_FALSE, tag + "-mixR", "solved after rejection"); return; }
    if (infeasible) {
        if (mpc && how != "none" && r != SUCCESSFUL_RETURN && r != RET_INIT_FAILED_UNBOUNDEDNESS) return;
        PBT_CHECK(c, r == RET_INIT_FAILED_INFEASIBILITY, tag + "-verdict", "infeasible problem started from guess " << how << " gave " << (int)r << "\n" << q.show()); return;
    }
    // the MPC preset has no degeneracy handling: a guess may lead it into a dead end, which must be reported
    if (mpc && (gs.b || gs.c || mx || my) && r != SUCCESSFUL_RETURN && r != RET_INIT_FAILED_INFEASIBILITY && r != RET_INIT_FAILED_UNBOUNDEDNESS) return;
    PBT_CHECK(c, r == SUCCESSFUL_RETURN, tag + "-verdict", "started from guess " << how << " returned " << (int)r << " x0=" << str(x0) << " y0=" << str(y0) << g.show << "\n" << q.show());
    judge(c, q, s, getSol(p, n, m), tag);
    // the guess must not leave traces in later solves
    if (c.raw(3) == 0) { next(c, q, s, c.weighted({3, 3, 2, 1})); w = lim; r = hotP(p, q, s.a, w); if (c.verbose) c.desc << " | hot " << q.show() << " -> r=" << (int)r; if (mpc && how != "none" && r != SUCCESSFUL_RETURN) return; PBT_CHECK(c, r == SUCCESSFUL_RETURN, tag + "-hot", "hot start after it returned " << (int)r << "\n" << q.show()); judge(c, q, s, getSol(p, n, m), tag + "-hot"); }
}
template <class P> static void go(Ctx& c, bool isB, const char* cls) { QP q; Ses s; start(c, q, s, isB); P p(q.n, q.m, s.ht); one(c, p, q, s, isB, cls, false); }
PBT_PROP(general, 4) { go<QProblem>(c, false, "general"); }
PBT_PROP(varying, 1) { go<SQProblem>(c, false, "varying"); }
PBT_PROP(bounds, 3) { QP q; Ses s; start(c, q, s, true); QProblemB p(q.n, s.ht); one(c, p, q, s, true, "bounds", false); }
PBT_PROP(infeasible, 2) {
    QP q; Ses s; s.o = genPreset(c, &s.on); q.generic = s.on == "mpc" || c.raw(3) != 0; Shape sh; sh.forceC = true; genSize(c, q, sh); genH(c, q); genA(c, q); genInfeasible(c, q, true);
    s.a.useNull = c.flag(); s.a.set(q, genRep(c), c.raw(3) == 0); s.ht = s.a.H.empty() ? hessType(c, q) : HST_UNKNOWN; QProblem p(q.n, q.m, s.ht); one(c, p, q, s, false, "general", true);
}
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
