// C04: hot starts along sequences of problems with fixed matrices
#include "seq.hpp"
using namespace qpOASES; using namespace qg;

static returnValue hot(QProblem& p, const QP& q, const Args& a, int_t& w, const WsGuess& g) { return hotP(p, q, a, w, nullptr, g.b.get(), g.c.get()); }
static returnValue hot(QProblemB& p, const QP& q, const Args& a, int_t& w, const WsGuess& g) { return hotP(p, q, a, w, nullptr, g.b.get()); }
template <class P> static void run(Ctx& c, P& p, QP& q, Ses& s, const char* cls) {
    p.setOptions(s.o); int lim = 10 * (q.n + q.m) + 100; int_t w = lim; returnValue r = initP(p, q, s.a, w);
    if (c.verbose) c.desc << cls << " " << REPN[s.a.rep] << " options " << s.on << " null=" << s.a.useNull << " first " << q.show() << " -> r=" << (int)r;
    PBT_CHECK(c, r == SUCCESSFUL_RETURN, s.on + "-first", "first problem not solved, r=" << (int)r << "\n" << q.show());
    int len = c.range(1, 6), changed = 0; bool any = false;
    for (int k = 0; k < len; k++) {
        int kind = c.weighted({4, 3, 2, 1}); next(c, q, s, kind);
        bool bad = k == len - 1 && c.raw(8) == 0; QP t = q;
        if (bad) { int i = (int)c.raw(q.n + q.m); double& l = i < q.n ? t.lb[i] : t.lbA[i - q.n]; double& u = i < q.n ? t.ub[i] : t.ubA[i - q.n]; if (u >= INF) u = l > -INF ? l : 0; l = u + posval(c, q.generic, 2); }
        int gm = s.on == "mpc" ? c.weighted({5, 1, 2, 0, 1, 2}) : guessMode(c), gc = s.on == "mpc" ? c.weighted({5, 1, 2, 0, 1, 2}) : guessMode(c); WsGuess g = genGuess(c, q, gm, gc);
        w = lim; r = hot(p, t, s.a, w, g); changed += (int)w; if (w > 0) any = true;
        std::string how = (g.b || g.c) ? "guess" : "plain";
        if (c.verbose) c.desc << " | hot " << KIND[kind] << g.show << " " << t.show() << " -> r=" << (int)r << " nWSR=" << w;
        c.label(std::string(cls) + " " + s.on + " " + how + " " + (bad ? "inconsistent" : KIND[kind]) + " -> " + (r == 0 ? "solved" : r == RET_HOTSTART_STOPPED_INFEASIBILITY ? "infeasible" : "other"));
        std::string tag = s.on + "-" + how;
        if (bad) { PBT_CHECK(c, r == RET_HOTSTART_STOPPED_INFEASIBILITY, tag + "-inconsistent", "inconsistent bounds gave return code " << (int)r << "\n" << t.show()); break; }
        // without degeneracy handling a guess may lead into a cycle of the MPC preset; it must then not report success
        if (s.on == "mpc" && (g.b || g.c) && r != SUCCESSFUL_RETURN) break;
        PBT_CHECK(c, r == SUCCESSFUL_RETURN, tag + "-verdict", "hot start " << k + 1 << " returned " << (int)r << g.show << " for a solvable problem\n" << q.show());
        judge(c, q, s, getSol(p, q.n, q.m), tag);
    }
    c.label("length " + std::to_string(len)); c.nontrivial = any;
}
PBT_PROP(general, 4) { QP q; Ses s; start(c, q, s, false); QProblem p(q.n, q.m, s.ht); run(c, p, q, s, "general"); }
PBT_PROP(varying, 1) { QP q; Ses s; start(c, q, s, false); SQProblem p(q.n, q.m, s.ht); run(c, p, q, s, "varying"); }
PBT_PROP(bounds, 2) { QP q; Ses s; start(c, q, s, true); QProblemB p(q.n, s.ht); run(c, p, q, s, "bounds"); }
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
