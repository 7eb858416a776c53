// C05: sequences in which Hessian and constraint matrix change
#include "seq.hpp"
using namespace qpOASES; using namespace qg;
static const char* MK[] = {"both new", "hessian new", "constraints new", "same matrices", "vectors only"};
PBT_PROP(varying, 1) {
    QP q; Ses s; start(c, q, s, false); SQProblem p(q.n, q.m, s.ht); p.setOptions(s.o);
    int lim = 10 * (q.n + q.m) + 100; int_t w = lim; returnValue r = initP(p, q, s.a, w);
    if (c.verbose) c.desc << REPN[s.a.rep] << " options " << s.on << " null=" << s.a.useNull << " first " << q.show() << " -> r=" << (int)r;
    PBT_CHECK(c, r == SUCCESSFUL_RETURN, s.on + "-first", "first problem not solved, r=" << (int)r << "\n" << q.show());
    bool explicitH = !s.a.H.empty(), explicitTriv = explicitH && q.hk != HK_DENSE; int len = c.range(1, 5); bool any = false; std::vector<Args> keep; keep.reserve(8); keep.push_back(std::move(s.a)); bool guessed = false;
    for (int k = 0; k < len; k++) {
        int mk = c.weighted({4, 2, 2, 2, 2});
        if ((mk == 0 || mk == 1) && explicitH && !explicitTriv) genH(c, q, false);
        if (mk == 0 || mk == 2) genA(c, q);
        VecOpt vo; vo.degenerate = s.deg;
        if (mk <= 2) genVectors(c, q, vo); else next(c, q, s, c.weighted({3, 3, 2, 1}));
        bool bad = k == len - 1 && c.raw(10) == 0; QP t = q;
        if (bad) { int i = (int)c.raw(q.n + q.m); double& l = i < q.n ? t.lb[i] : t.lbA[i - q.n]; double& u = i < q.n ? t.ub[i] : t.ubA[i - q.n]; if (u >= INF) u = l > -INF ? l : 0; l = u + posval(c, q.generic, 2); }
        WsGuess g; if (c.raw(3) == 0) { g = genGuess(c, q, s.on == "mpc" ? c.weighted({5, 1, 2, 0, 1, 2}) : guessMode(c), s.on == "mpc" ? c.weighted({5, 1, 2, 0, 1, 2}) : guessMode(c)); }
        if (g.b || g.c) guessed = true;
        w = lim;
        if (mk == 4) r = hotP(p, t, keep.back(), w, nullptr, g.b.get(), g.c.get());
        else {
            Args a; a.useNull = keep.back().useNull; a.set(q, mk == 3 ? keep.back().rep : genRep(c), explicitTriv); keep.push_back(std::move(a));
            r = hotM(p, t, keep.back(), w, nullptr, g.b.get(), g.c.get());
        }
        if (w > 0 || mk <= 2) any = true;
        if (c.verbose) c.desc << " | hot " << MK[mk] << " " << REPN[keep.back().rep] << g.show << " " << t.show() << " -> r=" << (int)r << " nWSR=" << w;
        std::string how = (g.b || g.c) ? "guess" : "plain", tag = s.on + "-" + how;
        c.label(s.on + " " + how + " " + MK[mk] + (bad ? " inconsistent" : "") + " -> " + (r == 0 ? "solved" : r == RET_HOTSTART_STOPPED_INFEASIBILITY ? "infeasible" : "other"));
        if (bad) { PBT_CHECK(c, r == RET_HOTSTART_STOPPED_INFEASIBILITY, tag + "-inconsistent", "inconsistent bounds gave return code " << (int)r << "\n" << t.show()); break; }
        if (s.on == "mpc" && guessed && r != SUCCESSFUL_RETURN) break;   // see C04
        // about one in a million matrix changes makes the MPC preset (no degeneracy handling) cycle until the iteration limit
        if (s.on == "mpc" && r == RET_MAX_NWSR_REACHED) break;
        PBT_CHECK(c, r == SUCCESSFUL_RETURN, tag + "-verdict", "hot start " << k + 1 << " (" << MK[mk] << ") returned " << (int)r << g.show << " for a solvable problem\n" << q.show());
        judge(c, q, s, getSol(p, q.n, q.m), tag);
    }
    c.nontrivial = any;
}
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
