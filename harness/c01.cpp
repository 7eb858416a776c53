// C01: cold-started strictly convex QPs satisfy the optimality conditions
#include "solve.hpp"
using namespace qpOASES; using namespace qg;

template <class P> static void verify(Ctx& c, P& p, const QP& q, const Args& a, const Options& o, const std::string& on, bool degen, const char* what) {
    int_t nWSR = 5 * (q.n + q.m) + 100;
    p.setOptions(o);
    returnValue r = initP(p, q, a, nWSR);
    if (c.verbose) c.desc << what << " " << REPN[a.rep] << " options " << on << " null=" << a.useNull << " " << q.show() << " -> r=" << (int)r << " nWSR=" << nWSR;
    c.label(std::string(what) + (degen ? " degenerate " : " ") + on + (r == SUCCESSFUL_RETURN ? " solved" : " not solved"));
    c.label(std::string("matrices ") + REPN[a.rep]);
    if (r != SUCCESSFUL_RETURN) return;
    Sol s = getSol(p, q.n, q.m);
    double tol = tolOf(o);
    checkKkt(c, q, s, what, tol);
    if (q.hasSol) { checkX(c, q, s, what, degen ? 100 * tol : tol); if (!degen) checkY(c, q, s, what, tol); }
    PBT_CHECK(c, p.isSolved() == BT_TRUE && p.isInfeasible() == BT_FALSE && p.isUnbounded() == BT_FALSE, "status", "status flags after success\n" << q.show());
    int act = 0; for (double v : s.y) if (v != 0) act++;
    c.nontrivial = act > 0 && nWSR > 0;
    c.label("changes " + std::string(nWSR == 0 ? "0" : nWSR <= 2 ? "1-2" : nWSR <= 8 ? "3-8" : ">8"));
}
static void body(Ctx& c, bool degen, bool useB, bool planted) {
    Shape s; if (useB) s.mMax = 0;
    QP q; VecOpt vo; vo.degenerate = degen; vo.thin = degen && c.raw(3) == 0;
    q = genPlanted(c, s, vo);
    if (!planted) {
        // arbitrary gradient: the optimum is whatever it is, feasibility is planted
        for (int i = 0; i < q.n; i++) q.g[i] = val(c, q.generic, 20);
        q.hasSol = false;
    }
    std::string on; Options o = genPreset(c, &on);
    Args a; a.useNull = c.flag(); a.set(q, genRep(c), c.raw(3) == 0);
    HessianType ht = a.H.empty() ? hessType(c, q) : (c.raw(3) == 0 ? HST_POSDEF : HST_UNKNOWN);
    if (useB) { QProblemB p(q.n, ht); verify(c, p, q, a, o, on, degen || !planted, planted ? "bounds" : "bounds-anygradient"); }
    else if (c.raw(4) == 0) { SQProblem p(q.n, q.m, ht); verify(c, p, q, a, o, on, degen || !planted, planted ? "varying" : "varying-anygradient"); }
    else { QProblem p(q.n, q.m, ht); verify(c, p, q, a, o, on, degen || !planted, planted ? "general" : "general-anygradient"); }
}
PBT_PROP(general, 3) { body(c, false, false, true); }
PBT_PROP(general_degenerate, 2) { body(c, true, false, true); }
PBT_PROP(general_anygradient, 3) { body(c, true, false, false); }
PBT_PROP(bounds, 2) { body(c, false, true, true); }
PBT_PROP(bounds_anygradient, 2) { body(c, true, true, false); }
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
