// C03: success, infeasible and unbounded verdicts
#include "solve.hpp"
using namespace qpOASES; using namespace qg;

// outcome of a solve, checked for agreement of code, flags and simple status
enum Out { OK, INFEAS, UNBND, OTHER };
static const char* ON[] = {"solved", "infeasible", "unbounded", "other"};
template <class P> static Out outcome(Ctx& c, const P& p, returnValue r, bool cold) {
    Out o = OTHER;
    if (r == SUCCESSFUL_RETURN) o = OK;
    else if (r == RET_INIT_FAILED_INFEASIBILITY || r == RET_HOTSTART_STOPPED_INFEASIBILITY) o = INFEAS;
    else if (r == RET_INIT_FAILED_UNBOUNDEDNESS || r == RET_HOTSTART_STOPPED_UNBOUNDEDNESS) o = UNBND;
    int ss = (int)getSimpleStatus(r);
    int want = o == OK ? 0 : o == INFEAS ? -2 : o == UNBND ? -3 : (r == RET_MAX_NWSR_REACHED || r == RET_INIT_FAILED_HOTSTART) ? ss : -1;
    PBT_CHECK(c, ss == want, "simple-status", "simple status " << ss << " for return code " << (int)r);
    if (o != OTHER) {
        PBT_CHECK(c, (p.isInfeasible() == BT_TRUE) == (o == INFEAS), "infeasible-flag", "isInfeasible()=" << (int)p.isInfeasible() << " after return code " << (int)r);
        PBT_CHECK(c, (p.isUnbounded() == BT_TRUE) == (o == UNBND), "unbounded-flag", "isUnbounded()=" << (int)p.isUnbounded() << " after return code " << (int)r);
        if (o == OK) PBT_CHECK(c, p.isSolved() == BT_TRUE, "solved-flag", "isSolved() is false after success");
    }
    if (cold && o == INFEAS) PBT_CHECK(c, r == RET_INIT_FAILED_INFEASIBILITY, "init-code", "init() returned " << (int)r);
    return o;
}
static bool makeInconsistent(Ctx& c, QP& q) {
    int k = (int)c.raw(q.n + q.m); double gap = c.raw(3) == 0 ? 1e-9 : posval(c, q.generic, 3);
    double& l = k < q.n ? q.lb[k] : q.lbA[k - q.n]; double& u = k < q.n ? q.ub[k] : q.ubA[k - q.n];
    if (u >= INF) u = l > -INF ? l : 0; l = u + gap; q.hasSol = false; return true;
}
struct Setup { std::string on; Options o; Args a; HessianType ht; bool trivial; };
static void setup(Ctx& c, const QP& q, Setup& s, bool mpc = true, bool preset = true) {
    if (preset) s.o = genPreset(c, &s.on);
    if (!mpc && s.on == "mpc") { s.o.setToDefault(); s.o.printLevel = PL_NONE; s.on = "default"; }
    s.a.useNull = c.flag(); s.trivial = c.raw(3) == 0; s.a.set(q, genRep(c), s.trivial); s.ht = s.a.H.empty() ? hessType(c, q) : HST_UNKNOWN;
}
static const char* WANT[] = {"solvable", "infeasible", "inconsistent"};
template <class P> static void decided(Ctx& c, P& p, const QP& q, const Setup& s, int want, bool cold, const char* tag) {
    int_t nWSR = 10 * (q.n + q.m) + 100; p.setOptions(s.o);
    returnValue r = cold ? initP(p, q, s.a, nWSR) : hotP(p, q, s.a, nWSR);
    if (c.verbose) c.desc << (cold ? "" : " | then ") << tag << " " << WANT[want] << " " << REPN[s.a.rep] << " options " << s.on << " null=" << s.a.useNull << " " << q.show() << " -> r=" << (int)r << " nWSR=" << nWSR;
    Out o = outcome(c, p, r, cold);
    c.label(s.on + " " + (q.generic ? "gen ":"int ") + std::string(tag) + (cold ? " cold " : " hot ") + WANT[want] + " -> " + ON[o]);
    Out expect = want == 0 ? OK : INFEAS;
    PBT_CHECK(c, o == expect, s.on + std::string("-verdict-") + WANT[want], "expected " << ON[expect] << ", got return code " << (int)r << " (" << ON[o] << "), options " << s.on << (cold ? ", cold start" : ", hot start") << "\n" << q.show());
    if (want == 0) { Sol z = getSol(p, q.n, q.m); checkX(c, q, z, s.on + "-verdict", 100 * tolOf(s.o)); }
    if (want != 0 || nWSR > 0) c.nontrivial = true;
}
// degenerate vectors: exactly representable ones only (an empty interior plus rounding is not decidable)
static void genWant(Ctx& c, QP& q, int want, bool allowDeg = true) {
    VecOpt vo; vo.degenerate = c.flag() && allowDeg && !q.generic;
    genVectors(c, q, vo);
    if (want == 2) makeInconsistent(c, q);
}
PBT_PROP(cold, 4) {
    QP q; q.generic = c.raw(3) != 0; int want = (int)c.raw(3); Shape s; if (want == 1) s.forceC = true; genSize(c, q, s); genH(c, q); genA(c, q);
    if (want == 1) genInfeasible(c, q); else genWant(c, q, want);
    Setup u; setup(c, q, u);
    if (c.raw(4) == 0) { SQProblem p(q.n, q.m, u.ht); decided(c, p, q, u, want, true, "varying"); } else { QProblem p(q.n, q.m, u.ht); decided(c, p, q, u, want, true, "general"); }
}
PBT_PROP(bounds, 1) {
    QP q; q.generic = c.raw(3) != 0; Shape s; s.mMax = 0; genSize(c, q, s); genH(c, q); int want = 2 * (int)c.raw(2); genWant(c, q, want);
    Setup u; setup(c, q, u); QProblemB p(q.n, u.ht); decided(c, p, q, u, want, true, "bounds");
    if (want == 0) { want = 2 * (int)c.raw(2); genWant(c, q, want); decided(c, p, q, u, want, false, "bounds"); }
}
// from a solved problem to one of another kind; the MPC preset switches the degeneracy handling (ramping, flipping) off, so it is
// checked on problems in general position
PBT_PROP(hot, 4) {
    QP q; Setup u; u.o = genPreset(c, &u.on); bool mpc = u.on == "mpc";
    q.generic = c.raw(3) != 0 || mpc; int want = (int)c.raw(3); Shape s; if (want == 1) s.forceC = true; genSize(c, q, s); genH(c, q); genA(c, q);
    QP q2 = q;
    if (want == 1) { genInfeasible(c, q2, mpc); q.A = q2.A; }   // same matrix for both
    genWant(c, q, 0, !mpc); if (want != 1) { q2 = q; genWant(c, q2, want, !mpc); }
    setup(c, q, u, true, false); QProblem p(q.n, q.m, u.ht);
    int_t nWSR = 10 * (q.n + q.m) + 100; p.setOptions(u.o);
    if (initP(p, q, u.a, nWSR) != SUCCESSFUL_RETURN) throw pbt::Discard();
    if (c.verbose) c.desc << "solved first: " << q.show();
    decided(c, p, q2, u, want, false, "general");
}
// unbounded problems: never solved at a moderate point; reported as unbounded in at least one of several generated statements of
// the same size (the library regularises singular projections, so that single statements are "solved" very far out)
PBT_PROP(unbounded, 2) {
    QP q; q.generic = c.raw(3) != 0; Shape s; s.nMax = 6; s.mMax = 4; s.allowBig = false; genSize(c, q, s); if (q.n == 1) { q.n = 2; } if (q.m > 2) q.m = 2;
    genA(c, q); Setup u; setup(c, q, u, false); u.ht = HST_UNKNOWN;
    bool hot = c.flag(); int hits = 0, tries = 0, tot = 5; std::string codes, shown;
    double off = 0.125 * c.raw(8);
    for (int k = 0; k < tot; k++) {
        if (k) genA(c, q);
        genUnbounded(c, q, true); u.a.set(q, u.a.rep, u.trivial); if (k < 2) shown += q.show() + "\n";
        QProblem p(q.n, q.m, u.ht); p.setOptions(u.o); int_t nWSR = 1000; returnValue r; Args az;
        if (hot) {
            QP z = q; for (int i = 0; i < q.n; i++) { z.lb[i] = std::max(z.lb[i], z.xs[i] - 4 - off); z.ub[i] = std::min(z.ub[i], z.xs[i] + 4 + off); }   // a bounded feasible set
            int_t w = 1000; if (initP(p, z, u.a, w) != SUCCESSFUL_RETURN) continue;
            r = hotP(p, q, u.a, nWSR);
        } else r = initP(p, q, u.a, nWSR);
        tries++; Out o = outcome(c, p, r, !hot); codes += " " + std::to_string((int)r);
        if (c.verbose && k == 0) c.desc << "unbounded " << (hot ? "hot" : "cold") << " options " << u.on << " " << q.show();
        if (o == OK) { Sol z = getSol(p, q.n, q.m); PBT_CHECK(c, normInf(z.x) > 1e4, "unbounded-solved", "an unbounded problem was reported solved at " << str(z.x) << "\n" << q.show()); }
        if (o == UNBND) hits++;
        c.label(std::string("unbounded ") + (hot ? "hot" : "cold") + " -> " + ON[o]);
    }
    if (c.verbose) c.desc << " codes" << codes;
    c.label("unbounded problems reported: " + std::to_string(hits) + "/" + std::to_string(tries));
    c.nontrivial = tries >= 4;
    PBT_CHECK(c, tries < 4 || hits >= 1, "verdict-unbounded", "none of " << tries << " unbounded problems was reported as unbounded, codes" << codes << ", options " << u.on << (hot ? ", hot start" : ", cold start") << "\n" << shown);
}
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
