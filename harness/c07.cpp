// C07: iteration limits are honoured, reported and resumable
#include "seq.hpp"
#include "query.hpp"
using namespace qpOASES; using namespace qg;
static returnValue ini(QProblemB& p, const QP& q, const Args& a, int_t& w, real_t* cpu) { if (QProblem* g = dynamic_cast<QProblem*>(&p)) return initP(*g, q, a, w, cpu); return initP(p, q, a, w, cpu); }
static returnValue hot(QProblemB& p, const QP& q, const Args& a, int_t& w, real_t* cpu) {
    if (QProblem* g = dynamic_cast<QProblem*>(&p)) return hotP(*g, q, a, w, cpu); return hotP(p, q, a, w, cpu); }
static returnValue hotMat(QProblemB& p, const QP& q, const Args& a, int_t& w, real_t* cpu) { return hotM(*dynamic_cast<SQProblem*>(&p), q, a, w, cpu); }
static std::unique_ptr<QProblemB> mk(int cls, const QP& q, const Ses& s) { std::unique_ptr<QProblemB> p; if (cls == 2) p.reset(new QProblemB(q.n, s.ht)); else if (cls == 1) p.reset(new SQProblem(q.n, q.m, s.ht)); else p.reset(new QProblem(q.n, q.m, s.ht)); p->setOptions(s.o); return p; }
static std::string snap(QProblemB& p, int n, int m) { if (QProblem* g = dynamic_cast<QProblem*>(&p)) return snapshot(*g, n, m); return snapshot(p, n, m); }
static Sol sol(QProblemB& p, int n, int m) { return getSol(p, n, m); }
static const char* CLS[] = {"general", "varying", "bounds"};
static int genLim(Ctx& c, int N) { int k = c.weighted({4, 2, 2, 1, 1}); return k == 0 ? (N > 0 ? (int)c.raw(N) : 0) : k == 1 ? N : k == 2 ? N + 1 + (int)c.raw(3) : k == 3 ? std::max(0, N - 1) : 0; }
static void body(Ctx& c, int cls) {
    QP q; Ses s; start(c, q, s, cls == 2); int n = q.n, m = q.m, big = 20 * (n + m) + 200; if (c.raw(4) == 0) { s.o.enableDriftCorrection = (int_t)c.raw(3); s.o.numRefinementSteps = (int_t)c.raw(2); }
    auto full = mk(cls, q, s), lim = mk(cls, q, s); int N; bool nt = false; std::string tag = std::string(CLS[cls]) + "-" + s.on; int steps = c.range(1, 3); std::vector<Args> keep; keep.reserve(8); keep.push_back(std::move(s.a));
    if (c.verbose) c.desc << CLS[cls] << " " << REPN[keep[0].rep] << " options " << s.on << " null=" << keep[0].useNull << " " << q.show();
    for (int k = 0; k < steps; k++) {
        int mode = 0; bool mats = false; if (k) { if (cls == 1 && c.flag()) { mats = true; if (q.hk == HK_DENSE && keep[0].hp()) genH(c, q, false); genA(c, q); VecOpt vo; vo.degenerate = s.deg; genVectors(c, q, vo); Args a; a.useNull = keep[0].useNull; a.set(q, genRep(c), q.hk != HK_DENSE && keep[0].hp()); keep.push_back(std::move(a)); } else next(c, q, s, c.weighted({3, 3, 2, 1})); if (c.verbose) c.desc << " | " << (mats ? "matrices " : "hot ") << q.show(); }
        Args& A = keep.back();
        auto call = [&](QProblemB& p, int_t& w, real_t* cpu) { return !k ? ini(p, q, A, w, cpu) : mats ? hotMat(p, q, A, w, cpu) : hot(p, q, A, w, cpu); };
        int_t w = big; real_t cpu = 1e6; bool useCpu = c.raw(3) == 0; returnValue r = call(*full, w, useCpu ? &cpu : nullptr); N = (int)w;
        if (s.on == "mpc" && r == RET_MAX_NWSR_REACHED && k) return;   // see C05
        PBT_CHECK(c, r == SUCCESSFUL_RETURN, tag + "-full", "unlimited solve returned " << (int)r << "\n" << q.show());
        PBT_CHECK(c, N >= 0 && N <= big, tag + "-count", "reported " << N << " iterations with a limit of " << big);
        if (useCpu) PBT_CHECK(c, cpu >= 0 && cpu <= 1e5, tag + "-cputime", "reported cpu time " << cpu);
        // every recalculation swaps at most one member; at least the difference of the working sets must have been counted when hot starting
        int L = genLim(c, N), rounds = 0; w = L; r = call(*lim, w, nullptr); int total = (int)w;
        if (c.verbose) c.desc << " N=" << N << " limit " << L << " -> r=" << (int)r << " nWSR=" << w;
        PBT_CHECK(c, w >= 0 && w <= L, tag + "-limit", "performed " << w << " recalculations, allowed " << L << "\n" << q.show());
        if (L > N) {   // noticing the end takes one more round than there are recalculations
            PBT_CHECK(c, r == SUCCESSFUL_RETURN && w == N, tag + "-enough", "limit " << L << " suffices (" << N << " needed) but returned " << (int)r << " after " << w << "\n" << q.show());
            PBT_CHECK(c, snap(*lim, n, m) == snap(*full, n, m), tag + "-same", "a limit that was not reached changed the result\n" << snap(*lim, n, m) << "\n" << snap(*full, n, m));
        } else {
            nt = true; PBT_CHECK(c, r == RET_MAX_NWSR_REACHED && w == L, tag + "-exhausted", "limit " << L << " of " << N << " needed: returned " << (int)r << " after " << w << "\n" << q.show());
            PBT_CHECK(c, lim->isSolved() == BT_FALSE && lim->isInfeasible() == BT_FALSE && lim->isUnbounded() == BT_FALSE && lim->isInitialised() == BT_TRUE && getSimpleStatus(r) == 1, tag + "-status", "flags after exhaustion: solved " << lim->isSolved() << " infeasible " << lim->isInfeasible() << " status " << (int)lim->getStatus() << " simple " << (int)getSimpleStatus(r));
            bool vec = c.raw(3) != 0; // with the same vectors; or with another problem in between
            if (!vec && !mats) { QP o = q; VecOpt vo; vo.degenerate = s.deg; genVectors(c, o, vo); w = (int)c.raw(4); int l2 = (int)w; r = hot(*lim, o, A, w, nullptr); PBT_CHECK(c, w <= l2 && w >= 0, tag + "-limit", "performed " << w << " recalculations, allowed " << l2); PBT_CHECK(c, r == SUCCESSFUL_RETURN || r == RET_MAX_NWSR_REACHED || s.on == "mpc", tag + "-between", "interrupted hot start returned " << (int)r << "\n" << o.show()); if (r == SUCCESSFUL_RETURN) judge(c, o, s, sol(*lim, n, m), tag + "-between"); else if (r != RET_MAX_NWSR_REACHED) return; }
            while (true) {
                int l = rounds > 20 ? big : c.weighted({3, 1}) ? big : 1 + (int)c.raw(3); w = l; r = hot(*lim, q, A, w, nullptr); rounds++; total += (int)w;
                if (c.verbose) c.desc << " resume " << l << " -> r=" << (int)r << " nWSR=" << w;
                PBT_CHECK(c, w >= 0 && w <= l, tag + "-limit", "performed " << w << " recalculations, allowed " << l << "\n" << q.show());
                if (r == SUCCESSFUL_RETURN) break;
                if (s.on == "mpc" && l == big) return;  // no degeneracy handling: may end in a dead end, reported
                PBT_CHECK(c, r == RET_MAX_NWSR_REACHED && w == l, tag + "-resume", "resumed solve returned " << (int)r << " after " << w << " of " << l << "\n" << q.show());
                PBT_CHECK(c, rounds < 22, tag + "-resume-end", "resuming does not end\n" << q.show());
            }
            PBT_CHECK(c, lim->isSolved() == BT_TRUE, tag + "-resume-flag", "not solved after success");
            judge(c, q, s, sol(*lim, n, m), tag + "-resume");
            if (!s.deg) { Sol a = sol(*full, n, m), b = sol(*lim, n, m); double e = relErr(b.x.data(), a.x.data(), n); PBT_CHECK(c, e <= tolOf(s.o), tag + "-resume-same", "interrupted and uninterrupted solves differ by " << e << "\n" << q.show()); }
            if (k + 1 < steps) { w = big; auto t = mk(cls, q, s); r = ini(*t, q, A, w, nullptr); (void)r; break; }
        }
        c.label(tag + (L > N ? " enough" : " exhausted, resumed " + std::string(rounds > 3 ? "often" : std::to_string(rounds))));
        if (L <= N) break;
    }
    c.nontrivial = nt;
}
PBT_PROP(general, 4) { body(c, 0); }
PBT_PROP(varying, 2) { body(c, 1); }
PBT_PROP(bounds, 2) { body(c, 2); }
// problems without solution and exhausted budgets: never a verdict that is wrong, never a success
static void nosol(Ctx& c, bool unb) {
    QP q; Ses s; s.o = genPreset(c, &s.on); q.generic = s.on == "mpc" || c.flag(); Shape sh; sh.forceC = true; if (unb) { q.generic = false; sh.nMax = 5; sh.allowBig = false; } genSize(c, q, sh); if (!unb) { genH(c, q); genA(c, q); genInfeasible(c, q, true); } else { genA(c, q); genUnbounded(c, q, true); }
    s.a.set(q, genRep(c)); s.ht = s.a.H.empty() ? hessType(c, q) : HST_UNKNOWN; QProblem p(q.n, q.m, s.ht); p.setOptions(s.o); int L = (int)c.raw(6); int_t w = L; returnValue r = initP(p, q, s.a, w); bool ended = false;
    if (c.verbose) c.desc << (unb ? "unbounded " : "infeasible ") << s.on << " " << q.show() << " limit " << L << " -> r=" << (int)r;
    for (int k = 0; k < 40; k++) {
        PBT_CHECK(c, w >= 0 && w <= L, s.on + "-nosol-limit", "performed " << w << " recalculations, allowed " << L); if (unb && r != RET_MAX_NWSR_REACHED) break;   // which verdict is the business of C03
        PBT_CHECK(c, r != SUCCESSFUL_RETURN, s.on + "-nosol-success", "a problem without solution was solved\n" << q.show());
        returnValue good = unb ? (k ? RET_HOTSTART_STOPPED_UNBOUNDEDNESS : RET_INIT_FAILED_UNBOUNDEDNESS) : (k ? RET_HOTSTART_STOPPED_INFEASIBILITY : RET_INIT_FAILED_INFEASIBILITY), bad = !unb ? (k ? RET_HOTSTART_STOPPED_UNBOUNDEDNESS : RET_INIT_FAILED_UNBOUNDEDNESS) : (k ? RET_HOTSTART_STOPPED_INFEASIBILITY : RET_INIT_FAILED_INFEASIBILITY);
        PBT_CHECK(c, r != bad, s.on + "-nosol-verdict", "wrong verdict " << (int)r << "\n" << q.show());
        if (r == good) { ended = true; break; }
        if (s.on == "mpc" && r != RET_MAX_NWSR_REACHED) break;
        PBT_CHECK(c, r == RET_MAX_NWSR_REACHED && w == L, s.on + "-nosol-exhausted", "returned " << (int)r << " after " << w << " of " << L << "\n" << q.show());
        L = k < 30 ? (int)c.raw(6) : 500; w = L; r = hotP(p, q, s.a, w);
    }
    if (!unb && s.on != "mpc") PBT_CHECK(c, ended, s.on + "-nosol-end", "infeasibility was never found by resuming\n" << q.show());
    c.label(std::string(unb ? "unbounded " : "infeasible ") + s.on + (ended ? " found" : " open")); c.nontrivial = true;
}
PBT_PROP(infeasible, 1) { nosol(c, false); }
PBT_PROP(unbounded, 1) { nosol(c, true); }
// a CPU time limit of (nearly) zero: no wrong success, and the object can go on
PBT_PROP(cputime, 1) {
    QP q; Ses s; int cls = (int)c.raw(3); start(c, q, s, cls == 2); auto p = mk(cls, q, s); int big = 20 * (q.n + q.m) + 200; static const double lims[] = {0, 1e-12, -1, 1e-6, 1e-5}; real_t cpu = lims[c.raw(5)]; double asked = cpu; int_t w = big;
    returnValue r = ini(*p, q, s.a, w, &cpu); std::string tag = std::string(CLS[cls]) + "-" + s.on + "-cpu"; if (c.verbose) c.desc << tag << " limit " << asked << " " << q.show();
    c.label(tag + (asked <= 1e-9 ? " no time" : " little time")); c.nontrivial = true;
    PBT_CHECK(c, r == SUCCESSFUL_RETURN || r == RET_MAX_NWSR_REACHED, tag, "returned " << (int)r << "\n" << q.show());
    if (r == SUCCESSFUL_RETURN) { judge(c, q, s, sol(*p, q.n, q.m), tag); return; }
    PBT_CHECK(c, p->isSolved() == BT_FALSE, tag + "-flag", "solved although out of time");
    w = big; r = hot(*p, q, s.a, w, nullptr); PBT_CHECK(c, r == SUCCESSFUL_RETURN || s.on == "mpc", tag + "-resume", "resumed solve returned " << (int)r << "\n" << q.show()); if (r == SUCCESSFUL_RETURN) judge(c, q, s, sol(*p, q.n, q.m), tag + "-resume");
}
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
