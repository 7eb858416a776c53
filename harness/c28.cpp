// C28: return codes, messages and small helpers tell the truth
#include "qpgen.hpp"
using namespace qpOASES; using namespace qg;
struct Msg { returnValue r; const char* t; VisibilityStatus v; };
static const Msg MSG[] = {
#define M(a, b, v) {a, b, v},
#include "messages.inc"
#undef M
};
static const int NM = sizeof MSG / sizeof *MSG;
static const Msg* find(int r) { for (auto& m : MSG) if ((int)m.r == r) return &m; return nullptr; }
// output captured in memory
struct Cap { char* b = nullptr; size_t n = 0; FILE* f; Cap() { f = open_memstream(&b, &n); } std::string text() { fflush(f); return std::string(b ? b : "", n); } ~Cap() { fclose(f); free(b); } };
struct Model { VisibilityStatus e, w, i; long cnt; std::string out;
    int say(int code, const char* add, bool local, const char* lead) {
        const Msg* m = find(code); if (!m) { err((int)RET_EWI_UNDEFINED, nullptr, true); return code; }
        if (m->v == VS_VISIBLE && local) { if (cnt < 0) { out += "\n"; cnt = 0; } if (cnt > 0) { long k = (cnt - 1) * 2; if (k > 40) k = 40; out += std::string((size_t)k, ' ') + "->"; } std::string line = std::string(lead) + ":  " + m->t + (add ? std::string(" ") + add : "") + "\n"; if (line.size() > 159) line.resize(159); out += line; if (lead[0] == 'E') cnt++; else { if (cnt > 0) out += "\n"; cnt = 0; } }
        return code; }
    int err(int code, const char* a, bool l) { if (code <= (int)SUCCESSFUL_RETURN) return err((int)RET_ERROR_UNDEFINED, nullptr, true); return e == VS_VISIBLE ? say(code, a, l, "ERROR") : code; }
    int warn(int code, const char* a, bool l) { if (code <= (int)SUCCESSFUL_RETURN) return err((int)RET_WARNING_UNDEFINED, nullptr, true); return w == VS_VISIBLE ? say(code, a, l, "WARNING") : code; }
    int info(int code, const char* a, bool l) { if (code < (int)SUCCESSFUL_RETURN) return err((int)RET_INFO_UNDEFINED, nullptr, true); return i == VS_VISIBLE ? say(code, a, l, "INFO") : code; } };
static VisibilityStatus vs(Ctx& c) { return c.flag() ? VS_VISIBLE : VS_HIDDEN; }
PBT_PROP(reporting, 4) {
    Cap cap, cap2; MessageHandling* g = getGlobalMessageHandler(); bool own = c.raw(3) == 0; Model m; m.e = vs(c); m.w = vs(c); m.i = vs(c); m.cnt = 0; std::unique_ptr<MessageHandling> o; MessageHandling* h = g; g->setOutputFile(own ? cap2.f : cap.f); g->setErrorCount(0); g->setErrorVisibilityStatus(VS_VISIBLE); g->setWarningVisibilityStatus(VS_VISIBLE); g->setInfoVisibilityStatus(VS_VISIBLE);
    if (own) { int k = (int)c.raw(3); if (k == 0) { o.reset(new MessageHandling(cap.f, m.e, m.w, m.i)); } else if (k == 1) { o.reset(new MessageHandling(m.e, m.w, m.i)); o->setOutputFile(cap.f); } else { o.reset(new MessageHandling(cap.f)); m.e = VS_VISIBLE; m.w = m.i = VS_HIDDEN; } h = o.get(); } else { h->setErrorVisibilityStatus(m.e); h->setWarningVisibilityStatus(m.w); h->setInfoVisibilityStatus(m.i); }
    int len = c.range(1, 20); bool any = false; FILE* real = cap.f; bool muted = false; if (c.verbose) c.desc << (own ? "own handler" : "global handler");
    for (int k = 0; k < len; k++) {
        int op = c.weighted({5, 4, 4, 2, 1, 1, 1, 1}); std::string before = m.out; if (c.verbose) c.desc << " | " << op;
        if (op <= 2) { int code = c.raw(8) == 0 ? c.pick(std::vector<int>{0, -1, -5, 151, 152, 400, 1000}) : (int)MSG[c.raw(NM)].r; std::string add; int a = (int)c.raw(4); if (a == 1) add = "(some file)"; if (a == 2) add = std::string((size_t)c.range(1, 200), 'x'); bool l = c.raw(4) != 0; const char* ap = a == 1 || a == 2 ? add.c_str() : nullptr; VisibilityStatus lv = l ? VS_VISIBLE : VS_HIDDEN; if (c.verbose) c.desc << " code " << code << (ap ? " with text" : "");
            int want = op == 0 ? m.err(code, ap, l) : op == 1 ? m.warn(code, ap, l) : m.info(code, ap, l); int got = (int)(op == 0 ? h->throwError((returnValue)code, ap, "f", "g", 7, lv) : op == 1 ? h->throwWarning((returnValue)code, ap, "f", "g", 7, lv) : h->throwInfo((returnValue)code, ap, "f", "g", 7, lv)); PBT_CHECK(c, got == want, "returned", "message " << code << " returned " << got << " instead of " << want); if (m.out != before) any = true; }
        else if (op == 3) { int v = (int)c.raw(3); VisibilityStatus s = vs(c); if (v == 0) h->setErrorVisibilityStatus(m.e = s); else if (v == 1) h->setWarningVisibilityStatus(m.w = s); else h->setInfoVisibilityStatus(m.i = s); }
        else if (op == 4) { int n = (int)c.raw(6) == 0 ? -c.range(2, 5) : c.range(-1, 30); returnValue r = h->setErrorCount(n); PBT_CHECK(c, (r == SUCCESSFUL_RETURN) == (n >= -1), "errorcount", "setErrorCount(" << n << ") returned " << (int)r); if (n >= -1) m.cnt = n; }
        else if (op == 5) { h->reset(); h->setOutputFile(real); m.e = VS_VISIBLE; m.w = m.i = VS_HIDDEN; m.cnt = 0; }
        else if (op == 6) { muted = c.flag(); h->setOutputFile(nullptr); int code = (int)MSG[c.raw(NM)].r; std::string keep = m.out; if (code > 0) { m.err(code, nullptr, true); int got = (int)h->throwError((returnValue)code, nullptr, "f", "g", 7, VS_VISIBLE); PBT_CHECK(c, got == code, "returned", "without output file message " << code << " returned " << got); } m.out = keep; h->setOutputFile(real); (void)muted; }
        else if (!own) { int code = c.pick(std::vector<int>{(int)SUCCESSFUL_RETURN, (int)RET_MAX_NWSR_REACHED, (int)RET_INIT_FAILED_INFEASIBILITY, (int)RET_HOTSTART_STOPPED_INFEASIBILITY, (int)RET_INIT_FAILED_UNBOUNDEDNESS, (int)RET_HOTSTART_STOPPED_UNBOUNDEDNESS, (int)MSG[c.raw(NM)].r}); bool pr = c.flag(); int want = code == (int)SUCCESSFUL_RETURN ? 0 : code == (int)RET_MAX_NWSR_REACHED ? 1 : code == (int)RET_INIT_FAILED_INFEASIBILITY || code == (int)RET_HOTSTART_STOPPED_INFEASIBILITY ? -2 : code == (int)RET_INIT_FAILED_UNBOUNDEDNESS || code == (int)RET_HOTSTART_STOPPED_UNBOUNDEDNESS ? -3 : -1;
            if (pr) { VisibilityStatus s = m.i; m.i = VS_VISIBLE; m.cnt = -1; m.info((int)RET_SIMPLE_STATUS_P0 - want, nullptr, true); m.i = s; any = true; } int got = (int)getSimpleStatus((returnValue)code, pr ? BT_TRUE : BT_FALSE); PBT_CHECK(c, got == want, "simple-status", "simple status of " << code << " is " << got << " instead of " << want); }
        PBT_CHECK(c, h->getErrorVisibilityStatus() == m.e && h->getWarningVisibilityStatus() == m.w && h->getInfoVisibilityStatus() == m.i && h->getErrorCount() == m.cnt && h->getOutputFile() == real, "state", "state of the handler: visibility " << (int)h->getErrorVisibilityStatus() << (int)h->getWarningVisibilityStatus() << (int)h->getInfoVisibilityStatus() << " count " << (long)h->getErrorCount() << " expected " << (int)m.e << (int)m.w << (int)m.i << " " << m.cnt);
        std::string got = cap.text(); if (m.out.empty() && got.empty()) continue; PBT_CHECK(c, got == m.out, "output", "printed\n" << got << "\nexpected\n" << m.out); if (own) PBT_CHECK(c, cap2.text().empty(), "wrong-file", "a message went into another file: " << cap2.text());
    }
    if (own) o->setOutputFile(stdout); g->setOutputFile(stdout); c.nontrivial = any; c.label(own ? "own handler" : "global handler");
}
PBT_PROP(texts, 1) {
    int code = c.raw(6) == 0 ? (int)c.raw(3000) - 1000 : (int)MSG[c.raw(NM)].r; const Msg* m = find(code); const char* t = MessageHandling::getErrorCodeMessage((returnValue)code); if (c.verbose) c.desc << "text of " << code; PBT_CHECK(c, t && std::string(t) == (m ? m->t : "Unknown error code"), "text", "text of code " << code << " is " << (t ? t : "missing"));
    if (c.raw(40) == 0) { Cap cap; MessageHandling* g = getGlobalMessageHandler(); g->setOutputFile(cap.f); g->listAllMessages(); std::string s = cap.text(), want; for (int i = 0; i < NM; i++) want += " " + std::to_string((int)MSG[i].r) + " - " + MSG[i].t + " \n"; g->setOutputFile(stdout); PBT_CHECK(c, s == want, "list", "list of messages\n" << s); c.label("list"); } c.nontrivial = m != nullptr; c.label(m ? "known code" : "unknown code");
}
// print level of a solver decides what the handler shows
PBT_PROP(levels, 1) {
    QProblemB p(1 + (int)c.raw(3)); Cap cap; MessageHandling* g = getGlobalMessageHandler(); int len = c.range(1, 5); PrintLevel last = PL_MEDIUM; (void)last; std::ostringstream d;
    for (int k = 0; k < len; k++) { PrintLevel l = (PrintLevel)((int)c.raw(6) - 2); g->setOutputFile(cap.f); p.setPrintLevel(l); d << (int)l << " "; bool e = l != PL_NONE, w = l == PL_DEBUG_ITER || l == PL_MEDIUM || l == PL_HIGH, i = l == PL_HIGH; PBT_CHECK(c, p.getPrintLevel() == l && (g->getErrorVisibilityStatus() == VS_VISIBLE) == e && (g->getWarningVisibilityStatus() == VS_VISIBLE) == w && (g->getInfoVisibilityStatus() == VS_VISIBLE) == i, "level", "after print level " << (int)l << " visibility is " << (int)g->getErrorVisibilityStatus() << (int)g->getWarningVisibilityStatus() << (int)g->getInfoVisibilityStatus()); }
    g->setOutputFile(stdout); if (c.verbose) c.desc << "print levels " << d.str(); c.nontrivial = len > 1; c.label("print levels");
}
static std::vector<double> numbers(const std::string& s) { std::vector<double> v; const char* p = s.c_str(); while (*p) { char* e; double d = strtod(p, &e); if (e == p) { p++; continue; } v.push_back(d); p = e; } return v; }
static double wide(Ctx& c) { int k = (int)c.raw(8); if (k == 0) return 0; if (k == 1) return c.pick(std::vector<double>{1e20, -1e20, 1e-300, 1e300, -1, 1, 2.221e-16, 1e-25}); double v = c.real(4); return k == 2 ? v * 1e12 : k == 3 ? v * 1e-12 : v; }
PBT_PROP(printing, 2) {
    Cap cap; MessageHandling* g = getGlobalMessageHandler(); g->setOutputFile(cap.f); int n = c.range(0, 6), r = c.range(1, 4); bool nm = c.flag(); const char* name = nm ? "some_vector" : nullptr; std::vector<double> want; int k = (int)c.raw(6);
    if (k <= 1) { Vec v(n + 1); for (auto& x : v) x = wide(c); std::vector<int_t> ix(n + 1); for (auto& i : ix) i = (int_t)c.raw(n + 1); if (k == 0) { print(v.data(), n, name); want.assign(v.begin(), v.begin() + n); } else { print(v.data(), n, ix.data(), name); for (int i = 0; i < n; i++) want.push_back(v[ix[i]]); } }
    else if (k <= 3) { Vec M((size_t)r * (n + 1)); for (auto& x : M) x = wide(c); int nc = n + 1; std::vector<int_t> ri(r), ci(nc); for (auto& i : ri) i = (int_t)c.raw(r); for (auto& i : ci) i = (int_t)c.raw(nc); if (k == 2) { print(M.data(), r, nc, name); want = M; } else { print(M.data(), r, nc, ri.data(), ci.data(), name); for (int i = 0; i < r; i++) for (int j = 0; j < nc; j++) want.push_back(M[(size_t)ri[i] * nc + ci[j]]); } }
    else if (k == 4) { std::vector<int_t> ix(n + 1); for (auto& i : ix) i = (int_t)c.sint(900); print(ix.data(), n, name); for (int i = 0; i < n; i++) want.push_back((double)ix[i]); }
    else { std::string big((size_t)c.range(0, 600), 'q'); for (auto& ch : big) ch = (char)(33 + c.raw(90)); returnValue q = myPrintf(big.c_str()); std::string t = cap.text(); g->setOutputFile(stdout); PBT_CHECK(c, q == SUCCESSFUL_RETURN && t == big, "myPrintf", "printed " << t << " for " << big); PBT_CHECK(c, myPrintf(nullptr) != SUCCESSFUL_RETURN, "myPrintf", "no text accepted"); c.label("text"); c.nontrivial = true; return; }
    std::string t = cap.text(); g->setOutputFile(stdout); if (c.verbose) c.desc << "print " << k << " " << t; if (nm) PBT_CHECK(c, t.find("some_vector") != std::string::npos, "print-name", "name missing in " << t); std::vector<double> got = numbers(t); PBT_CHECK(c, got == want, "print", "printed " << t << " for " << str(want)); c.label("print"); c.nontrivial = !want.empty();
}
PBT_PROP(helpers, 3) {
    int n = c.range(0, 8); Vec v(n + 1); for (auto& x : v) x = c.raw(3) ? c.real(4) : c.sint(5); long double s1 = 0, s2 = 0; for (int i = 0; i < n; i++) { s1 += fabsl(v[i]); s2 += (long double)v[i] * v[i]; } double n1 = getNorm(v.data(), n, 1), n2 = getNorm(v.data(), n, 2), nd = getNorm(v.data(), n); if (c.verbose) c.desc << "norms of " << str(v) << " n=" << n;
    getGlobalMessageHandler()->setErrorVisibilityStatus(VS_HIDDEN); PBT_CHECK(c, fabs(n1 - (double)s1) <= 1e-13 * (double)s1 && fabs(n2 - sqrt((double)s2)) <= 1e-13 * n2 && fabs(nd - n2) <= 1e-13 * n2, "norm", "norms " << n1 << " " << n2 << " " << nd << " of " << str(v)); int ty = c.pick(std::vector<int>{0, 3, -1, 7}); PBT_CHECK(c, getNorm(v.data(), n, ty) < 0, "norm-type", "norm of type " << ty << " is " << getNorm(v.data(), n, ty));
    double a = wide(c), b = c.raw(4) ? wide(c) : a, tol = c.pick(std::vector<double>{0, 1e-25, 1e-10, 1, 2.221e-16}); if (c.flag()) b = a + c.sint(3) * tol; int_t i = (int_t)c.sint(99), j = c.raw(4) ? (int_t)c.sint(99) : i;
    PBT_CHECK(c, (isEqual(a, b, tol) == BT_TRUE) == (fabs(a - b) <= tol) && (isZero(a, tol) == BT_TRUE) == (fabs(a) <= tol) && (isEqual(a, b) == BT_TRUE) == (fabs(a - b) <= 1e-25) && (isZero(a) == BT_TRUE) == (fabs(a) <= 1e-25), "compare", "comparison of " << a << " and " << b << " with " << tol);
    PBT_CHECK(c, getSign(a) == (a >= 0 ? 1 : -1) && getMax(a, b) == std::max(a, b) && getMin(a, b) == std::min(a, b) && getMax(i, j) == std::max(i, j) && getMin(i, j) == std::min(i, j) && getAbs(a) == fabs(a) && getSqrt(fabs(a)) == sqrt(fabs(a)), "scalars", "scalar helpers on " << a << " " << b << " " << i << " " << j);
    char t[32]; SubjectToStatus st[] = {ST_LOWER, ST_INACTIVE, ST_UPPER, ST_INFEASIBLE_LOWER, ST_INFEASIBLE_UPPER, ST_UNDEFINED}; const char* sn[] = {"ST_LOWER", "ST_INACTIVE", "ST_UPPER", "ST_INFEASIBLE_LOWER", "ST_INFEASIBLE_UPPER", "ST_UNDEFINED"}; PrintLevel pl[] = {PL_DEBUG_ITER, PL_TABULAR, PL_NONE, PL_LOW, PL_MEDIUM, PL_HIGH}; const char* pn[] = {"PL_DEBUG_ITER", "PL_TABULAR", "PL_NONE", "PL_LOW", "PL_MEDIUM", "PL_HIGH"}; int k = (int)c.raw(6);
    convertSubjectToStatusToString(st[k], t); PBT_CHECK(c, !strcmp(t, sn[k]), "names", sn[k] << " is called " << t); convertPrintLevelToString(pl[k], t); PBT_CHECK(c, !strcmp(t, pn[k]), "names", pn[k] << " is called " << t); convertBooleanTypeToString(k % 2 ? BT_TRUE : BT_FALSE, t); PBT_CHECK(c, !strcmp(t, k % 2 ? "BT_TRUE" : "BT_FALSE"), "names", "boolean is called " << t);
    double t0 = getCPUtime(), t1 = getCPUtime(); PBT_CHECK(c, t1 >= t0 - 1e-3, "clock", "time runs backwards: " << t0 << " " << t1); c.nontrivial = n > 0; c.label("helpers");
}
PBT_PROP(scaling, 3) {
    int n = c.range(1, 6), m = c.range(1, 5), type = 1 + (int)c.raw(2); Vec A((size_t)m * n + 1), l(m + 1, -7), u(m + 1, 7); for (auto& x : A) x = c.raw(3) ? c.real(4) : c.sint(2); for (int i = 0; i < m; i++) { if (c.raw(5) == 0) for (int j = 0; j < n; j++) A[(size_t)i * n + j] = c.raw(3) ? 0 : 1e-17 * (double)c.raw(2); if (c.raw(6) == 0) for (int j = 0; j < n; j++) A[(size_t)i * n + j] *= 1e8; l[i] = c.raw(4) ? c.real(3) : -1e20; u[i] = c.raw(4) ? l[i] + fabs(c.real(3)) : 1e20; }
    bool nl = c.raw(4) == 0, nu = c.raw(4) == 0; Vec A0 = A, l0 = l, u0 = u; getGlobalMessageHandler()->setErrorVisibilityStatus(VS_HIDDEN); if (c.verbose) c.desc << "normalise type " << type << " A=" << strM(A0, m, n) << (nl ? " no lbA" : "") << (nu ? " no ubA" : "");
    PBT_CHECK(c, normaliseConstraints(0, m, A.data(), l.data(), u.data(), type) != SUCCESSFUL_RETURN && normaliseConstraints(n, 0, A.data(), l.data(), u.data(), type) != SUCCESSFUL_RETURN && normaliseConstraints(n, m, nullptr, l.data(), u.data(), type) != SUCCESSFUL_RETURN, "scale-invalid", "missing data accepted"); PBT_CHECK(c, A == A0 && l == l0 && u == u0, "scale-invalid", "data modified by a refused call");
    returnValue r = normaliseConstraints(n, m, A.data(), nl ? nullptr : l.data(), nu ? nullptr : u.data(), type); PBT_CHECK(c, r == SUCCESSFUL_RETURN && A.back() == A0.back() && l.back() == -7 && u.back() == 7, "scale", "returned " << (int)r << ", or data behind the arrays was modified"); if (nl) PBT_CHECK(c, l == l0, "scale", "lbA modified"); if (nu) PBT_CHECK(c, u == u0, "scale", "ubA modified");
    for (int i = 0; i < m; i++) { long double s = 0, t = 0; for (int j = 0; j < n; j++) { long double a = A0[(size_t)i * n + j], b = A[(size_t)i * n + j]; s += type == 1 ? fabsl(a) : a * a; t += type == 1 ? fabsl(b) : b * b; } if (type == 2) { s = sqrtl(s); t = sqrtl(t); } PBT_CHECK(c, fabsl(t - 1) <= 1e-12, "scale-norm", "row " << i << " has norm " << (double)t << " after scaling");
        if (s > 1e-15) { for (int j = 0; j < n; j++) PBT_CHECK(c, fabsl(A[(size_t)i * n + j] * s - A0[(size_t)i * n + j]) <= 1e-13 * s, "scale-row", "row " << i << " is not a multiple of what it was"); if (!nl) PBT_CHECK(c, fabsl(l[i] * s - l0[i]) <= 1e-13 * fabsl(l0[i]), "scale-side", "lower side " << l[i] << " instead of " << (double)(l0[i] / s)); if (!nu) PBT_CHECK(c, fabsl(u[i] * s - u0[i]) <= 1e-13 * fabsl(u0[i]), "scale-side", "upper side " << u[i] << " instead of " << (double)(u0[i] / s)); }
        else if (s < 1.5e-16) { if (!nl) PBT_CHECK(c, l[i] <= -INF, "scale-zero", "lower side of an empty row is " << l[i]); if (!nu) PBT_CHECK(c, u[i] >= INF, "scale-zero", "upper side of an empty row is " << u[i]); } }
    c.nontrivial = true; c.label(type == 1 ? "1-norm" : "2-norm");
}
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
