// C19: solving through the Octave and MATLAB interfaces gives what the C++ library gives
#include "seq.hpp"
#include "query.hpp"
#include "mex.h"
using namespace qpOASES;
using namespace qg;
extern "C" {
__attribute__((weak)) size_t __sanitizer_get_current_allocated_bytes(void);
static double g_clock = 0;
double __wrap__ZN7qpOASES10getCPUtimeEv() { return g_clock += 1.0 / 1024; }   // every look at the clock takes a millisecond
returnValue __wrap__ZN7qpOASES8myPrintfEPKc(const char*) { return SUCCESSFUL_RETURN; }
}
typedef mxArray* Mx;
static const char* IFN[] = {"octave", "matlab"};
static MexFn fn(int iface, bool seq) { return iface ? (seq ? mexMatSeq : mexMatOne) : (seq ? mexOctSeq : mexOctOne); }
static double out(double v, bool inf) { return !inf ? v : v >= INF ? HUGE_VAL : v <= -INF ? -HUGE_VAL : v; }
static Mx full(const Vec& a, int r, int k) { Mx x = mexmock::make(r, k); double* p = mxGetPr(x); for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) p[j * r + i] = a[(size_t)i * k + j]; return x; }
static Mx sparse(Ctx& c, const Vec& a, int r, int k) {
    bool keep = c.raw(6) == 0; std::vector<mwIndex> ir, jc(1, 0); Vec v; for (int j = 0; j < k; j++) { for (int i = 0; i < r; i++) if (a[(size_t)i * k + j] != 0 || (keep && c.raw(4) == 0)) { ir.push_back(i); v.push_back(a[(size_t)i * k + j]); } jc.push_back(ir.size()); }
    Mx x = mexmock::makeSparse(r, k, ir.size() + (size_t)c.raw(3)); for (size_t i = 0; i < ir.size(); i++) { x->ir[i] = ir[i]; mxGetPr(x)[i] = v[i]; } for (int j = 0; j <= k; j++) x->jc[j] = jc[j]; return x;
}
static Mx matrix(Ctx& c, const Vec& a, int r, int k, int rep) { return rep == R_SPARSE ? sparse(c, a, r, k) : full(a, r, k); }
static Mx empty(Ctx& c) { return c.raw(5) ? mexmock::make(0, 0) : mexmock::make(0, 1); }
static Mx column(const Vec& v) { Mx x = mexmock::make(v.size(), 1); if (v.size()) memcpy(mxGetPr(x), v.data(), v.size() * 8); return x; }
static void set(Mx s, const char* name, Mx v) { mxSetField(s, 0, name, v); }
static std::string image(const mxArray* a) {   // everything an input holds
    std::string s; s.append((const char*)&a->M, sizeof a->M); s.append((const char*)&a->N, sizeof a->N); s.append(a->data, a->count() * a->elem()); if (a->sparse) { s.append((const char*)a->ir, a->nzmax * sizeof(mwIndex)); s.append((const char*)a->jc, (a->N + 1) * sizeof(mwIndex)); } for (auto& f : a->fields) { s += f.first; if (f.second) s += image(f.second); } return s;
}
struct Val { size_t M = 0, N = 0; Vec v; bool set = false, st = false; std::vector<std::pair<std::string, Val>> f; const Val* get(const char* n) const { for (auto& p : f) if (p.first == n) return &p.second; return nullptr; } };
static Val value(const mxArray* a) { Val r; if (!a) return r; r.set = true; r.M = a->M; r.N = a->N; r.st = mxIsStruct(a); if (mxIsDouble(a)) r.v.assign(mxGetPr(a), mxGetPr(a) + a->count()); for (auto& f : a->fields) r.f.push_back({f.first, value(f.second)}); return r; }
struct Res { bool err = false; std::string msg; std::vector<Val> o; long leak = 0; };
// calls the interface; outputs beyond nl do not exist, inputs belong to the caller
static Res call(Ctx& c, MexFn f, int nl, const std::vector<Mx>& in, const std::string& tag) {
    Res r; std::vector<std::string> before; for (Mx a : in) before.push_back(image(a));
    size_t k = std::max(nl, 1); Mx* l = new Mx[k](); const mxArray** rr = new const mxArray*[in.size()]; for (size_t i = 0; i < in.size(); i++) rr[i] = in[i];
    auto bytes = [] { return __sanitizer_get_current_allocated_bytes ? (long)__sanitizer_get_current_allocated_bytes() : 0L; };
    g_clock = 0; size_t mark = mexmock::mark(); long b0 = bytes(); try { f(nl, l, (int)in.size(), rr); } catch (const mexmock::Error& e) { r.err = true; r.msg = e.what(); } long b1 = bytes();
    if (!r.err) for (int i = 0; i < nl; i++) r.o.push_back(value(l[i])); long b2 = bytes(); mexmock::clear(mark); long b3 = bytes(); r.leak = (b1 - b0) - (b2 - b3); delete[] l; delete[] rr;
    for (size_t i = 0; i < in.size(); i++) PBT_CHECK(c, image(in[i]) == before[i], tag + "-input-changed", "argument " << i + 1 << " was changed by the call"); return r;
}
struct Field { const char* name; std::function<double(const Options&)> get; std::function<void(Options&, double)> put; };
#define FB(x) {#x, [](const Options& o) { return (double)o.x; }, [](Options& o, double v) { o.x = (BooleanType)(int)v; }}
#define FI(x) {#x, [](const Options& o) { return (double)o.x; }, [](Options& o, double v) { o.x = (int_t)v; }}
#define FD(x) {#x, [](const Options& o) { return (double)o.x; }, [](Options& o, double v) { o.x = v; }}
static const std::vector<Field> FIELDS = {FB(enableRamping), FB(enableFarBounds), FB(enableFlippingBounds), FB(enableRegularisation), FB(enableFullLITests), FB(enableNZCTests), FI(enableDriftCorrection), FI(enableCholeskyRefactorisation), FB(enableEqualities), FD(terminationTolerance), FD(boundTolerance), FD(boundRelaxation), FD(epsNum), FD(epsDen), FD(maxPrimalJump), FD(maxDualJump), FD(initialRamping), FD(finalRamping), FD(initialFarBounds), FD(growFarBounds), {"initialStatusBounds", [](const Options& o) { return (double)(int)o.initialStatusBounds; }, [](Options& o, double v) { o.initialStatusBounds = (SubjectToStatus)std::max(-1, std::min(1, (int)v)); }}, FD(epsFlipping), FI(numRegularisationSteps), FD(epsRegularisation), FI(numRefinementSteps), FD(epsIterRef), FD(epsLITests), FD(epsNZCTests)};
struct Opt { Mx mx = nullptr; Options eff; int_t w; double cpu = -1; bool strange = false; };   // mx: NULL if no options argument is given
static Opt genOpt(Ctx& c, const Options& want, int dim) {
    Opt r; r.eff = quietDefault(); r.w = 5 * dim; int how = c.weighted({1, 1, 10}); if (how == 0) return r; if (how == 1) { r.mx = empty(c); return r; }
    Options t = want; if (c.raw(4) == 0) { t.enableDriftCorrection = (int_t)c.raw(3); t.numRefinementSteps = (int_t)c.raw(4); t.enableCholeskyRefactorisation = (int_t)c.raw(3); t.enableFullLITests = B(c.flag()); t.enableNZCTests = B(c.flag()); t.initialStatusBounds = (SubjectToStatus)((int)c.raw(3) - 1); t.numRegularisationSteps = 1 + (int_t)c.raw(3); } if (c.raw(10) == 0) { t.enableFarBounds = B(c.flag()); t.enableRamping = B(c.flag()); t.enableFlippingBounds = B(c.flag()); t.enableRegularisation = B(c.flag()); t.enableEqualities = B(c.flag()); }
    r.mx = mxCreateStructMatrix(1, 1, 0, nullptr); bool odd = c.raw(5) == 0; size_t n = FIELDS.size() + 3, at = (size_t)c.raw(n);
    for (size_t i = 0; i < n; i++) {
        size_t k = (i + at) % n; int spoil = odd && c.raw(6) == 0 ? 1 + (int)c.raw(3) : 0; r.strange |= spoil != 0; if (spoil == 1) continue; auto bad = [&](const char* nm) { set(r.mx, nm, spoil == 2 ? empty(c) : mexmock::make(2, 1)); };
        if (k < FIELDS.size()) { const Field& f = FIELDS[k]; double v = f.get(t); if (spoil) { bad(f.name); continue; } if (!strcmp(f.name, "initialStatusBounds") && c.raw(8) == 0) v *= 2; set(r.mx, f.name, mxCreateDoubleScalar(v)); f.put(r.eff, v); }
        else if (k == FIELDS.size()) { double v = c.weighted({5, 1, 2}) == 0 ? -1 : c.flag() ? (double)c.raw(5) : 200 + 30 * dim; if (spoil) { bad("maxIter"); continue; } set(r.mx, "maxIter", mxCreateDoubleScalar(v)); if (v >= 0) r.w = (int_t)v; }
        else if (k == FIELDS.size() + 1) { static const double T[] = {-1, -1, -1, 1000, 0.005, 0.02}; double v = T[c.raw(6)]; if (spoil) { bad("maxCpuTime"); continue; } set(r.mx, "maxCpuTime", mxCreateDoubleScalar(v)); r.cpu = v; }
        else { if (spoil) { bad("printLevel"); continue; } set(r.mx, "printLevel", mxCreateDoubleScalar((double)c.raw(3))); }
    }
    if (odd && c.flag()) set(r.mx, "enableSomething", mxCreateDoubleScalar(1)); r.eff.printLevel = PL_NONE; return r;
}
struct Aux { Mx mx = nullptr; HessianType ht = HST_UNKNOWN; Vec x0, R; WsGuess w; bool bad = false; std::string badWhy; Guess guess() const { Guess g; if (x0.size()) g.x = x0.data(); if (R.size()) g.R = R.data(); g.b = w.b.get(); g.c = w.c.get(); return g; } };
static Vec cholesky(const QP& q) { int n = q.n; Vec R((size_t)n * n, 0.0); for (int j = 0; j < n; j++) { double s = q.h(j, j); for (int k = 0; k < j; k++) s -= R[k * n + j] * R[k * n + j]; if (s <= 1e-10) return Vec(); R[j * n + j] = sqrt(s); for (int i = j + 1; i < n; i++) { double t = q.h(j, i); for (int k = 0; k < j; k++) t -= R[k * n + j] * R[k * n + i]; R[j * n + i] = t / R[j * n + j]; } } return R; }
static Mx statusArray(int n, std::function<int(int)> f) { Mx x = mexmock::make(n, 1); for (int i = 0; i < n; i++) mxGetPr(x)[i] = f(i); return x; }
static Aux genAux(Ctx& c, const QP& q, bool needIdentity) {
    Aux a; int n = q.n, m = q.m; int how = needIdentity ? 3 : c.weighted({4, 1, 2, 5}); if (how == 0) return a; if (how == 1) { a.mx = empty(c); return a; }
    auto point = [&] { Vec x(n); int k = (int)c.raw(3); for (int i = 0; i < n; i++) x[i] = k == 0 ? q.xs[i] : k == 1 ? c.real(2) : 0; return x; };
    if (how == 2) { a.x0 = point(); a.mx = column(a.x0); return a; }
    a.mx = mxCreateStructMatrix(1, 1, 0, nullptr); bool useR = q.hk == HK_DENSE && c.raw(5) == 0; auto opt = [&](const char* nm, Mx v) { if (v) set(a.mx, nm, v); else if (c.raw(6)) set(a.mx, nm, empty(c)); };
    Mx ht = nullptr; if (needIdentity) { a.ht = HST_IDENTITY; ht = mxCreateDoubleScalar(1); } else { int k = (int)c.raw(4); if (k == 0) ht = mxCreateDoubleScalar(c.flag() ? 6 : -1); else if (k == 1 && q.hk != HK_DENSE) { a.ht = q.hk == HK_ID ? HST_IDENTITY : HST_ZERO; ht = mxCreateDoubleScalar(a.ht); } else if (k == 2 && q.hk == HK_DENSE && !cholesky(q).empty()) { a.ht = HST_POSDEF; ht = mxCreateDoubleScalar(2); } } opt("hessianType", ht);
    Mx x0 = nullptr; if (c.raw(3) == 0) { a.x0 = point(); x0 = column(a.x0); } opt("x0", x0);
    a.w = genGuess(c, q, (int)c.raw(6) * (int)c.raw(2), (int)c.raw(6) * (int)c.raw(2));
    auto num = [](SubjectToStatus s) { return s == ST_LOWER ? -1 : s == ST_UPPER ? 1 : 0; };
    Mx gb = a.w.b ? statusArray(n, [&](int i) { return num(a.w.b->getStatus(i)); }) : nullptr, gc = a.w.c ? statusArray(m, [&](int i) { return num(a.w.c->getStatus(i)); }) : nullptr; if (c.flag()) { opt("guessedWorkingSetB", gb); opt("guessedWorkingSetC", gc); } else { opt("guessedWorkingSetC", gc); opt("guessedWorkingSetB", gb); }
    Mx R = nullptr; if (useR) { a.R = cholesky(q); if (a.R.size()) R = full(a.R, n, n); } opt("R", R); return a;
}
// what one solved problem looks like in the outputs
struct Want { Vec x, y, ws, wc; double obj = 0, cpu = 0; int status = 0; int_t w = 0; returnValue rv = SUCCESSFUL_RETURN; };
template <class P> static Want want(P& p, int n, int m, returnValue rv, int_t w, double cpu) { Want r; r.x.assign(n, 0.0); r.y.assign(n + m, 0.0); r.ws.assign(n, 0.0); r.wc.assign(m, 0.0); p.getPrimalSolution(r.x.data()); p.getDualSolution(r.y.data()); r.obj = p.getObjVal(); p.getWorkingSetBounds(r.ws.data()); if (m) p.getWorkingSetConstraints(r.wc.data()); r.status = (int)getSimpleStatus(rv); r.w = w; r.cpu = cpu; r.rv = rv; return r; }
static bool near(double a, double b) { return eqb(a, b) || fabs(a - b) <= 1e-9 * (1 + fabs(a)); }
static void same(Ctx& c, const Val& v, size_t M, size_t N, size_t k, const double* w, const std::string& tag, const std::string& what, const std::string& show) {
    PBT_CHECK(c, v.set && v.M == M && v.N == N && v.v.size() == M * N, tag + "-" + what + "-size", what << " is " << v.M << " by " << v.N << ", expected " << M << " by " << N << "\n" << show);
    for (size_t i = 0; i < M; i++) PBT_CHECK(c, near(v.v[k * M + i], w[i]), tag + "-" + what, what << " (column " << k << ") is " << str(Vec(v.v.begin() + k * M, v.v.begin() + (k + 1) * M)) << ", C++ gives " << str(Vec(w, w + M)) << "\n" << show);
}
static void compare(Ctx& c, const Res& r, int off, int nl, const std::vector<Want>& ws, int n, int m, const std::string& tag, const std::string& show) {
    size_t P = ws.size(); for (size_t k = 0; k < P; k++) {
        const Want& w = ws[k]; double st = w.status, it = (double)w.w; std::string s = show + " column " + std::to_string(k) + " C++ return value " + std::to_string((int)w.rv) + " after " + std::to_string((long)w.w) + " iterations"; int i = off;
        if (nl > i) same(c, r.o[i], n, P, k, w.x.data(), tag, "x", s); i++; if (nl > i) same(c, r.o[i], 1, P, k, &w.obj, tag, "fval", s); i++; if (nl > i) same(c, r.o[i], 1, P, k, &st, tag, "exitflag", s); i++; if (nl > i) same(c, r.o[i], 1, P, k, &it, tag, "iter", s); i++; if (nl > i) same(c, r.o[i], n + m, P, k, w.y.data(), tag, "lambda", s); i++;
        if (nl > i) { const Val& a = r.o[i]; const Val *b = a.get("workingSetB"), *d = a.get("workingSetC"), *t = a.get("cpuTime"); PBT_CHECK(c, a.st && b && d && t, tag + "-aux", "auxOutput lacks fields"); same(c, *b, n, P, k, w.ws.data(), tag, "workingSetB", s); same(c, *d, m, P, k, w.wc.data(), tag, "workingSetC", s); same(c, *t, 1, P, k, &w.cpu, tag, "cpuTime", s); }
    }
}
struct Data { bool inf = false, nul[4] = {false, false, false, false}; Vec g, v[4]; const double* p(int k) const { return nul[k] ? nullptr : v[k].data(); } };   // vectors as they are passed
static Data vectors(const QP& q, bool inf, const bool nul[4]) { Data d; d.inf = inf; d.g = q.g; const Vec* s[] = {&q.lb, &q.ub, &q.lbA, &q.ubA}; for (int k = 0; k < 4; k++) { d.nul[k] = nul[k]; for (double x : *s[k]) d.v[k].push_back(out(x, inf)); if (d.v[k].empty()) d.nul[k] = true; } return d; }
static bool absent(const QP& q, int k) { return allInf(k == 0 ? q.lb : k == 1 ? q.ub : k == 2 ? q.lbA : q.ubA, k & 1 ? INF : -INF); }
static Mx block(const std::vector<Data>& d, int which, int rows, Ctx& c) { size_t P = d.size(); if (which >= 0 && d[0].nul[which]) return empty(c); Mx x = mexmock::make(rows, P); for (size_t k = 0; k < P; k++) { const Vec& v = which < 0 ? d[k].g : d[k].v[which]; if (rows) memcpy(mxGetPr(x) + k * rows, v.data(), rows * 8); } return x; }
template <class P> static returnValue mInit(P& p, Mat* H, Mat* A, const Data& d, int_t& w, double* cpu, const Guess& s);
template <> returnValue mInit(QProblem& p, Mat* H, Mat* A, const Data& d, int_t& w, double* cpu, const Guess& s) { return p.init(H ? H->sym() : nullptr, d.g.data(), A ? A->p.get() : nullptr, d.p(0), d.p(1), d.p(2), d.p(3), w, cpu, s.x, nullptr, s.b, s.c, s.R); }
template <> returnValue mInit(QProblemB& p, Mat* H, Mat*, const Data& d, int_t& w, double* cpu, const Guess& s) { return p.init(H ? H->sym() : nullptr, d.g.data(), d.p(0), d.p(1), w, cpu, s.x, nullptr, s.b, s.R); }
static Vec hessian(const QP& q) { Vec h((size_t)q.n * q.n); for (int i = 0; i < q.n; i++) for (int j = 0; j < q.n; j++) h[(size_t)i * q.n + j] = q.h(i, j); return h; }
static std::string hmat(const Vec& h, int n) { std::ostringstream z; z << " H=" << strM(h, n, n); return z.str(); }
// turns one argument into something the interface must refuse
static std::string corrupt(Ctx& c, std::vector<Mx>& in, const std::vector<int>& mats, const std::vector<int>& vecs, bool noSparse) {
    std::vector<int> all = mats; all.insert(all.end(), vecs.begin(), vecs.end()); std::vector<int> full_; for (int i : all) if (!mxIsEmpty(in[i])) full_.push_back(i); if (full_.empty()) throw pbt::Discard(); int i = full_[c.raw(full_.size())]; bool isMat = std::find(mats.begin(), mats.end(), i) != mats.end(); bool first = !vecs.empty() && i == vecs[0]; Mx a = in[i];
    auto dup = [&] { in[i] = a = mxDuplicateArray(a); };
    size_t nz = a->sparse ? a->jc[a->N] : a->count();
    switch (c.raw(5)) {
    case 0: if (!nz) throw pbt::Discard(); dup(); mxGetPr(a)[c.raw(nz)] = NAN; return "NaN in argument " + std::to_string(i + 1);
    case 1: if (!nz || !(isMat || first)) throw pbt::Discard(); dup(); mxGetPr(a)[c.raw(nz)] = c.flag() ? HUGE_VAL : -HUGE_VAL; return "Inf in argument " + std::to_string(i + 1);
    case 2: { if (isMat) { Mx b = mexmock::make(a->M, a->N + 1); in[i] = b; } else { bool others = false; for (int j : vecs) others |= j != i && !mxIsEmpty(in[j]); bool rows = !others || c.flag(); Mx b = mexmock::make(a->M + (rows ? 1 : 0), a->N + (rows ? 0 : 1)); in[i] = b; } return "wrong size of argument " + std::to_string(i + 1); }
    case 3: { if (isMat || noSparse) throw pbt::Discard(); Mx b = mexmock::makeSparse(a->M, a->N, a->M * a->N); for (size_t k = 0; k < a->M * a->N; k++) { mxGetPr(b)[k] = mxGetPr(a)[k]; b->ir[k] = k % a->M; } for (size_t j = 0; j <= a->N; j++) b->jc[j] = j * a->M; in[i] = b; return "sparse argument " + std::to_string(i + 1); }
    default: { if (a->sparse) throw pbt::Discard(); Mx b = mexmock::make(a->M, a->N, mxINT32_CLASS); in[i] = b; return "integer argument " + std::to_string(i + 1); }
    }
}
struct Clean { ~Clean() { mexmock::clear(0); } };
static std::string optShow(const Opt& o) { std::ostringstream z; z << (o.mx ? " opts " : " no opts ") << optStr(o.eff) << " maxIter " << o.w << " maxCpu " << o.cpu; return z.str(); }
// the C++ matrix with exactly the entries of the argument; Hessians get the diagonal entries they lack
static std::unique_ptr<Mat> model(const mxArray* x, bool sym) {
    auto r = std::make_unique<Mat>(); int M = (int)x->M, N = (int)x->N; const double* p = mxGetPr(x);
    if (!x->sparse) { r->dense.resize((size_t)M * N); for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) r->dense[(size_t)i * N + j] = p[(size_t)j * M + i]; if (sym) r->p = std::make_unique<SymDenseMat>(M, N, N, r->dense.data()); else r->p = std::make_unique<DenseMatrix>(M, N, N, r->dense.data()); return r; }
    r->jc.assign(1, 0); for (int j = 0; j < N; j++) { bool diag = !sym; auto put = [&](int i, double v) { r->ir.push_back(i); r->valv.push_back(v); }; for (size_t k = x->jc[j]; k < x->jc[j + 1]; k++) { int i = (int)x->ir[k]; if (!diag && i > j) put(j, 0); if (i >= j) diag = true; put(i, p[k]); } if (!diag) put(j, 0); r->jc.push_back((sparse_int_t)r->ir.size()); } if (r->ir.empty()) { r->ir.reserve(1); r->valv.reserve(1); }
    if (sym) { auto h = std::make_unique<SymSparseMat>(M, N, r->ir.data(), r->jc.data(), r->valv.data()); h->createDiagInfo(); r->p = std::move(h); } else r->p = std::make_unique<SparseMatrix>(M, N, r->ir.data(), r->jc.data(), r->valv.data()); return r;
}
struct Mats { int rH = R_DENSE, rA = R_DENSE; Vec h; Mx xh = nullptr, xa = nullptr; std::unique_ptr<Mat> mh, ma; };
static void mats(Ctx& c, const QP& q, bool trivialExplicit, Mats& r) { r.rH = c.flag() ? R_SPARSE : R_DENSE; r.rA = c.flag() ? R_SPARSE : R_DENSE; r.h.clear(); if (q.hk == HK_DENSE || trivialExplicit) r.h = hessian(q); r.mh.reset(); r.ma.reset(); r.xh = r.xa = nullptr; if (r.h.size()) { r.xh = matrix(c, r.h, q.n, q.n, r.rH); r.mh = model(r.xh, true); } if (q.m) { r.xa = matrix(c, q.A, q.m, q.n, r.rA); r.ma = model(r.xa, false); } }
PBT_PROP(oneshot, 4) {
    Clean cl; int iface = (int)c.raw(2); std::string tag = std::string(IFN[iface]) + "-oneshot"; QP q; Ses s; start(c, q, s, c.raw(3) == 0); int n = q.n, m = q.m, P = c.weighted({3, 1, 1, 1}) + 1; Mats mt_; mats(c, q, c.raw(3) == 0, mt_); auto &mh = mt_.mh, &ma = mt_.ma; int &rH = mt_.rH, &rA = mt_.rA; bool needId = q.hk == HK_ID && !mh;
    std::vector<QP> seq(1, q); int badAt = c.raw(6) == 0 ? (int)c.raw(P) : -1; for (int k = 1; k < P; k++) { QP t = seq.back(); next(c, t, s, c.weighted({3, 3, 2, 1})); seq.push_back(t); } if (badAt >= 0 && m) genInfeasible(c, seq[badAt], true);
    if (badAt >= 0) { bool moved = seq[badAt].A != q.A; if (moved) { if (P > 1) throw pbt::Discard(); q = seq[0]; mats(c, q, mh && q.hk != HK_DENSE, mt_); } }
    bool inf = c.flag(), nul[4]; for (int k = 0; k < 4; k++) { nul[k] = c.flag(); for (auto& t : seq) if (!absent(t, k)) nul[k] = false; } std::vector<Data> d; for (auto& t : seq) d.push_back(vectors(t, inf, nul));
    Opt o = genOpt(c, s.o, n + m); Aux a = genAux(c, q, needId); if (q.hk == HK_ID && !mh && a.ht != HST_IDENTITY) throw pbt::Discard();
    bool constrained = m > 0 || c.raw(6) == 0; std::vector<Mx> in; in.push_back(mh ? mt_.xh : empty(c)); in.push_back(block(d, -1, n, c)); if (constrained) in.push_back(m ? mt_.xa : mexmock::make(0, 0)); in.push_back(block(d, 0, n, c)); in.push_back(block(d, 1, n, c)); if (constrained) { in.push_back(m ? block(d, 2, m, c) : mexmock::make(0, 0)); in.push_back(m ? block(d, 3, m, c) : mexmock::make(0, 0)); }
    size_t base = in.size(); if (o.mx || a.mx) in.push_back(o.mx ? o.mx : mexmock::make(0, 0)); if (a.mx) in.push_back(a.mx); int nl = 1 + (int)c.raw(6); if (c.raw(2)) nl = 6;
    std::ostringstream z; z << IFN[iface] << " one-shot, " << P << " columns, nlhs " << nl << (mh ? rH == R_SPARSE ? " sparse H" : " dense H" : " no H") << (rA == R_SPARSE ? " sparse A" : " dense A") << (inf ? " Inf" : "") << optShow(o); if (a.mx) z << " aux" << (a.x0.size() ? " x0" : "") << a.w.show << (a.R.size() ? " R" : "") << " type " << (int)a.ht; for (auto& t : seq) z << " || " << t.show(); std::string show = z.str(); if (c.verbose) c.desc << show;
    if (c.raw(8) == 0) {   // refused
        std::string why; std::vector<Mx> bad = in; int k = (int)c.raw(6); if (k == 0) { nl = c.flag() ? 0 : 7; why = "number of outputs"; } else if (k == 1) { bad.resize(c.raw(4)); why = "number of inputs"; } else if (k == 2) { while (bad.size() < 10) bad.push_back(mexmock::make(0, 0)); why = "number of inputs"; }
        else if (k == 3 && constrained && o.mx && mxIsStruct(o.mx)) { bad[4] = o.mx; why = "struct as fifth argument"; }
        else if (k == 4) { if (constrained && !m) throw pbt::Discard(); while (bad.size() < base + 1) bad.push_back(mexmock::make(0, 0)); bad.resize(base + 1); Mx st = mxCreateStructMatrix(1, 1, 0, nullptr); const char* N[] = {"hessianType", "x0", "guessedWorkingSetB", "guessedWorkingSetC", "R"}; int b = 1 + (int)c.raw(4); for (int i = 0; i < 5; i++) set(st, N[i], i != b ? empty(c) : c.flag() || b == 1 || b == 4 ? mexmock::make((b == 3 ? m : n) + 1, b == 4 ? n : 1) : statusArray(b == 3 ? m : n, [&](int) { return c.flag() ? 2 : -3; })); if (b == 3 && !m) throw pbt::Discard(); bad.push_back(st); why = std::string("auxInput.") + N[b]; }
        else { std::vector<int> mt, vt; if (mh) mt.push_back(0); if (m) mt.push_back(2); vt.push_back(1); int at = constrained ? 3 : 2; vt.push_back(at); vt.push_back(at + 1); if (m) { vt.push_back(at + 2); vt.push_back(at + 3); } why = corrupt(c, bad, mt, vt, false); if (n == 1 && why.find("size") != std::string::npos) throw pbt::Discard(); if (!mh && why == "wrong size of argument 2") throw pbt::Discard(); if (m && why == "wrong size of argument 3" && 0) throw pbt::Discard(); }
        Res r = call(c, fn(iface, false), nl, bad, tag); PBT_CHECK(c, r.err, tag + "-accepted", "call with invalid " << why << " was not refused\n" << show); c.label(tag + " refused"); c.nontrivial = true; return;
    }
    std::vector<Want> ws; Guess gs = a.guess(); auto drive = [&](auto& p, auto hot) { p.setOptions(o.eff); for (int k = 0; k < P; k++) { int_t w = o.w; double cpu = o.cpu >= 0 ? o.cpu : INFTY; g_clock = 0; returnValue rv = k == 0 ? mInit(p, mh.get(), ma.get(), d[0], w, &cpu, gs) : hot(p, d[k], w, &cpu); ws.push_back(want(p, n, m, rv, w, cpu)); } };
    if (m) { QProblem p(n, m, a.ht); drive(p, [](QProblem& p, const Data& e, int_t& w, double* t) { return p.hotstart(e.g.data(), e.p(0), e.p(1), e.p(2), e.p(3), w, t); }); } else { QProblemB p(n, a.ht); drive(p, [](QProblemB& p, const Data& e, int_t& w, double* t) { return p.hotstart(e.g.data(), e.p(0), e.p(1), w, t); }); }
    Res r = call(c, fn(iface, false), nl, in, tag); PBT_CHECK(c, !r.err, tag + "-refused", "valid call refused: " << r.msg << "\n" << show); compare(c, r, 0, nl, ws, n, m, tag, show);
    if (r.leak > 0) { Res r2 = call(c, fn(iface, false), nl, in, tag); PBT_CHECK(c, r2.leak <= 0, tag + "-leak", r2.leak << " bytes are lost by the call\n" << show); }
    // the answers must be right as well
    for (int k = 0; k < P; k++) if (ws[k].status == 0 && nl >= 5 && !o.strange && o.mx && q.generic && s.on != "mpc" && seq[k].hasSol && mh) { Sol z2; z2.x = Vec(r.o[0].v.begin() + k * n, r.o[0].v.begin() + (k + 1) * n); z2.y = Vec(r.o[4].v.begin() + k * (n + m), r.o[4].v.begin() + (k + 1) * (n + m)); z2.obj = r.o[1].v[k]; checkKkt(c, seq[k], z2, tag, 100 * tolOf(s.o)); }
    for (auto& w : ws) { c.label(tag + " status " + std::to_string(w.status)); if (w.status == 0 && w.w > 0) c.nontrivial = true; } if (a.x0.size()) c.label(tag + " x0"); if (a.w.b || a.w.c) c.label(tag + " working set guess"); if (a.R.size()) c.label(tag + " R"); if (mh && rH == R_SPARSE) c.label(tag + " sparse H"); if (m && rA == R_SPARSE) c.label(tag + " sparse A"); if (P > 1) c.label(tag + " several columns");
}
struct Live { double handle = 0; std::unique_ptr<SQProblem> sq; std::unique_ptr<QProblemB> qb; QP q; Ses s; std::vector<std::unique_ptr<Mat>> keep; bool explicitH = false, needId = false; };
static void warm() { static bool done = false; if (done) return; done = true; for (int i = 0; i < 2; i++) { MexFn f = fn(i, true); Vec hs; for (int k = 0; k < 9; k++) { mxArray* l[2] = {nullptr, nullptr}; Mx a = mxCreateString("i"), h = mxCreateDoubleScalar(1), b = mxCreateDoubleScalar(k == 8 ? 2 : -1), u = mxCreateDoubleScalar(1); const mxArray* r[] = {a, h, h, b, u}; try { f(2, l, 5, r); hs.push_back(mxGetScalar(l[0])); } catch (...) {} } for (double x : hs) { const mxArray* r[] = {mxCreateString("c"), mxCreateDoubleScalar(x)}; try { f(0, nullptr, 2, r); } catch (...) {} } } mexmock::clear(0); }
PBT_PROP(sequence, 5) {
    warm();
    Clean cl; int iface = (int)c.raw(2); MexFn f = fn(iface, true); std::string pre = std::string(IFN[iface]) + "-sequence"; std::vector<std::unique_ptr<Live>> live; std::vector<double> gone; int steps = c.range(2, 9); long leak = 0; bool errs = false; std::string log; auto scalar = [](double v) { return mxCreateDoubleScalar(v); }; auto S = [&](const char* lower) { std::string t = lower; if (c.raw(6) == 0) t[0] = (char)toupper(t[0]); if (c.raw(10) == 0) t += "x"; return mxCreateString(t.c_str()); };
    auto finish = [&] { for (auto& l : live) { Res r = call(c, f, 0, {S("c"), scalar(l->handle)}, pre + "-cleanup"); leak += r.leak; PBT_CHECK(c, !r.err, pre + "-cleanup-refused", "cleanup of handle " << l->handle << " refused: " << r.msg); } live.clear(); };
    struct Guard { std::function<void()> f; bool on = true; ~Guard() { if (on) try { f(); } catch (...) {} } } guard{finish};
    for (int st = 0; st < steps; st++) {
        int act = live.empty() ? c.weighted({10, 0, 0, 0, 0, 1}) : c.weighted({live.size() < 4 ? 3u : 0u, 8, 4, 2, 1, 1}); QP* pq = nullptr; std::ostringstream z;
        if (act == 0) {
            auto L = std::make_unique<Live>(); QP& q = L->q; start(c, q, L->s, c.raw(3) == 0); int n = q.n; bool spoil = c.raw(8) == 0 && q.m; if (spoil) genInfeasible(c, q, true); int m = q.m; Mats mm; L->explicitH = c.raw(3) == 0; mats(c, q, L->explicitH, mm); auto &mh = mm.mh, &ma = mm.ma; int rH = mm.rH, rA = mm.rA; L->needId = q.hk == HK_ID && !mh; bool inf = c.flag(), nul[4]; for (int k = 0; k < 4; k++) nul[k] = c.flag() && absent(q, k); std::vector<Data> d(1, vectors(q, inf, nul));
            Opt o = genOpt(c, L->s.o, n + m); Aux a = genAux(c, q, L->needId); bool constrained = m > 0 || c.raw(5) == 0;
            std::vector<Mx> in{S("i"), mh ? mm.xh : empty(c), block(d, -1, n, c)}; if (constrained) in.push_back(m ? mm.xa : mexmock::make(0, c.flag() ? n : 0)); in.push_back(block(d, 0, n, c)); in.push_back(block(d, 1, n, c)); if (constrained) { in.push_back(m ? block(d, 2, m, c) : mexmock::make(0, 0)); in.push_back(m ? block(d, 3, m, c) : mexmock::make(0, 0)); } if (o.mx || a.mx) in.push_back(o.mx ? o.mx : mexmock::make(0, 0)); if (a.mx) { in.push_back(a.mx); } int nl = c.raw(3) ? 7 : 1 + (int)c.raw(7); std::string tag = pre + "-init";
            z << " | init " << (constrained ? "constrained" : "bounds") << " nlhs " << nl << (mh ? rH == R_SPARSE ? " sparse H" : " dense H" : " no H") << (rA == R_SPARSE ? " sparse A" : " dense A") << (inf ? " Inf" : "") << optShow(o) << (a.mx ? " aux" : "") << (a.x0.size() ? " x0" : "") << a.w.show << (a.R.size() ? " R" : "") << " type " << (int)a.ht << " " << q.show(); log += z.str(); if (c.verbose) c.desc << z.str();
            if (c.raw(12) == 0) { std::vector<Mx> bad = in; std::string why; int k = (int)c.raw(4); if (k == 0) { nl = c.flag() ? 0 : 8; why = "number of outputs"; } else if (k == 1) { bad.resize(c.raw(5)); why = "number of inputs"; } else if (k == 2 && m) { int W = mh ? 1 : 2; (void)W; bad[3] = mexmock::make(m, 0); why = "constraint matrix without columns"; } else { std::vector<int> mt, vt{2}; if (mh) mt.push_back(1); if (m) mt.push_back(3); int at = constrained ? 4 : 3; vt.push_back(at); vt.push_back(at + 1); if (m) { vt.push_back(at + 2); vt.push_back(at + 3); } why = corrupt(c, bad, mt, vt, false); if (!mh && why == "wrong size of argument 3") throw pbt::Discard(); } Res r = call(c, f, nl, bad, tag); PBT_CHECK(c, r.err, tag + "-accepted", "init with invalid " << why << " was not refused\n" << log); errs = true; c.label(tag + " refused"); continue; }
            Guess gs = a.guess(); int_t w = o.w; double cpu = o.cpu >= 0 ? o.cpu : INFTY; g_clock = 0; returnValue rv; Want wt; if (constrained) { L->sq.reset(new SQProblem(n, m, a.ht)); L->sq->setOptions(o.eff); rv = mInit(static_cast<QProblem&>(*L->sq), mh.get(), ma.get(), d[0], w, &cpu, gs); wt = want(*L->sq, n, m, rv, w, cpu); } else { L->qb.reset(new QProblemB(n, a.ht)); L->qb->setOptions(o.eff); rv = mInit(*L->qb, mh.get(), nullptr, d[0], w, &cpu, gs); wt = want(*L->qb, n, 0, rv, w, cpu); }
            if (mh) L->keep.push_back(std::move(mh)); if (ma) L->keep.push_back(std::move(ma));
            Res r = call(c, f, nl, in, tag); leak += r.leak; PBT_CHECK(c, !r.err, tag + "-refused", "valid init refused: " << r.msg << "\n" << log); PBT_CHECK(c, r.o[0].M == 1 && r.o[0].N == 1, tag + "-handle", "handle is not a scalar"); L->handle = r.o[0].v[0]; for (auto& l : live) PBT_CHECK(c, l->handle != L->handle, tag + "-handle-reused", "handle " << L->handle << " is live already"); live.push_back(std::move(L)); compare(c, r, 1, nl, {wt}, n, m, tag, log); c.label(tag + " status " + std::to_string(wt.status)); if (live.size() > 1) c.label(pre + " several handles"); continue;
        }
        if (act == 5) {   // a handle that does not exist, or no sensible command
            double hd = gone.size() && c.flag() ? gone[c.raw(gone.size())] : 1e6 + (double)c.raw(9); int k = (int)c.raw(5); std::vector<Mx> in; int nl = 1; Mx v = mexmock::make(2, 1), v0 = mexmock::make(0, 0);
            if (k == 0) in = {S("h"), scalar(hd), v, v0, v0}; else if (k == 1) in = {S("m"), scalar(hd), mexmock::make(2, 2), v, mexmock::make(1, 2), v0, v0, v0, v0}; else if (k == 2) in = {S("e"), scalar(hd), v, v, v, v0, v0}; else if (k == 3) in = {mxCreateString(c.flag() ? "q" : "xi"), scalar(hd), v, v0, v0}; else in = {scalar(1), scalar(hd), v, v0, v0}; if (k < 3 && c.raw(3) == 0) in[1] = mexmock::make(1, 2);
            Res r = call(c, f, nl, in, pre + "-bad"); PBT_CHECK(c, r.err, pre + "-bad-accepted", "call " << k << " with handle " << hd << " was not refused\n" << log); errs = true; if (c.flag()) { Res r2 = call(c, f, 0, {S("c"), scalar(hd)}, pre + "-bad"); (void)r2; } c.label(pre + " bad call"); continue;
        }
        size_t li = (size_t)c.raw(live.size()); Live& L = *live[li]; QP& q = L.q; int n = q.n, m = q.m; bool con = (bool)L.sq; int nl = c.raw(3) ? 6 : 1 + (int)c.raw(6);
        if (act == 4) { Res r = call(c, f, 0, {S("c"), scalar(L.handle)}, pre + "-cleanup"); leak += r.leak; PBT_CHECK(c, !r.err, pre + "-cleanup-refused", r.msg); gone.push_back(L.handle); log += " | cleanup"; if (c.verbose) c.desc << " | cleanup"; live.erase(live.begin() + li); continue; }
        QP t = q; bool newMats = act == 2; VecOpt vo; vo.degenerate = L.s.deg;
        if (act == 3) {   // current working set, several right hand sides
            int P = c.weighted({3, 1, 1}) + 1; std::vector<Data> d; bool nul[4] = {c.raw(6) == 0, c.raw(6) == 0, c.raw(6) == 0, c.raw(6) == 0}; for (int k = 0; k < P; k++) { QP u = q; for (auto& x : u.g) x = val(c, q.generic, 2); d.push_back(vectors(u, false, nul)); for (int j = 0; j < 4; j++) for (auto& x : d.back().v[j]) if (fabs(x) < INF) x += val(c, q.generic, 0.5); } nl = 1 + (int)c.raw(4); Opt o = genOpt(c, L.s.o, n + m); std::string tag = pre + "-eqp";
            std::vector<Mx> in{S("e"), scalar(L.handle), block(d, -1, n, c), block(d, 0, n, c), block(d, 1, n, c), m ? block(d, 2, m, c) : mexmock::make(0, 0), m ? block(d, 3, m, c) : mexmock::make(0, 0)}; if (o.mx) in.push_back(o.mx); z << " | eqp " << P << " columns nlhs " << nl; log += z.str(); if (c.verbose) c.desc << z.str();
            bool bad = c.raw(8) == 0; if (bad) { std::vector<int> vt{2, 3, 4}; if (m) { vt.push_back(5); vt.push_back(6); } std::string why = corrupt(c, in, {}, vt, false); if (why == "wrong size of argument 3" ) throw pbt::Discard(); Res r = call(c, f, nl, in, tag); PBT_CHECK(c, r.err, tag + "-accepted", "equality problem with " << why << " was not refused\n" << log); errs = true; continue; }
            if (!con) { Res r = call(c, f, nl, in, tag); PBT_CHECK(c, r.err, tag + "-accepted", "equality problem for a simply bounded problem was not refused\n" << log); errs = true; c.label(tag + " without constraints"); continue; }
            Vec x((size_t)n * P, 0.0), y((size_t)(n + m) * P, 0.0), wb(n, 0.0), wc(m, 0.0), G, V[4]; for (auto& e : d) { G.insert(G.end(), e.g.begin(), e.g.end()); for (int j = 0; j < 4; j++) V[j].insert(V[j].end(), e.v[j].begin(), e.v[j].end()); } if (o.mx && mxIsStruct(o.mx)) L.sq->setOptions(o.eff); L.sq->getWorkingSetBounds(wb.data()); if (m) L.sq->getWorkingSetConstraints(wc.data()); auto pv = [&](int j) { return d[0].nul[j] ? nullptr : V[j].data(); };
            returnValue rv = L.sq->solveCurrentEQP(P, G.data(), pv(0), pv(1), pv(2), pv(3), x.data(), y.data()); Res r = call(c, f, nl, in, tag); PBT_CHECK(c, r.err == (rv != SUCCESSFUL_RETURN), tag + "-refused", "C++ returned " << (int)rv << ", interface " << (r.err ? r.msg : "succeeded") << "\n" << log); c.label(tag + (r.err ? " failed" : " solved")); if (r.err) { errs = true; continue; }
            leak += r.leak; for (int k = 0; k < P; k++) { same(c, r.o[0], n, P, k, x.data() + (size_t)k * n, tag, "x", log); if (nl > 1) same(c, r.o[1], n + m, P, k, y.data() + (size_t)k * (n + m), tag, "lambda", log); } if (nl > 2) same(c, r.o[2], n, P, 0, wb.data(), tag, "workingSetB", log); if (nl > 3) same(c, r.o[3], m, P, 0, wc.data(), tag, "workingSetC", log); continue;
        }
        if (newMats) { if (q.hk == HK_DENSE && c.flag()) genH(c, t, false); if (t.hk != q.hk) t.hk = q.hk; if (m) genA(c, t); genVectors(c, t, vo); } else if (q.hasSol) next(c, t, L.s, c.weighted({3, 3, 2, 1})); else genVectors(c, t, vo);
        if (newMats && q.hk != HK_DENSE) newMats = true; if (c.raw(10) == 0 && m && newMats) genInfeasible(c, t, true); else if (c.raw(10) == 0 && m) { int i = (int)c.raw(m); if (t.lbA[i] > -INF) t.ubA[i] = t.lbA[i] - 1; t.hasSol = false; }
        bool inf = c.flag(), nul[4]; for (int k = 0; k < 4; k++) nul[k] = c.flag() && absent(t, k); std::vector<Data> d(1, vectors(t, inf, nul)); Opt o = genOpt(c, L.s.o, n + m); std::string tag = pre + (newMats ? "-matrices" : "-hotstart"); std::vector<Mx> in; Mats mm; auto &mh = mm.mh, &ma = mm.ma; std::vector<int> mt, vt; m = t.m; bool strangeArgs = false;
        if (newMats) { mats(c, t, L.explicitH, mm); int rH = mm.rH, rA = mm.rA; in = {S("m"), scalar(L.handle), mh ? mm.xh : empty(c), block(d, -1, n, c), m ? mm.xa : mexmock::make(0, c.flag() ? n : 0)}; if (mh) mt.push_back(2); if (m) mt.push_back(4); vt.push_back(3); if (mh) z << (rH == R_SPARSE ? " sparse H" : " dense H"); else z << " no H"; z << (rA == R_SPARSE ? " sparse A" : " dense A"); }
        else { in = {S("h"), scalar(L.handle), block(d, -1, n, c)}; vt.push_back(2); }
        int at = (int)in.size(); in.push_back(block(d, 0, n, c)); in.push_back(block(d, 1, n, c)); vt.push_back(at); vt.push_back(at + 1); strangeArgs = !newMats && c.raw(15) == 0; if (newMats || con != strangeArgs) { in.push_back(m ? block(d, 2, m, c) : mexmock::make(0, 0)); in.push_back(m ? block(d, 3, m, c) : mexmock::make(0, 0)); if (m) { vt.push_back(at + 2); vt.push_back(at + 3); } } if (o.mx) in.push_back(o.mx);
        z << " | " << (newMats ? "matrices" : "hotstart") << " of " << li << " nlhs " << nl << (inf ? " Inf" : "") << optShow(o) << " " << t.show(); log += z.str(); if (c.verbose) c.desc << z.str();
        bool bad = c.raw(12) == 0; if (bad) { std::string why; if (c.raw(4) == 0) { nl = c.flag() ? 0 : 7; why = "number of outputs"; } else { why = corrupt(c, in, mt, vt, false); if (newMats && !mh && why == "wrong size of argument 4" ) throw pbt::Discard(); } Res r = call(c, f, nl, in, tag); PBT_CHECK(c, r.err, tag + "-accepted", "call with invalid " << why << " was not refused\n" << log); errs = true; c.label(tag + " refused"); continue; }
        if ((newMats && !con) || strangeArgs) { Res r = call(c, f, nl, in, tag); PBT_CHECK(c, r.err, tag + "-accepted", "call that does not fit the kind of problem was not refused\n" << log); errs = true; c.label(tag + " wrong kind"); continue; }
        int_t w = o.w; double cpu = o.cpu >= 0 ? o.cpu : INFTY; g_clock = 0; returnValue rv; Want wt; Data& e = d[0];
        if (newMats) { L.sq->setOptions(o.eff); rv = L.sq->hotstart(mh ? mh->sym() : nullptr, e.g.data(), ma ? ma->p.get() : nullptr, e.p(0), e.p(1), e.p(2), e.p(3), w, &cpu); wt = want(*L.sq, n, m, rv, w, cpu); if (mh) L.keep.push_back(std::move(mh)); if (ma) L.keep.push_back(std::move(ma)); }
        else if (con) { L.sq->setOptions(o.eff); rv = static_cast<QProblem&>(*L.sq).hotstart(e.g.data(), e.p(0), e.p(1), e.p(2), e.p(3), w, &cpu); wt = want(*L.sq, n, m, rv, w, cpu); } else { L.qb->setOptions(o.eff); rv = L.qb->hotstart(e.g.data(), e.p(0), e.p(1), w, &cpu); wt = want(*L.qb, n, 0, rv, w, cpu); }
        q = t; Res r = call(c, f, nl, in, tag); c.label(tag + " status " + std::to_string(wt.status)); if (wt.status == 0 && wt.w > 0) c.nontrivial = true;
        if (r.err && newMats && wt.status == -1) { errs = true; continue; } leak += r.leak; PBT_CHECK(c, !r.err, tag + "-refused", "valid call refused: " << r.msg << " (C++ return value " << (int)rv << ")\n" << log); compare(c, r, 0, nl, {wt}, n, m, tag, log);
    }
    guard.on = false; finish(); if (!errs) PBT_CHECK(c, leak <= 0, pre + "-leak", leak << " bytes are lost by the calls\n" << log);
}
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
