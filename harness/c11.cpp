// C11: every matrix class against plain dense arithmetic
#include "query.hpp"
using namespace qpOASES; using namespace qg;
namespace {
const double NaN = std::numeric_limits<double>::quiet_NaN();
enum Fmt { F_DENSE, F_SYMDENSE, F_SPARSE, F_SPARSEFROMDENSE, F_SYMSPARSE, F_SYMSPARSEFROMDENSE, F_ROW, F_ROWFROMDENSE };
const char* FN[] = {"dense", "symdense", "sparse", "sparse-from-dense", "symsparse", "symsparse-from-dense", "row", "row-from-dense"};
struct M {
    int r = 0, k = 0, fmt = 0; bool gen = false, sym = false, diagInfo = false; Vec a; std::vector<char> stored; // a: r*k reference; stored: structurally present
    std::unique_ptr<Mat> own; double& at(int i, int j) { return a[(size_t)i * k + j]; } double at(int i, int j) const { return a[(size_t)i * k + j]; }
    Matrix* p() { return own->p.get(); }
    std::string show() const { return std::string(FN[fmt]) + " " + std::to_string(r) + "x" + std::to_string(k) + " " + strM(a, r, k); }
};
double scal(Ctx& c, bool gen) { int k = c.weighted({3, 3, 3, 1}); return k == 0 ? 1 : k == 1 ? -1 : k == 2 ? (gen ? c.real(3) : c.sint(3)) : 0; }
double betaOf(Ctx& c, bool gen) { int k = c.weighted({3, 2, 2, 2}); return k == 0 ? 0 : k == 1 ? 1 : k == 2 ? -1 : (gen ? c.real(3) : c.sint(3)); }
struct IL { std::unique_ptr<Indexlist> l; std::vector<int> v; };
IL list(Ctx& c, int n, int minLen = 0) {   // distinct numbers in any order; built through additions and removals
    IL o; o.l.reset(new Indexlist(n)); std::vector<int> pool(n); for (int i = 0; i < n; i++) pool[i] = i; int len = c.range(std::min(minLen, n), n); bool sorted = c.raw(3) == 0;
    for (int i = 0; i < len; i++) { int j = sorted ? 0 : (int)c.raw((uint32_t)pool.size()); if (sorted && c.raw(2) && (int)pool.size() > len - i) { pool.erase(pool.begin()); } o.v.push_back(pool[j]); o.l->addNumber(pool[j]); pool.erase(pool.begin() + j); }
    if (!o.v.empty() && c.raw(4) == 0 && (int)o.v.size() > minLen) { int j = (int)c.raw((uint32_t)o.v.size()); o.l->removeNumber(o.v[j]); o.v.erase(o.v.begin() + j); }
    return o;
}
bool near(const M& m, double got, double want, double mag) { if (!m.gen) return got == want; return fabs(got - want) <= 1e-12 * (1 + mag); }
void gen(Ctx& c, M& m) {
    m.fmt = (int)c.raw(8); m.sym = m.fmt == F_SYMDENSE || m.fmt == F_SYMSPARSE || m.fmt == F_SYMSPARSEFROMDENSE; m.gen = c.flag();
    m.r = c.range(1, 6); m.k = m.sym || c.raw(4) == 0 ? m.r : c.range(1, 6); int dens = c.range(0, 3); m.a.assign((size_t)m.r * m.k, 0.0); bool dia = c.raw(6) == 0;
    for (int i = 0; i < m.r; i++) for (int j = 0; j < m.k; j++) { if (m.sym && j < i) { m.at(i, j) = m.at(j, i); continue; } if (dia && i != j) continue; if (dens == 0 || (int)c.raw(4) < dens) m.at(i, j) = val(c, m.gen, 3); }
    m.own = std::make_unique<Mat>(); Mat& s = *m.own; bool keepDiag = c.flag(), giveAway = c.raw(3) == 0;
    int ld = m.k + (c.flag() ? (int)c.raw(3) : 0); Vec pad((size_t)m.r * ld, m.gen ? 1e3 : 64); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.k; j++) pad[(size_t)i * ld + j] = m.at(i, j);
    auto mem = [](const Vec& v) { double* q = new double[v.size()]; std::copy(v.begin(), v.end(), q); return q; };
    auto memi = [](const std::vector<sparse_int_t>& v) { sparse_int_t* q = new sparse_int_t[v.size()]; std::copy(v.begin(), v.end(), q); return q; };
    Mat t; bool fromDense = m.fmt == F_SPARSEFROMDENSE || m.fmt == F_SYMSPARSEFROMDENSE || m.fmt == F_ROWFROMDENSE; bool kd = keepDiag || fromDense;
    bool row = m.fmt == F_ROW || m.fmt == F_ROWFROMDENSE; if (row) toCsr(m.a, m.r, m.k, t, kd); else toCsc(m.a, m.r, m.k, t, kd);
    m.stored.assign(m.a.size(), m.fmt <= F_SYMDENSE); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.k; j++) if (m.at(i, j) != 0 || (kd && i == j)) m.stored[(size_t)i * m.k + j] = 1;
    switch (m.fmt) {
        case F_DENSE: case F_SYMDENSE: { double* v; if (giveAway) v = mem(pad); else { s.dense = pad; v = s.dense.data(); } s.p.reset(m.fmt == F_DENSE ? new DenseMatrix(m.r, m.k, ld, v) : (DenseMatrix*)new SymDenseMat(m.r, m.k, ld, v)); if (giveAway) s.p->doFreeMemory(); break; }
        case F_SPARSEFROMDENSE: s.p.reset(new SparseMatrix(m.r, m.k, ld, pad.data())); break;
        case F_SYMSPARSEFROMDENSE: s.p.reset(new SymSparseMat(m.r, m.k, ld, pad.data())); break;
        case F_ROWFROMDENSE: s.p.reset(new SparseMatrixRow(m.r, m.k, ld, pad.data())); break;
        default: {
            sparse_int_t *ir, *jc; double* v; if (giveAway) { ir = memi(t.ir); jc = memi(t.jc); v = mem(t.valv); } else { s.ir = t.ir; s.jc = t.jc; s.valv = t.valv; s.ir.reserve(1); s.valv.reserve(1); ir = s.ir.data(); jc = s.jc.data(); v = s.valv.data(); }
            if (m.fmt == F_SPARSE) s.p.reset(new SparseMatrix(m.r, m.k, ir, jc, v)); else if (m.fmt == F_SYMSPARSE) s.p.reset(new SymSparseMat(m.r, m.k, ir, jc, v)); else s.p.reset(new SparseMatrixRow(m.r, m.k, jc, ir, v));
            if (giveAway) s.p->doFreeMemory();
        }
    }
}
void diagInfo(M& m) {
    if (m.diagInfo) return; m.diagInfo = true;
    if (auto* s = dynamic_cast<SparseMatrix*>(m.p())) s->createDiagInfo(); else if (auto* w = dynamic_cast<SparseMatrixRow*>(m.p())) w->createDiagInfo();
}
bool isDense(const M& m) { return m.fmt <= F_SYMDENSE; }
#define CK(cond, key, ...) PBT_CHECK(c, cond, std::string(FN[m.fmt]) + "-" + (key), __VA_ARGS__ << "\n" << m.show())
void compareAll(Ctx& c, M& m, const char* when) {
    double* f = m.p()->full(); Vec v(f, f + m.a.size()); delete[] f;
    CK(v == m.a, "full", "conversion to dense " << when << " gives " << strM(v, m.r, m.k));
}
Vec randY(Ctx& c, const M& m, size_t len, bool nan) { Vec y(len); for (auto& v : y) v = nan ? NaN : val(c, m.gen, 3); return y; }
// y: guard entries beyond the columns' lengths must stay as they were
void product(Ctx& c, M& m) {
    int kind = (int)c.raw(5); int xN = c.weighted({3, 2, 1}) + 1; double al = scal(c, m.gen), be = betaOf(c, m.gen); bool tr = kind == 1 || kind == 4, indexed = kind >= 2;
    IL R = list(c, m.r), K = list(c, m.k); bool nullK = indexed && !tr && c.raw(3) == 0, compr = c.raw(2) == 0; if (tr) compr = true;
    int nx, ny; std::vector<int> xr, yr; // matrix index of each x and y entry
    if (!indexed) { for (int i = 0; i < m.r; i++) (tr ? xr : yr).push_back(i); for (int j = 0; j < m.k; j++) (tr ? yr : xr).push_back(j); }
    else { std::vector<int> cols = K.v; if (nullK) { cols.clear(); for (int j = 0; j < m.k; j++) cols.push_back(j); } if (tr) { xr = R.v; yr = K.v; } else { xr = cols; yr = R.v; } }
    nx = (int)xr.size(); ny = indexed && !tr && !compr ? m.r : (int)yr.size();
    int xLD = std::max(1, nx) + (int)c.raw(2), yLD = std::max(1, ny) + (int)c.raw(2);
    Vec x((size_t)xLD * xN, NaN), y = randY(c, m, (size_t)yLD * xN, false); for (int k = 0; k < xN; k++) for (int i = 0; i < nx; i++) x[(size_t)k * xLD + i] = val(c, m.gen, 3);
    Vec want = y, mag(y.size(), 0.0);
    for (int k = 0; k < xN; k++) for (int i = 0; i < (int)yr.size(); i++) {
        size_t pos = (size_t)k * yLD + (indexed && !tr && !compr ? yr[i] : i); long double s = 0, mg = fabs(be * y[pos]);
        for (int j = 0; j < nx; j++) { double a = tr ? m.at(xr[j], yr[i]) : m.at(yr[i], xr[j]); s += (long double)a * x[(size_t)k * xLD + j]; mg += fabsl((long double)a * x[(size_t)k * xLD + j]) * fabs(al); }
        want[pos] = (double)(al * s + (be == 0 ? 0.0L : (long double)be * y[pos])); mag[pos] = (double)mg;
        if (be == 0 && c.raw(4) == 0) y[pos] = NaN;   // must not be read
    }
    Vec in = y; returnValue r;
    if (kind == 0) r = m.p()->times(xN, al, x.data(), xLD, be, y.data(), yLD);
    else if (kind == 1) r = m.p()->transTimes(xN, al, x.data(), xLD, be, y.data(), yLD);
    else if (!tr) r = m.p()->times(R.l.get(), nullK ? nullptr : K.l.get(), xN, al, x.data(), xLD, be, y.data(), yLD, B(compr));
    else r = m.p()->transTimes(R.l.get(), K.l.get(), xN, al, x.data(), xLD, be, y.data(), yLD);
    std::string what = std::string(indexed ? "indexed-" : "") + (tr ? "transtimes" : "times") + (indexed && !tr && !compr ? "-uncompressed" : "");
    CK(r == SUCCESSFUL_RETURN, what, "product returned " << (int)r);
    for (size_t i = 0; i < y.size(); i++) CK(near(m, y[i], want[i], mag[i]), what, "alpha " << al << " beta " << be << " rows " << strI(R.v) << " columns " << (nullK ? "all" : strI(K.v)) << " x " << str(x) << " xN " << xN << " y before " << str(in) << " after " << str(y) << " expected " << str(want));
    c.label(std::string(FN[m.fmt]) + " " + what); if (indexed && xr.size() && yr.size()) c.nontrivial = true;
}
void access(Ctx& c, M& m) {
    int kind = (int)c.raw(7);
    if (kind == 0 || kind == 1) {
        bool row = kind == 0; int num = (int)c.raw(row ? m.r : m.k), len = row ? m.k : m.r; IL L = list(c, len); bool all = (row || m.fmt >= F_ROW) && c.raw(3) == 0; double al = scal(c, m.gen);
        std::vector<int> v = L.v; if (all) { v.clear(); for (int i = 0; i < len; i++) v.push_back(i); } Vec o(v.size() + 1, 77); o[v.size()] = 77;
        returnValue r = row ? m.p()->getRow(num, all ? nullptr : L.l.get(), al, o.data()) : m.p()->getCol(num, all ? nullptr : L.l.get(), al, o.data());
        CK(r == SUCCESSFUL_RETURN && o[v.size()] == 77, row ? "getrow" : "getcol", "return code or length");
        for (size_t i = 0; i < v.size(); i++) { double w = al * (row ? m.at(num, v[i]) : m.at(v[i], num)); CK(o[i] == w, row ? "getrow" : "getcol", "entry " << i << " of " << num << " list " << (all ? "all" : strI(v)) << " alpha " << al << " is " << o[i] << " not " << w); }
        c.label(std::string(FN[m.fmt]) + (row ? " getRow" : " getCol")); if (v.size() > 1) c.nontrivial = true; return;
    }
    if (kind == 2) {   // norms
        int type = c.range(1, 2); long double tot = 0; Vec rn(m.r, 0.0), got(m.r + 1, 77);
        for (int i = 0; i < m.r; i++) { long double s = 0; for (int j = 0; j < m.k; j++) s += type == 1 ? fabsl(m.at(i, j)) : (long double)m.at(i, j) * m.at(i, j); tot += s; rn[i] = (double)(type == 1 ? s : sqrtl(s)); }
        double want = (double)(type == 1 ? tot : sqrtl(tot)), n = m.p()->getNorm(type);
        CK(fabs(n - want) <= 1e-12 * (1 + want), "norm", "norm of type " << type << " is " << n << " not " << want);
        CK(m.p()->getRowNorm(got.data(), type) == SUCCESSFUL_RETURN && got[m.r] == 77, "rownorms", "row norms");
        for (int i = 0; i < m.r; i++) { double o = m.p()->getRowNorm(i, type); CK(fabs(o - rn[i]) <= 1e-12 * (1 + rn[i]), "rownorm", "norm of row " << i << " type " << type << " is " << o << " not " << rn[i]); CK(fabs(got[i] - rn[i]) <= 1e-12 * (1 + rn[i]), "rownorms", "norm of row " << i << " type " << type << " is " << got[i] << " not " << rn[i]); }
        c.label(std::string(FN[m.fmt]) + " norm"); return;
    }
    if (kind == 3) {   // diagonal
        bool d = m.r == m.k; if (d) for (int i = 0; i < m.r; i++) for (int j = 0; j < m.k; j++) if (i != j && (isDense(m) ? m.at(i, j) != 0 : (bool)m.stored[(size_t)i * m.k + j])) d = false;   // sparse formats: by structure
        CK((m.p()->isDiag() == BT_TRUE) == d, "isdiag", "isDiag says " << m.p()->isDiag());
        if (!isDense(m) && !m.diagInfo) { CK(m.p()->diag(0) >= INFTY, "diag", "diagonal entry without diagonal information"); if (c.flag()) return; diagInfo(m); }
        for (int i = 0; i < std::min(m.r, m.k); i++) CK(m.p()->diag(i) == m.at(i, i), "diag", "diagonal entry " << i << " is " << m.p()->diag(i));
        c.label(std::string(FN[m.fmt]) + " diag"); return;
    }
    if (kind == 4) {   // diagonal shift
        double al = scal(c, m.gen); bool may = true; int mn = std::min(m.r, m.k); for (int i = 0; i < mn; i++) if (!m.stored[(size_t)i * m.k + i]) may = false;
        if (!isDense(m) && !m.diagInfo) { CK(m.p()->addToDiag(al) != SUCCESSFUL_RETURN, "addtodiag", "diagonal shift without diagonal information"); compareAll(c, m, "after a refused shift"); if (c.flag()) return; diagInfo(m); }
        returnValue r = m.p()->addToDiag(al);
        if (may || al == 0) { CK(r == SUCCESSFUL_RETURN, "addtodiag", "shift by " << al << " returned " << (int)r); for (int i = 0; i < mn; i++) m.at(i, i) = m.at(i, i) + al; }
        else CK(r == RET_NO_DIAGONAL_AVAILABLE, "addtodiag", "shift of a matrix without diagonal entries returned " << (int)r);
        compareAll(c, m, "after a diagonal shift"); c.label(std::string(FN[m.fmt]) + " addToDiag" + (may ? "" : " refused")); return;
    }
    if (kind == 5) {   // submatrix in triplet form
        bool lower = c.raw(3) == 0; IL R = list(c, m.r, 1), K = lower ? IL() : list(c, m.k, 1); int ro = c.sint(3), co = c.sint(3); int form = lower ? 0 : (int)c.raw(4);
        if (lower) { if (m.r != m.k) return; K.v = R.v; K.l.reset(new Indexlist(*R.l)); }
        if (form == 1) K.v.assign(1, K.v[0]); if (form == 2) R.v.assign(1, R.v[0]);
        std::vector<int_t> rv(R.v.begin(), R.v.end()), kv(K.v.begin(), K.v.end());
        auto call = [&](int_t& nnz, int_t* irn, int_t* jcn, double* av) {
            if (form == 0) return m.p()->getSparseSubmatrix(R.l.get(), K.l.get(), ro, co, nnz, irn, jcn, av, B(lower));
            if (form == 1) return m.p()->getSparseSubmatrix(R.l.get(), (int_t)K.v[0], ro, co, nnz, irn, jcn, av, BT_FALSE);
            if (form == 2) return m.p()->getSparseSubmatrix((int_t)R.v[0], K.l.get(), ro, co, nnz, irn, jcn, av, BT_FALSE);
            return m.p()->getSparseSubmatrix((int_t)rv.size(), rv.data(), (int_t)kv.size(), kv.data(), ro, co, nnz, irn, jcn, av, BT_FALSE);
        };
        int_t nnz = -7; returnValue r = call(nnz, nullptr, nullptr, nullptr);
        if (m.fmt >= F_ROW) { CK(r == RET_NOT_YET_IMPLEMENTED, "submatrix", "submatrix of a row-wise matrix returned " << (int)r); return; }
        CK(r == SUCCESSFUL_RETURN, "submatrix", "counting returned " << (int)r);
        std::vector<int_t> irn(nnz + 1, 77), jcn(nnz + 1, 77); Vec av(nnz + 1, 77); int_t n2 = nnz; r = call(n2, irn.data(), jcn.data(), av.data());
        CK(r == SUCCESSFUL_RETURN && n2 == nnz && irn[nnz] == 77 && av[nnz] == 77 && jcn[nnz] == 77, "submatrix", "counted " << nnz << " entries but delivered " << n2);
        Vec S(R.v.size() * K.v.size(), 0.0); std::set<size_t> seen;
        for (int_t e = 0; e < nnz; e++) { long i = irn[e] - ro, j = jcn[e] - co; CK(i >= 0 && i < (long)R.v.size() && j >= 0 && j < (long)K.v.size() && (!lower || i >= j), "submatrix", "entry at " << i << "," << j); CK(seen.insert((size_t)i * K.v.size() + j).second, "submatrix", "entry twice"); S[(size_t)i * K.v.size() + j] = av[e]; }
        for (size_t i = 0; i < R.v.size(); i++) for (size_t j = 0; j < K.v.size(); j++) { if (lower && j > i) continue; CK(S[i * K.v.size() + j] == m.at(R.v[i], K.v[j]), "submatrix", "entry " << i << "," << j << " of rows " << strI(R.v) << " columns " << strI(K.v) << " is " << S[i * K.v.size() + j]); }
        if (nnz > 1) c.nontrivial = true;
        if (c.raw(4) == 0) { int_t z = 0; double d = 0; CK(call(z, nullptr, nullptr, &d) == RET_INVALID_ARGUMENTS, "submatrix", "inconsistent arguments accepted"); }
        c.label(std::string(FN[m.fmt]) + " submatrix" + (lower ? " lower" : "")); return;
    }
    if (auto* s = dynamic_cast<SparseMatrix*>(m.p())) {   // new values, same pattern
        size_t nnz = 0; for (char t : m.stored) nnz += t; Vec v(nnz + 1); size_t e = 0;
        for (int j = 0; j < m.k; j++) for (int i = 0; i < m.r; i++) if (m.stored[(size_t)i * m.k + j]) { double w = val(c, m.gen, 3); if (m.sym) { if (j <= i) m.at(i, j) = w; else w = m.at(i, j); } v[e++] = w; m.at(i, j) = w; }
        if (m.sym) { e = 0; for (int j = 0; j < m.k; j++) for (int i = j + 1; i < m.r; i++) m.at(j, i) = m.at(i, j); for (int j = 0; j < m.k; j++) for (int i = 0; i < m.r; i++) if (m.stored[(size_t)i * m.k + j]) v[e++] = m.at(i, j); }
        s->setVal(v.data()); compareAll(c, m, "after new values"); c.label(std::string(FN[m.fmt]) + " setVal");
    }
}
void bilin(Ctx& c, M& m) {
    if (!m.sym) { product(c, m); return; }
    auto* s = m.own->sym(); IL L = list(c, m.r); int xN = c.range(1, 3), xLD = m.r + (int)c.raw(2), yLD = xN + (int)c.raw(2); Vec x((size_t)xLD * xN, NaN), y((size_t)yLD * xN, 77);
    for (int k = 0; k < xN; k++) for (int i = 0; i < m.r; i++) x[(size_t)k * xLD + i] = val(c, m.gen, 3);
    if (m.fmt != F_SYMDENSE && !m.diagInfo) { CK(s->bilinear(L.l.get(), xN, x.data(), xLD, y.data(), yLD) != SUCCESSFUL_RETURN, "bilinear", "bilinear form without diagonal information"); diagInfo(m); y.assign(y.size(), 77); }
    CK(s->bilinear(L.l.get(), xN, x.data(), xLD, y.data(), yLD) == SUCCESSFUL_RETURN, "bilinear", "bilinear form failed");
    for (int i = 0; i < xN; i++) for (int j = 0; j < yLD; j++) {
        double want = 77, mag = 0; if (j < xN) { long double t = 0; for (int a : L.v) for (int b : L.v) { long double w = (long double)m.at(a, b) * x[(size_t)i * xLD + a] * x[(size_t)j * xLD + b]; t += w; mag += (double)fabsl(w); } want = (double)t; }
        CK(near(m, y[(size_t)i * yLD + j], want, mag), "bilinear", "bilinear form over " << strI(L.v) << " x " << str(x) << " entry " << i << "," << j << " is " << y[(size_t)i * yLD + j] << " not " << want);
    }
    c.label(std::string(FN[m.fmt]) + " bilinear"); if (L.v.size() > 1) c.nontrivial = true;
}
void dup(Ctx& c, M& m) {
    std::unique_ptr<Matrix> d(m.sym && c.flag() ? (Matrix*)m.own->sym()->duplicateSym() : m.p()->duplicate());
    CK(!m.sym || dynamic_cast<SymmetricMatrix*>(d.get()), "duplicate", "duplicate lost its symmetric interface");
    M o; o.r = m.r; o.k = m.k; o.fmt = m.fmt; o.gen = m.gen; o.sym = m.sym; o.diagInfo = m.diagInfo; o.a = m.a; o.stored = m.stored; o.own = std::make_unique<Mat>(); o.own->p = std::move(d);
    compareAll(c, o, "of a duplicate");
    bool may = true; for (int i = 0; i < std::min(m.r, m.k); i++) if (!m.stored[(size_t)i * m.k + i]) may = false;
    if (may) { diagInfo(o); CK(o.p()->addToDiag(2) == SUCCESSFUL_RETURN, "duplicate", "diagonal shift of a duplicate"); for (int i = 0; i < std::min(m.r, m.k); i++) o.at(i, i) += 2; compareAll(c, o, "of a shifted duplicate"); compareAll(c, m, "after shifting a duplicate"); }
    if (c.flag()) std::swap(m, o);   // go on with the duplicate, drop the original
    c.label(std::string(FN[m.fmt]) + " duplicate");
}
}
PBT_PROP(algebra, 1) {
    getGlobalMessageHandler()->setOutputFile(devNull());
    M m; gen(c, m); if (c.verbose) c.desc << m.show(); compareAll(c, m, "initially"); int len = c.range(1, 5);
    for (int i = 0; i < len; i++) { switch (c.weighted({5, 4, 1, 1})) { case 0: product(c, m); break; case 1: access(c, m); break; case 2: bilin(c, m); break; default: dup(c, m); } }
    compareAll(c, m, "finally");
    if (c.raw(8) == 0) m.p()->print("m");
}
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
