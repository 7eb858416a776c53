// C12: index lists, bounds, constraints and the flip backup against list models
#include "query.hpp"
#include <qpOASES/Flipper.hpp>
using namespace qpOASES; using namespace qg;
static std::vector<int> numbers(Indexlist* l) { int_t* p = nullptr; l->getNumberArray(&p); return std::vector<int>(p, p + l->getLength()); }
static std::string op;
#define CK(cond, key, ...) PBT_CHECK(c, cond, key, op << ": " << __VA_ARGS__)

// ---------------------------------------------------------------- index lists
static void agree(Ctx& c, Indexlist& l, const std::vector<int>& v, int cap) {
    CK(l.getLength() == (int)v.size(), "list-length", "length " << l.getLength() << " not " << v.size());
    CK(numbers(&l) == v, "list-order", "numbers " << strI(numbers(&l)) << " not " << strI(v));
    int_t* is = nullptr; CK(l.getISortArray(&is) == SUCCESSFUL_RETURN, "list-sort", "no sort array");
    std::vector<int> s(v); std::sort(s.begin(), s.end()); for (size_t i = 0; i < v.size(); i++) CK(is[i] >= 0 && is[i] < (int)v.size() && v[is[i]] == s[i], "list-sort", "sorted position " << i << " is " << is[i] << " of " << strI(v));
    for (int k = -2; k < cap + 3; k++) { int w = -1; for (size_t i = 0; i < v.size(); i++) if (v[i] == k) w = (int)i; CK(l.getIndex(k) == w && (l.isMember(k) == BT_TRUE) == (w >= 0), "list-index", "index of " << k << " is " << l.getIndex(k) << " not " << w << " in " << strI(v)); }
    for (int i = -1; i < cap + 2; i++) { long w = i >= 0 && i < (int)v.size() ? v[i] : -(long)RET_INDEXLIST_OUTOFBOUNDS; CK(l.getNumber(i) == w, "list-number", "number at " << i << " is " << l.getNumber(i) << " not " << w << " in " << strI(v)); }
    if (!v.empty()) CK(l.getLastNumber() == v.back(), "list-last", "last number " << l.getLastNumber() << " of " << strI(v));
}
PBT_PROP(indexlist, 2) {
    int cap = c.range(1, 9); std::unique_ptr<Indexlist> l(new Indexlist(cap)); std::vector<int> v; int len = c.range(1, 24), maxLen = 0; std::ostringstream h; h << "list of " << cap;
    op = h.str(); agree(c, *l, v, cap);
    for (int k = 0; k < len; k++) {
        int a = (int)c.raw(cap + 2); bool in = std::find(v.begin(), v.end(), a) != v.end(); returnValue r = SUCCESSFUL_RETURN, w = SUCCESSFUL_RETURN;
        switch (c.weighted({6, 4, 3, 1, 1})) {
            case 0: if (in) continue; h << " +" << a; op = h.str(); r = l->addNumber(a); if ((int)v.size() >= cap) w = RET_INDEXLIST_EXCEEDS_MAX_LENGTH; else v.push_back(a); break;
            case 1: h << " -" << a; op = h.str(); r = l->removeNumber(a); if (in) v.erase(std::find(v.begin(), v.end(), a)); break;
            case 2: { int b = (int)c.raw(cap + 2); h << " x" << a << "," << b; op = h.str(); r = l->swapNumbers(a, b); auto i = std::find(v.begin(), v.end(), a), j = std::find(v.begin(), v.end(), b); if (i == v.end() || j == v.end()) w = RET_INDEXLIST_CORRUPTED; else std::swap(*i, *j); break; }
            case 3: { h << " copy"; op = h.str(); std::unique_ptr<Indexlist> d(new Indexlist(*l)); agree(c, *d, v, cap); if (c.flag()) l.swap(d); else { Indexlist e(3); e.addNumber(1); e = *l; d->removeNumber(a); if (!v.empty()) d->removeNumber(v[0]); agree(c, e, v, cap); } break; }
            default: if (c.raw(4)) continue; cap = c.range(1, 9); h << " init " << cap; op = h.str(); r = l->init(cap); v.clear();
        }
        CK(r == w, "list-return", "returned " << (int)r << " instead of " << (int)w); agree(c, *l, v, cap); maxLen = std::max(maxLen, (int)v.size());
    }
    if (c.verbose) c.desc << h.str(); c.nontrivial = maxLen >= 2;
}

// ---------------------------------------------------------------- bounds and constraints
struct TB { typedef Bounds T; static const char* name() { return "bounds"; } static Indexlist* in(T& t) { return t.getFree(); } static Indexlist* ac(T& t) { return t.getFixed(); }
    static returnValue setup(T& t, int i, SubjectToStatus s) { return t.setupBound(i, s); } static returnValue all(T& t, int s) { return s == 0 ? t.setupAllFree() : s < 0 ? t.setupAllLower() : t.setupAllUpper(); }
    static returnValue off(T& t, int i) { return t.moveFixedToFree(i); } static returnValue on(T& t, int i, SubjectToStatus s) { return t.moveFreeToFixed(i, s); } static returnValue flip(T& t, int i) { return t.flipFixed(i); }
    static bool swapable() { return true; } static returnValue swap(T& t, int i, int j) { return t.swapFree(i, j); }
    static long n(T& t) { return t.getNV(); } static long eq(T& t) { return t.getNFV(); } static long bd(T& t) { return t.getNBV(); } static long un(T& t) { return t.getNUV(); } static long nin(T& t) { return t.getNFR(); } static long nac(T& t) { return t.getNFX(); } };
struct TC { typedef Constraints T; static const char* name() { return "constraints"; } static Indexlist* in(T& t) { return t.getInactive(); } static Indexlist* ac(T& t) { return t.getActive(); }
    static returnValue setup(T& t, int i, SubjectToStatus s) { return t.setupConstraint(i, s); } static returnValue all(T& t, int s) { return s == 0 ? t.setupAllInactive() : s < 0 ? t.setupAllLower() : t.setupAllUpper(); }
    static returnValue off(T& t, int i) { return t.moveActiveToInactive(i); } static returnValue on(T& t, int i, SubjectToStatus s) { return t.moveInactiveToActive(i, s); } static returnValue flip(T& t, int i) { return t.flipFixed(i); }
    static bool swapable() { return false; } static returnValue swap(T&, int, int) { return SUCCESSFUL_RETURN; }
    static long n(T& t) { return t.getNC(); } static long eq(T& t) { return t.getNEC(); } static long bd(T& t) { return t.getNIC(); } static long un(T& t) { return t.getNUC(); } static long nin(T& t) { return t.getNIAC(); } static long nac(T& t) { return t.getNAC(); } };
struct Model {
    int n = 0; std::vector<int> st, ty, in, ac; bool noL = true, noU = true;   // st: -1 0 1, 9 undefined; ty: SubjectToType
    void init(int k) { n = k; st.assign(k, 9); ty.assign(k, (int)ST_UNKNOWN); in.clear(); ac.clear(); noL = noU = true; }
    bool full() const { for (int s : st) if (s == 9) return false; return true; }
    void rebuild() { in.clear(); ac.clear(); for (int i = 0; i < n; i++) (st[i] == 0 ? in : ac).push_back(i); }
};
template <class K> static void agreeS(Ctx& c, typename K::T& t, const Model& m) {
    std::string nm = K::name();
    CK(K::n(t) == m.n, nm + "-n", "number of members " << K::n(t));
    CK(numbers(K::in(t)) == m.in && numbers(K::ac(t)) == m.ac, nm + "-lists", "inactive " << strI(numbers(K::in(t))) << " active " << strI(numbers(K::ac(t))) << " instead of " << strI(m.in) << " and " << strI(m.ac));
    CK(K::nin(t) == (long)m.in.size() && K::nac(t) == (long)m.ac.size(), nm + "-counts", "counts " << K::nin(t) << " " << K::nac(t));
    for (int i = -1; i <= m.n; i++) {
        bool ok = i >= 0 && i < m.n; int s = ok && m.st[i] != 9 ? m.st[i] : (int)ST_UNDEFINED, y = ok ? m.ty[i] : (int)ST_UNKNOWN;
        CK((int)t.getStatus(i) == s, nm + "-status", "status of " << i << " is " << (int)t.getStatus(i) << " not " << s); CK((int)t.getType(i) == y, nm + "-type", "type of " << i << " is " << (int)t.getType(i) << " not " << y);
    }
    long e = 0, b = 0, u = 0; for (int y : m.ty) { e += y == ST_EQUALITY; b += y == ST_BOUNDED; u += y == ST_UNBOUNDED; }
    CK(K::eq(t) == e && K::bd(t) == b && K::un(t) == u, nm + "-type-counts", "type counts " << K::eq(t) << " " << K::bd(t) << " " << K::un(t) << " not " << e << " " << b << " " << u);
    CK((t.hasNoLower() == BT_TRUE) == m.noL && (t.hasNoUpper() == BT_TRUE) == m.noU, nm + "-sides", "flags for absent sides");
    Indexlist *I = K::in(t), *A = K::ac(t); for (int i = 0; i < m.n; i++) CK((I->isMember(i) == BT_TRUE) == (m.st[i] == 0) && (A->isMember(i) == BT_TRUE) == (m.st[i] == 1 || m.st[i] == -1), nm + "-membership", "membership of " << i);
}
template <class K> static void sets(Ctx& c) {
    typedef typename K::T T; Model m; m.init(c.range(0, 8)); std::unique_ptr<T> t(new T(m.n)); std::ostringstream h; h << K::name() << " of " << m.n; std::string nm = K::name(); int len = c.range(1, 24), done = 0, rejected = 0;
    op = h.str(); agreeS<K>(c, *t, m);
    for (int k = 0; k < len; k++) {
        int i = c.range(-1, m.n), s = (int)c.raw(3) - 1; bool ok = i >= 0 && i < m.n; returnValue r = SUCCESSFUL_RETURN; bool want = true;
        switch (c.weighted({5, 4, 4, 2, 3, 2, 2, 2, 1, 1, 2})) {
            case 0: { bool badS = c.raw(8) == 0; h << " setup " << i << " " << (badS ? 9 : s); op = h.str(); r = K::setup(*t, i, badS ? ST_UNDEFINED : (SubjectToStatus)s); want = ok && !badS && m.st[i] == 9; if (want) { m.st[i] = s; (s == 0 ? m.in : m.ac).push_back(i); } break; }
            case 1: h << " off " << i; op = h.str(); r = K::off(*t, i); want = ok && (m.st[i] == 1 || m.st[i] == -1); if (want) { m.st[i] = 0; m.ac.erase(std::find(m.ac.begin(), m.ac.end(), i)); m.in.push_back(i); } break;
            case 2: { if (c.raw(8) == 0) s = 0; h << " on " << i << " " << s; op = h.str(); r = K::on(*t, i, (SubjectToStatus)s); want = ok && m.st[i] == 0 && s != 0; if (want) { m.st[i] = s; m.in.erase(std::find(m.in.begin(), m.in.end(), i)); m.ac.push_back(i); } break; }
            case 3: h << " flip " << i; op = h.str(); r = K::flip(*t, i); want = ok && (m.st[i] == 1 || m.st[i] == -1); if (want) m.st[i] = -m.st[i]; break;
            case 4: { if (!K::swapable()) continue; int j = c.range(-1, m.n); bool okj = j >= 0 && j < m.n; h << " swap " << i << " " << j; op = h.str(); r = K::swap(*t, i, j);
                want = ok && okj && m.st[i] == m.st[j] && (i == j || m.st[i] == 0); if (want && i != j) std::swap(*std::find(m.in.begin(), m.in.end(), i), *std::find(m.in.begin(), m.in.end(), j)); break; }
            case 5: { int o = c.range(-1, m.n + 1); h << " shift " << o; op = h.str(); r = t->shift(o); if (o == 0 || m.n <= 1) break; want = o > 0 && o <= m.n / 2 && m.n % o == 0 && m.full();
                if (want) { for (int a = 0; a + o < m.n; a++) { m.st[a] = m.st[a + o]; m.ty[a] = m.ty[a + o]; } m.rebuild(); } break; }
            case 6: { int o = c.range(-1, m.n + 1); h << " rotate " << o; op = h.str(); r = t->rotate(o); if (o == 0 || o == m.n || m.n <= 1) break; want = o > 0 && o < m.n && m.full();
                if (want) { std::rotate(m.st.begin(), m.st.begin() + o, m.st.end()); std::rotate(m.ty.begin(), m.ty.begin() + o, m.ty.end()); m.rebuild(); } break; }
            case 7: { int y = (int)c.raw(5); h << " type " << i << " " << y; op = h.str(); r = t->setType(i, (SubjectToType)y); want = ok; if (ok) m.ty[i] = y; break; }
            case 8: { bool none = true; for (int v : m.st) if (v != 9) none = false; if (!none) continue; h << " all " << s; op = h.str(); r = K::all(*t, s);
                static const int ord[] = {ST_UNBOUNDED, ST_BOUNDED, ST_EQUALITY, -1}; auto& L = s == 0 ? m.in : m.ac; for (int o : ord) for (int a = 0; a < m.n; a++) if (o >= 0 ? m.ty[a] == o : (m.ty[a] == ST_UNKNOWN || m.ty[a] == ST_DISABLED)) { m.st[a] = s; L.push_back(a); } break; }
            case 9: { if (c.raw(3)) { h << " flags"; op = h.str(); m.noL = c.flag(); m.noU = c.flag(); t->setNoLower(B(m.noL)); t->setNoUpper(B(m.noU)); } else { m.init(c.range(0, 8)); h << " init " << m.n; op = h.str(); r = t->init(m.n); } break; }
            default: {
                h << " copy"; op = h.str(); std::unique_ptr<T> d; if (c.flag()) d.reset(new T(*t)); else { d.reset(new T(3)); K::setup(*d, 1, ST_LOWER); *d = *t; }
                agreeS<K>(c, *d, m); if (c.flag()) t.swap(d); for (int a = 0; a < m.n; a++) { K::off(*d, a); d->setType(a, ST_EQUALITY); } d->setNoLower(B(!m.noL)); // ruin the other one
            }
        }
        CK((r == SUCCESSFUL_RETURN) == want, nm + "-return", "returned " << (int)r << (want ? " for a possible operation" : " for an impossible operation")); want ? done++ : rejected++;
        agreeS<K>(c, *t, m);
    }
    if (c.verbose) c.desc << h.str(); c.nontrivial = done >= 3 && m.n >= 2; c.label(nm + (rejected ? " with rejections" : " plain")); if (c.raw(16) == 0) t->print();
}
PBT_PROP(bounds, 3) { getGlobalMessageHandler()->setOutputFile(devNull()); sets<TB>(c); }
PBT_PROP(constraints, 3) { getGlobalMessageHandler()->setOutputFile(devNull()); sets<TC>(c); }

// ---------------------------------------------------------------- backup taken before a change that may have to be undone
PBT_PROP(flipper, 1) {
    int nV = c.range(1, 6), nC = c.range(0, 6), dT = std::min(nV, nC); size_t q = (size_t)nV * nV, d = (size_t)dT * dT; std::unique_ptr<Flipper> f(new Flipper((uint_t)nV, (uint_t)nC)); bool hR = false, hQ = false, hT = false; Vec R(q), Q(q), T(d); std::vector<int> sb(nV, 9), sc(nC, 9); bool hb = false, hc = false; int len = c.range(1, 6); op = "flipper " + std::to_string(nV) + "x" + std::to_string(nC);
    for (int k = 0; k < len; k++) {
        int kind = c.weighted({3, 2, 1});
        if (kind == 0) {
            bool r = c.flag(), qq = c.flag(), t = c.flag() && dT > 0, b = c.flag(), cc = c.flag() && nC > 0; Bounds B_(nV); Constraints C_(nC);
            if (r) { for (auto& v : R) v = val(c, true, 3); hR = true; } if (qq) { for (auto& v : Q) v = val(c, true, 3); hQ = true; } if (t) { for (auto& v : T) v = val(c, true, 3); hT = true; }
            if (b) { hb = true; for (int i = 0; i < nV; i++) { sb[i] = (int)c.raw(3) - 1; B_.setupBound(i, (SubjectToStatus)sb[i]); } } if (cc) { hc = true; for (int i = 0; i < nC; i++) { sc[i] = (int)c.raw(3) - 1; C_.setupConstraint(i, (SubjectToStatus)sc[i]); } }
            op += " set"; CK(f->set(b ? &B_ : nullptr, r ? R.data() : nullptr, cc ? &C_ : nullptr, qq ? Q.data() : nullptr, t ? T.data() : nullptr) == SUCCESSFUL_RETURN, "flipper-set", "set failed");
        } else if (kind == 1) { op += " copy"; std::unique_ptr<Flipper> g; if (c.flag()) g.reset(new Flipper(*f)); else { g.reset(new Flipper(2, 2)); *g = *f; } f.swap(g); Vec z(q, 5); g->set(nullptr, z.data()); }
        else { op += " init"; f->init((uint_t)nV, (uint_t)nC); hR = hQ = hT = false; }
        Bounds b(nV); Constraints k2(nC); Vec r(q + 1, 77), u(q + 1, 77), t(d + 1, 77); CK(f->get(&b, r.data(), &k2, u.data(), t.data()) == SUCCESSFUL_RETURN, "flipper-get", "get failed");
        for (size_t i = 0; i <= q; i++) { CK(r[i] == (hR && i < q ? R[i] : 77), "flipper-R", "R differs"); CK(u[i] == (hQ && i < q ? Q[i] : 77), "flipper-Q", "Q differs"); }
        for (size_t i = 0; i <= d; i++) CK(t[i] == (hT && i < d ? T[i] : 77), "flipper-T", "T differs");
        if (hb) for (int i = 0; i < nV; i++) CK((int)b.getStatus(i) == sb[i], "flipper-bounds", "bound status"); if (hc) for (int i = 0; i < nC; i++) CK((int)k2.getStatus(i) == sc[i], "flipper-constraints", "constraint status");
    }
    if (c.verbose) c.desc << op; c.nontrivial = len >= 2;
}
int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
