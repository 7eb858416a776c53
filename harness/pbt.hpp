// Small property-based testing engine: choice tapes, forked workers, crash capture, shrinking, replay.
//
// A test case is a function of a "tape" of bounded choices.  While searching, choices come from a seeded
// generator and are recorded; a replay feeds the recorded choices back (0 when the tape is exhausted), so a
// case can be shrunk by deleting and lowering tape entries without knowing anything about its structure.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <algorithm>
#include <functional>
#include <exception>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>

namespace pbt {

static const uint32_t MAXTAPE = 1u << 16;
static const uint32_t MAXLAB = 160;
static const uint32_t MAXHASH = 1u << 21;
static const uint32_t MAXSUB = 48;
static const uint32_t NSAMP = 3;
static const uint32_t SAMPTAPE = 4096;

struct Label { char name[72]; uint64_t n; };
struct Sample { uint32_t len; uint32_t tape[SAMPTAPE]; };

struct Shared {
    volatile uint32_t len;        // tape of the case in progress
    uint32_t tape[MAXTAPE];
    volatile uint32_t sub;
    volatile double started;      // CPU-independent start time of the case (monotonic), 0 if idle
    volatile uint32_t failed;     // 1: property failure recorded below
    char key[160];
    char msg[6000];
    uint64_t evals, discards, overruns;
    uint64_t subEvals[MAXSUB];
    uint32_t nlab; Label lab[MAXLAB];
    uint32_t nhash; uint64_t hash[MAXHASH];
    uint32_t nsamp[MAXSUB]; Sample samp[MAXSUB][NSAMP];
    uint32_t nknown; char known[64][160]; uint64_t knownCount[64];
    uint64_t nextIter;
};

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
inline uint64_t mix(uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }

struct PropFail { std::string key, msg; };
struct Discard {};

struct Ctx {
    Shared* sh = nullptr;
    uint64_t state = 0;
    bool replay = false;
    std::vector<uint32_t> in; size_t pos = 0;
    bool verbose = false;
    bool nontrivial = false;
    std::ostringstream desc;
    std::vector<std::string> labels;

    uint32_t raw(uint32_t n) {               // uniform in [0,n)
        if (n <= 1) n = 1;
        uint32_t v;
        if (replay) { v = pos < in.size() ? in[pos] % n : 0; pos++; }
        else { state += 0x9E3779B97F4A7C15ull; v = (uint32_t)((mix(state) >> 11) % n); }
        if (sh) { uint32_t l = sh->len; if (l >= MAXTAPE) { throw Discard(); } sh->tape[l] = v; sh->len = l + 1; }
        return v;
    }
    int range(int lo, int hi) { return lo + (int)raw((uint32_t)(hi - lo + 1)); }
    bool chance(int num, int den) { return (int)raw(den) >= den - num; }   // 0 -> false
    bool flag() { return raw(2) == 1; }
    int sint(int m) { int v = (int)raw(2 * m + 1); return (v & 1) ? (v + 1) / 2 : -(v / 2); } // 0,1,-1,2,-2..
    double real(double m) {                   // 0 or m/16 <= |v| <= m
        uint32_t v = raw((1u << 21) + 1); if (v == 0) return 0; double k = (double)((v + 1) / 2) / 1048576.0;
        return ((v & 1) ? 1 : -1) * m * (1 + 15 * k) / 16;
    }
    double pos01() { return (1 + raw(1u << 20)) / 1048577.0; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[raw((uint32_t)v.size())]; }
    int weighted(std::initializer_list<int> w) { int tot = 0; for (int x : w) tot += x; int r = (int)raw(tot), i = 0; for (int x : w) { if (r < x) return i; r -= x; i++; } return 0; }
    void label(const std::string& s) { labels.push_back(s); }
    void fail(const std::string& key, const std::string& msg) { throw PropFail{key, msg}; }
};

#define PBT_FAIL(c, key, ...) do { std::ostringstream o__; o__.precision(17); o__ << __VA_ARGS__; (c).fail((key), o__.str()); } while (0)
#define PBT_CHECK(c, cond, key, ...) do { if (!(cond)) PBT_FAIL(c, key, __VA_ARGS__); } while (0)

struct Sub { const char* name; void (*fn)(Ctx&); int weight; };
inline std::vector<Sub>& subs() { static std::vector<Sub> v; return v; }
struct Reg { Reg(const char* n, void (*f)(Ctx&), int w) { subs().push_back({n, f, w}); } };
#define PBT_PROP(name, weight) static void prop_##name(pbt::Ctx&); static pbt::Reg reg_##name(#name, prop_##name, weight); static void prop_##name(pbt::Ctx& c)

// called once per process before running cases (workers, replays)
inline std::function<void()>& processInit() { static std::function<void()> f; return f; }

struct Engine {
    uint64_t seed = 1; int workers = 8; double secs = 30; double hang = 25; uint64_t maxCases = 0;
    std::string out, replayDir = ".", prop = "C00", only;
    std::set<std::string> known;
    std::vector<Shared*> sh;

    static Shared* mapShared() {
        void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); exit(3); }
        return (Shared*)p;
    }
    static void addLabel(Shared* s, const std::string& l) {
        for (uint32_t i = 0; i < s->nlab; i++) if (!strncmp(s->lab[i].name, l.c_str(), 71)) { s->lab[i].n++; return; }
        if (s->nlab < MAXLAB) { strncpy(s->lab[s->nlab].name, l.c_str(), 71); s->lab[s->nlab].n = 1; s->nlab++; }
    }
    static void silence(const std::string& f) {
        int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
        int n = open("/dev/null", O_RDONLY); if (n >= 0) { dup2(n, 0); close(n); }
    }
    // runs one case on ctx; returns 0 ok, 1 discard, 2 fail
    static int runOne(Ctx& c, int sub, std::string& key, std::string& msg) {
        try { subs()[sub].fn(c); return 0; }
        catch (PropFail& f) { key = f.key; msg = f.msg; return 2; }
        catch (Discard&) { return 1; }
    }
    void worker(int w, double endTime) {
        Shared* s = sh[w];
        silence(logName(w));
        signal(SIGINT, SIG_IGN);
        if (processInit()) processInit()();
        std::vector<int> order;
        for (int i = 0; i < (int)subs().size(); i++) if (only.empty() || only == subs()[i].name) for (int k = 0; k < subs()[i].weight; k++) order.push_back(i);
        uint64_t truncCnt = 0;
        while (now() < endTime && (maxCases == 0 || s->evals < maxCases / workers + 1)) {
            uint64_t it = s->nextIter++;
            int sub = order[mix(it * 2654435761ull + seed * 31 + 7) % order.size()];
            Ctx c; c.sh = s; c.state = mix(mix(seed) ^ mix(0xABCDull + w) ^ (it * 0x9E3779B97F4A7C15ull) ^ mix(0x77 + sub));
            s->len = 0; s->sub = sub; s->failed = 0; s->started = now();
            std::string key, msg;
            int r = runOne(c, sub, key, msg);
            s->started = 0;
            s->evals++; s->subEvals[sub]++;
            if (r == 1) { s->discards++; continue; }
            if (r == 2) {
                static const char* cnt = getenv("PBT_COUNT"); static const char* ck = getenv("PBT_KEY"); // exploration aids
                if ((cnt && !ck) || (ck && key.find(ck) == std::string::npos)) { addLabel(s, "FAIL " + key); for (auto& l : c.labels) addLabel(s, "FAIL " + key + " / " + l); continue; }
                if (known.count(key)) {
                    uint32_t k = 0; for (; k < s->nknown; k++) if (key == s->known[k]) break;
                    if (k == s->nknown && k < 64) { strncpy(s->known[k], key.c_str(), 159); s->nknown++; }
                    if (k < 64) s->knownCount[k]++;
                    continue;
                }
                strncpy(s->key, key.c_str(), sizeof(s->key) - 1);
                strncpy(s->msg, msg.c_str(), sizeof(s->msg) - 1);
                s->failed = 1; _exit(77);
            }
            for (auto& l : c.labels) addLabel(s, l);
            if (c.nontrivial) {
                uint64_t h = 1469598103934665603ull ^ sub;
                for (uint32_t i = 0; i < s->len; i++) h = mix(h ^ s->tape[i]);
                if (s->nhash < MAXHASH) s->hash[s->nhash++] = h; else s->overruns++;
                if (s->nsamp[sub] < NSAMP && s->len <= SAMPTAPE) { Sample& m = s->samp[sub][s->nsamp[sub]++]; m.len = s->len; memcpy(m.tape, s->tape, 4 * s->len); }
            }
            if (++truncCnt % 256 == 0) { struct stat st; if (fstat(1, &st) == 0 && st.st_size > 4000000) { if (ftruncate(1, 0)) {} lseek(1, 0, SEEK_SET); lseek(2, 0, SEEK_SET); } }
        }
        _exit(0);
    }
    std::string logName(int w) { return replayDir + "/.log." + prop + "." + std::to_string(getpid_parent) + "." + std::to_string(w); }
    int getpid_parent = 0;

    // result of evaluating a tape in a child: 0 pass/discard, 1 fail
    struct Out { int st; std::string key, msg; std::vector<uint32_t> used; };
    Out evalTape(int sub, const std::vector<uint32_t>& t, bool verbose = false, std::string* desc = nullptr, double limit = 0) {
        if (limit == 0) limit = hang;
        Shared* s = sh.back();
        s->len = 0; s->failed = 0; s->key[0] = s->msg[0] = 0;
        int pfd[2] = {-1, -1}; if (desc) { if (pipe(pfd)) {} }
        pid_t p = fork();
        if (p == 0) {
            silence(logName(99));
            if (processInit()) processInit()();
            Ctx c; c.sh = s; c.replay = true; c.in = t; c.verbose = verbose;
            std::string key, msg; int r = runOne(c, sub, key, msg);
            if (desc) { std::string d = c.desc.str(); size_t o = 0; close(pfd[0]); while (o < d.size()) { ssize_t k = write(pfd[1], d.data() + o, d.size() - o); if (k <= 0) break; o += k; } close(pfd[1]); }
            if (r == 2) { strncpy(s->key, key.c_str(), sizeof(s->key) - 1); s->key[sizeof(s->key)-1]=0; strncpy(s->msg, msg.c_str(), sizeof(s->msg) - 1); s->msg[sizeof(s->msg)-1]=0; s->failed = 1; _exit(77); }
            _exit(0);
        }
        if (desc) {
            close(pfd[1]); char buf[4096]; ssize_t k; double t0 = now();
            fcntl(pfd[0], F_SETFL, O_NONBLOCK);
            while (now() - t0 < limit) { k = read(pfd[0], buf, sizeof buf); if (k > 0) desc->append(buf, k); else if (k == 0) break; else usleep(500); }
            close(pfd[0]);
        }
        Out o; o.st = 0;
        int st = 0; double t0 = now(); bool killed = false;
        for (int spin = 0;; spin++) { pid_t r = waitpid(p, &st, WNOHANG); if (r == p) break; if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); killed = true; break; } usleep(spin < 50 ? 100 : 1000); }
        o.used.assign(s->tape, s->tape + std::min((uint32_t)s->len, MAXTAPE));
        if (killed) { o.st = 1; o.key = "hang"; o.msg = "the case did not terminate"; }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) o.st = 0;
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 77 && s->failed) { o.st = 1; o.key = s->key; o.msg = s->msg; }
        else { o.st = 1; crashInfo(st, logName(99), o.key, o.msg); }
        return o;
    }
    static void crashInfo(int st, const std::string& log, std::string& key, std::string& msg) {
        std::ostringstream m;
        if (WIFSIGNALED(st)) m << "killed by signal " << WTERMSIG(st); else m << "exit status " << WEXITSTATUS(st);
        std::string txt; if (FILE* f = fopen(log.c_str(), "rb")) { char b[65536]; fseek(f, 0, SEEK_END); long sz = ftell(f); long off = sz > 60000 ? sz - 60000 : 0; fseek(f, off, SEEK_SET); size_t k = fread(b, 1, sizeof b, f); txt.assign(b, k); fclose(f); }
        size_t a = txt.find("ERROR: AddressSanitizer"), u = txt.find("runtime error:");
        std::string kind = "crash";
        if (a != std::string::npos) { size_t e = txt.find_first_of(" \n", a + 25); kind = "asan-" + txt.substr(a + 25, e - a - 25); txt = txt.substr(a, 4200); }
        else if (u != std::string::npos) { kind = "ubsan"; size_t b = u > 200 ? u - 200 : 0; txt = txt.substr(b, 3000); }
        else if (txt.size() > 1500) txt = txt.substr(txt.size() - 1500);
        // the innermost frame in the library distinguishes crashes from each other
        size_t f0 = txt.find("/src/"); std::string where;
        if (f0 != std::string::npos) { size_t e = txt.find_first_of(" \n)", f0); where = txt.substr(f0 + 5, e - f0 - 5); size_t col = where.find(':'); if (col != std::string::npos) where = where.substr(0, col); }
        size_t fin = txt.find(" in qpOASES::"); if (fin != std::string::npos) { size_t e = txt.find_first_of("(\n", fin); where += "/" + txt.substr(fin + 4, e - fin - 4); }
        key = kind + (where.empty() ? "" : ":" + where);
        msg = m.str() + "\n" + txt;
    }
    static std::string cls(const std::string& key) { return key; }

    std::vector<uint32_t> shrink(int sub, std::vector<uint32_t> t, const std::string& key, double budget, Out& best) {
        double end = now() + budget; int tries = 0;
        auto attempt = [&](const std::vector<uint32_t>& c) -> bool {
            if (now() > end) return false; tries++;
            Out o = evalTape(sub, c);
            if (o.st == 1 && cls(o.key) == cls(key)) {
                std::vector<uint32_t> u = o.used; while (!u.empty() && u.back() == 0) u.pop_back();
                best = o; t = (u.size() <= c.size()) ? u : c; return true;
            }
            return false;
        };
        bool progress = true;
        while (progress && now() < end) {
            progress = false;
            for (size_t chunk = std::max<size_t>(1, t.size() / 2); chunk >= 1; chunk /= 2) {
                for (size_t i = 0; i < t.size() && now() < end;) {
                    std::vector<uint32_t> c(t); c.erase(c.begin() + i, c.begin() + std::min(t.size(), i + chunk));
                    if (attempt(c)) progress = true;
                    else {
                        std::vector<uint32_t> z(t); bool any = false;
                        for (size_t k = i; k < std::min(t.size(), i + chunk); k++) if (z[k]) { z[k] = 0; any = true; }
                        if (any && attempt(z)) progress = true;
                        i += chunk;
                    }
                }
                if (chunk == 1) break;
            }
            for (size_t i = 0; i < t.size() && now() < end; i++) {
                while (i < t.size() && t[i] > 0 && now() < end) {
                    uint32_t v = t[i]; bool ok = false;
                    for (uint32_t cand : {v / 2, v > 2 ? v - 2 : 0, v - 1}) { if (cand >= v) continue; std::vector<uint32_t> c(t); c[i] = cand; if (attempt(c)) { ok = true; progress = true; break; } }
                    if (!ok) break;
                }
            }
        }
        return t;
    }
    static std::string esc(const std::string& s) {
        std::string r; char b[8];
        for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch == '\n') r += "\\n"; else if (ch < 32 || ch > 126) { snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; }
        return r;
    }
    bool handleFailure(int sub, std::vector<uint32_t> tape, std::string key, std::string msg, double shrinkSecs, std::string& path, std::string& fkey, std::string& fmsg) {
        // confirm three times
        Out o; int hits = 0;
        for (int i = 0; i < 3; i++) { o = evalTape(sub, tape, false, nullptr, key == "hang" ? 4 * hang : hang); if (o.st == 1) { hits++; } }
        if (hits < 3) { fprintf(stderr, "note: failure of %s (%s) not reproducible (%d/3): not reported\n", subs()[sub].name, key.c_str(), hits); return false; }
        key = o.key; msg = o.msg;
        if (known.count(key)) { fkey = key; return false; }
        std::vector<uint32_t> t = tape;
        if (key != "hang") t = shrink(sub, tape, key, shrinkSecs, o);
        std::string d; Out v = evalTape(sub, t, true, &d, key == "hang" ? 4 * hang : 0);
        if (v.st == 1) { key = v.key; msg = v.msg; }
        char nm[512]; uint64_t h = 7; for (auto x : t) h = mix(h ^ x); snprintf(nm, sizeof nm, "%s/%s-%s-%08x.replay", replayDir.c_str(), prop.c_str(), subs()[sub].name, (unsigned)(h & 0xffffffffu));
        if (FILE* f = fopen(nm, "w")) {
            fprintf(f, "property %s\nsub %s\nkey %s\ntape %zu", prop.c_str(), subs()[sub].name, key.c_str(), t.size());
            for (auto x : t) fprintf(f, " %u", x);
            fprintf(f, "\n---- failure\n%s\n---- case\n%s\n", msg.c_str(), d.c_str());
            fclose(f);
        }
        path = nm; fkey = key; fmsg = msg;
        return true;
    }
    int findSub(const std::string& n) { for (int i = 0; i < (int)subs().size(); i++) if (n == subs()[i].name) return i; return -1; }

    bool loadReplay(const std::string& file, int& sub, std::vector<uint32_t>& t) {
        FILE* f = fopen(file.c_str(), "r"); if (!f) return false;
        char w[256]; sub = -1; t.clear();
        while (fscanf(f, "%255s", w) == 1) {
            if (!strcmp(w, "sub")) { if (fscanf(f, "%255s", w) == 1) sub = findSub(w); }
            else if (!strcmp(w, "tape")) { size_t n; if (fscanf(f, "%zu", &n) != 1) break; for (size_t i = 0; i < n; i++) { unsigned v; if (fscanf(f, "%u", &v) != 1) break; t.push_back(v); } break; }
        }
        fclose(f); return sub >= 0;
    }
    int run() {
        getpid_parent = getpid();
        for (int w = 0; w <= workers; w++) sh.push_back(mapShared());
        double start = now(), endTime = start + secs;
        std::vector<pid_t> pid(workers, 0);
        auto spawn = [&](int w) { sh[w]->started = 0; fflush(nullptr); pid_t p = fork(); if (p == 0) worker(w, endTime); pid[w] = p; };
        for (int w = 0; w < workers; w++) spawn(w);
        int live = workers; int rc = 0; std::string path, fkey, fmsg, fsub; int unrepro = 0; std::map<std::string, uint64_t> knownHits;
        while (live > 0) {
            usleep(3000);
            for (int w = 0; w < workers; w++) {
                if (!pid[w]) continue;
                int st; bool done = waitpid(pid[w], &st, WNOHANG) == pid[w]; bool hung = false;
                double st0 = sh[w]->started; if (!done && st0 > 0 && now() - st0 > hang) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); done = true; hung = true; }
                if (!done) continue;
                pid[w] = 0;
                if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) { live--; continue; }
                std::string key, msg; std::vector<uint32_t> t(sh[w]->tape, sh[w]->tape + std::min((uint32_t)sh[w]->len, MAXTAPE)); int sub = sh[w]->sub;
                if (hung) { key = "hang"; }
                else if (sh[w]->failed) { key = sh[w]->key; msg = sh[w]->msg; }
                else { crashInfo(st, logName(w), key, msg); sh[w]->evals++; }
                bool bad;
                if (!hung && known.count(key)) { knownHits[key]++; bad = false; }
                else {
                    // quiet the others while confirming, so that timing cannot matter
                    for (int k = 0; k < workers; k++) if (pid[k]) kill(pid[k], SIGSTOP);
                    double p0 = now();
                    bad = handleFailure(sub, t, key, msg, 45, path, fkey, fmsg);
                    for (int k = 0; k < workers; k++) if (pid[k]) { { double b = sh[k]->started; if (b > 0) sh[k]->started = b + (now() - p0); } kill(pid[k], SIGCONT); }
                    if (!bad) { if (!fkey.empty() && known.count(fkey)) knownHits[fkey]++; else unrepro++; }
                }
                if (bad) { fsub = subs()[sub].name; rc = 1; for (int k = 0; k < workers; k++) if (pid[k]) { kill(pid[k], SIGKILL); waitpid(pid[k], &st, 0); pid[k] = 0; } live = 0; break; }
                if (now() < endTime && unrepro < 50) spawn(w); else live--;
            }
        }
        // merge
        uint64_t ev = 0, disc = 0; std::map<std::string, uint64_t> lab; std::vector<uint64_t> hs; std::vector<uint64_t> se(subs().size());
        for (int w = 0; w < workers; w++) {
            Shared* s = sh[w]; ev += s->evals; disc += s->discards;
            for (uint32_t i = 0; i < s->nlab; i++) lab[s->lab[i].name] += s->lab[i].n;
            hs.insert(hs.end(), s->hash, s->hash + s->nhash);
            for (size_t i = 0; i < subs().size(); i++) se[i] += s->subEvals[i];
            for (uint32_t i = 0; i < s->nknown; i++) knownHits[s->known[i]] += s->knownCount[i];
        }
        std::sort(hs.begin(), hs.end()); size_t distinct = std::unique(hs.begin(), hs.end()) - hs.begin();
        std::vector<std::string> samples;
        for (size_t i = 0; i < subs().size(); i++) {
            int took = 0;
            for (int w = 0; w < workers && took < 1; w++) for (uint32_t k = 0; k < sh[w]->nsamp[i] && took < 1; k++) {
                Sample& m = sh[w]->samp[i][k]; std::string d; std::vector<uint32_t> t(m.tape, m.tape + m.len);
                evalTape((int)i, t, true, &d); if (d.size() > 1500) d = d.substr(0, 1500) + "..."; samples.push_back(std::string(subs()[i].name) + ": " + d); took++;
            }
        }
        if (!out.empty()) if (FILE* f = fopen(out.c_str(), "w")) {
            fprintf(f, "{\"evaluations\": %llu, \"discarded\": %llu, \"distinct_nontrivial\": %zu, \"unreproducible\": %d, \"rc\": %d, \"wall\": %.2f,\n", (unsigned long long)ev, (unsigned long long)disc, distinct, unrepro, rc, now() - start);
            fprintf(f, " \"replay\": \"%s\", \"key\": \"%s\", \"fsub\": \"%s\", \"msg\": \"%s\",\n", esc(path).c_str(), esc(fkey).c_str(), esc(fsub).c_str(), esc(fmsg).c_str());
            fprintf(f, " \"subs\": {"); for (size_t i = 0; i < subs().size(); i++) fprintf(f, "%s\"%s\": %llu", i ? ", " : "", subs()[i].name, (unsigned long long)se[i]);
            fprintf(f, "},\n \"labels\": {"); bool first = true; for (auto& l : lab) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", esc(l.first).c_str(), (unsigned long long)l.second); first = false; }
            fprintf(f, "},\n \"known\": {"); first = true; for (auto& l : knownHits) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", esc(l.first).c_str(), (unsigned long long)l.second); first = false; }
            fprintf(f, "},\n \"samples\": ["); for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? ",\n  " : "", esc(samples[i]).c_str());
            fprintf(f, "]}\n"); fclose(f);
        }
        cleanupLogs();
        return rc;
    }
    void cleanupLogs() { for (int w = 0; w <= workers; w++) unlink(logName(w).c_str()); unlink(logName(99).c_str()); }
    int replayFile(const std::string& file) {
        getpid_parent = getpid(); sh.push_back(mapShared());
        int sub; std::vector<uint32_t> t; if (!loadReplay(file, sub, t)) { fprintf(stderr, "cannot read replay %s\n", file.c_str()); return 3; }
        std::string d; Out o = evalTape(sub, t, true, &d, 4 * hang);
        printf("sub-property %s\n%s\n", subs()[sub].name, d.c_str());
        if (o.st) printf("FAILS key=%s\n%s\n", o.key.c_str(), o.msg.c_str()); else printf("PASSES\n");
        cleanupLogs();
        return o.st ? 1 : 0;
    }
};

inline int mainImpl(int argc, char** argv) {
    Engine e; std::string replay;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") e.seed = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--secs") e.secs = atof(nx().c_str());
        else if (a == "--workers") e.workers = atoi(nx().c_str());
        else if (a == "--cases") e.maxCases = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--out") e.out = nx();
        else if (a == "--replay-dir") e.replayDir = nx();
        else if (a == "--prop") e.prop = nx();
        else if (a == "--only") e.only = nx();
        else if (a == "--hang") e.hang = atof(nx().c_str());
        else if (a == "--known") e.known.insert(nx());
        else if (a == "--replay") replay = nx();
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
    }
    if (!replay.empty()) return e.replayFile(replay);
    return e.run();
}
} // namespace pbt
