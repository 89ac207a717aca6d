// Explorer: deterministic enumeration of cases, sharded over forked workers.
//
// A body enumerates its whole bounded space; x.next() numbers the cases and says whether this
// process must execute the current one.  Case i belongs to worker i % workers.  A worker that
// fails, crashes or stops making progress is turned into a candidate violation, which is reported
// only after it failed again in a new process forked from the pristine parent: first the case on its
// own, otherwise the whole prefix of the worker's cases (a failure that needs its history).
#pragma once
#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <functional>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>

namespace xp {

const int MAXW = 64;
const size_t BLOOM_BITS = size_t(1) << 26;

struct Slot {
    std::atomic<uint64_t> idx, cases, checks, states, transitions, traces, oracle, extra[8];
    std::atomic<int> failed, done, capped;
    uint64_t fail_idx;
    char msg[4096];
    char desc[4096];
    int nsamples;
    char samples[3][1500];
};

struct Shared {
    std::atomic<uint64_t> min_fail;
    std::atomic<uint64_t> total, worst;   // worst: bits of the largest error as a fraction of its tolerance
    Slot slot[MAXW];
    std::atomic<uint64_t> bloom[BLOOM_BITS / 64];
};

static Shared* SH;
static bool thorough = false, deep = false;   // tiers quick < full < thorough: full sets only the first
static std::string mode, arg1;

inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
inline uint64_t hash_str(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return mix(h, s.size()); }

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

class X {
public:
    uint64_t idx = 0;
    bool first = true;
    uint64_t only = ~0ull, upto = ~0ull;
    int shard = 0, workers = 1;
    bool describing = false, sampling = true;
    double deadline = 0;
    Slot* s = nullptr;
    uint64_t failures = 0;
    struct Stop {};

    bool next() {
        if (first) first = false; else ++idx;
        if (only != ~0ull) { if (idx > only) throw Stop(); if (idx != only) return false; }
        else {
            if (idx > upto) throw Stop();
            if ((int)(idx % workers) != shard) return false;
            if (idx > SH->min_fail.load(std::memory_order_relaxed)) throw Stop();
        }
        s->idx.store(idx, std::memory_order_relaxed);
        s->cases.fetch_add(1, std::memory_order_relaxed);
        uint64_t c = s->cases.load(std::memory_order_relaxed);
        describing = only != ~0ull || upto == idx || (sampling && (c & (c - 1)) == 0);
        if (deadline > 0 && (c & 15) == 0 && now() > deadline && only == ~0ull && upto == ~0ull) { s->capped = 1; s->cases.fetch_sub(1); throw Stop(); }
        return true;
    }
    void desc(const std::string& d) {
        snprintf(s->desc, sizeof s->desc, "%s", d.c_str());
        if (sampling) { snprintf(s->samples[s->nsamples % 3], sizeof s->samples[0], "%s", d.c_str()); ++s->nsamples; }
    }
    void fail(const char* f, ...) __attribute__((format(printf, 2, 3))) {
        va_list a; va_start(a, f);
        vsnprintf(s->msg, sizeof s->msg, f, a);
        va_end(a);
        s->fail_idx = idx;
        s->failed = 1;
        uint64_t m = SH->min_fail.load();
        while (idx < m && !SH->min_fail.compare_exchange_weak(m, idx)) {}
        throw Stop();
    }
    void check() { s->checks.fetch_add(1, std::memory_order_relaxed); }
    void states(uint64_t st, uint64_t tr) { s->states.fetch_add(st, std::memory_order_relaxed); s->transitions.fetch_add(tr, std::memory_order_relaxed); }
    void trace() { s->traces.fetch_add(1, std::memory_order_relaxed); }
    void oracle() { s->oracle.fetch_add(1, std::memory_order_relaxed); }
    void extra(int i, uint64_t n = 1) { s->extra[i].fetch_add(n, std::memory_order_relaxed); }
    static void margin(double err, double tol) {
        double r = tol > 0 ? err / tol : 0; uint64_t u; memcpy(&u, &r, 8);
        if (!(r > 0) || u >> 52 >= 0x7ff) return;
        uint64_t w = SH->worst.load(std::memory_order_relaxed);
        while (u > w && !SH->worst.compare_exchange_weak(w, u)) {}   // positive doubles are ordered like their bits
    }
    void key(uint64_t h) { h = mix(h, 77); uint64_t b = h % BLOOM_BITS; SH->bloom[b / 64].fetch_or(1ull << (b % 64), std::memory_order_relaxed); }
    void outcome(uint64_t input, double v) { // input hash and outcome rounded to ~9 digits: "distinct and non-trivial"
        double r = v == 0 ? 0 : std::round(v * 1e9);
        uint64_t u; memcpy(&u, &r, 8); key(mix(input, u));
    }
};

using Body = std::function<void(X&)>;


inline void child(const Body& body, X x, Slot* s) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    x.s = s;
    try { body(x); SH->total.store(x.idx + (x.first ? 0 : 1)); } catch (X::Stop&) {}
    s->done = 1;
    fflush(stdout); fflush(stderr);
    _exit(0);
}

inline void clear(Slot* s) { s->idx = 0; s->failed = 0; s->done = 0; s->capped = 0; s->msg[0] = s->desc[0] = 0; s->nsamples = 0; }

// Runs one replay; returns 0 = passes, 1 = fails again (message in slot).
inline int replay_one(const Body& body, bool single, uint64_t at, int workers, double limit, std::string& why)
{
    Slot* s = &SH->slot[MAXW - 1];
    clear(s);
    SH->min_fail = ~0ull;
    X x; x.workers = workers; x.shard = (int)(at % workers);
    if (single) x.only = at; else x.upto = at;
    pid_t p = fork();
    if (p == 0) child(body, x, s);
    double t0 = now(); uint64_t last = ~0ull; int st = 0; bool hung = false;
    while (true) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        uint64_t i = s->idx; if (i != last) { last = i; t0 = now(); }
        if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; break; }
        usleep(2000);
    }
    if (hung) { why = "does not terminate within " + std::to_string((int)limit) + " s"; return 1; }
    if (s->failed) { why = s->msg; return 1; }
    if (!s->done) {
        char b[200];
        if (WIFSIGNALED(st)) snprintf(b, sizeof b, "process died: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
        else snprintf(b, sizeof b, "process ended unexpectedly with status %d", WEXITSTATUS(st));
        why = b; return 1;
    }
    return 0;
}

inline std::string json(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

// usage: harness MODE --out FILE [--tier quick|full|thorough] [--workers N] [--stall S] [--replay single|prefix IDX]
inline int xp_main(int argc, char** argv, const Body& body)
{
    std::string out, rep; uint64_t at = 0; int workers = 8; double stall = 60, limit = 0; long mem = 3000;
    if (argc > 1) mode = argv[1];
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--out") out = argv[++i];
        else if (a == "--tier") { std::string t = argv[++i]; deep = t == "thorough"; thorough = deep || t == "full"; }
        else if (a == "--workers") workers = atoi(argv[++i]);
        else if (a == "--stall") stall = atof(argv[++i]);
        else if (a == "--deadline") limit = atof(argv[++i]);
        else if (a == "--mem") mem = atol(argv[++i]);
        else if (a == "--arg") arg1 = argv[++i];
        else if (a == "--replay") { rep = argv[++i]; at = strtoull(argv[++i], 0, 10); }
    }
    signal(SIGPIPE, SIG_IGN);
    if (mem > 0) { struct rlimit r; r.rlim_cur = r.rlim_max = (rlim_t)mem << 20; setrlimit(RLIMIT_AS, &r); }
    SH = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (SH == MAP_FAILED) { perror("mmap"); return 2; }
    if (!rep.empty()) {
        std::string why;
        int r = replay_one(body, rep == "single", at, workers, 4 * stall, why);
        Slot* s = &SH->slot[MAXW - 1];
        printf("case %llu: %s\n%s\n", (unsigned long long)at, s->desc, r ? ("FAILS: " + why).c_str() : "passes");
        return r;
    }
    double t0 = now();
    SH->min_fail = ~0ull;
    std::vector<pid_t> pid(workers); std::vector<double> beat(workers, now()); std::vector<uint64_t> last(workers, ~0ull);
    std::vector<int> alive(workers, 1);
    fflush(stdout);
    for (int w = 0; w < workers; ++w) {
        pid[w] = fork();
        if (pid[w] < 0) { perror("fork"); return 2; }
        if (pid[w] == 0) { X x; x.shard = w; x.workers = workers; x.deadline = limit > 0 ? t0 + limit : 0; child(body, x, &SH->slot[w]); }
    }
    struct Cand { uint64_t idx; std::string why; };
    std::vector<Cand> cand;
    int left = workers; double fail_time = 0;
    while (left) {
        for (int w = 0; w < workers; ++w) if (alive[w]) {
            int st; Slot* s = &SH->slot[w];
            pid_t r = waitpid(pid[w], &st, WNOHANG);
            if (r == pid[w]) {
                alive[w] = 0; --left;
                if (s->failed) cand.push_back({s->fail_idx, s->msg});
                else if (!s->done) {
                    char b[200];
                    if (WIFSIGNALED(st)) snprintf(b, sizeof b, "process died: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
                    else snprintf(b, sizeof b, "process ended unexpectedly with status %d", WEXITSTATUS(st));
                    cand.push_back({s->idx, b});
                    uint64_t m = SH->min_fail; if (s->idx < m) SH->min_fail = s->idx.load();
                }
                continue;
            }
            uint64_t i = s->idx; if (i != last[w]) { last[w] = i; beat[w] = now(); }
            if (now() - beat[w] > stall) {
                kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); alive[w] = 0; --left;
                cand.push_back({s->idx, "no progress"});
                uint64_t m = SH->min_fail; if (s->idx < m) SH->min_fail = s->idx.load();
                continue;
            }
            // once a case has failed, later cases are of no interest and earlier ones get a little more time
            uint64_t m = SH->min_fail;
            if (m != ~0ull && fail_time == 0) fail_time = now();
            if (m != ~0ull && !s->failed && !s->done && now() - fail_time > (s->idx > m ? 1 : 40)) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); alive[w] = 0; --left; }
        }
        usleep(2000);
    }
    int capped = 0; uint64_t cases = 0, checks = 0, states = 0, tr = 0, traces = 0, orc = 0, ex[8] = {0};
    std::vector<std::string> samples;
    for (int w = 0; w < workers; ++w) {
        Slot& s = SH->slot[w];
        cases += s.cases; checks += s.checks; states += s.states; tr += s.transitions; traces += s.traces; orc += s.oracle;
        for (int k = 0; k < 8; ++k) ex[k] += s.extra[k];
        capped += s.capped;
        if (w < 3 && s.nsamples) samples.push_back(s.samples[(s.nsamples - 1 - (s.nsamples > w ? w : 0)) % 3]);
    }
    uint64_t distinct = 0;
    for (size_t i = 0; i < BLOOM_BITS / 64; ++i) distinct += __builtin_popcountll(SH->bloom[i]);
    uint64_t total = SH->total, wbits = SH->worst; double worst; memcpy(&worst, &wbits, 8);
    // Confirm candidates, lowest case first.
    std::string viol, vmode, vdesc; uint64_t vidx = 0; bool found = false; int unconfirmed = 0;
    std::sort(cand.begin(), cand.end(), [](const Cand& a, const Cand& b) { return a.idx < b.idx; });
    for (auto& c : cand) {
        for (int single = 1; single >= 0 && !found; --single) {
            std::string why;
            if (replay_one(body, single, c.idx, workers, 1.5 * stall, why)) {
                found = true; viol = why; vidx = c.idx; vmode = single ? "single" : "prefix";
                vdesc = SH->slot[MAXW - 1].desc;
            }
        }
        if (found) break;
        ++unconfirmed;
        fprintf(stderr, "unconfirmed candidate at case %llu: %s\n", (unsigned long long)c.idx, c.why.c_str());
    }
    if (!out.empty()) {
        FILE* f = fopen(out.c_str(), "w");
        if (!f) { perror(out.c_str()); return 2; }
        fprintf(f, "{\"capped\":%d,\"cases\":%llu,\"total\":%llu,\"checks\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"oracle_validations\":%llu,\"distinct\":%llu,\"wall_s\":%.2f,\"unconfirmed\":%d,\"worst\":%.3g,",
                capped, (unsigned long long)cases, (unsigned long long)total, (unsigned long long)checks, (unsigned long long)states, (unsigned long long)tr,
                (unsigned long long)traces, (unsigned long long)orc, (unsigned long long)distinct, now() - t0, unconfirmed, worst);
        fprintf(f, "\"extra\":[");
        for (int k = 0; k < 8; ++k) fprintf(f, "%s%llu", k ? "," : "", (unsigned long long)ex[k]);
        fprintf(f, "],\"samples\":[");
        for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s%s", i ? "," : "", json(samples[i]).c_str());
        fprintf(f, "]");
        if (found) fprintf(f, ",\"violation\":{\"idx\":%llu,\"mode\":\"%s\",\"why\":%s,\"desc\":%s}", (unsigned long long)vidx, vmode.c_str(), json(viol).c_str(), json(vdesc).c_str());
        fprintf(f, "}\n");
        fclose(f);
    }
    if (found) return 1;
    if (unconfirmed) return 3;   // not reproducible: an error of the check, not a verdict
    return 0;
}

// ---- small enumeration helpers -------------------------------------------------------------
// all non-decreasing index sequences of length n over {0..m-1}
template <class F> void monotone(int n, int m, F f) {
    std::vector<int> v(n, 0);
    while (true) {
        f(v);
        int p = n - 1;
        while (p >= 0 && v[p] == m - 1) --p;
        if (p < 0) return;
        int x = v[p] + 1;
        for (; p < n; ++p) v[p] = x;
    }
}
// all sequences of length n over {0..m-1}
template <class F> void words(int n, int m, F f) {
    std::vector<int> v(n, 0);
    while (true) {
        f(v);
        int p = n - 1;
        while (p >= 0 && v[p] == m - 1) v[p--] = 0;
        if (p < 0) return;
        ++v[p];
    }
}
inline std::string vec(const std::vector<double>& v) {
    std::string o = "["; char b[64];
    size_t shown = 0;
    for (size_t i = 0; i < v.size();) {
        size_t j = i; while (j < v.size() && memcmp(&v[j], &v[i], 8) == 0) ++j;
        if (shown++ > 40) { snprintf(b, sizeof b, "... %zu more", v.size() - i); o += b; break; }
        if (j - i > 1) snprintf(b, sizeof b, "%.17g x%zu", v[i], j - i); else snprintf(b, sizeof b, "%.17g", v[i]);
        if (i) o += ", ";
        o += b; i = j;
    }
    return o + "]";
}
inline bool finite_(double x) { uint64_t u; memcpy(&u, &x, 8); return (u & 0x7ff0000000000000ull) != 0x7ff0000000000000ull; }
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) { char b[8192]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

// Runs f in a process forked now; its failure becomes this case's failure.
template <class F> void isolated(X& x, F f) {
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) { try { f(); } catch (X::Stop&) {} _exit(0); }
    int st; waitpid(p, &st, 0);
    if (x.s->failed) throw X::Stop();
    if (st != 0) x.fail("process died during the history (status 0x%x)", st);
}

} // namespace xp
