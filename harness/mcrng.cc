// C16: crossprob_mc under a controlled clock.  Modes: stream (recorded draws), estimate (printed results).
#include "prog.hpp"
#include "ref.hpp"
#include "fam.hpp"
#include "tinymt_ref.hpp"
#include <malloc.h>
#include <unordered_set>
#include <sys/time.h>
#include <sys/stat.h>
using namespace xp;
typedef std::vector<double> V;
typedef std::vector<std::string> S;
static std::string path;

// ---- clock: only whole seconds are specified; the rest varies from call to call ------------------
static uint64_t sub = 1;
static long nanos() { sub = sub * 6364136223846793005ull + 1442695040888963407ull; return (long)((sub >> 33) % 1000000000ull); }
static long cpu_secs, up_secs;                       // processor time used and time since boot: arbitrary, fixed for each run
extern "C" clock_t xp_clock_cpu() { return cpu_secs * CLOCKS_PER_SEC + nanos() / 1000; }
extern "C" int xp_clock_gettime(clockid_t c, struct timespec* t) {
    t->tv_sec = c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID ? cpu_secs : c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI ? xp_clock : up_secs;
    t->tv_nsec = nanos(); return 0;
}
extern "C" int xp_gettimeofday(struct timeval* t, void*) { t->tv_sec = xp_clock; t->tv_usec = nanos() / 1000; return 0; }
extern "C" long xp_sysclock() { return (long)xp_clock * 1000000000L + nanos(); }
extern "C" long xp_steadyclock() { return up_secs * 1000000000L + nanos(); }

// ---- recorded stream -----------------------------------------------------------------------------
static std::vector<double> draws; static uint64_t st0, st1, ntmat; static uint32_t nm1, nm2; static bool have; static size_t CAP = 6000;
extern "C" void xp_state(uint64_t a, uint64_t b, uint32_t m1, uint32_t m2, uint64_t t) { if (!have) { have = true; st0 = a; st1 = b; nm1 = m1; nm2 = m2; ntmat = t; } }
struct Live { RefTiny g; bool on = false; size_t n = 0, bad = 0; double last = 0; } live;   // long runs: checked on the fly
extern "C" void xp_note(double d) {
    if (live.on) {
        if (!live.n) live.g = RefTiny::from_state(st0, st1);
        double fr = std::ldexp((double)(live.g.next() >> 12), -52);
        if (!live.bad && std::fabs(d - fr) > 5e-16 && std::fabs(d - (1 - fr)) > 5e-16) { live.bad = live.n + 1; live.last = d; }
        ++live.n;
    }
    if (draws.size() < CAP) draws.push_back(d);
}

__attribute__((noinline)) static void dirty_stack(int byte) { volatile char b[400000]; memset((char*)b, byte, sizeof b); asm volatile("" ::"r"(b) : "memory"); }
static void dirty_heap(int byte) {
    std::vector<void*> p;
    for (size_t s = 8; s <= (1 << 18); s = s * 5 / 4 + 8) for (int k = 0; k < 3; ++k) { void* q = malloc(s); memset(q, byte, s); p.push_back(q); }
    for (void* q : p) free(q);
}
static prog::Res go(const std::string& cmd, long N, time_t T, int poison) {
    xp_clock = T; draws.clear(); have = false;
    sub = mix(mix(T, poison + 2), N); cpu_secs = sub % 41; up_secs = 1000 + sub % 1000003;
    if (poison >= 0) { dirty_heap(poison); dirty_stack(poison); }
    return prog::run({cmd, path, std::to_string(N)});
}
static std::string text(const V& b, const V& B) {
    std::string t; for (size_t i = 0; i < b.size(); ++i) t += (i ? "," : "") + fmt("%.17g", b[i]); t += "\n";
    for (size_t i = 0; i < B.size(); ++i) t += (i ? "," : "") + fmt("%.17g", B[i]); return t + "\n";
}
struct F { V b, B; };
static std::vector<F> files() {
    std::vector<F> f = {{{0.3}, {}}, {{}, {0.6}}, {{0.2}, {0.7}}, {{0.1, 0.4}, {0.6, 0.9}}, {{0.05, 0.2, 0.5}, {}}, {{}, {0.4, 0.7, 0.9}}, {{0.1, 0.1, 0.3}, {0.8}}, {{0.05, 0.2, 0.4, 0.6}, {0.4, 0.6, 0.8, 0.97}}};
    for (int n : {10, 40}) { f.push_back({fam::ks_lower(n, 0.9 / std::sqrt((double)n)), fam::ks_upper(n, 0.9 / std::sqrt((double)n))}); f.push_back({fam::ks_lower(n, 0.8 / std::sqrt((double)n)), {}}); f.push_back({{}, fam::ks_upper(n, 0.8 / std::sqrt((double)n))}); }
    return f;
}
static double exact(const std::string& cmd, const F& f) {
    size_t n = std::max(f.b.size(), f.B.size());
    auto pad = [&](const V& v, size_t m, double d) { V r(v.begin(), v.begin() + std::min(m, v.size())); while (r.size() < m) r.push_back(d); return r; };
    if (cmd == "ecdf") { if (!f.b.empty() && f.b.size() < n) return 0; return ref_noncrossing(pad(f.b, n, 0), pad(f.B, n, 1)); }
    if (!f.b.empty() && f.b.size() < f.B.size()) return 0;
    double p = 0; size_t top = f.b.empty() ? n + 12 * (size_t)std::sqrt(n + 4.0) + 20 : f.b.size();
    for (size_t m = f.B.size(); m <= top; ++m) { double w = std::exp(-(double)n + m * std::log((double)n) - std::lgamma(m + 1.0)); p += w * (m ? ref_noncrossing(pad(f.b, m, 0), pad(f.B, m, 1)) : 1.0); }
    return p;
}
static std::vector<time_t> starts() { return {1700000000, 0, 1 << 20, 2147483647L - 150, 4294967295L - 150, 1763579000, 1000000000, 1L << 40}; }

static void stream(X& x) {
    const int W = thorough ? 1500 : 300;
    auto fs = files();
    // start seconds that differ in any bit
    for (const char* cmd : {"ecdf", "poisson"}) for (size_t fi = 0; fi < fs.size(); ++fi) for (time_t T0 : {1700000000L, 0L, 1763579123L}) {
        if (!x.next()) continue;
        const F& f = fs[fi]; if (!f.b.empty() && f.b.size() < f.B.size()) continue;
        prog::put(path, text(f.b, f.B));
        if (x.describing) x.desc(fmt("crossprob_mc %s, b=%s B=%s, start second %ld and all that differ from it in one or two bits", cmd, vec(f.b).c_str(), vec(f.B).c_str(), (long)T0));
        x.key(mix(mix(fi, T0), cmd[0] + 1000));
        std::unordered_set<uint64_t> seen;
        for (int i = 0; i < 31; ++i) for (int j = i; j < 31; ++j) {
            time_t T = T0 ^ (1L << i) ^ (i == j ? 0 : 1L << j);
            prog::Res r = go(cmd, 20, T, -1);
            if (draws.empty()) { x.extra(6); return; }
            uint64_t h = 1; for (size_t k = 0; k < draws.size() && k < 8; ++k) { uint64_t u; memcpy(&u, &draws[k], 8); h = mix(h, u); }
            x.check(); x.trace(); x.extra(0);
            if (!seen.insert(h).second) x.fail("start second %ld gives the same random stream as another one", (long)T);
        }
    }
    // long runs: the stream never starts again, is never advanced or replaced
    for (const char* cmd : {"ecdf", "poisson"}) for (size_t fi = 0; fi < fs.size(); ++fi) for (time_t T0 : {1700000000L, 5L}) {
        if (T0 == 5 && fi % 3 && !thorough) continue;
        const F& f = fs[fi]; size_t n = std::max(f.b.size(), f.B.size());
        if (!f.b.empty() && f.b.size() < n) continue;
        if (!x.next()) continue;
        prog::put(path, text(f.b, f.B));
        long N = (thorough ? 60000000 : 9000000) / (long)(n + 1);
        if (x.describing) x.desc(fmt("crossprob_mc %s, b=%s B=%s, start second %ld, %ld simulations", cmd, vec(f.b).c_str(), vec(f.B).c_str(), (long)T0, N));
        x.key(mix(mix(fi, T0), cmd[0] + 5000));
        live = Live(); live.on = true;
        prog::Res r = go(cmd, N, T0, -1);
        live.on = false;
        if (!live.n) { x.extra(6); continue; }
        x.check(); x.trace(); x.extra(0); x.states(live.n, live.n);
        if (live.bad) x.fail("start second %ld: draw %zu of a run of %ld simulations is %.17g; it does not continue the random stream", (long)T0, live.bad - 1, N, live.last);
        double p = exact(cmd, f), sd = std::sqrt(p * (1 - p) / N), d; auto l = prog::lines(r.out);
        if (r.status || l.size() != 1 || !prog::number_line(l[0], &d)) x.fail("exit status %d, printed %s", r.status, prog::brief(r.out).c_str());
        if (std::fabs(d - p) > 6 * sd + 1e-6) x.fail("start second %ld: %ld simulations give %s, exact probability %.6f (%.1f standard deviations)", (long)T0, N, l[0].c_str(), p, std::fabs(d - p) / sd);
    }
    for (const char* cmd : {"ecdf", "poisson"}) for (size_t fi = 0; fi < fs.size(); ++fi) for (time_t T0 : starts()) {
        if (T0 != 1700000000 && fi % 4 && !thorough) continue;
        if (!x.next()) continue;
        const F& f = fs[fi]; size_t n = std::max(f.b.size(), f.B.size());
        if (!f.b.empty() && f.b.size() < n) continue;
        prog::put(path, text(f.b, f.B));
        if (x.describing) x.desc(fmt("crossprob_mc %s, b=%s B=%s, start seconds %ld .. %ld", cmd, vec(f.b).c_str(), vec(f.B).c_str(), (long)T0, (long)T0 + W - 1));
        x.key(mix(mix(fi, T0), cmd[0]));
        std::unordered_set<uint64_t> pairs;
        long N = std::max<long>(20, 3000 / (n + 1));
        for (int w = 0; w < W; ++w) {
            time_t T = T0 + w;
            prog::Res r = go(cmd, N, T, 0);
            if (draws.empty()) { x.extra(6); return; }
            V d0 = draws;
            x.extra(0);
            if (nm1 != 0xfa051f40u || nm2 != 0xffd0fff4u || ntmat != 0x58d02ffeffbfffbcull) x.fail("start second %ld: the generator runs with parameters %08x %08x %016llx", (long)T, nm1, nm2, (unsigned long long)ntmat);
            RefTiny g = RefTiny::from_state(st0, st1);
            double chi[64] = {0}, lag = 0, prev = 0.5, mean = 0, half[8] = {0};
            for (size_t i = 0; i < d0.size(); ++i) {
                double fr = std::ldexp((double)(g.next() >> 12), -52), d = d0[i];
                x.states(1, 1);
                if (std::fabs(d - fr) > 5e-16 && std::fabs(d - (1 - fr)) > 5e-16) x.fail("start second %ld: draw %zu is %.17g, TinyMT64 continues with %.17g", (long)T, i, d, fr);
                if (!(d >= 0 && d <= 1)) x.fail("start second %ld: draw %zu is %.17g, outside the unit interval", (long)T, i, d);
                chi[std::min(63, (int)(d * 64))] += 1; lag += (d - 0.5) * (prev - 0.5); prev = d; mean += d;
                for (int k = 0; k < 8; ++k) half[k] += std::fmod(d * (1 << (k + 1)), 1.0) >= 0.5;
                if (i && i < 200) { uint64_t u, v; memcpy(&u, &d0[i - 1], 8); memcpy(&v, &d, 8); if (!pairs.insert(mix(u, v)).second) x.fail("start second %ld: draws %zu and %zu repeat two draws of another start time (or of this run)", (long)T, i - 1, i); }
            }
            size_t M = d0.size();
            if (M >= 1000) {
                double c = 0; for (double k : chi) c += (k - M / 64.0) * (k - M / 64.0) / (M / 64.0);
                x.check();
                if ((c - 63) / std::sqrt(126.0) > 9) x.fail("start second %ld: draws are not uniform (chi-square %.1f on 63 degrees of freedom)", (long)T, c);
                if (std::fabs(lag) * 12 / std::sqrt((double)M) > 7) x.fail("start second %ld: successive draws are correlated", (long)T);
                if (std::fabs(mean / M - 0.5) * std::sqrt(12.0 * M) > 7) x.fail("start second %ld: mean of the draws is %.4f", (long)T, mean / M);
                for (int k = 0; k < 8; ++k) if (std::fabs(half[k] - M / 2.0) / std::sqrt(M / 4.0) > 7) x.fail("start second %ld: bit %d of the draws is biased", (long)T, k);
            }
            if (w % 10 == 0) for (int poison : {0xff, 0x5a, 0x3f}) {
                prog::Res q = go(cmd, N, T, poison);
                x.check();
                if (q.out != r.out || q.status != r.status) x.fail("start second %ld: prints %s with memory filled with 00, %s with %02x", (long)T, prog::brief(r.out).c_str(), prog::brief(q.out).c_str(), poison);
                if (draws != d0) x.fail("start second %ld: the draws depend on leftover memory or on more than the start second", (long)T);
            }
            x.trace();
        }
    }
}

static void estimate(X& x) {
    const int W = thorough ? 400 : 60;
    auto fs = files();
    for (const char* cmd : {"ecdf", "poisson"}) for (size_t fi = 0; fi < fs.size(); ++fi) for (time_t T0 : starts()) {
        if (T0 != 1700000000 && fi % 3 && !thorough) continue;
        if (!x.next()) continue;
        const F& f = fs[fi]; size_t n = std::max(f.b.size(), f.B.size());
        prog::put(path, text(f.b, f.B));
        double p = exact(cmd, f);
        if (x.describing) x.desc(fmt("crossprob_mc %s, b=%s B=%s, start seconds %ld .. %ld, exact probability %.6f", cmd, vec(f.b).c_str(), vec(f.B).c_str(), (long)T0, (long)T0 + W - 1, p));
        x.key(mix(mix(fi, T0), cmd[0]));
        long N = n > 20 ? 4000 : 20000;
        double sd = std::sqrt(p * (1 - p) / N), sum = 0; std::set<std::string> seen;
        for (int w = 0; w < W; ++w) {
            prog::Res r = go(cmd, N, T0 + w, w % 4 == 0 ? 0 : w % 4 == 1 ? 0xff : w % 4 == 2 ? 0x5a : 0x3f);
            double d; auto l = prog::lines(r.out);
            x.check(); x.trace(); x.states(1, 1); x.extra(0);
            if (r.status || l.size() != 1 || !prog::number_line(l[0], &d)) x.fail("start second %ld: exit status %d, printed %s", (long)T0 + w, r.status, prog::brief(r.out).c_str());
            if (std::fabs(d - p) > 6.5 * sd + 1e-6 + 2.0 / N * (p == 0 || p == 1 ? 0 : 1)) x.fail("start second %ld: %ld simulations give %s, exact probability %.6f (%.1f standard deviations)", (long)T0 + w, N, l[0].c_str(), p, std::fabs(d - p) / sd);
            sum += d; seen.insert(l[0]);
            if (w % 6 == 0) for (int poison : {0, 0xff, 0x11}) { prog::Res q = go(cmd, N, T0 + w, poison); x.check(); if (q.out != r.out) x.fail("start second %ld: %s or %s for the same start second and command line", (long)T0 + w, prog::brief(r.out).c_str(), prog::brief(q.out).c_str()); }
        }
        if (sd > 0 && std::fabs(sum / W - p) > 5.5 * sd / std::sqrt((double)W) + 1e-6) x.fail("mean of %d estimates is %.6f, exact probability %.6f (%.1f standard deviations)", W, sum / W, p, std::fabs(sum / W - p) / sd * std::sqrt((double)W));
        if (sd * N > 20 && (int)seen.size() < W / 4) x.fail("%d start seconds give only %zu different estimates", W, seen.size());
    }
}

// the real executable in different surroundings: other process numbers and addresses, environment variables, inherited
// descriptors, working directory, age and place of the file; only the start second and the command line may matter
static void surroundings(X& x) {
    size_t colon = arg1.find(':');
    std::string exe = arg1.substr(0, colon), clock = arg1.substr(colon + 1);
    char here[4096]; if (!getcwd(here, sizeof here)) _exit(97);
    std::string abs = std::string(here) + "/" + path;
    auto start = [&](const std::vector<std::string>& args, const std::vector<std::string>& env, const std::string& cwd, int out_kind, int in_kind, int lift) {
        int o = memfd_create("ro", 0), e = memfd_create("re", 0), pp[2] = {-1, -1}, in[2] = {-1, -1};
        if (out_kind == 1 && pipe(pp)) _exit(97);
        if (in_kind == 1 && pipe(in)) _exit(97);
        for (int i = 0; i < lift; ++i) if (fork() == 0) _exit(0); else wait(nullptr);     // moves the process numbers on
        pid_t p = fork();
        if (p == 0) {
            if (in_kind == 1) dup2(in[0], 0); else if (in_kind == 2) close(0);
            dup2(out_kind == 1 ? pp[1] : o, 1); dup2(e, 2);
            if (!cwd.empty() && chdir(cwd.c_str())) _exit(126);
            if (in_kind == 1) { umask(077); setsid(); if (nice(3)) {} }
            std::vector<char*> av, ev; for (auto& s : args) av.push_back((char*)s.c_str()); av.push_back(nullptr);
            for (auto& s : env) ev.push_back((char*)s.c_str()); ev.push_back(nullptr);
            execve(exe.c_str(), av.data(), ev.data()); _exit(127);
        }
        prog::Res r;
        if (out_kind == 1) { close(pp[1]); char b[4096]; ssize_t k; while ((k = read(pp[0], b, sizeof b)) > 0) r.out.append(b, k); close(pp[0]); }
        int st = 0; waitpid(p, &st, 0);
        if (in_kind == 1) close(in[0]), close(in[1]);
        if (out_kind != 1) r.out = prog::slurp(o);
        r.err = prog::slurp(e); close(o); close(e);
        r.sig = WIFSIGNALED(st); r.status = r.sig ? 128 : WEXITSTATUS(st); return r;
    };
    auto fs = files();
    for (const char* cmd : {"ecdf", "poisson"}) for (size_t fi = 0; fi < fs.size(); ++fi) for (time_t T : {1700000000L, 1L, 1763579123L, 2147483647L}) {
        const F& f = fs[fi]; if (!f.b.empty() && f.b.size() < f.B.size()) continue;
        if (!x.next()) continue;
        std::string N = fi < 8 ? "60007" : "5003";
        if (x.describing) x.desc(fmt("crossprob_mc %s, b=%s B=%s, %s simulations, start second %ld, in different surroundings", cmd, vec(f.b).c_str(), vec(f.B).c_str(), N.c_str(), (long)T));
        x.key(mix(mix(fi, T), cmd[0] + 7000));
        const std::vector<std::string> args = {exe, cmd, abs, N};
        std::vector<std::string> base = {"LD_PRELOAD=" + clock, "XP_TIME=" + std::to_string(T)};
        prog::Res first; std::string how0;
        for (int k = 0; k < (thorough ? 17 : 14); ++k) {
            auto env = base; std::string how = "plainly";
            switch (k) {
                case 1: env.push_back("FILL=" + std::string(50000, 'x')); how = "with a large environment"; break;
                case 2: for (auto s : {"TZ=Asia/Tokyo", "LANG=C.UTF-8", "LC_ALL=C.UTF-8", "HOME=/", "USER=nobody", "HOSTNAME=other", "SEED=17", "RANDOM=5", "GSL_RNG_SEED=3", "RANDOM_SEED=3", "PATH=/"}) env.push_back(s); how = "with other environment variables"; break;
                case 3: how = "with standard output and input being pipes"; break;
                case 4: how = "with no standard input"; break;
                case 5: how = "in another directory"; break;
                case 6: { std::string t = abs + ".new"; prog::put(t, text(f.b, f.B)); if (rename(t.c_str(), abs.c_str())) _exit(97); how = "with a new copy of the file"; break; }
                case 7: { struct timeval tv[2] = {{1000000, 5}, {999, 6}}; utimes(abs.c_str(), tv); if (chmod(abs.c_str(), 0600)) _exit(97); how = "with an old file"; break; }
                case 10: case 11: case 12: env.push_back(std::string("XP_ANSWER=") + (k == 10 ? "7" : k == 11 ? "" : "/tmp")); how = "with every environment variable it asks for set"; break;
                case 13: env.push_back("XP_CPU=7"); env.push_back("XP_UPTIME=86399"); how = "after having used seven seconds of processor time, on a system started a day ago"; break;
                default: if (k >= 8) how = "again"; break;
            }
            if (k == 0) { unlink(abs.c_str()); prog::put(abs, text(f.b, f.B)); }
            prog::Res r = start(args, env, k == 5 ? "/" : "", k == 3, k == 3 ? 1 : k == 4 ? 2 : 0, k == 9 ? 3 : 0);
            x.check(); x.trace(); x.states(1, 1); x.extra(0);
            if (k == 0) { first = r; double d; auto l = prog::lines(r.out); if (r.sig || r.status || l.size() != 1 || !prog::number_line(l[0], &d)) x.fail("exit status %d, printed %s", r.status, prog::brief(r.out + r.err).c_str()); }
            else if (r.out != first.out || r.status != first.status) x.fail("started plainly it prints %s, started %s %s", prog::brief(first.out).c_str(), how.c_str(), prog::brief(r.out).c_str());
        }
    }
}

int main(int argc, char** argv) {
    return xp_main(argc, argv, [](X& x) {
        prog::real_exe = arg1;
        char t[] = "pXXXXXX"; char* d = mkdtemp(t); if (!d) _exit(97);
        path = std::string(d) + "/f.txt";
        if (mode == "stream") stream(x); else if (mode == "surroundings") surroundings(x); else estimate(x);
    });
}
