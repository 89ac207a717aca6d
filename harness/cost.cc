// C21: deterministic work and memory counters over doubling sample sizes.
#include "xp.hpp"
#include "fam.hpp"
#include "lib.hpp"
#include <map>
#include <fftw3.h>
#include <malloc.h>
#include <cerrno>
#include <ctime>
using namespace xp;
using namespace lib;

static uint64_t blocks; static double fft_flops; static long live, peak; static bool counting;
extern "C" {
void __sanitizer_cov_trace_pc() { ++blocks; }
#define WRAP(name, args, call) void __real_##name args; void __wrap_##name args { add_flops(p); __real_##name call; }
static void add_flops(const fftw_plan p) { double a, m, f; fftw_flops(p, &a, &m, &f); fft_flops += a + m + 2 * f; }
WRAP(fftw_execute, (const fftw_plan p), (p))
WRAP(fftw_execute_dft_r2c, (const fftw_plan p, double* i, fftw_complex* o), (p, i, o))
WRAP(fftw_execute_dft_c2r, (const fftw_plan p, fftw_complex* i, double* o), (p, i, o))
WRAP(fftw_execute_dft, (const fftw_plan p, fftw_complex* i, fftw_complex* o), (p, i, o))
WRAP(fftw_execute_r2r, (const fftw_plan p, double* i, double* o), (p, i, o))

// plans belong to FFTW, which keeps tables of its own for every transform length
static int planner; static double planning;
static double cpu() { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
#define PLAN(name, args, call) fftw_plan __real_##name args; fftw_plan __wrap_##name args { ++planner; double t = cpu(); fftw_plan p = __real_##name call; planning += cpu() - t; --planner; return p; }
PLAN(fftw_plan_dft_r2c_1d, (int n, double* i, fftw_complex* o, unsigned f), (n, i, o, f))
PLAN(fftw_plan_dft_c2r_1d, (int n, fftw_complex* i, double* o, unsigned f), (n, i, o, f))
PLAN(fftw_plan_dft_1d, (int n, fftw_complex* i, fftw_complex* o, int s, unsigned f), (n, i, o, s, f))
PLAN(fftw_plan_r2r_1d, (int n, double* i, double* o, fftw_r2r_kind k, unsigned f), (n, i, o, k, f))
void __real_fftw_destroy_plan(fftw_plan p); void __wrap_fftw_destroy_plan(fftw_plan p) { ++planner; __real_fftw_destroy_plan(p); --planner; }

void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_realloc(void*, size_t); void* __libc_calloc(size_t, size_t); void* __libc_memalign(size_t, size_t);
static void* got(void* p) { if (p && counting && !planner) { live += malloc_usable_size(p); if (live > peak) peak = live; } return p; }
static void gone(void* p) { if (p && counting && !planner) live -= malloc_usable_size(p); }
void* malloc(size_t n) { return got(__libc_malloc(n)); }
void free(void* p) { gone(p); __libc_free(p); }
void* calloc(size_t a, size_t b) { return got(__libc_calloc(a, b)); }
void* realloc(void* p, size_t n) { gone(p); return got(__libc_realloc(p, n)); }
void* memalign(size_t a, size_t n) { return got(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return got(__libc_memalign(a, n)); }
int posix_memalign(void** r, size_t a, size_t n) { void* p = __libc_memalign(a, n); if (!p) return ENOMEM; *r = got(p); return 0; }
}

struct Cost { double work; long mem; };
static Cost measure(X& x, Fn f, const V& u, const V& w) {
    blocks = 0; fft_flops = planning = 0; live = peak = 0; counting = true;
    Out o = call(f, u, w);
    counting = false;
    if (o.raised) x.fail("%s raised %s for n=%zu", NAME[f], o.what.c_str(), u.size());
    // Planning is FFTW's own code and not counted; it takes milliseconds unless plans are searched for by trial.
    if (planning > 3) x.fail("%s, n=%zu: %.1f s of processor time are spent on planning Fourier transforms", NAME[f], u.size(), planning);
    // FFTW's planner keeps a small cache that is not part of the call: measure memory of a second call
    return Cost{(double)blocks + fft_flops, peak};
}

static std::vector<V> lists(int n) {
    auto r = fam::one_sided(n, 1);
    r.push_back(V(n, 0.0)); r.push_back(V(n, 0.5)); r.push_back(fam::runs2(n, n / 2, 0, 0.5)); r.push_back(fam::runs2(n, n - 1, 0.25, 0.75));
    r.push_back(V(n, 1e-12)); r.push_back(V(n, 1 - 1e-12)); r.push_back(fam::ks_lower(n, 1e-9));
    return r;
}
static std::vector<fam::Two> pairs(int n) {
    auto r = fam::two_sided(n, 1);
    r.push_back({V(n, 0.0), V(n, 1.0)}); r.push_back({V(n, 0.25), V(n, 0.75)}); r.push_back({fam::runs2(n, n / 2, 0, 0.5), fam::runs2(n, n / 2, 0.5, 1.0)});
    { V b = fam::ks_lower(n, 0.5 / n), B = fam::ks_upper(n, 0.9 / n); r.push_back({b, B}); }
    r.push_back({V(n, 0.0), V(n, 1.0 - 1e-12)});
    return r;
}

// The documented growth is that of the hardest boundaries: a family may be cheap for small samples and join them later.
static double hardest(X& x, Fn f, int n) {
    static std::map<std::pair<int, int>, double> memo;
    auto it = memo.find({f, n});
    if (it != memo.end()) return it->second;
    double m = 0;
    for (int fi : {0, 5}) {
        V u, w;
        if (two_sided(f)) { auto t = pairs(n)[fi]; u = t.b; w = t.B; }
        else { u = lists(n)[fi]; if (upper(f)) u = fam::reflect(u); }
        m = std::max(m, measure(x, f, u, w).work);
    }
    return memo[{f, n}] = m;
}
static void compare(X& x, Fn f, int fi, const std::vector<int>& ns, const std::vector<Cost>& c, size_t i, size_t j) {
    double slack = 1.5;
    double r = (double)ns[j] / ns[i], g = f == KS ? r * r * r : r * r;
    if (f == MN) g *= std::log((double)ns[j]) / std::log((double)ns[i]);
    x.check();
    if (c[j].work > slack * g * c[i].work && c[j].work > slack * g * hardest(x, f, ns[i]))
        x.fail("%s, family %d: work grows from %.4g (n=%d) to %.4g (n=%d), a factor %.1f; documented growth allows %.1f", NAME[f], fi, c[i].work, ns[i], c[j].work, ns[j], c[j].work / c[i].work, g);
    if (ns[i] >= 1024 || (f == KS || f == MNS_b || f == MNS_B))
        if (c[j].mem > slack * r * c[i].mem + 262144) x.fail("%s, family %d: peak memory grows from %ld (n=%d) to %ld bytes (n=%d), a factor %.1f", NAME[f], fi, c[i].mem, ns[i], c[j].mem, ns[j], (double)c[j].mem / c[i].mem);
}
static void chain(X& x, Fn f, int fi, const std::vector<int>& ns) {
    if (!x.next()) return;
    if (x.describing) x.desc(fmt("%s, family %d, sample sizes %d..%d", NAME[f], fi, ns.front(), ns.back()));
    std::vector<Cost> c;
    for (int n : ns) {
        V u, w;
        if (two_sided(f)) { auto t = pairs(n)[fi]; u = t.b; w = t.B; }
        else { u = lists(n)[fi]; if (upper(f)) u = fam::reflect(u); }
        if (c.empty()) measure(x, f, u, w);   // warm-up: planner caches
        c.push_back(measure(x, f, u, w));
        // compare with every sample size but the next smaller one before going on to larger sizes
        for (size_t j = c.size() - 1, i = 0; i + 2 <= j; ++i) compare(x, f, fi, ns, c, i, j);
    }
    if (getenv("XP_SHOW")) for (size_t i = 0; i < ns.size(); ++i) fprintf(stderr, "%s fam %d n %d work %.4g (x%.2f) mem %ld\n", NAME[f], fi, ns[i], c[i].work, i ? c[i].work / c[i - 1].work : 0, c[i].mem);
    for (size_t i = 0; i < ns.size(); ++i) x.key(mix(mix(f, fi), (uint64_t)c[i].work));
    x.extra(0, ns.size());
}
// memory alone, up to larger samples (bounds with few different values where the work would be too large)
static void memory(X& x, Fn f, int fi, const std::vector<int>& ns) {
    if (!x.next()) return;
    if (x.describing) x.desc(fmt("%s, few-valued family %d, memory for sample sizes %d..%d", NAME[f], fi, ns.front(), ns.back()));
    std::vector<long> m;
    for (int n : ns) {
        V u, w;
        if (two_sided(f)) {
            if (fi == 0) { u = V(n, 0.0); w = V(n, 1.0); }
            else if (fi == 1) { u = fam::runs2(n, n / 2, 0, 0.25); w = fam::runs2(n, n / 2, 0.75, 1.0); }
            else { u = V(n, 0.0); w = V(n, 1.0); for (int i = 0; i < n; ++i) { u[i] = 0.05 * (int)(i * 18.0 / n); w[i] = std::min(1.0, 0.1 + 0.05 * (int)(i * 20.0 / n)); } }
        } else { u = fi == 0 ? V(n, 0.0) : fi == 1 ? fam::runs2(n, n / 2, 0, 0.25) : fam::ks_lower(n, 2.0 / std::sqrt((double)n)); if (upper(f)) u = fam::reflect(u); }
        if (m.empty()) measure(x, f, u, w);
        m.push_back(measure(x, f, u, w).mem);
    }
    for (size_t i = 0; i < ns.size(); ++i) for (size_t j = i + 1; j < ns.size(); ++j) {
        double r = (double)ns[j] / ns[i]; x.check();
        if (m[j] > 1.3 * r * m[i] + 131072) x.fail("%s, few-valued family %d: peak memory grows from %ld (n=%d) to %ld bytes (n=%d), a factor %.1f", NAME[f], fi, m[i], ns[i], m[j], ns[j], (double)m[j] / m[i]);
    }
    if (getenv("XP_SHOW")) for (size_t i = 0; i < ns.size(); ++i) fprintf(stderr, "%s few-valued %d n %d mem %ld (%.1f per point)\n", NAME[f], fi, ns[i], m[i], (double)m[i] / ns[i]);
    x.key(mix(mix(f, fi), m.back() + 7)); x.extra(0, ns.size());
}
static void body(X& x) {
    auto pw = [](int a, int b) { std::vector<int> r; for (; a <= b; a *= 2) r.push_back(a); return r; };
    size_t nl = lists(64).size(), np = pairs(64).size();
    for (size_t i = 0; i < np; ++i) { chain(x, KS, i, pw(64, thorough ? 2048 : 512)); chain(x, KS, i, pw(96, thorough ? 1536 : 768)); }
    for (size_t i = 0; i < np; ++i) chain(x, MN, i, pw(512, thorough ? 8192 : 2048));
    for (size_t i = 0; i < nl; ++i) for (Fn f : {NEW_b, NEW_B}) chain(x, f, i, pw(512, thorough ? 16384 : 4096));
    for (size_t i = 0; i < nl; ++i) for (Fn f : {MNS_b, MNS_B}) chain(x, f, i, pw(128, thorough ? 4096 : 1024));
    for (int i = 0; i < 3; ++i) {
        memory(x, MN, i, pw(4096, thorough ? 262144 : 65536)); memory(x, KS, i, pw(1024, thorough ? 16384 : 4096));
        for (Fn f : {NEW_b, NEW_B}) memory(x, f, i, pw(2048, thorough ? 65536 : 16384));
        for (Fn f : {MNS_b, MNS_B}) memory(x, f, i, pw(512, thorough ? 8192 : 2048));
    }
}
int main(int argc, char** argv) { return xp_main(argc, argv, body); }
