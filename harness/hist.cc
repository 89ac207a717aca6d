// C12: results do not depend on what happened before the call.
#include "xp.hpp"
#include "fam.hpp"
#include "lib.hpp"
#include <malloc.h>
#include <fenv.h>
#include <limits>
#include <xmmintrin.h>
using namespace xp;
using namespace lib;

struct Call { Fn f; V u, w; std::string name; };
static std::vector<Call> A;
struct Base { bool raised; double v; };
static Base* base;     // result of each call in a fresh process

static void alphabet() {
    auto add = [](Fn f, V u, V w, const char* s) { A.push_back({f, u, w, std::string(NAME[f]) + " " + s}); };
    auto L = [](int n, double c) { return fam::ks_lower(n, c / std::sqrt((double)n)); };
    auto U = [](int n, double c) { return fam::ks_upper(n, c / std::sqrt((double)n)); };
    double nan = std::numeric_limits<double>::quiet_NaN();
    add(NEW_b, {0.3}, {}, "n=1");
    add(NEW_b, L(40, 0.7), {}, "n=40");
    add(NEW_B, U(300, 0.9), {}, "n=300 (fft)");
    add(NEW_B, U(17, 0.5), {}, "n=17");
    add(MNS_b, {0.2, 0.2, 0.6}, {}, "n=3 tie");
    add(MNS_b, L(60, 0.7), {}, "n=60");
    add(MNS_B, U(130, 0.8), {}, "n=130");
    add(MNS_b, {0.5, 1.0}, {}, "probability 0");
    add(KS, L(12, 0.8), U(12, 0.9), "n=12");
    add(KS, L(140, 0.8), U(140, 0.7), "n=140");
    add(MN, L(140, 0.8), U(140, 0.7), "n=140 (fft)");
    add(MN, fam::runs2(200, 199, 0, 0.5), V(200, 1.0), "n=200 wide (fft)");
    add(MN, {0.1, 0.2}, {0.5, 0.9}, "n=2");
    add(NEW_b, {0.5, 0.4}, {}, "decreasing: error");
    add(MN, {0.5, 0.6}, {0.7}, "length mismatch: error");
    add(MNS_B, {0.5, nan}, {}, "NaN: error");
    add(KS, {0.5, 0.6}, {0.1, 0.2}, "impossible");
    add(MN, {}, {}, "empty");
}

static void state(unsigned& mxcsr, unsigned short& cw, int& rnd) {
    mxcsr = _mm_getcsr() & 0xffc0; asm volatile("fnstcw %0" : "=m"(cw)); rnd = fegetround();
}
__attribute__((noinline)) static void dirty_stack(int byte) {
    volatile char b[200000]; memset((char*)b, byte, sizeof b); asm volatile("" ::"r"(b) : "memory");
}
// Fills and releases heap blocks of many sizes, so that later allocations see this byte.
static void dirty_heap(int byte) {
    std::vector<void*> p;
    for (size_t s = 8; s <= (1 << 20); s = s * 5 / 4 + 8) for (int k = 0; k < 3; ++k) { void* q = k == 2 ? memalign(32, s) : malloc(s); if (q) memset(q, byte, s); p.push_back(q); }
    for (void* q : p) free(q);
}

static void run(X& x, int k, const std::string& hist) {
    const Call& c = A[k];
    V u = c.u, w = c.w;
    unsigned m0, m1; unsigned short c0, c1; int r0, r1;
    state(m0, c0, r0);
    Out o = call(c.f, u, w);
    state(m1, c1, r1);
    x.check();
    if (u.size() != c.u.size() || w.size() != c.w.size() || (u.size() && memcmp(u.data(), c.u.data(), 8 * u.size())) || (w.size() && memcmp(w.data(), c.w.data(), 8 * w.size())))
        x.fail("%s modified its arguments (history: %s)", c.name.c_str(), hist.c_str());
    if (m0 != m1 || c0 != c1 || r0 != r1) x.fail("%s changed the floating-point environment: mxcsr %x -> %x, control word %x -> %x", c.name.c_str(), m0, m1, c0, c1);
    if (o.raised != base[k].raised) x.fail("%s %s after history [%s], but %s in a fresh process", c.name.c_str(), o.raised ? "raised an error" : "returned", hist.c_str(), o.raised ? "returns" : "raises");
    if (!o.raised) {
        double t = std::min(tol_abs((int)u.size()), 1e-9 * std::fabs(base[k].v) + 1e-14 * (u.size() + 30));
        X::margin(std::fabs(o.v - base[k].v), t);
        if (!finite_(o.v) || std::fabs(o.v - base[k].v) > t) x.fail("%s = %.17g after history [%s], but %.17g in a fresh process", c.name.c_str(), o.v, hist.c_str(), base[k].v);
    }
}

static void body(X& x) {
    int m = (int)A.size();
    int depth = thorough ? 4 : 3;
    auto hist = [&](const std::vector<int>& w, int upto) { std::string s; for (int i = 0; i < upto; ++i) s += (i ? "; " : "") + A[w[i]].name; return s; };
    for (int d = 1; d <= depth; ++d) words(d, m, [&](const std::vector<int>& w) {
        if (!x.next()) return;
        if (x.describing) x.desc("calls: " + hist(w, d));
        uint64_t h = d; for (int k : w) h = mix(h, k);
        x.key(h); x.states(1, 1);
        isolated(x, [&] { for (int i = 0; i < d; ++i) run(x, w[i], hist(w, i)); });
    });
    // every pair of calls under several initial memory contents
    for (int pat : {0x00, 0x01, 0x3f, 0x40, 0x7f, 0xbf, 0xff}) for (int mode_ = 0; mode_ < 2; ++mode_) words(2, m, [&](const std::vector<int>& w) {
        if (!x.next()) return;
        if (x.describing) x.desc(fmt("memory filled with %02x (%s); calls: %s", pat, mode_ ? "every allocation" : "released blocks and stack", hist(w, 2).c_str()));
        x.key(mix(mix(pat * 2 + mode_, w[0]), w[1]));
        isolated(x, [&] {
            if (mode_) mallopt(M_PERTURB, pat ? (pat ^ 0xff) : 0x100 - 1); else dirty_heap(pat);
            dirty_stack(pat);
            std::string h = fmt("memory filled with %02x; ", pat);
            run(x, w[0], h);
            dirty_stack(pat);
            run(x, w[1], h + A[w[0]].name);
        });
    });
    // long histories: each call many times, alternating with another one, in one process
    for (int a = 0; a < m; ++a) for (int b = 0; b < m; ++b) {
        if (!x.next()) continue;
        int reps = thorough ? 200 : 30;
        if (x.describing) x.desc(fmt("%d times: %s; %s", reps, A[a].name.c_str(), A[b].name.c_str()));
        x.key(mix(12345, a * m + b));
        isolated(x, [&] { for (int i = 0; i < reps; ++i) { run(x, a, fmt("%d repetitions", i)); run(x, b, fmt("%d repetitions", i)); } });
    }
    // very many calls in one process: nothing is counted, collected or worn out
    for (int a = 0; a < m; ++a) {
        int n = (int)A[a].u.size();
        if (n > 20 && !thorough) continue;
        if (!x.next()) continue;
        int reps = n > 20 ? 3000 : A[a].f == MN ? 20000 : 140000;
        if (x.describing) x.desc(fmt("%d times %s, looking at all other calls in between", reps, A[a].name.c_str()));
        x.key(mix(12346, a));
        isolated(x, [&] { for (int i = 0; i < reps; ++i) { run(x, a, fmt("%d repetitions", i)); if ((i & (i + 1)) == 0 || i % 20011 == 20010) for (int b = 0; b < m; ++b) run(x, b, fmt("%d repetitions of %s", i + 1, A[a].name.c_str())); } });
    }
    // every size sequence up/down for each function
    std::vector<int> sizes = {1, 2, 5, 16, 31, 64, 127, 128, 129, 260};
    for (int f = 0; f < NFN; ++f) for (size_t i = 0; i < sizes.size(); ++i) for (size_t j = 0; j < sizes.size(); ++j) {
        if (!x.next()) continue;
        auto mk = [&](int n, V& u, V& w) { u = upper((Fn)f) ? fam::ks_upper(n, 0.8 / std::sqrt(n)) : fam::ks_lower(n, 0.8 / std::sqrt(n)); w = two_sided((Fn)f) ? fam::ks_upper(n, 0.8 / std::sqrt(n)) : V(); };
        V u1, w1, u2, w2; mk(sizes[i], u1, w1); mk(sizes[j], u2, w2);
        if (x.describing) x.desc(fmt("%s n=%d, n=%d, n=%d", NAME[f], sizes[j], sizes[i], sizes[j]));
        x.key(mix(mix(777, f), i * 100 + j));
        isolated(x, [&] {
            Out a = call((Fn)f, u2, w2); call((Fn)f, u1, w1); Out c = call((Fn)f, u2, w2);
            x.check();
            if (a.raised != c.raised || !(std::fabs(a.v - c.v) <= 1e-9 * std::fabs(a.v) + 1e-14 * (sizes[j] + 30))) x.fail("%s with n=%d returned %.17g, and %.17g after a call with n=%d", NAME[f], sizes[j], a.v, c.v, sizes[i]);
        });
    }
}

// The result of a call in a process that has made no call before.
static Base* scratch;
static Base fresh(X& x, Fn f, const V& u, const V& w) {
    static pid_t mine = 0;      // one page per worker
    if (mine != getpid()) { mine = getpid(); scratch = (Base*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
    scratch->raised = true; scratch->v = 12345;
    isolated(x, [&] { Out o = call(f, u, w); scratch->raised = o.raised; scratch->v = o.v; });
    return *scratch;
}
static bool differ(const Base& e, const Out& o, int n) {
    return e.raised != o.raised || (!e.raised && !(finite_(o.v) && std::fabs(o.v - e.v) <= std::min(tol_abs(n), 1e-9 * std::fabs(e.v) + 1e-14 * (n + 30))));
}
// pairs of calls whose arguments agree in almost everything: size, end values, sum, address, prefix
static void lookalikes(X& x) {
    for (int f = 0; f < NFN; ++f) for (int n : {2, 3, 4, 7, 20, 33, 64, 130, 150}) for (int kind = 0; kind < 3; ++kind) {
        if (n > 100 && kind && !thorough) continue;
        V u, w; double q = std::sqrt((double)n);
        auto mk = [&](double c, bool up) { V v = up ? fam::ks_upper(n, c / q) : fam::ks_lower(n, c / q); if (kind == 1) for (double& d : v) d = std::floor(d * 16) / 16; if (kind == 2) for (double& d : v) d = 0.25 + 0.5 * d * d; return v; };
        u = mk(0.6, upper((Fn)f)); if (two_sided((Fn)f)) w = mk(0.75, true);
        if (two_sided((Fn)f) && kind == 2) for (double& d : w) d = std::min(1.0, d + 0.2);
        struct M { V u, w; std::string s; };
        std::vector<M> m;
        for (int side = 0; side < (two_sided((Fn)f) ? 2 : 1); ++side) {
            const V& v = side ? w : u;
            auto put = [&](const V& c, const std::string& s) { m.push_back({side ? u : c, side ? c : w, s + (side ? " (upper list)" : "")}); };
            std::set<int> P = {0, 1, n / 3, n / 2, n - 2, n - 1};
            for (int p : P) if (p >= 0 && p < n) {
                double lo = p ? v[p - 1] : 0, hi = p + 1 < n ? v[p + 1] : 1;
                for (double t : {0.5 * (lo + v[p]), 0.5 * (hi + v[p]), v[p] + 1e-6 * (hi - v[p]), v[p] - 1e-6 * (v[p] - lo)}) if (t != v[p] && t >= lo && t <= hi) { V c = v; c[p] = t; put(c, fmt("value %d moved from %g to %g", p, v[p], t)); }
                if (p + 1 < n) { double d = 0.25 * std::min(v[p] - lo, (p + 2 < n ? v[p + 2] : 1) - v[p + 1]); if (d > 0) { V c = v; c[p] -= d; c[p + 1] += d; put(c, fmt("values %d and %d moved apart, same sum", p, p + 1)); } }
            }
            { V c = fam::reflect(v); put(c, "reflected"); }
            { V c(v.rbegin(), v.rend()); put(c, "in reverse order"); }
            { int seen = 0; for (int p = 0; p + 1 < n; ++p) if (v[p] != v[p + 1] && (seen++ == 0 || p + 2 == n)) { V c = v; std::swap(c[p], c[p + 1]); put(c, fmt("values %d and %d exchanged", p, p + 1)); } }
            { V c = v; std::swap(c[0], c[n - 1]); put(c, "first and last value exchanged"); }
            { V c = v; c[n - 1] = std::nan(""); put(c, "last value NaN"); }
            if (n > 1) { V c = v; c[0] = 0.9; c[1] = 0.1; put(c, "first two values decreasing"); }
            if (!two_sided((Fn)f)) { V c = v; c.push_back(upper((Fn)f) ? 1.0 : c.back()); put(c, "one more value"); c = v; c.pop_back(); put(c, "one value less"); }
        }
        if (two_sided((Fn)f)) { m.push_back({w, u, "lists exchanged"}); m.push_back({V(n, 0.0), w, "only upper bounds"}); m.push_back({u, V(n, 1.0), "only lower bounds"}); }
        for (size_t k = 0; k < m.size(); ++k) for (int g = 0; g < NFN; ++g) {
            if (g != f && (two_sided((Fn)g) != two_sided((Fn)f) || (k && k != 5))) continue;
            for (int how = 0; how < 3; ++how) {
                if (!x.next()) continue;
                static const char* const HOW[] = {"changed in place", "in other objects", "in new objects after releasing the others"};
                std::string d = fmt("%s n=%d kind %d, then %s with %s, %s, then the first call again", NAME[f], n, kind, NAME[g], m[k].s.c_str(), HOW[how]);
                if (x.describing) x.desc(d);
                Base e1 = fresh(x, (Fn)f, u, w), e2 = fresh(x, (Fn)g, m[k].u, m[k].w);
                x.check(); x.check();
                isolated(x, [&] {
                    V* a = new V(u); V* b = new V(w);
                    Out o1 = call((Fn)f, *a, *b), o2, o3;
                    if (how == 0 && a->size() == m[k].u.size() && b->size() == m[k].w.size()) {
                        std::copy(m[k].u.begin(), m[k].u.end(), a->begin()); std::copy(m[k].w.begin(), m[k].w.end(), b->begin());
                        o2 = call((Fn)g, *a, *b);
                        *a = u; *b = w; o3 = call((Fn)f, *a, *b);
                    } else {
                        if (how == 2) { delete a; delete b; a = b = nullptr; }
                        V c = m[k].u, e = m[k].w;
                        o2 = call((Fn)g, c, e);
                        o3 = call((Fn)f, u, w);
                    }
                    if (differ(e1, o1, n)) x.fail("first call gave %.17g, in another process %.17g (%s)", o1.v, e1.v, d.c_str());
                    if (differ(e2, o2, n)) x.fail("second call gave %s %.17g, in a process of its own %s %.17g (%s)", o2.raised ? "an error" : "", o2.v, e2.raised ? "an error" : "", e2.v, d.c_str());
                    if (differ(e1, o3, n)) x.fail("third call gave %s %.17g, in a process of its own %s %.17g (%s)", o3.raised ? "an error" : "", o3.v, e1.raised ? "an error" : "", e1.v, d.c_str());
                });
                x.key(mix(mix(mix(4711, f * 8 + g), n * 4 + kind), k * 3 + how)); x.states(3, 3);
            }
        }
    }
    // pairs of sizes that fall into one slot of a table of 2^j entries, or are multiples of each other
    for (int f = 0; f < NFN; ++f) for (int n1 : {1, 5, 24, 150}) for (int j = 0; j <= 12; ++j) for (int how = 0; how < 2; ++how) for (int order = 0; order < 2; ++order) {
        int n2 = how ? n1 << j : n1 + (1 << j);
        int top = f == MN || f == NEW_b || f == NEW_B ? 4300 : f == KS ? 1100 : 300;
        if (n2 > top) continue;
        if (!x.next()) continue;
        auto mk = [&](int n, V& u, V& w) { u = upper((Fn)f) ? fam::runs2(n, n / 2, 0.6, 0.9) : fam::runs2(n, n / 2, 0.1, 0.3); if (two_sided((Fn)f)) w = fam::runs2(n, n / 3, 0.6, 1.0); };
        V u[2], w[2]; mk(n1, u[0], w[0]); mk(n2, u[1], w[1]);
        std::string d = fmt("%s with n=%d, then n=%d", NAME[f], order ? n2 : n1, order ? n1 : n2);
        if (x.describing) x.desc(d);
        Base e = fresh(x, (Fn)f, u[!order], w[!order]);
        x.check();
        isolated(x, [&] { call((Fn)f, u[order], w[order]); Out o = call((Fn)f, u[!order], w[!order]); if (differ(e, o, (int)u[!order].size())) x.fail("second call gave %.17g, in a process of its own %.17g (%s)", o.v, e.v, d.c_str()); });
        x.key(mix(mix(815, f * 2 + order), n1 * 8192 + n2)); x.states(2, 2);
    }
}

// Calls with numbers of every magnitude: each leaves its arguments, the floating-point environment and the other calls alone.
static void magnitudes(X& x) {
    const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
    V g = {-0.0, 0.0, 5e-324, 1e-310, 1e-300, 1e-160, 1e-40, 1e-20, 1e-17, 1e-12, 1e-8, 1e-4, 0.3, 0.5, 1 - 1e-8, 1 - 1e-16, 1.0};
    if (thorough) for (double d : {2.3e-308, 1e-200, 1e-100, 1e-30, 3e-16, 1e-15, 1e-10, 1e-6, 0.01, 1.0 / 3, 0.75, 1 - 1e-4, 1 - 1e-12}) g.push_back(d);
    V h = g; for (double d : {-1e-310, -0.5, 1.5, inf, -inf, nan}) h.push_back(d);
    static const int probes[] = {1, 4, 5, 8, 10};
    auto one = [&](Fn f, const V& u0, const V& w0) {
        V u = u0, w = w0;
        unsigned m0, m1; unsigned short c0, c1; int r0, r1;
        state(m0, c0, r0);
        Out a = call(f, u, w);
        state(m1, c1, r1);
        x.check();
        auto d = [&] { return std::string(NAME[f]) + " b=" + vec(u0) + " B=" + vec(w0); };
        if (m0 != m1 || c0 != c1 || r0 != r1) x.fail("%s changed the floating-point environment: mxcsr %x -> %x, control word %x -> %x", d().c_str(), m0, m1, c0, c1);
        if (u.size() != u0.size() || w.size() != w0.size() || (u.size() && memcmp(u.data(), u0.data(), 8 * u.size())) || (w.size() && memcmp(w.data(), w0.data(), 8 * w.size()))) x.fail("%s modified its arguments", d().c_str());
        for (int p : probes) if (A[p].u.size() < 50) run(x, p, d());
        Out b = call(f, u, w);
        if (a.raised != b.raised || (!a.raised && !(a.v == b.v || std::fabs(a.v - b.v) <= 1e-9 * std::fabs(a.v) + 1e-14 * (u.size() + 30)))) x.fail("%s: first %s %.17g, then %s %.17g", d().c_str(), a.raised ? "an error" : "", a.v, b.raised ? "an error" : "", b.v);
    };
    for (int f = 0; f < NFN; ++f) for (size_t i = 0; i < h.size(); ++i) for (size_t j = 0; j < h.size(); ++j) {
        if (!x.next()) continue;
        if (x.describing) x.desc(fmt("%s: first value %g, second value %g (or next list's first), all others", NAME[f], h[i], h[j]));
        x.key(mix(mix(6161, f), i * 64 + j)); x.states(1, 1);
        isolated(x, [&] {
            if (two_sided((Fn)f)) {
                one((Fn)f, {h[i]}, {h[j]});
                for (double k : g) for (double l : g) if (g.size() < 20 || (k <= l)) one((Fn)f, {h[i], k}, {h[j], l});
                for (int n : {20, 150}) { V u(n, 0.0), w(n, 1.0); u[0] = h[i]; w[0] = h[j]; one((Fn)f, u, w); u = V(n, h[i]); w = V(n, h[j]); one((Fn)f, u, w); u = V(n, h[i]); u[n - 1] = h[j]; one((Fn)f, u, V(n, 1.0)); w = V(n, h[i]); w[n - 1] = h[j]; one((Fn)f, V(n, 0.0), w); }
            } else {
                if (i == j) one((Fn)f, {h[i]}, {});
                one((Fn)f, {h[i], h[j]}, {});
                for (double k : h) { one((Fn)f, {h[i], h[j], k}, {}); for (double l : g) if (k <= l) one((Fn)f, {h[i], h[j], k, l}, {}); }
                for (int n : {20, 150}) for (int m : {1, n / 2, n - 1}) one((Fn)f, fam::runs2(n, m, h[i], h[j]), {});
            }
        });
    }
}

int main(int argc, char** argv) {
    alphabet();
    base = (Base*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (size_t k = 0; k < A.size(); ++k) {
        base[k].raised = true; base[k].v = 12345;
        pid_t p = fork();
        if (p == 0) { Out o = call(A[k].f, A[k].u, A[k].w); base[k].raised = o.raised; base[k].v = o.v; _exit(0); }
        int st; waitpid(p, &st, 0);
        if (st) fprintf(stderr, "baseline call %s died (0x%x)\n", A[k].name.c_str(), st);
    }
    return xp_main(argc, argv, [](X& x) { magnitudes(x); lookalikes(x); body(x); });
}
