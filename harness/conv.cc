// C23: FFTWConvolver against the definition of convolution, for all short request histories.
#include "xp.hpp"
#include <map>
#include <memory>
#include <malloc.h>
#include <exception>
#include "fftwconvolver.hh"
using namespace xp;
typedef std::vector<double> V;

static uint64_t rnd(uint64_t& s) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
// input vectors; every output coefficient depends on every earlier input
static V input(int n, int kind, int which) {
    V v(n); uint64_t s = 88172645463325252ull + 7919 * which + kind;
    for (int i = 0; i < n; ++i) {
        double u = (rnd(s) >> 11) * (1.0 / 9007199254740992.0);
        switch (kind) {
            case 0: v[i] = 0.1 + u; break;
            case 1: v[i] = (i % 2 ? -1 : 1) * (0.5 + u); break;
            case 2: v[i] = which ? std::exp(-0.001 * i) * (0.5 + 0.5 * u) : std::exp(-0.02 * i); break;   // probability-like
            default: v[i] = which ? 0.1 + u : (i == n - 1 || i == 0 ? 1.0 : 0.0); break;                   // shifts
        }
    }
    return v;
}
struct Ex { V a, b; V c; double tol; };
static const Ex& expected(int n, int kind) {
    static std::map<int, Ex> cache;
    Ex& e = cache[n * 8 + kind];
    if (e.c.empty() && n) {
        e.a = input(n, kind, 0); e.b = input(n, kind, 1); e.c.resize(n);
        double sa = 0, sb = 0;
        for (int i = 0; i < n; ++i) { sa += e.a[i] * e.a[i]; sb += e.b[i] * e.b[i]; }
        for (int j = 0; j < n; ++j) { long double s = 0; for (int k = 0; k <= j; ++k) s += (long double)e.a[k] * e.b[j - k]; e.c[j] = (double)s; }
        e.tol = 1e-12 * std::sqrt(sa * sb) + 1e-300;
    }
    return e;
}
static const double CANARY = -7.25e77;

static void request(X& x, FFTWConvolver& c, int max, int n, int kind, int off, const std::string& hist) {
    x.check();
    if (n > max) {
        V a(n + 8, 0.5), b(n + 8, 0.25), o(n + 8, CANARY);
        bool raised = false;
        try { c.convolve_same_size(n, a.data(), b.data(), o.data()); } catch (std::exception&) { raised = true; }
        if (!raised) x.fail("request of size %d accepted by a convolver for at most %d (%s)", n, max, hist.c_str());
        return;
    }
    const Ex& e = expected(n, kind);
    V a(n + off), b(n + off + 1), o(n + 40, CANARY);
    for (int i = 0; i < n; ++i) { a[i + off] = e.a[i]; b[i + off + 1] = e.b[i]; }
    V a0 = a, b0 = b;
    try { c.convolve_same_size(n, a.data() + off, b.data() + off + 1, o.data() + off); }
    catch (std::exception& q) { x.fail("request of size %d rejected by a convolver for at most %d: %s (%s)", n, max, q.what(), hist.c_str()); }
    if (a != a0 || b != b0) x.fail("size %d: an input was modified (%s)", n, hist.c_str());
    for (int i = 0; i < (int)o.size(); ++i) if ((i < off || i >= off + n) && o[i] != CANARY) x.fail("size %d: wrote to output[%d] (%s)", n, i - off, hist.c_str());
    for (int i = 0; i < n; ++i) { X::margin(std::fabs(o[i + off] - e.c[i]), e.tol); if (!finite_(o[i + off]) || !(std::fabs(o[i + off] - e.c[i]) <= e.tol)) x.fail("size %d: output[%d] = %.17g, convolution is %.17g (%s)", n, i, o[i + off], e.c[i], hist.c_str()); }
    if (n) x.outcome(mix(max, n * 8 + kind), o[n - 1 + off]);
}

static void body(X& x) {
    // convolvers constructed, used and destroyed in every order, each history in a process of its own
    for (int d = 1; d <= (thorough ? 5 : 4); ++d) words(d, 9, [&](const std::vector<int>& w) {
        if (!x.next()) return;
        static const int size[3] = {20, 300, 1500};
        std::string h = "convolvers for 20, 300 and 1500:";
        for (int i : w) h += fmt(" %s(%d)", i / 3 == 0 ? "renew" : i / 3 == 1 ? "destroy" : "use", size[i % 3]);
        if (x.describing) x.desc(h);
        for (int k = 0; k < 3; ++k) expected(size[k], 0), expected(size[k], 1);
        uint64_t hh = 37; for (int i : w) hh = mix(hh, i);
        isolated(x, [&] {
            mallopt(M_PERTURB, 0x5a);
            std::unique_ptr<FFTWConvolver> c[3];
            int step = 0;
            for (int i : w) {
                int k = i % 3; ++step;
                if (i / 3 == 0) c[k].reset(new FFTWConvolver(size[k]));
                else if (i / 3 == 1) c[k].reset();
                else if (c[k]) request(x, *c[k], size[k], size[k], step & 1, 0, h);
            }
            for (int q = 0; q < 3; ++q) if (c[q]) request(x, *c[q], size[q], size[q], 0, 0, h + " and a last use of each");
        });
        x.key(hh); x.states(d, d); x.trace();
    });
    // every size on its own, exact maximum and larger maximum
    int top = thorough ? 2600 : 900;
    for (int n = 1; n <= top; ++n) for (int kind = 0; kind < 4; ++kind) for (int slack : {0, 1, 1200}) {
        if (!x.next()) continue;
        if (x.describing) x.desc(fmt("convolver(%d): size %d, input kind %d", n + slack, n, kind));
        FFTWConvolver c(n + slack);
        request(x, c, n + slack, n, kind, kind & 1, "first request");
        request(x, c, n + slack, n, (kind + 1) % 4, 0, "second request of the same size");
        request(x, c, n + slack, n + slack + 1, 0, 0, "after two valid requests");
        x.states(2, 2); x.trace();
    }
    // all histories of requests
    std::vector<int> maxes = {1, 2, 127, 128, 129, 200, 512, 1023, 1024, 1025, 2048, 2049};
    if (thorough) for (int m : {64, 600, 1026, 1536, 2047, 3000, 3072, 3073, 4096, 4097}) maxes.push_back(m);
    for (int max : maxes) {
        std::set<int> S = {0, 1, max - 1, max, max + 1, 2 * max + 4096, 1 << 20};
        for (int s : {2, 100, 127, 128, 129, 1023, 1024, 1025, 2048}) if (s <= max) S.insert(s);
        std::vector<int> A; for (int s : S) if (s >= 0) A.push_back(s);
        int depth = max > 2100 ? 2 : max > 1100 && !thorough ? 2 : 3;
        if (thorough && max <= 129) depth = 4;
        for (int d = 1; d <= depth; ++d) words(d, (int)A.size(), [&](const std::vector<int>& w) {
            if (!x.next()) return;
            std::string h = fmt("convolver(%d):", max);
            for (int k : w) h += fmt(" %d", A[k]);
            if (x.describing) x.desc("request sizes on " + h);
            FFTWConvolver c(max);
            int i = 0;
            for (int k : w) { request(x, c, max, A[k], (k + i) % 4, (k + i) % 3, h); ++i; }
            x.states(d, d); x.trace();
        });
    }
    // unit vectors: each output coefficient separately, at the thresholds
    for (int n : {5, 127, 128, 129, 200, 1023, 1024, 1025}) {
        int step = n < 256 || thorough ? 1 : 13;
        for (int p = 0; p < n; p += step) {
            if (!x.next()) continue;
            if (x.describing) x.desc(fmt("unit vector %d of %d", p, n));
            FFTWConvolver c(n);
            V a(n, 0.0), b = input(n, 0, 1), o(n, CANARY);
            a[p] = 1;
            for (int side = 0; side < 2; ++side) {
                c.convolve_same_size(n, side ? b.data() : a.data(), side ? a.data() : b.data(), o.data());
                x.check();
                for (int i = 0; i < n; ++i) { double want = i < p ? 0 : b[i - p]; if (!(std::fabs(o[i] - want) <= 1e-11)) x.fail("size %d, unit vector %d: output[%d] = %.17g, expected %.17g", n, p, i, o[i], want); }
            }
            x.key(mix(n, p)); x.states(1, 1); x.trace();
        }
    }
    // large sizes around every multiple of the block sizes: inputs that leave no room for any wrap-around
    std::set<int> large;
    for (int m = 1; m <= (thorough ? 66 : 34); ++m) for (int d : {-33, -1, 0, 1, 2, 30, 63, 200, 511, 512, 513}) if (1024 * m + d > 1025) large.insert(1024 * m + d);
    for (int n : {50000, 65535, 65536, 65537, 100003, 131072, 131073, 200000}) if (n <= 100003 || thorough) large.insert(n);
    for (int n : large) for (int slack : {0, 1000}) {
        if (slack && n % 1024 != 1 && n % 1024 != 30) continue;
        if (!x.next()) continue;
        if (x.describing) x.desc(fmt("convolver(%d): shifts of a vector of %d", n + slack, n));
        FFTWConvolver c(n + slack);
        V b = input(n, 0, 1);
        int at[] = {n - 1, 0, n / 2, n - 2, 1};
        for (int k = 0; k < 5; ++k) {
            V a(n, 0.0), o(n, CANARY); a[at[k]] = 1; a[n - 1] += k & 1 ? 0.5 : 0;
            bool swap = k & 2;
            c.convolve_same_size(n, swap ? b.data() : a.data(), swap ? a.data() : b.data(), o.data());
            x.check();
            for (int i = 0; i < n; ++i) {
                double want = i < at[k] ? 0 : b[i - at[k]];
                if (i == n - 1) want += k & 1 ? 0.5 * b[0] : 0;
                if (!(std::fabs(o[i] - want) <= 1e-10)) x.fail("size %d with a maximum of %d, shift by %d: output[%d] = %.17g, expected %.17g", n, n + slack, at[k], i, o[i], want);
            }
        }
        x.key(mix(mix(909, n), slack)); x.states(5, 5); x.trace();
    }
    // consecutive requests whose inputs agree in almost everything: end values, middle, sum, address
    for (int n : {3, 8, 127, 128, 129, 300, 1024, 1025}) for (int how = 0; how < 3; ++how) for (int side = 0; side < 2; ++side) for (int base = 0; base < 2; ++base) for (int k = 0; k < 12; ++k) {
        if (!x.next()) continue;
        static const char* const HOW[] = {"in place", "in other arrays", "in new arrays after releasing the others"};
        V v[2]; for (int i = 0; i < 2; ++i) { v[i] = input(n, 0, i); if (base) for (double& d : v[i]) d = std::floor(d * 4) / 4; }
        V c = v[side]; std::string what;
        int ps[] = {0, 1, n / 4, n / 2, 3 * n / 4, n - 2, n - 1}; 
        if (k < 7) { c[ps[k]] += 0.5; what = fmt("value %d changed", ps[k]); }
        else if (k == 7) { std::swap(c[1], c[n - 2]); c[1] += 1; c[n - 2] -= 1; what = "two values changed, same sum"; }
        else if (k == 8) { for (int i = 1; i < n - 1; ++i) c[i] += i == n / 2 ? 0 : 0.25; what = "all but the first, middle and last value changed"; }
        else if (k == 9) { std::reverse(c.begin(), c.end()); what = "reversed"; }
        else if (k == 10) { for (double& d : c) d = -d; what = "negated"; }
        else { c = v[!side]; what = "replaced by the other input"; }
        std::string h = fmt("convolver(%d): two requests of size %d, before the second one input %d is %s (%s)", n + 5, n, side, what.c_str(), HOW[how]);
        if (x.describing) x.desc(h);
        FFTWConvolver f(n + 5);
        auto test = [&](const double* a, const double* b, const char* when) {
            V o(n, CANARY); f.convolve_same_size(n, a, b, o.data());
            x.check();
            double sa = 0, sb = 0; for (int i = 0; i < n; ++i) { sa += a[i] * a[i]; sb += b[i] * b[i]; }
            for (int j = 0; j < n; j += n > 500 && j > 4 && j < n - 9 ? 7 : 1) { long double e = 0; for (int i = 0; i <= j; ++i) e += (long double)a[i] * b[j - i]; if (!(std::fabs(o[j] - (double)e) <= 1e-12 * std::sqrt(sa * sb))) x.fail("%s request: output[%d] = %.17g, convolution is %.17g (%s)", when, j, o[j], (double)e, h.c_str()); }
        };
        V* a = new V(v[0]); V* b = new V(v[1]);
        test(a->data(), b->data(), "first");
        if (how == 0) { (side ? *b : *a) = c; test(a->data(), b->data(), "second"); *a = v[0]; *b = v[1]; test(a->data(), b->data(), "third"); }
        else {
            if (how == 2) { delete a; delete b; a = b = nullptr; }
            V a2 = side ? v[0] : c, b2 = side ? c : v[1];
            test(a2.data(), b2.data(), "second");
            V a3 = v[0], b3 = v[1];
            test(a3.data(), b3.data(), "third");
            test(a3.data(), a3.data(), "fourth (one array twice)"); test(b3.data(), b3.data(), "fifth (another array twice)");
            test(b3.data(), a3.data(), "sixth (exchanged)"); test(b3.data(), b3.data(), "seventh (one array twice)");
            V w(2 * n); for (int i = 0; i < 2 * n; ++i) w[i] = a3[i % n] - 0.5 * b3[i * 7 % n];      // inputs that overlap in memory
            for (int d : {1, n / 2, n}) { test(w.data(), w.data() + d, "overlapping"); test(w.data() + d, w.data(), "overlapping (exchanged)"); }
        }
        delete a; delete b;
        x.key(mix(mix(606, n * 4 + how), side * 64 + base * 32 + k)); x.states(3, 3); x.trace();
    }
    // several convolvers alive at once, interleaved requests
    for (int m1 : {127, 128, 300, 1025}) for (int m2 : {128, 129, 1024, 2000}) for (int order = 0; order < 8; ++order) {
        if (!x.next()) continue;
        if (x.describing) x.desc(fmt("two convolvers %d and %d, order %d", m1, m2, order));
        std::unique_ptr<FFTWConvolver> a(new FFTWConvolver(m1)), b(new FFTWConvolver(m2));
        for (int s = 0; s < 3; ++s) { if (order >> s & 1) request(x, *a, m1, m1, s, 0, "two convolvers"); else request(x, *b, m2, m2, s, 0, "two convolvers"); }
        if (order & 1) { a.reset(); request(x, *b, m2, m2, 0, 0, "after destroying the other one"); } else { b.reset(); request(x, *a, m1, m1, 0, 0, "after destroying the other one"); }
        x.states(4, 4); x.trace();
    }
}
int main(int argc, char** argv) { return xp_main(argc, argv, body); }
