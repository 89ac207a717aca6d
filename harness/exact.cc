// C01-C04: every library algorithm against the Markov-chain model.
#include "xp.hpp"
#include "ref.hpp"
#include "fam.hpp"
#include "ecdf2.hh"
#include "ecdf1_new.hh"
#include "ecdf1_mns2016.hh"
#include <set>
using namespace xp;
typedef std::vector<double> V;

static double tol_abs(int n) { return 1e-13 * (n + 30); }
enum Alg { KS, MN, NEW, MNS };
static Alg alg;

static uint64_t hv(const V& v, uint64_t h = 1) { for (double d : v) { uint64_t u; memcpy(&u, &d, 8); h = mix(h, u); } return mix(h, v.size()); }

static void judge(X& x, const char* fn, double got, double ref, int n, bool relative)
{
    x.check();
    double err = std::fabs(got - ref), tol = tol_abs(n);
    if (relative && alg == KS && ref > 1e-200) tol = std::min(tol, 1e-11 * (n + 30) * ref);
    X::margin(err, tol);
    if (!finite_(got) || !(err <= tol)) x.fail("%s returned %.17g, exact probability %.17g (difference %.3g, tolerance %.3g)", fn, got, ref, got - ref, tol);
}

static void two(X& x, const V& b, const V& B, bool relative, long double trunc = 0)
{
    if (x.describing) x.desc(fmt("ecdf2(b=%s, B=%s, use_fft=%s)", vec(b).c_str(), vec(B).c_str(), alg == MN ? "true" : "false"));
    RefStats st;
    double ref = ref_noncrossing(b, B, &st, trunc);
    x.states(st.states, st.transitions);
    double got = ecdf2(b, B, alg == MN);
    x.trace();
    judge(x, "ecdf2", got, ref, (int)b.size(), relative && trunc == 0);
    x.outcome(mix(hv(b), hv(B)), ref);
}

// one list v used as lower bounds and, reflected and as is, as upper bounds
static void one(X& x, const V& v, int which, long double trunc = 0)
{
    int n = (int)v.size();
    auto lower = [](const V& u) -> double { return alg == NEW ? ecdf1_new_b(u) : ecdf1_mns2016_b(u); };
    auto upper = [](const V& u) -> double { return alg == NEW ? ecdf1_new_B(u) : ecdf1_mns2016_B(u); };
    const char* ln = alg == NEW ? "ecdf1_new_b" : "ecdf1_mns2016_b"; const char* un = alg == NEW ? "ecdf1_new_B" : "ecdf1_mns2016_B";
    RefStats st;
    if (which == 0) {
        if (x.describing) x.desc(fmt("%s(%s)", ln, vec(v).c_str()));
        double ref = ref_noncrossing(v, V(), &st, trunc);
        judge(x, ln, lower(v), ref, n, false);
        x.outcome(hv(v), ref);
    } else {
        if (x.describing) x.desc(fmt("%s(%s)", un, vec(v).c_str()));
        double ref = ref_noncrossing(V(), v, &st, trunc);
        judge(x, un, upper(v), ref, n, false);
        x.outcome(hv(v, 2), ref);
    }
    x.trace();
    x.states(st.states, st.transitions);
}

// The model against two independent oracles.
static void validate_model(X& x)
{
    for (int n = 1; n <= 4; ++n) for (int m = 1; m <= 4; ++m) {
        V g; for (int i = 0; i <= m; ++i) g.push_back((double)i / m);
        monotone(n, m + 1, [&](const std::vector<int>& ib) {
            monotone(n, m + 1, [&](const std::vector<int>& iB) {
                if (!x.next()) return;
                V b = fam::at(g, ib), B = fam::at(g, iB);
                if (x.describing) x.desc(fmt("model self-check b=%s B=%s", vec(b).c_str(), vec(B).c_str()));
                double r = ref_noncrossing(b, B), e = brute_grid(ib, iB, m, n);
                if (std::fabs(r - e) > 1e-14) { fprintf(stderr, "MODEL WRONG %s %s: %.17g vs %.17g\n", vec(b).c_str(), vec(B).c_str(), r, e); _exit(99); }
                x.oracle();
            });
        });
    }
    // closed forms
    for (int n : {1, 2, 3, 7, 20, 100, 300}) for (double d : {0.05, 0.2, 0.5, 0.9}) {
        if (!x.next()) continue;
        // Pr[D_n^+ <= d] = 1 - d sum_{j=0}^{floor(n(1-d))} C(n,j) (d+j/n)^{j-1} (1-d-j/n)^{n-j}
        V b(n); for (int i = 0; i < n; ++i) b[i] = std::max(0.0, (i + 1.0) / n - d);
        long double s = 0;
        for (int j = 0; j <= n; ++j) {
            long double t = 1.0L - d - (long double)j / n;
            if (t <= 0) break;
            s += expl(lgammal(n + 1.0L) - lgammal(j + 1.0L) - lgammal(n - j + 1.0L) + (j - 1) * logl(d + (long double)j / n) + (n - j) * logl(t));
        }
        double e = (double)(1.0L - d * s), r = ref_noncrossing(b, V());
        if (std::fabs(r - e) > 1e-12) { fprintf(stderr, "MODEL WRONG Smirnov n=%d d=%g: %.17g vs %.17g\n", n, d, r, e); _exit(99); }
        for (int k = 1; k <= n; k += std::max(1, n / 7)) {   // b = 0 below k, c from k on: Pr[Bin(n,c) <= k-1]
            long double bin = 0;
            for (int j = 0; j < k; ++j) bin += expl(lgammal(n + 1.0L) - lgammal(j + 1.0L) - lgammal(n - j + 1.0L) + j * logl(d) + (n - j) * logl(1.0L - d));
            V v = fam::runs2(n, k - 1, 0.0, d);
            if (std::fabs(ref_noncrossing(v, V()) - (double)bin) > 1e-12) { fprintf(stderr, "MODEL WRONG binomial n=%d c=%g k=%d\n", n, d, k); _exit(99); }
        }
        x.oracle();
    }
}

// stairs with equal exact gaps: runs of r equal values, s stairs of dyadic width 2^-k, first one at off/2^k
static std::vector<V> dyadic_stairs(int n, bool more)
{
    std::set<V> out;
    for (int k : more ? std::vector<int>{2, 3, 4, 5, 6, 8} : std::vector<int>{2, 4, 6}) for (int r : {1, 2, 3, 7, 40}) for (int off : {-3, 0, 1, 2}) {
        if (r > n || (r == 40 && n < 80)) continue;
        V v(n); int m = 1 << k;
        for (int i = 0; i < n; ++i) v[i] = std::min(m, std::max(0, i / r + off)) / (double)m;
        out.insert(v);
        for (int i = 0; i < n; ++i) v[i] = std::min(m, std::max(0, (i - n / 2) / r + off)) / (double)m;   // starts late
        out.insert(v);
        if (n > m) { for (int i = 0; i < n; ++i) v[i] = std::max(0, i * m / n + off - 1) / (double)m; for (double& d : v) d = std::min(d, 1.0); out.insert(v); }   // over the whole list
    }
    return std::vector<V>(out.begin(), out.end());
}

static void body_two(X& x)
{
    if (x.next()) two(x, V(), V(), true);
    // every weak order of the 2n bounds for n <= 4 (2n+2 grid values), coarser grids above
    struct NM { int n, m; };
    std::vector<NM> small = {{1, 14}, {2, 12}, {3, 9}, {4, 9}, {5, 6}, {6, 5}, {8, 4}, {12, 3}, {17, 3}};
    if (thorough) small = {{1, 14}, {2, 14}, {3, 12}, {4, 11}, {5, 9}, {6, 7}, {7, 6}, {8, 5}, {12, 4}, {17, 3}, {33, 3}};
    if (deep) small = {{1, 14}, {2, 14}, {3, 14}, {4, 13}, {5, 11}, {6, 9}, {7, 8}, {8, 6}, {9, 6}, {12, 5}, {17, 4}, {33, 3}, {40, 3}};
    for (auto& s : small) {
        V g = fam::grid(s.m);
        monotone(s.n, s.m, [&](const std::vector<int>& ib) {
            V b = fam::at(g, ib);
            monotone(s.n, s.m, [&](const std::vector<int>& iB) {
                if (x.next()) two(x, b, fam::at(g, iB), true);
            });
        });
    }
    // all sizes
    int nmax = thorough ? 700 : 280;
    for (int n = 1; n <= nmax; ++n) for (auto& t : fam::two_sided(n, 1)) if (x.next()) two(x, t.b, t.B, n <= 200);
    // run skeletons on both sides
    std::vector<int> ns = {9, 16, 40, 126, 127, 128, 129, 200};
    if (thorough) ns = {9, 16, 40, 64, 126, 127, 128, 129, 200, 255, 256, 257, 300};
    for (int n : ns) {
        auto sk = fam::skeletons(n, n <= 40 || thorough ? V{0, 0.03, 0.31, 0.5, 0.77, 0.96, 1} : V{0, 0.31, 0.5, 0.77, 1}, {1, n / 3, n / 2, n - 1}, 2);
        for (auto& b : sk) for (auto& B : sk) if (x.next()) two(x, b, B, n <= 200);
    }
    // bounds that differ by tiny amounts: no gap is small enough to count as a tie
    for (int k = 1; k < (thorough ? 52 : 50); k += thorough ? 1 : 3) {
        double e = std::ldexp(1.0, -k - 2);
        V g = k == 1 ? V{0, .25, .375, .5, .625, .75, 1} : V{0, .25, .25 + e, .25 + 2 * e, .5, .5 + e, 1};
        for (int n = 1; n <= (thorough ? 4 : 3); ++n) monotone(n, 7, [&](const std::vector<int>& ib) {
            V b = fam::at(g, ib);
            monotone(n, 7, [&](const std::vector<int>& iB) { if (x.next()) two(x, b, fam::at(g, iB), true); });
        });
        // corridors of width e, wide elsewhere; a bundle of bounds e apart
        for (int n : {5, 17, 40}) for (int p = 0; p < n; p += std::max(1, n / 8)) for (int w = 1; w < 5; ++w) {
            if (!x.next()) continue;
            V b(n, 0.0), B(n, 1.0);
            for (int i = 0; i < n; ++i) { if (i >= p) b[i] = 0.5; if (i < p + w) B[i] = 0.5 + e; }
            if (w == 4) for (int i = 0; i < n; ++i) { b[i] = i < p ? 0.25 : 0.5 + std::ldexp(i, -k - 9); B[i] = 1; }
            two(x, b, B, true);
        }
    }
    // bounds within tiny distances of the ends of the interval
    for (int k = 2; k < 50; k += thorough ? 1 : 4) {
        double e = std::ldexp(1.0, -k - 2);
        V g = {0, e, 2 * e, 0.5, 1 - 2 * e, 1 - e, 1};
        for (int n = 1; n <= (thorough ? 4 : 3); ++n) monotone(n, 7, [&](const std::vector<int>& ib) {
            V b = fam::at(g, ib);
            monotone(n, 7, [&](const std::vector<int>& iB) { if (x.next()) two(x, b, fam::at(g, iB), true); });
        });
    }
    // equal exact gaps
    {
        struct NM { int n, m; };
        for (auto& s : thorough ? std::vector<NM>{{3, 9}, {4, 9}, {5, 7}, {6, 5}, {8, 4}} : std::vector<NM>{{3, 9}, {4, 5}, {5, 5}, {6, 4}}) {
            V g(s.m); for (int i = 0; i < s.m; ++i) g[i] = i / (s.m > 5 ? 8.0 : 4.0);
            monotone(s.n, s.m, [&](const std::vector<int>& ib) { monotone(s.n, s.m, [&](const std::vector<int>& iB) { if (x.next()) two(x, fam::at(g, ib), fam::at(g, iB), true); }); });
        }
        for (int n : {12, 24, 60, 130, 170}) {
            auto d = dyadic_stairs(n, thorough);
            for (size_t i = 0; i < d.size(); ++i) for (size_t j = 0; j < d.size(); ++j) {
                if (!thorough && n > 24 && (i + 3 * j) % 5 != (unsigned)n % 5) continue;
                if (x.next()) two(x, d[i], fam::reflect(d[j]), n <= 200);
            }
        }
    }
    // one perturbed position in a band: ties within a list, ties between the lists, impossible pairs
    for (int n : {20, 130, 200}) for (int p = 0; p + 1 < n; ++p) {
        double q = std::sqrt((double)n);
        for (int k = 0; k < 7; ++k) {
            if (!x.next()) continue;
            V b = fam::ks_lower(n, 0.8 / q), B = fam::ks_upper(n, 0.8 / q);
            if (k == 0) b[p] = b[p + 1];
            if (k == 1) B[p + 1] = B[p];
            if (k == 2) for (int i = p; i < std::min(n, p + 12); ++i) b[i] = b[std::min(n - 1, p + 11)];
            if (k == 3) for (int i = std::max(0, p - 40); i <= p; ++i) B[i] = B[std::max(0, p - 40)];
            if (k == 4) { int j = 0; while (j < n - 1 && B[j] < b[p]) ++j; B[j] = b[p]; std::sort(B.begin(), B.end()); }   // cross tie
            if (k == 5) { for (int i = 0; i <= p; ++i) B[i] = std::min(B[i], b[p]); }   // B_p = b_p: probability 0
            if (k == 6) { for (int i = p; i < n; ++i) b[i] = std::max(b[i], std::min(1.0, B[p] + 0.01)); }                // b_p > B_p
            two(x, b, B, n <= 200);
        }
    }
    // huge samples whose bounds take few values: every transform length, small windows before big ones
    for (int n : alg == KS ? std::vector<int>{2100, 4300, 8300} : thorough ? std::vector<int>{2600, 3100, 4097, 4300, 5130, 6145, 7000, 8193, 9300, 10241, 12300, 16500} : std::vector<int>{3100, 4300, 5130, 6200, 8200, 9300}) {
        if (alg == KS && !thorough) continue;
        for (int c1 : {140, 500, 1100, 2050, n / 2, n - 40}) for (int dir = 0; dir < 2; ++dir) for (double d : {0.02, 0.1, 0.26}) {
            if (c1 >= n) continue;
            if (!x.next()) continue;
            V b(n, 0.0), B(n, 1.0);   // window grows from c1 to n and shrinks again
            for (int i = c1; i < n; ++i) b[i] = d;
            for (int i = (c1 + 3 * n) / 4; i < n; ++i) b[i] = 0.4 + d;
            for (int i = 0; i < c1 / 2; ++i) B[i] = 0.45 + d;
            for (int i = 0; i < (c1 + n) / 2; ++i) B[i] = std::min(B[i], 0.75);
            if (dir) { V t = fam::reflect(b); b = fam::reflect(B); B = t; }
            two(x, b, B, false, 1e-40L);
        }
    }
    // windows of constant size: at every change both counts move by the same number
    for (int n : alg == KS ? std::vector<int>{300} : thorough ? std::vector<int>{300, 700, 1100, 1500, 2100, 3100, 6200, 9000} : std::vector<int>{700, 1500, 9000})
        for (double part : {0.3, 0.6, 0.9}) for (int shift : {1, 7, n / 30})
            for (auto& ts : std::vector<V>{{0.15, 0.35}, {0.35, 0.5}, {0.1, 0.32, 0.6}, {0.25, 0.5, 0.75}, {0.3, 0.3001, 0.5, 0.9}, {0.01, 0.3, 0.59, 0.6}}) {
                if (!x.next()) continue;
                int w = (int)(part * n); V b, B;
                b.assign(w, 0.0);
                for (double t : ts) for (int k = 0; k < shift; ++k) { b.push_back(t); B.push_back(t); }
                while ((int)b.size() < n) b.push_back(ts.back());
                b.resize(n); while ((int)B.size() < n) B.push_back(1.0);
                two(x, b, B, false, 1e-40L);
            }
    // more points than 15, 16 or 17 bits can count, in corridors that follow the diagonal
    struct Hs { int n, s; };
    std::vector<Hs> hs = {{33000, 150}, {40000, 170}, {66000, 220}, {70000, 300}};
    if (thorough) for (Hs h : {Hs{32767, 150}, {32768, 150}, {32769, 150}, {65535, 200}, {65536, 200}, {65537, 200}, {100003, 300}, {131073, 300}, {140000, 350}}) hs.push_back(h);
    for (Hs h : hs) for (int kind = 0; kind < (thorough ? 4 : 2); ++kind) {
        if (!x.next()) continue;
        // at the times k*s/n: at least (k-1)*s points (kind 1: half a step), at most (k+1)*s
        V b(h.n), B(h.n);
        for (int i = 1; i <= h.n; ++i) {
            long c = (i + h.s - 1) / h.s;
            long up = kind == 1 ? (i + h.s / 2 - 1) / h.s + 1 : c + 1, dn = kind == 2 ? (i + h.s / 2 - 1) / h.s - 2 : c - 2;
            B[i - 1] = std::min(1.0, (double)(up * h.s) / h.n); b[i - 1] = std::max(0.0, (double)(dn * h.s) / h.n);
            if (kind == 3) { if (i <= h.n / 2) b[i - 1] = 0; else B[i - 1] = 1; }
            if (b[i - 1] >= B[i - 1]) _exit(97);
        }
        if (kind == 3 && (alg == KS || h.n > 41000)) { x.states(0, 0); continue; }
        two(x, b, B, false, 1e-40L);
    }
    // FFT lengths and larger sizes
    std::vector<int> big = {511, 512, 513, 1022, 1023, 1024, 1025, 1026, 1500, 2047, 2048, 2049};
    if (thorough) { for (int n : {900, 1021, 1027, 2046, 2050, 3000, 3071, 3072, 3073, 4095, 4096, 4097}) big.push_back(n); }
    if (alg == KS && !thorough) big = {511, 512, 513, 800, 1023, 1024, 1025, 1026};
    for (int n : big) {
        for (auto& t : fam::two_sided(n, 1)) if (x.next()) two(x, t.b, t.B, false, 1e-40L);
        auto sk = fam::skeletons(n, {0, 0.31, 0.5, 0.96, 1}, {n / 3, n - 1}, 2);
        for (size_t i = 0; i < sk.size(); ++i) for (size_t j = 0; j < sk.size(); ++j) if (thorough || (i * 7 + j * 3) % 11 == (unsigned)n % 11) if (x.next()) two(x, sk[i], sk[j], false, 1e-40L);
    }
}

// Pr[at least m of n uniform points are <= c]
static double binomial_tail(int n, int m, double c)
{
    if (m <= 0) return 1;
    long double lc = logl((long double)c), l1 = log1pl(-(long double)c), s = 0, q = 0;
    long double ln = lgammal(n + 1.0L);
    for (int k = 0; k <= n; ++k) { long double t = expl(ln - lgammal(k + 1.0L) - lgammal(n - k + 1.0L) + k * lc + (n - k) * l1); (k < m ? q : s) += t; }
    return (double)(s / (s + q));
}

static void body_one(X& x)
{
    // more points than 15 (16) bits can count: the exact probability is a binomial tail
    std::vector<int> hn = alg == NEW ? std::vector<int>{33000} : std::vector<int>{};
    if (thorough && alg == NEW) hn = {32768, 33000, 40000, 46341, 47000, 65537, 70000};
    for (int n : hn) for (int kind = 0; kind < 3; ++kind) {
        if (!x.next()) continue;
        int m = kind == 0 ? n / 2 : kind == 1 ? n / 3 : n - 5;
        double c = (m + 1.0 + (kind == 2 ? -2.0 : 0.3 * std::sqrt((double)m))) / n;
        V v = fam::runs2(n, m, c, 1.0), u = fam::reflect(v);
        bool low = kind == 1;
        if (x.describing) x.desc(fmt("%s on a list of %d numbers %.17g and %d numbers %d", low ? "ecdf1_new_b" : "ecdf1_new_B", m, low ? 1 - c : c, n - m, low ? 0 : 1));
        double got = low ? ecdf1_new_b(u) : ecdf1_new_B(v), ref = binomial_tail(n, m, c);
        judge(x, low ? "ecdf1_new_b" : "ecdf1_new_B", got, ref, n, false);
        x.trace(); x.states(n, n); x.outcome(mix(n, kind), ref);
    }
    if (x.next()) one(x, V(), 0);
    if (x.next()) one(x, V(), 1);
    struct NM { int n, m; };
    std::vector<NM> small = {{1, 14}, {2, 14}, {3, 14}, {4, 14}, {5, 12}, {6, 10}, {7, 9}, {8, 8}, {9, 7}, {10, 7}, {12, 5}, {16, 5}, {17, 5}, {18, 4}, {25, 4}, {33, 3}, {36, 3}, {50, 3}};
    if (thorough) small = {{1, 14}, {2, 14}, {3, 14}, {4, 14}, {5, 14}, {6, 13}, {7, 12}, {8, 11}, {9, 10}, {10, 10}, {12, 7}, {16, 6}, {17, 6}, {18, 5}, {25, 5}, {33, 4}, {36, 4}, {50, 4}, {65, 3}, {100, 3}};
    if (deep) small = {{1, 14}, {2, 14}, {3, 14}, {4, 14}, {5, 14}, {6, 14}, {7, 14}, {8, 14}, {9, 13}, {10, 12}, {12, 10}, {16, 8}, {17, 7}, {18, 7}, {25, 6}, {33, 5}, {36, 5}, {50, 5}, {65, 4}, {100, 4}, {130, 3}, {257, 3}};
    for (auto& s : small) {
        V g = fam::grid(s.m);
        monotone(s.n, s.m, [&](const std::vector<int>& ib) {
            for (int w = 0; w < 2; ++w) if (x.next()) one(x, fam::at(g, ib), w);
        });
    }
    int nmax = alg == MNS ? (thorough ? 500 : 260) : (thorough ? 1100 : 450);
    for (int n = 1; n <= nmax; ++n) for (auto& v : fam::one_sided(n, n < 300 || n % 10 == 0)) for (int w = 0; w < 2; ++w)
        if (x.next()) one(x, w ? fam::reflect(v) : v, w, n > 150 ? 1e-40L : 0);
    std::vector<int> ns = {9, 15, 16, 17, 24, 31, 32, 33, 48, 100, 126, 127, 128, 129, 200};
    if (thorough) for (int n : {63, 64, 65, 144, 255, 256, 257, 289, 300}) ns.push_back(n);
    for (int n : ns) {
        int k = (int)std::sqrt((double)n) + 1;
        for (auto& v : fam::skeletons(n, {0, 0.03, 0.31, 0.5, 0.77, 0.96, 1}, {1, k - 1, k, k + 1, n / 2, n - 1}, 3))
            for (int w = 0; w < 2; ++w) if (x.next()) one(x, w ? fam::reflect(v) : v, w);
    }
    // bounds that differ by tiny amounts
    for (int k = 1; k < 50; k += thorough ? 1 : 3) {
        double e = std::ldexp(1.0, -k - 2);
        V g = k == 1 ? V{0, .25, .375, .5, .625, .75, 1} : V{0, .25, .25 + e, .25 + 2 * e, .5, .5 + e, 1};
        for (int n = 1; n <= (thorough ? 7 : 5); ++n) monotone(n, 7, [&](const std::vector<int>& ib) { for (int w = 0; w < 2; ++w) if (x.next()) one(x, fam::at(g, ib), w); });
        for (int n : {17, 40, 130}) for (int p = 0; p < n; p += std::max(1, n / 8)) for (int w = 0; w < 2; ++w) {
            if (!x.next()) continue;
            V b(n, 0.0);
            for (int i = 0; i < n; ++i) b[i] = i < p ? 0.125 * i / n : 0.5 * (i - p) / n + 0.25 + std::ldexp(i, -k - 12) + (i == p ? 0 : e);
            std::sort(b.begin(), b.end());
            one(x, w ? fam::reflect(b) : b, w);
        }
    }
    // bounds within tiny distances of the ends of the interval
    for (int k = 2; k < 50; k += thorough ? 1 : 3) {
        double e = std::ldexp(1.0, -k - 2);
        V g = {0, e, 2 * e, 0.5, 1 - 2 * e, 1 - e, 1};
        for (int n = 1; n <= (thorough ? 7 : 5); ++n) monotone(n, 7, [&](const std::vector<int>& ib) { for (int w = 0; w < 2; ++w) if (x.next()) one(x, fam::at(g, ib), w); });
        for (int n : {17, 60}) for (int p : {0, 1, n / 2, n - 1}) for (int w = 0; w < 2; ++w) {
            if (!x.next()) continue;
            V b(n, 0.0);
            for (int i = 0; i < n; ++i) b[i] = i <= p ? (i + 1) * e / n : 0.9 * i / n;
            if (p == n - 1) for (int i = 0; i < n; ++i) b[i] = 0.3 * i / n;
            b[n - 1] = 1 - (p + 1) * e / n;
            std::sort(b.begin(), b.end());
            one(x, w ? fam::reflect(b) : b, w);
        }
    }
    // equal exact gaps
    {
        struct NM { int n, m; };
        for (auto& s : thorough ? std::vector<NM>{{5, 9}, {6, 9}, {7, 9}, {8, 9}, {9, 8}, {10, 7}, {12, 6}, {16, 5}, {20, 4}, {30, 4}} : std::vector<NM>{{5, 9}, {6, 9}, {7, 8}, {9, 6}, {12, 5}, {16, 4}, {20, 4}}) {
            V g(s.m); for (int i = 0; i < s.m; ++i) g[i] = i / (s.m > 5 ? 8.0 : 4.0);
            monotone(s.n, s.m, [&](const std::vector<int>& ib) { for (int w = 0; w < 2; ++w) if (x.next()) one(x, w ? fam::reflect(fam::at(g, ib)) : fam::at(g, ib), w); });
        }
        for (int n : {12, 17, 24, 36, 60, 100, 130, 170, 200}) for (auto& v : dyadic_stairs(n, true)) for (int w = 0; w < 2; ++w) if (x.next()) one(x, w ? fam::reflect(v) : v, w);
    }
    for (int n : {30, 100, 130}) for (int p = 0; p + 1 < n; ++p) for (int k = 0; k < 6; ++k) for (int w = 0; w < 2; ++w) {
        if (!x.next()) continue;
        double q = std::sqrt((double)n);
        V b = fam::ks_lower(n, 0.8 / q);
        if (k == 0) b[p] = b[p + 1];
        if (k == 1) for (int i = p; i < std::min(n, p + 12); ++i) b[i] = b[std::min(n - 1, p + 11)];
        if (k == 2) for (int i = p; i < std::min(n, p + 40); ++i) b[i] = b[std::min(n - 1, p + 39)];
        if (k == 3) for (int i = 0; i <= p; ++i) b[i] = 0;
        if (k == 4) for (int i = p; i < n; ++i) b[i] = std::max(b[i], b[p] + 0.05 > 1 ? 1.0 : b[p] + 0.05);
        if (k == 5) for (int i = p; i < n; ++i) b[i] = std::max(b[i], 0.999999);
        one(x, w ? fam::reflect(b) : b, w);
    }
    std::vector<int> big = {511, 512, 513, 576, 600, 625, 999, 1000, 1022, 1023, 1024, 1025, 1026, 1500, 2047, 2048, 2049, 4095, 4096, 4097};
    if (thorough) for (int n : {700, 729, 900, 961, 1021, 1027, 1200, 1369, 2025, 2046, 2050, 3000, 3071, 3072, 3073, 6143, 6144, 6145}) big.push_back(n);
    if (alg == MNS) big = {4000, 3300, 3600, 2500, 2048, 1800, 1500, 400, 511, 512, 513, 600, 801, 1023, 1024, 1025};
    if (alg == MNS && thorough) for (int n : {5000, 4500, 4097, 4096, 4095, 3900, 3000, 2049, 2047, 1999, 1200}) big.insert(big.begin(), n);
    for (int n : big) {
        for (auto& v : fam::one_sided(n, 1)) for (int w = 0; w < 2; ++w) if (x.next()) one(x, w ? fam::reflect(v) : v, w, 1e-40L);
        if (n <= 1100) {
            auto sk = fam::skeletons(n, {0, 0.31, 0.5, 0.96, 1}, {n / 3, n - 1}, 3);
            for (size_t i = 0; i < sk.size(); ++i) if (thorough || alg == NEW || i % 9 == (unsigned)n % 9) for (int w = 0; w < 2; ++w) if (x.next()) one(x, w ? fam::reflect(sk[i]) : sk[i], w, 1e-40L);
        }
    }
}

int main(int argc, char** argv)
{
    return xp_main(argc, argv, [](X& x) {
        alg = mode == "ks" ? KS : mode == "mn" ? MN : mode == "new" ? NEW : MNS;
        x.sampling = false;
        validate_model(x);
        x.sampling = true;
        if (alg == KS || alg == MN) body_two(x); else body_one(x);
    });
}
