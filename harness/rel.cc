// C05 agreement and reflection, C06 monotonicity, C07 totality, C08 validation.
#include "xp.hpp"
#include "fam.hpp"
#include "lib.hpp"
#include <limits>
using namespace xp;
using namespace lib;

static uint64_t hv(const V& v, uint64_t h = 1) { for (double d : v) { uint64_t u; memcpy(&u, &d, 8); h = mix(h, u); } return mix(h, v.size()); }
static std::string show(Fn f, const V& u, const V& w) {
    return two_sided(f) ? fmt("%s(b=%s, B=%s)", NAME[f], vec(u).c_str(), vec(w).c_str()) : fmt("%s(%s)", NAME[f], vec(u).c_str());
}
static double value(X& x, Fn f, const V& u, const V& w = V()) {
    Out o = call(f, u, w);
    if (o.raised) x.fail("%s raised an error: %s", show(f, u, w).c_str(), o.what.c_str());
    if (!finite_(o.v)) x.fail("%s is not finite: %g", show(f, u, w).c_str(), o.v);
    return o.v;
}

// ---------------------------------------------------------------- C05
static void agree(X& x, const std::vector<std::pair<std::string, double>>& r, int n) {
    double lo = 1e9, hi = -1e9; size_t a = 0, b = 0;
    for (size_t i = 0; i < r.size(); ++i) { if (r[i].second < lo) { lo = r[i].second; a = i; } if (r[i].second > hi) { hi = r[i].second; b = i; } }
    x.check();
    X::margin(hi - lo, 2 * tol_abs(n));
    if (hi - lo > 2 * tol_abs(n)) x.fail("%s gives %.17g but %s gives %.17g (n=%d)", r[a].first.c_str(), lo, r[b].first.c_str(), hi, n);
}
static void agree_one(X& x, const V& v, int nks, int nmns, int nfft) {
    int n = (int)v.size();
    if (x.describing) x.desc(fmt("one-sided list %s through all algorithms, and reflected", vec(v).c_str()));
    V r = fam::reflect(v), one(n, 1.0), zero(n, 0.0);
    std::vector<std::pair<std::string, double>> o;
    o.push_back({"ecdf1_new_b(v)", value(x, NEW_b, v)});
    o.push_back({"ecdf1_new_B(reflected v)", value(x, NEW_B, r)});
    if (n <= nmns) { o.push_back({"ecdf1_mns2016_b(v)", value(x, MNS_b, v)}); o.push_back({"ecdf1_mns2016_B(reflected v)", value(x, MNS_B, r)}); }
    if (n <= nfft) { o.push_back({"ecdf2(v, 1, fft)", value(x, MN, v, one)}); o.push_back({"ecdf2(0, reflected v, fft)", value(x, MN, zero, r)}); }
    if (n <= nks) { o.push_back({"ecdf2(v, 1, direct)", value(x, KS, v, one)}); o.push_back({"ecdf2(0, reflected v, direct)", value(x, KS, zero, r)}); }
    agree(x, o, n);
    x.outcome(hv(v), o[0].second);
}
static void agree_two(X& x, const V& b, const V& B, int nks) {
    int n = (int)b.size();
    if (x.describing) x.desc(fmt("two-sided b=%s B=%s through both algorithms, and reflected", vec(b).c_str(), vec(B).c_str()));
    V rb = fam::reflect(B), rB = fam::reflect(b);
    std::vector<std::pair<std::string, double>> o;
    o.push_back({"ecdf2(b, B, fft)", value(x, MN, b, B)});
    o.push_back({"ecdf2(reflected, fft)", value(x, MN, rb, rB)});
    if (n <= nks) { o.push_back({"ecdf2(b, B, direct)", value(x, KS, b, B)}); o.push_back({"ecdf2(reflected, direct)", value(x, KS, rb, rB)}); }
    agree(x, o, n);
    x.outcome(mix(hv(b), hv(B)), o[0].second);
}
static void body_agree(X& x) {
    struct NM { int n, m; };
    std::vector<NM> ones = {{1, 14}, {2, 12}, {3, 10}, {4, 9}, {5, 8}, {6, 7}, {8, 6}, {10, 5}, {17, 4}};
    if (thorough) ones = {{1, 14}, {2, 14}, {3, 14}, {4, 12}, {5, 11}, {6, 10}, {8, 8}, {10, 7}, {17, 5}, {33, 4}};
    for (auto& s : ones) { V g = fam::grid(s.m); monotone(s.n, s.m, [&](const std::vector<int>& i) { if (x.next()) agree_one(x, fam::at(g, i), 1e9, 1e9, 1e9); }); }
    std::vector<NM> twos = {{1, 10}, {2, 8}, {3, 7}, {4, 6}, {5, 5}};
    if (thorough) twos = {{1, 14}, {2, 12}, {3, 9}, {4, 8}, {5, 7}, {6, 6}, {8, 4}};
    for (auto& s : twos) { V g = fam::grid(s.m); monotone(s.n, s.m, [&](const std::vector<int>& i) { monotone(s.n, s.m, [&](const std::vector<int>& j) {
        if (x.next()) agree_two(x, fam::at(g, i), fam::at(g, j), 1e9); }); }); }
    int top = thorough ? 600 : 220;
    for (int n = 1; n <= top; ++n) {
        for (auto& v : fam::one_sided(n, 1)) if (x.next()) agree_one(x, v, 150, 400, 1e9);
        if (n % 2 == 0) for (auto& t : fam::two_sided(n, 1)) if (x.next()) agree_two(x, t.b, t.B, 150);
    }
    std::vector<int> big = {300, 511, 512, 513, 800, 1022, 1023, 1024, 1025, 1026, 1500, 2000, 2047, 2048, 2049, 2500, 3000, 3071, 3072, 3073};
    if (thorough) for (int n : {700, 900, 1250, 1750, 2250, 2300, 2700, 2800, 3500, 4000, 4094, 4095, 4096, 4097, 4500, 5000, 5119, 5120, 5121, 6000, 6143, 6144, 6145, 7000, 8191, 8192, 8193}) big.push_back(n);
    for (int n : big) {
        bool small = n <= 1100;
        auto L = fam::one_sided(n, 1);
        for (size_t i = 0; i < L.size(); ++i) if (small || thorough || (i + n) % 4 == 0) if (x.next()) agree_one(x, L[i], thorough ? 1100 : 520, thorough ? 2000 : 820, 1e9);
        auto T = fam::two_sided(n, 1);
        for (size_t i = 0; i < T.size(); ++i) if (small || thorough || (i + n) % 3 == 0) if (x.next()) agree_two(x, T[i].b, T[i].B, thorough ? 1100 : 520);
    }
    // very large samples: the two fast algorithms
    for (int n : thorough ? std::vector<int>{10000, 12000} : std::vector<int>{4095, 4096, 4097, 5000, 6145}) {
        auto L = fam::one_sided(n, 0);
        for (size_t i = 0; i < L.size(); ++i) if (thorough || i == (unsigned)n % L.size()) if (x.next()) agree_one(x, L[i], 0, 0, 1e9);
    }
}

// ---------------------------------------------------------------- C06
static void edge(X& x, Fn f, const V& u, const V& w, double p, const V& lu, const V& lw, double q) {
    x.check();
    double t = 2 * tol_abs((int)u.size());
    X::margin(p - q, t);
    if (q < p - t) x.fail("%s = %.17g, but loosened to %s = %.17g", show(f, u, w).c_str(), p, show(f, lu, lw).c_str(), q);
}
static void body_mono(X& x) {
    struct NM { int n, m; };
    std::vector<NM> ones = {{1, 14}, {2, 14}, {3, 12}, {4, 11}, {5, 9}, {6, 8}, {8, 6}, {12, 4}, {17, 4}, {20, 3}};
    if (thorough) ones = {{1, 14}, {2, 14}, {3, 14}, {4, 14}, {5, 12}, {6, 11}, {8, 8}, {12, 6}, {17, 5}, {33, 3}, {40, 3}};
    if (deep) ones = {{1, 14}, {2, 14}, {3, 14}, {4, 14}, {5, 14}, {6, 13}, {8, 10}, {10, 8}, {12, 7}, {17, 6}, {25, 5}, {33, 4}, {40, 4}, {65, 3}, {130, 3}};
    for (auto& s : ones) {
        V g = fam::grid(s.m);
        monotone(s.n, s.m, [&](const std::vector<int>& iv) {
            if (!x.next()) return;
            V v = fam::at(g, iv);
            if (x.describing) x.desc(fmt("all single-step loosenings of %s", vec(v).c_str()));
            for (Fn f : {NEW_b, NEW_B, MNS_b, MNS_B}) {
                double p = value(x, f, v);
                if (f == NEW_b) x.outcome(mix(hv(v), f), p);
                for (int i = 0; i < s.n; ++i) {
                    int d = upper(f) ? 1 : -1, k = iv[i] + d;
                    if (k < 0 || k >= s.m) continue;
                    if (d < 0 ? (i > 0 && iv[i - 1] > k) : (i + 1 < s.n && iv[i + 1] < k)) continue;
                    V l = v; l[i] = g[k];
                    edge(x, f, v, V(), p, l, V(), value(x, f, l));
                }
            }
        });
    }
    // bounds of very different magnitude: chains of single-value loosenings in every position of short
    // lists, and of whole runs in long ones
    {
        V tiny = {0, 5e-324, 1e-310, 1e-300, 1e-100, 1e-30, 1e-20, 1e-17, 1e-16, 3e-16, 1e-15, 1e-14, 1e-13, 1e-12, 1e-11, 1e-10, 1e-9, 1e-8, 3e-8, 1e-7, 3e-7, 5e-7, 9e-7, 2e-6, 5e-6, 1e-5, 3e-5, 1e-4, 3e-4, 1e-3, 3e-3, 9e-3, 2e-2, 5e-2, 0.1, 0.25};
        V all = tiny; for (size_t i = 0; i < tiny.size(); ++i) all.push_back(1 - tiny[tiny.size() - 1 - i]);
        for (double c : {0.5, 1.0 / 3, 0.75}) for (double e : {1e-15, 1e-12, 1e-9, 1e-6, 1e-3}) { all.push_back(c - e); all.push_back(c); all.push_back(c + e); }
        std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end());
        for (int n : {1, 2, 3, 5, 10, 50, 130, 200}) for (int lo : {0, 1}) {
            std::set<int> P = {0, 1, n / 2, n - 1};
            for (int p : P) if (p >= 0 && p < n) for (Fn f : {KS, MN, NEW_b, NEW_B, MNS_b, MNS_B}) for (int side = 0; side < (two_sided(f) ? 2 : 1); ++side) {
                if (n > 100 && (f == KS || f == MNS_b || f == MNS_B) && !thorough) continue;
                if (!x.next()) continue;
                bool up = upper(f) || side == 1;
                if (x.describing) x.desc(fmt("%s n=%d: positions %s %d moved over %zu values from 0 to 1 (side %d)", NAME[f], n, lo ? "up to" : "from", p, all.size(), side));
                double prev = 0, prevt = 0; V pu, pw;
                // loosening order: lower bounds fall, upper bounds rise
                bool first = true;
                for (size_t k = 0; k < all.size(); ++k) {
                    double t = all[up ? k : all.size() - 1 - k];
                    V v(n);
                    for (int i = 0; i < n; ++i) v[i] = lo ? (i <= p ? t : up ? 1.0 : std::max(t, 0.6)) : (i >= p ? t : up ? std::min(t, 0.4) : 0.0);
                    V u = two_sided(f) && side == 1 ? V(n, 0.0) : v, w = two_sided(f) ? (side == 1 ? v : V(n, 1.0)) : V();
                    double q = value(x, f, u, w);
                    if (!first) edge(x, f, pu, pw, prev, u, w, q);
                    first = false; prev = q; prevt = t; pu = u; pw = w;
                    x.outcome(mix(mix(n * 64 + p, f * 4 + side * 2 + lo), k), q);
                }
                (void)prevt;
            }
        }
    }
    std::vector<NM> twos = {{1, 12}, {2, 9}, {3, 7}, {4, 6}, {5, 5}};
    if (thorough) twos = {{1, 14}, {2, 12}, {3, 9}, {4, 8}, {5, 6}, {6, 5}};
    if (deep) twos = {{1, 14}, {2, 14}, {3, 12}, {4, 10}, {5, 8}, {6, 6}, {8, 5}, {12, 4}, {17, 3}, {33, 3}};
    for (auto& s : twos) {
        V g = fam::grid(s.m);
        monotone(s.n, s.m, [&](const std::vector<int>& ib) { monotone(s.n, s.m, [&](const std::vector<int>& iB) {
            if (!x.next()) return;
            V b = fam::at(g, ib), B = fam::at(g, iB);
            if (x.describing) x.desc(fmt("all single-step loosenings of b=%s B=%s", vec(b).c_str(), vec(B).c_str()));
            for (Fn f : {KS, MN}) {
                double p = value(x, f, b, B);
                if (f == KS) x.outcome(mix(mix(hv(b), hv(B)), f), p);
                for (int i = 0; i < s.n; ++i) {
                    if (ib[i] > 0 && (i == 0 || ib[i - 1] < ib[i])) { V l = b; l[i] = g[ib[i] - 1]; edge(x, f, b, B, p, l, B, value(x, f, l, B)); }
                    if (iB[i] + 1 < s.m && (i + 1 == s.n || iB[i + 1] > iB[i])) { V l = B; l[i] = g[iB[i] + 1]; edge(x, f, b, B, p, b, l, value(x, f, b, l)); }
                }
            }
        }); });
    }
    // long chains: Kolmogorov-Smirnov statistics from tight to loose, every algorithm
    std::vector<int> ns = {10, 50, 126, 127, 128, 129, 200, 300, 513, 1023, 1024, 1025, 2048, 2049};
    if (thorough) for (int n : {400, 700, 1500, 3000, 4096, 4097}) ns.push_back(n);
    for (int n : ns) for (Fn f : {KS, MN, NEW_b, NEW_B, MNS_b, MNS_B}) {
        if (f == KS && n > (thorough ? 1100 : 310)) continue;
        if ((f == MNS_b || f == MNS_B) && n > (thorough ? 1500 : 520)) continue;
        int steps = n > 1000 ? 6 : n > 300 ? 12 : 40;
        double q = std::sqrt((double)n), d0 = 0.2 / q, d1 = 2.2 / q;
        for (int s = 0; s + 1 < steps; ++s) {
            if (!x.next()) continue;
            double a = d0 + (d1 - d0) * s / (steps - 1), c = d0 + (d1 - d0) * (s + 1) / (steps - 1);
            V u = upper(f) ? fam::ks_upper(n, a) : fam::ks_lower(n, a), w = two_sided(f) ? fam::ks_upper(n, a) : V();
            V lu = upper(f) ? fam::ks_upper(n, c) : fam::ks_lower(n, c), lw = two_sided(f) ? fam::ks_upper(n, c) : V();
            if (x.describing) x.desc(fmt("%s, Kolmogorov-Smirnov band, n=%d, half width %.6g -> %.6g", NAME[f], n, a, c));
            double p = value(x, f, u, w);
            edge(x, f, u, w, p, lu, lw, value(x, f, lu, lw));
            x.outcome(mix(n * 8 + f, s), p);
        }
    }
    // crowds: many bounds tied, then spread further and further apart (chains of loosenings)
    {
        V ds = {0, 1e-15, 1e-13, 1e-12, 1e-11, 1e-10, 1e-9, 1e-8, 3e-8, 1e-7, 2e-7, 4e-7, 7e-7, 1e-6, 2e-6, 5e-6, 1e-5, 3e-5, 1e-4};
        for (int n : {30, 200, 400, 700, 1500, 2200}) for (int m : {2, n / 4, n / 2, n - 1}) for (double c : {0.3, 0.5, 0.8}) for (Fn f : {KS, MN, NEW_b, NEW_B, MNS_b, MNS_B}) for (int side = 0; side < (two_sided(f) ? 2 : 1); ++side) {
            if ((f == KS && n > 400) || ((f == MNS_b || f == MNS_B) && n > 700) || ((f == KS || n > 1000) && c != 0.5 && !thorough)) continue;
            if (!x.next()) continue;
            bool up = upper(f) || side == 1;
            if (x.describing) x.desc(fmt("%s n=%d: %d bounds at %g spread apart step by step (side %d)", NAME[f], n, m, c, side));
            double prev = 0; V pu, pw; bool first = true;
            for (double d : ds) {
                if (d * m > (up ? 1 - c : c)) break;
                V v(n, up ? 1.0 : 0.0);
                for (int i = 0; i < m; ++i) if (up) v[i] = c + d * i; else v[n - 1 - i] = c - d * i;
                V u = two_sided(f) && side == 1 ? V(n, 0.0) : v, w = two_sided(f) ? (side == 1 ? v : V(n, 1.0)) : V();
                double q = value(x, f, u, w);
                if (!first) edge(x, f, pu, pw, prev, u, w, q);
                first = false; prev = q; pu = u; pw = w;
                x.outcome(mix(mix(n * 4096 + m, f * 2 + side), hv({c, d})), q);
            }
        }
    }
    // every single position of longer lists
    for (int n : {40, 130, 260}) for (int p = 0; p < n; ++p) for (Fn f : {KS, MN, NEW_b, NEW_B, MNS_b, MNS_B}) for (int side = 0; side < (two_sided(f) ? 2 : 1); ++side) {
        if (!x.next()) continue;
        double q = std::sqrt((double)n);
        V u = upper(f) ? fam::ks_upper(n, 0.6 / q) : fam::ks_lower(n, 0.6 / q), w = two_sided(f) ? fam::ks_upper(n, 0.6 / q) : V();
        V lu = u, lw = w;
        if (upper(f)) lu[p] = p + 1 < n ? lu[p + 1] : 1.0;
        else if (side == 0) lu[p] = p ? lu[p - 1] : 0.0;
        else lw[p] = p + 1 < n ? lw[p + 1] : 1.0;
        if (x.describing) x.desc(fmt("%s, band n=%d, bound %d loosened to its neighbour (side %d)", NAME[f], n, p, side));
        double v = value(x, f, u, w);
        edge(x, f, u, w, v, lu, lw, value(x, f, lu, lw));
        x.outcome(mix(mix(n, p), f * 2 + side), v);
    }
}

// ---------------------------------------------------------------- C07
static void total_(X& x, Fn f, const V& u, const V& w) {
    if (x.describing) x.desc(show(f, u, w));
    int n = (int)u.size();
    double p = value(x, f, u, w), t = tol_abs(n);
    x.check();
    X::margin(std::max(-p, p - 1), t);
    if (p < -t || p > 1 + t) x.fail("%s = %.17g is outside [0,1]", show(f, u, w).c_str(), p);
    bool zero = false, one = true;
    for (int i = 0; i < n; ++i) {
        double lo = upper(f) ? 0.0 : u[i], hi = two_sided(f) ? w[i] : upper(f) ? u[i] : 1.0;
        if (lo > hi || lo >= 1.0 || hi <= 0.0) zero = true;
        if (lo > 0.0 || hi < 1.0) one = false;
    }
    if (zero && std::fabs(p) > t) x.fail("%s = %.17g, must be 0", show(f, u, w).c_str(), p);
    if (one && std::fabs(p - 1) > t) x.fail("%s = %.17g, must be 1", show(f, u, w).c_str(), p);
    x.outcome(mix(mix(hv(u), hv(w)), f), p);
}
static void body_total(X& x) {
    const double E[] = {0.0, 5e-324, 1e-300, 1e-17, 0.5, std::nextafter(0.5, 1.0), 1 - std::ldexp(1.0, -53), 1.0};
    const V e(E, E + 8);
    const V ez = {-0.0, 0.0, 2.3e-308, 1e-17, 0.25, 1.0 - 1e-9, 1 - std::ldexp(1.0, -53), 1.0};
    for (Fn f : {KS, MN, NEW_b, NEW_B, MNS_b, MNS_B}) if (x.next()) total_(x, f, V(), V());
    for (const V& g : {e, ez}) {
        int m = (int)g.size();
        for (int n = 1; n <= (thorough ? 8 : 6); ++n) monotone(n, m, [&](const std::vector<int>& i) {
            for (Fn f : {NEW_b, NEW_B, MNS_b, MNS_B}) if (x.next()) total_(x, f, fam::at(g, i), V());
        });
        for (int n = 1; n <= (thorough ? 4 : 3); ++n) monotone(n, m, [&](const std::vector<int>& i) { monotone(n, m, [&](const std::vector<int>& j) {
            for (Fn f : {KS, MN}) if (x.next()) total_(x, f, fam::at(g, i), fam::at(g, j));
        }); });
    }
    std::vector<int> ns = {9, 16, 17, 18, 33, 50, 100, 126, 127, 128, 129, 170, 171, 172, 200, 300, 513};
    if (thorough) for (int n : {24, 63, 64, 65, 255, 256, 257, 400, 600, 745, 746, 800, 1023, 1024, 1025}) ns.push_back(n);
    for (int n : ns) {
        int k = (int)std::sqrt((double)n) + 1;
        auto sk = fam::skeletons(n, e, {1, k - 1, k, k + 1, n / 2, n - 1}, n <= 50 ? 3 : 2);
        for (auto& v : sk) for (Fn f : {NEW_b, NEW_B, MNS_b, MNS_B}) if (x.next()) total_(x, f, v, V());
        auto s2 = fam::skeletons(n, e, {1, n / 2, n - 1}, 2);
        for (size_t i = 0; i < s2.size(); ++i) for (size_t j = 0; j < s2.size(); ++j) if (thorough || n <= 50 || (i * 5 + j * 3 + n) % 7 == 0)
            for (Fn f : {KS, MN}) if (x.next()) total_(x, f, s2[i], s2[j]);
    }
    // closely spaced bounds and every sample size with all-0 / all-1 / impossible lists
    for (int n = 1; n <= (thorough ? 1200 : 500); ++n) {
        if (n > 200 && n % 5 && !thorough) continue;
        V close(n), zeros(n, 0.0), ones(n, 1.0), last(n, 0.0), near(n);
        double c = 0.5; for (int i = 0; i < n; ++i) { close[i] = c; c = std::nextafter(c, 1.0); near[i] = 1e-310 * (i + 1); }
        last[n - 1] = 1.0;
        for (const V* v : {&close, &zeros, &ones, &last, &near}) for (Fn f : {NEW_b, NEW_B, MNS_b, MNS_B}) if (x.next()) total_(x, f, *v, V());
        if (n <= 300) for (Fn f : {KS, MN}) {
            if (x.next()) total_(x, f, zeros, ones);
            if (x.next()) total_(x, f, close, ones);
            if (x.next()) total_(x, f, zeros, close);
            if (x.next()) total_(x, f, close, close);
            if (x.next()) total_(x, f, ones, ones);
            if (x.next()) total_(x, f, zeros, zeros);
            if (x.next()) total_(x, f, last, ones);
            if (x.next()) total_(x, f, near, ones);
        }
    }
    // full-size cases beyond the range of exp/lgamma in double precision
    for (int n : thorough ? std::vector<int>{1100, 2049, 3000, 4097} : std::vector<int>{1100, 2049}) for (Fn f : {MN, NEW_b, NEW_B}) for (int k = 0; k < 4; ++k) {
        if (!x.next()) continue;
        V u = k == 0 ? V(n, 0.0) : k == 1 ? V(n, 1.0) : k == 2 ? fam::runs2(n, n / 2, 0, 1e-300) : fam::runs2(n, n / 2, 0.5, 1.0);
        total_(x, f, u, two_sided(f) ? (k == 3 ? V(n, 0.25) : V(n, 1.0)) : V());
    }
    // very large samples with few different bounds
    std::set<int> large;
    for (int n = 1024; n <= (thorough ? 140000 : 70000); n += 1024) { large.insert(n); if (n % 4096 == 0 || thorough) { large.insert(n - 1); large.insert(n + 1); } }
    for (int n : {46340, 46341, 50000, 10000, 20000, 30000, 40000, 60000, 65535, 65537}) large.insert(n);
    for (int n : large) for (int k = 0; k < (n % 4096 ? 2 : 6); ++k) {
        if (!x.next()) continue;
        V b(n, 0.0), B(n, 1.0);
        if (k == 1) b = fam::runs2(n, n / 2, 0.0, 0.25);
        if (k == 2) B = fam::runs2(n, n / 2, 0.75, 1.0);
        if (k == 3) b[n - 1] = 1.0;
        if (k == 4) { b = V(n, 0.3); B = V(n, 0.7); }
        if (k == 5) { b = fam::runs2(n, 1, 0.0, 1e-7); B = fam::runs2(n, n - 1, 1 - 1e-7, 1.0); }
        total_(x, MN, b, B);
    }
}

// ---------------------------------------------------------------- C08
static bool isnan_(double d) { uint64_t u; memcpy(&u, &d, 8); return (u & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; }
static bool valid(const V& v) {
    for (size_t i = 0; i < v.size(); ++i) {
        if (isnan_(v[i])) return false;
        if (!finite_(v[i])) return false;
        if (v[i] < 0 || v[i] > 1) return false;
        if (i && v[i] < v[i - 1]) return false;
    }
    return true;
}
static void accept(X& x, Fn f, const V& u, const V& w) {
    if (x.describing) x.desc(show(f, u, w));
    bool ok = valid(u) && (!two_sided(f) || (valid(w) && u.size() == w.size()));
    Out o = call(f, u, w);
    x.check();
    if (ok && o.raised) x.fail("%s: valid bounds rejected: %s", show(f, u, w).c_str(), o.what.c_str());
    if (!ok && !o.raised) x.fail("%s: invalid bounds accepted, returned %.17g", show(f, u, w).c_str(), o.v);
    x.key(mix(mix(hv(u), hv(w)), f * 2 + ok));
    x.extra(ok ? 0 : 1);
}
static void body_valid(X& x) {
    const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
    const V a = {-inf, -1, -1e-300, -0.0, 0, 0.3, std::nextafter(0.3, 0.0), 0.7, 1, std::nextafter(1.0, 2.0), 2, inf, nan, -nan};
    int m = (int)a.size();
    const Fn ones[] = {NEW_b, NEW_B, MNS_b, MNS_B}, twos[] = {KS, MN};
    for (int n = 0; n <= (thorough ? 5 : 4); ++n) words(n, m, [&](const std::vector<int>& i) { for (Fn f : ones) if (x.next()) accept(x, f, fam::at(a, i), V()); });
    for (int n = 0; n <= 2; ++n) words(n, m, [&](const std::vector<int>& i) { for (int k = 0; k <= 2; ++k) words(k, m, [&](const std::vector<int>& j) {
        for (Fn f : twos) if (x.next()) accept(x, f, fam::at(a, i), fam::at(a, j)); }); });
    for (int n = 3; n <= (thorough ? 4 : 3); ++n) words(n, m, [&](const std::vector<int>& i) { for (Fn f : twos) {
        V good(n, 0.5); if (x.next()) accept(x, f, fam::at(a, i), V(n, 1.0)); if (x.next()) accept(x, f, V(n, 0.0), fam::at(a, i)); if (x.next()) accept(x, f, good, fam::at(a, i)); } });
    // all length combinations
    for (int n = 0; n <= 12; ++n) for (int k = 0; k <= 12; ++k) for (Fn f : twos) {
        if (x.next()) accept(x, f, V(n, 0.25), V(k, 0.75));
        if (x.next()) accept(x, f, V(n, 0.0), V(k, 1.0));
    }
    for (int n : {0, 1, 127, 128, 129, 200}) for (int k : {0, 1, 127, 128, 129, 200}) for (Fn f : twos) {
        V b(n), B(k); for (int i = 0; i < n; ++i) b[i] = i / 400.0; for (int i = 0; i < k; ++i) B[i] = 0.5 + i / 400.0;
        if (x.next()) accept(x, f, b, B);
    }
    // one offending value at every position of longer lists
    for (int n : {15, 16, 17, 64, 127, 128, 150, 257}) for (int p = 0; p < n; ++p) for (int k = 0; k < 10; ++k) for (Fn f : {KS, MN, NEW_b, NEW_B, MNS_b, MNS_B}) {
        if (n == 257 && (f == KS || f == MNS_b || f == MNS_B) && !thorough) continue;
        for (int side = 0; side < (two_sided(f) ? 2 : 1); ++side) {
            if (!x.next()) continue;
            V v(n); for (int i = 0; i < n; ++i) v[i] = (i + 1.0) / (n + 1);
            switch (k) {
                case 0: v[p] = nan; break;
                case 1: v[p] = p ? std::nextafter(v[p - 1], 0.0) : -1e-300; break;      // barely decreasing
                case 2: v[p] = p + 1 < n ? std::nextafter(v[p + 1], 2.0) : std::nextafter(1.0, 2.0); break;  // barely above its successor
                case 3: v[p] = inf; break;
                case 4: v[p] = -inf; break;
                case 5: v[p] = -0.5; break;
                case 6: v[p] = 1.5; break;
                case 7: for (int i = 0; i <= p; ++i) v[i] = -1e-9 * (p + 1 - i); break;    // negative prefix, still monotone
                case 8: for (int i = p; i < n; ++i) v[i] = 1 + 1e-9 * (i - p + 1); break;  // suffix above 1, still monotone
                case 9: if (p) v[p] = v[p - 1]; break;                                      // tie: valid
            }
            accept(x, f, side == 0 ? v : V(n, 0.0), two_sided(f) ? (side == 0 ? V(n, 1.0) : v) : V());
        }
    }
    // lists whose lengths agree in their last digits or bytes; long valid lists of few different values
    for (int n : {0, 1, 3, 64, 130, 1000}) for (int d : {1, 2, 10, 16, 64, 100, 128, 256, 512, 1000, 1024, 4096, 8192, 32768, 65536, 131072}) for (int swap = 0; swap < 2; ++swap) for (Fn f : twos) for (int up : {0, 1}) {
        if (!x.next()) continue;
        V b(swap ? n + d : n, up ? 0.0 : 0.25), B(swap ? n : n + d, up ? 1.0 : 0.75);
        accept(x, f, b, B);
    }
    for (int n : {300, 513, 1024, 2049, 4097}) for (Fn f : {KS, MN, NEW_b, NEW_B, MNS_b, MNS_B}) for (int k = 0; k < 4; ++k) {
        if (f == KS && n > 600 && k == 3) continue;
        if (!x.next()) continue;
        V v = k == 0 ? V(n, 0.0) : k == 1 ? V(n, 1.0) : k == 2 ? fam::runs2(n, n / 3, 0, 1) : fam::runs2(n, n / 2, 0.25, 0.75);
        accept(x, f, v, two_sided(f) ? V(n, 1.0) : V());
    }
    // huge lists with one late error
    for (int n : {1000, 4096, 20000, 100000}) for (Fn f : {KS, MN, NEW_b, NEW_B, MNS_b, MNS_B}) for (int p : {0, n / 2, n - 2, n - 1}) for (double bad : {nan, -1.0, 2.0}) {
        if (!x.next()) continue;
        V v(n); for (int i = 0; i < n; ++i) v[i] = (i + 1.0) / (n + 1);
        v[p] = bad;
        accept(x, f, upper(f) || !two_sided(f) ? v : V(n, 0.0), two_sided(f) ? v : V());
    }
}

int main(int argc, char** argv) {
    return xp_main(argc, argv, [](X& x) {
        if (mode == "agree") body_agree(x);
        else if (mode == "mono") body_mono(x);
        else if (mode == "total") body_total(x);
        else body_valid(x);
    });
}
