// The space of library calls used by the memory checks.
#pragma once
#include "xp.hpp"
#include "fam.hpp"
#include "lib.hpp"
#include <limits>
using namespace xp;
using namespace lib;

template <class Do> void mem_space(X& x, bool big, Do once) {
    auto go = [&](Fn f, const V& u, const V& w) {
        if (!x.next()) return;
        if (x.describing) x.desc(two_sided(f) ? fmt("%s(b=%s, B=%s)", NAME[f], vec(u).c_str(), vec(w).c_str()) : fmt("%s(%s)", NAME[f], vec(u).c_str()));
        uint64_t h = f; for (double d : u) { uint64_t q; memcpy(&q, &d, 8); h = mix(h, q); } h = mix(h, 5); for (double d : w) { uint64_t q; memcpy(&q, &d, 8); h = mix(h, q); }
        x.key(h); x.check();
        once(f, u, w);
    };
    const Fn ones[] = {NEW_b, NEW_B, MNS_b, MNS_B}, twos[] = {KS, MN};
    const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
    // huge samples: products of sizes leave the range of int
    for (int n : {32768, 46340, 46341, 65535, 65536, 70000, 100000}) {
        if (n == 100000 && big) continue;
        go(MN, V(n, 0.0), V(n, 1.0)); go(MN, fam::runs2(n, n / 2, 0.0, 0.4), fam::runs2(n, n / 3, 0.6, 1.0)); go(KS, V(n, 0.75), V(n, 0.25));
        V v = fam::ks_lower(n, 0.01); v[n - 1] = nan;
        for (Fn f : ones) { go(f, v, {}); V z(n, 0.5); z[0] = 0.75; go(f, z, {}); }
        for (Fn f : twos) { go(f, v, V(n, 1.0)); go(f, V(n, 0.0), V(n - 1, 1.0)); }
    }
    // all small lists over valid and invalid values, all length combinations
    const V a = {-inf, -1, 0, 5e-324, 0.5, 0.75, 1, 1.5, nan};
    for (int n = 0; n <= (thorough ? 4 : 3); ++n) words(n, (int)a.size(), [&](const std::vector<int>& i) { for (Fn f : ones) go(f, fam::at(a, i), {}); });
    for (int n = 0; n <= 2; ++n) words(n, (int)a.size(), [&](const std::vector<int>& i) { for (int k = 0; k <= 2; ++k) words(k, (int)a.size(), [&](const std::vector<int>& j) { for (Fn f : twos) go(f, fam::at(a, i), fam::at(a, j)); }); });
    const V g = {0, 0.25, 0.5, 1};
    for (int n = 3; n <= (thorough ? 6 : 4); ++n) monotone(n, 4, [&](const std::vector<int>& i) { monotone(n, 4, [&](const std::vector<int>& j) { for (Fn f : twos) go(f, fam::at(g, i), fam::at(g, j)); }); });
    for (int n = 5; n <= 10; ++n) monotone(n, 4, [&](const std::vector<int>& i) { for (Fn f : ones) go(f, fam::at(g, i), {}); });
    // every size
    int top = thorough ? 700 : big ? 300 : 180;
    for (int n = 1; n <= top; ++n) {
        double q = std::sqrt((double)n);
        for (Fn f : ones) { go(f, fam::ks_lower(n, 0.8 / q), {}); go(f, fam::ks_upper(n, 0.8 / q), {}); go(f, V(n, 0.5), {}); go(f, fam::runs2(n, n / 2, 0, 1), {}); }
        for (Fn f : twos) { go(f, fam::ks_lower(n, 0.8 / q), fam::ks_upper(n, 0.8 / q)); go(f, V(n, 0.0), V(n, 1.0)); go(f, fam::ks_lower(n, 0.6 / q), V(n, 1.0)); go(f, V(n, 0.0), fam::ks_upper(n, 0.6 / q)); go(f, V(n, 0.75), V(n, 0.25)); go(f, fam::ks_lower(n, 0.9), fam::runs2(n, n - 1, 0.9, 0.95)); }
    }
    // one bad value in long lists (error paths), mismatched lengths
    for (int n : {16, 127, 128, 129, 600}) for (int p : {0, 1, n / 2, n - 2, n - 1}) for (double bad : {nan, -1.0, 2.0, 0.0}) {
        V v(n); for (int i = 0; i < n; ++i) v[i] = (i + 1.0) / (n + 1);
        v[p] = bad;
        for (Fn f : ones) go(f, v, {});
        for (Fn f : twos) { go(f, v, V(n, 1.0)); go(f, V(n, 0.0), v); go(f, V(n, 0.0), V(p, 1.0)); go(f, V(p, 0.0), V(n, 1.0)); }
    }
    // thresholds
    std::vector<int> ns = {511, 512, 513, 1022, 1023, 1024, 1025, 1026};
    if (big || thorough) for (int n : {1535, 1536, 2047, 2048, 2049}) ns.push_back(n);
    if (thorough) for (int n : {3071, 3072, 3073, 4095, 4096, 4097}) ns.push_back(n);
    for (int n : ns) {
        double q = std::sqrt((double)n);
        for (Fn f : {NEW_b, NEW_B}) { go(f, fam::ks_lower(n, 0.8 / q), {}); go(f, V(n, 0.5), {}); go(f, V(n, 0.0), {}); }
        for (Fn f : {MNS_b, MNS_B}) if (n <= (big ? 600 : 520)) go(f, fam::ks_lower(n, 0.8 / q), {});
        go(MN, fam::ks_lower(n, 0.8 / q), fam::ks_upper(n, 0.8 / q)); go(MN, V(n, 0.0), V(n, 1.0)); go(MN, fam::runs2(n, n - 1, 0, 0.5), V(n, 1.0));
        go(KS, fam::ks_lower(n, 0.5 / q), fam::ks_upper(n, 0.5 / q)); if (n < 600) go(KS, fam::runs2(n, n - 1, 0, 0.5), V(n, 1.0));
    }
}
