// Reference model: the empirical process as an explicit-state Markov chain.
//
// State = (time point, N) where N = number of sample points <= that time.  The chain is the
// homogeneous Poisson process of intensity n on [0,1]; conditioning on N(1)=n gives the
// empirical CDF of n uniforms.  A state violating a boundary is dropped (absorbed).
//   X_(i) >= b_i  <=>  N(b_i) <= i-1      (up to a null set)
//   X_(i) <= B_i  <=>  N(B_i) >= i
// Everything is a sum of non-negative long doubles: no cancellation, so the value carries a
// relative error of about n * 1e-19 * (number of time points), plus the stated truncation.
#pragma once
#include <vector>
#include <cmath>
#include <algorithm>
#include <cstdint>

struct RefStats { uint64_t states = 0, transitions = 0; };

// trunc: drop states/kernels with weight below this (0 = keep everything that is representable).
inline double ref_noncrossing(const std::vector<double>& b, const std::vector<double>& B, RefStats* st = nullptr,
                              long double trunc = 0.0L)
{
    using LD = long double;
    const int n = (int)std::max(b.size(), B.size());
    if (n == 0) return 1.0;
    std::vector<double> times;
    times.insert(times.end(), b.begin(), b.end());
    times.insert(times.end(), B.begin(), B.end());
    times.push_back(1.0);
    std::sort(times.begin(), times.end());
    times.erase(std::unique(times.begin(), times.end()), times.end());

    std::vector<LD> f(n + 1, 0.0L), g(n + 1, 0.0L), pmf(n + 1, 0.0L);
    int lo = 0, hi = 0;        // support of f is within [lo,hi]
    f[0] = 1.0L;
    LD prev = 0.0L;
    size_t ib = 0, iB = 0;     // number of b_i / B_i with value <= t
    for (double t : times) {
        int cap = n;           // N(t) <= cap
        if (ib < b.size() && b[ib] <= t) cap = (int)ib;   // smallest i (1-based) with b_i = t gives N <= i-1
        while (ib < b.size() && b[ib] <= t) ++ib;
        while (iB < B.size() && B[iB] <= t) ++iB;
        int floor_ = (int)iB;  // N(t) >= number of B_i <= t
        LD lambda = (LD)n * ((LD)t - prev);
        prev = t;
        if (lambda > 0) {
            // Poisson kernel, outwards from the mode so that nothing underflows early.
            int kmax = std::max(0, cap - lo);
            int mode = (int)std::min<LD>(kmax, std::floor(lambda));
            int kl = 0, kh = kmax;
            pmf[mode] = expl(-lambda + mode * logl(lambda) - lgammal(mode + 1.0L));
            for (int k = mode + 1; k <= kmax; ++k) { pmf[k] = pmf[k-1] * lambda / k; if (pmf[k] <= trunc && k > lambda) { kh = k; break; } }
            for (int k = mode - 1; k >= 0; --k) { pmf[k] = pmf[k+1] * (k + 1) / lambda; if (pmf[k] <= trunc) { kl = k; break; } }
            int nlo = std::max(lo + kl, floor_), nhi = std::min(cap, hi + kh);
            for (int k = nlo; k <= nhi; ++k) {
                LD s = 0;
                int j0 = std::max(lo, k - kh), j1 = std::min(hi, k - kl);
                for (int j = j0; j <= j1; ++j) s += f[j] * pmf[k - j];
                g[k] = s;
                if (st) { st->transitions += j1 >= j0 ? j1 - j0 + 1 : 0; ++st->states; }
            }
            std::swap(f, g);
            lo = nlo; hi = nhi;
        } else {
            lo = std::max(lo, floor_); hi = std::min(hi, cap);
            if (st) { st->states += hi >= lo ? hi - lo + 1 : 0; st->transitions += hi >= lo ? hi - lo + 1 : 0; }
        }
        while (lo <= hi && f[lo] <= trunc) ++lo;
        while (hi >= lo && f[hi] <= trunc) --hi;
        if (lo > hi) return 0.0;
    }
    if (lo > n || hi < n) return 0.0;
    LD pn = expl(-(LD)n + n * logl((LD)n) - lgammal(n + 1.0L));
    return (double)(f[n] / pn);
}

// Second, independent oracle: enumerate the whole discretised sample space.  Boundaries are
// given as cell indices on the uniform grid {0,1/m,...,1}: the event depends only on which of
// the m cells each point falls into, so its probability is (#good assignments) / m^n exactly.
inline double brute_grid(const std::vector<int>& b, const std::vector<int>& B, int m, int n, uint64_t* leaves = nullptr)
{
    std::vector<int> c(n, 0), s(n);
    uint64_t good = 0, total = 0;
    while (true) {
        s = c;
        std::sort(s.begin(), s.end());
        bool ok = true;
        for (int i = 0; i < n && ok; ++i) {
            if (!b.empty() && s[i] < b[i]) ok = false;       // X_(i) in cell [s, s+1)/m  >= b_i/m
            if (!B.empty() && s[i] >= B[i]) ok = false;      // X_(i) <= B_i/m
        }
        good += ok; ++total;
        int p = 0;
        while (p < n && ++c[p] == m) c[p++] = 0;
        if (p == n) break;
    }
    if (leaves) *leaves += total;
    return (double)good / (double)total;
}
