// Boundary families shared by the harnesses.
#pragma once
#include <vector>
#include <cmath>
#include <algorithm>
#include <set>

namespace fam {
typedef std::vector<double> V;

// irregular grid including both end points; m values
inline V grid(int m) {
    static const double inner[] = {0.0625, 0.11, 0.19, 0.3125, 0.37, 0.475, 0.58, 0.64, 0.71, 0.7890625, 0.85, 0.93};
    V g; g.push_back(0.0);
    // spread the chosen inner points over the whole list
    int k = m - 2;
    for (int i = 0; i < k; ++i) g.push_back(inner[(2 * i + 1) * 12 / (2 * k)]);
    g.push_back(1.0);
    return g;
}
inline V at(const V& g, const std::vector<int>& idx) { V v(idx.size()); for (size_t i = 0; i < idx.size(); ++i) v[i] = g[idx[i]]; return v; }
inline V reflect(const V& v) { V r(v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = 1.0 - v[v.size() - 1 - i]; return r; }
inline V ks_lower(int n, double d) { V v(n); for (int i = 0; i < n; ++i) v[i] = std::max(0.0, (i + 1.0) / n - d); return v; }
inline V ks_upper(int n, double d) { V v(n); for (int i = 0; i < n; ++i) v[i] = std::min(1.0, (double)i / n + d); return v; }
inline V runs2(int n, int cut, double a, double c) { V v(n); for (int i = 0; i < n; ++i) v[i] = i < cut ? a : c; return v; }

// distinct run-skeleton lists: up to three runs with values from vals, cut positions from cuts
inline std::vector<V> skeletons(int n, const V& vals, const std::vector<int>& cuts, int maxruns) {
    std::set<V> s;
    int m = (int)vals.size();
    for (int a = 0; a < m; ++a) {
        s.insert(V(n, vals[a]));
        for (int b = a + 1; b < m; ++b) for (int c1 : cuts) {
            if (c1 <= 0 || c1 >= n) continue;
            s.insert(runs2(n, c1, vals[a], vals[b]));
            if (maxruns >= 3) for (int c = b + 1; c < m; ++c) for (int c2 : cuts) {
                if (c2 <= c1 || c2 >= n) continue;
                V v = runs2(n, c1, vals[a], vals[b]);
                for (int i = c2; i < n; ++i) v[i] = vals[c];
                s.insert(v);
            }
        }
    }
    return std::vector<V>(s.begin(), s.end());
}

// One-sided lower lists for size n (dense and run-like).
inline std::vector<V> one_sided(int n, int level) {
    std::vector<V> r;
    double q = std::sqrt((double)n);
    r.push_back(ks_lower(n, 1.2 / q)); r.push_back(ks_lower(n, 0.5 / q)); r.push_back(ks_lower(n, 0.15 / q + 1.0 / n));
    { V v(n); for (int i = 0; i < n; ++i) v[i] = 0.5 * i / n; r.push_back(v); }                       // slowly growing
    { V v(n); for (int i = 0; i < n; ++i) { double x = (i + 0.5) / n; v[i] = std::max(0.0, x * x - 0.02); } r.push_back(v); } // curved, distinct steps
    { V v(n); for (int i = 0; i < n; ++i) v[i] = std::max(0.0, std::floor(8.0 * i / n) / 8.0 - 0.1); r.push_back(v); } // stairs
    { V v(n, 0.0); if (n > 0) v[n - 1] = 0.5; r.push_back(v); }
    { V v(n, 0.0); for (int i = n / 2; i < n; ++i) v[i] = 0.45; r.push_back(v); }
    { V v(n); for (int i = 0; i < n; ++i) v[i] = i < n / 3 ? 0.0 : (i + 1.0) / n - 0.8 / q > 0 ? (i + 1.0) / n - 0.8 / q : 0.0; std::sort(v.begin(), v.end()); r.push_back(v); }
    if (level >= 1) {
        { V v(n); for (int i = 0; i < n; ++i) v[i] = std::max(0.0, (i / 3 * 3 + 1.0) / n - 0.7 / q); r.push_back(v); }  // ties of 3
        { V v(n); int k = (int)q + 1; for (int i = 0; i < n; ++i) v[i] = std::max(0.0, (i / k * k + 0.0) / n - 0.4 / q); r.push_back(v); }  // ties of a block
        { V v(n); for (int i = 0; i < n; ++i) v[i] = 1e-3 * (i + 1) / n; r.push_back(v); }
        { V v(n); for (int i = 0; i < n; ++i) v[i] = 1.0 - 1.0 / n * std::pow(1.0 - (double)i / n, 0.5); std::sort(v.begin(), v.end()); r.push_back(v); }
    }
    return r;
}

struct Two { V b, B; };
// Two-sided pairs for size n.
inline std::vector<Two> two_sided(int n, int level) {
    std::vector<Two> r;
    double q = std::sqrt((double)n);
    for (double d : {1.2 / q, 0.6 / q, 0.25 / q + 0.7 / n}) r.push_back({ks_lower(n, d), ks_upper(n, d)});
    r.push_back({ks_lower(n, 0.7 / q), V(n, 1.0)});
    r.push_back({V(n, 0.0), ks_upper(n, 0.7 / q)});
    { V b(n), B(n); for (int i = 0; i < n; ++i) { b[i] = 0.3 * i / n; B[i] = 0.65 + 0.35 * i / n; } r.push_back({b, B}); }       // very wide window
    { V b(n), B(n); for (int i = 0; i < n; ++i) { b[i] = std::max(0.0, (double)i / n - 0.3); B[i] = std::min(1.0, (double)i / n + 0.45); } r.push_back({b, B}); }
    if (level >= 1) {
        { V b(n), B(n); for (int i = 0; i < n; ++i) { b[i] = std::max(0.0, std::floor(10.0 * i / n) / 10 - 0.1); B[i] = std::min(1.0, std::floor(10.0 * i / n) / 10 + 0.3); } r.push_back({b, B}); } // stairs with cross ties
        { V b = ks_lower(n, 0.8 / q), B = ks_upper(n, 0.8 / q); for (int i = 0; i < n; ++i) { b[i] = std::floor(b[i] * 40) / 40; B[i] = std::ceil(B[i] * 40) / 40; } r.push_back({b, B}); }
        { V b(n, 0.0), B(n, 1.0); for (int i = n / 2; i < n; ++i) b[i] = 0.45; for (int i = 0; i < n / 2; ++i) B[i] = 0.57; r.push_back({b, B}); }
    }
    return r;
}
} // namespace fam
