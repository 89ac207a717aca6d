// C14/C15: crossprob_mc under a scripted random generator.  The program's draws come from xp_draw();
// the explorer enumerates all draw sequences (stateless depth-first search, backtracking over draws).
#include "prog.hpp"
#include "ref.hpp"
#include "fam.hpp"
using namespace xp;
typedef std::vector<double> V;
typedef std::vector<std::string> S;
static std::string dir;
static bool pois;

// ---- scripted generator ------------------------------------------------------------------------
static std::vector<double> stream;      // draws to hand out
static size_t pos;                      // draws handed out
static double after = 1e-3;             // every draw after the stream
static bool cyclic;                     // the stream repeats for ever
static size_t RUNAWAY = 2000000;
struct Runaway {};
extern "C" double xp_draw(void) {
    double u = cyclic ? stream[pos % stream.size()] : pos < stream.size() ? stream[pos] : after;
    if (++pos > RUNAWAY) throw std::runtime_error("RUNAWAY");
    return u;
}
extern "C" uint64_t xp_draw64(void) { return (uint64_t)(xp_draw() * 18446744073709551616.0); }

// ---- model -------------------------------------------------------------------------------------
static int mapping = 0;                 // how draws become points: 0 -log(u), 1 -log(1-u), 2 sorted uniforms
static long double spacing(double u) { return mapping == 0 ? -logl((long double)u) : -log1pl(-(long double)u); }
enum { NO = 0, YES = 1, TIE = 2, OPEN = 3 };   // OPEN: not determined by these draws
static const long double EPS = 1e-11L;
static int leq(long double a, long double c) { return std::fabs(a - c) <= EPS * (1 + std::fabs(a)) ? TIE : a < c ? YES : NO; }

// does the sample / path made of these draws respect the bounds?
static int model(const V& b, const V& B, const V& u) {
    size_t n = std::max(b.size(), B.size());
    std::vector<long double> p;
    bool complete = false; int tie = YES;
    if (!pois) {
        if (!b.empty() && b.size() < n) return NO;
        if (n == 0) return YES;
        if (mapping == 2) { if (u.size() < n) return OPEN; p.assign(u.begin(), u.begin() + n); std::sort(p.begin(), p.end()); }
        else {
            if (u.size() < n + 1) return OPEN;
            long double s = 0; for (size_t i = 0; i <= n; ++i) { s += spacing(u[i]); if (i < n) p.push_back(s); }
            for (auto& q : p) q /= s;
        }
        complete = true;
    } else {
        if (!b.empty() && b.size() < B.size()) return NO;
        if (n == 0) return YES;
        long double s = 0;
        for (double d : u) { s += spacing(d) / n; int k = leq(s, 1); if (k == TIE) { tie = TIE; } if (k == NO) { complete = true; break; } p.push_back(s); }
    }
    if (tie == TIE) return TIE;
    int r = YES;
    for (size_t i = 0; i < p.size(); ++i) {
        if (i < b.size()) { int k = leq(b[i], p[i]); if (k == NO) return NO; if (k == TIE) r = TIE; }
        if (i < B.size()) { int k = leq(p[i], B[i]); if (k == NO) return NO; if (k == TIE) r = TIE; }
    }
    if (pois && !b.empty() && p.size() > b.size()) return NO;
    if (r == TIE) return TIE;
    if (complete) return p.size() < B.size() ? NO : YES;
    if (b.empty() && p.size() >= B.size()) return YES;      // later points do not matter
    // a missing point i <= len B is too late if the last point already exceeds B_i
    long double last = p.empty() ? 0 : p.back();
    for (size_t i = p.size(); i < B.size(); ++i) if (last > B[i] + 1e-9) return NO;
    return OPEN;
}

static std::string text(const V& b, const V& B) {
    std::string t;
    for (size_t i = 0; i < b.size(); ++i) t += (i ? ", " : "") + fmt("%.17g", b[i]);
    t += "\n";
    for (size_t i = 0; i < B.size(); ++i) t += (i ? ", " : "") + fmt("%.17g", B[i]);
    return t + "\n";
}
static std::string path, last_text;
static void put(const V& b, const V& B) { std::string t = text(b, B); if (t != last_text) { prog::put(path, t); last_text = t; } }
// runs N simulations; returns the number of accepted ones, -1 if the output is unusable
static long simulate(long N, std::string* err = nullptr) {
    pos = 0;
    prog::Res r = prog::run({pois ? "poisson" : "ecdf", path, std::to_string(N)});
    if (r.err.find("RUNAWAY") != std::string::npos) { if (err) *err = "does not stop drawing random numbers"; return -1; }
    auto l = prog::lines(r.out); double d;
    if (r.status != 0 || r.sig || l.size() != 1 || !prog::number_line(l[0], &d)) { if (err) *err = fmt("exit %d, output: %s%s", r.status, prog::brief(r.out).c_str(), prog::brief(r.err).c_str()); return -1; }
    double k = std::round(d * N);
    if (std::fabs(d - k / N) > 6e-6) { if (err) *err = "printed " + l[0] + ", not a multiple of 1/" + std::to_string(N); return -1; }
    return (long)k;
}
static const char* cmd() { return pois ? "poisson" : "ecdf"; }
static std::string show(const V& b, const V& B, const V& u) { return fmt("crossprob_mc %s, b=%s B=%s, uniform draws %s", cmd(), vec(b).c_str(), vec(B).c_str(), vec(u).c_str()); }

// one trajectory; returns draws consumed
static size_t trajectory(X& x, const V& b, const V& B, const V& u) {
    stream = u; put(b, B);
    std::string err; long k = simulate(1, &err);
    size_t used = pos;
    V seen(u.begin(), u.begin() + std::min(used, u.size()));
    for (size_t i = u.size(); i < used && i < u.size() + 64; ++i) seen.push_back(after);
    x.check();
    if (k < 0) { x.desc(show(b, B, seen)); x.fail("%s", err.c_str()); }
    int m = model(b, B, seen);
    if (m == OPEN) { m = model(b, B, [&] { V f = seen; f.push_back(1e-300); return f; }()); int m2 = YES; V f = seen; for (int i = 0; i < 40; ++i) f.push_back(1 - 1e-3), f.push_back(0.9999); f.push_back(1e-300); m2 = model(b, B, f); if (m != m2) { x.desc(show(b, B, seen)); x.fail("the verdict was given after %zu draws although it depends on further points", used); } }
    if (m == TIE) { x.extra(1); return used; }
    x.extra(k ? 2 : 3);
    if (k != m) { x.desc(show(b, B, seen)); x.fail("the sample was counted as %s, but it %s the bounds", k ? "non-crossing" : "crossing", m ? "satisfies" : "violates"); }
    uint64_t h = hash_str(last_text); for (double d : seen) { uint64_t q; memcpy(&q, &d, 8); h = mix(h, q); } x.key(mix(h, k));
    return used;
}
// all draw sequences over alphabet A (program draws decide the depth)
static void dfs(X& x, const V& b, const V& B, const V& A, size_t depth) {
    std::vector<int> c;
    while (true) {
        V u; for (int i : c) u.push_back(A[i]);
        // extend to depth with A[0]
        while (u.size() < depth) u.push_back(A[0]);
        size_t used = trajectory(x, b, B, u);
        x.extra(0);
        size_t d = std::min(used, depth);
        c.resize(d, 0);
        while (!c.empty() && c.back() + 1 == (int)A.size()) c.pop_back();
        if (c.empty()) return;
        ++c.back();
    }
}

// where is the sample's i-th point, as the program sees it (bisection on a bound)
static double observed(int n, int i, bool lower, const V& u) {
    double lo = 0, hi = 1;
    for (int k = 0; k < 24; ++k) {
        double t = (lo + hi) / 2;
        V b, B;
        if (lower) { b.assign(n, 0.0); for (int j = i; j < n; ++j) b[j] = t; if (i == 0) for (int j = 0; j < n; ++j) b[j] = t; }
        else { B.assign(n, 1.0); for (int j = 0; j <= i; ++j) B[j] = t; }
        put(b, B); stream = u;
        long r = simulate(1);
        if (r < 0) return -1;
        bool below = lower ? r == 1 : r == 0;      // point >= t
        if (below) lo = t; else hi = t;
    }
    return (lo + hi) / 2;
}
static bool calibrate() {
    for (mapping = 0; mapping < (pois ? 2 : 3); ++mapping) for (int n = 1; n <= 3; ++n) for (int lower = 0; lower < 2; ++lower) {
        int good = 0, all = 0;
        for (const V& u : {V{0.31, 0.62, 0.55, 0.2, 1e-9}, V{0.8, 0.77, 0.93, 0.41, 1e-9}, V{0.52, 0.9, 0.63, 0.74, 1e-9}}) {
            // the bound moves all points from index i on (lower) / up to i (upper): i-th binding one
            V w(u.begin(), u.begin() + n + 1);
            std::vector<long double> p; long double s = 0;
            if (mapping == 2) { p.assign(w.begin(), w.begin() + n); std::sort(p.begin(), p.end()); }
            else { for (int k = 0; k <= n; ++k) { s += spacing(w[k]); p.push_back(s); } if (!pois) for (auto& q : p) q /= s; else for (auto& q : p) q /= n; }
            int i = lower ? 0 : n - 1;
            if (pois && p[n - 1] >= 1) continue;
            if (pois && lower) continue;
            ++all;
            if (std::fabs(observed(n, i, lower, u) - (double)p[i]) < 1e-5) ++good;
        }
        if (all >= 2 && good == all) return true;
    }
    mapping = 0;
    return false;
}

// fallback when the way draws become points is unknown: grid integral against the exact probability
static double exact(const V& b, const V& B) {
    size_t n = std::max(b.size(), B.size());
    if (!pois) { if (!b.empty() && b.size() < n) return 0; V c = B; if (!c.empty()) while (c.size() < n) c.push_back(1); return ref_noncrossing(b, c); }
    return -1;
}
static void distribution(X& x) {
    const int K = 24;
    for (int n = 1; n <= 2; ++n) for (int side = 0; side < 3; ++side) for (double p = 0.1; p < 0.95; p += 0.2) for (double q = p; q < 0.95; q += 0.2) {
        if (n == 1 && q != p) continue;
        V v = n == 1 ? V{p} : V{p, q}, b, B;
        if (side == 0) b = v; else if (side == 1) B = v; else { b = v; for (double& d : b) d *= 0.5; B = v; for (double& d : B) d = 0.5 + d / 2; }
        if (!x.next()) continue;
        if (pois) { // exact by the Poisson chain: P = sum over the terminal count
            x.extra(4);
        }
        x.desc(show(b, B, {}) + " (all draws on a grid)");
        put(b, B);
        std::vector<int> c; double acc = 0; size_t depth = pois ? 4 : n + 1;
        while (true) {
            stream.clear(); for (int i : c) stream.push_back((i + 0.5) / K); while (stream.size() < depth) stream.push_back(0.5 / K);
            std::string e; long k = simulate(1, &e); if (k < 0) x.fail("%s", e.c_str());
            size_t d = std::min(pos, depth); acc += k * std::pow(1.0 / K, (double)d);
            c.resize(d, 0);
            while (!c.empty() && c.back() + 1 == K) c.pop_back();
            if (c.empty()) break;
            ++c.back();
        }
        double e;
        if (!pois) e = exact(b, B);
        else {   // integrate numerically: points of a Poisson process of intensity n, at most two bounds
            e = 0; size_t N = b.size();
            // condition on the number of points m: order statistics bounds of m uniforms
            for (size_t m = B.size(); m <= (b.empty() ? (size_t)12 : N); ++m) { V bb, BB; for (size_t i = 0; i < m; ++i) { bb.push_back(i < b.size() ? b[i] : 0); BB.push_back(i < B.size() ? B[i] : 1); } double w = std::exp(-(double)n) * std::pow((double)n, (double)m) / std::tgamma(m + 1.0); e += w * (m ? ref_noncrossing(bb, BB) : 1.0); }
        }
        x.check();
        if (std::fabs(acc - e) > 0.08) x.fail("fraction of accepted draws on a regular grid %.4f, exact probability %.4f", acc, e);
    }
}

// 4. very many simulations: a periodic stream gives a known fraction, none may be lost
static void many(X& x) {
    std::vector<long> Ns = {1000003, 16777213, 16777219, 25165837};
    if (thorough) for (long N : {67108867L, 268435459L, 2147483653L, 4294967299L, 5000000001L}) Ns.push_back(N);
    for (long N : Ns) for (int pat = 0; pat < 5; ++pat) for (int side = 0; side < 2; ++side) {
        if (N > 100000000 && (pat == 1 || pat == 3 || side)) continue;
        if (!x.next()) continue;
        // one bound, two draws per simulation: A violates, C satisfies it
        V A, C, b, B;
        if (side == 0) { b = {0.5}; if (pois) B = {1.0}; } else { B = {0.5}; if (pois) b = {0.0}; }
        // first point at 0.1 / 0.9 of the interval
        double lowd = 0, highd = 0;
        if (mapping == 2) { A = {0.1, 0.5}; C = {0.9, 0.5}; }
        else if (!pois) { lowd = mapping == 0 ? std::exp(-0.1) : 1 - std::exp(-0.1); highd = mapping == 0 ? std::exp(-0.9) : 1 - std::exp(-0.9); A = {lowd, highd}; C = {highd, lowd}; }
        else { lowd = mapping == 0 ? std::exp(-0.1) : 1 - std::exp(-0.1); highd = mapping == 0 ? std::exp(-0.9) : 1 - std::exp(-0.9); A = {lowd, mapping == 0 ? 1e-12 : 1 - 1e-12}; C = {highd, A[1]}; }
        if (side == 1) std::swap(A, C);
        int good = pat == 0 ? 1 : pat == 1 ? 0 : pat == 2 ? 1 : pat == 3 ? 2 : 1, bad = pat == 0 ? 0 : pat == 1 ? 1 : pat == 2 ? 1 : pat == 3 ? 1 : 9;
        stream.clear(); for (int i = 0; i < bad; ++i) for (double d : A) stream.push_back(d); for (int i = 0; i < good; ++i) for (double d : C) stream.push_back(d);
        x.desc(show(b, B, stream) + fmt(" over and over, %ld simulations", N));
        put(b, B);
        // a small run first: is the stream understood?
        cyclic = true; RUNAWAY = 1u << 30; pos = 0; long k = simulate((good + bad) * 10L);
        if (k != good * 10L || pos != (size_t)(good + bad) * 20) { cyclic = false; RUNAWAY = 2000000; x.extra(7); continue; }
        RUNAWAY = (size_t)N * 2 + 1000; pos = 0;
        prog::Res r = prog::run({pois ? "poisson" : "ecdf", path, std::to_string(N)});
        cyclic = false; RUNAWAY = 2000000;
        x.check(); x.extra(0);
        auto l = prog::lines(r.out); double d;
        if (r.status != 0 || r.sig || l.size() != 1 || !prog::number_line(l[0], &d)) x.fail("exit %d, output: %s%s", r.status, prog::brief(r.out).c_str(), prog::brief(r.err).c_str());
        if (pos != (size_t)N * 2) x.fail("%ld simulations were asked for, %zu were made", N, pos / 2);
        double e = (double)good / (good + bad);
        if (std::fabs(d - e) > 6e-7 + 1.0 * (good + bad) / N) x.fail("printed %s, the fraction of non-crossing samples is %.9g", l[0].c_str(), e);
        x.key(mix(N, pat * 2 + side));
    }
}

static void body(X& x) {
    if (!calibrate()) { x.extra(5); distribution(x); return; }
    many(x);
    // 1. all draw sequences x all small lists
    const V A1 = {0.37, 0.91, 0.04, 0.69}, A2 = {0.37, 0.91, 0.04};
    const V ext = {2.220446049250313e-16, 0.5, 1 - 2.220446049250313e-16};   // smallest and largest possible draw
    auto lists = [&](int n, const V& g) { std::vector<V> r; monotone(n, (int)g.size(), [&](const std::vector<int>& i) { V v; for (int k : i) v.push_back(g[k]); r.push_back(v); }); return r; };
    const V G = thorough ? V{0, 0.11, 0.26, 0.43, 0.58, 0.77, 0.94, 1} : V{0, 0.13, 0.32, 0.58, 0.83, 1};
    const V G3 = thorough ? G : V{0, 0.21, 0.52, 0.81};
    const V G4 = thorough ? V{0, 0.21, 0.52, 0.81, 1} : V{0.21, 0.52, 0.81};
    int top = thorough ? 4 : 3;
    for (int n = 0; n <= top; ++n) for (int m = 0; m <= top; ++m) {
        const V& g = std::max(n, m) <= 2 ? G : std::max(n, m) == 3 ? G3 : G4;
        for (auto& b : lists(n, g)) for (auto& B : lists(m, g)) {
            if (!x.next()) continue;
            if (x.describing) x.desc(show(b, B, {}) + " and all sequences of draws");
            size_t N = std::max(n, m);
            dfs(x, b, B, N <= 1 ? V{0.37, 0.91, 0.04, 0.69, 0.5, 0.17, 0.83, 0.98, 0.003} : N == 2 ? A1 : A2, pois ? N + 2 : N + 1);
            if (N <= 2 || thorough) dfs(x, b, B, ext, pois ? N + 2 : N + 1);
        }
    }
    // 1b. lists in any order: every bound counts, whatever its neighbours are
    auto any = [&](int n, const V& g) { std::vector<V> r; words(n, (int)g.size(), [&](const std::vector<int>& i) { V v; for (int k : i) v.push_back(g[k]); r.push_back(v); }); return r; };
    auto sorted = [](const V& v) { return std::is_sorted(v.begin(), v.end()); };
    for (int n = 0; n <= top; ++n) for (int m = 0; m <= top; ++m) {
        const V& g = std::max(n, m) <= 3 ? G3 : G4;
        if (std::max(n, m) > 3 && std::min(n, m) > 1) continue;
        for (auto& b : any(n, g)) for (auto& B : any(m, g)) {
            if ((sorted(b) && sorted(B)) || !x.next()) continue;
            if (x.describing) x.desc(show(b, B, {}) + " and all sequences of draws");
            size_t N = std::max(n, m);
            dfs(x, b, B, N == 2 ? A1 : A2, pois ? N + 2 : N + 1);
        }
    }
    // 2. one deterministic path, each bound moved just above and just below the point it limits
    for (int n : {1, 2, 3, 4, 5, 6, 7, 8, 13, 31, 64, 100, 257, 511, 512, 513, 1000, 1025, 3000}) for (int pat = 0; pat < 5; ++pat) {
        V u; for (int i = 0; i < n + 1; ++i) u.push_back(pat == 0 ? 0.37 : pat == 1 ? (i % 2 ? 0.05 : 0.95) : pat == 2 ? std::fmod(0.5 + i * 0.6180339887498949, 1.0) : pat == 3 ? (i < n / 2 ? 0.99 : 0.2) : (i == n / 2 ? 1e-12 : 0.9));
        if (pois) { for (int i = 0; i < n; ++i) u[i] = 1 - (1 - u[i]) / 3; u[n] = 1e-300; u.push_back(1e-300); }
        std::vector<long double> p; long double s = 0;
        if (mapping == 2) { p.assign(u.begin(), u.begin() + n); std::sort(p.begin(), p.end()); }
        else { for (int i = 0; i <= n; ++i) { s += spacing(u[i]); if (i < n) p.push_back(s); } for (auto& q : p) q /= pois ? (long double)n : s; }
        if (pois && p.back() >= 1) continue;
        for (int i = 0; i < n; ++i) {
            if (n > 40 && i > 3 && i < n - 4 && i % 17 && (!thorough || n > 300)) continue;
            if (n > 300 && i > 1 && i < n - 2 && (i % (n > 600 ? 101 : 51)) && i != n / 2) continue;
            for (int side = 0; side < 2; ++side) for (int both = 0; both < 2; ++both) for (long double e : {1e-3L, 1e-6L, 1e-9L}) for (int sign = -1; sign < 2; sign += 2) {
                if (!x.next()) continue;
                V b, B;
                double t = (double)(p[i] * (1 + sign * e));
                if (side == 0) { for (int k = 0; k < n; ++k) b.push_back(std::min(t, k == i ? t : (double)p[k] * (1 - 2e-3))); for (int k = i; k < n; ++k) b[k] = std::max(b[k], t); for (int k = i + 1; k < n; ++k) if (b[k] > (double)p[k] * (1 - 5e-10)) b[k] = t;
                    std::sort(b.begin(), b.end()); if (both) { for (int k = 0; k < n; ++k) B.push_back(std::min(1.0, (double)p[k] * (1 + 2e-3))); } }
                else { for (int k = 0; k < n; ++k) B.push_back(k == i ? t : std::min(1.0, std::max(k > i ? t : 0.0, (double)p[k] * (1 + 2e-3)))); for (int k = 0; k < i; ++k) B[k] = std::min(B[k], t);
                    if (both) { for (int k = 0; k < n; ++k) b.push_back((double)p[k] * (1 - 2e-3)); } }
                if (x.describing) x.desc(show(b, B, u));
                trajectory(x, b, B, u); x.extra(0);
            }
        }
        // a single bound that matters, the largest (smallest) of its list but not at its end
        for (int i = 0; i < n; ++i) {
            if (n > 40 && i > 3 && i < n - 4 && i % (n > 600 ? 101 : 17)) continue;
            for (int side = 0; side < 2; ++side) for (int sign = -1; sign < 2; sign += 2) for (int rest = 0; rest < 2; ++rest) {
                if (!x.next()) continue;
                V b(side && rest ? n : side ? 0 : n, 0.0), B(side || rest ? n : 0, 1.0);
                (side ? B : b)[i] = (double)(p[i] * (1 + sign * 1e-6L));
                if (x.describing) x.desc(show(b, B, u));
                trajectory(x, b, B, u); x.extra(0);
            }
        }
        // numbers of points around the list lengths
        if (pois) for (int lb = 0; lb <= n + 2; ++lb) for (int lB = 0; lB <= n + 2; ++lB) {
            if (n > 8 && (lb && std::abs(lb - n) > 2)) continue;
            if (n > 8 && (lB && std::abs(lB - n) > 2)) continue;
            if (!x.next()) continue;
            V b(lb, 0.0), B(lB, 1.0); V w = u; if (x.describing) x.desc(show(b, B, w));
            trajectory(x, b, B, w); x.extra(0);
        } else for (int lb = 0; lb <= n; ++lb) for (int lB = 0; lB <= n; ++lB) {
            if (n > 8 && (lb && lb < n - 2)) continue;
            if (n > 8 && (lB && lB < n - 2)) continue;
            if (!x.next()) continue;
            V b(lb, 0.0), B(lB, 1.0); if (x.describing) x.desc(show(b, B, u)); trajectory(x, b, B, u); x.extra(0);
        }
    }
    // 2a. very long lists: no bound is ignored, no path is cut short
    std::vector<int> longs = {4095, 4097, 5000, 8193, 10001, 16385, 32769, 50000, 65537, 70000, 100001};
    if (thorough) for (int n : {6000, 12288, 20000, 40000, 131073, 200000, 262145}) longs.push_back(n);
    for (int n : longs) for (int pat = 0; pat < (thorough ? 3 : 2); ++pat) for (int lists_ = 0; lists_ < 3; ++lists_) {
        V u; for (int i = 0; i < n + 1; ++i) u.push_back(pat == 0 ? 0.37 : pat == 1 ? std::fmod(0.5 + i * 0.6180339887498949, 1.0) : i < n / 2 ? 0.99 : 0.2);
        if (pois) { for (int i = 0; i < n; ++i) u[i] = 1 - (1 - u[i]) / 3; u[n] = 1e-300; u.push_back(1e-300); }
        std::vector<long double> p; long double s = 0;
        if (mapping == 2) { p.assign(u.begin(), u.begin() + n); std::sort(p.begin(), p.end()); }
        else { for (int i = 0; i <= n; ++i) { s += spacing(u[i]); if (i < n) p.push_back(s); } for (auto& q : p) q /= pois ? (long double)n : s; }
        if (pois && p.back() >= 1) continue;
        for (int i : {-1, 0, n / 2, 4096, 32768, 65536, n - 1}) for (int sign = -1; sign < 2; sign += 2) {
            if (i >= n || (i < 0 && sign > 0)) continue;
            if (!x.next()) continue;
            V b(lists_ == 1 ? 0 : n, 0.0), B(lists_ == 0 ? 0 : n, 1.0);
            if (i >= 0 && lists_ != 1) for (int k = i; k < n; ++k) b[k] = (double)(p[i] * (1 + sign * 1e-6L));
            if (i >= 0 && lists_ == 1) for (int k = 0; k <= i; ++k) B[k] = (double)(p[i] * (1 + sign * 1e-6L));
            // other bounds that this one would contradict keep their distance
            if (i >= 0 && lists_ != 1) for (int k = i + 1; k < n; ++k) if (b[k] > p[k]) b[k] = (double)(p[k] * (1 - 1e-6L));
            std::sort(b.begin(), b.end());
            if (x.describing) x.desc(fmt("%d points (pattern %d), lists of %zu and %zu bounds, bound %d just %s its point", n, pat, b.size(), B.size(), i, sign < 0 ? "below" : "above"));
            trajectory(x, b, B, u); x.extra(0);
        }
        // one point more and one less than the list has bounds
        if (pois) for (int d : {-1, 1, 2}) {
            if (!x.next()) continue;
            V b(lists_ == 1 ? 0 : n + d, 0.0), B(lists_ == 0 ? 0 : n + d, 1.0);
            if (x.describing) x.desc(fmt("%d points (pattern %d), lists of %zu and %zu bounds", n, pat, b.size(), B.size()));
            trajectory(x, b, B, u); x.extra(0);
        }
    }
    // 2b. points extremely close to the ends of the interval and to each other, alone and after another path
    if (mapping != 2) for (long double e : {1e-3L, 1e-5L, 1e-7L, 1e-9L}) for (int n = 0; n <= 2; ++n) for (int m = 0; m <= 2; ++m) {
        const V Z = {(double)(e / 2), (double)(1.5L * e), 0.2, 0.4, (double)(0.4L + 1.5L * e), 0.7, (double)(1 - 1.5L * e), (double)(1 - e / 2), 1};
        size_t N = std::max(n, m); if (!N) continue;
        for (auto& b : lists(n, Z)) for (auto& B : lists(m, Z)) {
            if (!thorough && n == 2 && m == 2 && (int)((b[0] + b[1] * 3 + B[0] * 7 + B[1] * 13) * 1000) % 3) continue;
            if (!x.next()) continue;
            if (x.describing) x.desc(show(b, B, {}) + fmt(" and all paths with points near 0, 0.4 and 1 (distance %.0Le)", e));
            const long double P[] = {e, 0.3L, 0.4L, 0.4L + e, 0.4L + 2 * e, 1 - 2 * e, 1 - e};
            for (size_t k = pois ? 0 : N; k <= (pois ? N + 1 : N); ++k) monotone((int)k, 7, [&](const std::vector<int>& w) {
                for (size_t i = 1; i < w.size(); ++i) if (w[i] == w[i - 1]) return;
                auto draws = [&](const std::vector<long double>& p) { V u; long double last = 0; for (long double t : p) { long double g = (t - last) * (pois ? (long double)N : 1.0L); u.push_back((double)(mapping == 0 ? expl(-g) : -expm1l(-g))); last = t; }
                    long double g = pois ? 40.0L : 1 - last; u.push_back((double)(mapping == 0 ? expl(-g) : -expm1l(-g))); return u; };
                std::vector<long double> p; for (int i : w) p.push_back(P[i]);
                V u = draws(p); bool inside = true; for (double d : u) if (!(d > 0 && d < 1)) inside = false;
                if (!inside) return;
                trajectory(x, b, B, u); x.extra(0);
                if (model(b, B, u) > YES) return;
                for (long double q : {0.1L, 0.9L}) {
                    std::vector<long double> f; for (size_t i = 0; i < N; ++i) f.push_back(q + 0.001L * i);
                    V first = draws(f); if (model(b, B, first) > YES) continue;
                    stream = first; long k1 = simulate(1); size_t used = std::min(pos, first.size());
                    V all(first.begin(), first.begin() + used); all.insert(all.end(), u.begin(), u.end());
                    stream = all; std::string err; long k2 = simulate(2, &err); x.check(); x.extra(0);
                    if (k2 != k1 + model(b, B, u)) { x.desc(show(b, B, all)); x.fail("two simulations: %ld counted as non-crossing, expected %d and %d %s", k2, (int)k1, model(b, B, u), err.c_str()); }
                }
            });
        }
    }
    // 3. several simulations: the verdict on each does not depend on the ones before
    const V C = {0.37, 0.91, 0.04, 0.69};
    for (int n = 0; n <= 2; ++n) for (int m = 0; m <= 2; ++m) for (auto& b : lists(n, G3)) for (auto& B : lists(m, G3)) for (int w0 = 0; w0 < 2; ++w0) {
        if (!x.next()) continue;
        if (x.describing) x.desc(show(b, B, {}) + " with several simulations");
        words(3, 4, [&](const std::vector<int>& w) {
            V u; for (int r = 0; r < 8; ++r) { for (int k : w) u.push_back(C[k]); if (w0) u.push_back(C[(w[0] + r) % 4]); }
            put(b, B);
            size_t off = 0; long acc = 0;
            for (int N = 1; N <= 5; ++N) {
                stream.assign(u.begin() + std::min(off, u.size()), u.end());
                long k = simulate(1); if (k < 0) x.fail("no estimate");
                size_t used = pos; acc += k;
                V seen(stream.begin(), stream.begin() + std::min(used, stream.size()));
                int m_ = model(b, B, seen); if (m_ <= YES && used <= stream.size() && m_ != k) { x.desc(show(b, B, seen)); x.fail("misjudged sample"); }
                off += used;
                stream = u; std::string e; long t = simulate(N, &e);
                x.check(); x.extra(0);
                if (t < 0) { x.desc(show(b, B, u)); x.fail("%s", e.c_str()); }
                if (t != acc && off <= u.size()) { x.desc(show(b, B, u)); x.fail("%d simulations on this stream: %ld counted as non-crossing, one by one %ld are", N, t, acc); }
            }
        });
    }
}

int main(int argc, char** argv) {
    return xp_main(argc, argv, [](X& x) {
        pois = mode == "poisson";
        char t[] = "pXXXXXX"; char* d = mkdtemp(t); if (!d) _exit(97);
        dir = d; path = dir + "/f.txt";
        // is the scripted generator in use?
        put({0.3, 0.4}, {0.7, 0.9}); stream.clear(); simulate(3);
        if (pos == 0) { if (x.next()) { x.extra(6); } return; }
        body(x);
    });
}
