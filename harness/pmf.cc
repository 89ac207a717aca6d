// C24: Poisson weights, all short refill histories.
#include "xp.hpp"
#include <exception>
#include <memory>
#include <malloc.h>
#include <stdexcept>
#include "poisson_pmf.hh"
using namespace xp;

static long double exact(double m, int k) { return m == 0 ? (k == 0 ? 1.0L : 0.0L) : expl(-(long double)m + k * logl((long double)m) - lgammal(k + 1.0L)); }
static double reltol(double m, int k) { return m == 0 ? 0 : 2e-15 * (m + k * std::fabs(std::log(m)) + std::lgamma(k + 1.0) + 20); }
static void judge(X& x, const char* what, double m, int k, double got, const std::string& h) {
    x.check();
    double e = (double)exact(m, k);
    X::margin(std::fabs(got - e), reltol(m, k) * e + 1e-290);
    if (!finite_(got) || !(std::fabs(got - e) <= reltol(m, k) * e + 1e-290)) x.fail("%s for mean %.17g, count %d is %.17g, exact %.17g (%s)", what, m, k, got, e, h.c_str());
}
static std::vector<double> means = {0.0, 5e-324, 1e-300, 1e-17, 1e-3, 0.5, 1.0, 7.25, 100.0, 700.0, 746.0, 2000.0, 20000.0};

static void body(X& x) {
    // several generators alive at once: construct, fill, destroy and use in every order, each history in
    // a process of its own whose released memory is overwritten
    for (int d = 1; d <= (thorough ? 5 : 4); ++d) words(d, 9, [&](const std::vector<int>& w) {
        if (!x.next()) return;
        static const int size[3] = {5, 60, 700};
        std::string h = "generators for 5, 60 and 700:";
        for (int i : w) h += fmt(" %s(%d)", i / 3 == 0 ? "renew" : i / 3 == 1 ? "destroy" : "fill", size[i % 3]);
        if (x.describing) x.desc(h);
        uint64_t hh = 31; for (int i : w) hh = mix(hh, i);
        isolated(x, [&] {
            mallopt(M_PERTURB, 0x5a);
            std::unique_ptr<PoissonPMFGenerator> g[3];
            double filled[3] = {-1, -1, -1};
            int step = 0;
            for (int i : w) {
                int k = i % 3; ++step;
                if (i / 3 == 0) { g[k].reset(new PoissonPMFGenerator(size[k])); filled[k] = -1; }
                else if (i / 3 == 1) { g[k].reset(); filled[k] = -1; }
                else if (g[k]) { filled[k] = 3.25 * step; g[k]->compute_array(size[k], filled[k]); }
                for (int q = 0; q < 3; ++q) if (g[q]) {
                    for (int j : {0, 1, size[q] / 2, size[q]}) { judge(x, "single weight", 4.5, j, g[q]->evaluate_pmf(4.5, j), h); if (filled[q] >= 0) judge(x, "weight", filled[q], j, g[q]->get_array()[j], h); }
                }
            }
        });
        x.key(hh); x.states(d, d); x.trace();
    });
    for (int max : {1, 2, 3, 10, 65, 130, 800}) {
        std::set<int> S = {0, 1, max / 2, max - 1, max};
        std::vector<int> K; for (int k : S) if (k >= 0) K.push_back(k);
        int A = (int)(K.size() * means.size());
        int depth = thorough && max <= 130 ? 3 : max <= 10 ? 3 : 2;
        if (thorough && max <= 3) depth = 4;
        for (int d = 1; d <= depth; ++d) words(d, A, [&](const std::vector<int>& w) {
            if (!x.next()) return;
            std::string h = fmt("table(%d):", max); for (int i : w) h += fmt(" fill(%d, %g)", K[i % K.size()], means[i / K.size()]);
            if (x.describing) x.desc(h);
            PoissonPMFGenerator g(max);
            uint64_t hh = max; for (int i : w) hh = mix(hh, i);
            for (int i : w) {
                int k = K[i % K.size()]; double m = means[i / K.size()];
                g.compute_array(k, m);
                const double* p = g.get_array();
                for (int j = 0; j <= k; ++j) judge(x, "weight", m, j, p[j], h);
            }
            x.key(hh); x.states(d, d); x.trace();
        });
        // evaluation of single weights does not depend on or change the table
        for (double m : means) for (double m2 : means) {
            if (!x.next()) continue;
            std::string h = fmt("table(%d) filled for mean %g, single weights for mean %g", max, m, m2);
            if (x.describing) x.desc(h);
            PoissonPMFGenerator g(max);
            g.compute_array(max, m);
            for (int j = 0; j <= max; ++j) judge(x, "single weight", m2, j, g.evaluate_pmf(m2, j), h);
            for (int j = 0; j <= max; ++j) judge(x, "weight", m, j, g.get_array()[j], h);
            x.key(mix(mix(max, std::hash<double>()(m)), std::hash<double>()(m2)));
        }
        // negative means are rejected and leave the generator usable
        for (double bad : {-5e-324, -1e-300, -1e-9, -1.0, -1000.0}) for (int k : K) {
            if (!x.next()) continue;
            std::string h = fmt("table(%d): fill(%d, %g)", max, k, bad);
            if (x.describing) x.desc(h);
            PoissonPMFGenerator g(max);
            bool raised = false;
            try { g.compute_array(k, bad); } catch (std::exception&) { raised = true; }
            x.check();
            if (!raised && bad < -1e-308) x.fail("negative mean %g accepted (%s)", bad, h.c_str());
            g.compute_array(max, 2.5);
            for (int j = 0; j <= max; ++j) judge(x, "weight", 2.5, j, g.get_array()[j], h);
            x.key(mix(max, std::hash<double>()(bad) + k));
        }
    }
    // the free function, every count up to 3000
    for (int k = 0; k <= (thorough ? 20000 : 3000); k += k < 300 ? 1 : 7) {
        if (!x.next()) continue;
        if (x.describing) x.desc(fmt("poisson_pmf(mean, %d) for 13 means and mean %d", k, k));
        for (double m : means) judge(x, "poisson_pmf", m, k, poisson_pmf(m, k), "free function");
        if (k) judge(x, "poisson_pmf", k, k, poisson_pmf(k, k), "mean equal to count");
        x.key(mix(4242, k));
    }
    // pairs of single evaluations, each pair in a process of its own: counts a power of two apart, means
    // that are equal, equal to the count, or very close
    {
        std::vector<int> K = {0, 1, 5, 24};
        for (int j = 0; j <= 16; ++j) { K.push_back(5 + (1 << j)); if (j <= 12) K.push_back(24 << j); }
        for (int k1 : K) for (int k2 : K) for (int mm = 0; mm < 4; ++mm) {
            if (!x.next()) continue;
            auto mean = [&](int k) { return mm == 0 ? (double)k : mm == 1 ? 7.25 : mm == 2 ? k * (1 + 1e-9) + 1e-9 : k + 0.5; };
            std::string h = fmt("poisson_pmf(%g, %d), then poisson_pmf(%g, %d), then single weights of generators", mean(k1), k1, mean(k2), k2);
            if (x.describing) x.desc(h);
            isolated(x, [&] {
                for (int r = 0; r < 2; ++r) { judge(x, "poisson_pmf", mean(k1), k1, poisson_pmf(mean(k1), k1), h); judge(x, "poisson_pmf", mean(k2), k2, poisson_pmf(mean(k2), k2), h); }
                PoissonPMFGenerator g(std::max(k1, k2) + 1), g2(std::max(k1, k2) + 3);
                for (int r = 0; r < 2; ++r) { judge(x, "single weight", mean(k1), k1, g.evaluate_pmf(mean(k1), k1), h); judge(x, "single weight", mean(k2), k2, g.evaluate_pmf(mean(k2), k2), h); judge(x, "single weight", mean(k1), k2, g2.evaluate_pmf(mean(k1), k2), h); }
            });
            x.key(mix(mix(3131, k1), k2 * 4 + mm)); x.states(2, 2); x.trace();
        }
    }
    // refills for means that are almost equal, with any order of table lengths
    for (double c : {1e-3, 0.5, 2.0, 40.0, 700.0, 5000.0}) for (double e : {2.3e-16, 1e-13, 1e-10, 1e-8, 1e-6, 1e-4}) for (int sign = -1; sign <= 1; sign += 2) for (int l = 0; l < 27; ++l) {
        if (!x.next()) continue;
        double m[3] = {c, c * (1 + sign * e), c};
        int len[3] = {l % 3 == 0 ? 4 : l % 3 == 1 ? 40 : 90, l / 3 % 3 == 0 ? 4 : l / 3 % 3 == 1 ? 40 : 90, l / 9 == 0 ? 4 : l / 9 == 1 ? 40 : 90};
        std::string h = fmt("table(90): fill(%d, %.17g) fill(%d, %.17g) fill(%d, %.17g)", len[0], m[0], len[1], m[1], len[2], m[2]);
        if (x.describing) x.desc(h);
        PoissonPMFGenerator g(90);
        for (int r = 0; r < 3; ++r) { g.compute_array(len[r], m[r]); for (int j = 0; j <= len[r]; ++j) judge(x, "weight", m[r], j, g.get_array()[j], h); judge(x, "single weight", m[r], len[r], g.evaluate_pmf(m[r], len[r]), h); }
        x.key(mix(mix(97, std::hash<double>()(m[1])), l)); x.states(3, 3); x.trace();
    }
    // means next to special values: powers of two, integers, and the means used in the refill histories
    std::vector<double> centres = {1e-3, 0.125, 0.25, 1.0 / 3, 0.5, 0.6931471805599453, 0.75, 2.718281828459045, 7.25, 1000.0, 2000.0, 4096.0};
    for (int k = 1; k <= (thorough ? 800 : 140); ++k) centres.push_back(k);
    for (double c : {170.0, 171.0, 256.0, 512.0, 700.0, 708.0, 709.0, 709.78, 710.0, 744.4, 745.0, 745.13, 746.0, 1024.0}) centres.push_back(c);
    for (double c : centres) for (double e : {0.0, 2.3e-16, 1e-15, 1e-12, 1e-9, 1e-6, 9e-4, 1e-2, 0.1, 0.4}) for (int sign = -1; sign <= 1; sign += 2) {
        if (!x.next()) continue;
        double m = c * (1 + sign * e);
        int max = std::min(1200, (int)(m + 10 * std::sqrt(m + 1) + 20));
        if (x.describing) x.desc(fmt("table(%d): fill(%d, %.17g), and single weights", max, max, m));
        PoissonPMFGenerator g(max);
        g.compute_array(max, m);
        for (int j = 0; j <= max; ++j) judge(x, "weight", m, j, g.get_array()[j], "special mean");
        for (int j = 0; j <= max; j += j < 6 ? 1 : 5) { judge(x, "single weight", m, j, g.evaluate_pmf(m, j), "special mean"); judge(x, "poisson_pmf", m, j, poisson_pmf(m, j), "special mean"); }
        x.key(mix(mix(99, std::hash<double>()(c)), std::hash<double>()(e) + sign));
    }
    // magnitudes
    for (int k = -1074; k <= 14; ++k) for (double f : {1.0, 1.37, 1.999}) {
        if (!x.next()) continue;
        double m = std::ldexp(f, k);
        if (x.describing) x.desc(fmt("table(40): fill(40, %.17g), and single weights", m));
        PoissonPMFGenerator g(40);
        g.compute_array(40, m);
        for (int j = 0; j <= 40; ++j) { judge(x, "weight", m, j, g.get_array()[j], "magnitude"); judge(x, "single weight", m, j, g.evaluate_pmf(m, j), "magnitude"); judge(x, "poisson_pmf", m, j, poisson_pmf(m, j), "magnitude"); }
        x.key(mix(mix(98, k), (int)(f * 1000)));
    }
    // large tables
    for (int max : {1000, 3000, 10000}) for (double f : {0.0, 1e-6, 0.01, 0.5, 1.0, 2.0}) {
        if (!x.next()) continue;
        if (x.describing) x.desc(fmt("table(%d): fill(%d, %g)", max, max, f * max));
        PoissonPMFGenerator g(max);
        g.compute_array(max, 3.0);
        g.compute_array(max, f * max);
        for (int j = 0; j <= max; ++j) judge(x, "weight", f * max, j, g.get_array()[j], "large table");
        x.key(mix(max, (int)(f * 1e6)));
    }
}
int main(int argc, char** argv) { return xp_main(argc, argv, body); }
