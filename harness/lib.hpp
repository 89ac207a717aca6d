// Uniform view of the public library calls.
#pragma once
#include <exception>
#include <stdexcept>
#include <string>
#include <vector>
#include "ecdf2.hh"
#include "ecdf1_new.hh"
#include "ecdf1_mns2016.hh"

namespace lib {
typedef std::vector<double> V;
enum Fn { KS, MN, NEW_b, NEW_B, MNS_b, MNS_B, NFN };
static const char* const NAME[NFN] = {"ecdf2(direct)", "ecdf2(fft)", "ecdf1_new_b", "ecdf1_new_B", "ecdf1_mns2016_b", "ecdf1_mns2016_B"};
inline bool two_sided(Fn f) { return f == KS || f == MN; }
inline bool upper(Fn f) { return f == NEW_B || f == MNS_B; }
inline double tol_abs(int n) { return 1e-13 * (n + 30); }

struct Out { bool raised; double v; std::string what; };
// u: lower list (or the only list); w: upper list of a two-sided call
inline double raw(Fn f, const V& u, const V& w) {
    switch (f) {
        case KS: return ecdf2(u, w, false);
        case MN: return ecdf2(u, w, true);
        case NEW_b: return ecdf1_new_b(u);
        case NEW_B: return ecdf1_new_B(u);
        case MNS_b: return ecdf1_mns2016_b(u);
        default: return ecdf1_mns2016_B(u);
    }
}
inline Out call(Fn f, const V& u, const V& w = V()) {
    Out o{false, 0, ""};
    try { o.v = raw(f, u, w); }
    catch (std::exception& e) { o.raised = true; o.what = e.what(); }
    return o;
}
}
