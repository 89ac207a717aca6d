#include "ref.hpp"
extern "C" double xp_ref(const double* b, int nb, const double* B, int nB) { return ref_noncrossing(std::vector<double>(b, b + nb), std::vector<double>(B, B + nB)); }
