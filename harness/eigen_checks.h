// Force-included: keeps Eigen's own bounds/size assertions on although the code is compiled with NDEBUG (as shipped).
#pragma once
#include <cstdio>
#include <cstdlib>
[[noreturn]] inline void mc_eigen_fail(const char *x, const char *f, int l) {
    std::fprintf(stderr, "EIGEN-ASSERT %s at %s:%d\n", x, f, l);
    std::fflush(stderr);
    std::abort();
}
#define eigen_assert(x) ((x) ? (void)0 : mc_eigen_fail(#x, __FILE__, __LINE__))
