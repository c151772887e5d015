// C19: packed symmetric dyads.
#include "mc.h"
#include <Eigen/Dense>
#include <Caribou/config.h>
#include <Caribou/Algebra/Tensor.h>

static const int P[6][2] = {{0, 0}, {1, 1}, {2, 2}, {0, 1}, {1, 2}, {0, 2}};
template <class R, int O> void run(int lim, const char *tn) {
    using M3 = Eigen::Matrix<R, 3, 3, O>;
    mc::trace();
    mc::product(std::vector<int>(6, 2 * lim + 1), [&](const std::vector<int> &d) {
        M3 a;
        for (int k = 0; k < 6; ++k) a(P[k][0], P[k][1]) = a(P[k][1], P[k][0]) = R(d[k] - lim);
        mc::state();
        const M3 a0 = a;
        const Eigen::Matrix<R, 6, 6> m1 = caribou::algebra::symmetric_dyad_1(a), m2 = caribou::algebra::symmetric_dyad_2(a); mc::step(2);
        mc::check(a == a0, "input-unchanged", tn);
        for (int r = 0; r < 6; ++r) for (int c = 0; c < 6; ++c) {
            int i = P[r][0], j = P[r][1], k = P[c][0], l = P[c][1];
            double w1 = double(a(i, j)) * a(k, l), w2 = 0.5 * (double(a(i, k)) * a(j, l) + double(a(i, l)) * a(j, k));
            if (!(std::fabs(m1(r, c) - w1) < 1e-6) || !(std::fabs(m2(r, c) - w2) < 1e-6)) {
                mc::check(std::fabs(m1(r, c) - w1) < 1e-6, "dyad1", mc::str(tn, ":", r, c), "a=", mc::show(a), " entry ", m1(r, c), " want ", w1);
                mc::check(std::fabs(m2(r, c) - w2) < 1e-6, "dyad2", mc::str(tn, ":", r, c), "a=", mc::show(a), " entry ", m2(r, c), " want ", w2);
            }
        }
        mc::check(true, "entries", tn);
    });
}
int main(int c, char **v) {
    return mc::run(c, v, [] {
        int lim = mc::thorough() ? 4 : 2;
        run<double, Eigen::ColMajor>(lim, "double-col"); run<double, Eigen::RowMajor>(lim, "double-row");
        run<float, Eigen::ColMajor>(lim, "float-col"); run<float, Eigen::RowMajor>(lim, "float-row");
        mc::bound("tensors", mc::str("all symmetric tensors with integer components in [", -lim, ",", lim, "] (the products are quadratic in 6 variables: three values per variable determine them)"));
        mc::sample("basis", "a = [[-2,-2,-2],[-2,-2,-2],[-2,-2,-2]] ... [[2,2,2],[2,2,2],[2,2,2]]");
    });
}
