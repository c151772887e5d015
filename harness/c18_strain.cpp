// C18: deformation gradient F = I + grad u.
#include "ref.h"
#include <Caribou/Mechanics/Elasticity/Strain.h>
using namespace ref;
namespace st = caribou::mechanics::elasticity::strain;

template <int N, int D, int O> Eigen::Matrix<double, D, D> callF(const Eigen::MatrixXd &dN, const Eigen::MatrixXd &U) {
    st::Matrix<N, D, O> a = dN, b = U;
    const st::Matrix<N, D, O> a0 = a, b0 = b;
    mc::step();
    Eigen::Matrix<double, D, D> r = st::F<N, D, O>(a, b);
    if (!(a == a0) || !(b == b0)) mc::fail("inputs-modified", mc::str(N, "x", D));
    return r;
}
// algebraic part: F is I + (bilinear in U and dN): all pairs of unit matrices, plus a full-rank integer pair
template <int N, int D, int O> void bilinear() {
    mc::trace();
    const std::string key = mc::str(N, "nodes-", D, "D-", O ? "rowmajor" : "colmajor");
    mc::crumb(key);
    for (int i = 0; i < N; ++i) for (int a = 0; a < D; ++a) for (int j = 0; j < N; ++j) for (int b = 0; b < D; ++b) {
        Eigen::MatrixXd U = Eigen::MatrixXd::Zero(N, D), dN = U; U(i, a) = 3; dN(j, b) = 5;
        mc::state();
        auto F = callF<N, D, O>(dN, U);
        Eigen::MatrixXd want = Eigen::MatrixXd::Identity(D, D); if (i == j) want(a, b) += 15;
        mc::check(mc::maxdiff(F, want) < 1e-12, "bilinear", key, "U has 3 at (", i, ",", a, "), dN has 5 at (", j, ",", b, "): F=", mc::show(F), " want ", mc::show(want));
    }
    Eigen::MatrixXd U(N, D), dN(N, D);
    for (int i = 0; i < N; ++i) for (int a = 0; a < D; ++a) { U(i, a) = 1 + i * D + a; dN(i, a) = (i * i + 3 * a + 1) % 7 - 3; }
    mc::state();
    Eigen::MatrixXd want = U.transpose() * dN + Eigen::MatrixXd::Identity(D, D);
    auto F = callF<N, D, O>(dN, U);
    mc::check(mc::maxdiff(F, want) < 1e-9, "sum", key, "F=", mc::show(F), " want ", mc::show(want));
}
template <int N> void bilinears() {
    bilinear<N, 1, 0>();
    if constexpr (N > 1) { bilinear<N, 2, 0>(); bilinear<N, 3, 0>(); bilinear<N, 2, 1>(); bilinear<N, 3, 1>(); }
}
template <class E> void run_elem(E *) {
    constexpr int N = g::traits<E>::NumberOfNodesAtCompileTime, D = g::traits<E>::Dimension, C = g::traits<E>::CanonicalDimension;
    if constexpr (D == C) {
        const Elem &e = Info<E>::e(); const std::string nm = Info<E>::name();
        auto pts = lattice(e, D == 1 ? 8 : D == 2 ? 3 : 1, 0);
        if (mc::thorough()) pts = lattice(e, D == 1 ? 16 : D == 2 ? 6 : 3, 0);
        pts.push_back(e.centroid());
        // motions: x -> A x + t
        std::vector<Affine<D>> motions = affines<D>();
        for (int a = 0; a < D; ++a) for (int b = 0; b < D; ++b) { Affine<D> m{Eigen::Matrix<double, D, D>::Identity(), Eigen::Matrix<double, D, 1>::Zero()}; m.A(a, b) += 0.5; motions.push_back(m); }
        configurations<E>([&](const Eigen::MatrixXd &n, const std::string &desc, bool) {
            mc::trace(); mc::crumb(desc);
            E el = build<E>(n);
            for (auto &x : pts) {
                // derivatives in world coordinates obtained as the force fields do: dL * J^-1 of the real element
                const Eigen::Matrix<double, D, D> J = el.jacobian(loc<E>(x));
                const Eigen::Matrix<double, N, D> dL = el.dL(loc<E>(x));
                const double size = J.cwiseAbs().maxCoeff();
                if (std::fabs(J.determinant()) < 1e-9 * std::pow(size, D)) continue;
                Eigen::MatrixXd dN = dL * J.inverse();
                Eigen::MatrixXd X(N, D); for (int i = 0; i < N; ++i) X.row(i) = el.node(i).transpose();
                double scale = 1 + X.cwiseAbs().maxCoeff() * dN.cwiseAbs().maxCoeff();
                for (size_t k = 0; k < motions.size(); ++k) {
                    mc::state();
                    Eigen::MatrixXd U(N, D);
                    for (int i = 0; i < N; ++i) { Eigen::Matrix<double, D, 1> p = X.row(i).transpose(); U.row(i) = (motions[k].A * p + motions[k].t * size - p).transpose(); }
                    auto F = callF<N, D, 0>(dN, U);
                    const double us = 1 + U.cwiseAbs().maxCoeff() * dN.cwiseAbs().maxCoeff();
                    mc::check(mc::maxdiff(F, motions[k].A) < 1e-11 * scale + 1e-13 * us, "affine-motion", nm, desc, " xi=", show(x), " motion ", k, " F=", mc::show(F), " want ", mc::show(motions[k].A));
                }
                // one node moved
                for (int i = 0; i < N; ++i) for (int a = 0; a < D; ++a) {
                    mc::state();
                    Eigen::MatrixXd U = Eigen::MatrixXd::Zero(N, D); U(i, a) = 0.75 * size;
                    Eigen::MatrixXd want = Eigen::MatrixXd::Identity(D, D); want.row(a) += 0.75 * size * dN.row(i);
                    auto F = callF<N, D, 0>(dN, U);
                    mc::check(mc::maxdiff(F, want) < 1e-12 * scale, "node-motion", nm, desc, " xi=", show(x), " node ", i, " axis ", a, " F=", mc::show(F), " want ", mc::show(want));
                }
            }
        }, 0.125, mc::thorough());
        mc::sample(nm, mc::str(pts.size(), " points, ", motions.size(), " affine motions and ", N * D, " single-node motions per configuration"));
    }
}
int main(int c, char **v) {
    return mc::run(c, v, [] {
#if SHARD <= 0
        bilinears<1>(); bilinears<2>(); bilinears<3>(); bilinears<4>(); bilinears<6>(); bilinears<8>(); bilinears<10>(); bilinears<20>();
#endif
        for_shard([](auto *p) { run_elem(p); });
        mc::bound("F", "all pairs of unit matrices for 1,2,3,4,6,8,10,20 nodes in 1D/2D/3D and both storage orders; affine and single-node motions of every full-dimensional element type");
    });
}
