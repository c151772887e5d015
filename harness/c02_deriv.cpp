// C02: shape function derivatives and jacobians are the derivatives of the (reference) interpolation.
#include "ref.h"
using namespace ref;

template <class E> void run_elem(E *) {
    const Elem &e = Info<E>::e();
    const std::string nm = Info<E>::name();
    constexpr int N = g::traits<E>::NumberOfNodesAtCompileTime, D = g::traits<E>::Dimension, C = g::traits<E>::CanonicalDimension;
    const E el;
    mc::crumb(nm);
    int q = e.dim == 1 ? 64 : e.dim == 2 ? (mc::thorough() ? 64 : 16) : (mc::thorough() ? 16 : 8);
    auto pts = lattice(e, q, 0.25);
    auto p3 = lattice(e, e.dim == 3 ? 3 : 7, 0.0);
    pts.insert(pts.end(), p3.begin(), p3.end());
    for (auto &n : e.nodes) pts.push_back(n);
    mc::trace();
    for (const auto &x : pts) {
        mc::state();
        const Eigen::Matrix<double, N, C> d = el.dL(loc<E>(x)); mc::step();
        auto R = e.dL(x);
        for (int k = 0; k < C; ++k) {
            double sum = 0;
            for (int i = 0; i < N; ++i) {
                sum += d(i, k);
                mc::check(mc::near(d(i, k), (double)R[i][k], 1e-11), "dL", nm + ":node" + std::to_string(i) + ":axis" + std::to_string(k), "xi=", show(x), " got ", d(i, k), " want ", (double)R[i][k]);
            }
            mc::check(mc::near(sum, 0, 1e-11), "dL-sum", nm, "xi=", show(x), " sum ", sum);
        }
    }
    auto cp = lattice(e, e.dim == 1 ? 8 : 2, 0);
    if (mc::thorough()) { auto more = lattice(e, e.dim == 1 ? 32 : e.dim == 2 ? 5 : 4, 0); cp.insert(cp.end(), more.begin(), more.end()); }
    configurations<E>([&](const Eigen::MatrixXd &n, const std::string &desc, bool) {
        mc::trace(); mc::crumb(desc);
        E m = build<E>(n);
        Eigen::MatrixXd nodes = n;
        if (Info<E>::rect) { Eigen::Matrix<double, N, D> t = m.nodes(); nodes = t; }
        const double scale = nodes.cwiseAbs().maxCoeff();
        for (const auto &x : cp) {
            mc::state();
            const Eigen::Matrix<double, D, C> J = m.jacobian(loc<E>(x)); mc::step();
            const Eigen::Matrix<double, N, C> d = m.dL(loc<E>(x)); mc::step();
            auto R = e.dL(x);
            for (int i = 0; i < N; ++i) for (int k = 0; k < C; ++k)
                mc::check(mc::near(d(i, k), (double)R[i][k], 1e-11), "dL-moved", nm + ":node" + std::to_string(i), desc, " xi=", show(x), " got ", d(i, k), " want ", (double)R[i][k]);
            for (int r = 0; r < D; ++r) for (int k = 0; k < C; ++k) {
                LD w = 0; for (int i = 0; i < N; ++i) w += R[i][k] * (LD)nodes(i, r);
                mc::check(mc::near(J(r, k), (double)w, 1e-11 * scale), "jacobian", nm, desc, " xi=", show(x), " J(", r, ",", k, ")=", J(r, k), " want ", (double)w);
            }
            // directional difference of the code's own world map (exact for quadratic maps up to rounding: central difference)
            for (int k = 0; k < C; ++k) {
                auto a = loc<E>(x), b = loc<E>(x); const double h = 1.0 / 64; a[k] -= h; b[k] += h;
                auto wa = m.world_coordinates(a), wb = m.world_coordinates(b); mc::step(2);
                for (int r = 0; r < D; ++r) mc::check(mc::near((wb[r] - wa[r]) / (2 * h), J(r, k), 1e-9 * scale), "jacobian-vs-world-map", nm, desc, " xi=", show(x), " axis ", k, " difference ", (wb[r] - wa[r]) / (2 * h), " J ", J(r, k));
            }
        }
    }, 0.125);
    mc::sample(nm, mc::str(pts.size(), " points for dL, ", cp.size(), " points per configuration for the jacobian"));
    mc::bound("lattice", "step 1/64 (1D), 1/16 (2D), 1/8 (3D) over the reference domain enlarged by 1/4, plus thirds/sevenths and nodes; jacobian on affine images (identity, scale, anisotropic, rotations, shear) and on every single-node displacement of 1/8");
}
int main(int c, char **v) { return mc::run(c, v, [] { for_shard([](auto *p) { run_elem(p); }); }); }
