// C03: world_coordinates is the interpolated map; local_coordinates inverts it to the documented tolerance.
#include "ref.h"
using namespace ref;

template <class E> void run_elem(E *) {
    const Elem &e = Info<E>::e();
    const std::string nm = Info<E>::name();
    constexpr int N = g::traits<E>::NumberOfNodesAtCompileTime, D = g::traits<E>::Dimension, C = g::traits<E>::CanonicalDimension;
    auto pts = lattice(e, e.dim == 1 ? 16 : e.dim == 2 ? (mc::thorough() ? 12 : 4) : (mc::thorough() ? 4 : 2), 0);
    if (e.simplex()) pts = lattice(e, e.dim == 2 ? (mc::thorough() ? 16 : 8) : (mc::thorough() ? 8 : 4), 0);
    std::vector<V3> in; for (auto &x : pts) if (e.margin(x) >= -1e-12L) in.push_back(x);
    for (auto &n : e.nodes) in.push_back(n);
    in.push_back(e.centroid());
    configurations<E>([&](const Eigen::MatrixXd &n, const std::string &desc, bool affine) {
        mc::trace(); mc::crumb(desc);
        E m = build<E>(n);
        Eigen::MatrixXd nodes = n;
        if (Info<E>::rect) { Eigen::Matrix<double, N, D> t = m.nodes(); nodes = t; affine = true; }
        const double scale = nodes.cwiseAbs().maxCoeff();
        double size = 1e300; for (long i = 1; i < N; ++i) size = std::min(size, (nodes.row(i) - nodes.row(0)).norm());
        const double cond = std::max(1., scale / size);
        for (long i = 0; i < N; ++i) {
            auto w = m.world_coordinates(loc<E>(e.nodes[i])); auto nd = m.node(i); mc::step(2);
            for (int d = 0; d < D; ++d) {
                mc::check(mc::near(nd[d], nodes(i, d), 1e-12 * scale), "node-position", nm, desc, " node ", i, " got ", nd[d], " want ", nodes(i, d));
                mc::check(mc::near(w[d], nodes(i, d), 1e-11 * scale), "node-image", nm, desc, " node ", i, " got ", w[d], " want ", nodes(i, d));
            }
        }
        {
            auto c = m.center(); auto w = world(e, nodes, e.centroid()); mc::step();
            for (int d = 0; d < D; ++d) mc::check(mc::near(c[d], (double)w[d], 1e-11 * scale), "center", nm, desc, " got ", c[d], " want ", (double)w[d]);
        }
        for (const auto &x : in) {
            mc::state();
            auto xi = loc<E>(x);
            auto w = m.world_coordinates(xi); mc::step();
            auto wr = world(e, nodes, x);
            typename E::WorldCoordinates target;
            for (int d = 0; d < D; ++d) {
                mc::check(mc::near(w[d], (double)wr[d], 1e-11 * scale), "world", nm, desc, " xi=", show(x), " got ", w[d], " want ", (double)wr[d]);
                target[d] = (double)wr[d];
            }
            auto l = m.local_coordinates(target); mc::step();
            V3 lx{0, 0, 0}; for (int k = 0; k < C; ++k) lx[k] = (LD)l[k];
            auto back = world(e, nodes, lx);
            auto start = world(e, nodes, V3{0, 0, 0});
            double r = 0, r0 = 0; for (int d = 0; d < D; ++d) { r += (double)((back[d] - wr[d]) * (back[d] - wr[d])); r0 += (double)((start[d] - wr[d]) * (start[d] - wr[d])); }
            r = std::sqrt(r); r0 = std::sqrt(r0);
            bool finite = true; for (int k = 0; k < C; ++k) finite = finite && std::isfinite(l[k]);
            mc::check(finite && r <= 1.1e-5 * std::max(r0, size) + 1e-13 * scale, "round-trip-world", nm, desc, " xi=", show(x), " found ", show(lx), " residual ", r, " initial ", r0);
            // the preimage inside the element is the requested one (bounded distortion: local error comparable with the residual)
            double le = 0; for (int k = 0; k < C; ++k) le = std::max(le, std::fabs((double)(lx[k] - (LD)xi[k])));
            mc::check(le <= (affine ? 2e-5 + 1e-10 * cond : 5e-4), "round-trip-local", nm, desc, " xi=", show(x), " found ", show(lx), " local error ", le);
            if (affine) mc::check(le <= 1e-11 * cond, "round-trip-affine-exact", nm, desc, " xi=", show(x), " found ", show(lx), " local error ", le);
            if constexpr (Info<E>::kind != HEX || !Info<E>::rect) {
                // caller-chosen tolerance and starting point
                auto l2 = m.local_coordinates(target, loc<E>(e.centroid()), 1e-12, 30); mc::step();
                double le2 = 0; for (int k = 0; k < C; ++k) le2 = std::max(le2, std::fabs(l2[k] - xi[k]));
                mc::check(le2 <= 1e-9 * cond, "tight-tolerance", nm, desc, " xi=", show(x), " got ", mc::show(l2.transpose()), " error ", le2);
                auto l3 = m.local_coordinates(target, xi, 1e-5, 5); mc::step();
                double le3 = 0; for (int k = 0; k < C; ++k) le3 = std::max(le3, std::fabs(l3[k] - xi[k]));
                mc::check(le3 <= 1e-4, "start-at-solution", nm, desc, " xi=", show(x), " error ", le3);
            }
        }
        // an affine element is invertible everywhere: points far outside of it (of an embedded element: of its line or plane)
        if (affine) for (int k = 0; k < C; ++k) for (double far : {-300., 7., 300., 5000.}) {
            mc::state(); V3 x = e.centroid(); x[k] = far; typename E::WorldCoordinates target; const auto w0 = world(e, nodes, e.centroid()); V3 y = e.centroid(); y[k] += 0.25; const auto w1 = world(e, nodes, y);
            for (int d = 0; d < D; ++d) target[d] = (double)(w0[d] + (w1[d] - w0[d]) * 4 * (far - e.centroid()[k]));
            const auto l = m.local_coordinates(target); mc::step(); double le = 0; for (int q = 0; q < C; ++q) le = std::max(le, std::fabs((double)((LD)l[q] - x[q])));
            mc::check(le <= 1e-6 * cond * std::fabs(far), "far-point", nm, desc, " xi=", show(x), " got ", mc::show(l.transpose()), " error ", le);
        }
    }, e.simplex() ? 1.0 / 32 : 1.0 / 8);
    mc::sample(nm, mc::str(in.size(), " points of the closed element per configuration"));
    mc::bound("distortion", "affine images and single-node displacement of 1/8 (segments, quads, hexahedra: reference edge 2) or 1/32 (simplices: reference edge 1)");
}
int main(int c, char **v) { return mc::run(c, v, [] { for_shard([](auto *p) { run_elem(p); }); }); }
