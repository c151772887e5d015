// C01: shape functions are the nodal basis of the documented polynomial space; interpolation reproduces that space.
#include "ref.h"
using namespace ref;

template <class E> void run_elem(E *) {
    const Elem &e = Info<E>::e();
    const std::string nm = Info<E>::name();
    constexpr int N = g::traits<E>::NumberOfNodesAtCompileTime;
    const E el; // default constructed element
    mc::crumb(nm);
    mc::check(el.number_of_nodes() == e.nodes.size(), "node-count", nm, el.number_of_nodes());
    int q = e.dim == 1 ? 64 : e.dim == 2 ? 16 : (mc::thorough() ? 16 : 8);
    if (mc::thorough() && e.dim == 2) q = 64;
    auto pts = lattice(e, q, 0.25);
    // non dyadic points as well
    auto pts3 = lattice(e, e.dim == 3 ? 3 : 7, 0.0);
    pts.insert(pts.end(), pts3.begin(), pts3.end());
    for (auto &n : e.nodes) pts.push_back(n);
    mc::trace();
    for (const auto &x : pts) {
        mc::state();
        auto xi = loc<E>(x);
        V3 xd{(LD)xi[0], e.dim > 1 ? (LD)xi[e.dim > 1 ? 1 : 0] : 0, e.dim > 2 ? (LD)xi[e.dim > 2 ? 2 : 0] : 0};
        const Eigen::Matrix<double, N, 1> L = el.L(xi); mc::step();
        auto R = e.L(xd);
        double sum = 0;
        for (int i = 0; i < N; ++i) {
            mc::check(mc::near(L[i], (double)R[i], 1e-11), "L", nm + ":node" + std::to_string(i), "xi=", show(xd), " got ", L[i], " want ", (double)R[i]);
            sum += L[i];
        }
        mc::check(mc::near(sum, 1, 1e-12), "partition-of-unity", nm, "xi=", show(xd), " sum ", sum);
        // interpolation of every monomial, one column per monomial (fixed, dynamic and float columns)
        Eigen::Matrix<double, N, N> val; Eigen::Matrix<double, N, 1> col; Eigen::Matrix<float, N, 2> fv; Eigen::Matrix<double, N, Eigen::Dynamic> dyn(N, 2);
        for (int m = 0; m < N; ++m) for (int i = 0; i < N; ++i) val(i, m) = (double)e.monoval(m, e.nodes[i]);
        col = val.col(N - 1); fv = val.template rightCols<2>().template cast<float>(); dyn = val.template rightCols<2>();
        auto r = el.interpolate(xi, val); mc::step();
        for (int m = 0; m < N; ++m) mc::check(mc::near(r[m], (double)e.monoval(m, xd), 1e-11), "interpolate-monomial", nm + ":mono" + std::to_string(m), "xi=", show(xd), " got ", r[m]);
        double s = el.interpolate(xi, col); mc::step();
        mc::check(mc::near(s, (double)e.monoval(N - 1, xd), 1e-11), "interpolate-scalar", nm, "xi=", show(xd), " got ", s);
        auto rf = el.interpolate(xi, fv); auto rd = el.interpolate(xi, dyn); mc::step(2);
        mc::check(rf.size() == 2 && rd.size() == 2, "interpolate-size", nm, rf.size());
        for (int k = 0; k < 2; ++k) {
            mc::check(mc::near(rf(k), (double)e.monoval(N - 2 + k, xd), 2e-4), "interpolate-float", nm, "xi=", show(xd), " got ", rf(k));
            mc::check(mc::near(rd(k), (double)e.monoval(N - 2 + k, xd), 1e-11), "interpolate-dynamic", nm, "xi=", show(xd), " got ", rd(k));
        }
    }
    // Shape functions do not depend on the position of the nodes: same values on moved elements
    configurations<E>([&](const Eigen::MatrixXd &nodes, const std::string &d, bool) {
        mc::trace();
        mc::crumb(d);
        E m = build<E>(nodes);
        for (const auto &x : lattice(e, 2, 0)) {
            mc::state();
            auto L = m.L(loc<E>(x)); mc::step();
            auto R = e.L(x);
            for (int i = 0; i < N; ++i) mc::check(mc::near(L[i], (double)R[i], 1e-11), "L-moved", nm + ":node" + std::to_string(i), d, " xi=", show(x), " got ", L[i], " want ", (double)R[i]);
        }
    }, 0.125);
    mc::sample(nm, mc::str(pts.size(), " reference points, ", N, " nodes, e.g. L", show(pts[pts.size() / 2]), "=", mc::show(el.L(loc<E>(pts[pts.size() / 2])).transpose())));
    mc::bound("lattice", "reference domain enlarged by 1/4, step 1/64 (1D), 1/16 (2D), 1/8 (3D), plus thirds/sevenths and all nodes; thorough 1/64 and 1/16");
}
int main(int c, char **v) { return mc::run(c, v, [] { for_shard([](auto *p) { run_elem(p); }); }); }
