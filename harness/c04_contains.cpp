// C04: containment in local coordinates is membership of the closed reference domain grown by the tolerance.
#include "ref.h"
using namespace ref;

template <class E> void run_elem(E *) {
    const Elem &e = Info<E>::e();
    const std::string nm = Info<E>::name();
    const E el;
    mc::crumb(nm); mc::trace();
    int q = e.dim == 1 ? 64 : e.dim == 2 ? (mc::thorough() ? 64 : 16) : (mc::thorough() ? 16 : 8);
    if (!e.simplex() && e.dim == 3) q = mc::thorough() ? 16 : 6;
    auto pts = lattice(e, q, 0.5);
    // points at every offset pattern around the faces, edges and corners of the domain
    std::vector<double> offs = {-1e-3, -1e-8, -1e-11, 0, 1e-11, 1e-8, 1e-3};
    std::vector<double> bases = e.simplex() ? std::vector<double>{0, 1.0 / 3, 0.5, 1} : std::vector<double>{-1, 0, 1};
    std::vector<int> rad(e.dim, (int)(bases.size() * offs.size()));
    mc::product(rad, [&](const std::vector<int> &d) { V3 x{0, 0, 0}; for (int k = 0; k < e.dim; ++k) x[k] = (LD)(bases[d[k] / offs.size()] + offs[d[k] % offs.size()]); pts.push_back(x); });
    std::vector<double> eps = {1e-10, 1e-6, 1e-2, 0.25};
    for (const auto &x : pts) {
        mc::state();
        auto xi = loc<E>(x);
        LD m = e.margin(x);
        bool d = el.contains_local(xi); mc::step();
        if (m > 1e-12L) mc::check(d, "inside", nm, "xi=", show(x), " margin ", (double)m, " reported outside");
        else if (m > -2e-11L) mc::check(d, "boundary", nm, "xi=", show(x), " margin ", (double)m, " reported outside with the default tolerance");
        else if (m < -3e-10L) mc::check(!d, "outside", nm, "xi=", show(x), " margin ", (double)m, " reported inside");
        for (double ep : eps) {
            bool c = el.contains_local(xi, ep); mc::step();
            LD slack = m + ep;
            if (slack > 1e-11L) mc::check(c, "eps-inside", nm, "xi=", show(x), " eps ", ep, " margin ", (double)m, " reported outside");
            else if (slack < -1e-11L && slack < -1e-6L * ep) mc::check(!c, "eps-outside", nm, "xi=", show(x), " eps ", ep, " margin ", (double)m, " reported inside");
        }
        bool z = el.contains_local(xi, 0.); mc::step();
        if (m > 1e-14L) mc::check(z, "zero-eps-inside", nm, "xi=", show(x));
        if (m < -1e-14L) mc::check(!z, "zero-eps-outside", nm, "xi=", show(x));
    }
    // every node, centre and quadrature point of an element belongs to it; containment ignores where the element lies
    configurations<E>([&](const Eigen::MatrixXd &n, const std::string &desc, bool) {
        mc::trace(); mc::crumb(desc);
        E m = build<E>(n);
        for (auto &x : e.nodes) { mc::state(); mc::step(); mc::check(m.contains_local(loc<E>(x)), "node-inside", nm, desc, " node ", show(x)); }
        mc::check(m.contains_local(loc<E>(e.centroid())), "centre-inside", nm, desc);
        for (auto &gn : m.gauss_nodes()) { mc::state(); mc::step(); mc::check(m.contains_local(gn.position), "gauss-inside", nm, desc, " ", mc::show(gn.position.transpose())); }
        if constexpr (Info<E>::rect && Info<E>::kind == HEX) {
            for (auto &x : lattice(e, 4, 0.5)) {
                LD mg = e.margin(x); if (fabsl(mg) < 1e-6L) continue;
                mc::state(); mc::step();
                auto w = m.world_coordinates(loc<E>(x));
                mc::check(m.contains(w) == (mg > 0), "contains-world", nm, desc, " xi=", show(x), " margin ", (double)mg);
            }
        }
    }, 0.125, false);
    mc::sample(nm, mc::str(pts.size(), " points, tolerances 0, 1e-10, 1e-6, 1e-2, 0.25"));
    mc::bound("points", "lattice over the reference domain enlarged by 1/2 plus all combinations of {0,±1e-11,±1e-8,±1e-3} offsets from faces, edges, corners; points closer to the tolerance boundary than rounding are not judged");
}
int main(int c, char **v) { return mc::run(c, v, [] { for_shard([](auto *p) { run_elem(p); }); }); }
