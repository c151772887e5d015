// C26, parallel subdivision: the grid is the same under every schedule and number of threads, without data race.
#include "c26_grid.h"
#include "omp_model.h"
using namespace fg;
template <int D> void explore() {
    const bool more = mc::thorough(); unsigned long schedules = 0, accesses = 0; int regions = 0, capped = 0;
    for (int n = 1; n <= (more ? 7 : 5); ++n) for (int levels = 0; levels <= 2; ++levels) for (int threads = 1; threads <= (more ? 7 : 5); ++threads) for (int tri = 0; tri < (D == 3 ? 2 : 1); ++tri) {
        Conf<D> c; c.name = mc::str(n, " cells ", D, "D", tri ? " triangles" : " iso-surface"); c.levels = levels;
        for (int d = 0; d < D; ++d) { c.n[d] = d ? 1 : n; c.a[d] = d ? -2 : -n; c.b[d] = d ? 2 : n; }
        Scene<D> s; s.configure(c);
        P<TableIso<D>> iso(new TableIso<D>());
        std::unique_ptr<Tree<D>> t;
        if (tri) {
            if constexpr (D == 3) {
                using G = typename Scene<3>::G; using V = DTof<3>::T::Coord;
                // an octahedron as its box-like bounds: a plane across every cell, triangles in the plane z = 0.3 over the grid
                typename G::SofaVecCoord x; x.push_back(V(-n, -2, 0.3)); x.push_back(V(n, -2, 0.3)); x.push_back(V(n, 2, 0.3)); x.push_back(V(-n, 2, 0.3));
                sofa::type::vector<typename G::SofaTriangle> tr; tr.push_back({0u, 1u, 2u}); tr.push_back({0u, 2u, 3u});
                data<sofa::type::vector<typename G::SofaTriangle>>(*s.g, "surface_triangles").setValue(tr); data<typename G::SofaVecCoord>(*s.g, "surface_positions").setValue(x);
                t = std::make_unique<Tree<D>>(c, [](const Tree<D> &t, const std::array<int, D> &b, int size) { return t.pos(2, b[2]) < 0.3 && t.pos(2, b[2] + size) > 0.3 ? BND : UNDEF; });
            }
        } else {
            const int S = 1 << levels; size_t m = 1; iso->anchor = c.lo(); iso->unit = c.h();
            for (int d = 0; d < D; ++d) { iso->unit[d] /= S; iso->n[d] = c.n[d] * S + 1; m *= iso->n[d]; }
            iso->v.resize(m); for (size_t i = 0; i < m; ++i) iso->v[i] = (i * 7 + i / 3) % 5 < 3 ? -1 : (i % 11 ? 1 : 0);
            s.link(iso.get());
            t = std::make_unique<Tree<D>>(c, [&](const Tree<D> &t, const std::array<int, D> &b, int size) { return corners_type<D>(t, b, size, [&](const std::array<double, D> &x) { Eigen::Matrix<double, D, 1> p; for (int d = 0; d < D; ++d) p[d] = x[d]; return iso->iso_value(p); }); });
        }
        const std::string conf = mc::str(c.name, " levels ", levels, " threads ", threads);
        mc::crumb(conf);
        s.g->init(); // one plain run first: function-local statics are initialised
        const std::string who = mc::str(D, "D");
        auto o = omp_model::all_schedules(threads, more ? 2000 : 100, [&] { s.g->create_grid(); }, [&](const std::string &sch, int races, const char *rep, bool dead) {
            mc::crumb(mc::str(conf, " schedule ", sch));
            mc::check(!races, "race", who, conf, " schedule ", sch, ": ", rep);
            mc::check(!dead, "deadlock", who, conf, " schedule ", sch);
            if (!races && !dead) compare<D>(s, *t, mc::str("threads ", threads, " schedule ", sch));
            mc::state(); mc::trace(); mc::step(sch.size() + 1);
        });
        schedules += o.schedules; accesses += o.accesses; regions = std::max(regions, o.regions); capped += o.capped;
        mc::sample(c.name, mc::str(conf, ": ", o.schedules, " schedules, ", o.accesses, " shared accesses checked, ", o.regions, " parallel region(s)"));
    }
    mc::bound(mc::str("schedules ", D, "D"), mc::str(schedules, " schedules of 1..", more ? 7 : 5, " threads over 1..", more ? 7 : 5, " cells, levels 0..2; ", accesses, " shared accesses checked for races; ", capped, " stopped at the cap"));
}
int main(int argc, char **argv) { return mc::run(argc, argv, [] { if (SHARD == 2) explore<2>(); else explore<3>(); }); }
