// C26: the fictitious grid classifies, subdivides, integrates and indexes its cells as the surface says.
#include "c26_grid.h"
#include <SofaBaseTopology/MeshTopology.h>
using namespace fg;
static int part() { static int p = getenv("MC_PART") ? atoi(getenv("MC_PART")) : 0; return p; }
static int parts() { static int p = getenv("MC_PARTS") ? atoi(getenv("MC_PARTS")) : 1; return p; }
static long counter = 0;
static long stride = 1; // the build with sanitizers explores one configuration in so many
static bool mine() { const long k = counter++; return k % stride == 0 && (k / stride) % parts() == part(); }
template <int D> Tree<D> iso_tree(const Conf<D> &c, const std::function<double(const std::array<double, D> &)> &f) {
    return Tree<D>(c, [&f](const Tree<D> &t, const std::array<int, D> &b, int size) { return corners_type<D>(t, b, size, f); });
}
template <int D> void guarded(Scene<D> &s, bool init, const std::string &conf) {
    try { if (init) s.g->init(); else s.g->create_grid(); } catch (const std::exception &e) { mc::check(false, "throws", mc::str(D, "D"), conf, " ", e.what()); }
}
// --- surfaces given by a sign at every node of the finest lattice
template <int D> struct Tables {
    Conf<D> c; P<TableIso<D>> iso{new TableIso<D>()}; Scene<D> s; long runs = 0; std::array<int, D> m;
    Tables(const Conf<D> &c) : c(c) {
        const int S = 1 << c.levels; size_t n = 1;
        iso->anchor = c.lo(); iso->unit = c.h();
        for (int d = 0; d < D; ++d) { iso->unit[d] /= S; iso->n[d] = m[d] = c.n[d] * S + 1; n *= m[d]; }
        iso->v.assign(n, 1); s.link(iso.get()); s.configure(c);
    }
    void go() {
        const std::string conf = mc::str(c.name, " signs "); std::string g; for (auto v : iso->v) g += v < 0 ? '-' : v > 0 ? '+' : '0';
        mc::crumb(conf + g);
        guarded(s, runs == 0, conf + g);
        ++runs;
        Tree<D> t = iso_tree<D>(c, [&](const std::array<double, D> &x) { Eigen::Matrix<double, D, 1> p; for (int d = 0; d < D; ++d) p[d] = x[d]; return iso->iso_value(p); });
        compare<D>(s, t, "signs " + g);
        mc::sample(c.name, mc::str("signs ", g, ": ", t.leaf.size(), " leaves, ", s.g->number_of_cells(), " sparse cells, ", s.g->number_of_nodes(), " nodes"));
        mc::state(); mc::trace();
    }
    void all(int values) { // 2: inside/outside, 3: also exactly on the surface
        std::vector<int> radix(iso->v.size(), values);
        mc::product(radix, [&](const std::vector<int> &q) { if (!mine()) return; for (size_t i = 0; i < q.size(); ++i) iso->v[i] = q[i] == 0 ? 1 : q[i] == 1 ? -1 : 0; go(); });
        mc::bound(c.name, mc::str("all ", values, "^", iso->v.size(), " sign assignments"));
    }
    void flips(int depth, const std::vector<int> &values) { // a uniform sign except at up to `depth` nodes
        const int n = int(iso->v.size());
        for (int base = -1; base <= 1; ++base) {
            iso->v.assign(n, base);
            std::function<void(int, int)> rec = [&](int from, int left) {
                if (mine()) go();
                if (!left) return;
                for (int i = from; i < n; ++i) for (int v : values) if (v != base) { iso->v[i] = v; rec(i + 1, left - 1); iso->v[i] = base; }
            };
            rec(0, depth);
        }
        mc::bound(c.name, mc::str("every surface whose sign differs from a uniform one at up to ", depth, " of ", n, " lattice nodes"));
    }
};
// --- the surfaces of the library, any level
template <int D> std::vector<Conf<D>> grids() {
    std::vector<Conf<D>> r;
    if constexpr (D == 2) r = {{"2x2", {-2, -2}, {2, 2}, {2, 2}}, {"3x2", {1, 2}, {-2, -1}, {3, 2}}, {"4x1", {-1, 0.5}, {1, -0.5}, {4, 1}}, {"1x3", {0, -1.5}, {0.5, 1.5}, {1, 3}}};
    else r = {{"2x2x2", {-2, -2, -2}, {2, 2, 2}, {2, 2, 2}}, {"3x1x2", {1, -0.5, 2}, {-2, 0.5, -1}, {3, 1, 2}}, {"1x2x1", {0, -1, 0.25}, {0.5, 1, -0.25}, {1, 2, 1}}};
    return r;
}
template <int D> void library() {
    const bool more = mc::thorough();
    const std::vector<double> radii = more ? std::vector<double>{0.25, 0.5, 0.75, 1, 1.25, 1.5, 2, 3, 8} : std::vector<double>{0.5, 1, 1.25, 2, 8};
    const std::vector<double> cs = more ? std::vector<double>{-1, -0.5, 0, 0.375, 1.5} : std::vector<double>{-0.5, 0, 0.375};
    std::map<std::string, std::unique_ptr<Scene<D>>> reused; // one component goes through the whole history of configurations
    long n = 0;
    for (int kind = 0; kind < (D == 2 ? 1 : 2); ++kind) for (double r : radii) mc::product(std::vector<int>(D, int(cs.size())), [&](const std::vector<int> &q) {
        std::array<double, D> o; for (int d = 0; d < D; ++d) o[d] = cs[q[d]];
        P<st::IsoSurface<typename DTof<D>::T>> iso;
        typename DTof<D>::T::Coord oc; for (int d = 0; d < D; ++d) oc[d] = o[d];
        auto set = [&](auto *p) { data<double>(*p, "radius").setValue(r); data<typename DTof<D>::T::Coord>(*p, "center").setValue(oc); iso = P<st::IsoSurface<typename DTof<D>::T>>(p); };
        if constexpr (D == 2) set(new st::CircleIsoSurface());
        else if (kind == 0) set(new st::SphereIsoSurface()); else set(new st::CylinderIsoSurface());
        auto f = [&](const std::array<double, D> &x) { double s = 0; for (int d = 0; d < (kind ? 2 : D); ++d) s += (x[d] - o[d]) * (x[d] - o[d]); return s - r * r; };
        for (auto c : grids<D>()) for (int levels = 0; levels <= (D == 2 ? more ? 4 : 3 : more ? 3 : 2); ++levels) for (double th : {0., 0.3, 1.}) {
            if (th > 0 && levels == 0 && th < 1) continue;
            if (th > 0 && !more && levels == (D == 2 ? 3 : 2) && th == 1.) continue;
            if (!mine()) continue;
            c.levels = levels; c.threshold = th;
            Conf<D> named = c; named.name = mc::str(c.name, kind ? " cylinder" : D == 2 ? " circle" : " sphere", " r=", r, " o=", o[0], ",", o[1]);
            mc::crumb(mc::str(named.name, " levels ", levels, " threshold ", th));
            const Tree<D> t = iso_tree<D>(named, f);
            auto &old = reused[levels % 2 ? "a" : "b"]; if (!old) old = std::make_unique<Scene<D>>();
            old->link(iso.get()); old->configure(c); guarded(*old, n % 2, named.name); compare<D>(*old, t, "grid created again");
            Scene<D> s; s.configure(c);
            if (n % 3 == 0) { s.node->addObject(iso); } else s.link(iso.get()); // found in the context, or given
            guarded(s, true, named.name); compare<D>(s, t, n % 3 ? "new grid" : "surface found in the context");
            ++n; mc::state(2); mc::trace(2);
        }
    });
    // values of the surfaces themselves
    for (double r : radii) for (double x = -2; x <= 2; x += 0.5) for (double y = -2; y <= 2; y += 0.5) {
        if constexpr (D == 2) {
            P<st::CircleIsoSurface> c(new st::CircleIsoSurface()); data<double>(*c, "radius").setValue(r);
            const double w = x * x + y * y - r * r, v = c->iso_value(Eigen::Vector2d(x, y));
            mc::check((v > 0) == (w > 0) && (v < 0) == (w < 0), "iso-sign", "circle", "r ", r, " at ", x, ",", y);
            const st::IsoSurface<typename DTof<2>::T> &b = *c; typename DTof<2>::T::Coord p(x, y);
            mc::check(b.iso_value(p) == v, "iso-of-coord", "circle", "r ", r, " at ", x, ",", y);
        } else for (double z : {-1., 0., 0.5}) {
            P<st::SphereIsoSurface> c(new st::SphereIsoSurface()); data<double>(*c, "radius").setValue(r);
            const double w = x * x + y * y + z * z - r * r, v = c->iso_value(Eigen::Vector3d(x, y, z));
            mc::check((v > 0) == (w > 0) && (v < 0) == (w < 0), "iso-sign", "sphere", "r ", r, " at ", x, ",", y, ",", z);
            const st::IsoSurface<typename DTof<3>::T> &b = *c; typename DTof<3>::T::Coord p(x, y, z);
            mc::check(b.iso_value(p) == v, "iso-of-coord", "sphere", "r ", r, " at ", x, ",", y);
        }
        mc::state();
    }
    mc::bound(mc::str("library surfaces ", D, "D part ", part()), mc::str(n, " configurations, each on a new grid and on one that was created before; levels up to ", D == 2 ? more ? 4 : 3 : more ? 3 : 2));
}
// --- triangulated surfaces
using V = Eigen::Vector3d;
static double separation(const V &lo, const V &hi, const V *p) { // > 0: disjoint by that much, < 0: overlapping (separating axes)
    const V c = (lo + hi) / 2, h = (hi - lo) / 2; double best = -1e300;
    auto axis = [&](V n) {
        const double l = n.norm(); if (l < 1e-12) return; n /= l;
        double a = 1e300, b = -1e300; for (int i = 0; i < 3; ++i) { const double q = n.dot(p[i] - c); a = std::min(a, q); b = std::max(b, q); }
        const double r = h[0] * std::fabs(n[0]) + h[1] * std::fabs(n[1]) + h[2] * std::fabs(n[2]);
        best = std::max(best, std::max(a - r, -b - r));
    };
    for (int d = 0; d < 3; ++d) axis(V::Unit(d));
    axis((p[1] - p[0]).cross(p[2] - p[0]));
    for (int d = 0; d < 3; ++d) for (int i = 0; i < 3; ++i) axis(V::Unit(d).cross(p[(i + 1) % 3] - p[i]));
    return best;
}
struct Surface { std::string name; std::vector<V> x; std::vector<std::array<int, 3>> t; };
static std::vector<Surface> solids() {
    std::vector<Surface> r;
    Surface box{"box", {}, {}};
    for (int k = 0; k < 8; ++k) box.x.push_back(V(k & 1 ? 1 : -1, k & 2 ? 1 : -1, k & 4 ? 1 : -1));
    for (int d = 0; d < 3; ++d) for (int s = 0; s < 2; ++s) { const int a = 1 << d, u = 1 << (d + 1) % 3, v = 1 << (d + 2) % 3, o = s * a; box.t.push_back({o, o + u, o + u + v}); box.t.push_back({o, o + u + v, o + v}); }
    r.push_back(box);
    r.push_back({"tetrahedron", {V(-1, -0.9, -0.8), V(1.1, -0.7, -0.9), V(-0.6, 1.2, -0.7), V(-0.5, -0.4, 1.3)}, {{0, 1, 2}, {0, 1, 3}, {1, 2, 3}, {0, 2, 3}}});
    Surface oct{"octahedron", {V(1, 0.1, 0), V(-1.1, 0, 0.05), V(0, 1.2, 0.1), V(0.1, -0.9, 0), V(0, 0.05, 1.3), V(0.05, 0, -0.8)}, {}};
    for (int k = 0; k < 8; ++k) oct.t.push_back({k & 1, 2 + (k >> 1 & 1), 4 + (k >> 2)});
    r.push_back(oct);
    Surface two{"two boxes", {}, {}}; // a box within a box: the shell is inside, so is the core (flooding from the outside)
    for (double f : {1., 0.4}) { const int o = int(two.x.size()); for (auto &p : box.x) two.x.push_back(p * f); for (auto t : box.t) two.t.push_back({t[0] + o, t[1] + o, t[2] + o}); }
    r.push_back(two);
    Surface open = box; open.name = "open box"; open.t.resize(10); r.push_back(open); // a side is missing
    return r;
}
static long skipped = 0;
static void triangles() {
    const bool more = mc::thorough();
    using DT = DTof<3>::T; using G = Scene<3>::G;
    std::vector<Conf<3>> gs = {{"4x4x4", {-2, -2, -2}, {2, 2, 2}, {4, 4, 4}}, {"5x3x4", {2.5, -2.25, -2}, {-2.5, 2.25, 2}, {5, 3, 4}}, {"1x1x2", {-2, -2, -2}, {2, 2, 2}, {1, 1, 2}}, {"6x6x6", {-3, -3, -3}, {3, 3, 3}, {6, 6, 6}}};
    Scene<3> reused; long n = 0;
    for (auto &so : solids()) for (double scale : {0.13, 0.52, 1.03, 1.37}) for (int off = 0; off < (more ? 8 : 3); ++off) for (int order = 0; order < 2; ++order) for (auto c : gs) for (int levels = 0; levels <= (more ? 3 : 2); ++levels) for (double th : {0., 0.4}) {
        if (th > 0 && levels == 0) continue;
        if (c.n[0] == 6 && levels > (more ? 1 : 0)) continue;
        if (c.n[0] == 5 && levels > (more ? 2 : 1)) continue;
        if (levels == 2 && !more && (order || th > 0)) continue;
        if (levels == 3 && (order || c.n[0] > 2)) continue;
        if (!mine()) continue;
        const V o(0.0371 + 0.113 * off, -0.0219 * (1 + off), 0.0453 - 0.071 * off);
        DT::VecCoord x; std::vector<V> xs;
        for (auto &p : so.x) { const V q = p * scale + o; xs.push_back(q); x.push_back(DT::Coord(q[0], q[1], q[2])); }
        bool fits = true; for (auto &q : xs) for (int d = 0; d < 3; ++d) fits = fits && std::fabs(q[d]) < 1.99;
        if (!fits) { ++skipped; continue; }
        sofa::type::vector<G::SofaTriangle> tr;
        for (size_t i = 0; i < so.t.size(); ++i) { auto t = so.t[order ? so.t.size() - 1 - i : i]; if (order) std::swap(t[0], t[2]); tr.push_back(G::SofaTriangle(t[0], t[1], t[2])); }
        c.levels = levels; c.threshold = th; Conf<3> named = c; named.name = mc::str(c.name, " ", so.name, " scale ", scale, " offset ", off);
        mc::crumb(mc::str(named.name, " levels ", levels, " threshold ", th));
        double clearance = 1e300;
        const Tree<3> t(named, [&](const Tree<3> &t, const std::array<int, 3> &b, int size) {
            const V lo(t.pos(0, b[0]), t.pos(1, b[1]), t.pos(2, b[2])), hi(t.pos(0, b[0] + size), t.pos(1, b[1] + size), t.pos(2, b[2] + size));
            bool hit = false;
            for (auto &k : so.t) { const V p[3] = {xs[k[0]], xs[k[1]], xs[k[2]]}; const double s = separation(lo, hi, p); clearance = std::min(clearance, std::fabs(s)); hit = hit || s < 0; }
            return hit ? BND : UNDEF;
        });
        if (clearance < 1e-7) { ++skipped; continue; } // a triangle that only touches a cell: either answer would do
        auto give = [&](Scene<3> &s) { data<sofa::type::vector<G::SofaTriangle>>(*s.g, "surface_triangles").setValue(tr); data<G::SofaVecCoord>(*s.g, "surface_positions").setValue(x); };
        give(reused); reused.configure(c); guarded(reused, n % 2, named.name); compare<3>(reused, t, "grid created again");
        Scene<3> s; s.configure(c); give(s);
        guarded(s, true, named.name); compare<3>(s, t, "new grid");
        mc::sample(so.name, mc::str(named.name, " levels ", levels, ": ", t.leaf.size(), " leaves, ", s.g->number_of_cells(), " sparse cells"));
        ++n; mc::state(2); mc::trace(2);
    }
    mc::bound(mc::str("triangulated surfaces part ", part()), mc::str(n, " configurations (", skipped, " left out: outside of the grid or only touching a cell)"));
}
int main(int argc, char **argv) {
    return mc::run(argc, argv, [] {
        const bool more = mc::thorough();
#if SHARD == 0
        Tables<2>({"signs 2x2", {-1, -2}, {1, 2}, {2, 2}, 0}).all(3);
        Tables<2>({"signs 1x1 divided", {3, 3}, {1, 1}, {1, 1}, 1}).all(3);
        if (more) Tables<2>({"signs 3x2", {0, 0}, {3, 2}, {3, 2}, 0}).all(3); else Tables<2>({"signs 3x2", {0, 0}, {3, 2}, {3, 2}, 0}).all(2);
        { Conf<2> c{"signs 2x1 divided", {0, 0}, {2, 1}, {2, 1}, 1}; c.threshold = 0.25; Tables<2>(c).all(2); }
        Tables<2>({"signs 1x2 divided twice", {0, 0}, {2, 1}, {1, 2}, 2}).flips(more ? 3 : 2, {-1, 1});
#elif SHARD == 1
        if (more) Tables<3>({"signs 2x1x1", {0, 0, 0}, {2, 1, 1}, {2, 1, 1}, 0}).all(3); else Tables<3>({"signs 2x1x1", {0, 0, 0}, {2, 1, 1}, {2, 1, 1}, 0}).all(2);
        Tables<3>({"signs 1x1x2 divided", {0, 0, 0}, {1, 1, 2}, {1, 1, 2}, 1}).flips(more ? 3 : 2, {-1, 1});
        Tables<3>({"signs 2x1x2", {0, 0, 0}, {2, 1, 2}, {2, 1, 2}, 0}).flips(more ? 4 : 3, {-1, 0, 1});
#elif SHARD == 2
        library<2>();
#elif SHARD == 3
        library<3>();
#elif SHARD == 4
        triangles();
#else
        Tables<2>({"signs 2x2", {-1, -2}, {1, 2}, {2, 2}, 0}).flips(2, {-1, 0, 1});
        Tables<2>({"signs 1x1 divided", {3, 3}, {1, 1}, {1, 1}, 1}).flips(2, {-1, 0, 1});
        Tables<3>({"signs 2x1x1", {0, 0, 0}, {2, 1, 1}, {2, 1, 1}, 0}).flips(1, {-1, 0, 1});
        stride = more ? 5 : 41; library<2>(); library<3>(); triangles();
#endif
    });
}
