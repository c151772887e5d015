// Reference quadtree / octree of the fictitious grid, and the comparison with the component.
#pragma once
#include "mc.h"
#include "minisofa.h"
#include <SofaCaribou/Topology/FictitiousGrid.h>
#include <SofaCaribou/Topology/CircleIsoSurface.h>
#include <SofaCaribou/Topology/SphereIsoSurface.h>
#include <SofaCaribou/Topology/CylinderIsoSurface.h>
#include <functional>
namespace fg {
namespace st = SofaCaribou::topology;
template <class T> using P = sofa::core::objectmodel::SPtr_<T>;
template <int D> struct DTof; template <> struct DTof<2> { using T = sofa::defaulttype::Vec2Types; }; template <> struct DTof<3> { using T = sofa::defaulttype::Vec3Types; };
enum { UNDEF = 0, IN = 1, OUT = 2, BND = 4 };
template <class T, class O> sofa::core::objectmodel::Data<T> &data(O &o, const char *name) {
    auto *t = dynamic_cast<sofa::core::objectmodel::Data<T> *>(o.findData(name));
    if (!t) { fprintf(stderr, "no data '%s' of that type\n", name); abort(); }
    return *t;
}
// value by table on the lattice of the finest nodes (nearest one)
template <int D> struct TableIso : st::IsoSurface<typename DTof<D>::T> {
    std::array<double, D> anchor{}, unit{}; std::array<int, D> n{}; std::vector<signed char> v;
    double iso_value(const Eigen::Matrix<double, D, 1> &x) const override {
        int k = 0, s = 1;
        for (int d = 0; d < D; ++d) { int i = int(std::lround((x[d] - anchor[d]) / unit[d])); i = std::max(0, std::min(n[d] - 1, i)); k += i * s; s *= n[d]; }
        return v[k] * 0.375;
    }
};
template <int D> struct Conf {
    std::string name;
    std::array<double, D> a, b;       // the two corners of the grid, in any order
    std::array<int, D> n;             // cells
    int levels = 0; double threshold = 0;
    std::array<double, D> lo() const { auto r = a; for (int d = 0; d < D; ++d) r[d] = std::min(a[d], b[d]); return r; }
    std::array<double, D> h() const { auto r = a; for (int d = 0; d < D; ++d) r[d] = std::fabs(a[d] - b[d]) / n[d]; return r; }
};
template <int D> struct Leaf { std::array<int, D> lo; int size; int type; int root; int region = -1; bool edge = false; int level = 0;
    bool operator<(const Leaf &o) const { return std::tie(lo, size) < std::tie(o.lo, o.size); } };
template <int D> struct Tree {
    Conf<D> c; int S; // finest units per cell
    std::vector<Leaf<D>> leaf;
    std::vector<std::vector<int>> of; // leaves of a cell
    std::map<std::pair<std::array<int, D>, int>, int> at;
    std::array<double, D> lo, h;
    std::vector<int> celltype;
    int cells() const { int r = 1; for (int d = 0; d < D; ++d) r *= c.n[d]; return r; }
    std::array<int, D> coord(int i) const { std::array<int, D> r; for (int d = 0; d < D; ++d) { r[d] = i % c.n[d]; i /= c.n[d]; } return r; }
    double pos(int d, int k) const { return lo[d] + h[d] * k / S; }
    double weight(const Leaf<D> &l) const { return std::pow(double(l.size) / S, D); }
    double coverage(int root) const { double w = 0; for (int i : of[root]) if (leaf[i].type & (IN | BND)) w += weight(leaf[i]); return w; }
    // classify(box lo, size) gives the type of a box; UNDEF boxes are resolved by flooding from the border of the grid
    Tree(const Conf<D> &c, const std::function<int(const Tree &, const std::array<int, D> &, int)> &classify) : c(c), S(1 << c.levels), lo(c.lo()), h(c.h()) {
        of.resize(cells()); celltype.resize(cells());
        for (int i = 0; i < cells(); ++i) {
            auto k = coord(i); for (auto &x : k) x *= S;
            split(i, k, S, 0, classify);
        }
        for (int i = 0; i < int(leaf.size()); ++i) at[{leaf[i].lo, leaf[i].size}] = i;
        for (int i = 0; i < int(leaf.size()); ++i) for (int ax = 0; ax < D; ++ax) for (int dir = -1; dir <= 1; dir += 2) if (neighbours(i, ax, dir).empty()) leaf[i].edge = true;
        int regions = 0;
        for (int i = 0; i < int(leaf.size()); ++i) if (leaf[i].region < 0) {
            std::vector<int> q{i}; leaf[i].region = regions; bool border = false;
            for (size_t k = 0; k < q.size(); ++k) {
                for (int ax = 0; ax < D; ++ax) for (int dir = -1; dir <= 1; dir += 2) {
                    auto nb = neighbours(q[k], ax, dir);
                    if (nb.empty()) border = true;
                    for (int j : nb) if (leaf[j].type == leaf[i].type && leaf[j].region < 0) { leaf[j].region = regions; q.push_back(j); }
                }
            }
            if (leaf[i].type == UNDEF) resolved.push_back({q, border ? OUT : IN});
            ++regions;
        }
        for (auto &r : resolved) for (int j : r.first) leaf[j].type = r.second;
        for (int i = 0; i < int(leaf.size()); ++i) for (int ax = 0; ax < D; ++ax) for (int dir = -1; dir <= 1; dir += 2) for (int j : neighbours(i, ax, dir)) if (leaf[j].region != leaf[i].region) leaf[i].edge = true;
        for (int i = 0; i < cells(); ++i) celltype[i] = of[i].size() == 1 ? leaf[of[i][0]].type : BND;
    }
    std::vector<std::pair<std::vector<int>, int>> resolved;
    void split(int root, const std::array<int, D> &b, int size, int level, const std::function<int(const Tree &, const std::array<int, D> &, int)> &classify) {
        const int t = classify(*this, b, size);
        if (t != BND || level == c.levels) { of[root].push_back(int(leaf.size())); leaf.push_back({b, size, t, root, -1, false, level}); return; }
        for (int k = 0; k < (1 << D); ++k) { auto s = b; for (int d = 0; d < D; ++d) s[d] += ((k >> d) & 1) * size / 2; split(root, s, size / 2, level + 1, classify); }
    }
    // leaves that share a face (a part of it) with the box on that side
    std::vector<int> neighbours(const std::array<int, D> &b, int size, int ax, int dir) const {
        std::vector<int> r;
        for (int j = 0; j < int(leaf.size()); ++j) {
            const auto &o = leaf[j];
            if (dir > 0 ? o.lo[ax] != b[ax] + size : o.lo[ax] + o.size != b[ax]) continue;
            bool ok = true;
            for (int d = 0; d < D && ok; ++d) if (d != ax) ok = std::max(o.lo[d], b[d]) < std::min(o.lo[d] + o.size, b[d] + size);
            if (ok) r.push_back(j);
        }
        return r;
    }
    std::vector<int> neighbours(int i, int ax, int dir) const { return neighbours(leaf[i].lo, leaf[i].size, ax, dir); }
};
template <int D> int corners_type(const Tree<D> &t, const std::array<int, D> &b, int size, const std::function<double(const std::array<double, D> &)> &iso) {
    int in = 0, out = 0;
    for (int k = 0; k < (1 << D); ++k) {
        std::array<double, D> x; for (int d = 0; d < D; ++d) x[d] = t.pos(d, b[d] + ((k >> d) & 1) * size);
        const double v = iso(x);
        in += v < 0; out += v > 0;
    }
    return in == (1 << D) ? IN : out == (1 << D) ? OUT : BND;
}
template <int D> struct Scene {
    using DT = typename DTof<D>::T;
    using G = st::FictitiousGrid<DT>;
    using Iso = st::IsoSurface<DT>;
    using Cell = typename G::Cell;
    P<sofa::simulation::Node> node{new sofa::simulation::Node()};
    P<G> g{new G()};
    Scene() { node->addObject(g); }
    void link(Iso *i) {
        auto *l = dynamic_cast<typename G::template Link<Iso> *>(g->findLink("iso_surface"));
        if (!l) { fprintf(stderr, "no iso_surface link\n"); abort(); }
        l->set(i);
    }
    void configure(const Conf<D> &c) {
        typename G::SofaVecInt n; typename G::SofaVecFloat a, b;
        for (int d = 0; d < D; ++d) { n[d] = c.n[d] + 1; a[d] = c.a[d]; b[d] = c.b[d]; }
        data<typename G::SofaVecInt>(*g, "n").setValue(n);
        data<typename G::SofaVecFloat>(*g, "min").setValue(a); data<typename G::SofaVecFloat>(*g, "max").setValue(b);
        data<UNSIGNED_INTEGER_TYPE>(*g, "maximum_number_of_subdivision_levels").setValue(c.levels);
        data<FLOATING_POINT_TYPE>(*g, "volume_threshold").setValue(c.threshold);
    }
};
template <int D> int type_of(typename Scene<D>::G::Type t) {
    using T = typename Scene<D>::G::Type;
    return t == T::Inside ? IN : t == T::Outside ? OUT : t == T::Boundary ? BND : UNDEF;
}
// compares the whole public state of the component with the reference
template <int D> void compare(Scene<D> &s, const Tree<D> &t, const std::string &how, bool cells_too = true) {
    using G = typename Scene<D>::G; using Cell = typename G::Cell;
    const std::string key = mc::str(D, "D");
    const std::string conf = mc::str(t.c.name, " levels ", t.c.levels, " threshold ", t.c.threshold, " ", how);
    G &g = *s.g;
    const int NC = t.cells();
    double vol = 1; for (int d = 0; d < D; ++d) vol *= t.h[d];
    // --- the sparse grid
    std::set<int> want, got;
    for (int i = 0; i < NC; ++i) if (!(t.of[i].size() == 1 && t.leaf[t.of[i][0]].type == OUT) && t.coverage(i) >= t.c.threshold) want.insert(i);
    mc::check(int(g.number_of_cells()) == int(want.size()), "cells-count", key, conf, " got ", g.number_of_cells(), " want ", want.size());
    const auto &X = data<typename G::SofaVecCoord>(g, "position").getValue();
    mc::check(X.size() == g.number_of_nodes(), "nodes-count", key, conf);
    std::set<std::array<int, D>> nodes; std::vector<char> used(X.size(), 0); bool nodes_ok = true;
    for (auto &x : X) {
        std::array<int, D> k;
        for (int d = 0; d < D; ++d) { const double q = (x[d] - t.lo[d]) / t.h[d]; k[d] = int(std::lround(q)); nodes_ok = nodes_ok && std::fabs(q - k[d]) < 1e-9 && k[d] >= 0 && k[d] <= t.c.n[d]; }
        nodes_ok = nodes.insert(k).second && nodes_ok;
    }
    mc::check(nodes_ok, "nodes-of-the-grid", key, conf);
    const size_t nconn = D == 2 ? data<sofa::type::vector<typename G::SofaQuad>>(g, "quads").getValue().size() : data<sofa::type::vector<typename G::SofaHexahedron>>(g, "hexahedrons").getValue().size();
    mc::check(nconn == g.number_of_cells(), "connectivity-count", key, conf, " ", nconn);
    std::vector<int> cell_of(g.number_of_cells(), -1);
    for (size_t i = 0; i < g.number_of_cells(); ++i) {
        const auto e = g.get_cell_element(i);
        const auto c = e.center();
        int k = 0, m = 1; bool ok = true;
        for (int d = 0; d < D; ++d) { const int q = int(std::floor((c[d] - t.lo[d]) / t.h[d])); ok = ok && q >= 0 && q < t.c.n[d] && std::fabs(t.lo[d] + t.h[d] * (q + 0.5) - c[d]) < 1e-9 * t.h[d]; k += q * m; m *= t.c.n[d]; }
        mc::check(ok, "cell-element", key, conf, " cell ", i);
        if (!ok) continue;
        cell_of[i] = k;
        mc::check(want.count(k), "cell-not-wanted", key, conf, " cell ", k, " coverage ", t.coverage(k));
        mc::check(got.insert(k).second, "cell-twice", key, conf, " cell ", k);
        if (i >= nconn) continue;
        for (int j = 0; j < (1 << D); ++j) {
            unsigned q;
            if constexpr (D == 2) q = data<sofa::type::vector<typename G::SofaQuad>>(g, "quads").getValue()[i][j];
            else { q = data<sofa::type::vector<typename G::SofaHexahedron>>(g, "hexahedrons").getValue()[i][j]; mc::check(g.get_node_indices_of(i)[j] == q, "node-indices", key, conf); }
            if (!mc::check(q < X.size(), "node-index-range", key, conf, " cell ", i)) continue;
            used[q] = 1;
            const auto p = e.node(j); double err = 0;
            for (int d = 0; d < D; ++d) err = std::max(err, std::fabs(p[d] - X[q][d]) / t.h[d]);
            mc::check(err < 1e-9, "cell-nodes", key, conf, " cell ", i, " node ", j);
        }
    }
    mc::check(got.size() == want.size(), "cells-missing", key, conf);
    mc::check(std::count(used.begin(), used.end(), 0) == 0, "unused-node", key, conf);
    // --- integration points
    const double gp = 1 / std::sqrt(3.);
    for (size_t i = 0; i < cell_of.size(); ++i) if (cell_of[i] >= 0) {
        const int root = cell_of[i]; const auto base = t.coord(root);
        for (int level = 0; level <= t.c.levels + 1; ++level) {
            const auto nodes_ = level > t.c.levels ? g.get_gauss_nodes_of_cell(i) : g.get_gauss_nodes_of_cell(i, level);
            const int lmax = std::min(level, t.c.levels);
            // boxes that carry integration points: leaves up to the level, boxes of that level that are divided further
            std::map<std::array<long, D>, double> ref, have;
            std::map<std::array<int, D>, std::array<double, 9>> divided;
            auto put = [&](const std::array<int, D> &b, int size, const std::function<double(int)> &w) {
                for (int k = 0; k < (1 << D); ++k) {
                    std::array<long, D> p;
                    for (int d = 0; d < D; ++d) { const double mid = b[d] - base[d] * t.S + size / 2.; const double x = -1 + 2 * (mid + (((k >> d) & 1) ? 1 : -1) * gp * size / 2) / t.S; p[d] = std::lround(x * 1e7); }
                    const double v = w(k) * vol / (1 << D);
                    if (v != 0) ref[p] += v;
                }
            };
            for (int l : t.of[root]) {
                const auto &L = t.leaf[l]; const double cov = (L.type & (IN | BND)) ? t.weight(L) : 0;
                if (L.level <= lmax) put(L.lo, L.size, [&](int) { return cov; });
                else {
                    const int bs = t.S >> lmax; std::array<int, D> b; int k = 0;
                    for (int d = 0; d < D; ++d) { const int r = L.lo[d] - base[d] * t.S; b[d] = base[d] * t.S + r / bs * bs; k |= ((r % bs) >= bs / 2) << d; }
                    divided[b][k] += cov;
                }
            }
            for (auto &q : divided) put(q.first, t.S >> lmax, [&](int k) { return q.second[k] * (1 << D); });
            double sum = 0;
            for (auto &q : nodes_) { sum += q.second; if (q.second != 0) { std::array<long, D> p; for (int d = 0; d < D; ++d) p[d] = std::lround(q.first[d] * 1e7); have[p] += q.second; } }
            bool same = have.size() == ref.size();
            for (auto a = have.begin(), b = ref.begin(); same && a != have.end(); ++a, ++b) { for (int d = 0; d < D; ++d) same = same && std::labs(a->first[d] - b->first[d]) <= 1; same = same && std::fabs(a->second - b->second) <= 1e-9 * vol; }
            if (!same) { // neighbouring keys may differ in the last digit: match by distance
                same = have.size() == ref.size(); std::set<std::array<long, D>> taken;
                for (auto &a : have) { bool f = false; for (auto &b : ref) { bool n = true; for (int d = 0; d < D; ++d) n = n && std::labs(a.first[d] - b.first[d]) <= 2; if (n && std::fabs(a.second - b.second) <= 1e-9 * vol && taken.insert(b.first).second) { f = true; break; } } same = same && f; }
            }
            mc::check(same, "integration-points", key, conf, " cell ", root, " level ", level, " got ", have.size(), " want ", ref.size(), " sum ", sum, " volume ", t.coverage(root) * vol);
            mc::check(std::fabs(sum - t.coverage(root) * vol) <= 1e-9 * vol, "integrated-volume", key, conf, " cell ", root, " level ", level, " sum ", sum, " want ", t.coverage(root) * vol);
            mc::step();
        }
    }
    // --- type of a position: on every multiple of half a cell, one ring around the grid included
    std::vector<int> radix; for (int d = 0; d < D; ++d) radix.push_back(2 * t.c.n[d] + 3);
    mc::product(radix, [&](const std::vector<int> &q) {
        typename G::WorldCoordinates p; bool inside = true; std::array<int, D> two;
        for (int d = 0; d < D; ++d) { two[d] = q[d] - 1; p[d] = t.lo[d] + t.h[d] * two[d] / 2.; inside = inside && two[d] >= 0 && two[d] <= 2 * t.c.n[d]; }
        int want = OUT;
        if (inside) {
            int types = 0;
            for (int i = 0; i < NC; ++i) { const auto k = t.coord(i); bool in = true; for (int d = 0; d < D; ++d) in = in && 2 * k[d] <= two[d] && two[d] <= 2 * k[d] + 2; if (in) types |= t.celltype[i]; }
            want = types == IN ? IN : types == OUT ? OUT : BND;
        }
        int got = -1;
        try { got = type_of<D>(g.get_type_at(p)); } catch (const std::exception &e) { got = -2; }
        mc::check(got == want, "type-at", key, conf, " position ", p.transpose(), " got ", got, " want ", want);
        mc::step();
    });
    // --- distribution of the volume ratios
    for (int dec = 0; dec <= 2; ++dec) {
        std::map<long, std::set<int>> want, have; bool twice = false;
        auto q = [](double r) { return std::lround(r * 1e9); };
        for (int i = 0; i < NC; ++i) { double r = t.celltype[i] == OUT ? 0 : t.celltype[i] == IN ? 1 : t.coverage(i); if (dec) r = std::round(r * std::pow(10, dec)) / std::pow(10, dec); want[q(r)].insert(i); }
        for (auto &p : g.cell_volume_ratio_distribution(dec)) for (auto i : p.second) twice = !have[q(p.first)].insert(int(i)).second || twice;
        mc::check(!twice && have == want, "volume-ratios", key, conf, " decimals ", dec);
    }
    // --- the cells themselves: reached through the neighbours of every top-level cell
    if (!cells_too) return;
    std::map<int, const Cell *> roots; std::set<const Cell *> seen;
    auto locate = [&](const Cell *c) { // box of a cell, from its path
        std::vector<int> path; while (c->parent) { path.push_back(int(c->index)); c = c->parent; }
        roots[int(c->index)] = c;
        auto b = t.coord(int(c->index) % NC); for (auto &x : b) x *= t.S; int size = t.S;
        for (auto i = path.rbegin(); i != path.rend(); ++i) { size /= 2; for (int d = 0; d < D; ++d) b[d] += ((*i >> d) & 1) * size; }
        auto f = t.at.find({b, size});
        return f == t.at.end() ? -1 : f->second;
    };
    auto same = [&](const std::vector<Cell *> &v, std::vector<int> w, const std::string &what) {
        std::vector<int> h; for (auto *c : v) h.push_back(locate(c));
        std::sort(h.begin(), h.end()); std::sort(w.begin(), w.end());
        mc::check(h == w, "neighbours", key, conf, " ", what, " got ", h.size(), " want ", w.size());
    };
    for (int i = 0; i < NC; ++i) for (int ax = 0; ax < D; ++ax) for (int dir = -1; dir <= 1; dir += 2) {
        Cell q; q.index = i; q.data = std::make_unique<typename G::CellData>(G::Type::Boundary, 1, -1, false);
        auto b = t.coord(i); for (auto &x : b) x *= t.S;
        same(g.get_neighbors(&q, ax, dir), t.neighbours(b, t.S, ax, dir), mc::str("of cell ", i, " axis ", ax, " direction ", dir));
        mc::step();
    }
    std::map<int, int> to_region, from_region;
    for (auto r : std::map<int, const Cell *>(roots)) {
        std::vector<const Cell *> q{r.second}; size_t leaves = 0;
        for (size_t k = 0; k < q.size(); ++k) {
            const Cell *c = q[k];
            if (c->childs) { for (auto &x : *c->childs) { mc::check(x.parent == c, "parent", key, conf); q.push_back(&x); } continue; }
            ++leaves;
            const int l = locate(c);
            if (!mc::check(l >= 0 && c->data, "leaf", key, conf, " in cell ", r.first)) continue;
            const auto &L = t.leaf[l];
            mc::check(type_of<D>(c->data->type) == L.type, "leaf-type", key, conf, " cell ", r.first, " leaf at ", mc::str(L.lo[0], ",", L.lo[1]), " size ", L.size, " got ", type_of<D>(c->data->type), " want ", L.type);
            mc::check(std::fabs(c->data->weight - t.weight(L)) <= 1e-12, "leaf-weight", key, conf);
            const int id = c->data->region_id;
            mc::check(id >= 0 && to_region.emplace(L.region, id).first->second == id && from_region.emplace(id, L.region).first->second == L.region, "region", key, conf, " cell ", r.first);
            mc::check(c->data->boundary_of_region == L.edge, "region-boundary", key, conf, " cell ", r.first);
            std::vector<int> all;
            for (int ax = 0; ax < D; ++ax) for (int dir = -1; dir <= 1; dir += 2) {
                auto w = t.neighbours(l, ax, dir); all.insert(all.end(), w.begin(), w.end());
                same(g.get_neighbors(c, ax, dir), w, mc::str("of a leaf of cell ", r.first, " axis ", ax, " direction ", dir));
                mc::step();
            }
            same(g.get_neighbors(c), all, "of a leaf");
        }
        mc::check(leaves == t.of[r.first].size(), "leaves", key, conf, " cell ", r.first);
    }
    if (NC > 1) mc::check(int(roots.size()) == NC, "cells-reached", key, conf);
}
} // namespace fg
