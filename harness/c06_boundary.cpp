// C06: boundary elements, edges and faces are those of the element, oriented outward, and geometrically coincide with it.
#include "ref.h"
using namespace ref;

// facets of the reference domain as sets of node indices
static std::vector<std::set<int>> facets(const Elem &e) {
    std::vector<std::set<int>> r;
    auto add = [&](auto pred) { std::set<int> s; for (size_t i = 0; i < e.nodes.size(); ++i) if (pred(e.nodes[i])) s.insert(i); r.push_back(s); };
    if (e.simplex()) {
        for (int d = 0; d < e.dim; ++d) add([=](const V3 &x) { return x[d] == 0; });
        add([&](const V3 &x) { return x[0] + x[1] + x[2] == 1; });
    } else for (int d = 0; d < e.dim; ++d) { add([=](const V3 &x) { return x[d] == -1; }); add([=](const V3 &x) { return x[d] == 1; }); }
    return r;
}
static int ncorners(Kind k) { switch (k) { case LINE: return 2; case TRI: return 3; case QUAD: return 4; case TET: return 4; default: return 8; } }
static V3 sub(const V3 &a, const V3 &b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static V3 cross(const V3 &a, const V3 &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static LD dot(const V3 &a, const V3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }

template <class Idx> std::vector<int> vec(const Idx &l) { std::vector<int> r; for (auto i : l) r.push_back((int)i); return r; }
template <class L> std::vector<std::vector<int>> lists(const L &l) { std::vector<std::vector<int>> r; for (auto &x : l) r.push_back(vec(x)); return r; }
static std::string sh(const std::vector<int> &v) { std::string s = "{"; for (int i : v) s += std::to_string(i) + " "; return s + "}"; }

// true if the pair of corners is an edge of the reference domain
static int edge_mid(const Elem &e, int a, int b, bool &is_edge) { // mid-node index (or -1 for linear); is_edge set
    V3 m; for (int d = 0; d < 3; ++d) m[d] = (e.nodes[a][d] + e.nodes[b][d]) / 2;
    Elem lin = make(e.kind, 2); is_edge = false; // an edge iff its midpoint is a quadratic node
    for (size_t i = ncorners(e.kind); i < lin.nodes.size(); ++i) if (lin.nodes[i] == m) { is_edge = true; return e.order == 2 ? (int)i : -1; }
    return -1;
}

template <class E> void run_elem(E *) {
  if constexpr (g::element_has_boundaries_v<E>) {
    const Elem &e = Info<E>::e();
    using B = typename g::traits<E>::BoundaryElementType;
    const Elem &be = Info<B>::e();
    const std::string nm = Info<E>::name();
    constexpr int N = g::traits<E>::NumberOfNodesAtCompileTime, D = g::traits<E>::Dimension;
    constexpr int NB = g::traits<B>::NumberOfNodesAtCompileTime;
    mc::crumb(nm); mc::trace();
    const E el;
    auto fac = facets(e);
    int nc = ncorners(be.kind), ec = ncorners(e.kind);
    mc::check(be.order == e.order && be.dim == e.dim - 1, "boundary-type", nm, Info<B>::name());
    auto bl = lists(el.boundary_elements_node_indices()); mc::step();
    mc::check(el.number_of_boundary_elements() == fac.size() && bl.size() == fac.size(), "boundary-count", nm, bl.size(), " reported ", el.number_of_boundary_elements(), " want ", fac.size());
    std::vector<int> used(fac.size(), 0);
    V3 cen = e.centroid();
    std::map<std::pair<int, int>, int> directed;
    bool sane = true;
    for (size_t b = 0; b < bl.size(); ++b) {
        mc::state();
        auto &l = bl[b];
        std::set<int> s(l.begin(), l.end());
        bool ok = (int)l.size() == NB && s.size() == l.size() && *s.begin() >= 0 && *s.rbegin() < N;
        mc::check(ok, "boundary-indices", nm + ":" + std::to_string(b), sh(l));
        if (!ok) { sane = false; continue; }
        int which = -1; for (size_t f = 0; f < fac.size(); ++f) if (fac[f] == s) which = f;
        mc::check(which >= 0, "boundary-is-a-facet", nm + ":" + std::to_string(b), "nodes ", sh(l), " are not the nodes of a facet of the element");
        if (which < 0) continue;
        ++used[which];
        // corners first, in cyclic order; mid nodes in the order of the boundary element type
        bool corners = true; for (int i = 0; i < nc; ++i) corners = corners && l[i] < ec;
        mc::check(corners, "boundary-corners-first", nm + ":" + std::to_string(b), sh(l));
        if (!corners) continue;
        // image of the boundary element's reference nodes
        for (int i = nc; i < NB; ++i) {
            // the reference mid node i of `be` is the midpoint of two of its corners
            int p = -1, q = -1;
            for (int a = 0; a < nc; ++a) for (int c = a + 1; c < nc; ++c) { bool eq = true; for (int d = 0; d < 3; ++d) eq = eq && (be.nodes[a][d] + be.nodes[c][d]) / 2 == be.nodes[i][d]; if (eq) { p = a; q = c; } }
            if (be.kind == QUAD || be.kind == TRI || be.kind == LINE) {
                bool eq = true; for (int d = 0; d < 3; ++d) eq = eq && (e.nodes[l[p]][d] + e.nodes[l[q]][d]) / 2 == e.nodes[l[i]][d];
                mc::check(eq, "boundary-mid-node", nm + ":" + std::to_string(b), sh(l), " position ", i);
            }
        }
        for (int i = 0; i < nc; ++i) { if (e.dim == 2 && i) break; int a = l[i], c = l[(i + 1) % nc]; bool is; edge_mid(e, a, c, is); mc::check(is, "boundary-cyclic-order", nm + ":" + std::to_string(b), sh(l)); ++directed[{a, c}]; }
        // outward orientation
        V3 fc{0, 0, 0}; for (int i = 0; i < nc; ++i) for (int d = 0; d < 3; ++d) fc[d] += e.nodes[l[i]][d] / nc;
        V3 nrm; if (e.dim == 2) { V3 t = sub(e.nodes[l[1]], e.nodes[l[0]]); nrm = V3{t[1], -t[0], 0}; } else nrm = cross(sub(e.nodes[l[1]], e.nodes[l[0]]), sub(e.nodes[l[2]], e.nodes[l[0]]));
        mc::check(dot(nrm, sub(fc, cen)) > 0, "boundary-outward", nm + ":" + std::to_string(b), sh(l));
    }
    for (size_t f = 0; f < fac.size(); ++f) mc::check(used[f] == 1, "boundary-covers-once", nm, "facet ", f, " covered ", used[f], " times");
    if (e.dim == 3) for (auto &d : directed) mc::check(d.second == 1 && directed.count({d.first.second, d.first.first}) == 1, "boundary-closed", nm, "edge ", d.first.first, "->", d.first.second);
    // faces()/edges()
    std::vector<std::vector<int>> edges = lists(el.edges()); mc::step();
    Elem quad = make(e.kind, 2);
    mc::check(edges.size() == quad.nodes.size() - ec, "edge-count", nm, edges.size());
    std::set<std::set<int>> es;
    for (auto &l : edges) {
        mc::state();
        bool ok = (int)l.size() == (e.order == 2 ? 3 : 2); for (int i : l) ok = ok && i >= 0 && i < N;
        mc::check(ok, "edge-indices", nm, sh(l)); if (!ok) continue;
        bool is; int m = l[0] < ec && l[1] < ec ? edge_mid(e, l[0], l[1], is) : (is = false, -1);
        mc::check(is, "edge-is-an-edge", nm, sh(l));
        if (e.order == 2) mc::check(m == l[2], "edge-mid-node", nm, sh(l), " want ", m);
        es.insert({l[0], l[1]});
    }
    mc::check(es.size() == edges.size(), "edges-distinct", nm, es.size());
    if constexpr (g::traits<E>::CanonicalDimension == 3) { auto fl = lists(el.faces()); mc::step(); mc::check(fl == bl, "faces-are-boundary", nm, fl.size()); }
    mc::sample(nm, mc::str(bl.size(), " boundary elements, ", edges.size(), " edges; first ", bl.empty() ? "" : sh(bl[0])));
    if (!sane) return;
    // geometry of the constructed boundary elements
    auto fp = lattice(be, be.dim == 1 ? 8 : (mc::thorough() ? 8 : 4), 0);
    configurations<E>([&](const Eigen::MatrixXd &n, const std::string &desc, bool) {
        if (Info<E>::rect && desc.find("affine#5") != std::string::npos) return; // sheared: not a rectangle
        mc::trace(); mc::crumb(desc);
        E m = build<E>(n);
        Eigen::Matrix<double, N, D> nodes = m.nodes();
        const double scale = nodes.cwiseAbs().maxCoeff();
        for (size_t b = 0; b < bl.size(); ++b) {
            const auto f = m.boundary_element(b); mc::step();
            Eigen::Matrix<double, NB, D> fn = f.nodes();
            for (int i = 0; i < NB; ++i) for (int d = 0; d < D; ++d) mc::check(mc::near(fn(i, d), nodes(bl[b][i], d), 1e-11 * scale), "boundary-nodes", nm + ":" + std::to_string(b), desc, " node ", i, " got ", fn(i, d), " want ", nodes(bl[b][i], d));
            for (auto &x : fp) {
                if (be.simplex() && be.margin(x) < 0) continue;
                mc::state();
                V3 r{0, 0, 0}; auto L = be.L(x); for (int i = 0; i < NB; ++i) for (int d = 0; d < 3; ++d) r[d] += L[i] * e.nodes[bl[b][i]][d];
                auto a = f.world_coordinates(loc<B>(x)); auto c = m.world_coordinates(loc<E>(r)); mc::step(2);
                for (int d = 0; d < D; ++d) mc::check(mc::near(a[d], c[d], 1e-10 * scale), "boundary-coincides", nm + ":" + std::to_string(b), desc, " boundary ", b, " at ", show(x), " boundary element gives ", a[d], " element gives ", c[d]);
            }
        }
    }, 0.125);
    mc::bound("geometry", "every boundary element of every affine image and every single-node displacement of 1/8, lattice step 1/8 (edges), 1/4 (faces), 1/8 thorough");
  }
}
int main(int c, char **v) { return mc::run(c, v, [] { for_shard([](auto *p) { run_elem(p); }); }); }
