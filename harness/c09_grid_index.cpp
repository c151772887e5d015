// C09: grid numbering: nodes, cells, edges and faces of every small grid.
#include "mc.h"
#include <Caribou/config.h>
#include <Caribou/constants.h>
#include <Caribou/Topology/Grid/Grid.h>
using namespace caribou::topology;
template <int D> using IV = Eigen::Matrix<long long, D, 1>;
template <int D> std::string sh(const IV<D> &v) { std::string s = "("; for (int d = 0; d < D; ++d) s += std::to_string(v[d]) + (d + 1 < D ? "," : ")"); return s; }

template <int D> void explore(const std::vector<int> &nv, const Eigen::Matrix<double, D, 1> &anchor, const Eigen::Matrix<double, D, 1> &size) {
    using G = Grid<D>;
    typename G::Subdivisions n; for (int d = 0; d < D; ++d) n[d] = nv[d];
    G grid(anchor, n, size);
    std::string desc = mc::str(D, "D grid n=", mc::show(n.transpose()), " anchor ", mc::show(anchor.transpose()), " size ", mc::show(size.transpose()));
    std::string nm = mc::str(D, "D");
    mc::crumb(desc); mc::trace();
    double tol = 1e-12 * (anchor.cwiseAbs().maxCoeff() + size.cwiseAbs().maxCoeff());
    long long nn = 1, nc = 1; for (int d = 0; d < D; ++d) { nn *= nv[d] + 1; nc *= nv[d]; }
    mc::check((long long)grid.number_of_nodes() == nn, "node-count", nm, desc, " ", grid.number_of_nodes());
    mc::check((long long)grid.number_of_cells() == nc, "cell-count", nm, desc, " ", grid.number_of_cells());
    mc::check(mc::maxdiff(grid.anchor_position(), anchor) == 0 && mc::maxdiff(grid.size(), size) <= tol && mc::maxdiff(grid.N(), n) == 0, "parameters", nm, desc);
    auto H = grid.H(); for (int d = 0; d < D; ++d) mc::check(mc::near(H[d], size[d] / nv[d], tol), "cell-size", nm, desc);
    auto pos = [&](const IV<D> &c) { Eigen::Matrix<double, D, 1> p; for (int d = 0; d < D; ++d) p[d] = anchor[d] + c[d] * (size[d] / nv[d]); return p; };
    // nodes
    std::vector<int> rad; for (int d = 0; d < D; ++d) rad.push_back(nv[d] + 1);
    std::map<long long, IV<D>> nodes;
    mc::product(rad, [&](const std::vector<int> &c) {
        IV<D> g; for (int d = 0; d < D; ++d) g[d] = c[d];
        typename G::GridCoordinates gc = g;
        long long id = grid.node_index_at(gc); mc::state(); mc::step();
        mc::check(id >= 0 && id < nn && !nodes.count(id), "node-index-bijective", nm, desc, " at ", sh<D>(g), " index ", id);
        nodes[id] = g;
        IV<D> back = grid.node_coordinates_at(id); mc::step();
        mc::check(back == g, "node-coordinates-inverse", nm, desc, " at ", sh<D>(g), " index ", id, " back ", sh<D>(back));
        auto p = grid.node(id); mc::step();
        mc::check(mc::maxdiff(p, pos(g)) <= tol, "node-position", nm, desc, " node ", id, " got ", mc::show(p.transpose()), " want ", mc::show(pos(g).transpose()));
    });
    if ((long long)nodes.size() != nn) return;
    // cells
    std::map<long long, IV<D>> cells; std::set<std::set<long long>> cell_edges, cell_faces;
    mc::product(nv, [&](const std::vector<int> &c) {
        IV<D> g; for (int d = 0; d < D; ++d) g[d] = c[d];
        typename G::GridCoordinates gc = g;
        long long id = grid.cell_index_at(gc); mc::state(); mc::step();
        mc::check(id >= 0 && id < nc && !cells.count(id), "cell-index-bijective", nm, desc, " at ", sh<D>(g), " index ", id);
        cells[id] = g;
        IV<D> back = grid.cell_coordinates_at((typename G::CellIndex)id); mc::step();
        mc::check(back == g, "cell-coordinates-inverse", nm, desc, " at ", sh<D>(g), " index ", id, " back ", sh<D>(back));
        auto a = grid.node_indices_of(gc); auto b = grid.node_indices_of((typename G::CellIndex)id); mc::step(2);
        mc::check(a == b, "cell-nodes-overloads", nm, desc, " cell ", id);
        auto ea = grid.cell_at(gc); auto eb = grid.cell_at((typename G::CellIndex)id); mc::step(2);
        mc::check((int)a.size() == 1 << D, "cell-node-count", nm, desc, a.size());
        std::set<long long> want; for (int m = 0; m < (1 << D); ++m) { typename G::GridCoordinates q = gc; for (int d = 0; d < D; ++d) q[d] += m >> d & 1; want.insert(grid.node_index_at(q)); }
        mc::check(std::set<long long>(a.begin(), a.end()) == want, "cell-nodes", nm, desc, " cell ", id);
        for (size_t i = 0; i < a.size(); ++i) {
            auto it = nodes.find(a[i]); if (it == nodes.end()) continue;
            auto pa = ea.node(i), pb = eb.node(i); mc::step(2);
            mc::check(mc::maxdiff(pa, pos(it->second)) <= tol && mc::maxdiff(pb, pos(it->second)) <= tol, "cell-geometry", nm, desc, " cell ", id, " node ", i, " at ", mc::show(pa.transpose()), " but grid node ", a[i], " at ", mc::show(pos(it->second).transpose()));
        }
    });
    // edges and faces: exactly the unit segments / unit squares of the lattice
    if constexpr (D >= 2) {
        auto collect = [&](int dim) {
            std::set<std::set<long long>> r;
            mc::product(rad, [&](const std::vector<int> &c) {
                for (int mask = 0; mask < (1 << D); ++mask) {
                    if (__builtin_popcount(mask) != dim) continue;
                    bool ok = true; for (int d = 0; d < D; ++d) if ((mask >> d & 1) && c[d] + 1 > nv[d]) ok = false;
                    if (!ok) continue;
                    std::set<long long> s; for (int sub = mask;; sub = (sub - 1) & mask) { typename G::GridCoordinates q; for (int d = 0; d < D; ++d) q[d] = c[d] + (sub >> d & 1); s.insert(grid.node_index_at(q)); if (!sub) break; }
                    r.insert(s);
                }
            });
            return r;
        };
        auto adjacent = [&](long long a, long long b) { if (!nodes.count(a) || !nodes.count(b)) return false; return (nodes[a] - nodes[b]).cwiseAbs().sum() == 1; };
        auto we = collect(1); std::set<std::set<long long>> got;
        mc::check(grid.number_of_edges() == we.size(), "edge-count", nm, desc, " ", grid.number_of_edges(), " want ", we.size());
        for (size_t i = 0; i < we.size(); ++i) {
            auto e = grid.edge(i); mc::state(); mc::step();
            mc::check(e.size() == 2 && adjacent(e[0], e[1]), "edge-nodes", nm, desc, " edge ", i, " nodes ", e[0], " ", e[1]);
            mc::check(got.insert(std::set<long long>(e.begin(), e.end())).second, "edge-distinct", nm, desc, " edge ", i, " nodes ", e[0], " ", e[1]);
        }
        mc::check(got == we, "edges-complete", nm, desc);
        if constexpr (D == 3) {
            auto wf = collect(2); got.clear();
            mc::check(grid.number_of_faces() == wf.size(), "face-count", nm, desc, " ", grid.number_of_faces(), " want ", wf.size());
            for (size_t i = 0; i < wf.size(); ++i) {
                auto f = grid.face(i); mc::state(); mc::step();
                bool cyc = f.size() == 4; for (int k = 0; k < 4 && cyc; ++k) cyc = adjacent(f[k], f[(k + 1) % 4]);
                mc::check(cyc, "face-cyclic", nm, desc, " face ", i, " nodes ", f[0], " ", f[1], " ", f[2], " ", f[3]);
                mc::check(got.insert(std::set<long long>(f.begin(), f.end())).second, "face-distinct", nm, desc, " face ", i);
            }
            mc::check(got == wf, "faces-complete", nm, desc);
        }
    }
    mc::sample(desc, mc::str(nn, " nodes, ", nc, " cells"));
}
// grids too large to visit: nodes and cells at the ends and in the middle of each axis, edges and faces at the ends and in the middle of their numbering
template <int D> void large(const std::vector<int> &nv, const Eigen::Matrix<double, D, 1> &anchor, const Eigen::Matrix<double, D, 1> &h) {
    using G = Grid<D>; typename G::Subdivisions n; Eigen::Matrix<double, D, 1> size; for (int d = 0; d < D; ++d) { n[d] = nv[d]; size[d] = h[d] * nv[d]; }
    G grid(anchor, n, size); const std::string nm = mc::str(D, "D"), desc = mc::str(D, "D grid n=", mc::show(n.transpose()), " anchor ", mc::show(anchor.transpose()), " cell ", mc::show(h.transpose()));
    mc::crumb(desc); mc::trace();
    long long nn = 1, nc = 1; for (int d = 0; d < D; ++d) { nn *= nv[d] + 1; nc *= nv[d]; }
    mc::check((long long)grid.number_of_nodes() == nn && (long long)grid.number_of_cells() == nc, "node-count", nm, desc);
    const double tol = 1e-12 * (anchor.cwiseAbs().maxCoeff() + size.cwiseAbs().maxCoeff());
    auto pos = [&](const IV<D> &c) { Eigen::Matrix<double, D, 1> p; for (int d = 0; d < D; ++d) p[d] = anchor[d] + c[d] * h[d]; return p; };
    for (bool cells : {false, true}) { std::map<long long, IV<D>> seen;
        mc::product(std::vector<int>(D, 7), [&](const std::vector<int> &c) {
            IV<D> g; for (int d = 0; d < D; ++d) { const int N = nv[d] - cells; const int t[7] = {0, 1, N / 3, N / 2, N / 2 + 1, N - 1, N}; g[d] = std::max(0, std::min(t[c[d]], N)); }
            typename G::GridCoordinates gc = g; const long long id = cells ? (long long)grid.cell_index_at(gc) : (long long)grid.node_index_at(gc); mc::state(); mc::step(3);
            auto it = seen.find(id); mc::check(id >= 0 && id < (cells ? nc : nn) && (it == seen.end() || it->second == g), cells ? "cell-index-bijective" : "node-index-bijective", nm, desc, " at ", sh<D>(g), " index ", id); seen[id] = g;
            IV<D> back; if (cells) back = grid.cell_coordinates_at((typename G::CellIndex)id); else back = grid.node_coordinates_at(id);
            mc::check(back == g, cells ? "cell-coordinates-inverse" : "node-coordinates-inverse", nm, desc, " at ", sh<D>(g), " index ", id, " back ", sh<D>(back));
            if (!cells) { const auto p = grid.node(id); mc::check(mc::maxdiff(p, pos(g)) <= tol, "node-position", nm, desc, " node ", id, " got ", mc::show(p.transpose())); return; }
            const auto a = grid.node_indices_of(gc); const auto b = grid.node_indices_of((typename G::CellIndex)id); const auto e = grid.cell_at((typename G::CellIndex)id); std::set<long long> want;
            for (int m = 0; m < (1 << D); ++m) { typename G::GridCoordinates q = gc; for (int d = 0; d < D; ++d) q[d] += m >> d & 1; want.insert(grid.node_index_at(q)); }
            mc::check(a == b && std::set<long long>(a.begin(), a.end()) == want, "cell-nodes", nm, desc, " cell ", id);
            for (size_t i = 0; i < a.size(); ++i) { IV<D> c2 = grid.node_coordinates_at(a[i]); mc::check(mc::maxdiff(e.node(i), pos(c2)) <= tol, "cell-geometry", nm, desc, " cell ", id, " node ", i); }
        }); }
    if constexpr (D >= 2) {
        auto ends = [&](long long total, auto &&get, size_t corners, const char *rule) { std::set<std::set<long long>> got; std::set<long long> at; for (long long k : {0LL, total / 7, total / 3, total / 2, 2 * total / 3, total - 3}) for (long long i = k; i < k + 3; ++i) at.insert(i);
            for (long long i : at) { const auto e = get(i); mc::state(); mc::step(); bool ok = e.size() == corners; for (size_t k = 0; k < e.size() && ok; ++k) { ok = (long long)e[k] < nn; if (!ok) break; const IV<D> x = grid.node_coordinates_at(e[k]), y = grid.node_coordinates_at(e[(k + 1) % e.size()]); ok = (x - y).cwiseAbs().sum() == 1; }
                mc::check(ok && got.insert(std::set<long long>(e.begin(), e.end())).second, rule, nm, desc, " number ", i); } };
        long long ne = 0; for (int d = 0; d < D; ++d) { long long k = nv[d]; for (int o = 0; o < D; ++o) if (o != d) k *= nv[o] + 1; ne += k; }
        mc::check((long long)grid.number_of_edges() == ne, "edge-count", nm, desc, " ", grid.number_of_edges(), " want ", ne);
        ends(ne, [&](long long i) { return grid.edge(i); }, 2, "edge-nodes");
        if constexpr (D == 3) { long long nf = 0; for (int d = 0; d < 3; ++d) nf += (long long)(nv[d] + 1) * nv[(d + 1) % 3] * nv[(d + 2) % 3];
            mc::check((long long)grid.number_of_faces() == nf, "face-count", nm, desc, " ", grid.number_of_faces(), " want ", nf); ends(nf, [&](long long i) { return grid.face(i); }, 4, "face-cyclic"); }
    }
    mc::sample(desc, "ends and middle of every axis");
}
int main(int c, char **v) { return mc::run(c, v, [] {
    bool th = mc::thorough();
    Eigen::Matrix<double, 1, 1> a1, s1; a1 << -2.5; s1 << 3.3;
    for (int i = 1; i <= (th ? 40 : 12); ++i) { explore<1>({i}, a1, s1); explore<1>({i}, a1 * 0, s1 * 100); }
    int m2 = th ? 14 : 8, m3 = th ? 7 : 5;
    mc::product({m2, m2}, [&](const std::vector<int> &d) { explore<2>({d[0] + 1, d[1] + 1}, {-1.25, 4}, {2, 0.7}); explore<2>({d[0] + 1, d[1] + 1}, {0, 0}, {100, 50}); });
    mc::product({m3, m3, m3}, [&](const std::vector<int> &d) { explore<3>({d[0] + 1, d[1] + 1, d[2] + 1}, {0.25, 0.5, -0.75}, {100, 3, 0.1}); });
    // counts beyond 8 and 16 bits
    explore<1>({70000}, a1, s1); explore<2>({300, 260}, {-1.25, 4}, {2, 0.7}); explore<2>({1, 33000}, {0, 0}, {1, 1}); explore<2>({33000, 1}, {0, 0}, {1, 1});
    explore<3>({300, 1, 1}, {0, 0, 0}, {1, 1, 1}); explore<3>({1, 300, 1}, {0, 0, 0}, {1, 1, 1}); explore<3>({1, 1, 300}, {0, 0, 0}, {1, 1, 1}); explore<3>({17, 19, 23}, {0, 0, 0}, {1, 1, 1});
    large<1>({100000000}, a1, s1); large<2>({5000, 5000}, {-1.25, 4}, {0.5, 0.25}); large<2>({3, 100000000}, {0, 0}, {1, 1}); large<2>({100000000, 3}, {0, 0}, {1, 1}); large<3>({300, 260, 280}, {0, 1, 2}, {1, 0.5, 2}); large<3>({257, 255, 2}, {0, 1, 2}, {1, 0.5, 2});
    large<3>({1000, 1000, 1000}, {0, 0, 0}, {1, 1, 1}); large<3>({1, 70000, 1}, {0, 0, 0}, {1, 1, 1}); large<3>({2, 2, 30000000}, {0, 0, 0}, {1, 1, 1});
    // very small, very large and far away grids
    for (double s : {1e-9, 1e9}) { explore<1>({7}, a1 * s, s1 * s); explore<2>({3, 5}, {-1.25 * s, 4 * s}, {2 * s, 0.7 * s}); explore<3>({3, 2, 4}, {0.25 * s, 0.5 * s, -0.75 * s}, {100 * s, 3 * s, 0.1 * s}); }
    if (th) { explore<3>({2, 3, 17}, {0, 0, 0}, {1, 1, 1}); explore<3>({19, 2, 3}, {0, 0, 0}, {1, 1, 1}); explore<3>({3, 23, 2}, {0, 0, 0}, {1, 1, 1}); }
    mc::bound("grids", "1D n<=12, 2D all n<=8x8, 3D all n<=5x5x5, plus grids of up to 78000 cells, and the ends and middle of every axis of grids of up to 10^9 cells (thorough 40, 14x14, 7x7x7 and long thin grids)");
}); }
