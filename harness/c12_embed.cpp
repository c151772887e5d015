// C12: embedding points in domains and interpolating fields onto them.
// Meshes are images of integer lattices (cells optionally removed), so membership of a point is decided on the lattice.
#include "ref.h"
#include <Caribou/Topology/Mesh.h>
#include <Caribou/Topology/Domain.h>
#include <Caribou/Topology/BarycentricContainer.h>
using namespace ref;
namespace tp = caribou::topology;
using UI = UNSIGNED_INTEGER_TYPE;

// A lattice mesh: nodes in lattice coordinates (quarters allowed for mid nodes) and elements.
struct LM { int dim; std::vector<V3> nodes; std::vector<std::vector<int>> el; std::vector<int> cell; /* cell of each element */ std::vector<std::array<int, 3>> cells; };
// corner lists of the elements that fill the unit cell, per kind (indices into the cell's 2^d corners, x fastest)
static std::vector<std::vector<int>> split(Kind k) {
    switch (k) {
        case LINE: return {{0, 1}};
        case TRI: return {{0, 1, 3}, {0, 3, 2}};
        case QUAD: return {{0, 1, 3, 2}};
        case TET: return {{0, 1, 3, 7}, {0, 3, 2, 7}, {0, 2, 6, 7}, {0, 6, 4, 7}, {0, 4, 5, 7}, {0, 5, 1, 7}}; // Kuhn
        default: return {{0, 1, 3, 2, 4, 5, 7, 6}};
    }
}
static LM lattice_mesh(Kind k, int order, const std::vector<std::array<int, 3>> &cells) {
    LM m; const Elem e = make(k, order); m.dim = e.dim; m.cells = cells;
    std::map<std::array<long, 3>, int> id;
    auto node = [&](const V3 &p) { std::array<long, 3> q; for (int d = 0; d < 3; ++d) q[d] = std::lround((double)(p[d] * 2)); auto it = id.find(q); if (it != id.end()) return it->second; int n = (int)m.nodes.size(); id[q] = n; m.nodes.push_back(p); return n; };
    const Elem lin = make(k, 1);
    for (size_t c = 0; c < cells.size(); ++c) for (auto &corners : split(k)) {
        std::vector<int> el; std::vector<V3> cp;
        for (int q : corners) { V3 p{0, 0, 0}; for (int d = 0; d < e.dim; ++d) p[d] = cells[c][d] + ((q >> d) & 1); cp.push_back(p); }
        for (auto &rn : e.nodes) { auto L = lin.L(rn); V3 p{0, 0, 0}; for (size_t i = 0; i < cp.size(); ++i) for (int d = 0; d < 3; ++d) p[d] += L[i] * cp[i][d]; el.push_back(node(p)); }
        m.el.push_back(el); m.cell.push_back((int)c);
    }
    return m;
}
// monotone per-axis warp, linear within each cell: very different cell sizes (widths 1, 1/16, 8, 1/2 repeating), exact in binary
static LD warp(LD x) {
    static const LD w[4] = {1, 0.0625L, 8, 0.5L}; const LD per = w[0] + w[1] + w[2] + w[3];
    long c = (long)floorl(x); LD f = x - c; long p = c >= 0 ? c / 4 : -((-c + 3) / 4); int r = (int)(c - 4 * p);
    LD s = p * per; for (int i = 0; i < r; ++i) s += w[i]; return s + f * w[r];
}
template <class E> struct Run {
    static constexpr int D = g::traits<E>::Dimension, N = g::traits<E>::NumberOfNodesAtCompileTime;
    using Dm = tp::Domain<E>; using Mesh = tp::Mesh<D>;
    const Elem &re = Info<E>::e(); const std::string nm = Info<E>::name();
    // exact: membership of boundary points is judged too (the map is exact in binary)
    void mesh(const LM &lm, const Affine<D> &af, bool exact, const std::string &what, int q, bool fine = false, bool graded = false) {
        mc::trace(); mc::crumb(nm + " " + what);
        auto map = [&](const V3 &p) { Eigen::Matrix<double, D, 1> v; for (int d = 0; d < D; ++d) v[d] = (double)(graded ? warp(p[d]) : p[d]); return Eigen::Matrix<double, D, 1>(af.A * v + af.t); };
        std::vector<typename Mesh::WorldCoordinates> pos; for (auto &n : lm.nodes) pos.push_back(map(n).transpose());
        pos.push_back(map(V3{50, 50, 50}).transpose()); // a node that no element uses
        Mesh m(pos);
        typename Dm::ElementsIndices idx(lm.el.size(), N); for (size_t e = 0; e < lm.el.size(); ++e) for (int j = 0; j < N; ++j) idx(e, j) = lm.el[e][j];
        const Dm *dom = m.template add_domain<E>("d", idx);
        double scale = 0; for (size_t i = 0; i + 1 < pos.size(); ++i) { const auto &p = pos[i]; scale = std::max(scale, p.cwiseAbs().maxCoeff()); }
        // embedded points: lattice with q points per cell, one cell around
        std::vector<V3> P; std::vector<int> cls; // 1 inside/boundary, 0 outside, -1 not judged
        std::array<int, 3> lo{99, 99, 99}, hi{-99, -99, -99}; for (auto &c : lm.cells) for (int d = 0; d < D; ++d) { lo[d] = std::min(lo[d], c[d]); hi[d] = std::max(hi[d], c[d] + 1); }
        std::vector<std::vector<int>> axis(D); // numerators (denominator q) per axis
        for (int d = 0; d < D; ++d) {
            if (!fine) for (int k = (lo[d] - 1) * q; k <= (hi[d] + 1) * q; ++k) axis[d].push_back(k);
            else { std::set<int> s; for (int c = lo[d]; c < hi[d]; ++c) for (int o : {-1, 0, 1, q / 2, q - 1, q, q + 1}) s.insert(c * q + o); axis[d].assign(s.begin(), s.end()); }
        }
        std::vector<int> rad; for (int d = 0; d < D; ++d) rad.push_back((int)axis[d].size());
        mc::product(rad, [&](const std::vector<int> &k) {
            V3 p{0, 0, 0}; bool in = false, bnd = false; std::array<int, 3> num{0, 0, 0};
            for (int d = 0; d < D; ++d) { num[d] = axis[d][k[d]]; p[d] = (LD)num[d] / q; }
            for (auto &c : lm.cells) { bool i = true; for (int d = 0; d < D; ++d) i = i && c[d] * q <= num[d] && num[d] <= (c[d] + 1) * q; in = in || i; }
            // on the outer boundary: one of the cells around the point is missing
            mc::product(std::vector<int>(D, 2), [&](const std::vector<int> &s) { bool any = false; for (auto &c : lm.cells) { bool i = true; for (int d = 0; d < D; ++d) { int cc = num[d] % q == 0 ? num[d] / q - s[d] : (num[d] >= 0 ? num[d] / q : -((-num[d] + q - 1) / q)); i = i && c[d] == cc; } any = any || i; } bnd = bnd || !any; });
            P.push_back(p); cls.push_back(!in ? 0 : (bnd && !exact) ? -1 : 1);
        });
        Eigen::MatrixXd pts(P.size(), D); for (size_t i = 0; i < P.size(); ++i) pts.row(i) = map(P[i]).transpose();
        const auto bc = dom->embed(pts); mc::step();
        judge(*dom, bc, P, pts, cls, lm, what, scale, af);
        if constexpr (D > 1) { Eigen::Matrix<double, Eigen::Dynamic, D, Eigen::RowMajor> fixed = pts; const auto b2 = dom->embed(fixed); judge(*dom, b2, P, pts, cls, lm, what + " (row-major points)", scale, af); }
        // an empty list of points
        Eigen::MatrixXd none(0, D); const auto b0 = dom->embed(none); mc::step();
        mc::check(b0.barycentric_points().empty() && b0.outside_nodes().empty(), "empty-list", nm, what);
        interpolation(m, bc, pts, cls, what, scale);
        errors(m, *dom, bc, pts, what);
    }
    template <class BC> void judge(const Dm &dom, const BC &bc, const std::vector<V3> &P, const Eigen::MatrixXd &pts, const std::vector<int> &cls, const LM &lm, const std::string &what, double scale, const Affine<D> &) {
        const auto &bp = bc.barycentric_points(); const auto &out = bc.outside_nodes();
        if (!mc::check(bp.size() == P.size(), "one-entry-per-point", nm, what, " ", bp.size(), " entries for ", P.size(), " points")) return;
        std::vector<UI> want_out;
        for (size_t i = 0; i < P.size(); ++i) {
            mc::state();
            const long e = (long)bp[i].element_index;
            if (cls[i] == 1) mc::check(e >= 0, "inside-found", nm, what, " point ", show(P[i]), " (lattice coordinates) is inside but was not found");
            if (cls[i] == 0) mc::check(e == -1, "outside-rejected", nm, what, " point ", show(P[i]), " (lattice coordinates) is outside but was assigned to element ", e);
            if (e == -1) want_out.push_back(i);
            if (e >= 0) {
                if (!mc::check(e < (long)lm.el.size(), "element-range", nm, what, " element ", e)) continue;
                V3 x{0, 0, 0}; for (int d = 0; d < re.dim; ++d) x[d] = bp[i].local_coordinates[d];
                Eigen::MatrixXd n(N, D); for (int j = 0; j < N; ++j) n.row(j) = dom.mesh()->node(lm.el[e][j]).template head<D>().transpose();
                auto w = world(re, n, x); double err = 0; for (int d = 0; d < D; ++d) err = std::max(err, std::fabs((double)w[d] - pts(i, d)));
                mc::check(err <= 1e-9 * scale, "maps-back", nm, what, " point ", show(P[i]), " element ", e, " local ", show(x), " maps to a point ", err, " away");
                mc::check((double)re.margin(x) >= -1e-6, "local-inside", nm, what, " point ", show(P[i]), " element ", e, " local ", show(x), " is outside the element");
            }
            const auto p1 = bc.barycentric_point(pts.row(i).transpose()); mc::step();
            const long e1 = (long)p1.element_index; // a point shared by several elements may be given to any of them
            if (mc::check((e1 == -1) == (e == -1) && e1 >= -1 && e1 < (long)lm.el.size(), "single-query-agrees", nm, what, " point ", show(P[i]), ": element ", e, " in the list, ", e1, " alone") && e1 >= 0) {
                V3 x{0, 0, 0}; for (int d = 0; d < re.dim; ++d) x[d] = p1.local_coordinates[d];
                Eigen::MatrixXd n(N, D); for (int j = 0; j < N; ++j) n.row(j) = dom.mesh()->node(lm.el[e1][j]).template head<D>().transpose();
                auto w = world(re, n, x); double err = 0; for (int d = 0; d < D; ++d) err = std::max(err, std::fabs((double)w[d] - pts(i, d)));
                mc::check(err <= 1e-9 * scale && (double)re.margin(x) >= -1e-6, "single-query-agrees", nm + ":point", what, " point ", show(P[i]), " element ", e1, " local ", show(x), " maps ", err, " away, margin ", (double)re.margin(x));
            }
            if (cls[i] == 1) {
                const auto ce = bc.closest_elements(pts.row(i).transpose()); mc::step();
                bool has = false;
                for (auto &c : ce) {
                    has = has || (long)c.element_index == e;
                    if (c.element_index < 0 || (size_t)c.element_index >= lm.el.size()) { mc::check(false, "closest-range", nm, what); continue; }
                }
                mc::check(has, "closest-contains", nm, what, " point ", show(P[i]), ": the containing element is not among the closest elements");
            }
        }
        bool same = out.size() == want_out.size(); for (size_t i = 0; same && i < out.size(); ++i) same = out[i] == want_out[i];
        mc::check(same, "outside-list", nm, what, " lists ", out.size(), " outside points, ", want_out.size(), " have no element (or another order)");
    }
    // linear fields
    template <class BC> void interpolation(const Mesh &m, const BC &bc, const Eigen::MatrixXd &pts, const std::vector<int> &cls, const std::string &what, double scale) {
        const int nn = (int)m.number_of_nodes(), np = (int)pts.rows();
        auto lin = [&](int c, const auto &x) { double r = c + 1; for (int d = 0; d < D; ++d) r += (d + 2) * (c % 2 ? -1. : 1.) * (c + 1) * x[d]; return r; };
        auto go = [&](auto in, auto out, const char *t, double tol) {
            using S = typename decltype(out)::Scalar; const int C = (int)in.cols();
            for (int i = 0; i < nn; ++i) { auto p = m.position(i); for (int c = 0; c < C; ++c) in(i, c) = (typename decltype(in)::Scalar)lin(c, p); }
            out.setConstant(S(-12345)); mc::step();
            bc.interpolate(in, out);
            for (int i = 0; i < np; ++i) {
                const bool found = bc.barycentric_points()[i].element_index >= 0;
                for (int c = 0; c < C; ++c) {
                    Eigen::Matrix<double, D, 1> x = pts.row(i).transpose();
                    if (found) mc::check(mc::near((double)out(i, c), lin(c, x), tol * (1 + scale)), "linear-field", nm, what, " ", t, " row ", i, " component ", c, " got ", (double)out(i, c), " want ", lin(c, x));
                    else mc::check(out(i, c) == S(-12345), "outside-row-untouched", nm, what, " ", t, " row ", i, " written with ", (double)out(i, c));
                }
            }
        };
        go(Eigen::MatrixXd(nn, 3), Eigen::MatrixXd(np, 3), "dynamic 3 columns", 1e-8);
        go(Eigen::VectorXd(nn), Eigen::VectorXd(np), "scalar", 1e-8);
        go(Eigen::Matrix<double, Eigen::Dynamic, 2, Eigen::RowMajor>(nn, 2), Eigen::Matrix<double, Eigen::Dynamic, 2, Eigen::RowMajor>(np, 2), "row-major 2 columns", 1e-8);
        // a field of the element's own interpolation space: value 1 at one node: the result is that node's shape function
        for (int k = 0; k < nn; k += std::max(1, nn / 5)) {
            Eigen::VectorXd f = Eigen::VectorXd::Zero(nn), o = Eigen::VectorXd::Constant(np, 9); f[k] = 1; bc.interpolate(f, o); mc::step();
            for (int i = 0; i < np; ++i) {
                const auto &b = bc.barycentric_points()[i]; if (b.element_index < 0) continue;
                V3 x{0, 0, 0}; for (int d = 0; d < re.dim; ++d) x[d] = b.local_coordinates[d];
                auto L = re.L(x); double want = 0; const auto ii = cur_el[b.element_index]; for (int j = 0; j < N; ++j) if (ii[j] == k) want += (double)L[j];
                mc::check(mc::near(o[i], want, 1e-9), "nodal-field", nm, what, " node ", k, " row ", i, " got ", o[i], " want ", want);
            }
        }
    }
    std::vector<std::vector<int>> cur_el;
    template <class F> void throws(const char *w, const std::string &what, F &&f) {
        bool t = false; try { f(); } catch (const std::exception &) { t = true; } mc::step();
        mc::check(t, "rejected", nm + ":" + w, what, ": ", w, " was accepted");
    }
    template <class BC> void errors(const Mesh &m, const Dm &dom, const BC &bc, const Eigen::MatrixXd &pts, const std::string &what) {
        const int nn = (int)m.number_of_nodes(), np = (int)pts.rows();
        for (int dr = -1; dr <= 1; ++dr) for (int dw = -1; dw <= 1; ++dw) for (int dc = -1; dc <= 1; ++dc) {
            if (!dr && !dw && !dc) continue;
            Eigen::MatrixXd in = Eigen::MatrixXd::Zero(nn + dr, 2), out = Eigen::MatrixXd::Constant(np + dw, 2 + dc, 4.5);
            mc::crumb(mc::str(nm, " ", what, " mismatched sizes ", dr, dw, dc)); mc::state();
            throws(mc::str("field rows ", dr, ", output rows ", dw, ", columns ", dc).c_str(), what, [&] { bc.interpolate(in, out); });
            mc::check((out.array() == 4.5).all(), "rejected-writes-nothing", nm, what, " sizes ", dr, " ", dw, " ", dc);
        }
        for (int c : {D - 1, D + 1}) { if (c == 0) continue; Eigen::MatrixXd w = Eigen::MatrixXd::Zero(2, c); mc::state(); throws(mc::str(c, "D points").c_str(), what, [&] { dom.embed(w); }); }
        typename Dm::ElementsIndices none(0, N); Dm empty(&m, none); mc::state();
        throws("empty domain", what, [&] { empty.embed(pts); });
        throws("empty domain, no points", what, [&] { tp::BarycentricContainer<Dm> b(&empty); });
    }
    void run() {
        using C = std::vector<std::array<int, 3>>; std::vector<std::pair<std::string, C>> ms;
        if (D == 1) ms = {{"one", {{0, 0, 0}}}, {"three", {{0, 0, 0}, {1, 0, 0}, {2, 0, 0}}}, {"gap", {{0, 0, 0}, {2, 0, 0}, {5, 0, 0}}}, {"negative", {{-3, 0, 0}, {-2, 0, 0}, {-1, 0, 0}, {0, 0, 0}}}};
        else if (D == 2) ms = {{"one", {{0, 0, 0}}}, {"2x2", {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {1, 1, 0}}}, {"L", {{-1, -1, 0}, {0, -1, 0}, {-1, 0, 0}}}, {"gap", {{0, 0, 0}, {2, 1, 0}}}, {"checker", {{-2, -1, 0}, {-1, 0, 0}, {0, 1, 0}}}};
        else ms = {{"one", {{0, 0, 0}}}, {"2x1x1", {{-1, 0, 0}, {0, 0, 0}}}, {"L", {{0, 0, 0}, {0, 1, 0}, {0, 1, 1}}}, {"gap", {{-1, -1, -1}, {1, 0, 0}}}};
        auto af = affines<D>(true);
        std::vector<bool> exact = {true, true, true}; exact.resize(af.size(), false);
        int q = D == 1 ? 16 : D == 2 ? 8 : 4;
        if (mc::thorough()) q *= 2;
        for (auto &me : ms) {
            LM lm = lattice_mesh(Info<E>::kind, Info<E>::order, me.second); cur_el = lm.el;
            for (size_t a = 0; a < af.size(); ++a) {
                if (Info<E>::rect && a >= 3 && a + 1 < af.size()) continue;
                mesh(lm, af[a], exact[a], mc::str(me.first, " affine#", a), q);
                mesh(lm, af[a], exact[a], mc::str(me.first, " affine#", a, " near the faces"), 65536, true);
                // odd subdivision: points never on the lattice of the cells except on the faces
                mesh(lm, af[a], false, mc::str(me.first, " affine#", a, " thirds"), 3);
            }
            mc::sample(nm + " " + me.first, mc::str(lm.el.size(), " elements, ", lm.nodes.size(), " nodes, ", af.size(), " affine images, ", q, " points per cell and axis"));
        }
        // graded meshes: neighbouring cells differ in size by factors up to 128
        {
            C g; const int n = D == 1 ? 12 : D == 2 ? 5 : (Info<E>::order == 1 ? 3 : 2), o = D == 1 ? -5 : -1;
            mc::product(std::vector<int>(D, n), [&](const std::vector<int> &k) { std::array<int, 3> c{0, 0, 0}; for (int d = 0; d < D; ++d) c[d] = k[d] + o; g.push_back(c); });
            LM lm = lattice_mesh(Info<E>::kind, Info<E>::order, g); cur_el = lm.el;
            for (size_t a = 0; a < af.size(); ++a) {
                if (Info<E>::rect && a >= 3 && a + 1 < af.size()) continue;
                if (D == 3 && !mc::thorough() && a != 0 && a != 2 && a != 5) continue;
                mesh(lm, af[a], exact[a], mc::str("graded affine#", a), 2, false, true);
                if (D < 3 || (a == 0 && (Info<E>::order == 1 || mc::thorough()))) mesh(lm, af[a], exact[a], mc::str("graded affine#", a, " near the faces"), D == 1 ? 65536 : 256, true, true);
            }
        }
        if constexpr (Info<E>::order == 1 && (D == 1 || N == 4 && D == 2) && !Info<E>::rect) many();
        distorted();
    }
    // more elements than any narrow index can count: the centre of each element
    void many() {
        const int nx = D == 1 ? 70000 : 260, ny = D == 1 ? 1 : 260; mc::trace(); mc::crumb(nm + " many elements");
        std::vector<typename Mesh::WorldCoordinates> pos;
        for (int j = 0; j < (D == 1 ? 1 : ny + 1); ++j) for (int i = 0; i <= nx; ++i) { typename Mesh::WorldCoordinates w; w[0] = i * 0.25 - 1000; if constexpr (D == 2) w[1] = j * 0.5 - 20; pos.push_back(w); }
        Mesh m(pos); typename Dm::ElementsIndices idx(nx * ny, N);
        for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { int e = j * nx + i, b = j * (nx + 1) + i; idx(e, 0) = b; idx(e, 1) = b + 1; if constexpr (D == 2) { idx(e, 2) = b + nx + 2; idx(e, 3) = b + nx + 1; } }
        const Dm *dom = m.template add_domain<E>("d", idx); Eigen::MatrixXd pts(nx * ny + 2, D); 
        for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { pts(j * nx + i + 1, 0) = i * 0.25 - 1000 + 0.125; if (D == 2) pts(j * nx + i + 1, 1) = j * 0.5 - 20 + 0.25; }
        pts.row(0).setConstant(-5000); pts.row(nx * ny + 1).setConstant(50000);
        const auto bc = dom->embed(pts); mc::step();
        mc::check(bc.outside_nodes().size() == 2 && bc.outside_nodes()[0] == 0 && bc.outside_nodes()[1] == (UI)(nx * ny + 1), "outside-list", nm, "many elements: ", bc.outside_nodes().size(), " outside points");
        Eigen::MatrixXd in(pos.size(), 2), out = Eigen::MatrixXd::Constant(pts.rows(), 2, -9); for (size_t i = 0; i < pos.size(); ++i) { in(i, 0) = pos[i][0]; in(i, 1) = 3 - pos[i][D - 1]; }
        bc.interpolate(in, out); mc::step();
        for (int e = 0; e < nx * ny; ++e) { mc::state();
            mc::check((long)bc.barycentric_points()[e + 1].element_index == e, "inside-found", nm, "many elements: the centre of element ", e, " was assigned to ", (long)bc.barycentric_points()[e + 1].element_index);
            mc::check(mc::near(out(e + 1, 0), pts(e + 1, 0), 1e-7) && mc::near(out(e + 1, 1), 3 - pts(e + 1, D - 1), 1e-7), "linear-field", nm, "many elements: element ", e); }
        mc::check(out(0, 0) == -9 && out(nx * ny + 1, 1) == -9, "outside-row-untouched", nm, "many elements");
    }
    // non-affine (bilinear) straight-sided meshes: points are generated from the elements
    void distorted() {
        if constexpr (N == 4 && D == 2 || N == 8 && D == 3) {
            if (Info<E>::rect) return;
            std::vector<std::array<int, 3>> cells; if (D == 2) cells = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {1, 1, 0}}; else cells = {{0, 0, 0}, {1, 0, 0}};
            LM lm = lattice_mesh(Info<E>::kind, 1, cells);
            for (size_t k = 0; k < lm.nodes.size(); ++k) for (int d = 0; d < D; ++d) for (int s = -1; s <= 1; s += 2) {
                auto mv = lm; mv.nodes[k][d] += s * 0.125L; cur_el = mv.el; mc::trace();
                std::vector<typename Mesh::WorldCoordinates> pos; for (auto &n : mv.nodes) { typename Mesh::WorldCoordinates w; for (int a = 0; a < D; ++a) w[a] = (double)n[a]; pos.push_back(w); }
                Mesh m(pos); typename Dm::ElementsIndices idx(mv.el.size(), N); for (size_t e = 0; e < mv.el.size(); ++e) for (int j = 0; j < N; ++j) idx(e, j) = mv.el[e][j];
                const Dm *dom = m.template add_domain<E>("d", idx); const std::string what = mc::str("distorted node ", k, " axis ", d, " ", s); mc::crumb(nm + " " + what);
                tp::BarycentricContainer<Dm> bc(dom);
                for (size_t e = 0; e < mv.el.size(); ++e) {
                    Eigen::MatrixXd n(N, D); for (int j = 0; j < N; ++j) n.row(j) = pos[mv.el[e][j]];
                    for (auto &x : lattice(re, D == 2 ? 3 : 2, 0)) {
                        if (re.margin(x) < 0.01) continue;
                        mc::state(); auto w = world(re, n, x); typename E::WorldCoordinates p; for (int a = 0; a < D; ++a) p[a] = (double)w[a];
                        const auto b = bc.barycentric_point(p); mc::step();
                        mc::check((size_t)b.element_index == e, "distorted-found", nm, what, " local ", show(x), " of element ", e, " assigned to ", (long)b.element_index);
                        if ((size_t)b.element_index == e) { double err = 0; for (int a = 0; a < D; ++a) err = std::max(err, std::fabs(b.local_coordinates[a] - (double)x[a])); mc::check(err < 1e-4, "distorted-local", nm, what, " local ", show(x), " error ", err); }
                    }
                }
            }
        }
    }
};
int main(int c, char **v) {
    return mc::run(c, v, [] {
#if SHARD == 0
        Run<g::Segment<1, Linear>>().run(); Run<g::Segment<1, Quadratic>>().run();
#elif SHARD == 1
        Run<g::Triangle<2, Linear>>().run(); Run<g::Triangle<2, Quadratic>>().run();
#elif SHARD == 2
        Run<g::Quad<2, Linear>>().run(); Run<g::Quad<2, Quadratic>>().run();
#elif SHARD == 3
        Run<g::RectangularQuad<2, Linear>>().run(); Run<g::RectangularHexahedron<Linear>>().run();
#elif SHARD == 4
        Run<g::Tetrahedron<Linear>>().run();
#elif SHARD == 5
        Run<g::Hexahedron<Linear>>().run();
#elif SHARD == 6
        Run<g::Tetrahedron<Quadratic>>().run();
#else
        Run<g::Hexahedron<Quadratic>>().run();
#endif
        mc::bound("embedding", "meshes of 1 to 4 lattice cells (connected, gaps, negative) and graded blocks (neighbouring sizes up to 128:1), affine images (also 1e-7, 1e6 and far away), 70000 elements, every lattice point in and one cell around; all combinations of +-1 size mismatches");
    });
}
