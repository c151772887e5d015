// C17: what the native library answers, as JSON, for every input that the Python side replays through the bindings.
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <sstream>
#include <array>
#include <set>
#include <fstream>
#include <Eigen/Dense>
#include <Caribou/config.h>
#include <Caribou/constants.h>
#include <Caribou/Geometry/Segment.h>
#include <Caribou/Geometry/Triangle.h>
#include <Caribou/Geometry/Quad.h>
#include <Caribou/Geometry/Tetrahedron.h>
#include <Caribou/Geometry/Hexahedron.h>
#include <Caribou/Geometry/RectangularHexahedron.h>
#include <Caribou/Topology/Grid/Grid.h>
#include <Caribou/Topology/HashGrid.h>
#include <Caribou/Topology/Mesh.h>
#include <Caribou/Topology/BarycentricContainer.h>
using namespace caribou; using namespace caribou::geometry; using namespace caribou::topology;
using UI = UNSIGNED_INTEGER_TYPE;
static std::ofstream out; static bool thorough;
struct W { // a tiny JSON writer
    std::string s; bool first = true;
    void sep() { if (!first) s += ","; first = false; }
};
static std::string js(double v) { if (std::isnan(v)) return "NaN"; if (std::isinf(v)) return v > 0 ? "Infinity" : "-Infinity"; char b[40]; snprintf(b, 40, "%.17g", v); return b; }
static std::string js(bool v) { return v ? "true" : "false"; }
static std::string js(int v) { return std::to_string(v); } static std::string js(unsigned v) { return std::to_string(v); }
static std::string js(long v) { return std::to_string(v); } static std::string js(unsigned long v) { return std::to_string(v); }
static std::string js(long long v) { return std::to_string(v); } static std::string js(unsigned long long v) { return std::to_string(v); }
static std::string js(const std::string &v) { return "\"" + v + "\""; } static std::string js(const char *v) { return js(std::string(v)); }
template <class D> std::string js(const Eigen::DenseBase<D> &m0) {
    const typename D::PlainObject m = m0.derived().eval(); std::string s = "[";
    for (long i = 0; i < m.rows(); ++i) {
        if (!D::IsVectorAtCompileTime) { s += i ? ",[" : "["; for (long j = 0; j < m.cols(); ++j) { if (j) s += ","; s += js(m(i, j)); } s += "]"; }
        else for (long j = 0; j < m.cols(); ++j) { if (i || j) s += ","; s += js(m(i, j)); }
    }
    return s + "]";
}
template <class C> std::string seq(const C &c) { std::string s = "["; bool f = true; for (const auto &x : c) { if (!f) s += ","; f = false; s += js(x); } return s + "]"; }
template <class T, class A> std::string js(const std::vector<T, A> &c) { return seq(c); } template <class T> std::string js(const std::set<T> &c) { return seq(c); } template <class T, size_t N> std::string js(const std::array<T, N> &c) { return seq(c); }
struct Raw { std::string s; }; static std::string js(const Raw &r) { return r.s; }
static void kv(std::string &o) { }
template <class V, class... R> void kv(std::string &o, const char *k, const V &v, const R &... r) { if (!o.empty()) o += ","; o += js(k) + ":" + js(v); kv(o, r...); }
template <class... R> Raw obj(const R &... r) { std::string o; kv(o, r...); return {"{" + o + "}"}; }
static void line(const Raw &r) { out << r.s << "\n"; }

template <class El, int C> std::vector<Eigen::Matrix<double, C, 1>> lattice(int n) {
    std::vector<Eigen::Matrix<double, C, 1>> r; int t = 1; for (int i = 0; i < C; ++i) t *= n;
    for (int k = 0; k < t; ++k) { Eigen::Matrix<double, C, 1> p; int q = k; for (int i = 0; i < C; ++i) { p[i] = -1.25 + 2.5 * (q % n) / (n - 1); q /= n; } r.push_back(p); }
    return r;
}
template <class El> Raw answers(const El &e, bool newton) {
    constexpr int C = El::CanonicalDimension; std::string o; const Element<El> &b = e;
    std::vector<Raw> g; for (auto &q : b.gauss_nodes()) g.push_back(obj("position", q.position, "weight", q.weight));
    std::vector<std::string> gs; std::string gj = "["; for (auto &r : g) gj += (gj.size() > 1 ? "," : "") + r.s; gj += "]";
    std::string nj = "["; for (UI i = 0; i < b.number_of_nodes(); ++i) nj += (i ? "," : "") + js(b.node(i)); nj += "]";
    std::string pj = "["; bool f = true;
    for (auto &xi : lattice<El, C>(thorough ? 6 : 4)) {
        typename El::LocalCoordinates l; for (int i = 0; i < C; ++i) l[i] = xi[i];
        const auto x = b.world_coordinates(l);
        Raw r = newton ? obj("xi", xi, "L", b.L(l), "dL", b.dL(l), "x", x, "J", b.jacobian(l), "in", b.contains_local(l), "in15", b.contains_local(l, 1e-15), "in3", b.contains_local(l, 0.3), "back", b.local_coordinates(x))
                       : obj("xi", xi, "L", b.L(l), "dL", b.dL(l), "x", x, "J", b.jacobian(l), "in15", b.contains_local(l, 1e-15), "in3", b.contains_local(l, 0.3));
        pj += (f ? "" : ",") + r.s; f = false;
    }
    pj += "]";
    // points on the border: the default tolerance matters there
    std::string bj = "["; f = true;
    for (int d = 0; d < C; ++d) for (double v : {1., -1., 0., 1 + 4e-16, 1 + 1e-14, 1 + 1e-12, 1 + 1e-8, -1 - 4e-16, -1 - 1e-14, -1 - 1e-12, -1 - 1e-8, -4e-16, -1e-14, -1e-12, -1e-8}) {
        typename El::LocalCoordinates l; for (int i = 0; i < C; ++i) l[i] = i == d ? v : 0.; Eigen::Matrix<double, C, 1> xi; for (int i = 0; i < C; ++i) xi[i] = l[i];
        bj += (f ? "" : ",") + obj("xi", xi, "in", b.contains_local(l)).s; f = false;
    }
    bj += "]";
    return obj("N", b.number_of_nodes(), "G", b.number_of_gauss_nodes(), "B", b.number_of_boundary_elements(), "nodes", b.nodes(), "node", Raw{nj}, "center", b.center(), "gauss", Raw{gj}, "pts", Raw{pj}, "border", Raw{bj});
}
template <class El> Raw with_normal(const El &e) { if constexpr (std::is_same<El, Triangle<3, Linear>>::value || std::is_same<El, Triangle<3, Quadratic>>::value) return obj("normal", e.normal()); else return obj(); }

template <class El> typename Element<El>::template Matrix<El::NumberOfNodesAtCompileTime, El::Dimension> config(int c) {
    El e; auto n = e.nodes(); Eigen::Matrix<double, El::NumberOfNodesAtCompileTime, El::Dimension> m;
    for (int i = 0; i < m.rows(); ++i) for (int d = 0; d < m.cols(); ++d) m(i, d) = El::Dimension == 1 ? double(n(i)) : double(n(i, d));
    Eigen::Matrix<double, El::Dimension, El::Dimension> A = Eigen::Matrix<double, El::Dimension, El::Dimension>::Identity();
    for (int i = 0; i < A.rows(); ++i) for (int j = 0; j < A.cols(); ++j) A(i, j) += c == 0 ? 0. : (c == 1 ? 0.25 * (i + 1) * (j == (i + 1) % A.cols() ? 1 : 0.5) : (i == j ? 1.5 + i : -0.125 * (j + 1)));
    m = (m * A.transpose()).eval(); for (int i = 0; i < m.rows(); ++i) for (int d = 0; d < m.cols(); ++d) m(i, d) += c * (3.1 * d - 5.3) + (c == 3 ? 0.03125 * ((i * 7 + d * 3) % 5 - 2) : 0.);
    return m;
}
template <class El> void element(const char *family, int dim, int order, const char *cls) {
    line(obj("kind", "element", "family", family, "dim", dim, "order", order, "class", cls, "config", -1, "given", Raw{"null"}, "answers", answers(El(), true), "extra", with_normal(El())));
    for (int c = 0; c < (thorough ? 4 : 4); ++c) {
        auto m = config<El>(c);
        El e(m); Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> given = m;
        line(obj("kind", "element", "family", family, "dim", dim, "order", order, "class", cls, "config", c, "given", given, "answers", answers(e, c < 3), "extra", with_normal(e)));
    }
}
template <class Lin, class Quadr> void promoted(const char *family, int dim, const char *cls) {
    for (int c = 0; c < 3; ++c) { auto m = config<Lin>(c); Lin l(m); Quadr q(l); Eigen::MatrixXd given = m;
        line(obj("kind", "promoted", "family", family, "dim", dim, "class", cls, "given", given, "answers", answers(q, c < 3), "extra", with_normal(q))); }
}
template <UI Order> void rect() {
    using R = RectangularHexahedron<Order>; const char *cls = Order == Linear ? "RectangularHexahedronLinear" : "RectangularHexahedronQuadratic"; const int o = Order;
    line(obj("kind", "rect", "order", o, "class", cls, "args", 0, "answers", answers(R(), true)));
    for (int c = 0; c < 3; ++c) {
        typename R::WorldCoordinates ce(1.3 * c, -2.1 + c, 3.7); typename R::Size H(2.1 - 0.6 * c, 1.1 + c, 0.7);
        typename R::Rotation Rt = Eigen::AngleAxisd(0.7 * c, Eigen::Vector3d(1, 2, -c).normalized()).toRotationMatrix();
        line(obj("kind", "rect", "order", o, "class", cls, "args", 1, "center", ce, "answers", answers(R(ce), true)));
        line(obj("kind", "rect", "order", o, "class", cls, "args", 2, "center", ce, "size", H, "answers", answers(R(ce, H), true)));
        line(obj("kind", "rect", "order", o, "class", cls, "args", 3, "center", ce, "size", H, "rotation", Rt, "answers", answers(R(ce, H, Rt), true)));
        // from the corners of such a box
        R box(ce, H, Rt); Eigen::Matrix<double, 8, 3> n8; for (int i = 0; i < 8; ++i) n8.row(i) = box.node(i).transpose();
        Eigen::MatrixXd given = n8; line(obj("kind", "rect", "order", o, "class", cls, "args", 8, "given", given, "answers", answers(box, true)));
        if (Order == Quadratic) { Eigen::MatrixXd g20 = box.nodes(); line(obj("kind", "rect", "order", o, "class", cls, "args", 20, "given", g20, "answers", answers(box, true))); }
    }
}
template <int D> void grid() {
    using G = Grid<D>; const int mx = thorough ? 3 : 2; int t = 1; for (int i = 0; i < D; ++i) t *= mx;
    for (int k = 0; k < t; ++k) {
        typename G::Subdivisions n; int q = k; for (int i = 0; i < D; ++i) { n[i] = 1 + q % mx + (i == 0 && D == 3 ? 1 : 0); q /= mx; }
        typename G::WorldCoordinates a; typename G::Dimensions s; for (int i = 0; i < D; ++i) { a[i] = 0.3 - 1.1 * i; s[i] = double(n[i]) * (i + 1) * 0.7; }
        G g(a, n, s);
        std::string nodes = "[", cells = "[", pts = "[", edges = "[", faces = "[";
        for (UI i = 0; i < g.number_of_nodes(); ++i) nodes += (i ? "," : "") + obj("x", g.node((typename G::NodeIndex)i), "c", g.node_coordinates_at(i)).s;
        for (UI i = 0; i < g.number_of_cells(); ++i) { auto c = g.cell_coordinates_at((typename G::CellIndex)i); cells += (i ? "," : "") + obj("c", c, "ids", g.node_indices_of((typename G::CellIndex)i), "nodes", g.cell_at((typename G::CellIndex)i).nodes()).s; }
        int per = 7, tt = 1; for (int i = 0; i < D; ++i) tt *= per;
        for (int p = 0; p < tt; ++p) { typename G::WorldCoordinates x; int r = p; for (int i = 0; i < D; ++i) { x[i] = a[i] + s[i] * ((r % per) - 1) / 4. * 0.8125; r /= per; }
            bool in = g.contains(x); pts += (p ? "," : "") + obj("x", x, "in", in, "in1", g.contains(x, 0.5), "ci", g.cell_index_containing(x, true), "ci0", in ? (long long)g.cell_index_containing(x, false) : -2LL, "around", g.cells_around(x), "cc", Raw{in ? js(((const topology::internal::BaseGrid<D, G> &)g).cell_coordinates_at(x, false)) : std::string("null")}, "ccb", Raw{js(((const topology::internal::BaseGrid<D, G> &)g).cell_coordinates_at(x, true))}).s; }
        for (UI i = 0; i < g.number_of_edges(); ++i) edges += (i ? "," : "") + js(g.edge(i));
        if constexpr (D == 3) for (UI i = 0; i < g.number_of_faces(); ++i) faces += (i ? "," : "") + js(g.face(i));
        line(obj("kind", "grid", "dim", D, "anchor", a, "n", n, "size", s, "cells", g.number_of_cells(), "nodes", g.number_of_nodes(), "A", g.anchor_position(), "N", g.N(), "H", g.H(), "S", g.size(), "node", Raw{nodes + "]"}, "cell", Raw{cells + "]"}, "pts", Raw{pts + "]"}, "edges", Raw{edges + "]"}, "faces", Raw{faces + "]"}));
    }
}
template <class El> void hashgrid(const char *family, int order, const char *cls) {
    for (double cs : {0.5, 2.}) {
        HashGrid<El> h(cs, 2); std::string els = "[", pts = "[";
        for (int c = 0; c < 3; ++c) {
            Eigen::MatrixXd given;
            if constexpr (std::is_same<El, RectangularHexahedron<Linear>>::value || std::is_same<El, RectangularHexahedron<Quadratic>>::value) { El e(typename El::WorldCoordinates(c, -c, 1.), typename El::Size(1. + c, 1., 2.)); given = e.nodes(); h.add(e, c + 3); }
            else { El e(config<El>(c)); given = e.nodes(); h.add(e, c + 3); }
            els += (c ? "," : "") + js(given);
        }
        bool f = true; for (int k = 0; k < 343; ++k) { Eigen::Vector3d p((k % 7) - 3.25, (k / 7 % 7) - 4.1, (k / 49) - 2.); auto r = h.get(p); pts += (f ? "" : ",") + obj("p", p, "r", r).s; f = false; }
        line(obj("kind", "hashgrid", "family", family, "order", order, "class", cls, "cell_size", cs, "elements", Raw{els + "]"}, "pts", Raw{pts + "]"}));
    }
}
// a mesh of two elements (config 0 and its translation), embedded points, an interpolated field
template <class El> void mesh(const char *family, int dim, int order, const char *cls) {
    constexpr int N = El::NumberOfNodesAtCompileTime, D = El::Dimension;
    auto m = config<El>(0); Eigen::Matrix<double, Eigen::Dynamic, D, (D > 1 ? Eigen::RowMajor : Eigen::ColMajor)> nodes(2 * N, D);
    for (int i = 0; i < N; ++i) for (int d = 0; d < D; ++d) { nodes(2 * i, d) = 1.1 * m(i, d) + 0.3; nodes(2 * i + 1, d) = 1.1 * m(i, d) + 0.3 + (d == 0 ? 2.2 : 0.275); }
    Eigen::Matrix<unsigned int, Eigen::Dynamic, Eigen::Dynamic> ids(2, N); for (int i = 0; i < N; ++i) { ids(0, i) = 2 * i; ids(1, i) = 2 * i + 1; }
    Mesh<D, EigenNodesHolder<decltype(nodes)>> me(nodes); auto *dom = me.template add_domain<El, unsigned int>(std::string("a"), ids);
    std::string els = "["; for (int e = 0; e < 2; ++e) els += (e ? "," : "") + js(dom->element(e).nodes());
    Eigen::MatrixXd gnodes = nodes, xs(0, D), f(2 * N, 3), f1(2 * N, 1); for (int i = 0; i < 2 * N; ++i) { for (int c = 0; c < 3; ++c) f(i, c) = 0.7 * i * (c - 1) + c * nodes(i, 0) * nodes(i, D - 1); f1(i, 0) = f(i, 2); }
    std::string emb = "null";
    if constexpr (El::CanonicalDimension == D) {
        std::vector<Eigen::Matrix<double, D, 1>> pts; for (int e = 0; e < 2; ++e) { auto el = dom->element(e); for (auto &g : el.gauss_nodes()) pts.push_back(Eigen::Matrix<double, D, 1>(el.world_coordinates(g.position))); }
        Eigen::Matrix<double, D, 1> far = Eigen::Matrix<double, D, 1>::Constant(50.); pts.push_back(far);
        xs.resize(pts.size(), D); for (size_t i = 0; i < pts.size(); ++i) xs.row(i) = pts[i].transpose();
        auto c = dom->embed(xs); Eigen::MatrixXd r(xs.rows(), 3); Eigen::VectorXd r1(xs.rows()); c.interpolate(f, r); c.interpolate(f1, r1);
        std::string bp = "["; for (size_t i = 0; i < c.barycentric_points().size(); ++i) { auto &b = c.barycentric_points()[i]; bool o = i + 1 == c.barycentric_points().size(); bp += (i ? "," : "") + (o ? obj("e", Raw{"null"}) : obj("e", b.element_index, "xi", b.local_coordinates)).s; } bp += "]";
        emb = obj("points", xs, "bp", Raw{bp}, "outside", c.outside_nodes(), "r", Eigen::MatrixXd(r.topRows(r.rows() - 1)), "r1", Eigen::VectorXd(r1.head(r1.size() - 1))).s;
    }
    line(obj("kind", "mesh", "family", family, "dim", dim, "order", order, "class", cls, "nodes", gnodes, "ids", ids, "canonical", dom->canonical_dimension(), "per", dom->number_of_nodes_per_elements(), "elements", Raw{els + "]"}, "field", f, "field1", f1, "embed", Raw{emb}));
}
int main(int, char **argv) {
    out.open(argv[1]); const char *t = getenv("VERIF_TIER"); thorough = t && std::string(t) == "thorough";
#define E(T, fam, dim, ord, cls) element<T>(fam, dim, ord, cls); mesh<T>(fam, dim, ord, cls);
#define S1 Segment<1, Linear>
#define COMMA ,
    E(Segment<1 COMMA Linear>, "Segment", 1, 1, "Segment1DLinear") E(Segment<1 COMMA Quadratic>, "Segment", 1, 2, "Segment1DQuadratic")
    E(Segment<2 COMMA Linear>, "Segment", 2, 1, "Segment2DLinear") E(Segment<2 COMMA Quadratic>, "Segment", 2, 2, "Segment2DQuadratic")
    E(Segment<3 COMMA Linear>, "Segment", 3, 1, "Segment3DLinear") E(Segment<3 COMMA Quadratic>, "Segment", 3, 2, "Segment3DQuadratic")
    E(Triangle<2 COMMA Linear>, "Triangle", 2, 1, "Triangle2DLinear") E(Triangle<2 COMMA Quadratic>, "Triangle", 2, 2, "Triangle2DQuadratic")
    E(Triangle<3 COMMA Linear>, "Triangle", 3, 1, "Triangle3DLinear") E(Triangle<3 COMMA Quadratic>, "Triangle", 3, 2, "Triangle3DQuadratic")
    E(Quad<2 COMMA Linear>, "Quad", 2, 1, "Quad2DLinear") E(Quad<2 COMMA Quadratic>, "Quad", 2, 2, "Quad2DQuadratic")
    E(Quad<3 COMMA Linear>, "Quad", 3, 1, "Quad3DLinear") E(Quad<3 COMMA Quadratic>, "Quad", 3, 2, "Quad3DQuadratic")
    E(Tetrahedron<Linear>, "Tetrahedron", 3, 1, "TetrahedronLinear") E(Tetrahedron<Quadratic>, "Tetrahedron", 3, 2, "TetrahedronQuadratic")
    E(Hexahedron<Linear>, "Hexahedron", 3, 1, "HexahedronLinear") E(Hexahedron<Quadratic>, "Hexahedron", 3, 2, "HexahedronQuadratic")
    promoted<Triangle<2, Linear>, Triangle<2, Quadratic>>("Triangle", 2, "Triangle2DQuadratic"); promoted<Triangle<3, Linear>, Triangle<3, Quadratic>>("Triangle", 3, "Triangle3DQuadratic");
    promoted<Quad<2, Linear>, Quad<2, Quadratic>>("Quad", 2, "Quad2DQuadratic"); promoted<Quad<3, Linear>, Quad<3, Quadratic>>("Quad", 3, "Quad3DQuadratic");
    promoted<Tetrahedron<Linear>, Tetrahedron<Quadratic>>("Tetrahedron", 3, "TetrahedronQuadratic"); promoted<Hexahedron<Linear>, Hexahedron<Quadratic>>("Hexahedron", 3, "HexahedronQuadratic");
    rect<Linear>(); rect<Quadratic>();
    grid<2>(); grid<3>();
    hashgrid<Tetrahedron<Linear>>("Tetrahedron", 1, "Tetrahedron4HashGrid"); hashgrid<Tetrahedron<Quadratic>>("Tetrahedron", 2, "Tetrahedron10HashGrid");
    hashgrid<Hexahedron<Linear>>("Hexahedron", 1, "Hexahedron8HashGrid"); hashgrid<Hexahedron<Quadratic>>("Hexahedron", 2, "Hexahedron20HashGrid");
    hashgrid<RectangularHexahedron<Linear>>("RectangularHexahedron", 1, "RectangularHexahedron8HashGrid"); hashgrid<RectangularHexahedron<Quadratic>>("RectangularHexahedron", 2, "RectangularHexahedron20HashGrid");
    out << "{\"kind\":\"end\"}\n"; out.close();
    return out.good() ? 0 : 1;
}
