// Independent reference description of the finite elements: node layouts as documented, shape functions obtained by
// solving the Vandermonde system of the documented polynomial space at these nodes (no formula shared with the code).
#pragma once
#include "mc.h"
#include <array>
#include <Eigen/Dense>
#include <Caribou/config.h>
#include <Caribou/constants.h>
#include <Caribou/Geometry/Segment.h>
#include <Caribou/Geometry/Triangle.h>
#include <Caribou/Geometry/Quad.h>
#include <Caribou/Geometry/RectangularQuad.h>
#include <Caribou/Geometry/Tetrahedron.h>
#include <Caribou/Geometry/Hexahedron.h>
#include <Caribou/Geometry/RectangularHexahedron.h>

namespace ref {
using LD = long double;
using V3 = std::array<LD, 3>;
enum Kind { LINE, TRI, QUAD, TET, HEX };

struct Elem {
    Kind kind; int order; int dim;
    std::vector<V3> nodes;                   // reference coordinates
    std::vector<std::array<int, 3>> mono;    // exponents of the polynomial space
    std::vector<std::vector<LD>> C;          // C[i][m]: coefficient of monomial m in shape function i

    static LD ipow(LD x, int n) { LD r = 1; while (n-- > 0) r *= x; return r; }
    LD monoval(int m, const V3 &x) const { LD r = 1; for (int d = 0; d < dim; ++d) r *= ipow(x[d], mono[m][d]); return r; }
    LD monoder(int m, int k, const V3 &x) const {
        if (mono[m][k] == 0) return 0;
        LD r = mono[m][k];
        for (int d = 0; d < dim; ++d) r *= ipow(x[d], mono[m][d] - (d == k));
        return r;
    }
    std::vector<LD> L(const V3 &x) const {
        std::vector<LD> r(nodes.size(), 0);
        for (size_t m = 0; m < mono.size(); ++m) { LD v = monoval(m, x); for (size_t i = 0; i < r.size(); ++i) r[i] += C[i][m] * v; }
        return r;
    }
    std::vector<V3> dL(const V3 &x) const {
        std::vector<V3> r(nodes.size(), V3{0, 0, 0});
        for (int k = 0; k < dim; ++k)
            for (size_t m = 0; m < mono.size(); ++m) { LD v = monoder(m, k, x); for (size_t i = 0; i < r.size(); ++i) r[i][k] += C[i][m] * v; }
        return r;
    }
    bool simplex() const { return kind == TRI || kind == TET; }
    // signed margin: >0 strictly inside by that much, 0 on the boundary, <0 outside
    LD margin(const V3 &x) const {
        LD m = 1e9;
        if (simplex()) {
            LD s = 1;
            for (int d = 0; d < dim; ++d) { m = std::min(m, x[d]); s -= x[d]; }
            return std::min(m, s);
        }
        for (int d = 0; d < dim; ++d) m = std::min(m, std::min(1 - x[d], 1 + x[d]));
        return m;
    }
    LD measure() const { switch (kind) { case LINE: return 2; case TRI: return 0.5L; case QUAD: return 4; case TET: return 1.0L / 6; default: return 8; } }
    V3 centroid() const { switch (kind) { case TRI: return V3{1.0L / 3, 1.0L / 3, 0}; case TET: return V3{.25L, .25L, .25L}; default: return V3{0, 0, 0}; } }
    // exact integral of u^a v^b w^c over the reference domain
    LD integral(int a, int b, int c) const {
        auto f = [](int n) { LD r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; };
        if (kind == TRI) return f(a) * f(b) / f(a + b + 2);
        if (kind == TET) return f(a) * f(b) * f(c) / f(a + b + c + 3);
        int e[3] = {a, b, c}; LD r = 1;
        for (int d = 0; d < dim; ++d) r *= (e[d] % 2) ? 0 : 2.0L / (e[d] + 1);
        return r;
    }
};

inline Elem make(Kind k, int order) {
    Elem e; e.kind = k; e.order = order;
    e.dim = (k == LINE) ? 1 : (k == TRI || k == QUAD) ? 2 : 3;
    std::vector<V3> corner; std::vector<std::array<int, 2>> edges;
    switch (k) {
        case LINE: corner = {{-1, 0, 0}, {1, 0, 0}}; edges = {{0, 1}}; break;
        case TRI: corner = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}}; edges = {{0, 1}, {1, 2}, {2, 0}}; break;
        case QUAD: corner = {{-1, -1, 0}, {1, -1, 0}, {1, 1, 0}, {-1, 1, 0}}; edges = {{0, 1}, {1, 2}, {2, 3}, {3, 0}}; break;
        case TET: corner = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; edges = {{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 3}, {2, 3}}; break;
        case HEX: corner = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};
            edges = {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {4, 5}, {5, 6}, {6, 7}, {7, 4}, {0, 4}, {1, 5}, {2, 6}, {3, 7}}; break;
    }
    e.nodes = corner;
    if (order == 2) for (auto &ed : edges) { V3 m; for (int d = 0; d < 3; ++d) m[d] = (corner[ed[0]][d] + corner[ed[1]][d]) / 2; e.nodes.push_back(m); }
    for (int a = 0; a <= 2; ++a) for (int b = 0; b <= 2; ++b) for (int c = 0; c <= 2; ++c) {
        if (e.dim < 3 && c) continue;
        if (e.dim < 2 && b) continue;
        bool in;
        if (e.simplex() || e.dim == 1) in = a + b + c <= order;
        else if (order == 1) in = a <= 1 && b <= 1 && c <= 1;
        else { // serendipity: superlinear degree <= 2
            int s = (a > 1 ? a : 0) + (b > 1 ? b : 0) + (c > 1 ? c : 0); in = s <= 2;
        }
        if (in) e.mono.push_back({a, b, c});
    }
    size_t n = e.nodes.size();
    if (e.mono.size() != n) { fprintf(stderr, "reference element inconsistent\n"); abort(); }
    // invert Vandermonde (V[j][m] = mono_m(node_j)); C[i][m] = (V^-1)[m][i]
    std::vector<std::vector<LD>> A(n, std::vector<LD>(2 * n, 0));
    for (size_t j = 0; j < n; ++j) { for (size_t m = 0; m < n; ++m) A[j][m] = e.monoval(m, e.nodes[j]); A[j][n + j] = 1; }
    for (size_t c = 0; c < n; ++c) {
        size_t p = c; for (size_t r = c; r < n; ++r) if (fabsl(A[r][c]) > fabsl(A[p][c])) p = r;
        std::swap(A[c], A[p]);
        LD piv = A[c][c]; for (auto &x : A[c]) x /= piv;
        for (size_t r = 0; r < n; ++r) if (r != c) { LD f = A[r][c]; if (f != 0) for (size_t k2 = 0; k2 < 2 * n; ++k2) A[r][k2] -= f * A[c][k2]; }
    }
    e.C.assign(n, std::vector<LD>(n));
    for (size_t i = 0; i < n; ++i) for (size_t m = 0; m < n; ++m) e.C[i][m] = A[m][n + i];
    return e;
}

using namespace caribou;
namespace g = caribou::geometry;
template <class E> struct Info;
#define REF_INFO(T, K, O, RECT, NAME) template <> struct Info<T> { static constexpr Kind kind = K; static constexpr int order = O; static constexpr bool rect = RECT; static const char *name() { return NAME; } \
    static const Elem &e() { static const Elem r = make(K, O); return r; } };
#define COMMA ,
REF_INFO(g::Segment<1 COMMA Linear>, LINE, 1, false, "Segment1D-linear")
REF_INFO(g::Segment<2 COMMA Linear>, LINE, 1, false, "Segment2D-linear")
REF_INFO(g::Segment<3 COMMA Linear>, LINE, 1, false, "Segment3D-linear")
REF_INFO(g::Segment<1 COMMA Quadratic>, LINE, 2, false, "Segment1D-quadratic")
REF_INFO(g::Segment<2 COMMA Quadratic>, LINE, 2, false, "Segment2D-quadratic")
REF_INFO(g::Segment<3 COMMA Quadratic>, LINE, 2, false, "Segment3D-quadratic")
REF_INFO(g::Triangle<2 COMMA Linear>, TRI, 1, false, "Triangle2D-linear")
REF_INFO(g::Triangle<3 COMMA Linear>, TRI, 1, false, "Triangle3D-linear")
REF_INFO(g::Triangle<2 COMMA Quadratic>, TRI, 2, false, "Triangle2D-quadratic")
REF_INFO(g::Triangle<3 COMMA Quadratic>, TRI, 2, false, "Triangle3D-quadratic")
REF_INFO(g::Quad<2 COMMA Linear>, QUAD, 1, false, "Quad2D-linear")
REF_INFO(g::Quad<3 COMMA Linear>, QUAD, 1, false, "Quad3D-linear")
REF_INFO(g::Quad<2 COMMA Quadratic>, QUAD, 2, false, "Quad2D-quadratic")
REF_INFO(g::Quad<3 COMMA Quadratic>, QUAD, 2, false, "Quad3D-quadratic")
REF_INFO(g::RectangularQuad<2 COMMA Linear>, QUAD, 1, true, "RectangularQuad2D-linear")
REF_INFO(g::RectangularQuad<3 COMMA Linear>, QUAD, 1, true, "RectangularQuad3D-linear")
REF_INFO(g::RectangularQuad<2 COMMA Quadratic>, QUAD, 2, true, "RectangularQuad2D-quadratic")
REF_INFO(g::RectangularQuad<3 COMMA Quadratic>, QUAD, 2, true, "RectangularQuad3D-quadratic")
REF_INFO(g::Tetrahedron<Linear>, TET, 1, false, "Tetrahedron-linear")
REF_INFO(g::Tetrahedron<Quadratic>, TET, 2, false, "Tetrahedron-quadratic")
REF_INFO(g::Hexahedron<Linear>, HEX, 1, false, "Hexahedron-linear")
REF_INFO(g::Hexahedron<Quadratic>, HEX, 2, false, "Hexahedron-quadratic")
REF_INFO(g::RectangularHexahedron<Linear>, HEX, 1, true, "RectangularHexahedron-linear")
REF_INFO(g::RectangularHexahedron<Quadratic>, HEX, 2, true, "RectangularHexahedron-quadratic")

template <class... T> struct List {};
using Segments = List<g::Segment<1, Linear>, g::Segment<2, Linear>, g::Segment<3, Linear>, g::Segment<1, Quadratic>, g::Segment<2, Quadratic>, g::Segment<3, Quadratic>>;
using Triangles = List<g::Triangle<2, Linear>, g::Triangle<3, Linear>, g::Triangle<2, Quadratic>, g::Triangle<3, Quadratic>>;
using Quads = List<g::Quad<2, Linear>, g::Quad<3, Linear>, g::Quad<2, Quadratic>, g::Quad<3, Quadratic>>;
using RectQuads = List<g::RectangularQuad<2, Linear>, g::RectangularQuad<3, Linear>, g::RectangularQuad<2, Quadratic>, g::RectangularQuad<3, Quadratic>>;
using Tets = List<g::Tetrahedron<Linear>, g::Tetrahedron<Quadratic>>;
using Hexes = List<g::Hexahedron<Linear>, g::Hexahedron<Quadratic>>;
using RectHexes = List<g::RectangularHexahedron<Linear>, g::RectangularHexahedron<Quadratic>>;
// Shards: so that a check compiles and runs its element types in parallel.
#ifndef SHARD
#define SHARD -1
#endif
template <class F, class... T> void each(List<T...>, F &&f) { (f(static_cast<T *>(nullptr)), ...); }
template <class F> void for_shard(F &&f) {
#if SHARD == 0 || SHARD == -1
    each(Segments{}, f);
#endif
#if SHARD == 1 || SHARD == -1
    each(Triangles{}, f);
#endif
#if SHARD == 2 || SHARD == -1
    each(Quads{}, f);
#endif
#if SHARD == 3 || SHARD == -1
    each(RectQuads{}, f);
#endif
#if SHARD == 4 || SHARD == -1
    each(Tets{}, f);
#endif
#if SHARD == 5 || SHARD == -1
    each(Hexes{}, f);
#endif
#if SHARD == 6 || SHARD == -1
    each(RectHexes{}, f);
#endif
}

// ---- families of geometric configurations -----------------------------------------------------------------------
// World dimension D, node matrix as N x D double.
template <int D> struct Affine { Eigen::Matrix<double, D, D> A; Eigen::Matrix<double, D, 1> t; };
// scales: also tiny, huge and far away images (judged relatively)
template <int D> std::vector<Affine<D>> affines(bool scales = false) {
    using M = Eigen::Matrix<double, D, D>; using V = Eigen::Matrix<double, D, 1>;
    std::vector<Affine<D>> r;
    V off; for (int i = 0; i < D; ++i) off[i] = (i == 0 ? 3.25 : i == 1 ? -7.5 : 0.625);
    r.push_back({M::Identity(), V::Zero()});
    r.push_back({M::Identity() * 0.5, off});
    { M a = M::Zero(); for (int i = 0; i < D; ++i) a(i, i) = (i == 0 ? 2. : i == 1 ? 0.75 : 5.); r.push_back({a, -off}); }
    if constexpr (D >= 2) {
        M a = M::Identity(); a(0, 0) = 0.8; a(0, 1) = -0.6; a(1, 0) = 0.6; a(1, 1) = 0.8; // exact-ish rotation
        r.push_back({a * 3., off});
        M p = M::Zero(); for (int i = 0; i < D; ++i) p((i + 1) % D, i) = 1; // cyclic axes (rotation in 3D, reflection in 2D)
        if (D == 2) p(0, 1) = -1;
        r.push_back({p, off * 2});
        M s = M::Identity(); s(0, D - 1) = 0.75; s(D - 1, 0) = -0.25; r.push_back({s * 10., -off * 4}); // shear
    } else {
        M a = M::Identity() * 64.; r.push_back({a, off});
    }
    if constexpr (D == 3) {
        // general rotation (2/3,-1/3,2/3; 2/3,2/3,-1/3; -1/3,2/3,2/3) and anisotropic scale
        M a; a << 2, -1, 2, 2, 2, -1, -1, 2, 2; a /= 3.; M sc = V(1.5, 0.5, 4.).asDiagonal(); r.push_back({a * sc, off});
    }
    if (scales) {
        r.push_back({M::Identity() * 1e-7, off * 1e-7});
        M h = M::Identity() * 1e6; if (D >= 2) { h(0, D - 1) = -3e5; } r.push_back({h, off * 1e6});
        r.push_back({M::Identity() * 0.3, off * 1e3});
    }
    return r;
}
// straight-sided reference nodes embedded in R^D (extra coordinates zero)
template <class E> Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> refnodes() {
    const auto &e = Info<E>::e(); constexpr int D = g::traits<E>::Dimension;
    Eigen::MatrixXd n(e.nodes.size(), D); n.setZero();
    for (size_t i = 0; i < e.nodes.size(); ++i) for (int d = 0; d < std::min(D, e.dim); ++d) n(i, d) = (double)e.nodes[i][d];
    return n;
}
template <class E> E build(const Eigen::MatrixXd &nodes) {
    constexpr int D = g::traits<E>::Dimension; constexpr int N = g::traits<E>::NumberOfNodesAtCompileTime;
    Eigen::Matrix<double, N, D> m = nodes;
    return E(m);
}
// calls f(nodes(N x D), description, affine?) for affine images of the reference element and for single-node perturbations
template <class E, class F> void configurations(F &&f, double delta, bool perturb = true) {
    constexpr int D = g::traits<E>::Dimension;
    Eigen::MatrixXd base = refnodes<E>();
    auto af = affines<D>(true);
    for (size_t a = 0; a < af.size(); ++a) {
        auto image = [&](const Eigen::MatrixXd &n) { Eigen::MatrixXd r(n.rows(), n.cols()); for (long i = 0; i < n.rows(); ++i) r.row(i) = (af[a].A * n.row(i).transpose() + af[a].t).transpose(); return r; };
        f(image(base), mc::str(Info<E>::name(), " affine#", a), true);
        if (!perturb || Info<E>::rect) continue;
        for (long i = 0; i < base.rows(); ++i) for (int d = 0; d < D; ++d) for (int s = -1; s <= 1; s += 2) {
            Eigen::MatrixXd n = base; n(i, d) += s * delta;
            // moving a corner of a linear simplex keeps it affine
            bool lin = Info<E>::order == 1 && (Info<E>::kind == TRI || Info<E>::kind == TET || Info<E>::kind == LINE);
            f(image(n), mc::str(Info<E>::name(), " affine#", a, " node", i, " axis", d, (s > 0 ? "+" : "-"), delta), lin);
        }
    }
}
// world position / jacobian by the reference shape functions
inline std::array<LD, 3> world(const Elem &e, const Eigen::MatrixXd &n, const V3 &x) {
    auto L = e.L(x); std::array<LD, 3> r{0, 0, 0};
    for (long i = 0; i < n.rows(); ++i) for (long d = 0; d < n.cols(); ++d) r[d] += L[i] * (LD)n(i, d);
    return r;
}
template <class E> auto loc(const V3 &x) { typename E::LocalCoordinates l; for (int d = 0; d < (int)g::traits<E>::CanonicalDimension; ++d) l[d] = (double)x[d]; return l; }
// lattice of reference coordinates; q points per unit, covering the reference domain enlarged by `ext`
inline std::vector<V3> lattice(const Elem &e, int q, double ext) {
    std::vector<V3> r; double lo = (e.simplex() ? 0 : -1) - ext, hi = 1 + ext;
    int n = (int)std::lround((hi - lo) * q) + 1;
    std::vector<int> rad(e.dim, n);
    mc::product(rad, [&](const std::vector<int> &d) { V3 x{0, 0, 0}; for (int k = 0; k < e.dim; ++k) x[k] = (LD)(lo + (double)d[k] / q); r.push_back(x); });
    return r;
}
inline std::string show(const V3 &x) { return mc::str("(", (double)x[0], ",", (double)x[1], ",", (double)x[2], ")"); }
} // namespace ref
