// C08: hexahedron/segment and hexahedron/triangle intersection against an exact integer separating-axis oracle.
#include "ref.h"
using namespace ref;
using I = long long;
struct P { I x[3]; };
static I S = 2; // half size of the cube in lattice units

// -1: strictly separated, +1: meets the open cube, 0: only touches
static int classify(const P *p, int n) {
    int verdict = 1;
    auto axis = [&](I a, I b, I c) {
        if (!a && !b && !c) return;
        I r = S * (llabs(a) + llabs(b) + llabs(c)), lo = 0, hi = 0;
        for (int i = 0; i < n; ++i) { I d = a * p[i].x[0] + b * p[i].x[1] + c * p[i].x[2]; if (!i || d < lo) lo = d; if (!i || d > hi) hi = d; }
        if (lo > r || hi < -r) verdict = -1; else if ((lo >= r || hi <= -r) && verdict > 0) verdict = 0;
    };
    axis(1, 0, 0); axis(0, 1, 0); axis(0, 0, 1);
    I e[3][3]; int m = n == 2 ? 1 : 3;
    for (int i = 0; i < m; ++i) for (int d = 0; d < 3; ++d) e[i][d] = p[(i + 1) % n].x[d] - p[i].x[d];
    for (int i = 0; i < m; ++i) { axis(0, e[i][2], -e[i][1]); axis(-e[i][2], 0, e[i][0]); axis(e[i][1], -e[i][0], 0); }
    if (n == 3) axis(e[0][1] * e[1][2] - e[0][2] * e[1][1], e[0][2] * e[1][0] - e[0][0] * e[1][2], e[0][0] * e[1][1] - e[0][1] * e[1][0]);
    return verdict;
}
static std::string sh(const P *p, int n) { std::string s; for (int i = 0; i < n; ++i) s += mc::str("(", p[i].x[0] / (double)S, ",", p[i].x[1] / (double)S, ",", p[i].x[2] / (double)S, ")"); return s + " in cube coordinates [-1,1]^3"; }
using V = Eigen::Vector3d; using M = Eigen::Matrix3d;
template <class H> void explore(const H &h, const std::string &nm, const M &A, const V &t, const std::vector<I> &K, int stride, const std::vector<double> &eps) {
    std::vector<P> pts; std::vector<V> w;
    for (I a : K) for (I b : K) for (I c : K) { pts.push_back({{a, b, c}}); w.push_back(A * V(a / (double)S, b / (double)S, c / (double)S) + t); }
    mc::crumb(nm); mc::trace();
    size_t n = pts.size(), part = atoi(getenv("MC_PART") ? getenv("MC_PART") : "0"), parts = atoi(getenv("MC_PARTS") ? getenv("MC_PARTS") : "1");
    for (size_t i = part; i < n; i += parts) for (size_t j = 0; j < n; ++j) {
        P s[2] = {pts[i], pts[j]};
        int c = classify(s, 2);
        if (i != j) {
            mc::state();
            if (c) { g::Segment<3, Linear> seg(w[i], w[j]); for (double e : eps) { bool r = h.intersects(seg, e); mc::step(); mc::check(r == (c > 0), "segment", nm, sh(s, 2), " eps ", e, " reported ", r, " exact ", c > 0); } }
        }
        for (size_t k = (i * 7 + j * 3) % stride; k < n; k += stride) {
            if (k == i || k == j || i == j) continue;
            P q[3] = {pts[i], pts[j], pts[k]};
            int d = classify(q, 3);
            mc::state();
            if (!d) continue;
            g::Triangle<3, Linear> tri(w[i], w[j], w[k]);
            for (double e : eps) { bool r = h.intersects(tri, e); mc::step(); mc::check(r == (d > 0), "triangle", nm, sh(q, 3), " eps ", e, " reported ", r, " exact ", d > 0); }
        }
    }
}
int main(int ac, char **av) { return mc::run(ac, av, [] {
    std::vector<I> A = {-3, -1, 0, 1, 3}, B = {-5, -2, 0, 1, 4}, L = {-101, -37, 1, 29, 90}, T7 = {-5, -3, -1, 0, 1, 3, 5};
    M id = M::Identity(); V z = V::Zero();
    bool th = mc::thorough();
    g::RectangularHexahedron<Linear> unit;
    explore(unit, "RectangularHexahedron-linear unit", id, z, A, 1, {0., 1e-10});
    explore(unit, "RectangularHexahedron-linear unit B", id, z, B, th ? 1 : 3, {0., 1e-10, 1e-6});
    if (th) explore(unit, "RectangularHexahedron-linear unit 7", id, z, T7, 2, {0., 1e-10});
    explore(unit, "RectangularHexahedron-linear unit far", id, z, L, th ? 1 : 3, {0., 1e-10});
    g::RectangularHexahedron<Quadratic> uq;
    explore(uq, "RectangularHexahedron-quadratic unit", id, z, A, th ? 1 : 7, {0., 1e-10});
    M o; o << 2, -1, 2, 2, 2, -1, -1, 2, 2; o /= 3.; M zr; zr << .8, -.6, 0, .6, .8, 0, 0, 0, 1;
    std::vector<V> sz = {V(1, 1, 1), V(0.25, 3, 10), V(40, 0.5, 2)};
    int idx = 0;
    for (const M &R : {id, o, zr}) for (const V &H : sz) for (const V &c : {z, V(10, -3.5, 0.75)}) {
        ++idx;
        std::string d = mc::str(" centre ", mc::show(c.transpose()), " size ", mc::show(H.transpose()), " rotation#", (idx - 1) / 6);
        M A3 = R * (H / 2).asDiagonal();
        explore(g::RectangularHexahedron<Linear>(c, H, R), "RectangularHexahedron-linear", A3, c, idx % 2 ? A : B, th ? 2 : 29, {0., 1e-10});
        if (idx % 5 == 0) explore(g::RectangularHexahedron<Linear>(c, H, R), "RectangularHexahedron-linear far", A3, c, L, th ? 3 : 31, {0., 1e-10});
        explore(g::RectangularHexahedron<Quadratic>(c, H, R), "RectangularHexahedron-quadratic", A3, c, idx % 2 ? B : A, th ? 5 : 61, {0., 1e-10});
    }
    auto af = affines<3>();
    for (size_t a = 0; a < af.size(); ++a) {
        auto img = [&](auto *p) { using E = std::remove_pointer_t<decltype(p)>; Eigen::MatrixXd n = refnodes<E>(); for (long i = 0; i < n.rows(); ++i) n.row(i) = (af[a].A * n.row(i).transpose() + af[a].t).transpose(); return build<E>(n); };
        explore(img((g::Hexahedron<Linear> *)0), "Hexahedron-linear", af[a].A, af[a].t, a % 2 ? B : A, th ? 4 : 61, {0., 1e-10});
        if (a < 3) explore(img((g::Hexahedron<Linear> *)0), "Hexahedron-linear far", af[a].A, af[a].t, L, th ? 7 : 67, {0., 1e-10});
        explore(img((g::Hexahedron<Quadratic> *)0), "Hexahedron-quadratic", af[a].A, af[a].t, a % 2 ? A : B, th ? 16 : 121, {0., 1e-10});
    }
    // near misses and slight overlaps, by 1e-5 of the half size
    S = 200000; const std::vector<I> N1 = {-300000, -200002, 0, 50000, 199997}, N2 = {-260000, -199998, 0, 200003, 330000}, N3 = {-260000, -140002, 20000, 139998, 260000}; // -1.3 and -0.70001: past an edge of the cube
    explore(unit, "RectangularHexahedron-linear unit near", id, z, N1, th ? 1 : 5, {0., 1e-10}); explore(unit, "RectangularHexahedron-linear unit near", id, z, N2, th ? 1 : 5, {0., 1e-10}); explore(unit, "RectangularHexahedron-linear unit near", id, z, N3, th ? 1 : 5, {0.});
    { const V c(10, -3.5, 0.75), H(0.25, 3, 10); explore(g::RectangularHexahedron<Linear>(c, H, o), "RectangularHexahedron-linear near", o * (H / 2).asDiagonal(), c, N1, th ? 3 : 17, {0., 1e-10}); explore(g::RectangularHexahedron<Linear>(c, H, o), "RectangularHexahedron-linear near", o * (H / 2).asDiagonal(), c, N3, th ? 3 : 17, {0.}); }
    for (size_t a = 0; a < 2; ++a) { Eigen::MatrixXd n = refnodes<g::Hexahedron<Linear>>(); for (long i = 0; i < n.rows(); ++i) n.row(i) = (af[a].A * n.row(i).transpose() + af[a].t).transpose(); explore(build<g::Hexahedron<Linear>>(n), "Hexahedron-linear near", af[a].A, af[a].t, a ? N3 : N2, th ? 7 : 37, {0.}); }
    mc::sample("segment", "all ordered pairs of 125 lattice points per cube (thorough adds 343)");
    mc::sample("triangle", "all ordered triples of 125 lattice points on the unit cube; every stride-th triple on the transformed cubes");
    mc::bound("lattice", "coordinates {-3,-1,0,1,3}/2 and {-5,-2,0,1,4}/2 (and {-101,-37,1,29,90}/2: long segments, large triangles; near misses and overlaps by 1e-5) relative to the cube [-1,1]; cases that only touch the cube's surface are not judged");
}); }
