// C11: spatial hash grid: all short histories of additions over an alphabet of boxes, all query points of a lattice.
// Coordinates are multiples of a quarter of the cell size (exact in binary when the cell size is dyadic), so the expected
// answer is decided in integers.
#include "mc.h"
#include <Eigen/Dense>
#include <Caribou/config.h>
#include <Caribou/constants.h>
#include <Caribou/Topology/HashGrid.h>
#include <Caribou/Geometry/Segment.h>
#include <Caribou/Geometry/Triangle.h>
#include <Caribou/Geometry/Quad.h>
#include <Caribou/Geometry/Tetrahedron.h>
#include <Caribou/Geometry/Hexahedron.h>
using namespace caribou; namespace g = caribou::geometry; using caribou::topology::HashGrid;
using UI = UNSIGNED_INTEGER_TYPE;
static const int Q = 4; // lattice units per cell
struct Box { int lo[3], hi[3]; };
static int fdiv(int a, int b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }

// an element of type E whose node bounding box is exactly b (scaled by h, shifted by off cells)
template <class E> E make(const Box &b, double h, const int *shift) {
    constexpr int D = g::traits<E>::Dimension, N = g::traits<E>::NumberOfNodesAtCompileTime;
    Eigen::Matrix<double, N, D> n;
    auto c = [&](int d, int t) { return ((t ? b.hi[d] : b.lo[d]) + shift[d] * Q) * h / Q; };
    if constexpr (g::traits<E>::CanonicalDimension < D) { // lines and surfaces: corners of the box, a diagonal among them
        static const int seg[2] = {0, 7}, tri[3] = {0, 7, 1}, quad[4] = {0, 1, 7, 6}; const int *k = N == 2 ? seg : N == 3 ? tri : quad;
        static_assert(N <= 4);
        for (int i = 0; i < N; ++i) for (int d = 0; d < D; ++d) n(i, d) = c(d, k[i] >> d & 1);
        return E(n);
    }
    const E ref; // the reference element tells which nodes are low/high (or in between) on each axis
    for (int i = 0; i < N; ++i) for (int d = 0; d < D; ++d) {
        double r = ref.node(i)[d], lo = (g::traits<E>::CanonicalDimension == D && (N == 3 || N == 4 && D == 3 || N == 6 || N == 10)) ? 0 : -1;
        n(i, d) = r <= lo + 1e-9 ? c(d, 0) : r >= 1 - 1e-9 ? c(d, 1) : (c(d, 0) + c(d, 1)) / 2;
    }
    return E(n);
}
template <class E> struct Run {
    static constexpr int D = g::traits<E>::Dimension;
    using HG = HashGrid<E>; using W = typename HG::WorldCoordinates;
    std::string nm;
    // judge one history; boxes[i] was added with ids[i]
    void history(const std::vector<Box> &boxes, const std::vector<UI> &ids, double h, const int *shift, const std::vector<std::array<int, 3>> &pts, bool exact, int ctor) {
        mc::trace();
        HG grid = ctor ? HG(h, boxes.size()) : HG(h);
        for (size_t i = 0; i < boxes.size(); ++i) { grid.add(make<E>(boxes[i], h, shift), ids[i]); mc::step(); }
        for (auto &p : pts) {
            mc::state();
            W w; for (int d = 0; d < D; ++d) w[d] = (p[d] + shift[d] * Q) * h / Q;
            const auto got = grid.get(w); mc::step();
            std::map<UI, int> want; // 1 must, 2 must not
            for (size_t i = 0; i < boxes.size(); ++i) {
                bool in = true, far = false;
                for (int d = 0; d < D; ++d) {
                    in = in && boxes[i].lo[d] <= p[d] && p[d] <= boxes[i].hi[d];
                    // cells the point lies in (closed): [cl, ch]
                    int ch = fdiv(p[d], Q), cl = (p[d] % Q == 0) ? ch - 1 : ch;
                    if (!exact) { cl = fdiv(p[d], Q) - 1; ch = fdiv(p[d], Q) + 1; }
                    far = far || boxes[i].hi[d] < cl * Q || boxes[i].lo[d] > (ch + 1) * Q;
                }
                if (in && !exact) for (int d = 0; d < D; ++d) in = in && (boxes[i].lo[d] < p[d] && p[d] < boxes[i].hi[d]);
                int &x = want[ids[i]];
                if (in) x = 1; else if (far && x == 0) x = 2; else if (!far && x != 1) x = 3;
                else if (far && x == 3) x = 3;
            }
            std::map<UI, int> cnt; for (auto id : got) ++cnt[id];
            auto desc = [&] { std::string s; for (size_t i = 0; i < boxes.size(); ++i) { s += mc::str(" add#", ids[i], "["); for (int d = 0; d < D; ++d) s += mc::str(d ? "x" : "", boxes[i].lo[d], "..", boxes[i].hi[d]); s += "]"; } s += " query("; for (int d = 0; d < D; ++d) s += mc::str(d ? "," : "", p[d]); return s + mc::str(") in quarter cells, cell size ", h, " shift ", shift[0]); };
            for (auto &k : want) {
                if (k.second == 1 && !cnt.count(k.first)) mc::check(false, "missed", nm, desc(), ": #", k.first, " not returned");
                else if (k.second == 2 && cnt.count(k.first)) mc::check(false, "far-element", nm, desc(), ": #", k.first, " returned although it touches none of the cells of the point");
            }
            for (auto &k : cnt) {
                if (!want.count(k.first)) mc::check(false, "never-added", nm, desc(), ": #", k.first, " was never added");
                if (k.second > 1) mc::check(false, "twice", nm, desc(), ": #", k.first, " returned ", k.second, " times");
            }
            mc::check(true, "query", nm);
        }
    }
    std::vector<Box> alphabet(const std::vector<std::pair<int, int>> &iv) {
        std::vector<Box> r; mc::product(std::vector<int>(D, (int)iv.size()), [&](const std::vector<int> &k) { Box b{}; for (int d = 0; d < D; ++d) { b.lo[d] = iv[k[d]].first; b.hi[d] = iv[k[d]].second; } r.push_back(b); }); return r;
    }
    std::vector<std::array<int, 3>> points(int lo, int hi, int st) { std::vector<std::array<int, 3>> r; int n = (hi - lo) / st + 1; mc::product(std::vector<int>(D, n), [&](const std::vector<int> &k) { std::array<int, 3> p{0, 0, 0}; for (int d = 0; d < D; ++d) p[d] = lo + k[d] * st; r.push_back(p); }); return r; }
    // many elements: one inside every cell of a block; each query must return exactly the element(s) of its cell
    void dense(int n, int origin, UI id0) {
        mc::trace(); mc::crumb(mc::str(nm, " dense block of ", n, " cells per axis"));
        std::vector<int> rad(D, n); HG grid(1.);
        auto id = [&](const std::vector<int> &k) { UI r = 0; for (int d = 0; d < D; ++d) r = r * n + k[d]; return r + id0; };
        auto shift = [&](const std::vector<int> &k, int *s) { for (int d = 0; d < 3; ++d) s[d] = d < D ? k[d] + origin + 3 * d : 0; };
        Box b; for (int d = 0; d < 3; ++d) { b.lo[d] = 1; b.hi[d] = 3; }
        mc::product(rad, [&](const std::vector<int> &k) { int s[3]; shift(k, s); grid.add(make<E>(b, 1., s), id(k)); mc::step(); });
        mc::product(rad, [&](const std::vector<int> &k) {
            int s[3]; shift(k, s); W w; for (int d = 0; d < D; ++d) w[d] = s[d] + 0.5;
            const auto got = grid.get(w); mc::step(); mc::state();
            bool ok = true, has = false; for (auto i : got) { ok = ok && (UI)i == id(k); has = has || (UI)i == id(k); }
            mc::check(has, "missed", nm, "block of ", n, " cells per axis at ", origin, ": the element in the cell of ", mc::show(w.transpose()), " is not returned");
            mc::check(ok, "far-element", nm, "block of ", n, " cells per axis at ", origin, ": elements of other cells returned at ", mc::show(w.transpose()));
        });
    }
    // two elements 2^k cells apart along one axis (or with exchanged / opposite coordinates) are never confused
    void apart() {
        for (int k = 1; k <= 30; ++k) for (int axis = 0; axis < D; ++axis) for (int sgn = -1; sgn <= 1; sgn += 2) for (UI big : {UI(1), (UI(1) << 33) + 5, ~UI(0)}) {
            mc::trace(); mc::crumb(mc::str(nm, " 2^", k, " cells apart"));
            Box b; for (int d = 0; d < 3; ++d) { b.lo[d] = 1; b.hi[d] = 3; }
            HG grid(1.); 
            // coordinates in double (Box lattice numbers would overflow)
            E e0 = make<E>(b, 1., std::array<int, 3>{0, 0, 0}.data()); constexpr int N = g::traits<E>::NumberOfNodesAtCompileTime;
            const double t = sgn * std::ldexp(1., k); Eigen::Matrix<double, N, D> n = e0.nodes(); n.col(axis).array() += t; E e1(n);
            grid.add(e0, 0); grid.add(e1, big); mc::step(2);
            for (int q = 0; q < 2; ++q) {
                W w = W::Constant(0.5); if (q) w[axis] += t; const auto got = grid.get(w); mc::step(); mc::state();
                std::set<UI> s(got.begin(), got.end()); const UI want = q ? big : 0;
                mc::check(s.count(want) == 1, "missed", nm, "elements ", t, " cells apart along axis ", axis, ": #", want, " not returned");
                mc::check(s.size() <= 1, "far-element", nm, "elements ", t, " cells apart along axis ", axis, ": both returned");
            }
        }
    }
    // one element spanning many cells
    void wide() {
        for (int axis = 0; axis < D; ++axis) for (int n : {33, 200, 1000}) for (int at : {0, -500}) {
            mc::trace(); mc::crumb(mc::str(nm, " element of ", n, " cells"));
            Box b; for (int d = 0; d < 3; ++d) { b.lo[d] = 1; b.hi[d] = 6; } b.lo[axis] = at * Q + 1; b.hi[axis] = (at + n) * Q + 1;
            HG grid(1.); grid.add(make<E>(b, 1., std::array<int, 3>{0, 0, 0}.data()), 9); mc::step();
            for (int c = at - 3; c <= at + n + 3; ++c) { W w = W::Constant(0.5); w[axis] = c + 0.5; const auto got = grid.get(w); mc::step(); mc::state();
                bool in = c >= at && c < at + n, out = c < at || c > at + n, has = false; for (auto i : got) has = has || i == 9;
                if (in) mc::check(has, "missed", nm, "element spanning ", n, " cells along axis ", axis, " from ", at, " not returned in cell ", c);
                if (out) mc::check(!has, "far-element", nm, "element spanning ", n, " cells along axis ", axis, " from ", at, " returned in cell ", c); }
        }
    }
    void run(const char *n, int part, int parts) {
        nm = n; unsigned long long cnt = 0; auto mine = [&] { return cnt++ % parts == (unsigned)part; };
        const bool th = mc::thorough();
        if (part == 0) dense(D == 1 ? 20000 : D == 2 ? 128 : 24, D == 1 ? -10000 : D == 2 ? -64 : -12, 0);
        if (part == 1 % parts) { dense(D == 1 ? 40 : D == 2 ? 20 : 8, 70000, (UI(1) << 32) + 7); dense(D == 1 ? 40 : D == 2 ? 20 : 8, -4, 1000); }
        if (part == 2 % parts) apart();
        if (part == 3 % parts) wide();
        // single additions: all intervals with ends in quarter cells
        std::vector<std::pair<int, int>> iv; const int R = D == 1 ? 12 : D == 2 ? 6 : 4, S = D == 1 ? 1 : 2;
        for (int a = -R; a <= R; a += S) for (int b = a + 1; b <= R; b += S == 1 ? 1 : (D == 3 ? 3 : 2)) iv.emplace_back(a, b);
        const bool flat = g::traits<E>::CanonicalDimension < D; // flat and oblique lines and surfaces: also on cell boundaries
        if (flat) { iv = {{-4, -4}, {0, 0}, {4, 4}, {1, 1}, {-3, -3}, {0, 4}, {-4, 0}, {1, 3}, {-5, 2}}; if (D == 2) for (int a = -8; a <= 8; ++a) { iv.emplace_back(a, a); iv.emplace_back(a, a + 5); } }
        const int zero[3] = {0, 0, 0}, s1[3] = {-3, 5, -7}, s2[3] = {100000, -100000, 77777};
        auto pts = points(-R - 4, R + 4, D == 3 ? 2 : 1);
        if (part == 2 % parts) { // many elements in the same cells
            mc::crumb(nm + " crowded cells"); auto al = alphabet({{-3, 2}}); std::vector<std::decay_t<decltype(al[0])>> many; std::vector<UI> ids;
            for (UI i = 0; i < 300; ++i) { many.push_back(al[0]); ids.push_back(1000 - 3 * i); }
            history(many, ids, 1., zero, points(-4, 4, 4), true, 0);
        }
        mc::crumb(nm + " single additions");
        for (auto &b : alphabet(iv)) { if (!mine()) continue; history({b}, {3}, 1., zero, pts, true, 0); }
        // cell sizes and positions
        std::vector<std::pair<int, int>> few = {{-4, 4}, {-6, -1}, {0, 4}, {1, 3}, {-8, -4}, {3, 9}};
        if (D == 3 && !th) few = {{-4, 4}, {-6, -1}, {1, 3}};
        if (flat) few = {{-4, -4}, {0, 0}, {0, 4}, {1, 3}};
        for (double h : {0.5, 4., 0.0625, 0.3, 1. / 3, 7.1}) for (const int *s : {zero, s1, s2}) {
            mc::crumb(mc::str(nm, " cell size ", h));
            bool exact = h == 0.5 || h == 4. || h == 0.0625;
            for (auto &b : alphabet(few)) { if (!mine()) continue; history({b}, {0}, h, s, pts, exact, 1); }
        }
        // histories of two and three additions (order, repeated ids, overlapping boxes)
        std::vector<std::pair<int, int>> ab = D == 1 ? std::vector<std::pair<int, int>>{{-4, 4}, {-7, -3}, {0, 4}, {1, 3}, {4, 9}, {-4, 0}, {-9, -8}} : D == 2 ? std::vector<std::pair<int, int>>{{-4, 4}, {-7, -3}, {1, 3}, {4, 9}} : std::vector<std::pair<int, int>>{{-4, 1}, {2, 5}};
        if (flat) { ab = {{-4, -4}, {0, 4}, {1, 1}}; if (D == 3) ab.pop_back(); }
        auto al = alphabet(ab); auto p2 = points(-10, 10, D == 1 ? 1 : D == 2 ? 2 : 4);
        if (D == 2 && !th) p2 = points(-8, 8, 2);
        mc::crumb(nm + " pairs");
        for (auto &a : al) for (auto &b : al) { if (!mine()) continue; history({a, b}, {5, 2}, 1., zero, p2, true, 1); history({a, b}, {7, 7}, 1., zero, p2, true, 0); }
        mc::crumb(nm + " triples");
        for (auto &a : al) for (auto &b : al) for (auto &c : al) { if (!mine()) continue; history({a, b, c}, {0, 1, 2}, 1., zero, p2, true, 0); if (D == 1) { history({a, b, c}, {4, 1, 4}, 1., s1, p2, true, 0); } }
        mc::sample(nm, mc::str(alphabet(iv).size(), " boxes x ", pts.size(), " points; histories of 2 and 3 additions over ", al.size(), " boxes"));
    }
};
int main(int c, char **v) {
    return mc::run(c, v, [] {
        const char *a = getenv("MC_PART"), *b = getenv("MC_PARTS"); int part = a ? atoi(a) : 0, parts = b ? atoi(b) : 1;
        Run<g::Segment<1, Linear>>().run("Segment1D", part, parts); Run<g::Segment<1, Quadratic>>().run("Segment1D-quadratic", part, parts);
        Run<g::Triangle<2, Linear>>().run("Triangle2D", part, parts); Run<g::Quad<2, Quadratic>>().run("Quad2D-quadratic", part, parts);
        Run<g::Tetrahedron<Linear>>().run("Tetrahedron", part, parts); Run<g::Hexahedron<Linear>>().run("Hexahedron", part, parts);
        Run<g::Segment<2, Linear>>().run("Segment2D", part, parts); Run<g::Segment<3, Linear>>().run("Segment3D", part, parts); Run<g::Triangle<3, Linear>>().run("Triangle3D", part, parts); Run<g::Quad<3, Linear>>().run("Quad3D", part, parts);
        mc::bound("hash grid", "boxes and queries on quarter cells within +-3 cells of the origin (also shifted far away, other cell sizes), histories of up to 3 additions; one element per cell of blocks of 20000 / 128x128 / 24x24x24 cells; pairs of elements 2^1..2^30 cells apart; elements spanning up to 1000 cells; identifiers up to 2^64-1");
    });
}
