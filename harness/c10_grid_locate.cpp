// C10: point location in grids, over a lattice of positions in and around every small grid.
#include "mc.h"
#include <Caribou/config.h>
#include <Caribou/constants.h>
#include <Caribou/Topology/Grid/Grid.h>
using namespace caribou::topology;

// Positions are given per axis in units of 1/8 cell (integers), so that every predicate is decided exactly.
template <int D> struct Loc { Eigen::Matrix<long long, D, 1> q; };
static const int Q = 8;
static long long fl(long long a, long long b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }

template <int D> struct X {
    using G = Grid<D>; using W = typename G::WorldCoordinates; using IV = Eigen::Matrix<long long, D, 1>;
    G grid; std::vector<int> n; W anchor, h; bool dyadic; std::string desc, nm;
    X(const std::vector<int> &nv, const W &a, const W &hh, bool dy) : grid(a, sub(nv), siz(nv, hh)), n(nv), anchor(a), h(hh), dyadic(dy) {
        desc = mc::str(D, "D grid n=", mc::show(sub(nv).transpose()), " anchor ", mc::show(a.transpose()), " cell ", mc::show(hh.transpose())); nm = mc::str(D, "D");
    }
    static typename G::Subdivisions sub(const std::vector<int> &nv) { typename G::Subdivisions s; for (int d = 0; d < D; ++d) s[d] = nv[d]; return s; }
    static W siz(const std::vector<int> &nv, const W &hh) { W s; for (int d = 0; d < D; ++d) s[d] = hh[d] * nv[d]; return s; }
    W at(const IV &q) const { W p; for (int d = 0; d < D; ++d) p[d] = anchor[d] + h[d] * ((double)q[d] / Q); return p; }
    std::string sh(const IV &q) const { return mc::str(desc, " at ", mc::show((q.template cast<double>() / Q).transpose()), " (cell units)"); }
    long long index(const IV &c) { typename G::GridCoordinates g = c; return grid.cell_index_at(g); }
    // all cells whose closed box contains the position
    std::set<long long> closed(const IV &q) {
        std::set<long long> r; IV lo, hi;
        for (int d = 0; d < D; ++d) { long long f = fl(q[d], Q); lo[d] = q[d] % Q == 0 ? f - 1 : f; hi[d] = f; lo[d] = std::max(lo[d], 0LL); hi[d] = std::min<long long>(hi[d], n[d] - 1); if (lo[d] > hi[d]) return r; }
        box(lo, hi, r); return r;
    }
    void box(const IV &lo, const IV &hi, std::set<long long> &r) {
        std::vector<int> rad; for (int d = 0; d < D; ++d) { if (hi[d] < lo[d]) return; rad.push_back(hi[d] - lo[d] + 1); }
        mc::product(rad, [&](const std::vector<int> &c) { IV g; for (int d = 0; d < D; ++d) g[d] = lo[d] + c[d]; r.insert(index(g)); });
    }
    void single(const IV &q) {
        W p = at(q); mc::state();
        bool onb = false, inside = true, strict = true, upper = false; for (int d = 0; d < D; ++d) { if (q[d] % Q == 0) onb = true; if (q[d] < 0 || q[d] > (long long)n[d] * Q) inside = false; if (q[d] <= 0 || q[d] >= (long long)n[d] * Q) strict = false; if (q[d] == (long long)n[d] * Q) upper = true; }
        bool hull = inside && !strict; // on the grid's surface
        if (!hull || dyadic) { bool c = grid.contains(p); mc::step(); mc::check(c == inside, "contains", nm, sh(q), " reported ", c); }
        bool ceps = grid.contains(p, 1e-6); mc::step(); mc::check(ceps == inside, "contains-eps", nm, sh(q), " reported ", ceps);
        if (!onb || dyadic) {
            auto v = grid.cells_around(p); mc::step();
            std::set<long long> got(v.begin(), v.end()), want = closed(q);
            mc::check(got == want && got.size() == v.size(), "cells-around", nm, sh(q), " returned ", v.size(), " cells, expected ", want.size());
            auto e = grid.cells_enclosing(p); mc::step();
            std::set<long long> ge(e.begin(), e.end());
            mc::check(ge == want && ge.size() == e.size(), "enclosing-single", nm, sh(q), " returned ", e.size(), " cells, expected ", want.size());
        }
        if (inside) {
            std::set<long long> ok; IV lo, hi;
            for (int d = 0; d < D; ++d) { long long f = fl(q[d], Q); lo[d] = std::max(0LL, q[d] % Q == 0 ? f - 1 : f); hi[d] = std::min<long long>(f, n[d] - 1); }
            box(lo, hi, ok);
            long long i = grid.cell_index_containing(p, true); mc::step();
            mc::check(ok.count(i), "cell-containing-boundary", nm, sh(q), " returned ", i);
            if (!upper) { bool low = false; for (int d = 0; d < D; ++d) if (q[d] == 0) low = true; if (!low || dyadic) { long long j = grid.cell_index_containing(p, false); mc::step(); mc::check(ok.count(j), "cell-containing", nm, sh(q), " returned ", j); } }
        }
    }
    template <size_t K> void several(const std::array<IV, K> &qs) {
        // judged when no position lies on a cell interface, or the grid is exactly representable
        bool any = false, onb = false; IV lo, hi;
        for (size_t k = 0; k < K; ++k) {
            bool inside = true;
            for (int d = 0; d < D; ++d) {
                long long q = qs[k][d]; if (q % Q == 0) onb = true; if (q < 0 || q > (long long)n[d] * Q) inside = false;
                long long f = fl(q, Q), l = q % Q == 0 ? f - 1 : f;
                l = std::min<long long>(std::max(l, 0LL), n[d] - 1); f = std::min<long long>(std::max(f, 0LL), n[d] - 1);
                if (!k || l < lo[d]) lo[d] = l; if (!k || f > hi[d]) hi[d] = f;
            }
            any = any || inside;
        }
        if (onb && !dyadic) return;
        mc::state();
        typename G::CellSet e;
        if constexpr (K == 2) e = grid.cells_enclosing(at(qs[0]), at(qs[1])); else e = grid.cells_enclosing(at(qs[0]), at(qs[1]), at(qs[2]));
        mc::step();
        std::set<long long> want, got(e.begin(), e.end()); if (any) box(lo, hi, want);
        mc::check(got == want && got.size() == e.size(), "enclosing", nm, sh(qs[0]), " and ", sh(qs[1]), K == 3 ? " and " + sh(qs[K - 1]) : "", " returned ", e.size(), " cells, expected ", want.size());
    }
    void explore(bool pairs, int step1, int ext) {
        mc::trace(); mc::crumb(desc);
        std::vector<int> rad; for (int d = 0; d < D; ++d) rad.push_back((n[d] * Q + 2 * ext * Q) / step1 + 1);
        mc::product(rad, [&](const std::vector<int> &c) { IV q; for (int d = 0; d < D; ++d) q[d] = (long long)c[d] * step1 - ext * Q; single(q); });
        // a coarse set of positions for pairs and triples
        if (!pairs) return;
        std::vector<IV> ps; std::vector<std::vector<long long>> ax(D);
        for (int d = 0; d < D; ++d) { long long N = (long long)n[d] * Q; ax[d] = {-20, 3, N - 3, N + 12}; if (D < 3) { ax[d].push_back(0); ax[d].push_back(N); } if (n[d] > 1) ax[d].push_back(Q); if (n[d] > 1 && D < 3) ax[d].push_back(Q + 5); }
        std::vector<int> r2; for (int d = 0; d < D; ++d) r2.push_back(ax[d].size());
        mc::product(r2, [&](const std::vector<int> &c) { IV q; for (int d = 0; d < D; ++d) q[d] = ax[d][c[d]]; ps.push_back(q); });
        for (auto &a : ps) for (auto &b : ps) several<2>({a, b});
        size_t st = D == 1 ? 1 : D == 2 ? (mc::thorough() ? 3 : 17) : (mc::thorough() ? 23 : 211), cnt = 0;
        for (auto &a : ps) for (auto &b : ps) for (auto &c : ps) if (cnt++ % st == 0) several<3>({a, b, c});
    }
};
template <int D> void large(const std::vector<int> &n, const Eigen::Matrix<double, D, 1> &a, const Eigen::Matrix<double, D, 1> &h) {
    X<D> x(n, a, h, true); mc::trace(); mc::crumb(x.desc);
    mc::product(std::vector<int>(D, 9), [&](const std::vector<int> &c) { typename X<D>::IV q; for (int d = 0; d < D; ++d) { const long long N = (long long)n[d] * Q, M = (long long)(n[d] / 2) * Q; const long long t[9] = {-5, 0, 3, M, M + 5, N - Q, N - 1, N, N + 11}; q[d] = t[c[d]]; } x.single(q); });
}
int main(int c, char **v) { return mc::run(c, v, [] {
    bool th = mc::thorough();
    using V1 = Eigen::Matrix<double, 1, 1>;
    for (int i = 1; i <= 6; ++i) { V1 a, h; a << -2.5; h << 0.25; X<1>({i}, a, h, true).explore(true, 1, 3); a << 0.1; h << 0.3; X<1>({i}, a, h, false).explore(true, 1, 3); a << -100; h << 64; X<1>({i}, a, h, true).explore(true, 1, 2); }
    int m2 = th ? 5 : 4;
    mc::product({m2, m2}, [&](const std::vector<int> &d) { X<2>({d[0] + 1, d[1] + 1}, {-1.25, 4}, {0.5, 2}, true).explore(true, th ? 1 : 2, 2); X<2>({d[0] + 1, d[1] + 1}, {0.1, -0.7}, {0.3, 7.7}, false).explore(th, th ? 1 : 4, 2); });
    int m3 = 3;
    mc::product({m3, m3, m3}, [&](const std::vector<int> &d) { X<3>({d[0] + 1, d[1] + 1, d[2] + 1}, {0.25, 0.5, -0.75}, {0.5, 2, 32}, true).explore(true, th ? 2 : 4, 2); if (th) X<3>({d[0] + 1, d[1] + 1, d[2] + 1}, {0.1, 0.2, -0.7}, {0.3, 7.7, 1.1}, false).explore(true, 2, 2); });
    mc::bound("positions", "all positions of a lattice of step 1/8 (1D), 1/4 (2D), 1/2 (3D) cell from 2-3 cells before to 2-3 cells after the grid; on non-dyadic grids positions exactly on an interface are not judged");
    { V1 a, h; a << -2.5; h << 0.25; large<1>({70000}, a, h); large<1>({300}, a, h); large<2>({300, 70000}, {-1.25, 4}, {0.5, 2}); large<2>({70000, 5}, {-1.25, 4}, {0.5, 2}); large<2>({5000, 5000}, {0, 0}, {1, 0.125}); large<3>({300, 260, 280}, {0.25, 0.5, -0.75}, {0.5, 2, 32}); large<3>({1000, 1000, 1000}, {0, 0, 0}, {1, 1, 1}); large<3>({2, 70000, 2}, {0, 0, 0}, {1, 1, 1}); }
    mc::bound("large grids", "grids of up to 10^9 cells at 9 positions per axis (outside, surface, interface, interior)");
    mc::bound("sets", "all pairs and a fixed residue class of all triples of positions inside, on and outside each face");
    mc::sample("positions", "interior, interfaces, surface, outside on every side and corner");
}); }
