// C07: all ways of constructing an element agree; rectangular elements agree with the general ones; frames and normals.
#include "ref.h"
using namespace ref;

template <class A, class B> void same(const A &got, const B &want, double tol, const char *rule, const std::string &key, const std::string &d) {
    double m = mc::maxdiff(got, want);
    mc::check(m <= tol, rule, key, d, " got ", mc::show(got), " want ", mc::show(want));
}
// ---------------------------------------------------------------- construction from nodes
template <class E, size_t... I> E variadic(const Eigen::MatrixXd &n, std::index_sequence<I...>) {
    using W = typename E::WorldCoordinates;
    std::vector<W> p; for (long i = 0; i < n.rows(); ++i) { W w = n.row(i).transpose(); p.push_back(w); }
    return E(p[I]...);
}
template <class E> void general(E *) {
    const Elem &e = Info<E>::e(); const std::string nm = Info<E>::name();
    constexpr int N = g::traits<E>::NumberOfNodesAtCompileTime, D = g::traits<E>::Dimension, C = g::traits<E>::CanonicalDimension;
    {   // default construction = reference element
        E el; Eigen::Matrix<double, N, D> got = el.nodes(); mc::state(); mc::step();
        Eigen::Matrix<double, N, D> want = refnodes<E>(); same(got, want, 1e-15, "default-is-reference", nm, nm);
    }
    configurations<E>([&](const Eigen::MatrixXd &n, const std::string &desc, bool) {
        mc::trace(); mc::crumb(desc); mc::state();
        double tol = 1e-12 * n.cwiseAbs().maxCoeff();
        Eigen::Matrix<double, N, D> m = n;
        auto all = [&](const E &x, const char *how) {
            mc::step();
            Eigen::Matrix<double, N, D> got = x.nodes(); same(got, m, tol, how, nm, desc);
            for (int i = 0; i < N; ++i) { auto w = x.node(i); for (int d = 0; d < D; ++d) mc::check(mc::near(w[d], m(i, d), tol), how, nm + ":node", desc, " node ", i); }
            E y = x; E z; z = x; Eigen::Matrix<double, N, D> g2 = y.nodes(), g3 = z.nodes(); same(g2, m, tol, "copy", nm, desc); same(g3, m, tol, "assign", nm, desc);
        };
        all(E(m), "from-matrix");
        const auto &cm = m; all(E(cm), "from-const-matrix");
        all(variadic<E>(n, std::make_index_sequence<N>()), "from-node-list");
        if constexpr (D > 1) {
            Eigen::Matrix<double, N, D, Eigen::RowMajor> rm = m; all(E(rm), "from-row-major");
            Eigen::Map<Eigen::Matrix<double, N, D, Eigen::RowMajor>> mp(rm.data()); all(E(mp), "from-map");
            Eigen::Matrix<double, N, Eigen::Dynamic> dyn = m; all(E(dyn), "from-dynamic-columns");
            Eigen::Matrix<double, N + 2, D + 1> big; big.setConstant(77); big.template block<N, D>(1, 1) = m;
            auto blk = big.template block<N, D>(1, 1); all(E(blk), "from-block");
            Eigen::Matrix<float, N, D> fl = m.template cast<float>(); E f(fl); mc::step(); Eigen::Matrix<double, N, D> gf = f.nodes(); same(gf, m, 1e-5 * n.cwiseAbs().maxCoeff(), "from-float", nm, desc);
        }
        {   // later changes of the source do not reach the element
            Eigen::Matrix<double, N, D> src = m; E x(src); src.setConstant(-5); Eigen::Matrix<double, N, D> got = x.nodes(); mc::step(); same(got, m, tol, "owns-its-nodes", nm, desc);
        }
        if constexpr (Info<E>::kind == TRI && D == 3) {
            V3 a, b; for (int d = 0; d < 3; ++d) { a[d] = m(1, d) - m(0, d); b[d] = m(2, d) - m(0, d); }
            V3 c{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; LD l = sqrtl(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]);
            auto nn = E(m).normal(); mc::step();
            for (int d = 0; d < 3; ++d) mc::check(mc::near(nn[d], (double)(c[d] / l), 1e-11), "normal", nm, desc, " got ", nn[d], " want ", (double)(c[d] / l));
        }
        if constexpr (Info<E>::kind == TET || Info<E>::kind == HEX) {
            auto frame_ok = [&](const Eigen::Matrix3d &F, const V3 &u, const V3 &v, const std::string &dd) {
                mc::state(); mc::step();
                same(Eigen::Matrix3d(F.transpose() * F), Eigen::Matrix3d(Eigen::Matrix3d::Identity()), 1e-11, "frame-orthonormal", nm, dd);
                mc::check(mc::near(F.determinant(), 1, 1e-11), "frame-right-handed", nm, dd, " det ", F.determinant());
                LD lu = sqrtl(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]); LD dv = 0;
                for (int d = 0; d < 3; ++d) { mc::check(mc::near(F(d, 0), (double)(u[d] / lu), 1e-10), "frame-u-axis", nm, dd, " got ", F(d, 0), " want ", (double)(u[d] / lu)); dv += (LD)F(d, 1) * v[d]; }
                LD dw = 0; for (int d = 0; d < 3; ++d) dw += (LD)F(d, 2) * v[d];
                LD lv = sqrtl(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
                mc::check(dv > 0 && fabsl(dw) <= 1e-10L * lv, "frame-v-axis", nm, dd);
            };
            E x(m);
            auto diff = [&](const V3 &p, const V3 &q) { auto a = world(e, n, p), b = world(e, n, q); return V3{b[0] - a[0], b[1] - a[1], b[2] - a[2]}; };
            if constexpr (Info<E>::kind == TET) { V3 u, v; for (int d = 0; d < 3; ++d) { u[d] = n(1, d) - n(0, d); v[d] = n(2, d) - n(0, d); } frame_ok(x.frame(), u, v, desc); }
            else {
                frame_ok(x.frame(), diff({0, 0, 0}, {1, 0, 0}), diff({0, 0, 0}, {0, 1, 0}), desc + " frame()");
                for (auto &p : lattice(e, 2, -0.5)) frame_ok(x.frame(loc<E>(p)), diff(p, {1, p[1], p[2]}), diff(p, {p[0], 1, p[2]}), desc + " frame" + show(p));
            }
        }
    }, 0.125);
}
// ---------------------------------------------------------------- quadratic from linear
template <class L, class Q> void elevate() {
    constexpr int NL = g::traits<L>::NumberOfNodesAtCompileTime, NQ = g::traits<Q>::NumberOfNodesAtCompileTime, D = g::traits<Q>::Dimension;
    const Elem &el = Info<L>::e(), &eq = Info<Q>::e(); const std::string nm = Info<Q>::name();
    configurations<L>([&](const Eigen::MatrixXd &n, const std::string &desc, bool) {
        mc::trace(); mc::state(); mc::crumb(desc); double tol = 1e-12 * n.cwiseAbs().maxCoeff();
        L lin = build<L>(n);
        Eigen::Matrix<double, NQ, D> want; for (int i = 0; i < NQ; ++i) { auto w = world(el, n, eq.nodes[i]); for (int d = 0; d < D; ++d) want(i, d) = (double)w[d]; }
        Q q(lin); mc::step(); Eigen::Matrix<double, NQ, D> got = q.nodes(); same(got, want, tol, "elevated-nodes", nm, desc);
        Q q2 = variadic<Q>(n, std::make_index_sequence<NL>()); mc::step(); got = q2.nodes(); same(got, want, tol, "elevated-from-node-list", nm, desc);
        for (auto &x : lattice(eq, 2, 0)) { // same geometric map
            mc::state(); auto a = q.world_coordinates(loc<Q>(x)); auto b = lin.world_coordinates(loc<L>(x)); mc::step(2);
            same(a, b, 10 * tol, "elevated-same-map", nm, desc);
        }
    }, 0.125);
}
// ---------------------------------------------------------------- rectangular elements
template <int D> std::vector<Eigen::Matrix<double, D, D>> rotations() {
    std::vector<Eigen::Matrix<double, D, D>> r;
    if constexpr (D == 2) { for (int k = 0; k < 24; ++k) { double a = k * M_PI / 12; Eigen::Matrix2d m; m << cos(a), -sin(a), sin(a), cos(a); r.push_back(m); } }
    else {
        // the 24 axis permutations with signs (rotations) and their products with two oblique rotations
        std::vector<Eigen::Matrix3d> base;
        int p[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
        for (auto &q : p) for (int s = 0; s < 8; ++s) { Eigen::Matrix3d m; m.setZero(); for (int i = 0; i < 3; ++i) m(q[i], i) = (s >> i & 1) ? -1 : 1; if (m.determinant() > 0) base.push_back(m); }
        Eigen::Matrix3d o; o << 2, -1, 2, 2, 2, -1, -1, 2, 2; o /= 3.;
        Eigen::Matrix3d z; z << .8, -.6, 0, .6, .8, 0, 0, 0, 1;
        for (auto &b : base) { r.push_back(b); r.push_back(b * o); r.push_back(z * b); }
    }
    return r;
}
template <class R, class LinG, class QuadG> void rectangular() {
    const Elem &e = Info<R>::e(); const std::string nm = Info<R>::name();
    constexpr int N = g::traits<R>::NumberOfNodesAtCompileTime, D = g::traits<R>::Dimension, C = g::traits<R>::CanonicalDimension;
    using W = typename R::WorldCoordinates; using S = typename R::Size; using Rot = Eigen::Matrix<double, D, D>;
    std::vector<double> hs = {0.5, 2, 3.25};
    std::vector<W> cs; { W z = W::Zero(), o; for (int d = 0; d < D; ++d) o[d] = (d == 0 ? 10 : d == 1 ? -4.5 : 0.125); cs = {z, o}; }
    auto pts = lattice(e, 2, 0.5);
    mc::product(std::vector<int>(C, hs.size()), [&](const std::vector<int> &hi) {
        S H; for (int k = 0; k < C; ++k) H[k] = hs[hi[k]];
        bool h2 = true; for (int k = 0; k < C; ++k) h2 = h2 && H[k] == 2;
        int ri = 0;
        for (const Rot &R0 : rotations<D>()) {
            ++ri;
            for (const W &c : cs) {
                std::string desc = mc::str(nm, " centre ", mc::show(c.transpose()), " size ", mc::show(H.transpose()), " rotation#", ri);
                mc::trace(); mc::crumb(desc);
                double tol = 1e-11 * (1 + c.cwiseAbs().maxCoeff());
                auto want = [&](const V3 &x) { W p = W::Zero(); for (int k = 0; k < C; ++k) p[k] = (double)x[k] * H[k] / 2; return W(c + R0 * p); };
                Eigen::Matrix<double, N, D> wn; for (int i = 0; i < N; ++i) wn.row(i) = want(e.nodes[i]).transpose();
                auto all = [&](const R &x, const char *how, bool full) {
                    mc::step(); mc::state();
                    Eigen::Matrix<double, N, D> got = x.nodes(); same(got, wn, tol, how, nm, desc);
                    W cc = x.center(); same(cc, c, tol, "rect-center", nm, desc);
                    S hh = x.size(); same(hh, H, tol, "rect-size", nm, desc);
                    Rot rr = x.rotation(); same(rr, R0, 1e-10, "rect-rotation", nm, desc);
                    if (!full) return;
                    for (int i = 0; i < N; ++i) { W w = x.node(i); W ww = wn.row(i).transpose(); same(w, ww, tol, "rect-node", nm, desc); }
                    for (auto &p : pts) {
                        mc::state();
                        W w = x.world_coordinates(loc<R>(p)); mc::step(); same(w, want(p), tol, "rect-world", nm, desc + " at " + show(p));
                        auto l = x.local_coordinates(w); mc::step(); auto ll = loc<R>(p); same(l, ll, 1e-9, "rect-local", nm, desc + " at " + show(p));
                        Eigen::Matrix<double, D, C> J = x.jacobian(loc<R>(p)), JJ; for (int k = 0; k < C; ++k) JJ.col(k) = R0.col(k) * H[k] / 2; mc::step(); same(J, JJ, tol, "rect-jacobian", nm, desc);
                        if constexpr (C == 2) { W t = x.T(loc<R>(p)); mc::step(); same(t, want(p), tol, "rect-T", nm, desc); }
                    }
                };
                all(R(c, H, R0), "rect-centre-size-rotation", mc::thorough() || ri % 4 == 1);
                if (h2) all(R(c, R0), "rect-centre-rotation", false);
                if (ri == 1) { all(R(c, H), "rect-centre-size", true); if (h2) { all(R(c), "rect-centre", true); if (c.norm() == 0) all(R(), "rect-default", true); } }
                // from the general element with the same corners, and from node matrices
                Eigen::MatrixXd corners = wn.topRows(g::traits<LinG>::NumberOfNodesAtCompileTime);
                LinG gl = build<LinG>(corners);
                all(R(gl), "rect-from-linear", false);
                all(R(wn), "rect-from-nodes", false);
                if constexpr (Info<R>::order == 2) { Eigen::MatrixXd wm = wn; QuadG gq = build<QuadG>(wm); all(R(gq), "rect-from-quadratic", false);
                    if constexpr (Info<R>::kind == HEX) { Eigen::Matrix<double, 8, 3> c8 = corners; all(R(c8), "rect-from-corner-nodes", false); } }
                // frames of the general element
                auto F = gl.frame(loc<LinG>(V3{0, 0, 0})); mc::step(); Rot FF = F; same(FF, R0, 1e-10, "frame-of-rectangle", nm, desc);
                Rot F0 = gl.frame(); same(F0, R0, 1e-10, "frame-of-rectangle-default", nm, desc);
                Rot F1 = gl.frame(loc<LinG>(V3{-0.5L, 0.25L, -0.25L})); same(F1, R0, 1e-10, "frame-of-rectangle-offset", nm, desc);
                // general and rectangular element give the same maps
                R r(c, H, R0);
                for (auto &p : lattice(e, 1, 0)) { mc::state(); W a = r.world_coordinates(loc<R>(p)), b = gl.world_coordinates(loc<LinG>(p)); mc::step(2); same(a, b, tol, "rect-vs-general", nm, desc); }
            }
        }
    });
    mc::sample(nm, "3 sizes per direction x 2 centres x all enumerated rotations, every constructor");
}
#if SHARD == 7
int main(int c, char **v) { return mc::run(c, v, [] {
    elevate<g::Triangle<2, Linear>, g::Triangle<2, Quadratic>>(); elevate<g::Triangle<3, Linear>, g::Triangle<3, Quadratic>>();
    elevate<g::Quad<2, Linear>, g::Quad<2, Quadratic>>(); elevate<g::Quad<3, Linear>, g::Quad<3, Quadratic>>();
    elevate<g::Tetrahedron<Linear>, g::Tetrahedron<Quadratic>>(); elevate<g::Hexahedron<Linear>, g::Hexahedron<Quadratic>>(); }); }
#elif SHARD == 3
int main(int c, char **v) { return mc::run(c, v, [] {
    rectangular<g::RectangularQuad<2, Linear>, g::Quad<2, Linear>, g::Quad<2, Quadratic>>(); rectangular<g::RectangularQuad<3, Linear>, g::Quad<3, Linear>, g::Quad<3, Quadratic>>();
    rectangular<g::RectangularQuad<2, Quadratic>, g::Quad<2, Linear>, g::Quad<2, Quadratic>>(); rectangular<g::RectangularQuad<3, Quadratic>, g::Quad<3, Linear>, g::Quad<3, Quadratic>>(); }); }
#elif SHARD == 6
int main(int c, char **v) { return mc::run(c, v, [] {
    rectangular<g::RectangularHexahedron<Linear>, g::Hexahedron<Linear>, g::Hexahedron<Quadratic>>(); rectangular<g::RectangularHexahedron<Quadratic>, g::Hexahedron<Linear>, g::Hexahedron<Quadratic>>(); }); }
#else
int main(int c, char **v) { return mc::run(c, v, [] { for_shard([](auto *p) { general(p); }); }); }
#endif
