// Meshes, scenes and an independent finite-element reference for the SOFA components.
#pragma once
#include "minisofa.h"
#include "ref.h"
#include <SofaCaribou/Topology/CaribouTopology.h>
#include <memory>
namespace fem {
using LD = long double;
using V3 = Eigen::Vector3d;
using M3 = Eigen::Matrix3d;
template <class T> using Data = sofa::core::objectmodel::Data<T>;
template <class T, class O> Data<T> &data(O &o, const std::string &name) {
    auto *d = o.findData(name);
    if (!d) { fprintf(stderr, "no data '%s'\n", name.c_str()); abort(); }
    auto *t = dynamic_cast<Data<T> *>(d);
    if (!t) { fprintf(stderr, "data '%s' has another type\n", name.c_str()); abort(); }
    return *t;
}


// a mesh of elements given by their node coordinates (rows), merged and renumbered
struct Mesh {
    std::string name;
    int dim = 3;
    std::vector<V3> x;                       // node positions
    std::vector<std::vector<unsigned>> el;   // connectivity
};
// vertices of an element as an affine image of the reference nodes through its first corners
template <class E> std::vector<V3> affine_element(const std::array<V3, 4> &o_e1_e2_e3) {
    // o + u*e1 + v*e2 + w*e3, (u,v,w) in [0,1]^3 for tensor elements (reference -1..1), simplex coordinates otherwise
    const auto &e = ref::Info<E>::e();
    std::vector<V3> r;
    for (auto &n : e.nodes) {
        double c[3];
        for (int d = 0; d < 3; ++d) c[d] = e.simplex() ? double(n[d]) : (d < e.dim ? (double(n[d]) + 1) / 2 : 0);
        r.push_back(o_e1_e2_e3[0] + c[0] * o_e1_e2_e3[1] + c[1] * o_e1_e2_e3[2] + c[2] * o_e1_e2_e3[3]);
    }
    return r;
}
inline Mesh merge(const std::string &name, const std::vector<std::vector<V3>> &elements, int numbering, bool orphan) {
    std::vector<V3> pts; std::vector<std::vector<unsigned>> el;
    for (auto &e : elements) {
        std::vector<unsigned> c;
        for (auto &p : e) {
            unsigned k = 0;
            for (; k < pts.size(); ++k) if ((pts[k] - p).norm() < 1e-9) break;
            if (k == pts.size()) pts.push_back(p);
            c.push_back(k);
        }
        el.push_back(c);
    }
    if (orphan) pts.insert(pts.begin() + pts.size() / 2, V3(9, 9, 9)); // a node that belongs to no element
    const unsigned n = unsigned(pts.size());
    if (orphan) for (auto &c : el) for (auto &i : c) if (i >= (n - 1) / 2) ++i;
    std::vector<unsigned> to(n);
    for (unsigned i = 0; i < n; ++i) to[i] = numbering == 0 ? i : numbering == 1 ? n - 1 - i : (i * 7 + 3) % n;
    if (numbering == 2 && n % 7 == 0) for (unsigned i = 0; i < n; ++i) to[i] = (i + n / 2) % n;
    Mesh m; m.name = mc::str(name, " numbering#", numbering, orphan ? " orphan" : ""); m.x.resize(n);
    for (unsigned i = 0; i < n; ++i) m.x[to[i]] = pts[i];
    for (auto &c : el) { std::vector<unsigned> d; for (auto i : c) d.push_back(to[i]); m.el.push_back(d); }
    return m;
}
template <class E> std::vector<Mesh> meshes(bool more) {
    std::vector<Mesh> r;
    const V3 x(1, 0, 0), y(0, 1, 0), z(0, 0, 1), o(0, 0, 0);
    auto distort = [](Mesh m, double a) { // every node is moved by a smooth field: curved / non-affine initial elements
        for (auto &p : m.x) if (p[0] < 8) p += a * V3(std::sin(1.3 * p[1] + p[2]), p[0] * p[1] - 0.5 * p[2] * p[2], std::cos(p[0] + 2 * p[1]) * (0.3 + p[2]));
        m.name += " distorted"; return m;
    };
    std::vector<std::vector<std::vector<V3>>> sets;
    if constexpr (ref::Info<E>::kind == ref::HEX) {
        sets.push_back({affine_element<E>({o, x, y, z})});
        sets.push_back({affine_element<E>({o, x, y, z}), affine_element<E>({x, x, y, z})});
        // second element numbered in a rotated way, so that shared edges are met in either direction
        sets.push_back({affine_element<E>({o, x, y, z}), affine_element<E>({V3(2, 1, 0), -x, -y, z})});
        sets.push_back({affine_element<E>({V3(0, 0, 1), y, x, -z}), affine_element<E>({V3(2, 0, 0), y, -x, z})});
        if (more) sets.push_back({affine_element<E>({o, V3(2, 0, .5), V3(.3, .8, 0), V3(0, -.4, 1.5)})});
        if (more) sets.push_back({affine_element<E>({o, x, y, z}), affine_element<E>({x, x, y, z}), affine_element<E>({V3(0, 2, 0), -y, x, z}), affine_element<E>({V3(1, 1, 1), y, x, -z})});
    } else {
        sets.push_back({affine_element<E>({o, x, y, z})});
        sets.push_back({affine_element<E>({o, x, y, z}), affine_element<E>({V3(1, 1, 1), V3(-1, 0, -1), V3(0, -1, -1), V3(-1, -1, 0)})});
        sets.push_back({affine_element<E>({o, x, y, z}), affine_element<E>({x, V3(0, 1, 1), V3(-1, 1, 0), V3(-1, 0, 1)})});
        sets.push_back({affine_element<E>({o, y, z, x}), affine_element<E>({z, V3(0, 1, -1), V3(1, 1, 0), V3(1, 0, -1)})});
        if (more) sets.push_back({affine_element<E>({o, V3(2, 0, .5), V3(.3, .8, 0), V3(0, -.4, 1.5)})});
    }
    for (size_t s = 0; s < sets.size(); ++s) for (int num = 0; num < 3; ++num) for (int dis = 0; dis < 2; ++dis) {
        if (!more && (s == 0 ? (num != 0) : (dis + num) % 2 != int(s % 2) && !(s == 1))) continue;
        Mesh m = merge(mc::str(ref::Info<E>::name(), " set#", s), sets[s], num, num == 1);
        bool ok = true;
        if (dis) m = distort(m, 0.06);
        for (auto &c : m.el) { // positive orientation only
            const auto &e = ref::Info<E>::e();
            for (auto &q : e.nodes) {
                auto dl = e.dL(q); Eigen::Matrix<LD, 3, 3> J = Eigen::Matrix<LD, 3, 3>::Zero();
                for (size_t i = 0; i < c.size(); ++i) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) J(a, b) += LD(m.x[c[i]][a]) * dl[i][b];
                if (!(J.determinant() > 0.01)) ok = false;
            }
        }
        if (!ok) { fprintf(stderr, "mesh %s is inverted\n", m.name.c_str()); abort(); }
        r.push_back(m);
    }
    return r;
}
using DT3 = sofa::defaulttype::Vec3Types;
using State = sofa::core::behavior::MechanicalState<DT3>;
inline DT3::VecCoord coords(const std::vector<V3> &x) { DT3::VecCoord v(x.size()); for (size_t i = 0; i < x.size(); ++i) for (int d = 0; d < 3; ++d) v[i][d] = x[i][d]; return v; }
template <class E> void set_indices(SofaCaribou::topology::CaribouTopology<E> &t, const Mesh &m) {
    using A = sofa::type::fixed_array<sofa::Index, ref::g::traits<E>::NumberOfNodesAtCompileTime>;
    sofa::type::vector<A> v(m.el.size());
    for (size_t e = 0; e < m.el.size(); ++e) for (size_t i = 0; i < m.el[e].size(); ++i) v[e][i] = m.el[e][i];
    data<sofa::type::vector<A>>(t, "indices").setValue(v);
}

// ---- hyperelastic reference ------------------------------------------------------------------------------------
struct Law { int kind; double E, nu; }; // 0 Saint-Venant-Kirchhoff, 1 Neo-Hookean
using L3 = Eigen::Matrix<LD, 3, 3>;
struct Point { LD w; std::vector<std::array<LD, 3>> dN; }; // weight x |det J|, gradients w.r.t. the initial configuration
template <class E> std::vector<std::vector<Point>> points(const Mesh &m) {
    std::vector<std::vector<Point>> r;
    const auto &e = ref::Info<E>::e();
    for (auto &c : m.el) {
        Eigen::MatrixXd n(c.size(), 3); for (size_t i = 0; i < c.size(); ++i) n.row(i) = m.x[c[i]].transpose();
        const E el = ref::build<E>(n);
        std::vector<Point> ps;
        for (const auto &g : el.gauss_nodes()) { // the element's own rule; its exactness is property C05
            ref::V3 q{g.position[0], g.position[1], g.position[2]};
            auto dl = e.dL(q); L3 J = L3::Zero();
            for (size_t i = 0; i < c.size(); ++i) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) J(a, b) += LD(n(i, a)) * dl[i][b];
            L3 Ji = J.inverse(); Point p; p.w = LD(g.weight) * fabsl(J.determinant());
            for (size_t i = 0; i < c.size(); ++i) { std::array<LD, 3> d{0, 0, 0}; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) d[a] += Ji(b, a) * dl[i][b]; p.dN.push_back(d); }
            ps.push_back(p);
        }
        r.push_back(ps);
    }
    return r;
}
struct Response { double energy = 0; Eigen::VectorXd f; Eigen::MatrixXd K; double fscale = 0, kscale = 0, minJ = 1e9; };
inline Response respond(const Mesh &m, const std::vector<std::vector<Point>> &pts, const Law &law, const std::vector<V3> &x, bool wantK) {
    const LD mu = LD(law.E) / (2 * (1 + LD(law.nu))), l = LD(law.E) * law.nu / ((1 + LD(law.nu)) * (1 - 2 * LD(law.nu)));
    const size_t n = x.size();
    std::vector<LD> f(3 * n, 0), K(wantK ? 9 * n * n : 0, 0);
    LD W = 0, fs = 0; Response r;
    for (size_t e = 0; e < m.el.size(); ++e) {
        const auto &c = m.el[e];
        for (const auto &p : pts[e]) {
            L3 F = L3::Zero();
            for (size_t i = 0; i < c.size(); ++i) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) F(a, b) += LD(x[c[i]][a]) * p.dN[i][b];
            const L3 C = F.transpose() * F, Id = L3::Identity(), Ci = C.inverse(); const LD J = F.determinant(), k = logl(fabsl(J));
            r.minJ = std::min(r.minJ, double(J));
            L3 S;
            if (law.kind == 0) { L3 G = (C - Id) / 2; S = l * G.trace() * Id + 2 * mu * G; W += p.w * (l / 2 * G.trace() * G.trace() + mu * (G * G).trace()); }
            else { S = mu * (Id - Ci) + l * k * Ci; W += p.w * (mu / 2 * (C.trace() - 3) - mu * k + l / 2 * k * k); }
            L3 P = F * S;
            for (size_t i = 0; i < c.size(); ++i) for (int a = 0; a < 3; ++a) { LD v = 0; for (int b = 0; b < 3; ++b) v += P(a, b) * p.dN[i][b]; f[3 * c[i] + a] -= p.w * v; fs = std::max(fs, fabsl(p.w * v)); }
            if (!wantK) continue;
            auto D = [&](int A, int B, int G, int H) -> LD {
                auto d = [](int q, int s) -> LD { return q == s; };
                if (law.kind == 0) return l * d(A, B) * d(G, H) + mu * (d(A, G) * d(B, H) + d(A, H) * d(B, G));
                return l * Ci(A, B) * Ci(G, H) + (mu - l * k) * (Ci(A, G) * Ci(B, H) + Ci(A, H) * Ci(B, G));
            };
            std::vector<std::array<LD, 27>> T(c.size()); // T_i[a][G][H] = F_aA dN_iB D_ABGH
            LD DD[81]; for (int q = 0; q < 81; ++q) DD[q] = D(q / 27, q / 9 % 3, q / 3 % 3, q % 3);
            for (size_t i = 0; i < c.size(); ++i) for (int a = 0; a < 3; ++a) for (int gh = 0; gh < 9; ++gh) { LD v = 0; for (int A = 0; A < 3; ++A) for (int B = 0; B < 3; ++B) v += F(a, A) * p.dN[i][B] * DD[A * 27 + B * 9 + gh]; T[i][a * 9 + gh] = v; }
            for (size_t i = 0; i < c.size(); ++i) for (size_t j = 0; j < c.size(); ++j) {
                LD geo = 0; for (int A = 0; A < 3; ++A) for (int B = 0; B < 3; ++B) geo += p.dN[i][A] * S(A, B) * p.dN[j][B];
                for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) {
                    LD v = a == b ? geo : 0;
                    for (int G = 0; G < 3; ++G) for (int H = 0; H < 3; ++H) v += T[i][a * 9 + G * 3 + H] * F(b, G) * p.dN[j][H];
                    K[(3 * c[i] + a) * 3 * n + 3 * c[j] + b] += p.w * v;
                }
            }
        }
    }
    r.energy = double(W); r.f.resize(3 * n); for (size_t i = 0; i < 3 * n; ++i) r.f[i] = double(f[i]);
    r.fscale = double(fs) + 1e-3 * double(mu + fabsl(l));
    if (wantK) { r.K.resize(3 * n, 3 * n); for (size_t i = 0; i < 3 * n; ++i) for (size_t j = 0; j < 3 * n; ++j) r.K(i, j) = double(K[i * 3 * n + j]); r.kscale = r.K.cwiseAbs().maxCoeff(); }
    return r;
}
// deformations of the nodes of a mesh: affine ones and single-node displacements
template <class F> void deformations(const Mesh &m, bool more, F &&f) {
    std::vector<M3> A;
    A.push_back(M3::Identity());
    { M3 a = (Eigen::AngleAxisd(1.1, V3(1, 2, -1).normalized())).toRotationMatrix(); A.push_back(a); }
    { M3 a; a << 1.3, 0.2, -0.1, 0.05, 0.9, 0.3, 0.1, -0.2, 1.1; A.push_back(a); }
    { M3 a; a << 0.7, 0, 0, 0, 1.2, 0, 0, 0, 1; A.push_back(a); }
    { M3 a; a << 0, -1.2, 0, 0.9, 0.3, 0, 0.2, 0, 1.4; A.push_back(a); }
    { M3 a; a << 1, 0.4, 0, 0, 1, -0.3, 0, 0, 1; A.push_back(a); }
    const V3 t(0.5, -3, 2);
    for (size_t k = 0; k < A.size(); ++k) {
        std::vector<V3> x; for (auto &p : m.x) x.push_back(A[k] * p + (k ? t : V3(V3::Zero())));
        f(x, mc::str("affine#", k), true);
    }
    for (size_t k : {size_t(0), size_t(2)}) for (size_t i = 0; i < m.x.size(); ++i) for (int d = 0; d < 3; ++d) for (int s = -1; s <= 1; s += 2) {
        if (!more && (k ? (i + d) % 3 : (d + s) % 2 != 0 && i % 2)) continue;
        std::vector<V3> x; for (auto &p : m.x) x.push_back(A[k] * p);
        x[i][d] += s * 0.07;
        f(x, mc::str("affine#", k, " node ", i, " axis ", d, s > 0 ? "+" : "-"), false);
    }
}
} // namespace fem
