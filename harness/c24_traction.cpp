// C24: the traction force field: the nodal forces are those of the documented load history, for every history of steps,
// resets and evaluations, every load schedule and every surface of a set.
#include "fem.h"
#include <SofaCaribou/Forcefield/TractionForcefield[Triangle].h>
#include <SofaCaribou/Forcefield/TractionForcefield[Quad].h>
#include <SofaCaribou/Topology/CaribouTopology[Triangle].h>
#include <SofaCaribou/Topology/CaribouTopology[Quad].h>
using namespace fem;
using sofa::core::MechanicalParams;
struct Surface { std::string name; std::vector<Eigen::Vector3d> x; std::vector<std::vector<unsigned>> el; double area; /* < 0: not flat */ };
template <class E> std::vector<V3> flat_element(V3 o, V3 a, V3 b) {
    const auto &e = ref::Info<E>::e(); std::vector<V3> r;
    for (auto &n : e.nodes) { double u = double(n[0]), v = double(n[1]); if (!e.simplex()) { u = (u + 1) / 2; v = (v + 1) / 2; } r.push_back(o + u * a + v * b); }
    return r;
}
template <class E> std::vector<Surface> surfaces() {
    constexpr int D = ref::g::traits<E>::Dimension;
    std::vector<Surface> r;
    const V3 o(0, 0, 0), x(1, 0, 0), y(0, 1, 0), z(0, 0, 1);
    const double half = ref::Info<E>::e().simplex() ? 0.5 : 1;
    std::vector<std::tuple<std::string, std::vector<std::vector<V3>>, double>> sets;
    sets.push_back({"unit", {flat_element<E>(o, x, y)}, half});
    sets.push_back({"skewed", {flat_element<E>(V3(1, 2, 0), V3(2, .5, 0), V3(-.3, 1.2, 0))}, half * (2 * 1.2 + .3 * .5)});
    sets.push_back({"reversed", {flat_element<E>(o, y, x)}, half}); // clockwise
    sets.push_back({"two", {flat_element<E>(o, x, y), flat_element<E>(V3(1, 1, 0), -x, -y)}, -1});
    if (!ref::Info<E>::e().simplex()) sets.back() = {"two", {flat_element<E>(o, x, y), flat_element<E>(V3(2, 1, 0), -x, -y)}, 2};
    else std::get<2>(sets.back()) = 1;
    sets.push_back({"small", {flat_element<E>(o, 1e-3 * x, 1e-3 * y)}, half * 1e-6});
    if (D == 3) {
        sets.push_back({"tilted", {flat_element<E>(z, V3(1, 0, 1), V3(0, 2, -1))}, half * V3(1, 0, 1).cross(V3(0, 2, -1)).norm()});
        sets.push_back({"corner", {flat_element<E>(o, x, y), flat_element<E>(o, z, x), flat_element<E>(o, y, z)}, 3 * half});
    }
    for (auto &s : sets) for (int num = 0; num < 3; ++num) {
        Mesh m = merge(std::get<0>(s), std::get<1>(s), num, num == 1);
        if (m.x.size() == 0) continue;
        r.push_back({m.name, m.x, m.el, std::get<2>(s)});
        if (num != 0) continue;
        for (auto &p : m.x) if (p[0] < 8) p += 0.08 * V3(std::sin(2 * p[1]), p[0] * p[0] - p[1], D == 3 ? p[0] * p[1] : 0);
        r.push_back({m.name + " distorted", m.x, m.el, -1});
    }
    return r;
}
template <class E> struct Scene {
    static constexpr int D = ref::g::traits<E>::Dimension;
    using DT = typename SofaCaribou::topology::SofaVecType<D>::Type;
    using FF = SofaCaribou::forcefield::TractionForcefield<E>;
    using Topo = SofaCaribou::topology::CaribouTopology<E>;
    using MO = sofa::core::behavior::MechanicalState<DT>;
    sofa::core::objectmodel::SPtr_<sofa::simulation::Node> node{new sofa::simulation::Node()};
    sofa::core::objectmodel::SPtr_<MO> mo{new MO()};
    sofa::core::objectmodel::SPtr_<FF> ff{new FF()};
    typename DT::VecCoord vec(const std::vector<V3> &x) { typename DT::VecCoord v(x.size()); for (size_t i = 0; i < x.size(); ++i) for (int d = 0; d < D; ++d) v[i][d] = x[i][d]; return v; }
    Scene(const Surface &s, const V3 &traction, double slope, unsigned wait, bool moved) {
        auto x = vec(s.x);
        mo->x0_.setValue(x);
        if (moved) for (size_t i = 0; i < x.size(); ++i) for (int d = 0; d < D; ++d) x[i][d] = 2 * x[i][d] + d; // the load is taken on the rest configuration
        mo->x_.setValue(x); mo->xfree_.setValue(x);
        typename DT::VecDeriv z(x.size()); mo->v_.setValue(z); mo->f_.setValue(z); mo->dx_.setValue(z);
        node->addObject(mo);
        sofa::core::objectmodel::SPtr_<Topo> t(new Topo());
        using A = sofa::type::fixed_array<sofa::Index, ref::g::traits<E>::NumberOfNodesAtCompileTime>;
        sofa::type::vector<A> v(s.el.size());
        for (size_t e = 0; e < s.el.size(); ++e) for (size_t i = 0; i < s.el[e].size(); ++i) v[e][i] = s.el[e][i];
        data<sofa::type::vector<A>>(*t, "indices").setValue(v);
        data<typename DT::VecCoord>(*t, "position").setValue(vec(s.x));
        node->addObject(t); t->init();
        typename DT::Deriv tr; for (int d = 0; d < D; ++d) tr[d] = traction[d];
        data<typename DT::Deriv>(*ff, "traction").setValue(tr);
        data<double>(*ff, "slope").setValue(slope);
        data<unsigned>(*ff, "number_of_steps_before_increment").setValue(wait);
        node->addObject(ff); ff->init();
    }
};
// nodal forces of a unit traction scalar: integral of the shape functions over the elements
template <class E> std::vector<LD> unit_load(const Surface &s) {
    constexpr int D = ref::g::traits<E>::Dimension;
    const auto &e = ref::Info<E>::e();
    std::vector<LD> w(s.x.size(), 0);
    for (auto &c : s.el) {
        Eigen::MatrixXd n(c.size(), D); for (size_t i = 0; i < c.size(); ++i) for (int d = 0; d < D; ++d) n(i, d) = s.x[c[i]][d];
        const E el = ref::build<E>(n);
        for (const auto &g : el.gauss_nodes()) {
            ref::V3 q{g.position[0], g.position[1], 0};
            auto L = e.L(q); auto dl = e.dL(q);
            LD a[3] = {0, 0, 0}, b[3] = {0, 0, 0};
            for (size_t i = 0; i < c.size(); ++i) for (int d = 0; d < D; ++d) { a[d] += LD(n(i, d)) * dl[i][0]; b[d] += LD(n(i, d)) * dl[i][1]; }
            const LD cx = a[1] * b[2] - a[2] * b[1], cy = a[2] * b[0] - a[0] * b[2], cz = a[0] * b[1] - a[1] * b[0];
            for (size_t i = 0; i < c.size(); ++i) w[c[i]] += LD(g.weight) * sqrtl(cx * cx + cy * cy + cz * cz) * L[i];
        }
    }
    return w;
}
struct Other : sofa::core::objectmodel::Event {};
template <class E> void explore() {
    constexpr int D = ref::g::traits<E>::Dimension;
    using DT = typename Scene<E>::DT;
    const char *who = ref::Info<E>::name();
    const auto ss = surfaces<E>();
    const V3 tractions[] = {V3(0, -2, 3), V3(1.5, 0, 0), V3(-1, 1, 1), V3(0, 0, 0)};
    const double slopes[] = {0, 1, 0.25, 0.3, 0.1, 1.5};
    const bool more = mc::thorough();
    for (size_t si = 0; si < ss.size(); ++si) {
        const Surface &s = ss[si];
        const auto w = unit_load<E>(s);
        LD area = 0; for (auto v : w) area += v;
        if (s.area >= 0) mc::check(std::fabs(double(area) - s.area) <= 1e-12 * s.area, "area", who, s.name, " ", double(area), " expected ", s.area);
        for (int ti = 0; ti < 4; ++ti) for (int sl = 0; sl < 6; ++sl) for (unsigned wait = 0; wait < 4; ++wait) for (int moved = 0; moved < 2; ++moved) {
            if (!more && si > 0 && (ti + sl + int(wait) + moved + int(si)) % 3) continue;
            V3 tr = tractions[ti]; if (D == 2) tr[2] = 0;
            const double tn = tr.norm(), slope = slopes[sl];
            const std::string conf = mc::str(s.name, " traction ", tr.transpose(), " slope ", slope, " wait ", wait, moved ? " moved" : "");
            mc::crumb(mc::str(who, " ", conf));
            Scene<E> sc(s, tr, slope, wait, moved); mc::trace();
            MechanicalParams mp;
            // reference load schedule
            double fraction = 0; unsigned steps = 0;
            auto restart = [&] { fraction = slope == 0 ? 1 : 0; steps = 0; };
            auto step = [&] { // the first step increments, then one step in every max(1, wait)
                if (slope == 0) return;
                const unsigned period = std::max(1u, wait);
                if (steps % period == 0) fraction = std::min(1.0, fraction + slope);
                ++steps;
            };
            restart();
            auto verify = [&](const std::string &h) {
                const auto &nf = data<typename DT::VecDeriv>(*sc.ff, "nodal_forces").getValue();
                bool ok = nf.size() == s.x.size(); double worst = 0;
                const double tol = 1e-10 * (double(area) * tn + 1e-300);
                if (ok) for (size_t i = 0; i < nf.size(); ++i) for (int d = 0; d < D; ++d) worst = std::max(worst, std::fabs(nf[i][d] - fraction * tr[d] * double(w[i])));
                mc::check(ok && worst <= tol, "nodal-forces", who, conf, " after ", h, ": ", nf.size(), " nodes, max error ", worst);
                const double load = data<double>(*sc.ff, "total_load").getValue();
                mc::check(std::fabs(load - fraction * tn * double(area)) <= tol, "total-load", who, conf, " after ", h, ": ", load, " expected ", fraction * tn * double(area));
                if (!ok) return false;
                auto f = sc.mo->f_.getValue(); for (size_t i = 0; i < f.size(); ++i) for (int d = 0; d < D; ++d) f[i][d] = double(i) + 10 * d;
                sc.mo->f_.setValue(f);
                static_cast<sofa::core::behavior::BaseForceField &>(*sc.ff).addForce(&mp, sofa::core::VecDerivId::force()); mc::step();
                const auto &g = sc.mo->f_.getValue(); worst = 0;
                for (size_t i = 0; i < g.size(); ++i) for (int d = 0; d < D; ++d) worst = std::max(worst, std::fabs(g[i][d] - f[i][d] - fraction * tr[d] * double(w[i])));
                mc::check(g.size() == f.size() && worst <= tol + 1e-13 * 100, "addForce", who, conf, " after ", h, ": max error ", worst);
                mc::state();
                return true;
            };
            sofa::simulation::AnimateBeginEvent begin; sofa::simulation::AnimateEndEvent end; Other other;
            if (!verify("init")) continue;
            // a long run
            std::string h;
            for (int k = 0; k < 14; ++k) { sc.ff->handleEvent(&begin); step(); if (!verify(mc::str(k + 1, " steps"))) break; }
            // all histories of steps (b), other events (o) and resets (r), chained on one object through resets
            const int depth = more ? 6 : si == 0 ? 4 : 3;
            bool alive = true;
            for (int d = 1; d <= depth && alive; ++d) mc::product(std::vector<int>(d, 3), [&](const std::vector<int> &ops) {
                if (!alive) return;
                sc.ff->reset(); restart(); mc::step();
                std::string hs = "reset ";
                for (int o : ops) {
                    hs += o == 0 ? "step " : o == 1 ? "events " : "reset ";
                    if (o == 0) { sc.ff->handleEvent(&begin); step(); }
                    else if (o == 1) { sc.ff->handleEvent(&end); sc.ff->handleEvent(&other); }
                    else { sc.ff->reset(); restart(); }
                    mc::step();
                }
                alive = verify(hs);
                mc::trace();
            });
        }
    }
    mc::bound(mc::str(who, " surfaces"), mc::str(ss.size()));
}
int main(int argc, char **argv) {
    return mc::run(argc, argv, [] {
#if SHARD == 0
        explore<ref::g::Triangle<2, caribou::Linear>>(); explore<ref::g::Triangle<2, caribou::Quadratic>>();
#elif SHARD == 1
        explore<ref::g::Triangle<3, caribou::Linear>>(); explore<ref::g::Triangle<3, caribou::Quadratic>>();
#elif SHARD == 2
        explore<ref::g::Quad<2, caribou::Linear>>(); explore<ref::g::Quad<2, caribou::Quadratic>>();
#else
        explore<ref::g::Quad<3, caribou::Linear>>(); explore<ref::g::Quad<3, caribou::Quadratic>>();
#endif
        mc::bound("schedules", "slopes 0, 0.1, 0.25, 0.3, 1, 1.5 x waits 0..3; all histories of step / other event / reset to depth 3-4 (6 thorough), plus 14 steps");
    });
}
