// C25: the barycentric mapping: positions and velocities of embedded points interpolate the parent's nodes, forces and
// constraints come back through the transposed operator.
#include "fem.h"
#include <SofaCaribou/Mapping/CaribouBarycentricMapping[Hexahedron].h>
#include <SofaCaribou/Mapping/CaribouBarycentricMapping[Tetrahedron].h>
#include <SofaCaribou/Topology/CaribouTopology[Hexahedron].h>
#include <SofaCaribou/Topology/CaribouTopology[Tetrahedron].h>
using namespace fem;
template <class T> using P = sofa::core::objectmodel::SPtr_<T>;
using MD = DT3::MatrixDeriv;
struct Embedded { V3 x; Eigen::VectorXd L; }; // a point and its interpolation weights on the nodes of the mesh
template <class E> std::vector<Embedded> lattice(const Mesh &m, int n, bool interior) {
    const auto &e = ref::Info<E>::e(); std::vector<Embedded> r;
    for (auto &c : m.el) for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) for (int k = 0; k <= n; ++k) {
        ref::V3 q{LD(i) / n, LD(j) / n, LD(k) / n};
        if (e.simplex()) { if (i + j + k > n) continue; } else for (auto &v : q) v = 2 * v - 1;
        if (interior) for (auto &v : q) v = e.simplex() ? 0.25L + 0.9L * (v - 0.25L) : 0.9L * v; // on the boundary of a curved element, inside or outside depends on rounding
        auto L = e.L(q); Embedded p; p.L = Eigen::VectorXd::Zero(m.x.size()); LD x[3] = {0, 0, 0};
        for (size_t a = 0; a < c.size(); ++a) { p.L[c[a]] += double(L[a]); for (int d = 0; d < 3; ++d) x[d] += L[a] * LD(m.x[c[a]][d]); }
        p.x = V3(double(x[0]), double(x[1]), double(x[2]));
        r.push_back(p);
    }
    return r;
}
template <class E> struct Scene {
    using Map = SofaCaribou::mapping::CaribouBarycentricMapping<E, DT3>;
    using Topo = SofaCaribou::topology::CaribouTopology<E>;
    P<sofa::simulation::Node> parent{new sofa::simulation::Node()}, child{new sofa::simulation::Node()};
    P<State> from{new State()}, to{new State()};
    P<Topo> topo{new Topo()};
    P<Map> map{new Map()};
    sofa::core::BaseMapping *base() { return map.get(); }
    sofa::core::Mapping<DT3, DT3> &m() { return *map; }
    // link: 0 topology of the parent node, 1 explicit link, 2 topology in the mapped node
    Scene(const Mesh &mesh, const std::vector<V3> &x, int link, bool rest) {
        auto set = [](State &s, const std::vector<V3> &p) { auto v = coords(p); s.x_.setValue(v); s.xfree_.setValue(v); DT3::VecDeriv z(v.size()); s.v_.setValue(z); s.f_.setValue(z); s.dx_.setValue(z); };
        set(*from, mesh.x); from->x0_.setValue(coords(mesh.x));
        set(*to, x); if (rest) to->x0_.setValue(coords(x));
        child->parent_ = parent.get();
        parent->addObject(from); child->addObject(to);
        set_indices<E>(*topo, mesh); data<DT3::VecCoord>(*topo, "position").setValue(coords(mesh.x));
        (link == 2 ? child : parent)->addObject(topo); topo->init();
        map->from_ = from.get(); map->to_ = to.get();
        if (link == 1) { auto *l = map->findLink("topology"); dynamic_cast<sofa::core::objectmodel::SingleLink<Map, Topo, sofa::core::objectmodel::BaseLink::FLAG_STRONGLINK> &>(*l).set(topo.get()); }
        child->addObject(map); map->init();
    }
};
static Eigen::MatrixXd rows(const DT3::VecCoord &v) { Eigen::MatrixXd r(v.size(), 3); for (size_t i = 0; i < v.size(); ++i) for (int d = 0; d < 3; ++d) r(i, d) = v[i][d]; return r; }
static DT3::VecCoord vec(const Eigen::MatrixXd &m) { DT3::VecCoord v(m.rows()); for (long i = 0; i < m.rows(); ++i) for (int d = 0; d < 3; ++d) v[i][d] = m(i, d); return v; }
static Eigen::MatrixXd pattern(long n, int k) { Eigen::MatrixXd r(n, 3); for (long i = 0; i < n; ++i) for (int d = 0; d < 3; ++d) r(i, d) = double((i * (5 + k) + d * 3 + k * k) % 11) - 4.5 + 0.1 * k; return r; }
template <class E> void explore() {
    const char *who = ref::Info<E>::name();
    const bool more = mc::thorough();
    const auto ms = meshes<E>(more);
    const int part = getenv("MC_PART") ? atoi(getenv("MC_PART")) : 0, parts = getenv("MC_PARTS") ? atoi(getenv("MC_PARTS")) : 1;
    sofa::core::MechanicalParams mp; sofa::core::ConstraintParams cp;
    for (size_t mi = part; mi < ms.size(); mi += parts) {
        const Mesh &m = ms[mi];
        const bool distorted = m.name.find("distorted") != std::string::npos;
        const double tol = distorted ? 1e-3 : 1e-9;
        const long n = long(m.x.size());
        auto all = lattice<E>(m, more ? 6 : 4, distorted);
        // the whole lattice at once, in groups, and point by point
        std::vector<std::vector<Embedded>> groups{all};
        for (size_t i = 0; i < all.size(); i += 3) groups.push_back({all[i]});
        for (size_t i = 0; i + 5 < all.size(); i += 7) groups.push_back({all[i + 4], all[i], all[i + 2], all[i]}); // repeated, unordered
        for (size_t gi = 0; gi < groups.size(); ++gi) {
            const auto &g = groups[gi]; const long k = long(g.size());
            std::vector<V3> px; Eigen::MatrixXd L(k, n); for (long i = 0; i < k; ++i) { px.push_back(g[i].x); L.row(i) = g[i].L.transpose(); }
            const int link = int(gi % 3);
            const std::string what = mc::str(m.name, " group ", gi, " of ", k, " points, topology ", link);
            mc::crumb(mc::str(who, " ", what));
            const auto errors = sofa::helper::logging::Log::errors();
            Scene<E> s(m, px, link, gi % 2); mc::trace();
            const Eigen::MatrixXd X0 = rows(s.from->x_.getValue());
            mc::check(errors == sofa::helper::logging::Log::errors(), "accepts-inside", who, what, ": init reported an error");
            mc::check(mc::maxdiff(rows(s.to->x_.getValue()), L * X0) <= tol, "init-position", who, what, " max error ", mc::maxdiff(rows(s.to->x_.getValue()), L * X0));
            const int rounds = gi == 0 ? 4 : 2;
            Eigen::MatrixXd J; // the code's own operator, from unit displacements of the parent nodes
            if (gi % 5 == 0) {
                J.resize(k, n);
                for (long j = 0; j < n; ++j) {
                    Eigen::MatrixXd u = Eigen::MatrixXd::Zero(n, 3); u(j, 0) = 1; u(j, 1) = -2; u(j, 2) = 3;
                    Data<DT3::VecDeriv> in, out; in.setValue(vec(u)); out.setValue(vec(pattern(k, 9)));
                    s.m().applyJ(&mp, out, in); mc::step();
                    Eigen::MatrixXd o = rows(out.getValue());
                    J.col(j) = o.col(0);
                    mc::check(mc::maxdiff(o.col(1), -2 * o.col(0)) <= 1e-12 && mc::maxdiff(o.col(2), 3 * o.col(0)) <= 1e-12, "componentwise", who, what, " node ", j);
                }
                mc::check(mc::maxdiff(J, L) <= tol, "shape-values", who, what, " max error ", mc::maxdiff(J, L));
                mc::check((J.rowwise().sum().array() - 1).abs().maxCoeff() <= 1e-10, "partition-of-unity", who, what);
            } else J = L;
            const double tj = gi % 5 == 0 ? 1e-11 : tol;
            auto op_apply = [&](int r) {
                const Eigen::MatrixXd u = pattern(n, r);
                Data<DT3::VecCoord> in, out; in.setValue(vec(u)); out.setValue(vec(pattern(k, 8)));
                s.m().apply(&mp, out, in); mc::step();
                mc::check(mc::maxdiff(rows(out.getValue()), J * u) <= tj * 100, "apply", who, what, " max error ", mc::maxdiff(rows(out.getValue()), J * u));
            };
            auto op_J = [&](int r) {
                const Eigen::MatrixXd u = pattern(n, r + 3);
                Data<DT3::VecDeriv> in, out; in.setValue(vec(u)); out.setValue(vec(pattern(k, 7)));
                s.m().applyJ(&mp, out, in); mc::step();
                mc::check(mc::maxdiff(rows(out.getValue()), J * u) <= tj * 100, "applyJ", who, what, " max error ", mc::maxdiff(rows(out.getValue()), J * u));
            };
            auto op_JT = [&](int r) { // accumulates
                const Eigen::MatrixXd f = pattern(k, r), before = pattern(n, r + 1);
                Data<DT3::VecDeriv> in, out; in.setValue(vec(f)); out.setValue(vec(before));
                s.m().applyJT(&mp, out, in); mc::step();
                mc::check(mc::maxdiff(rows(out.getValue()), before + J.transpose() * f) <= tj * 100 * double(k), "applyJT", who, what, " max error ", mc::maxdiff(rows(out.getValue()), before + J.transpose() * f));
            };
            auto op_C = [&](int r) { // constraint rows, some with several mapped nodes, on top of existing rows
                Data<MD> in, out; MD mi_, mo_;
                std::map<unsigned, Eigen::MatrixXd> want;
                for (unsigned row : {0u, 2u, 7u}) {
                    Eigen::MatrixXd w = Eigen::MatrixXd::Zero(n, 3);
                    if (row != 7u || r % 2) { auto l = mo_.writeLine(row); for (long j = r % 2; j < n; j += 2) { l.addCol(unsigned(j), DT3::Deriv(1., double(j), -2.)); w.row(j) = Eigen::RowVector3d(1., double(j), -2.); } }
                    if (row != 2u || r > 0) {
                        auto l = mi_.writeLine(row);
                        for (long i = 0; i < k; i += row == 0 ? k : 1 + (r % 3)) { DT3::Deriv d(double(i) - 2, 0.5, double(row)); l.addCol(unsigned(i), d); w += J.row(i).transpose() * Eigen::RowVector3d(d[0], d[1], d[2]); }
                    }
                    want[row] = w;
                }
                in.setValue(mi_); out.setValue(mo_);
                s.m().applyJT(&cp, out, in); mc::step();
                double worst = 0; bool rowsok = true;
                for (auto &rw : out.getValue().m) if (!want.count(rw.first)) rowsok = false;
                for (auto &w : want) {
                    Eigen::MatrixXd got = Eigen::MatrixXd::Zero(n, 3); auto it = out.getValue().m.find(w.first);
                    if (it != out.getValue().m.end()) for (auto &c : it->second) { if (long(c.first) >= n) { rowsok = false; continue; } for (int d = 0; d < 3; ++d) got(c.first, d) += c.second[d]; }
                    worst = std::max(worst, mc::maxdiff(got, w.second));
                }
                mc::check(rowsok && worst <= tj * 100 * double(k), "constraint-JT", who, what, " max error ", worst);
            };
            // operations are independent of each other: all orders of length 3 for a few groups
            if (gi == 0 || gi == 4) mc::product(std::vector<int>(3, 5), [&](const std::vector<int> &h) {
                for (size_t q = 0; q < h.size(); ++q) { int o = h[q]; if (o == 0) op_apply(int(q)); else if (o == 1) op_J(int(q)); else if (o == 2) op_JT(int(q)); else if (o == 3) op_C(int(q)); else if (q == 1) s.map->init(); }
                mc::state(); mc::trace();
            });
            else for (int r = 0; r < rounds; ++r) { op_apply(r); op_J(r); op_JT(r); op_C(r); mc::state(); }
        }
        // a point outside: reported, and nothing is written
        for (int k = 0; k < 4; ++k) {
            std::vector<V3> px; for (int i = 0; i < 4; ++i) px.push_back(all[(i * 5) % all.size()].x);
            if (k) px[k] = V3(5, -4, 3); else px.assign(1, V3(5, -4, 3));
            const auto errors = sofa::helper::logging::Log::errors();
            mc::crumb(mc::str(who, " ", m.name, " outside ", k));
            Scene<E> s(m, px, k % 3, true); mc::trace(); mc::state();
            const std::string what = mc::str(m.name, " outside point ", k);
            mc::check(sofa::helper::logging::Log::errors() > errors, "reports-outside", who, what);
            const long c = long(px.size());
            Eigen::MatrixXd a = pattern(c, 1), b = pattern(n, 2);
            Data<DT3::VecCoord> x, y; x.setValue(vec(b)); y.setValue(vec(a));
            s.m().apply(&mp, y, x); mc::check(rows(y.getValue()) == a, "outside-apply", who, what);
            s.m().applyJ(&mp, y, x); mc::check(rows(y.getValue()) == a, "outside-applyJ", who, what);
            s.m().applyJT(&mp, x, y); mc::check(rows(x.getValue()) == b, "outside-applyJT", who, what);
            Data<MD> in, out; MD mm; mm.writeLine(0).addCol(0, DT3::Deriv(1., 2., 3.)); in.setValue(mm);
            s.m().applyJT(&cp, out, in); mc::check(out.getValue().empty(), "outside-constraint", who, what);
            mc::step(4);
        }
    }
    mc::bound(mc::str(who, " meshes"), mc::str(ms.size()));
}
int main(int argc, char **argv) {
    return mc::run(argc, argv, [] {
#if SHARD == 0
        explore<ref::g::Tetrahedron<caribou::Linear>>(); explore<ref::g::Tetrahedron<caribou::Quadratic>>();
#else
        explore<ref::g::Hexahedron<caribou::Linear>>(); explore<ref::g::Hexahedron<caribou::Quadratic>>();
#endif
        mc::bound("points", "every point of a 4-division (6 thorough) lattice of every element, as one set, in unordered groups with repetitions and alone");
        mc::bound("histories", "all sequences of 3 of apply / applyJ / applyJT / constraint applyJT / init");
    });
}
