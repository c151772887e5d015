// C27: the (corotated) linear elastic forces on tetrahedra and hexahedra: forces, tangent and their histories.
#include "fem.h"
#include <SofaCaribou/Forcefield/HexahedronElasticForce.h>
#include <SofaCaribou/Forcefield/TetrahedronElasticForce.h>
using namespace fem;
using sofa::core::MechanicalParams;
template <class T> using P = sofa::core::objectmodel::SPtr_<T>;
#if SHARD % 2 == 0
using E = ref::g::Tetrahedron<caribou::Linear>; using FF = SofaCaribou::forcefield::TetrahedronElasticForce; constexpr bool HEX = false;
#define HEXA(...)
#define TETRA(...) __VA_ARGS__
using Container = sofa::component::topology::TetrahedronSetTopologyContainer;
#else
using E = ref::g::Hexahedron<caribou::Linear>; using FF = SofaCaribou::forcefield::HexahedronElasticForce; constexpr bool HEX = true;
#define HEXA(...) __VA_ARGS__
#define TETRA(...)
using Container = sofa::component::topology::HexahedronSetTopologyContainer;
#endif
constexpr int NN = HEX ? 8 : 4;
static const char *who = HEX ? "HexahedronElasticForce" : "TetrahedronElasticForce";
static bool mine() { // this process explores every parts-th configuration
    static const int part = getenv("MC_PART") ? atoi(getenv("MC_PART")) : 0, parts = getenv("MC_PARTS") ? atoi(getenv("MC_PARTS")) : 1; static long k = 0;
    return k++ % parts == part;
}
struct Dense : sofa::defaulttype::BaseMatrix {
    Eigen::MatrixXd m;
    Index rowSize() const override { return Index(m.rows()); }
    Index colSize() const override { return Index(m.cols()); }
    SReal element(Index i, Index j) const override { return m(i, j); }
    void resize(Index a, Index b) override { m = Eigen::MatrixXd::Zero(a, b); }
    void clear() override { m.setZero(); }
    void set(Index i, Index j, double v) override { m(i, j) = v; }
    void add(Index i, Index j, double v) override { m(i, j) += v; }
    using sofa::defaulttype::BaseMatrix::add; using sofa::defaulttype::BaseMatrix::clear;
};
static Eigen::VectorXd flat(const DT3::VecDeriv &v) { Eigen::VectorXd r(3 * v.size()); for (size_t i = 0; i < v.size(); ++i) for (int d = 0; d < 3; ++d) r[3 * i + d] = v[i][d]; return r; }
struct Settings { double young = 1000, nu = 0.3; bool corotated = true; int method = 0; };
struct Elastic {
    P<sofa::simulation::Node> node{new sofa::simulation::Node()}; P<State> mo{new State()}; P<Container> topo{new Container()}; P<FF> ff{new FF()};
    Elastic(const Mesh &m, const Settings &s, bool init = true) {
        const auto x = coords(m.x);
        mo->x_.setValue(x); mo->x0_.setValue(x); mo->xfree_.setValue(x);
        DT3::VecDeriv z(x.size()); mo->v_.setValue(z); mo->f_.setValue(z); mo->dx_.setValue(z);
        node->addObject(mo);
        auto fill = [&](auto &d) { typename std::decay_t<decltype(d)>::value_type v(m.el.size()); for (size_t e = 0; e < v.size(); ++e) for (int i = 0; i < NN; ++i) v[e][i] = m.el[e][i]; d.setValue(v); };
        HEXA(fill(topo->hexahedra);) TETRA(fill(topo->tetrahedra);)
        node->addObject(topo); node->addObject(ff);
        set(s);
        if (init) ff->init();
    }
    void set(const Settings &s) {
        data<double>(*ff, "youngModulus").setValue(s.young); data<double>(*ff, "poissonRatio").setValue(s.nu); data<bool>(*ff, "corotated").setValue(s.corotated);
        HEXA(ff->set_integration_method(s.method ? FF::IntegrationMethod::OnePointGauss : FF::IntegrationMethod::Regular);)
    }
    sofa::core::behavior::BaseForceField &base() { return *ff; }
    Eigen::VectorXd force(const std::vector<V3> &x, bool preload) {
        mo->x_.setValue(coords(x));
        auto f = mo->f_.getValue(); for (size_t i = 0; i < f.size(); ++i) for (int d = 0; d < 3; ++d) f[i][d] = preload ? double(i) - 2 * d : 0.;
        mo->f_.setValue(f);
        MechanicalParams mp; mp.setX(sofa::core::ConstVecCoordId::position());
        base().addForce(&mp, sofa::core::VecDerivId::force()); mc::step();
        return flat(mo->f_.getValue()) - flat(f);
    }
};
// the reference: stiffness of every element in the global frame, frames of the elements
struct Model {
    const Mesh &m; std::vector<Eigen::MatrixXd> K; std::vector<M3> R0, R; double kscale = 0; Settings s;
    static M3 frame(const Mesh &m, size_t e, const std::vector<V3> &x) {
        Eigen::MatrixXd n(NN, 3); for (int i = 0; i < NN; ++i) n.row(i) = x[m.el[e][i]].transpose();
        const auto el = ref::build<E>(n);
        HEXA(return el.frame({0, 0, 0});) TETRA(return el.frame();)
    }
    Model(const Mesh &m, const Settings &s) : m(m), s(s) { reinit(s); }
    void reinit(const Settings &settings) {
        s = settings; K.clear(); R0.clear(); kscale = 0;
        for (size_t e = 0; e < m.el.size(); ++e) {
            Mesh one; one.dim = 3; one.el.push_back({}); for (int i = 0; i < NN; ++i) { one.x.push_back(m.x[m.el[e][i]]); one.el[0].push_back(i); }
            auto pts = points<E>(one);
            if (s.method) { // one point at the centre
                const auto &r = ref::Info<E>::e(); auto dl = r.dL(ref::V3{0, 0, 0}); L3 J = L3::Zero();
                for (int i = 0; i < NN; ++i) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) J(a, b) += LD(one.x[i][a]) * dl[i][b];
                L3 Ji = J.inverse(); Point p; p.w = 8 * fabsl(J.determinant());
                for (int i = 0; i < NN; ++i) { std::array<LD, 3> d{0, 0, 0}; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) d[a] += Ji(b, a) * dl[i][b]; p.dN.push_back(d); }
                pts[0] = {p};
            }
            K.push_back(respond(one, pts, {0, s.young, s.nu}, one.x, true).K); // tangent of the undeformed element
            kscale = std::max(kscale, K.back().cwiseAbs().maxCoeff());
            R0.push_back(s.corotated ? frame(m, e, m.x) : M3(M3::Identity()));
        }
        R = R0;
    }
    Eigen::MatrixXd rotated(size_t e) const { // Q Ke Q^t
        const M3 Q = R[e] * R0[e].transpose(); Eigen::MatrixXd B = Eigen::MatrixXd::Zero(3 * NN, 3 * NN); for (int i = 0; i < NN; ++i) B.block<3, 3>(3 * i, 3 * i) = Q;
        return B * K[e] * B.transpose();
    }
    Eigen::VectorXd force(const std::vector<V3> &x) {
        Eigen::VectorXd f = Eigen::VectorXd::Zero(3 * x.size());
        for (size_t e = 0; e < m.el.size(); ++e) {
            if (s.corotated) R[e] = frame(m, e, x);
            const M3 Q = R[e] * R0[e].transpose(); Eigen::VectorXd u(3 * NN);
            for (int i = 0; i < NN; ++i) u.segment<3>(3 * i) = Q.transpose() * x[m.el[e][i]] - m.x[m.el[e][i]];
            const Eigen::VectorXd g = K[e] * u;
            for (int i = 0; i < NN; ++i) f.segment<3>(3 * m.el[e][i]) -= Q * g.segment<3>(3 * i);
        }
        return f;
    }
    Eigen::MatrixXd tangent() const {
        Eigen::MatrixXd t = Eigen::MatrixXd::Zero(3 * m.x.size(), 3 * m.x.size());
        for (size_t e = 0; e < m.el.size(); ++e) { const auto k = rotated(e); for (int i = 0; i < NN; ++i) for (int j = 0; j < NN; ++j) t.block<3, 3>(3 * m.el[e][i], 3 * m.el[e][j]) += k.block<3, 3>(3 * i, 3 * j); }
        return t;
    }
};
static void check_tangent(Elastic &s, const Model &mo, const std::string &what) {
    const Eigen::MatrixXd K = mo.tangent(); const long n = K.rows(); const double tol = 1e-9 * mo.kscale * 4;
    Dense pm; pm.m.resize(n + 5, n + 5); for (long i = 0; i < n + 5; ++i) for (long j = 0; j < n + 5; ++j) pm.m(i, j) = 0.25 * double((i * 3 + j) % 7);
    Eigen::MatrixXd want = pm.m; want.block(3, 3, n, n) -= 2.5 * K;
    unsigned off = 3; s.base().addKToMatrix(&pm, 2.5, off); mc::step();
    mc::check(mc::maxdiff(pm.m, want) <= tol * 2.5, "addKToMatrix", who, what, " max error ", mc::maxdiff(pm.m, want), " of ", mo.kscale);
    mc::check(off == 3, "offset-unchanged", who);
    for (int k = 0; k < 3; ++k) {
        MechanicalParams mp; mp.setKFactor(k == 1 ? -0.75 : 1.5); mp.setBFactor(k == 2 ? 0.5 : 0);
        const double ray = k == 2 ? 3 : 0.2; s.ff->rayleighStiffness.setValue(ray);
        const double fac = (k == 1 ? -0.75 : 1.5) + (k == 2 ? 0.5 : 0) * ray;
        DT3::VecDeriv dx(n / 3), f(n / 3); for (long i = 0; i < n / 3; ++i) for (int d = 0; d < 3; ++d) { dx[i][d] = double((i * 5 + d * 3 + k) % 11) - 5; f[i][d] = i - d; }
        s.mo->dx_.setValue(dx); s.mo->f_.setValue(f);
        s.base().addDForce(&mp, sofa::core::VecDerivId::force()); mc::step();
        const Eigen::VectorXd got = flat(s.mo->f_.getValue()) - flat(f), w = -fac * (K * flat(dx));
        mc::check(mc::maxdiff(got, w) <= tol * 6 * double(n), "addDForce", who, what, " factor ", fac, " max error ", mc::maxdiff(got, w));
    }
    HEXA({
        const Eigen::MatrixXd full(s.ff->K());
        mc::check(full.rows() == n && full.cols() == n && mc::maxdiff(full, -K) <= tol, "K", who, what, " max error ", full.rows() == n ? mc::maxdiff(full, -K) : -1.);
    })
}
static std::vector<Mesh> rotated_meshes(bool more) {
    std::vector<Mesh> r;
    const M3 Q[] = {M3::Identity(), Eigen::AngleAxisd(0.8, V3(1, -1, 2).normalized()).toRotationMatrix(), Eigen::AngleAxisd(M_PI / 2, V3(0, 0, 1)).toRotationMatrix()};
    for (auto m : meshes<E>(more)) for (int q = 0; q < 3; ++q) { Mesh n = m; for (auto &p : n.x) p = Q[q] * p; n.name += mc::str(" rotation#", q); r.push_back(n); }
    return r;
}
static void states(bool more) {
    const Settings laws[] = {{1000, 0.3, true, 0}, {1000, 0.3, false, 0}, {20, 0, true, 0}, {3e5, 0.45, true, 1}, {1000, 0.25, false, 1}};
    for (const auto &m : rotated_meshes(more)) for (const auto &s : laws) {
        if ((!HEX && s.method) || !mine()) continue;
        Elastic el(m, s); Model mo(m, s);
        const std::string conf = mc::str(m.name, s.corotated ? " corotated" : " linear", s.method ? " one point" : "", " E ", s.young, " nu ", s.nu);
        mc::crumb(conf);
        check_tangent(el, mo, conf + " before any force");
        size_t n = 0;
        deformations(m, more, [&](const std::vector<V3> &x, const std::string &what, bool affine) {
            const Eigen::VectorXd want = mo.force(x), got = el.force(x, n % 2); double size = 1; for (auto &p : x) size = std::max(size, p.norm());
            const double tol = 1e-10 * mo.kscale * size * 3 * NN;
            mc::check(mc::maxdiff(got, want) <= tol, "force", who, conf, " ", what, " max error ", mc::maxdiff(got, want), " of ", mo.kscale);
            V3 sum = V3::Zero(); for (size_t i = 0; i < x.size(); ++i) sum += got.segment<3>(3 * i);
            mc::check(sum.norm() <= tol * 10, "balance", who, conf, " ", what);
            if (s.corotated && what == "affine#1") mc::check(got.cwiseAbs().maxCoeff() <= tol, "rigid-motion", who, conf, " force ", got.cwiseAbs().maxCoeff());
            if (s.corotated) { // objectivity: moving the deformed body rigidly turns the forces with it
                const M3 Q = Eigen::AngleAxisd(-0.7, V3(2, 1, 0.5).normalized()).toRotationMatrix(); std::vector<V3> y; for (auto &p : x) y.push_back(Q * p + V3(1, 2, -1));
                mo.force(y); const Eigen::VectorXd g = el.force(y, false); double d = 0; for (size_t i = 0; i < x.size(); ++i) d = std::max(d, (g.segment<3>(3 * i) - Q * got.segment<3>(3 * i)).norm());
                mc::check(d <= tol * 20, "objectivity", who, conf, " ", what, " difference ", d);
            }
            if (affine || n % 5 == 0) check_tangent(el, mo, mc::str(conf, " ", what));
            ++n; mc::state(); mc::trace();
        });
        // bounding box of the current positions, whatever their order
        for (int k = 0; k < 3; ++k) {
            std::vector<V3> x = m.x; if (k) std::sort(x.begin(), x.end(), [&](const V3 &a, const V3 &b) { return k == 1 ? a.sum() < b.sum() : a.sum() > b.sum(); });
            el.mo->x_.setValue(coords(x)); V3 lo = x[0], hi = x[0]; for (auto &p : x) { lo = lo.cwiseMin(p); hi = hi.cwiseMax(p); }
            el.ff->computeBBox(nullptr, true); const auto &b = el.ff->f_bbox.getValue();
            for (int d = 0; d < 3; ++d) mc::check(std::fabs(b.minBBox()[d] - lo[d]) < 1e-12 && std::fabs(b.maxBBox()[d] - hi[d]) < 1e-12, "bbox", who, conf, " order ", k, " axis ", d);
            mc::state();
        }
        mc::sample(m.name, mc::str(conf, ": ", m.el.size(), " elements, ", m.x.size(), " nodes, stiffness ", mo.kscale));
    }
    mc::bound(mc::str(who, " states"), "all meshes x initial orientations x settings x affine and single-node deformations");
}
// every history of calls up to a depth, on one component
static void histories(bool more) {
    std::vector<Mesh> ms; for (auto &m : rotated_meshes(false)) if (m.name.find("set#2") != std::string::npos || m.name.find("set#3") != std::string::npos) ms.push_back(m);
    const int depth = more ? 5 : 4, ops = 8;
    for (size_t mi = 0; mi < ms.size() && mi < (more ? 4u : 2u); ++mi) {
        const Mesh &m = ms[mi];
        std::vector<V3> xa = m.x, xb; { M3 a; a << 0, -1.2, 0, 0.9, 0.3, 0, 0.2, 0, 1.4; for (auto &p : m.x) xb.push_back(a * p + V3(1, 0, 2)); } xa[0] += V3(0.1, 0.05, -0.07);
        mc::product(std::vector<int>(depth, ops), [&](const std::vector<int> &h) {
            if (!mine()) return;
            Settings s; Elastic el(m, s); Model mo(m, s); std::string what = m.name + ":";
            for (int op : h) {
                const char *names[] = {" force(a)", " force(b)", " young+reinit", " corotated+reinit", " reinit", " K", " nu+reinit", " method+reinit"};
                what += names[op]; mc::crumb(what);
                auto f = [&](const std::vector<V3> &x) { const Eigen::VectorXd w = mo.force(x), g = el.force(x, true); mc::check(mc::maxdiff(g, w) <= 1e-9 * mo.kscale * 30, "history-force", who, what, " max error ", mc::maxdiff(g, w)); };
                if (op == 0) f(xa); else if (op == 1) f(xb);
                else if (op == 5) { HEXA(el.ff->K();) }
                else {
                    if (op == 2) s.young = s.young == 1000 ? 70 : 1000;
                    if (op == 3) s.corotated = !s.corotated;
                    if (op == 6) s.nu = s.nu == 0.3 ? 0.1 : 0.3;
                    if (op == 7) s.method = HEX ? 1 - s.method : 0;
                    el.set(s); el.ff->reinit(); mo.reinit(s);
                }
                mc::step();
            }
            check_tangent(el, mo, what);
            { const Eigen::VectorXd w = mo.force(xb), g = el.force(xb, false); mc::check(mc::maxdiff(g, w) <= 1e-9 * mo.kscale * 30, "history-force", who, what, " then force(b), max error ", mc::maxdiff(g, w)); }
            mc::state(); mc::trace();
        });
    }
    mc::bound(mc::str(who, " histories"), mc::str("all ", ops, "^", depth, " histories of forces, parameter changes with reinit, queries"));
}
static void failures() { // an initialisation that cannot succeed: an error is reported and nothing is added
    for (const auto &m0 : rotated_meshes(false)) for (int kind = 0; kind < 3; ++kind) {
        Mesh m = m0; if (kind == 0) m.el.back().back() = unsigned(m.x.size()); if (kind == 1) m.el[0][0] = unsigned(m.x.size()) + 7; if (kind == 2) m.el.clear();
        const unsigned before = sofa::helper::logging::Log::errors() + sofa::helper::logging::Log::warnings();
        mc::crumb(mc::str(m.name, " failure ", kind));
        Elastic el(m, Settings());
        mc::check(sofa::helper::logging::Log::errors() + sofa::helper::logging::Log::warnings() > before, "failure-reported", who, m.name, " kind ", kind);
        mc::check(el.force(m.x, true).cwiseAbs().maxCoeff() == 0, "failure-force", who, m.name);
        Dense pm; pm.m = Eigen::MatrixXd::Zero(3 * m.x.size(), 3 * m.x.size()); unsigned off = 0; el.base().addKToMatrix(&pm, 1, off);
        mc::check(pm.m.cwiseAbs().maxCoeff() == 0, "failure-matrix", who, m.name);
        MechanicalParams mp; mp.setKFactor(1); el.base().addDForce(&mp, sofa::core::VecDerivId::force());
        mc::state(); mc::trace(); mc::step(3);
    }
}
int main(int argc, char **argv) {
    return mc::run(argc, argv, [] {
        if (SHARD < 2) { states(mc::thorough()); failures(); } else histories(mc::thorough());
    });
}
