// C22: the hyperelastic force field: forces, energy and tangent of every enumerated mesh and deformation, and their coherence
// over every history of calls.
#include "hyper.h"
template <class S> sofa::core::behavior::BaseForceField &base(S &s) { return *s.ff; }
struct PlainMatrix : sofa::defaulttype::BaseMatrix { // dense target of addKToMatrix
    Eigen::MatrixXd m;
    Index rowSize() const override { return Index(m.rows()); }
    Index colSize() const override { return Index(m.cols()); }
    SReal element(Index i, Index j) const override { return m(i, j); }
    void resize(Index a, Index b) override { m = Eigen::MatrixXd::Zero(a, b); }
    void clear() override { m.setZero(); }
    void set(Index i, Index j, double v) override { m(i, j) = v; }
    void add(Index i, Index j, double v) override { m(i, j) += v; }
    using sofa::defaulttype::BaseMatrix::add; using sofa::defaulttype::BaseMatrix::clear;
};
static Eigen::VectorXd flat(const DT3::VecDeriv &v) { Eigen::VectorXd r(3 * v.size()); for (size_t i = 0; i < v.size(); ++i) for (int d = 0; d < 3; ++d) r[3 * i + d] = v[i][d]; return r; }
template <class E> Eigen::VectorXd force(Scene<E> &s, sofa::core::ConstVecCoordId id, bool preload) {
    auto f = s.mo->f_.getValue(); for (size_t i = 0; i < f.size(); ++i) for (int d = 0; d < 3; ++d) f[i][d] = preload ? double(i) - 2 * d : 0.;
    s.mo->f_.setValue(f);
    MechanicalParams mp; mp.setX(id);
    base(s).addForce(&mp, sofa::core::VecDerivId::force()); mc::step();
    return flat(s.mo->f_.getValue()) - flat(f);
}
static double tolF(const Response &r) { return 1e-9 * (r.fscale); }
template <class E> void check_tangent(const char *who, Scene<E> &s, const Response &r, const std::string &what, int mode) {
    const long n = r.K.rows();
    const double tol = 1e-9 * r.kscale * 4;
    if (mode & 1) { // addKToMatrix with an offset and a factor, on top of existing content
        PlainMatrix pm; pm.m.resize(n + 5, n + 5);
        for (long i = 0; i < n + 5; ++i) for (long j = 0; j < n + 5; ++j) pm.m(i, j) = 0.25 * double((i * 3 + j) % 7);
        Eigen::MatrixXd want = pm.m; want.block(3, 3, n, n) -= 2.5 * r.K;
        unsigned off = 3; base(s).addKToMatrix(&pm, 2.5, off); mc::step();
        mc::check(mc::maxdiff(pm.m, want) <= tol * 2.5, "addKToMatrix", who, what, " max error ", mc::maxdiff(pm.m, want), " of ", r.kscale);
        mc::check(off == 3, "offset-unchanged", who);
    }
    if (mode & 2) { // addDForce
        for (int k = 0; k < 3; ++k) {
            MechanicalParams mp; mp.setKFactor(k == 1 ? -0.75 : 1.5); mp.setBFactor(k == 2 ? 0.5 : 0);
            const double ray = k == 2 ? 3 : 0.2; s.ff->rayleighStiffness.setValue(ray);
            const double fac = (k == 1 ? -0.75 : 1.5) + (k == 2 ? 0.5 : 0) * ray;
            auto dx = s.mo->dx_.getValue(); for (size_t i = 0; i < dx.size(); ++i) for (int d = 0; d < 3; ++d) dx[i][d] = k == 0 ? double((i * 5 + d * 3) % 11) - 5 : k == 1 ? 1 : ((i + d) % 2 ? 2 : -0.5);
            s.mo->dx_.setValue(dx);
            auto f = s.mo->f_.getValue(); for (size_t i = 0; i < f.size(); ++i) for (int d = 0; d < 3; ++d) f[i][d] = double(i) + d;
            s.mo->f_.setValue(f);
            const Eigen::VectorXd want = flat(f) - fac * r.K * flat(dx);
            base(s).addDForce(&mp, sofa::core::VecDerivId::force()); mc::step();
            const Eigen::VectorXd got = flat(s.mo->f_.getValue());
            mc::check(mc::maxdiff(got, want) <= tol * double(n) * 6, "addDForce", who, what, " dx#", k, " max error ", mc::maxdiff(got, want), " of ", (fac * r.K * flat(dx)).cwiseAbs().maxCoeff());
        }
    }
    if (mode & 4) {
        if (mode & 8) { s.ff->assemble_stiffness(); mc::step(); }
        const Eigen::MatrixXd K = Eigen::MatrixXd(s.ff->K()); mc::step();
        bool dims = K.rows() == n && K.cols() == n;
        mc::check(dims && mc::maxdiff(K, r.K) <= tol, "K", who, what, " max error ", dims ? mc::maxdiff(K, r.K) : -1., " of ", r.kscale);
    }
}
template <class E> void explore() {
    const char *who = ref::Info<E>::name();
    const Law laws[] = {{0, 1000, 0.3}, {1, 300, 0.42}};
    const bool more = mc::thorough();
    const auto ms = meshes<E>(more);
    long count = 0;
    const int part = getenv("MC_PART") ? atoi(getenv("MC_PART")) : 0, parts = getenv("MC_PARTS") ? atoi(getenv("MC_PARTS")) : 1;
    for (size_t mi = 0; mi < ms.size(); ++mi) for (auto &law : laws) {
        const Mesh &m = ms[mi];
        const auto pts = points<E>(m);
        for (int how = 0; how < 3; ++how) {
            if (how == 2 && ref::Info<E>::order != 1) continue;
            if (how && mi > 2 && !more) continue;
            if (count++ % parts != part) continue;
            mc::crumb(mc::str(who, " ", m.name, " law ", law.kind, " topology ", how));
            Scene<E> s(m, law, how);
            mc::trace();
            mc::check(s.ff->number_of_elements() == m.el.size(), "elements", who, m.name, " topology ", how, ": ", s.ff->number_of_elements(), " elements");
            if (s.ff->number_of_elements() != m.el.size()) continue;
            int nd = 0;
            deformations(m, more && how == 0, [&](const std::vector<V3> &x, const std::string &dn, bool affine) {
                if (how && nd > 8) return;
                ++nd;
                const std::string what = mc::str(m.name, " law ", law.kind, " topology ", how, " ", dn);
                mc::crumb(what);
                const bool wantK = affine || nd % 3 == 0 || ref::Info<E>::order == 1;
                const Response r = respond(m, pts, law, x, wantK);
                if (r.minJ < 0.1) return;
                s.mo->x_.setValue(coords(x));
                const auto f = force(s, sofa::core::ConstVecCoordId::position(), nd % 2);
                mc::check(mc::maxdiff(f, r.f) <= tolF(r), "force", who, what, " max error ", mc::maxdiff(f, r.f), " scale ", r.fscale);
                MechanicalParams mp;
                const double W = base(s).getPotentialEnergy(&mp); mc::step();
                mc::check(std::fabs(W - r.energy) <= 1e-10 * (law.E * double(m.el.size()) + std::fabs(r.energy)), "energy", who, what, " ", W, " expected ", r.energy);
                if (wantK) check_tangent<E>(who, s, r, what, nd % 4 == 1 ? 7 : nd % 4 == 2 ? 12 : nd % 4 == 3 ? 3 : 15);
                if (affine) { // balance of the code's own forces
                    V3 sum = V3::Zero(), tor = V3::Zero();
                    for (size_t i = 0; i < x.size(); ++i) { V3 fi(f[3 * i], f[3 * i + 1], f[3 * i + 2]); sum += fi; tor += x[i].cross(fi); }
                    mc::check(sum.norm() <= 1e-8 * r.fscale * 10 && tor.norm() <= 1e-8 * r.fscale * 100, "balance", who, what);
                }
                mc::state();
            });
            if (how == 0 && mi < 3) { // eigenvalues of the assembled matrix
                s.ff->assemble_stiffness();
                const Eigen::MatrixXd K = Eigen::MatrixXd(s.ff->K());
                Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(K, Eigen::EigenvaluesOnly);
                Eigen::VectorXd ev = s.ff->eigenvalues(); std::sort(ev.data(), ev.data() + ev.size());
                mc::check(ev.size() == K.rows() && (ev - es.eigenvalues()).cwiseAbs().maxCoeff() <= 1e-8 * es.eigenvalues().cwiseAbs().maxCoeff(), "eigenvalues", who, m.name);
            }
        }
    }
    // histories: the tangent always belongs to the positions and parameters of the latest force computation
    if (part == parts - 1 || parts == 1 || part == 0) {
        const Mesh &m = ms[0];
        const auto pts = points<E>(m);
        std::vector<std::vector<V3>> xs;
        { int k = 0; deformations(m, false, [&](const std::vector<V3> &x, const std::string &, bool) { if (k == 2 || k == 3 || k == 9) xs.push_back(x); ++k; }); }
        Law params[2] = {laws[part == 0], {laws[part == 0].kind, 50, 0.1}};
        std::vector<std::vector<Response>> R(xs.size());
        for (size_t k = 0; k < xs.size(); ++k) for (int p = 0; p < 2; ++p) R[k].push_back(respond(m, pts, params[p], xs[k], true));
        const int depth = (ref::Info<E>::order == 1 ? 4 : 3) + (more ? 1 : 0);
        // 0-2 force at positions#k, 3-5 force at free positions#k, 6 other material parameters + force, 7 addDForce, 8 addKToMatrix, 9 assemble, 10 energy
        for (int d = 1; d <= depth; ++d) mc::product(std::vector<int>(d, 11), [&](const std::vector<int> &h) {
            bool seen = false; for (int o : h) if (o < 6) { seen = true; break; } else break;
            if (!seen) return; // start with a force computation
            if (h.back() < 6) return; // ends with a question (or parameter change)
            static std::unique_ptr<Scene<E>> s;
            if (!s) s.reset(new Scene<E>(m, params[0], 0));
            Scene<E> &sc = *s; // histories are chained: each one continues from where the previous one stopped
            int par = data<double>(*sc.mat, "young_modulus").getValue() == params[0].E ? 0 : 1, k = -1; auto id = sofa::core::ConstVecCoordId::position();
            std::string hs; for (int o : h) hs += mc::str(o, " ");
            mc::crumb(mc::str(who, " history ", hs));
            for (int o : h) {
                if (o < 3) { k = o; id = sofa::core::ConstVecCoordId::position(); sc.mo->x_.setValue(coords(xs[k])); }
                else if (o < 6) { k = o - 3; id = sofa::core::ConstVecCoordId::freePosition(); sc.mo->xfree_.setValue(coords(xs[k])); }
                else if (o == 6) { par ^= 1; data<double>(*sc.mat, "young_modulus").setValue(params[par].E); data<double>(*sc.mat, "poisson_ratio").setValue(params[par].nu); }
                const Response &r = R[k][par];
                if (o < 7) { auto f = force(sc, id, true); mc::check(mc::maxdiff(f, r.f) <= tolF(r), "history-force", who, "history ", hs); }
                if (o == 7) check_tangent<E>(who, sc, r, "history " + hs, 2);
                if (o == 8) check_tangent<E>(who, sc, r, "history " + hs, 1);
                if (o == 9) check_tangent<E>(who, sc, r, "history " + hs, 12);
                if (o == 10) { MechanicalParams mp; mp.setX(id); double W = base(sc).getPotentialEnergy(&mp); mc::check(std::fabs(W - r.energy) <= 1e-9 * (params[par].E + std::fabs(r.energy)), "history-energy", who, "history ", hs); }
            }
            check_tangent<E>(who, sc, R[k][par], "history " + hs + "(end)", h.size() % 2 ? 2 : 1);
            mc::state(); mc::trace();
        });
        mc::bound(mc::str(who, " histories"), mc::str("all call sequences up to length ", depth, " over 11 operations, chained on one object"));
    }
    mc::bound(mc::str(who, " meshes"), mc::str(ms.size(), " (1, 2", more ? " or 4" : "", " elements; rotated local and permuted global numberings, unused node, distorted)"));
    // bounding box
    if (part == 0) {
        Mesh m = ms[0]; Scene<E> s(m, laws[0], 0);
        for (int perm = 0; perm < 8; ++perm) for (int rev = 0; rev < 2; ++rev) for (int cnt = 1; cnt <= 4; ++cnt) {
            DT3::VecCoord x(cnt); V3 lo = V3::Constant(1e300), hi = V3::Constant(-1e300);
            for (int i = 0; i < cnt; ++i) for (int d = 0; d < 3; ++d) { int q = rev ? cnt - 1 - i : i; x[i][d] = ((perm >> d) & 1 ? -1. : 1.) * (q * 0.7 + d) - 1; lo[d] = std::min(lo[d], x[i][d]); hi[d] = std::max(hi[d], x[i][d]); }
            s.mo->x_.setValue(x);
            s.ff->computeBBox(nullptr, true); mc::step(); mc::state();
            auto &b = s.ff->f_bbox.getValue();
            bool ok = true; for (int d = 0; d < 3; ++d) ok = ok && b.minBBox()[d] == lo[d] && b.maxBBox()[d] == hi[d];
            mc::check(ok, "bbox", who, "positions pattern ", perm, " reversed ", rev, " nodes ", cnt, ": box [", b.minBBox()[0], " ", b.minBBox()[1], " ", b.minBBox()[2], "] - [", b.maxBBox()[0], " ", b.maxBBox()[1], " ", b.maxBBox()[2], "]");
        }
    }
}
int main(int argc, char **argv) {
    return mc::run(argc, argv, [] {
#if SHARD == 0
        explore<ref::g::Tetrahedron<caribou::Linear>>();
#elif SHARD == 1
        explore<ref::g::Tetrahedron<caribou::Quadratic>>();
#elif SHARD == 2
        explore<ref::g::Hexahedron<caribou::Linear>>();
#else
        explore<ref::g::Hexahedron<caribou::Quadratic>>();
#endif
    });
}
