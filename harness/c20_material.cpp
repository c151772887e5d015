// C20: hyperelastic materials: energy, stress and tangent are the documented laws and are consistent with one another, for every
// deformation of a lattice, every parameter set and every history of parameter changes.
#include "minisofa.h"
#include "mc.h"
#include <Eigen/Dense>
#include <SofaCaribou/Material/SaintVenantKirchhoffMaterial.h>
#include <SofaCaribou/Material/NeoHookeanMaterial.h>
#include <memory>
using DT = sofa::defaulttype::Vec3Types;
using Mat = SofaCaribou::material::HyperelasticMaterial<DT>;
using M3 = Eigen::Matrix3d;
using M6 = Eigen::Matrix<double, 6, 6>;
using LD = long double;
using L3 = Eigen::Matrix<LD, 3, 3>;
static const int P[6][2] = {{0, 0}, {1, 1}, {2, 2}, {0, 1}, {1, 2}, {0, 2}};
static std::unique_ptr<Mat> make(int kind) {
    if (kind == 0) return std::unique_ptr<Mat>(new SofaCaribou::material::SaintVenantKirchhoffMaterial<DT>());
    return std::unique_ptr<Mat>(new SofaCaribou::material::NeoHookeanMaterial<DT>());
}
static const char *nm[] = {"SaintVenantKirchhoff", "NeoHookean"};
static void set(Mat &m, double E, double nu) {
    dynamic_cast<sofa::core::objectmodel::Data<double> &>(*m.findData("young_modulus")).setValue(E);
    dynamic_cast<sofa::core::objectmodel::Data<double> &>(*m.findData("poisson_ratio")).setValue(nu);
}
struct Lame { LD mu, l; };
static Lame lame(double E, double nu) { return {LD(E) / (2 * (1 + LD(nu))), LD(E) * nu / ((1 + LD(nu)) * (1 - 2 * LD(nu)))}; }
static LD energy(int kind, const Lame &p, LD J, const L3 &C) {
    if (kind == 0) { L3 E = (C - L3::Identity()) / 2; LD t = E.trace(); return p.l / 2 * t * t + p.mu * (E * E).trace(); }
    LD k = std::log(J); return p.mu / 2 * (C.trace() - 3) - p.mu * k + p.l / 2 * k * k;
}
static L3 stress(int kind, const Lame &p, LD J, const L3 &C) {
    if (kind == 0) { L3 E = (C - L3::Identity()) / 2; return p.l * E.trace() * L3::Identity() + 2 * p.mu * E; }
    L3 Ci = C.inverse(); return p.mu * (L3::Identity() - Ci) + p.l * std::log(J) * Ci;
}
static LD tangent(int kind, const Lame &p, LD J, const L3 &Ci, int a, int b) {
    auto d = [](int i, int j) -> LD { return i == j; };
    int i = P[a][0], j = P[a][1], k = P[b][0], l = P[b][1];
    if (kind == 0) return p.l * d(i, j) * d(k, l) + p.mu * (d(i, k) * d(j, l) + d(i, l) * d(j, k));
    return p.l * Ci(i, j) * Ci(k, l) + (p.mu - p.l * std::log(J)) * (Ci(i, k) * Ci(j, l) + Ci(i, l) * Ci(j, k));
}
static void point(Mat &m, int kind, double E, double nu, const M3 &F, bool fd, const std::string &where) {
    const M3 C = F.transpose() * F;
    const double J = F.determinant();
    const L3 Cl = C.cast<LD>(), Ci = Cl.inverse();
    const Lame p = lame(E, nu);
    const std::string who = mc::str(nm[kind], where);
    auto ctxs = [&] { return mc::str("E=", E, " nu=", nu, " F=", mc::show(F)); };
    const M3 C0 = C; const double J0 = J;
    const double W = m.strain_energy_density(J, C);
    const M3 S = m.PK2_stress(J, C);
    const M6 D = m.PK2_stress_jacobian(J, C);
    mc::step(3);
    const LD sc = std::fabs((double)p.mu) + std::fabs((double)p.l), ci = std::max<LD>(1, Ci.cwiseAbs().maxCoeff()), c = std::max<LD>(1, Cl.cwiseAbs().maxCoeff());
    const LD tw = 1e-10L * sc * c * c, ts = 1e-10L * sc * c * ci * ci, td = 1e-10L * sc * ci * ci * ci;
    mc::check(C == C0 && J == J0, "input-unchanged", who);
    LD w = energy(kind, p, J, Cl);
    mc::check(std::fabs((double)(W - w)) <= tw, "energy", who, ctxs(), " energy density ", W, " expected ", (double)w);
    L3 s = stress(kind, p, J, Cl);
    mc::check(mc::maxdiff(S, s) <= ts, "stress", who, ctxs(), " stress ", mc::show(S), " expected ", mc::show(s.cast<double>()));
    double worst = 0; int wa = 0, wb = 0;
    for (int a = 0; a < 6; ++a) for (int b = 0; b < 6; ++b) { double e = std::fabs((double)(D(a, b) - tangent(kind, p, J, Ci, a, b))); if (!(e <= worst)) { worst = e == e ? e : INFINITY; wa = a; wb = b; } }
    mc::check(worst <= td, "tangent", who, ctxs(), " entry ", wa, ",", wb, " is ", D(wa, wb), " expected ", (double)tangent(kind, p, J, Ci, wa, wb));
    mc::check(mc::maxdiff(S, M3(S.transpose())) <= ts, "stress-symmetric", who, ctxs());
    mc::check(mc::maxdiff(D, M6(D.transpose())) <= td, "tangent-symmetric", who, ctxs());
    // the code's own energy, stress and tangent are derivatives of one another
    if (fd) {
        const double h = 1e-4;
        const double tf = 1e-5 * double(sc * ci * ci * ci * ci * c);
        for (int b = 0; b < 6; ++b) {
            auto at = [&](double t, M3 &c2) { c2 = C; c2(P[b][0], P[b][1]) += t; if (P[b][0] != P[b][1]) c2(P[b][1], P[b][0]) += t; return std::sqrt(c2.determinant()); };
            M3 cp, cm; double jp = at(h, cp), jm = at(-h, cm);
            double dW = (m.strain_energy_density(jp, cp) - m.strain_energy_density(jm, cm)) / (2 * h);
            double want = (b < 3 ? 0.5 : 1.0) * S(P[b][0], P[b][1]);
            mc::check(std::fabs(dW - want) <= tf, "stress-is-energy-derivative", who, ctxs(), " direction ", b, " ", dW, " vs ", want);
            M3 dS = (m.PK2_stress(jp, cp) - m.PK2_stress(jm, cm)) / (2 * h);
            for (int a = 0; a < 6; ++a) {
                double want2 = (b < 3 ? 0.5 : 1.0) * D(a, b); // dC = 2 dE; engineering shear
                if (!(std::fabs(dS(P[a][0], P[a][1]) - want2) <= tf)) mc::check(false, "tangent-is-stress-derivative", who, ctxs(), " entry ", a, ",", b, " ", dS(P[a][0], P[a][1]), " vs ", want2);
            }
            mc::check(true, "tangent-is-stress-derivative", who);
            mc::step(4);
        }
    }
    mc::state();
}
int main(int argc, char **argv) {
    return mc::run(argc, argv, [] {
        std::vector<std::array<double, 2>> params = {{1000, 0.3}, {3, 0}, {500, 0.45}, {250, -0.25}, {1e6, 0.499}};
        const double dg[] = {1, 0.6, 1.5, -0.8}, od[] = {0, -0.3, 0.4};
        const int nd = mc::thorough() ? 4 : 3;
        const int part = getenv("MC_PART") ? atoi(getenv("MC_PART")) : 0, parts = getenv("MC_PARTS") ? atoi(getenv("MC_PARTS")) : 1;
        for (int kind = 0; kind < 2; ++kind) for (size_t pi = 0; pi < params.size(); ++pi) {
            auto m = make(kind);
            const double E = params[pi][0], nu = params[pi][1];
            set(*m, E, nu); m->before_update();
            mc::crumb(mc::str(nm[kind], " E=", E, " nu=", nu));
            mc::trace();
            long n = 0;
            mc::product({nd, nd, nd, 3, 3, 3, 3, 3, 3}, [&](const std::vector<int> &d) {
                if (n++ % parts != part) return;
                M3 F; F << dg[d[0]], od[d[3]], od[d[4]], od[d[5]], dg[d[1]], od[d[6]], od[d[7]], od[d[8]], dg[d[2]];
                if (F.determinant() < 0.1) return;
                point(*m, kind, E, nu, F, pi < 2 || mc::thorough(), "");
            });
            // rest: nothing stored, no stress; rigid rotations: the same
            for (int k = 0; k < 8; ++k) {
                M3 R = (Eigen::AngleAxisd(0.4 * k, Eigen::Vector3d::UnitX()) * Eigen::AngleAxisd(0.3 * k, Eigen::Vector3d(1, 2, 3).normalized())).toRotationMatrix();
                M3 C = R.transpose() * R;
                mc::check(std::fabs(m->strain_energy_density(R.determinant(), C)) <= 1e-10 * E, "rest-energy", nm[kind]);
                mc::check(m->PK2_stress(R.determinant(), C).cwiseAbs().maxCoeff() <= 1e-10 * E * (1 + 1 / (1 - 2 * nu)), "rest-stress", nm[kind]);
                mc::step(2); mc::state();
            }
        }
        // histories: parameters are changed on two interleaved materials; what counts is what was set at its last before_update
        M3 F; F << 1.3, 0.2, -0.1, 0.05, 0.9, 0.3, 0.1, -0.2, 1.1;
        const int depth = mc::thorough() ? 5 : 4, np = 3;
        for (int k1 = 0; k1 < 2; ++k1) for (int k2 = 0; k2 < 2; ++k2)
        for (int d = 1; d <= depth; ++d) mc::product(std::vector<int>(d, 2 * (np + 1)), [&](const std::vector<int> &h) {
            std::unique_ptr<Mat> m[2] = {make(k1), make(k2)};
            const int kind[2] = {k1, k2};
            int data[2] = {0, 0}, eff[2] = {-1, -1};
            set(*m[0], params[0][0], params[0][1]); set(*m[1], params[0][0], params[0][1]);
            std::string hs;
            for (int o : h) {
                int w = o % 2, a = o / 2;
                if (a == np) { m[w]->before_update(); eff[w] = data[w]; hs += mc::str(" m", w, ".before_update"); }
                else { set(*m[w], params[a][0], params[a][1]); data[w] = a; hs += mc::str(" m", w, ".set(", a, ")"); }
            }
            mc::crumb(hs);
            for (int w = 0; w < 2; ++w) if (eff[w] >= 0 && eff[w] == data[w]) point(*m[w], kind[w], params[eff[w]][0], params[eff[w]][1], F, false, " after" + hs.substr(0, 0) + " parameter changes");
            mc::trace(); mc::step(h.size());
        });
        mc::bound("deformations", mc::str("all F with ", nd, " values per diagonal and 3 per off-diagonal entry and det F >= 0.1"));
        mc::bound("parameter histories", mc::str("all sequences up to length ", depth, " of 3 parameter sets and before_update on two materials"));
    });
}
