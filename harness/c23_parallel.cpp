// C23: the multithreaded assembly of the stiffness matrix: under every schedule of every number of threads the matrix is
// the sequential one, without data race or deadlock.
#include "hyper.h"
#include "omp_model.h"
#include <ctime>
static Eigen::VectorXd flat(const DT3::VecDeriv &v) { Eigen::VectorXd r(3 * v.size()); for (size_t i = 0; i < v.size(); ++i) for (int d = 0; d < 3; ++d) r[3 * i + d] = v[i][d]; return r; }
static unsigned long cap() { // the current code needs far fewer schedules; other synchronisation patterns may need more than time allows
    const double t = double(clock()) / CLOCKS_PER_SEC;
    return mc::thorough() ? (t < 900 ? 20000 : 200) : (t < 40 ? 1500 : 25);
}
template <class E> void explore() {
    const char *who = ref::Info<E>::name();
    const bool more = mc::thorough();
    const Law laws[] = {{0, 1000, 0.3}, {1, 300, 0.42}};
    const int part = getenv("MC_PART") ? atoi(getenv("MC_PART")) : 0, parts = getenv("MC_PARTS") ? atoi(getenv("MC_PARTS")) : 1;
    // bars of 1 to 5 (6) elements that share nodes with their neighbours
    int count = 0, capped = 0; unsigned long accesses = 0;
    const int maxE = ref::Info<E>::order == 2 ? 4 : more ? 6 : 5;
    for (int ne = 1; ne <= maxE; ++ne) for (int num = 0; num < 2; ++num) for (int threads = 1; threads <= (more ? 6 : 5); ++threads) for (int li = 0; li < 2; ++li) for (int on = 0; on < 2; ++on) {
        if (on == 0 && threads != 3) continue;
        if (li == 1 && num == 0) continue; // (law, numbering): (0,0) (0,1) (1,1)
        if (count++ % parts != part) continue;
        const Law &law = laws[li];
        std::vector<std::vector<V3>> els;
        const V3 x(1, 0, 0), y(0, 1, 0), z(0, 0, 1), o(0, 0, 0);
        for (int e = 0; e < ne; ++e) {
            if (ref::Info<E>::kind == ref::HEX) els.push_back(e % 2 ? affine_element<E>({V3(e + 1, 1, 0), -x, -y, z}) : affine_element<E>({V3(e, 0, 0), x, y, z}));
            else { // tetrahedra around a common edge
                const double a = 2 * M_PI * e / 6, b = 2 * M_PI * (e + 1) / 6;
                els.push_back(affine_element<E>({o, V3(std::cos(a), std::sin(a), 0), V3(std::cos(b), std::sin(b), 0), z}));
            }
        }
        const Mesh m = merge(mc::str(who, " ", ne, " elements"), els, num, num == 1);
        const auto pts = points<E>(m);
        Scene<E> s(m, law, 0);
        data<bool>(*s.ff, "enable_multithreading").setValue(on);
        std::vector<V3> xd; for (size_t i = 0; i < m.x.size(); ++i) { M3 a; a << 1.3, 0.2, -0.1, 0.05, 0.9, 0.3, 0.1, -0.2, 1.1; V3 p = a * m.x[i]; p[i % 3] += 0.03; xd.push_back(p); }
        const Response r = respond(m, pts, law, xd, true);
        s.mo->x_.setValue(coords(xd));
        const double tol = 4e-9 * r.kscale;
        sofa::core::MechanicalParams mp;
        auto &base = static_cast<sofa::core::behavior::BaseForceField &>(*s.ff);
        const std::string conf = mc::str(m.name, " law ", li, " threads ", threads, on ? "" : " (multithreading off)");
        Eigen::MatrixXd K; Eigen::VectorXd f, df; double W = 0;
        DT3::VecDeriv zero(m.x.size()), dx(m.x.size()); for (size_t i = 0; i < dx.size(); ++i) for (int d = 0; d < 3; ++d) dx[i][d] = double((i * 5 + d * 3) % 11) - 5;
        auto forces = [&] { s.mo->f_.setValue(zero); base.addForce(&mp, sofa::core::VecDerivId::force()); W = base.getPotentialEnergy(&mp); };
        auto tangent = [&] { s.ff->assemble_stiffness(); K = Eigen::MatrixXd(s.ff->K()); s.mo->dx_.setValue(dx); f = flat(s.mo->f_.getValue()); s.mo->f_.setValue(zero); base.addDForce(&mp, sofa::core::VecDerivId::force()); df = flat(s.mo->f_.getValue()); };
        forces(); tangent(); // one plain run first: function-local statics are initialised
        mc::crumb(conf);
        omp_model::Outcome a = omp_model::all_schedules(threads, cap(), forces, [&](const std::string &sch, int races, const char *rep, bool dead) {
            mc::crumb(mc::str(conf, " schedule ", sch));
            f = flat(s.mo->f_.getValue());
            mc::check(!races, "race-force", who, conf, " schedule ", sch, ": ", rep);
            mc::check(!dead, "deadlock-force", who, conf, " schedule ", sch);
            mc::check(mc::maxdiff(f, r.f) <= 1e-9 * r.fscale, "force", who, conf, " schedule ", sch, " max error ", mc::maxdiff(f, r.f));
            mc::check(std::fabs(W - r.energy) <= 1e-9 * (law.E * ne + std::fabs(r.energy)), "energy", who, conf, " schedule ", sch);
            mc::state(); mc::trace(); mc::step(sch.size() + 1);
        });
        omp_model::Outcome b = omp_model::all_schedules(threads, cap(), tangent, [&](const std::string &sch, int races, const char *rep, bool dead) {
            mc::crumb(mc::str(conf, " schedule ", sch));
            mc::check(!races, "race", who, conf, " schedule ", sch, ": ", rep);
            mc::check(!dead, "deadlock", who, conf, " schedule ", sch);
            const bool dims = K.rows() == r.K.rows() && K.cols() == r.K.cols();
            mc::check(dims && mc::maxdiff(K, r.K) <= tol, "matrix", who, conf, " schedule ", sch, " max error ", dims ? mc::maxdiff(K, r.K) : -1., " of ", r.kscale);
            mc::check(mc::maxdiff(df, -r.K * flat(dx)) <= tol * 6 * double(r.K.rows()), "dforce", who, conf, " schedule ", sch);
            mc::state(); mc::trace(); mc::step(sch.size() + 1);
        });
        accesses += a.accesses + b.accesses; capped += a.capped + b.capped;
        mc::sample(conf, mc::str(b.schedules, " schedules, ", b.accesses, " shared accesses checked, ", b.regions, " parallel region(s)"));
    }
    mc::bound(mc::str(who, " part ", part), mc::str("threads 1..", more ? 6 : 5, ", 1..", maxE, " elements; ", accesses, " shared accesses checked for races; ", capped, " configuration(s) stopped at the schedule cap"));
}
int main(int argc, char **argv) {
    return mc::run(argc, argv, [] {
#if SHARD == 0
        explore<ref::g::Tetrahedron<caribou::Linear>>();
#elif SHARD == 1
        explore<ref::g::Tetrahedron<caribou::Quadratic>>();
#elif SHARD == 2
        explore<ref::g::Hexahedron<caribou::Linear>>();
#else
        explore<ref::g::Hexahedron<caribou::Quadratic>>();
#endif
    });
}
