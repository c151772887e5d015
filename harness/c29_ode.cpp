// C29: the implicit integrators. Every configuration of a set of small mechanical systems, options and histories of steps is run and
// compared, Newton iterate by Newton iterate, with a dense reference of the documented scheme.
// SHARD 0: BackwardEuler, 1: Static and LegacyStatic, 2: a few of all, sanitised.
#include "sim.h"
#include <SofaCaribou/Solver/LinearSolver.h>
#include <SofaCaribou/Ode/NewtonRaphsonSolver.h>
#include <SofaCaribou/Ode/LegacyStaticODESolver.h>
using namespace sim;
namespace {
enum Ode { EULER, STATIC, LEGACY };
const char *ODE[] = {"BackwardEulerODESolver", "StaticODESolver", "LegacyStaticODESolver"};
SPtr_<sofa::core::objectmodel::BaseObject> make(const std::string &name) {
    for (auto &c : minisofa::factory()) if (c.type.find(mc::str(name.size(), name)) != std::string::npos) return SPtr_<sofa::core::objectmodel::BaseObject>(dynamic_cast<sofa::core::objectmodel::BaseObject *>(c.make()));
    fprintf(stderr, "%s is not registered\n", name.c_str()); _exit(3);
}
template <class T> Data<T> &data(sofa::core::objectmodel::BaseObject &o, const char *n) { auto *p = dynamic_cast<Data<T> *>(o.findData(n)); if (!p) { fprintf(stderr, "no data %s\n", n); _exit(3); } return *p; }
void pick(sofa::core::objectmodel::BaseObject &o, const char *n, const std::string &v) { auto &d = data<sofa::helper::OptionsGroup>(o, n); auto g = d.getValue(); g.setSelectedItem(v); d.setValue(g); }
std::string show(const Vec &v) { std::string r = "("; for (int i = 0; i < v.size(); ++i) r += mc::str(i ? " " : "", v[i]); return r + ")"; }

struct Sys { Body a, b; bool two = false; // b: three dofs, never mapped
    int n() const { return a.n + (two ? b.n : 0); }
    Vec join(const Vec &p, const Vec &q) const { Vec r(n()); r.head(a.n) = p; if (two) r.tail(b.n) = q; return r; }
    Vec f(const Vec &x) const { const Vec z = Vec::Zero(n()); return join(forces(a, x.head(a.n), z.head(a.n)), two ? forces(b, x.tail(b.n), z.tail(b.n)) : z); }
    template <class F> Mat blocks(F g) const { Mat m = Mat::Zero(n(), n()); m.topLeftCorner(a.n, a.n) = g(a, 0); if (two) m.bottomRightCorner(b.n, b.n) = g(b, a.n); return m; }
    Mat M() const { return blocks([](const Body &p, int) { return p.mass; }); }
    Mat K(const Vec &x) const { return blocks([&](const Body &p, int o) { Body q = p; q.rayleighK = 0; return Mat(sim::system(q, x.segment(o, p.n), 0, 0, -1, false)); }); }
    Mat C() const { return blocks([](const Body &p, int) { Mat m = Mat::Zero(p.n, p.n); damping(p.terms, -1, m); if (p.J.rows()) { Mat c = Mat::Zero(p.J.rows(), p.J.rows()); damping(p.child, -1, c); m += p.J.transpose() * c * p.J; } return m; }); }
    std::vector<bool> fixed() const { std::vector<bool> r(n()); for (int i : a.fixed) r[i] = true; if (two) for (int i : b.fixed) r[a.n + i] = true; return r; }
    void constrain(Mat &A, Vec &r) const { auto fx = fixed(); for (int i = 0; i < n(); ++i) if (fx[i]) { A.row(i).setZero(); A.col(i).setZero(); A(i, i) = 1; r[i] = 0; } }
    Vec project(Vec r) const { auto fx = fixed(); for (int i = 0; i < n(); ++i) if (fx[i]) r[i] = 0; return r; }
};
struct Options { Ode ode; double h = 0, rm = 0, rk = 0; unsigned its = 1; double corr = -1, rel = -1, abs = -1; const char *linear = "LDLTSolver"; const char *pattern = "BEGINNING_OF_THE_TIME_STEP"; bool warm = false; };
std::string show(const Options &o) { return mc::str(ODE[o.ode], " h=", o.h, " rm=", o.rm, " rk=", o.rk, " iterations=", o.its, " tolerances ", o.corr, " ", o.rel, " ", o.abs, " ", o.linear, " ", o.pattern); }
// residual of the documented equation at the accelerations (Euler) or positions (static)
Vec residual(const Sys &s, const Options &o, const Vec &x0, const Vec &v0, const Vec &u, Mat *A) {
    if (o.ode != EULER) { Vec r = s.f(x0 + u); if (A) *A = s.K(x0 + u); Mat t = Mat::Identity(s.n(), s.n()); s.constrain(A ? *A : t, r); return r; }
    const Vec v = v0 + o.h * u, x = x0 + o.h * v; const Mat M = s.M(), K = s.K(x), C = s.C();
    Vec r = s.f(x) - (o.rm * M + C + o.rk * K) * v - M * u; Mat J = (1 + o.h * o.rm) * M + o.h * C + o.h * (o.h + o.rk) * K;
    s.constrain(J, r); if (A) *A = J; return r;
}
struct Step { Vec x, v, u; std::vector<double> res; double initial = 0; double dx = 0, U = 0; };
Step reference(const Sys &s, const Options &o, const Vec &x0, const Vec &v0, unsigned its) {
    Step r; r.u = Vec::Zero(s.n()); Mat A; Vec f = residual(s, o, x0, v0, r.u, &A); r.initial = f.norm();
    for (unsigned i = 0; i < its; ++i) { const Vec d = A.fullPivLu().solve(f); r.u += d; f = residual(s, o, x0, v0, r.u, &A); r.res.push_back(f.norm()); r.dx = d.norm(); r.U = r.u.norm(); }
    r.v = o.ode == EULER ? Vec(v0 + o.h * r.u) : v0; r.x = o.ode == EULER ? Vec(x0 + o.h * r.v) : Vec(x0 + r.u);
    return r;
}
struct World {
    SPtr_<Node> root{new Node()}; BodyNode<DT1> a{true}; BodyNode<DT3> b{false}; SPtr_<sofa::core::objectmodel::BaseObject> ode, lin; bool two;
    World(const Options &o, bool two) : ode(make(ODE[o.ode])), lin(make(std::string(o.linear).substr(0, std::string(o.linear).find('/')))), two(two) {
        root->addObject(ode); root->addObject(lin); root->addChild(a.node); if (two) root->addChild(b.node);
        for (auto *f : {&a.ff, &a.cff}) (*f)->apart = true; b.ff->apart = true;
        options(o); ode->init();
    }
    void options(const Options &o) {
        data<unsigned>(*ode, "newton_iterations").setValue(o.its); data<double>(*ode, "correction_tolerance_threshold").setValue(o.corr); data<double>(*ode, "residual_tolerance_threshold").setValue(o.rel);
        if (o.ode != LEGACY) { data<double>(*ode, "absolute_residual_tolerance_threshold").setValue(o.abs); pick(*ode, "pattern_analysis_strategy", o.pattern); } else data<bool>(*ode, "warm_start").setValue(o.warm);
        if (o.ode == EULER) { data<double>(*ode, "rayleigh_mass").setValue(o.rm); data<double>(*ode, "rayleigh_stiffness").setValue(o.rk); }
        if (std::string(o.linear).find('/') != std::string::npos) { pick(*lin, "preconditioning_method", std::string(o.linear).substr(std::string(o.linear).find('/') + 1)); data<unsigned>(*lin, "maximum_number_of_iterations").setValue(100); data<double>(*lin, "residual_tolerance_threshold").setValue(1e-13); }
    }
    void set(const Sys &s, bool keep) { a.set(s.a, keep); if (two) b.set(s.b, keep); }
    Vec x() const { Vec p = flat(a.mo->x_.getValue()); if (!two) return p; Vec q = flat(b.mo->x_.getValue()), r(p.size() + q.size()); r << p, q; return r; }
    Vec v() const { Vec p = flat(a.mo->v_.getValue()); if (!two) return p; Vec q = flat(b.mo->v_.getValue()), r(p.size() + q.size()); r << p, q; return r; }
    void go(double h) {
        sofa::core::ExecParams p; auto *o = dynamic_cast<sofa::core::behavior::OdeSolver *>(ode.get());
        o->solve(&p, h, sofa::core::VecCoordId::position(), sofa::core::VecDerivId::velocity()); mc::step();
    }
    bool converged() const { return data<bool>(*ode, "converged").getValue(); }
    std::vector<double> residuals() const { std::vector<double> r; if (auto *n = dynamic_cast<SofaCaribou::ode::NewtonRaphsonSolver *>(ode.get())) { for (double v : n->squared_residuals()) r.push_back(v); } else for (double v : dynamic_cast<SofaCaribou::ode::LegacyStaticODESolver *>(ode.get())->squared_residuals()) r.push_back(v); return r; }
    double initial() const { if (auto *n = dynamic_cast<SofaCaribou::ode::NewtonRaphsonSolver *>(ode.get())) return n->squared_initial_residual(); return dynamic_cast<SofaCaribou::ode::LegacyStaticODESolver *>(ode.get())->squared_initial_residual(); }
};
Sys sys(int n, int pattern, double c, bool child, int fixed, bool two, int load, double damp, bool moving) {
    Sys s; s.two = two;
    auto fill = [&](Body &b, int n, bool child) {
        b.n = n; b.mass = Mat::Zero(n, n); for (int i = 0; i < n; ++i) b.mass(i, i) = 1 + 0.5 * i;
        if (pattern & 4) for (int i = 0; i + 1 < n; ++i) b.mass(i, i + 1) = b.mass(i + 1, i) = 0.25;
        auto spring = [&](int i, int j, double a, double c, double l) { Term t; t.i = i; t.j = j; t.a = a; t.c = c; t.l = l; b.terms.push_back(t); };
        for (int i = 0; i < n; ++i) { spring(i, -1, 2 + i, c, 0.25 * i); Term t; t.i = i; t.g = load == 0 ? 0 : load == 1 ? 1.5 - i : -0.5 * (i + 1); t.d = damp * (i + 1); b.terms.push_back(t); }
        if (pattern & 1) for (int i = 0; i + 1 < n; ++i) spring(i, i + 1, 3, c, -0.25);
        if (pattern & 2 && n > 1) spring(0, n - 1, 1, 0, -0.25 * (n - 1));
        if (fixed & 1) b.fixed.insert(0);
        if (fixed & 2) b.fixed.insert(n - 1);
        b.x0 = Vec(n); b.v0 = Vec::Zero(n); for (int i = 0; i < n; ++i) { b.x0[i] = 0.25 * i; if (moving && !b.fixed.count(i)) b.v0[i] = 1 - 0.75 * i; }
        if (child) {
            b.J = Mat::Zero(2, n); b.off = Vec::Zero(2); const int f = n - 1 - (fixed & 2 ? 1 : 0);
            if (f >= 0 && !b.fixed.count(f)) { b.J(0, f) = 1; b.J(1, f) = 0.5; if (f > 0 && !b.fixed.count(f - 1)) b.J(1, f - 1) = 0.5; }
            b.off = -b.J * b.x0; Term t; t.i = 1; t.j = 0; t.a = 1.5; t.c = c; t.d = damp; b.child.push_back(t); t.i = 0; t.j = -1; t.g = load ? 0.5 : 0; t.d = 0; b.child.push_back(t);
        } else { b.J = Mat::Zero(1, n); b.off = Vec::Zero(1); }
    };
    fill(s.a, n, child); if (two) fill(s.b, 3, false);
    if (two) s.b.J.resize(0, 0);
    return s;
}
bool close(const Vec &a, const Vec &b, double tol, double scale = 1) { return a.size() == b.size() && a.allFinite() && (a - b).norm() <= tol * (scale + b.norm()); }
// one step from the current state of the world, with the system s
void step(World &w, const Sys &s, const Options &o, const std::string &what) {
    const char *who = ODE[o.ode];
    mc::crumb(std::string(who) + " " + what); mc::state();
    const Vec x0 = w.x(), v0 = w.v();
    w.options(o); w.go(o.h);
    const Vec x = w.x(), v = w.v(); const auto res = w.residuals(); const bool conv = w.converged();
    const double tol = std::string(o.linear).find("Conjugate") == 0 ? 1e-7 : 1e-9;
    auto fx = s.fixed(); bool held = true; for (int i = 0; i < s.n(); ++i) if (fx[i] && v0[i] == 0) held = held && std::abs(x[i] - x0[i]) <= 1e-12 * (1 + std::abs(x0[i])) && std::abs(v[i]) <= 1e-12;
    mc::check(held, "fixed-held", who, what, " x ", show(x0), " -> ", show(x));
    if (o.ode == EULER) mc::check(close(x, x0 + o.h * v, 1e-12), "x=x0+hv", who, what, " x0=", show(x0), " v=", show(v), " x=", show(x));
    else mc::check((v - v0).norm() == 0, "velocity-kept", who, what);
    if (s.a.J.rows()) mc::check(close(flat(w.a.cmo->x_.getValue()), s.a.J * x.head(s.a.n) + s.a.off, 1e-12) && close(flat(w.a.cmo->v_.getValue()), s.a.J * v.head(s.a.n), 1e-12), "mapped-state", who, what, " mapped ", show(flat(w.a.cmo->x_.getValue())));
    const bool off = o.corr <= 0 && o.rel <= 0 && o.abs <= 0;
    const Step r0 = reference(s, o, x0, v0, 0);
    mc::check(std::abs(std::sqrt(w.initial()) - r0.initial) <= 1e-9 * (1 + r0.initial), "initial-residual", who, what, " ", std::sqrt(w.initial()), " instead of ", r0.initial);
    mc::check(res.size() <= o.its, "iterations", who, what, " ", res.size());
    const Step r = reference(s, o, x0, v0, unsigned(res.size()));
    const bool still = r.U < 1e-9; // the solver stops when nothing moves
    if (off) { mc::check(!conv && (still || res.size() == o.its), "no-criterion", who, what, " converged=", conv, " after ", res.size()); }
    mc::check(close(x, r.x, tol) && close(v, r.v, tol), "newton-iterate", who, what, " after ", res.size(), " iterations from ", show(x0), " ", show(v0), ": x=", show(x), " v=", show(v), " instead of ", show(r.x), " ", show(r.v));
    if (o.its > 1 || o.ode == LEGACY) { bool ok = true; for (std::size_t i = 0; i < res.size(); ++i) ok = ok && std::abs(std::sqrt(res[i]) - r.res[i]) <= 1e-6 * r.res[i] + 1e-8 * (1 + r0.initial); mc::check(ok, "residual-list", who, what, " last ", res.empty() ? -1 : std::sqrt(res.back()), " instead of ", r.res.empty() ? -1 : r.res.back()); }
    if (off || (o.its == 1 && o.ode != LEGACY)) return;
    const double noise = 1e-10 * (1 + r0.initial);
    const double last = res.empty() ? r0.initial : r.res.back(), R0a = r0.initial, R0b = res.empty() ? r0.initial : std::max(r.res[0], 0.);
    const bool start = o.ode == LEGACY ? o.rel > 0 && r0.initial * r0.initial <= o.rel * 1.001 : o.abs > 0 && r0.initial <= o.abs * 1.001 + 1e-15;
    if (conv) {
        bool why = start || (o.corr > 0 && r.dx <= o.corr * r.U * 1.001 + noise) || (o.rel > 0 && last <= o.rel * std::max(R0a, R0b) * 1.001 + noise) || (o.ode != LEGACY && o.abs > 0 && last <= o.abs * 1.001 + noise);
        mc::check(why, "converged-means", who, what, " residual ", last, " first ", R0a, " correction ", r.dx, " of ", r.U);
    } else if (!still) {
        bool none = !(o.corr > 0 && r.dx < o.corr * r.U * 0.999 - noise) && !(o.rel > 0 && last < o.rel * std::min(R0a, R0b) * 0.999 - noise) && !(o.ode != LEGACY && o.abs > 0 && last < o.abs * 0.999 - noise);
        mc::check(none && res.size() == o.its, "not-converged-means", who, what, " residual ", last, " first ", R0a, " correction ", r.dx, " of ", r.U, " after ", res.size());
    }
    if (start && r0.initial == 0) mc::check(conv && res.empty(), "equilibrium", who, what);
}
template <class F> void each(F f) { unsigned long long i = 0; const char *p = getenv("MC_PART"), *q = getenv("MC_PARTS"); f([&] { return !p || int(i++ % atoi(q)) == atoi(p); }); }
void run(const Options &o, const std::vector<Sys> &h, const std::string &what) {
    World w(o, h[0].two); w.set(h[0], false); std::string t = what;
    for (std::size_t i = 0; i < h.size(); ++i) { if (i) w.set(h[i], true); step(w, h[i], o, mc::str(t, " step ", i + 1)); }
    mc::trace();
}
void euler(bool few) {
    const std::vector<double> hs = few ? std::vector<double>{0.1} : mc::thorough() ? std::vector<double>{0.01, 0.1, 1} : std::vector<double>{0.1, 1}, rays = {0, 0.3};
    const std::vector<unsigned> its = few ? std::vector<unsigned>{2} : mc::thorough() ? std::vector<unsigned>{1, 2, 3, 8} : std::vector<unsigned>{1, 3};
    each([&](auto mine) {
        for (int n = 1; n <= (mc::thorough() ? 4 : 3); ++n) for (int pat = 0; pat < 8; pat += (few ? 3 : 1)) { if (n == 1 && pat) break; for (double c : {0., 0.5}) for (bool child : {false, true}) for (int fixed : {0, 1, 3}) for (int load : {0, 1, 2}) for (bool moving : {false, true}) {
            if (fixed == 3 && n < 3) continue; if (fixed == 1 && n < 2) continue;
            for (double h : hs) for (double rm : rays) for (double rk : rays) for (double damp : {0., 0.4}) {
                if (!mine()) continue;
                if (!mc::thorough() && ((n == 3 && (pat + fixed + load) % 3 != int(c * 2 + child) % 3) || (rm != rk && damp != 0))) continue;
                const int q = n + pat + fixed + load + int(c * 2) + child + int(rk * 10);
                Options o{EULER, h, rm, rk};
                const std::string what = mc::str("n=", n, " springs=", pat, " cubic=", c, " mapped=", child, " fixed=", fixed, " load=", load, " moving=", moving, " C=", damp, " ");
                const bool two = q % 4 == 0;
                std::vector<Sys> hist;
                for (int k = 0; k < 3; ++k) hist.push_back(sys(n, k == 1 ? pat ^ 1 : pat, c, child, fixed, two, k == 2 ? (load + 1) % 3 : load, damp, moving));
                o.linear = q % 3 == 0 ? "LDLTSolver" : q % 3 == 1 ? "LUSolver" : "ConjugateGradientSolver/Diagonal";
                o.pattern = q % 2 ? "ALWAYS" : "BEGINNING_OF_THE_TIME_STEP";
                for (unsigned it : its) { o.its = it; o.corr = o.rel = o.abs = -1; run(o, hist, what + show(o)); }
                o.its = 10; o.corr = 1e-5; o.rel = 1e-5; o.abs = 1e-15; run(o, hist, what + show(o));
                if (few || (!mc::thorough() && q % 2)) continue;
                o.corr = -1; o.rel = -1; o.abs = 1e-4; run(o, hist, what + show(o));
                if (!mc::thorough()) continue;
                o.corr = 1e-3; o.abs = -1; run(o, hist, what + show(o)); o.corr = -1; o.rel = 1e-3; run(o, hist, what + show(o));
            }
        } }
    });
    mc::bound("Euler", "1-3 dofs (thorough 4), springs, cubic terms, mass coupling, a mapped pair of points, fixed dofs, loads, initial velocities, 3 time steps h, Rayleigh factors, damping matrix; 1, 2, 3, 8 iterations without criteria, then with criteria; three steps with changing springs and loads");
}
void statics(bool few) {
    each([&](auto mine) {
        for (Ode ode : {STATIC, LEGACY}) for (int n = 1; n <= (mc::thorough() ? 5 : 4); ++n) for (int pat = 0; pat < 4; ++pat) { if (n == 1 && pat) break; for (double c : {0., 0.5, 4.}) for (bool child : {false, true}) for (int fixed : {0, 1, 3}) for (bool two : {false, true}) for (int l1 = 0; l1 < 3; ++l1) for (int l2 = 0; l2 < 3; ++l2) {
            if (fixed == 3 && n < 3) continue; if (fixed == 1 && n < 2) continue;
            if (!mine()) continue;
            if (few && (n > 2 || two)) continue;
            if (!mc::thorough() && n > 2 && (l1 + l2 + pat + two) % 3 != int(c) % 3) continue;
            const std::string what = mc::str("n=", n, " springs=", pat, " cubic=", c, " mapped=", child, " fixed=", fixed, " two=", two, " loads ", l1, l2, " ");
            for (const char *lin : {"LDLTSolver", "LLTSolver", "LUSolver", "ConjugateGradientSolver/Diagonal", "ConjugateGradientSolver/Identity"}) {
                const bool cg = lin[0] == 'C'; if (few && cg) continue; if (!mc::thorough() && lin[1] != "DLUo"[(n + pat + l1 + l2 * 2 + two + fixed) % 4]) continue;
                std::vector<Sys> hist{sys(n, pat, c, child, fixed, two, l1, 0, false), sys(n, pat, c, child, fixed, two, l2, 0, false), sys(n, pat ^ 3, c, child, fixed ? 0 : fixed, two, l1, 0, false), sys(n, pat, c, child, fixed, two, 0, 0, false)};
                for (int k = 0; k < 3; ++k) {
                    Options o{ode}; o.linear = lin; o.pattern = k == 0 ? "ALWAYS" : "BEGINNING_OF_THE_TIME_STEP"; o.warm = k == 1;
                    for (unsigned it : {1u, 2u, 4u}) { if (k == 2) continue; o.its = it; run(o, hist, what + show(o)); }
                    if (k == 0) { o.its = 12; o.corr = 1e-5; o.rel = 1e-5; o.abs = 1e-15; run(o, hist, what + show(o)); }
                    if (k == 1) { o.its = 12; o.corr = -1; o.rel = 1e-6; o.abs = -1; run(o, hist, what + show(o)); }
                    if (k == 2) { // pattern analysed once: same springs and constraints throughout
                        if (ode == LEGACY) continue;
                        std::vector<Sys> same{hist[0], hist[1], hist[3]}; o.pattern = "BEGINNING_OF_THE_SIMULATION"; o.its = 12; o.abs = 1e-6; run(o, same, what + show(o));
                    }
                }
            }
            // a matrix that cannot be factorised: nothing moves, not converged, and the next step is right
            if (ode == STATIC) {
                Options o{ode}; o.linear = "LLTSolver"; o.its = 3; World w(o, false); Sys s = sys(n, pat, c, child, fixed, false, 1, 0, false), bad = s; bool free = false;
                for (auto &t : bad.a.terms) if (t.j < 0) t.a = -50;
                for (int i = 0; i < n; ++i) free = free || !s.a.fixed.count(i);
                for (bool before : {false, true}) if (free) {
                    if (before) { o.its = 12; o.rel = 1e-5; w.options(o); w.set(s, false); step(w, s, o, what + "before a failure"); }
                    w.set(bad, before); const Vec x0 = w.x(); mc::crumb(what + "not positive"); mc::state(); w.go(0.1);
                    const bool rests = bad.project(bad.f(x0)).norm() < 1e-9; // no load on the free dofs: nothing to solve
                    mc::check((w.x() - x0).norm() == 0 && (!w.converged() || rests), "failure-moves-nothing", ODE[ode], what, before ? " after a good step" : "", " x ", show(x0), " -> ", show(w.x()), " converged=", w.converged());
                    w.set(s, true); step(w, s, o, what + "after a failure"); mc::trace();
                }
            }
        } }
    });
    mc::bound("static", "1-4 dofs (thorough 5), springs, cubic terms, mapped points, fixed dofs, one or two states, every pair of loads, 5 linear solvers; 1, 2, 4 iterations without criteria, then with criteria; four load increments with changing springs and constraints; factorisation failures");
}
} // namespace
int main(int argc, char **argv) {
    return mc::run(argc, argv, [] { if (SHARD == 0) euler(false); else if (SHARD == 1) statics(false); else { euler(true); statics(true); } });
}
