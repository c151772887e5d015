// C28: the linear solvers, created from the types the plugin registers.
// SHARD 0: every small matrix through the direct interface; SHARD 1: histories of systems assembled from a graph; SHARD 2: as 1, few, sanitised.
#include "sim.h"
#include <SofaCaribou/Solver/LinearSolver.h>
using namespace sim;
using Direct = SofaCaribou::solver::LinearSolver;
using Legacy = sofa::core::behavior::LinearSolver;
namespace {
struct Solver {
    SPtr_<sofa::core::objectmodel::BaseObject> o; Direct *d = nullptr; Legacy *l = nullptr; std::string name;
    bool cg() const { return name == "ConjugateGradientSolver"; }
    template <class T> Data<T> &data(const char *n) { auto *p = dynamic_cast<Data<T> *>(o->findData(n)); if (!p) { fprintf(stderr, "no data %s\n", n); _exit(3); } return *p; }
    void precond(const std::string &m) { auto &d = data<sofa::helper::OptionsGroup>("preconditioning_method"); auto g = d.getValue(); g.setSelectedItem(m); if (g.getSelectedItem() != m) { fprintf(stderr, "no preconditioner %s\n", m.c_str()); _exit(3); } d.setValue(g); }
};
const char *NAMES[] = {"LDLTSolver", "LLTSolver", "LUSolver", "ConjugateGradientSolver"};
const char *PRECOND[] = {"None", "Identity", "Diagonal", "IncompleteCholesky", "IncompleteLU"};
Solver make(const std::string &name) {
    for (auto &c : minisofa::factory()) if (c.type.find(mc::str(name.size(), name)) != std::string::npos) {
        auto *b = c.make(); Solver s; s.name = name; s.o = SPtr_<sofa::core::objectmodel::BaseObject>(dynamic_cast<sofa::core::objectmodel::BaseObject *>(b));
        s.d = dynamic_cast<Direct *>(b); s.l = dynamic_cast<Legacy *>(b);
        if (s.o && s.d && s.l) return s;
    }
    fprintf(stderr, "%s is not registered\n", name.c_str()); _exit(3);
}
std::string show(const Mat &A) { std::string r = "["; for (int i = 0; i < A.rows(); ++i) { if (i) r += "; "; for (int j = 0; j < A.cols(); ++j) r += mc::str(j ? " " : "", A(i, j)); } return r + "]"; }
std::string show(const Vec &v) { std::string r = "("; for (int i = 0; i < v.size(); ++i) r += mc::str(i ? " " : "", v[i]); return r + ")"; }
enum Kind { SPD, NEGDEF, INDEFINITE, REGULAR, SINGULAR };
Kind kind(const Mat &A) {
    const bool sym = (A - A.transpose()).cwiseAbs().maxCoeff() == 0;
    if (sym) { Eigen::SelfAdjointEigenSolver<Mat> e(A); const auto &w = e.eigenvalues(); if (w.cwiseAbs().minCoeff() < 1e-6) return SINGULAR; if (w.minCoeff() > 0) return SPD; if (w.maxCoeff() < 0) return NEGDEF; return INDEFINITE; }
    return std::abs(A.determinant()) < 0.5 ? SINGULAR : REGULAR;
}
using BM = sofa::defaulttype::BaseMatrix; using BV = sofa::defaulttype::BaseVector;
std::unique_ptr<BM> matrix(Solver &s, const Mat &A, int order) { // order: 0 rows, 1 reversed, 2 in two halves, with explicit zeros
    const int n = int(A.rows());
    std::unique_ptr<BM> m(s.d->create_new_matrix(n, n)); mc::step();
    auto put = [&](int i, int j, double v) { if (v != 0 || order == 2) m->add(i, j, v); };
    for (int q = 0; q < n * n; ++q) { const int r = order == 1 ? n * n - 1 - q : q; if (order == 2) { put(r / n, r % n, A(r / n, r % n) - 1); put(r / n, r % n, 1); } else put(r / n, r % n, A(r / n, r % n)); }
    m->compress(); return m;
}
Vec solve(Solver &s, const Vec &b, const Vec &x0, bool &ok) {
    const int n = int(b.size());
    std::unique_ptr<BV> F(s.d->create_new_vector(n)), X(s.d->create_new_vector(n));
    for (int i = 0; i < n; ++i) { F->set(i, b[i]); X->set(i, x0[i]); }
    ok = s.d->solve(F.get(), X.get()); mc::step();
    Vec x(n); bool same = F->size() == n && X->size() == n; for (int i = 0; same && i < n; ++i) { x[i] = X->element(i); same = F->element(i) == b[i]; }
    mc::check(same, "rhs-kept", s.name, "right-hand side or sizes changed by solve");
    return x;
}
double anorm(const Mat &A, const Vec &e) { return std::sqrt(std::max(0., e.dot(A * e))); }
void judge_cg(Solver &s, const char *who, const Mat &A, const Vec &b, const Vec &x0, bool ok, const Vec &x, double tol, unsigned maxit, const std::string &what) {
    const Vec want = A.ldlt().solve(b); const double r = (b - A * x).norm(), scale = A.norm() * (x.norm() + x0.norm()) + b.norm();
    if (ok) mc::check(r <= 1.001 * tol * b.norm() + 1e-12 * scale, "cg-residual", who, what, " x=", show(x), " |r|=", r, " |b|=", b.norm(), " tolerance ", tol);
    // exact arithmetic: at most n iterations; nothing to do when b = 0 or when the guess already is a solution
    const bool zero = b.norm() == 0;
    const bool ilu = std::string(who).find("IncompleteLU") != std::string::npos; // not symmetric: no guarantee but the one on the residual
    if (zero || (maxit >= 20 && !ilu)) mc::check(ok && (!zero || x.norm() == 0), "cg-converges", who, what, " returned ", ok, " x=", show(x));
    if (!ilu) mc::check(x.allFinite() && anorm(A, x - want) <= anorm(A, x0 - want) * (1 + 1e-9) + 1e-9 * anorm(A, want), "cg-no-worse", who, what, " x0=", show(x0), " x=", show(x), " solution ", show(want));
    const auto res = s.d->squared_residuals();
    bool sane = res.size() <= maxit; for (double v : res) sane = sane && v >= 0;
    if (!res.empty()) sane = sane && std::abs(std::sqrt(res.back()) - r) <= 1e-6 * r + 1e-11 * scale;
    if (res.empty() && !zero) sane = sane && (x - x0).norm() == 0; // nothing was done
    for (std::size_t i = 0; i + 1 < res.size(); ++i) sane = sane && res[i] >= tol * tol * b.squaredNorm() * 0.999;
    mc::check(sane, "cg-residuals", who, what, " ", res.size(), " residuals, last ", res.empty() ? -1. : res.back(), ", |r|^2 of the result ", r * r);
}
void judge_direct(const char *who, const Mat &A, const Vec &b, bool ok, const Vec &x, const std::string &what) {
    const Vec want = A.fullPivLu().solve(b);
    mc::check(ok && x.allFinite() && (x - want).norm() <= 1e-9 * (want.norm() + A.inverse().norm() * b.norm()), "solution", who, what, " returned ", ok, " x=", show(x), " instead of ", show(want));
}
std::vector<Vec> rhs(int n) { std::vector<Vec> r; Vec v(n); v.setZero(); r.push_back(v); for (int i = 0; i < n; ++i) v[i] = i + 1; r.push_back(v); for (int i = 0; i < n; ++i) v[i] = i == n - 1 ? -3 : 0; r.push_back(v); return r; }
void one(std::vector<Solver> &ss, const Mat &A, int order, bool analyse) {
    const Kind k = kind(A); const int n = int(A.rows());
    mc::state();
    const std::string what = "A=" + show(A);
    for (auto &s : ss) {
        const bool lu = s.name == "LUSolver", llt = s.name == "LLTSolver", ldlt = s.name == "LDLTSolver";
        if (!lu && k == REGULAR) continue;
        if (s.cg() && k != SPD) continue;
        for (const char *p : PRECOND) {
            if (!s.cg() && p != PRECOND[0]) break;
            const std::string who = s.cg() ? s.name + "/" + p : s.name;
            if (s.cg()) s.precond(p);
            mc::crumb(who + " " + what);
            auto m = matrix(s, A, order);
            s.d->set_system_matrix(m.get());
            bool an = true; if (analyse || s.cg()) { an = s.d->analyze_pattern(); mc::step(); }
            const bool fa = s.d->factorize(); mc::step();
            const bool must = k == SPD || (ldlt && k == NEGDEF) || (lu && k != SINGULAR);
            if (must) mc::check(an && fa, "factorizes", who, what, " analysis ", an, " factorisation ", fa);
            if (llt && (k == NEGDEF || k == INDEFINITE)) mc::check(!fa, "reports-not-positive", who, what);
            if (lu) for (int i = 0; i < n; ++i) if (A.col(i).cwiseAbs().maxCoeff() == 0) { mc::check(!fa, "reports-singular", who, what); break; }
            if (!must || !fa) continue;
            for (const Vec &b : rhs(n)) {
                if (!s.cg()) { bool ok; Vec x = solve(s, b, Vec::Constant(n, 7), ok); judge_direct(who.c_str(), A, b, ok, x, what + " b=" + show(b)); mc::check(!s.d->is_iterative() && s.d->squared_residuals().empty(), "direct", who); continue; }
                mc::check(s.d->is_iterative(), "iterative", who);
                const Vec sol = A.ldlt().solve(b);
                for (int guess = 0; guess < 3; ++guess) for (double tol : {1e-3, 1e-8}) for (unsigned it : {1u, 2u, 30u}) {
                    if (order && it != 30) continue;
                    s.data<unsigned>("maximum_number_of_iterations").setValue(it); s.data<double>("residual_tolerance_threshold").setValue(tol);
                    const Vec x0 = guess == 0 ? Vec(Vec::Zero(n)) : guess == 1 ? sol : Vec(Vec::LinSpaced(n, -1, 2));
                    bool ok; Vec x = solve(s, b, x0, ok);
                    judge_cg(s, who.c_str(), A, b, x0, ok, x, tol, it, mc::str(what, " b=", show(b), " guess ", show(x0), " tolerance ", tol, " at most ", it));
                }
            }
        }
    }
}
void small_matrices() {
    std::vector<Solver> ss; for (auto *n : NAMES) ss.push_back(make(n));
    std::vector<Solver> lu; lu.push_back(make("LUSolver"));
    unsigned long long idx = 0; const auto part = [&] { const char *p = getenv("MC_PART"), *q = getenv("MC_PARTS"); return !p || int(idx % atoi(q)) == atoi(p); };
    for (int a = -2; a <= 3; ++a) { Mat A(1, 1); A << a; if (part()) one(ss, A, 0, true); ++idx; }
    const int lo2 = mc::thorough() ? -3 : -2, hi2 = mc::thorough() ? 4 : 3;
    for (int a = lo2; a <= hi2; ++a) for (int b = lo2; b <= hi2; ++b) for (int c = lo2; c <= hi2; ++c) for (int d = lo2; d <= hi2; ++d) { Mat A(2, 2); A << a, b, c, d; if (part()) one(ss, A, int(idx % 3), true); ++idx; }
    // symmetric 3x3 and 4x4 (diagonal 1..4 / fixed, off-diagonal in a small set)
    const int d3 = mc::thorough() ? 5 : 3;
    for (int q = 0; q < d3 * d3 * d3 * 27; ++q) {
        int e = q; Mat A(3, 3); for (int i = 0; i < 3; ++i) { A(i, i) = e % d3 + 1 - (d3 == 5); e /= d3; }
        for (int i = 0; i < 3; ++i) for (int j = i + 1; j < 3; ++j) { A(i, j) = A(j, i) = e % 3 - 1; e /= 3; }
        if (part()) one(ss, A, int(idx % 3), true); ++idx;
    }
    for (int q = 0; q < 729 * (mc::thorough() ? 16 : 1); ++q) {
        int e = q; Mat A(4, 4); for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) { A(i, j) = A(j, i) = 0.5 * (e % 3 - 1); e /= 3; }
        for (int i = 0; i < 4; ++i) { A(i, i) = i % 2 ? 2 : 1.5; if (mc::thorough()) { A(i, i) = 1 + e % 2; e /= 2; } }
        if (part()) one(ss, A, int(idx % 3), true); ++idx;
    }
    // every 3x3 matrix over a set of values, LU
    std::vector<double> vals = mc::thorough() ? std::vector<double>{-1, 0, 1, 2} : std::vector<double>{-1, 0, 2};
    long tot = 1; for (int i = 0; i < 9; ++i) tot *= long(vals.size());
    for (long q = 0; q < tot; ++q) { if (part()) { long e = q; Mat A(3, 3); for (int i = 0; i < 9; ++i) { A(i / 3, i % 3) = vals[e % vals.size()]; e /= long(vals.size()); } one(lu, A, int(idx % 3), true); } ++idx; }
    // one analysis, then every sequence of two matrices with that pattern (full)
    std::vector<Mat> spd;
    for (int q = 0; q < 27; ++q) { Mat A(3, 3); A << 3 + q % 3, 1, -1, 1, 3 + q / 3 % 3, 0.5, -1, 0.5, 4; A(0, 2) = A(2, 0) = q / 9 - 1 == 0 ? 0.25 : q / 9 - 1; spd.push_back(A); }
    for (auto &A : spd) for (auto &B : spd) { if (part()) { std::vector<Solver> f; for (auto *n : NAMES) f.push_back(make(n)); one(f, A, 0, true); one(f, B, 0, false); mc::trace(); } ++idx; }
    mc::bound("matrices", mc::str("1x1 in -2..3; every 2x2 with entries in ", lo2, "..", hi2, "; symmetric 3x3 (diagonal of ", d3, " values, off-diagonal -1,0,1); symmetric 4x4 (off-diagonal -1/2,0,1/2); every 3x3 over ", vals.size(), " values (LU); every pair of 27 matrices of one pattern with a single analysis"));
    mc::bound("CG", "5 preconditioners x 3 right-hand sides x 3 initial guesses x tolerance 1e-3, 1e-8 x at most 1, 2, 30 iterations");
}
// ---- graph -------------------------------------------------------------------------------------------------------------------
struct Config { int n, pattern, values, fixed; double m, b, k; bool second; };
Body body(const Config &c) {
    Body b; b.n = c.n; b.mass = Mat::Zero(c.n, c.n); b.rayleighK = 0.25;
    for (int i = 0; i < c.n; ++i) { b.mass(i, i) = 2 + i * 0.5 + c.values; Term t; t.i = i; t.a = 1 + 0.5 * i + 2 * c.values; t.d = 0.3 + c.values; b.terms.push_back(t); }
    for (int i = 0; i + 1 < c.n; ++i) if (c.pattern & 1) { b.mass(i, i + 1) = b.mass(i + 1, i) = 0.5; } 
    auto spring = [&](int i, int j, double a) { Term t; t.i = i; t.j = j; t.a = a; b.terms.push_back(t); };
    if (c.pattern & 2) for (int i = 0; i + 1 < c.n; ++i) spring(i, i + 1, 3 + i - 0.5 * c.values);
    if (c.pattern & 4) spring(0, c.n - 1, 1.5 + c.values);
    if (c.fixed & 1) b.fixed.insert(0);
    if (c.fixed & 2) b.fixed.insert(c.n - 1);
    b.x0 = Vec::LinSpaced(c.n, 0.5, 2); b.v0 = Vec::Zero(c.n);
    // a mapped point between two free dofs
    b.J = Mat::Zero(1, c.n); b.off = Vec::Constant(1, 0.5);
    if (c.pattern & 8) { const int f = c.n / 2; b.J(0, f) = 0.75; if (f + 1 < c.n - 1) b.J(0, f + 1) = 0.25; Term t; t.i = 0; t.a = 2; t.d = 0.5; b.child.push_back(t); if (c.n <= 2 && (c.fixed & 2)) { b.J.setZero(); } }
    return b;
}
std::string show(const Config &c) { return mc::str("{n=", c.n, " pattern=", c.pattern, " values=", c.values, " fixed=", c.fixed, " mbk=", c.m, ",", c.b, ",", c.k, c.second ? " two states" : "", "}"); }
struct Graph {
    SPtr_<Node> root{new Node()}; BodyNode<DT1> a{true}; BodyNode<DT3> b{false}; Solver s; bool two;
    Graph(const std::string &name, bool two) : s(make(name)), two(two) { root->addObject(s.o); root->addChild(a.node); if (two) root->addChild(b.node); }
};
void apply(Graph &g, const Config &c, int guess, const std::string &who, const std::string &what) {
    const Body p = body(c);
    Config c2 = c; c2.n = 3; c2.pattern = c.pattern & 6; c2.values = 1 - c.values % 2; c2.fixed = c.fixed & 2; Body q = body(c2); q.J.resize(0, 0);
    g.a.set(p); if (g.two) g.b.set(q);
    const int n = p.n + (g.two ? 3 : 0);
    Mat A = Mat::Zero(n, n); A.topLeftCorner(p.n, p.n) = sim::system(p, p.x0, c.m, c.b, c.k); if (g.two) A.bottomRightCorner(3, 3) = sim::system(q, q.x0, c.m, c.b, c.k);
    Vec rhs = Vec::Zero(n), x0 = Vec::Zero(n);
    for (int i = 0; i < n; ++i) { rhs[i] = 2. - i; x0[i] = guess == 1 ? 0.5 * i - 1 : 0; }
    if (guess == 3) rhs.setZero();
    for (int i : p.fixed) rhs[i] = x0[i] = 0; if (g.two) for (int i : q.fixed) rhs[p.n + i] = x0[p.n + i] = 0;
    const Vec sol = A.fullPivLu().solve(rhs); if (guess == 2) x0 = sol; if (guess == 3) for (int i = 0; i < n; ++i) if (A.row(i).norm() != 1 || A(i, i) != 1) x0[i] = 0.25;
    g.a.mo->f_.setValue(pack<DT1::VecDeriv>(rhs.head(p.n))); g.a.mo->dx_.setValue(pack<DT1::VecDeriv>(x0.head(p.n)));
    if (g.two) { g.b.mo->f_.setValue(pack<DT3::VecDeriv>(rhs.tail(3))); g.b.mo->dx_.setValue(pack<DT3::VecDeriv>(x0.tail(3))); }
    MechanicalParams mp; mp.setMFactor(c.m); mp.setBFactor(c.b); mp.setKFactor(c.k);
    mc::crumb(who + " " + what);
    g.s.l->setSystemMBKMatrix(&mp); mc::step();
    g.s.l->setSystemRHVector(sofa::core::VecDerivId::force()); g.s.l->setSystemLHVector(sofa::core::VecDerivId::dx()); g.s.l->solveSystem(); mc::step(3);
    Vec x(n); x.head(p.n) = flat(g.a.mo->dx_.getValue()); if (g.two) x.tail(3) = flat(g.b.mo->dx_.getValue());
    const bool cg = g.s.cg();
    const double tol = cg ? 1e-7 : 1e-9;
    const bool ilu = cg && g.s.data<sofa::helper::OptionsGroup>("preconditioning_method").getValue().getSelectedItem() == "IncompleteLU";
    const bool given_up = ilu && rhs.norm() > 0 && (x - x0).norm() == 0 && g.s.d->squared_residuals().size() >= 60; // did not converge: the solution is left alone
    mc::check(given_up || (x.allFinite() && (x - sol).norm() <= tol * (sol.norm() + A.inverse().norm() * rhs.norm()) + (guess == 3 ? 1e-12 : 0)), "graph-solution", who, what, " guess #", guess, " x=", show(x), " instead of ", show(sol));
    Vec f(n); f.head(p.n) = flat(g.a.mo->f_.getValue()); if (g.two) f.tail(3) = flat(g.b.mo->f_.getValue());
    mc::check((f - rhs).norm() == 0 && (flat(g.a.mo->x_.getValue()) - p.x0).norm() == 0, "graph-inputs-kept", who, what, " f=", show(f));
}
std::vector<std::pair<std::string, int>> variants() { std::vector<std::pair<std::string, int>> v; for (auto *n : NAMES) { if (std::string(n) == "ConjugateGradientSolver") for (int p = 0; p < 5; ++p) v.emplace_back(n, p); else { v.emplace_back(n, 0); if (std::string(n) == "LUSolver") v.emplace_back(n, 1); } } return v; }
void setup(Graph &g, int v) {
    if (g.s.cg()) { g.s.precond(PRECOND[v]); g.s.data<unsigned>("maximum_number_of_iterations").setValue(60); g.s.data<double>("residual_tolerance_threshold").setValue(1e-12); }
    else if (g.s.name == "LUSolver") g.s.data<bool>("symmetric").setValue(v == 1);
}
void histories(bool sanitised) {
    std::vector<Config> cs;
    // every pattern for n = 3, then constraints, values, factors, sizes
    for (int p = 0; p < 16; ++p) cs.push_back({3, p, 0, 0, 1, -0.5, -0.25, false});
    for (int f = 1; f < 4; ++f) for (int p : {2, 6, 3, 8}) cs.push_back({f == 3 ? 4 : 3, p, 0, f, 1, -0.5, -0.25, false});
    for (int v = 0; v < 2; ++v) for (int n : {2, 4}) for (int p : {0, 6}) cs.push_back({n, p, v, 0, 0, 0, -1, false});
    cs.push_back({3, 6, 1, 2, 0.5, 0, -2, false}); cs.push_back({3, 2, 1, 0, 1, 0, 0, false}); cs.push_back({1, 0, 0, 0, 1, -1, -1, false}); cs.push_back({7, 7, 1, 0, 1, -0.5, -1, false});
    const std::size_t N = sanitised ? 12 : cs.size();
    unsigned long long idx = 0; const auto part = [&] { const char *p = getenv("MC_PART"), *q = getenv("MC_PARTS"); return !p || int(idx % atoi(q)) == atoi(p); };
    for (auto &v : variants()) for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) {
        if (!part()) { ++idx; continue; } ++idx;
        const std::string who = v.first == "ConjugateGradientSolver" ? v.first + "/" + PRECOND[v.second] : v.first + (v.second ? "/symmetric" : "");
        const std::size_t K = mc::thorough() ? N : 1;
        for (std::size_t k = 0; k < K; ++k) {
            Graph g(v.first, (i + j) % 3 == 0); setup(g, v.second);
            std::string h = show(cs[i]); mc::state(); apply(g, cs[i], int((i + j) % 4), who, h);
            h += " then " + show(cs[j]); mc::state(); apply(g, cs[j], int((i + 2 * j) % 4), who, h);
            const std::size_t l = mc::thorough() ? k : i; // and back
            h += " then " + show(cs[l]); mc::state(); apply(g, cs[l], int((l + j) % 4), who, h);
            if (k == 0 && (i + j) % 2) { g.s.l->resetSystem(); mc::step(); h += " then reset and " + show(cs[j]); mc::state(); apply(g, cs[j], 1, who, h); }
            mc::trace();
        }
    }
    // preconditioners changed between two systems
    const int P = 5;
    for (int a = 0; a < P; ++a) for (int b = 0; b < P; ++b) for (int c = 0; c < P; ++c) for (std::size_t i = 0; i < N; i += (mc::thorough() ? 1 : 3)) for (std::size_t j : {i, (i + 5) % N}) {
        if (!part()) { ++idx; continue; } ++idx;
        Graph g("ConjugateGradientSolver", i % 2); std::string h;
        for (int q : {a, b, c}) { const std::size_t w = q == b ? j : i; setup(g, q); h += (h.empty() ? "" : " then ") + std::string(PRECOND[q]) + show(cs[w]); mc::state(); apply(g, cs[w], int(w % 4), "ConjugateGradientSolver/changed-preconditioner", h); }
        mc::trace();
    }
    // a singular system (a dof without any stiffness): the previous solution stays, the next regular system is solved
    for (auto &v : variants()) if (v.first == "LUSolver" || v.first == "LDLTSolver" || v.first == "LLTSolver") for (int p : {0, 2}) for (int free = 0; free < 3; ++free) {
        Graph g(v.first, false); setup(g, v.second); Config c{3, p, 0, 0, 0, 0, -1, false};
        if (free) apply(g, c, 0, v.first, "before a singular system");
        Body b = body(c); b.terms.clear(); Term t; t.i = free == 2 ? 2 : 0; t.a = 2; b.terms.push_back(t); g.a.set(b);
        Vec f(3); f << 1, 2, 3; g.a.mo->f_.setValue(pack<DT1::VecDeriv>(f)); Vec keep(3); keep << 4, 5, 6; g.a.mo->dx_.setValue(pack<DT1::VecDeriv>(keep));
        MechanicalParams mp; mp.setMFactor(0); mp.setBFactor(0); mp.setKFactor(-1);
        mc::crumb(v.first + " singular system"); mc::state();
        g.s.l->setSystemMBKMatrix(&mp); g.s.l->setSystemRHVector(sofa::core::VecDerivId::force()); g.s.l->setSystemLHVector(sofa::core::VecDerivId::dx()); g.s.l->solveSystem(); mc::step(4);
        const Vec x = flat(g.a.mo->dx_.getValue());
        mc::check((x - keep).norm() == 0, "singular-keeps", v.first, "a system with two empty rows gave ", show(x));
        apply(g, c, 1, v.first, "after a singular system"); mc::trace();
    }
    mc::bound("systems", mc::str(N, " systems (patterns, sizes, fixed dofs, factors, mapped points, one or two states), every pair and back for each of 9 solvers",
              mc::thorough() ? ", every triple" : "", "; every triple of CG preconditioners; singular systems"));
}
} // namespace
int main(int argc, char **argv) {
    return mc::run(argc, argv, [] { if (SHARD == 0) small_matrices(); else histories(SHARD == 2); });
}
