// C21: the matrix and vector adaptors handed to the simulation framework behave like dense matrices and vectors under every
// history of operations, however the content is stored; the dot product is the dot product for every pair of vector kinds.
#include "eigen_checks.h"
#include "minisofa.h"
#include "mc.h"
#include <SofaCaribou/Algebra/EigenMatrix.h>
#include <SofaCaribou/Algebra/EigenVector.h>
#include <SofaCaribou/Algebra/BaseVectorOperations.h>
#include <memory>
using SofaCaribou::Algebra::EigenMatrix;
using SofaCaribou::Algebra::EigenVector;
using Dense = Eigen::MatrixXd;

enum Kind { ADD, SET, B3D, B3F, B2D, B2F, ROW, ROWS, COL, COLS, ROWCOL, COMPRESS, CLEAR, RESIZE, ADDS, SETS };
struct Op { Kind k; int i, j; double v; };
static const char *names[] = {"add", "set", "add3x3d", "add3x3f", "add2x2d", "add2x2f", "clearRow", "clearRows", "clearCol", "clearCols", "clearRowCol", "compress", "clear", "resize", "addsym", "setsym"};
static std::string show(const Op &o) { return mc::str(names[o.k], "(", o.i, ",", o.j, ",", o.v, ")"); }
static std::string show(const std::vector<Op> &h) { std::string s; for (auto &o : h) s += show(o) + " "; return s; }

template <class M> M block(double v, bool sym) { M m; for (unsigned a = 0; a < unsigned(M::nbLines); ++a) for (unsigned b = 0; b < unsigned(M::nbCols); ++b) m[a][b] = typename M::Real(sym ? v + 4 * double(a * b) + double(a + b) : v + 4 * double(a) + double(b)); return m; }

static bool valid(const Op &o, const Dense &r) {
    const int R = int(r.rows()), C = int(r.cols());
    switch (o.k) {
    case ADD: case SET: return o.i < R && o.j < C;
    case ADDS: case SETS: return o.i < R && o.j < C && o.j < R && o.i < C;
    case B3D: case B3F: return o.i + 3 <= R && o.j + 3 <= C;
    case B2D: case B2F: return o.i + 2 <= R && o.j + 2 <= C;
    case ROW: return o.i < R;
    case ROWS: return o.j < R;
    case COL: return o.i < C;
    case COLS: return o.j < C;
    case ROWCOL: return o.i < R && o.i < C;
    default: return true;
    }
}
static void model(const Op &o, Dense &r, bool sym) {
    auto blk = [&](int n) { for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) r(o.i + a, o.j + b) += sym ? o.v + 4 * a * b + a + b : o.v + 4 * a + b; };
    switch (o.k) {
    case ADD: r(o.i, o.j) += o.v; break;
    case SET: r(o.i, o.j) = o.v; break;
    case ADDS: r(o.i, o.j) += o.v; if (o.i != o.j) r(o.j, o.i) += o.v; break;
    case SETS: r(o.i, o.j) = o.v; r(o.j, o.i) = o.v; break;
    case B3D: case B3F: blk(3); break;
    case B2D: case B2F: blk(2); break;
    case ROW: r.row(o.i).setZero(); break;
    case ROWS: for (int a = o.i; a <= o.j; ++a) r.row(a).setZero(); break;
    case COL: r.col(o.i).setZero(); break;
    case COLS: for (int a = o.i; a <= o.j; ++a) r.col(a).setZero(); break;
    case ROWCOL: r.row(o.i).setZero(); r.col(o.i).setZero(); break;
    case COMPRESS: break;
    case CLEAR: r.setZero(); break;
    case RESIZE: r = Dense::Zero(o.i, o.j); break;
    }
}
static void apply(const Op &o, sofa::defaulttype::BaseMatrix &m, bool sym) {
    switch (o.k) {
    case ADD: m.add(o.i, o.j, o.v); break;
    case SET: m.set(o.i, o.j, o.v); break;
    case ADDS: m.add(o.i, o.j, o.v); if (o.i != o.j) m.add(o.j, o.i, o.v); break;
    case SETS: m.set(o.i, o.j, o.v); m.set(o.j, o.i, o.v); break;
    case B3D: m.add(o.i, o.j, block<sofa::type::Mat3x3d>(o.v, sym)); break;
    case B3F: m.add(o.i, o.j, block<sofa::type::Mat3x3f>(o.v, sym)); break;
    case B2D: m.add(o.i, o.j, block<sofa::type::Mat2x2d>(o.v, sym)); break;
    case B2F: m.add(o.i, o.j, block<sofa::type::Mat2x2f>(o.v, sym)); break;
    case ROW: m.clearRow(o.i); break;
    case ROWS: m.clearRows(o.i, o.j); break;
    case COL: m.clearCol(o.i); break;
    case COLS: m.clearCols(o.i, o.j); break;
    case ROWCOL: m.clearRowCol(o.i); break;
    case COMPRESS: m.compress(); break;
    case CLEAR: m.clear(); break;
    case RESIZE: m.resize(o.i, o.j); break;
    }
}
static double at(const Dense &m, int i, int j) { return m(i, j); }
template <class S, int O> double at(const Eigen::Matrix<S, -1, -1, O> &m, int i, int j) { return m(i, j); }
template <class S, int O> double at(const Eigen::SparseMatrix<S, O> &m, int i, int j) { return m.coeff(i, j); }
template <class E> struct IsSparse : std::false_type {};
template <class S, int O> struct IsSparse<Eigen::SparseMatrix<S, O>> : std::true_type {};

// start: 0 new R x C object; 1 wrapper around an empty/zero external matrix; 2 around a populated one (compressed);
// 3 around a populated one (not compressed, sparse only)
template <class E> void populate(E &m, Dense &r, int start, bool sym) {
    const int R = int(r.rows()), C = int(r.cols());
    if constexpr (!IsSparse<E>::value) m.setZero();
    if (start < 2) return;
    for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) {
        if ((i + j) % 3 == 1 && !(i == j)) continue; // structural zero, symmetric pattern
        double v = sym ? 50 + 3 * (i + j) + i * j : 50 + 7 * i + j;
        r(i, j) = v;
        if constexpr (IsSparse<E>::value) m.coeffRef(i, j) = typename E::Scalar(v); else m(i, j) = typename E::Scalar(v);
    }
    if constexpr (IsSparse<E>::value) if (start == 2) m.makeCompressed();
}
template <class D> void compare(const char *cfg, const EigenMatrix<D> &w, const std::remove_reference_t<D> *ext, const Dense &r, const Dense &ext0, const std::vector<Op> &h, int start) {
    using E = std::remove_reference_t<D>;
    bool ok = w.rowSize() == r.rows() && w.colSize() == r.cols() && w.matrix().rows() == r.rows() && w.matrix().cols() == r.cols();
    if (!mc::check(ok, "dimensions", cfg, "history: ", show(h), " start ", start, " gives ", w.rowSize(), "x", w.colSize(), " expected ", r.rows(), "x", r.cols())) return;
    bool same = true, same_m = true;
    for (int i = 0; i < r.rows(); ++i) for (int j = 0; j < r.cols(); ++j) {
        if (!(w.element(i, j) == r(i, j))) same = false;
        if (!(at(w.matrix(), i, j) == r(i, j))) same_m = false;
    }
    if (!same || !same_m) {
        Dense g(r.rows(), r.cols());
        for (int i = 0; i < r.rows(); ++i) for (int j = 0; j < r.cols(); ++j) g(i, j) = w.element(i, j);
        mc::check(false, "content", cfg, "history: ", show(h), "(start state ", start, ") gives ", mc::show(g), " expected ", mc::show(r));
    } else mc::check(true, "content", cfg);
    if constexpr (IsSparse<E>::value) {
        mc::check(w.matrix().isCompressed(), "compressed", cfg, "history: ", show(h), " not compressed after compress()");
        Dense s = Dense::Zero(r.rows(), r.cols());
        for (int k = 0; k < w.matrix().outerSize(); ++k) for (typename E::InnerIterator it(w.matrix(), k); it; ++it) s(it.row(), it.col()) += it.value();
        mc::check(mc::maxdiff(s, r) == 0, "iteration", cfg, "history: ", show(h), " non-zeros give ", mc::show(s), " expected ", mc::show(r));
    }
    if (ext) {
        const Dense &want = std::is_reference_v<D> ? r : ext0;
        bool e = ext->rows() == want.rows() && ext->cols() == want.cols();
        if (e) for (int i = 0; i < want.rows(); ++i) for (int j = 0; j < want.cols(); ++j) if (!(at(*ext, i, j) == want(i, j))) e = false;
        mc::check(e, std::is_reference_v<D> ? "external-follows" : "external-untouched", cfg, "history: ", show(h), " start ", start);
    }
}
template <class D> void history(const char *cfg, int R, int C, int start, const std::vector<Op> &h, bool sym) {
    using E = std::remove_reference_t<D>;
    Dense r = Dense::Zero(R, C);
    E ext(R, C);
    populate(ext, r, start, sym);
    Dense ext0 = r;
    std::unique_ptr<EigenMatrix<D>> w;
    if (start == 0) {
        if constexpr (!std::is_reference_v<D>) {
            w.reset(new EigenMatrix<D>(Eigen::Index(R), Eigen::Index(C)));
            if constexpr (!IsSparse<E>::value) w->clear(); // new dense storage is not initialised
        }
    } else w.reset(new EigenMatrix<D>(ext));
    if constexpr (IsSparse<E>::value) w->set_symmetric(sym);
    for (auto &o : h) { apply(o, *w, sym); model(o, r, sym); }
    mc::step(h.size());
    w->compress();
    compare<D>(cfg, *w, start ? &ext : nullptr, r, ext0, h, start);
    mc::trace();
}
template <class F> void histories(const std::vector<Op> &ops, int R, int C, int depth, std::vector<Op> &h, const Dense &shape, F &&f, int part, int parts) {
    f(h);
    if (int(h.size()) == depth) return;
    for (size_t a = 0; a < ops.size(); ++a) {
        if (h.empty() && int(a % parts) != part) continue;
        if (!valid(ops[a], shape)) continue;
        h.push_back(ops[a]);
        Dense s = ops[a].k == RESIZE ? Dense::Zero(ops[a].i, ops[a].j) : shape;
        histories(ops, R, C, depth, h, s, f, part, parts);
        h.pop_back();
    }
}
static std::vector<Op> alphabet(int R, int C, int level) {
    std::vector<Op> a;
    for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) if (level == 2 || (i + 2 * j) % (level == 1 ? 2 : 3) == 0) a.push_back({ADD, i, j, double(1 + 3 * i + j)});
    for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) if (level == 2 || (i + j) % (level == 1 ? 2 : 3) == 1) a.push_back({SET, i, j, double(100 + 3 * i + j)});
    a.push_back({B3D, 0, 0, 10}); if (level) { a.push_back({B3F, R - 3, C - 3, 20}); a.push_back({B2D, 0, 1, 30}); }
    a.push_back({B2F, 1, 0, 40});
    for (int i = 0; i < R; ++i) if (level || i != 1) a.push_back({ROW, i, 0, 0});
    for (int i = 0; i < C; ++i) if (level || i != 1) a.push_back({COL, i, 0, 0});
    for (int i = 0; i < R; ++i) for (int j = i; j < R; ++j) if (level == 2 || (level == 1 ? j > i : j == i + 1)) a.push_back({ROWS, i, j, 0});
    for (int i = 0; i < C; ++i) for (int j = i; j < C; ++j) if (level == 2 || (level == 1 ? j > i : j == i + 1)) a.push_back({COLS, i, j, 0});
    for (int i = 0; i < std::min(R, C); ++i) a.push_back({ROWCOL, i, 0, 0});
    a.push_back({COMPRESS, 0, 0, 0}); a.push_back({CLEAR, 0, 0, 0});
    if (level) a.push_back({RESIZE, R, C, 0});
    a.push_back({RESIZE, 3, 4, 0});
    return a;
}
static std::vector<Op> alphabet_sym(int N) {
    std::vector<Op> a;
    for (int i = 0; i < N; ++i) for (int j = i; j < N; ++j) { a.push_back({ADDS, i, j, double(1 + 3 * i + j)}); if ((i + j) % 2) a.push_back({SETS, i, j, double(100 + 3 * i + j)}); }
    a.push_back({B3D, 0, 0, 10}); a.push_back({B2F, N - 2, N - 2, 40});
    for (int i = 0; i < N; ++i) a.push_back({ROWCOL, i, 0, 0});
    a.push_back({COMPRESS, 0, 0, 0}); a.push_back({CLEAR, 0, 0, 0});
    return a;
}
template <class D> void explore(const char *cfg, int part, int parts) {
    using E = std::remove_reference_t<D>;
    const int last = IsSparse<E>::value ? 3 : 2;
    struct Conf { int R, C, level, depth; };
    std::vector<Conf> confs = {{3, 3, 2, 2}, {3, 3, 1, 3}, {3, 4, 1, 2}, {4, 3, 1, 2}, {4, 3, 0, 3}};
    if (mc::thorough()) confs = {{3, 3, 2, 3}, {4, 3, 2, 3}, {3, 4, 1, 3}, {4, 4, 1, 3}, {3, 3, 0, 4}};
    for (auto &c : confs) {
        auto ops = alphabet(c.R, c.C, c.level);
        mc::bound(mc::str(cfg, " ", c.R, "x", c.C, " level ", c.level), mc::str(ops.size(), " operations, all sequences up to length ", c.depth));
        for (int start = std::is_reference_v<D> ? 1 : 0; start <= last; ++start) {
            std::vector<Op> h;
            mc::crumb(mc::str(cfg, " ", c.R, "x", c.C, " start ", start));
            histories(ops, c.R, c.C, c.depth, h, Dense::Zero(c.R, c.C), [&](const std::vector<Op> &hh) {
                if (hh.size() <= 2) mc::crumb(mc::str(cfg, " ", c.R, "x", c.C, " start ", start, " history (prefix) ", show(hh)));
                history<D>(cfg, c.R, c.C, start, hh, false);
                mc::state();
            }, part, parts);
        }
    }
    if constexpr (IsSparse<E>::value) {
        for (int N : {3, 4}) {
            auto ops = alphabet_sym(N);
            for (int start = std::is_reference_v<D> ? 1 : 0; start <= last; ++start) {
                std::vector<Op> h;
                histories(ops, N, N, mc::thorough() ? 4 : 3, h, Dense::Zero(N, N), [&](const std::vector<Op> &hh) {
                    if (hh.size() <= 2) mc::crumb(mc::str(cfg, " symmetric ", N, " start ", start, " history (prefix) ", show(hh)));
                    history<D>(cfg, N, N, start, hh, true);
                    mc::state();
                }, part, parts);
            }
        }
    }
}

// ---- vectors
struct VOp { int k, i; double v; };
template <class D> void vector_histories(const char *cfg) {
    using E = std::remove_reference_t<D>;
    std::vector<VOp> ops;
    for (int i = 0; i < 3; ++i) { ops.push_back({0, i, double(2 + i)}); ops.push_back({1, i, double(20 + i)}); }
    ops.push_back({2, 0, 0}); ops.push_back({3, 3, 0}); ops.push_back({3, 2, 0}); ops.push_back({3, 5, 0});
    const int depth = mc::thorough() ? 5 : 4;
    for (int start = std::is_reference_v<D> ? 1 : 0; start < 2; ++start)
    for (int d = 0; d <= depth; ++d) mc::product(std::vector<int>(d, int(ops.size())), [&](const std::vector<int> &idx) {
        E ext(3); ext << 7, 8, 9;
        std::vector<double> r = {7, 8, 9};
        std::unique_ptr<EigenVector<D>> w;
        if (start == 0) { if constexpr (!std::is_reference_v<D>) { w.reset(new EigenVector<D>(Eigen::Index(3))); w->clear(); r = {0, 0, 0}; } }
        else w.reset(new EigenVector<D>(ext));
        for (int a : idx) { auto &o = ops[a]; if ((o.k < 2) && o.i >= int(r.size())) return; 
            if (o.k == 0) { w->add(o.i, o.v); r[o.i] += o.v; } if (o.k == 1) { w->set(o.i, o.v); r[o.i] = o.v; }
            if (o.k == 2) { w->clear(); for (auto &x : r) x = 0; } if (o.k == 3) { w->resize(o.i); r.assign(o.i, 0.); } }
        mc::step(idx.size()); mc::state(); mc::trace();
        bool ok = w->size() == int(r.size()) && w->vector().size() == int(r.size());
        if (ok) for (int i = 0; i < int(r.size()); ++i) if (!(w->element(i) == r[i]) || !(w->vector()[i] == r[i])) ok = false;
        std::string hs; for (int a : idx) hs += mc::str(ops[a].k == 0 ? "add" : ops[a].k == 1 ? "set" : ops[a].k == 2 ? "clear" : "resize", "(", ops[a].i, ",", ops[a].v, ") ");
        mc::check(ok, "vector-content", cfg, hs);
        if (start == 1) {
            bool e;
            if (std::is_reference_v<D>) { e = ext.size() == int(r.size()); if (e) for (int i = 0; i < int(r.size()); ++i) if (!(ext[i] == r[i])) e = false; }
            else e = ext.size() == 3 && ext[0] == 7 && ext[1] == 8 && ext[2] == 9;
            mc::check(e, "vector-external", cfg, hs);
        }
        mc::check(w->getElementSize() == sizeof(typename E::Scalar), "vector-type", cfg);
        mc::check(w->getElementType() == (std::is_integral_v<typename E::Scalar> ? sofa::defaulttype::BaseVector::ELEMENT_INT : sofa::defaulttype::BaseVector::ELEMENT_FLOAT), "vector-type", cfg);
    });
}
static void dots() {
    using B = sofa::defaulttype::BaseVector;
    using FD = sofa::component::linearsolver::FullVector<double>;
    using FF = sofa::component::linearsolver::FullVector<float>;
    auto mk = [](int kind, int n) -> std::unique_ptr<B> {
        switch (kind) {
        case 0: return std::unique_ptr<B>(new FD(n));
        case 1: return std::unique_ptr<B>(new FF(n));
        case 2: return std::unique_ptr<B>(new EigenVector<Eigen::VectorXd>(Eigen::Index(n)));
        case 3: return std::unique_ptr<B>(new EigenVector<Eigen::VectorXf>(Eigen::Index(n)));
        default: return std::unique_ptr<B>(new EigenVector<Eigen::VectorXi>(Eigen::Index(n)));
        }
    };
    for (int k1 = 0; k1 < 5; ++k1) for (int k2 = 0; k2 < 5; ++k2) for (int n = 0; n <= 4; ++n) {
        mc::crumb(mc::str("dot kinds ", k1, " ", k2, " size ", n));
        // all pairs of basis vectors (bilinearity) plus all vectors over {-1,0,2}
        auto a = mk(k1, n), b = mk(k2, n);
        std::vector<int> rad(2 * n, 3);
        if (n == 4 && !mc::thorough()) rad.assign(2 * n, 2);
        mc::product(rad, [&](const std::vector<int> &d) {
            static const double val[] = {-1, 2, 0};
            double want = 0;
            for (int i = 0; i < n; ++i) { a->set(i, val[d[i]]); b->set(i, val[d[n + i]] * (i + 1)); want += val[d[i]] * val[d[n + i]] * (i + 1); }
            double got = SofaCaribou::Algebra::dot(a.get(), b.get());
            mc::step(); mc::state();
            mc::check(got == want, "dot", mc::str(k1, "-", k2), "size ", n, " gives ", got, " expected ", want);
        });
        // self product
        double s = SofaCaribou::Algebra::dot(a.get(), a.get()), w = 0;
        for (int i = 0; i < n; ++i) w += a->element(i) * a->element(i);
        mc::check(s == w, "dot-self", mc::str(k1));
        // precision: a product only representable in double must not be rounded when both operands are double
        if ((k1 == 0 || k1 == 2) && (k2 == 0 || k2 == 2) && n) {
            for (int i = 0; i < n; ++i) { a->set(i, 0); b->set(i, 0); }
            a->set(0, 1 + 1e-9); b->set(0, 1);
            mc::check(SofaCaribou::Algebra::dot(a.get(), b.get()) == 1 + 1e-9, "dot-precision", mc::str(k1, "-", k2));
        }
    }
}
int main(int argc, char **argv) {
    return mc::run(argc, argv, [] {
        const int part = getenv("MC_PART") ? atoi(getenv("MC_PART")) : 0, parts = getenv("MC_PARTS") ? atoi(getenv("MC_PARTS")) : 1;
        using namespace Eigen;
        explore<SparseMatrix<double, RowMajor>>("sparse-row-double", part, parts);
        explore<SparseMatrix<double, RowMajor> &>("sparse-row-double-ref", part, parts);
        explore<SparseMatrix<double, ColMajor>>("sparse-col-double", part, parts);
        explore<SparseMatrix<double, ColMajor> &>("sparse-col-double-ref", part, parts);
        explore<SparseMatrix<float, RowMajor>>("sparse-row-float", part, parts);
        explore<SparseMatrix<float, ColMajor> &>("sparse-col-float-ref", part, parts);
        explore<Matrix<double, Dynamic, Dynamic>>("dense-col-double", part, parts);
        explore<Matrix<double, Dynamic, Dynamic, RowMajor> &>("dense-row-double-ref", part, parts);
        explore<Matrix<float, Dynamic, Dynamic>>("dense-col-float", part, parts);
        if (part == 0) {
            vector_histories<VectorXd>("vector-double");
            vector_histories<VectorXd &>("vector-double-ref");
            vector_histories<VectorXf>("vector-float");
            vector_histories<VectorXi &>("vector-int-ref");
            dots();
        }
    });
}
