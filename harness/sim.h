// Small mechanical components (force field, mass, fixed points, linear mapping) to put the solvers of SofaCaribou in a graph.
// Each of them is a table of numbers, so that a dense reference of the system is written down directly.
#pragma once
#include "mc.h"
#include <Eigen/Dense>
#include <minisofa.h>
namespace sim {
using sofa::core::MechanicalParams;
using sofa::core::objectmodel::SPtr_;
using sofa::simulation::Node;
template <class T> using Data = sofa::core::objectmodel::Data<T>;
using Vec = Eigen::VectorXd;
using Mat = Eigen::MatrixXd;
// u = x_i - x_j - l (x_j absent when j < 0): energy 1/2 a u^2 + 1/4 c u^4.  s: not symmetric, f_i += s x_j.  d: f_i -= d v_i.  g: f_i += g
struct Term { int i = 0, j = -1; double a = 0, c = 0, l = 0, s = 0, d = 0, g = 0; };
using Terms = std::vector<Term>;
template <class R> R dof(const R &v, std::size_t i) { return v[i]; }
template <class V> double at(const V &v, int i) { constexpr int N = std::decay_t<decltype(v[0])>::size(); return v[i / N][i % N]; }
template <class V> double &at(V &v, int i) { constexpr int N = std::decay_t<decltype(v[0])>::size(); return v[i / N][i % N]; }
inline void force(const Terms &t, const Vec &x, const Vec &v, Vec &f) {
    for (auto &e : t) {
        const double u = x[e.i] - (e.j >= 0 ? x[e.j] : 0) - e.l, p = e.a * u + e.c * u * u * u;
        f[e.i] -= p; if (e.j >= 0) { f[e.j] += p; f[e.i] += e.s * x[e.j]; }
        f[e.i] += e.g - e.d * v[e.i];
    }
}
inline void tangent(const Terms &t, const Vec &x, double fac, Mat &k) { // += fac dF/dx
    for (auto &e : t) {
        const double u = x[e.i] - (e.j >= 0 ? x[e.j] : 0) - e.l, p = fac * (e.a + 3 * e.c * u * u);
        k(e.i, e.i) -= p; if (e.j >= 0) { k(e.j, e.j) -= p; k(e.i, e.j) += p + fac * e.s; k(e.j, e.i) += p; }
    }
}
inline void damping(const Terms &t, double fac, Mat &k) { for (auto &e : t) k(e.i, e.i) -= fac * e.d; }
template <class V> Vec flat(const V &v) { constexpr int N = std::decay_t<decltype(v[0])>::size(); Vec r(N * v.size()); for (int i = 0; i < r.size(); ++i) r[i] = v[i / N][i % N]; return r; }
template <class V> V pack(const Vec &x) { constexpr int N = std::decay_t<decltype(std::declval<V>()[0])>::size(); V r(x.size() / N); for (int i = 0; i < x.size(); ++i) r[i / N][i % N] = x[i]; return r; }
template <class V> void addto(Data<V> &d, const Vec &x) { V v = d.getValue(); constexpr int N = std::decay_t<decltype(v[0])>::size(); for (int i = 0; i < x.size(); ++i) v[i / N][i % N] += x[i]; d.setValue(v); }
inline void scatter(sofa::defaulttype::BaseMatrix *m, const Mat &k, unsigned off) { for (int i = 0; i < k.rows(); ++i) for (int j = 0; j < k.cols(); ++j) if (k(i, j) != 0) m->add(off + i, off + j, k(i, j)); }

template <class DT> struct State : sofa::core::behavior::MechanicalState<DT> {
    using VC = typename DT::VecCoord; using VD = typename DT::VecDeriv;
    void set(const Vec &x, const Vec &v) {
        this->x_.setValue(pack<VC>(x)); this->x0_.setValue(pack<VC>(x)); this->xfree_.setValue(pack<VC>(x));
        this->v_.setValue(pack<VD>(v)); Vec z = Vec::Zero(x.size()); for (auto *d : {&this->f_, &this->dx_, &this->vfree_}) d->setValue(pack<VD>(z));
    }
};
template <class DT> struct Force : sofa::core::behavior::ForceField<DT> {
    using B = sofa::core::behavior::ForceField<DT>; using typename B::DataVecCoord; using typename B::DataVecDeriv;
    using B::addForce; using B::addDForce; using B::addKToMatrix; using B::addBToMatrix; using B::getPotentialEnergy;
    Terms t;
    bool apart = false; // damping only through the B matrix, with a plus sign (the convention of BackwardEulerODESolver)
    Vec x() const { return flat(this->mstate->x_.getValue()); }
    void addForce(const MechanicalParams *, DataVecDeriv &f, const DataVecCoord &x, const DataVecDeriv &v) override { Vec r = Vec::Zero(flat(x.getValue()).size()); const Vec vel = flat(v.getValue()); force(t, flat(x.getValue()), apart ? Vec(Vec::Zero(vel.size())) : vel, r); addto(f, r); }
    void addDForce(const MechanicalParams *mp, DataVecDeriv &df, const DataVecDeriv &dx) override {
        const Vec q = x(); Mat k = Mat::Zero(q.size(), q.size());
        tangent(t, q, mp->kFactorIncludingRayleighDamping(this->rayleighStiffness.getValue()), k); damping(t, apart ? -mp->bFactor() : mp->bFactor(), k);
        addto(df, k * flat(dx.getValue()));
    }
    void addKToMatrix(sofa::defaulttype::BaseMatrix *m, SReal fac, unsigned &off) override { const Vec q = x(); Mat k = Mat::Zero(q.size(), q.size()); tangent(t, q, fac, k); scatter(m, k, off); }
    void addBToMatrix(sofa::defaulttype::BaseMatrix *m, SReal fac, unsigned &off) override { const Vec q = x(); Mat k = Mat::Zero(q.size(), q.size()); damping(t, apart ? -fac : fac, k); scatter(m, k, off); }
    SReal getPotentialEnergy(const MechanicalParams *, const DataVecCoord &) const override { return 0; }
};
template <class DT> struct Mass : sofa::core::behavior::Mass<DT> {
    using B = sofa::core::behavior::Mass<DT>; using typename B::DataVecCoord; using typename B::DataVecDeriv;
    Mat m;
    void addMDx(const MechanicalParams *, DataVecDeriv &f, const DataVecDeriv &dx, SReal fac) override { addto(f, fac * (m * flat(dx.getValue()))); }
    void addMToMatrix(sofa::defaulttype::BaseMatrix *a, SReal fac, unsigned &off) override { scatter(a, fac * m, off); }
};
template <class DT> struct Fixed : sofa::core::behavior::BaseProjectiveConstraintSet {
    State<DT> *s = nullptr; std::set<int> dofs;
    void projectResponse(const MechanicalParams *, sofa::core::MultiVecDerivId r) override { auto &d = *s->write(r.getId(s)); auto v = d.getValue(); for (int i : dofs) at(v, i) = 0; d.setValue(v); }
    void applyConstraint(const MechanicalParams *, const sofa::core::behavior::MultiMatrixAccessor *a) override {
        if (auto r = a->getMatrix(s)) for (int i : dofs) { r.matrix->clearRowCol(r.offset + i); r.matrix->set(r.offset + i, r.offset + i, 1.0); }
    }
};
template <class DT> struct Map : sofa::core::Mapping<DT, DT> {
    using B = sofa::core::Mapping<DT, DT>;
    using B::apply; using B::applyJ; using B::applyJT;
    Mat j; Vec o; // child = j parent + o
    void apply(const MechanicalParams *, typename B::OutDataVecCoord &out, const typename B::InDataVecCoord &in) override { out.setValue(pack<typename DT::VecCoord>(j * flat(in.getValue()) + o)); }
    void applyJ(const MechanicalParams *, typename B::OutDataVecDeriv &out, const typename B::InDataVecDeriv &in) override { out.setValue(pack<typename DT::VecDeriv>(j * flat(in.getValue()))); }
    void applyJT(const MechanicalParams *, typename B::InDataVecDeriv &in, const typename B::OutDataVecDeriv &out) override { addto(in, j.transpose() * flat(out.getValue())); }
    std::vector<std::vector<SReal>> denseJ() override { std::vector<std::vector<SReal>> r(j.rows(), std::vector<SReal>(j.cols())); for (int a = 0; a < j.rows(); ++a) for (int b = 0; b < j.cols(); ++b) r[a][b] = j(a, b); return r; }
};
// One body: a state with its forces, mass, fixed dofs and (optionally) a mapped child carrying forces
struct Body {
    int n = 2; Terms terms; Mat mass; std::set<int> fixed; Terms child; Mat J; Vec off; Vec x0, v0;
    double rayleighK = 0;
};
using DT1 = sofa::defaulttype::Vec1Types; using DT3 = sofa::defaulttype::Vec3Types;
template <class DT> struct BodyNode {
    SPtr_<Node> node{new Node()}, sub{new Node()};
    SPtr_<State<DT>> mo{new State<DT>()}, cmo{new State<DT>()};
    SPtr_<Force<DT>> ff{new Force<DT>()}, cff{new Force<DT>()};
    SPtr_<Mass<DT>> mass{new Mass<DT>()};
    SPtr_<Fixed<DT>> fixed{new Fixed<DT>()};
    SPtr_<Map<DT>> map{new Map<DT>()};
    bool has_child = false;
    explicit BodyNode(bool child) : has_child(child) {
        node->addObject(mo); node->addObject(mass); node->addObject(ff); node->addObject(fixed);
        ff->mstate.set(mo.get()); mass->mstate.set(mo.get()); fixed->s = mo.get();
        if (child) { node->addChild(sub); sub->addObject(cmo); sub->addObject(map); sub->addObject(cff); cff->mstate.set(cmo.get()); map->from_ = mo.get(); map->to_ = cmo.get(); }
    }
    void set(const Body &b, bool keep_state = false) {
        ff->t = b.terms; ff->rayleighStiffness.setValue(b.rayleighK); mass->m = b.mass; fixed->dofs = b.fixed;
        if (!keep_state) mo->set(b.x0, b.v0);
        if (has_child) { map->j = b.J; map->o = b.off; cff->t = b.child; const Vec x = flat(mo->x_.getValue()), v = flat(mo->v_.getValue()); cmo->set(b.J * x + b.off, b.J * v); }
    }
};
// dense reference of one body
inline Mat system(const Body &b, const Vec &x, double m, double bf, double k, bool constrained = true) {
    Mat A = Mat::Zero(b.n, b.n);
    A += m * b.mass; tangent(b.terms, x, k + bf * b.rayleighK, A); damping(b.terms, bf, A);
    if (constrained) for (int i : b.fixed) { A.row(i).setZero(); A.col(i).setZero(); A(i, i) = 1; }
    if (b.J.rows()) { Mat c = Mat::Zero(b.J.rows(), b.J.rows()); tangent(b.child, b.J * x + b.off, k, c); damping(b.child, bf, c); A += b.J.transpose() * c * b.J; }
    return A;
}
inline Vec forces(const Body &b, const Vec &x, const Vec &v) {
    Vec f = Vec::Zero(b.n); force(b.terms, x, v, f);
    if (b.J.rows()) { Vec c = Vec::Zero(b.J.rows()); force(b.child, b.J * x + b.off, b.J * v, c); f += b.J.transpose() * c; }
    return f;
}
} // namespace sim
