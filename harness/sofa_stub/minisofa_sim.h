// The mechanical part of the miniature SOFA: visitors over a tree of nodes, vector and matrix operations, solvers' interfaces.
// Traversal order and meaning of each operation are those of SOFA 21.12 (sofa/simulation/*Visitor, MechanicalOperations,
// VectorOperations, SofaBaseLinearSolver/DefaultMultiMatrixAccessor).
#pragma once
namespace sofa {
namespace core::behavior {
class OdeSolver : public virtual objectmodel::BaseObject {
public:
    SOFA_CLASS(OdeSolver, objectmodel::BaseObject);
    virtual void solve(const ExecParams *, SReal dt, MultiVecCoordId, MultiVecDerivId) = 0;
    virtual double getVelocityIntegrationFactor() const { return 0; }
    virtual double getPositionIntegrationFactor() const { return 0; }
    virtual double getIntegrationFactor(int, int) const { return 0; }
    virtual double getSolutionIntegrationFactor(int) const { return 0; }
    SReal getTime() const { return getContext() ? getContext()->getTime() : 0; }
};
class LinearSolver : public virtual objectmodel::BaseObject {
public:
    SOFA_CLASS(LinearSolver, objectmodel::BaseObject);
    virtual void resetSystem() = 0;
    virtual void setSystemMBKMatrix(const MechanicalParams *) = 0;
    virtual void setSystemRHVector(MultiVecDerivId) = 0;
    virtual void setSystemLHVector(MultiVecDerivId) = 0;
    virtual void solveSystem() = 0;
};
using BaseLinearSolver = LinearSolver;
class ConstraintSolver : public virtual objectmodel::BaseObject {
public:
    SOFA_CLASS(ConstraintSolver, objectmodel::BaseObject);
    virtual void solveConstraint(const ConstraintParams *, MultiVecId, MultiVecId = MultiVecId()) = 0;
};
class BaseMass : public virtual objectmodel::BaseObject {};
template <class DT> class Mass : public ForceField<DT>, public BaseMass {
public:
    using Base = ForceField<DT>;
    using typename Base::DataVecCoord; using typename Base::DataVecDeriv;
    virtual void addMDx(const MechanicalParams *, DataVecDeriv &, const DataVecDeriv &, SReal factor) = 0;
    virtual void addMToMatrix(linearalgebra::BaseMatrix *, SReal, unsigned &) = 0;
    void addForce(const MechanicalParams *, DataVecDeriv &, const DataVecCoord &, const DataVecDeriv &) override {}
    void addDForce(const MechanicalParams *, DataVecDeriv &, const DataVecDeriv &) override {}
    SReal getPotentialEnergy(const MechanicalParams *, const DataVecCoord &) const override { return 0; }
    using Base::addForce; using Base::addDForce; using Base::getPotentialEnergy;
    void addMBKdx(const MechanicalParams *mp, MultiVecDerivId df) override {
        Base::addMBKdx(mp, df);
        if (mp->mFactor() != 0) addMDx(mp, *this->mstate->write(df.getId(0)), *this->mstate->read(mp->dx().getId(0)), mp->mFactor());
    }
    void addMBKToMatrix(const MechanicalParams *mp, const MultiMatrixAccessor *a) override {
        Base::addMBKToMatrix(mp, a);
        if (mp->mFactor() != 0) { auto r = a->getMatrix(this->mstate.get()); if (r) addMToMatrix(r.matrix, mp->mFactor(), r.offset); }
    }
};
} // namespace core::behavior

namespace simulation {
using namespace sofa::core;
class BaseMechanicalVisitor {
public:
    enum Result { RESULT_CONTINUE, RESULT_PRUNE };
    struct VisitorContext { Node *root = nullptr, *node = nullptr; };
    const ExecParams *params;
    explicit BaseMechanicalVisitor(const ExecParams *p) : params(p) {}
    virtual ~BaseMechanicalVisitor() = default;
    virtual const char *getClassName() const { return "visitor"; }
    virtual std::string getInfos() const { return ""; }
    virtual Result fwdMechanicalState(Node *, behavior::BaseMechanicalState *) { return RESULT_CONTINUE; }
    virtual Result fwdMechanicalState(VisitorContext *c, behavior::BaseMechanicalState *m) { return fwdMechanicalState(c->node, m); }
    virtual Result fwdMappedMechanicalState(Node *, behavior::BaseMechanicalState *) { return RESULT_CONTINUE; }
    virtual Result fwdMappedMechanicalState(VisitorContext *c, behavior::BaseMechanicalState *m) { return fwdMappedMechanicalState(c->node, m); }
    virtual Result fwdMechanicalMapping(Node *, BaseMapping *) { return RESULT_CONTINUE; }
    virtual Result fwdForceField(Node *, behavior::BaseForceField *) { return RESULT_CONTINUE; }
    virtual Result fwdProjectiveConstraintSet(Node *, behavior::BaseProjectiveConstraintSet *) { return RESULT_CONTINUE; }
    virtual void bwdMechanicalMapping(Node *, BaseMapping *) {}
    virtual void bwdMechanicalState(Node *, behavior::BaseMechanicalState *) {}
    virtual void bwdProjectiveConstraintSet(Node *, behavior::BaseProjectiveConstraintSet *) {}
    virtual bool stopAtMechanicalMapping(Node *, BaseMapping *) { return false; }
    void execute(const objectmodel::BaseContext *c) {
        auto *n = dynamic_cast<Node *>(const_cast<objectmodel::BaseContext *>(c));
        if (!n) minisofa::die("visitor without node");
        VisitorContext v{n, n}; visit(n, v);
    }
private:
    template <class T> static std::vector<T *> all(Node *n) { return n->template getObjects<T>(objectmodel::BaseContext::Local); }
    void visit(Node *n, VisitorContext v) {
        v.node = n;
        auto states = all<behavior::BaseMechanicalState>(n);
        auto maps = all<BaseMapping>(n);
        auto *state = states.empty() ? nullptr : states[0];
        auto *map = maps.empty() ? nullptr : maps[0];
        bool prune = false;
        if (state) {
            if (map) {
                if (stopAtMechanicalMapping(n, map)) prune = true;
                else { prune = fwdMechanicalMapping(n, map) == RESULT_PRUNE; if (fwdMappedMechanicalState(&v, state) == RESULT_PRUNE) prune = true; }
            } else prune = fwdMechanicalState(&v, state) == RESULT_PRUNE;
        }
        if (!prune) for (auto *f : all<behavior::BaseForceField>(n)) fwdForceField(n, f);
        if (!prune) for (auto *c : all<behavior::BaseProjectiveConstraintSet>(n)) fwdProjectiveConstraintSet(n, c);
        if (!prune) for (auto &c : n->children) visit(c.get(), v);
        if (!(state && map && stopAtMechanicalMapping(n, map))) {
            for (auto *c : all<behavior::BaseProjectiveConstraintSet>(n)) bwdProjectiveConstraintSet(n, c);
            if (state && map) bwdMechanicalMapping(n, map);
            else if (state) bwdMechanicalState(n, state);
        }
    }
};
class MechanicalVisitor : public BaseMechanicalVisitor {
public:
    const MechanicalParams *mparams;
    explicit MechanicalVisitor(const MechanicalParams *m) : BaseMechanicalVisitor(m), mparams(m) {}
    using BaseMechanicalVisitor::fwdMechanicalState;
    using BaseMechanicalVisitor::fwdMappedMechanicalState;
};
namespace mechanicalvisitor {
struct MechanicalVOpVisitor : BaseMechanicalVisitor {
    MultiVecId v; ConstMultiVecId a, b; SReal f; bool mapped, only_mapped;
    MechanicalVOpVisitor(const ExecParams *p, MultiVecId v, ConstMultiVecId a = ConstMultiVecId(), ConstMultiVecId b = ConstMultiVecId(), SReal f = 1.0, bool mapped = false, bool only_mapped = false)
        : BaseMechanicalVisitor(p), v(v), a(a), b(b), f(f), mapped(mapped), only_mapped(only_mapped) {}
    bool stopAtMechanicalMapping(Node *, BaseMapping *m) override { return mapped || only_mapped ? false : !m->areForcesMapped(); }
    Result fwdMechanicalState(Node *, behavior::BaseMechanicalState *m) override { if (!only_mapped) m->vOp(v.id, a.id, b.id, f); return RESULT_CONTINUE; }
    Result fwdMappedMechanicalState(Node *, behavior::BaseMechanicalState *m) override { if (mapped || only_mapped) m->vOp(v.id, a.id, b.id, f); return RESULT_CONTINUE; }
};
struct VReallocVisitor_ : BaseMechanicalVisitor {
    MultiVecId v; bool propagate;
    VReallocVisitor_(const ExecParams *p, MultiVecId v, bool propagate) : BaseMechanicalVisitor(p), v(v), propagate(propagate) {}
    Result fwdMechanicalState(Node *, behavior::BaseMechanicalState *m) override { m->vRealloc(v.id); return RESULT_CONTINUE; }
    Result fwdMappedMechanicalState(Node *, behavior::BaseMechanicalState *m) override { if (propagate) m->vRealloc(v.id); return RESULT_CONTINUE; }
};
struct MechanicalVDotVisitor : BaseMechanicalVisitor {
    ConstMultiVecId a, b; SReal *r;
    MechanicalVDotVisitor(const ExecParams *p, ConstMultiVecId a, ConstMultiVecId b, SReal *r) : BaseMechanicalVisitor(p), a(a), b(b), r(r) {}
    Result fwdMechanicalState(Node *, behavior::BaseMechanicalState *m) override { *r += m->vDot(a.id, b.id); return RESULT_CONTINUE; }
};
struct MechanicalResetForceVisitor : BaseMechanicalVisitor {
    MultiVecDerivId f; bool only;
    MechanicalResetForceVisitor(const ExecParams *p, MultiVecDerivId f, bool onlyMapped = false) : BaseMechanicalVisitor(p), f(f), only(onlyMapped) {}
    Result fwdMechanicalState(Node *, behavior::BaseMechanicalState *m) override { if (!only) m->vOp(f.id); return RESULT_CONTINUE; }
    Result fwdMappedMechanicalState(Node *, behavior::BaseMechanicalState *m) override { m->vOp(f.id); return RESULT_CONTINUE; }
    bool stopAtMechanicalMapping(Node *, BaseMapping *m) override { return !m->areForcesMapped(); }
};
struct MechanicalComputeForceVisitor : MechanicalVisitor {
    MultiVecDerivId f; bool acc;
    MechanicalComputeForceVisitor(const MechanicalParams *p, MultiVecDerivId f, bool accumulate = true, bool = true) : MechanicalVisitor(p), f(f), acc(accumulate) {}
    Result fwdForceField(Node *, behavior::BaseForceField *ff) override { ff->addForce(mparams, f); return RESULT_CONTINUE; }
    void bwdMechanicalMapping(Node *, BaseMapping *m) override { if (acc) m->applyJT(mparams, f, f); }
    bool stopAtMechanicalMapping(Node *, BaseMapping *m) override { return !m->areForcesMapped(); }
};
struct MechanicalAddMBKdxVisitor : MechanicalVisitor {
    MultiVecDerivId f; bool acc;
    MechanicalAddMBKdxVisitor(const MechanicalParams *p, MultiVecDerivId f, bool accumulate = true) : MechanicalVisitor(p), f(f), acc(accumulate) {}
    Result fwdForceField(Node *, behavior::BaseForceField *ff) override { ff->addMBKdx(mparams, f); return RESULT_CONTINUE; }
    void bwdMechanicalMapping(Node *, BaseMapping *m) override { if (acc) m->applyJT(mparams, f, f); }
    bool stopAtMechanicalMapping(Node *, BaseMapping *m) override { return !m->areForcesMapped(); }
};
struct MechanicalApplyConstraintsVisitor : MechanicalVisitor {
    MultiVecDerivId r;
    MechanicalApplyConstraintsVisitor(const MechanicalParams *p, MultiVecDerivId r, void * = nullptr) : MechanicalVisitor(p), r(r) {}
    void bwdProjectiveConstraintSet(Node *, behavior::BaseProjectiveConstraintSet *c) override { c->projectResponse(mparams, r); }
    bool stopAtMechanicalMapping(Node *, BaseMapping *m) override { return !m->areForcesMapped(); }
};
struct MechanicalMultiVectorToBaseVectorVisitor : BaseMechanicalVisitor {
    ConstMultiVecId s; linearalgebra::BaseVector *d; const behavior::MultiMatrixAccessor *a;
    MechanicalMultiVectorToBaseVectorVisitor(const ExecParams *p, ConstMultiVecId s, linearalgebra::BaseVector *d, const behavior::MultiMatrixAccessor *a = nullptr) : BaseMechanicalVisitor(p), s(s), d(d), a(a) {}
    Result fwdMechanicalState(Node *, behavior::BaseMechanicalState *m) override { int o = a->getGlobalOffset(m); if (d && o >= 0) { unsigned u = o; m->copyToBaseVector(d, s.id, u); } return RESULT_CONTINUE; }
};
struct MechanicalMultiVectorFromBaseVectorVisitor : BaseMechanicalVisitor {
    MultiVecId d; const linearalgebra::BaseVector *s; const behavior::MultiMatrixAccessor *a;
    MechanicalMultiVectorFromBaseVectorVisitor(const ExecParams *p, MultiVecId d, const linearalgebra::BaseVector *s, const behavior::MultiMatrixAccessor *a = nullptr) : BaseMechanicalVisitor(p), d(d), s(s), a(a) {}
    Result fwdMechanicalState(Node *, behavior::BaseMechanicalState *m) override { int o = a->getGlobalOffset(m); if (s && o >= 0) { unsigned u = o; m->copyFromBaseVector(d.id, s, u); } return RESULT_CONTINUE; }
};
struct MechanicalPropagateOnlyPositionAndVelocityVisitor : MechanicalVisitor {
    MultiVecCoordId x; MultiVecDerivId v;
    MechanicalPropagateOnlyPositionAndVelocityVisitor(const MechanicalParams *p, SReal = 0, MultiVecCoordId x = VecCoordId::position(), MultiVecDerivId v = VecDerivId::velocity()) : MechanicalVisitor(p), x(x), v(v) {}
    Result fwdMechanicalMapping(Node *, BaseMapping *m) override { m->apply(mparams, x, x); m->applyJ(mparams, v, v); return RESULT_CONTINUE; }
};
struct MechanicalPropagateOnlyPositionVisitor : MechanicalVisitor {
    MultiVecCoordId x;
    MechanicalPropagateOnlyPositionVisitor(const MechanicalParams *p, SReal = 0, MultiVecCoordId x = VecCoordId::position()) : MechanicalVisitor(p), x(x) {}
    Result fwdMechanicalMapping(Node *, BaseMapping *m) override { m->apply(mparams, x, x); return RESULT_CONTINUE; }
};
struct MechanicalPropagateDxAndResetForceVisitor : MechanicalVisitor {
    MultiVecDerivId dx, f;
    MechanicalPropagateDxAndResetForceVisitor(const MechanicalParams *p, MultiVecDerivId dx, MultiVecDerivId f) : MechanicalVisitor(p), dx(dx), f(f) {}
    Result fwdMechanicalState(Node *, behavior::BaseMechanicalState *m) override { m->vOp(f.id); return RESULT_CONTINUE; }
    Result fwdMechanicalMapping(Node *, BaseMapping *m) override { m->applyJ(mparams, dx, dx); return RESULT_CONTINUE; }
    Result fwdMappedMechanicalState(Node *, behavior::BaseMechanicalState *m) override { m->vOp(f.id); return RESULT_CONTINUE; }
    bool stopAtMechanicalMapping(Node *, BaseMapping *m) override { return !m->areForcesMapped(); }
};
struct MechanicalPropagateDxVisitor : MechanicalVisitor {
    MultiVecDerivId dx; bool all;
    MechanicalPropagateDxVisitor(const MechanicalParams *p, MultiVecDerivId dx, bool ignoreFlag = false) : MechanicalVisitor(p), dx(dx), all(ignoreFlag) {}
    Result fwdMechanicalMapping(Node *, BaseMapping *m) override { m->applyJ(mparams, dx, dx); return RESULT_CONTINUE; }
    bool stopAtMechanicalMapping(Node *, BaseMapping *m) override { return all ? false : !m->areForcesMapped(); }
};
} // namespace mechanicalvisitor
using namespace mechanicalvisitor;
} // namespace simulation

namespace component::linearsolver {
class DefaultMultiMatrixAccessor : public core::behavior::MultiMatrixAccessor {
    struct DenseMatrix : linearalgebra::BaseMatrix {
        std::vector<std::vector<SReal>> m;
        DenseMatrix(Index r, Index c) { resize(r, c); }
        Index rowSize() const override { return Index(m.size()); }
        Index colSize() const override { return m.empty() ? 0 : Index(m[0].size()); }
        SReal element(Index i, Index j) const override { return m.at(i).at(j); }
        void resize(Index r, Index c) override { m.assign(r, std::vector<SReal>(c)); }
        void clear() override { for (auto &r : m) for (auto &e : r) e = 0; }
        void set(Index i, Index j, double v) override { m.at(i).at(j) = v; }
        void add(Index i, Index j, double v) override { m.at(i).at(j) += v; }
        using BaseMatrix::add;
        using BaseMatrix::clear;
    };
public:
    using BMS = core::behavior::BaseMechanicalState;
    std::vector<std::pair<const BMS *, unsigned>> top; // state, offset
    std::vector<core::BaseMapping *> mappings;         // top-down
    mutable std::map<const BMS *, std::shared_ptr<DenseMatrix>> mapped;
    linearalgebra::BaseMatrix *global = nullptr;
    Size dim = 0;
    void addMechanicalState(const BMS *s) { top.emplace_back(s, dim); dim += s->getMatrixSize(); }
    void addMechanicalMapping(core::BaseMapping *m) { mappings.push_back(m); }
    virtual void clear() { top.clear(); mappings.clear(); mapped.clear(); global = nullptr; dim = 0; }
    void setGlobalMatrix(linearalgebra::BaseMatrix *m, bool = false) { global = m; mapped.clear(); }
    void setupMatrices() {}
    Size getGlobalDimension() const override { return dim; }
    int getGlobalOffset(const BMS *s) const override { for (auto &t : top) if (t.first == s) return int(t.second); return -1; }
    MatrixRef getMatrix(const BMS *s) const override {
        for (auto &t : top) if (t.first == s) { MatrixRef r; r.matrix = global; r.offset = t.second; return r; }
        for (auto *m : mappings) if (m->mechTo() == s && m->areMatricesMapped()) {
            auto &p = mapped[s];
            if (!p) p = std::make_shared<DenseMatrix>(s->getMatrixSize(), s->getMatrixSize());
            MatrixRef r; r.matrix = p.get(); return r;
        }
        return {};
    }
    void computeGlobalMatrix() {
        for (auto it = mappings.rbegin(); it != mappings.rend(); ++it) {
            auto k = mapped.find((*it)->mechTo());
            if (k == mapped.end()) continue;
            auto J = (*it)->denseJ();
            auto &K = k->second->m;
            auto r = getMatrix((*it)->mechFrom());
            if (!r) minisofa::die("mapping without parent matrix");
            const std::size_t n = K.size(), p = n ? J.at(0).size() : 0;
            for (std::size_t i = 0; i < p; ++i) for (std::size_t j = 0; j < p; ++j) {
                SReal v = 0; for (std::size_t a = 0; a < n; ++a) for (std::size_t b = 0; b < n; ++b) v += J[a][i] * K[a][b] * J[b][j];
                if (v != 0) r.matrix->add(r.offset + i, r.offset + j, v);
            }
            K.assign(n, std::vector<SReal>(n));
        }
    }
};
} // namespace component::linearsolver

namespace simulation::common {
using namespace sofa::core;
class VectorOperations {
public:
    const ExecParams *params; objectmodel::BaseContext *ctx; SReal result = 0;
    VectorOperations(const ExecParams *p, const objectmodel::BaseContext *c, bool = false) : params(p), ctx(const_cast<objectmodel::BaseContext *>(c)) {}
    template <VecType t> void v_alloc(TMultiVecId<t, V_WRITE> &v) { static unsigned next = 100; v = TMultiVecId<t, V_WRITE>(TVecId<t, V_WRITE>(next++)); VReallocVisitor_(params, v, true).execute(ctx); v_clear(v); }
    template <VecType t> void v_free(TMultiVecId<t, V_WRITE> &, bool = false, bool = false) {}
    template <VecType t> void v_realloc(TMultiVecId<t, V_WRITE> &v, bool = false, bool propagate = false) {
        if (v.isNull()) { static unsigned next = 100000; v = TMultiVecId<t, V_WRITE>(TVecId<t, V_WRITE>(next++)); }
        VReallocVisitor_(params, v, propagate).execute(ctx);
    }
    void v_clear(MultiVecId v) { MechanicalVOpVisitor(params, v).execute(ctx); }
    void v_eq(MultiVecId v, ConstMultiVecId a) { MechanicalVOpVisitor(params, v, a).execute(ctx); }
    void v_eq(MultiVecId v, ConstMultiVecId a, SReal f) { MechanicalVOpVisitor(params, v, ConstMultiVecId(), a, f).execute(ctx); }
    void v_peq(MultiVecId v, ConstMultiVecId a, SReal f = 1.0) { MechanicalVOpVisitor(params, v, v, a, f).execute(ctx); }
    void v_teq(MultiVecId v, SReal f) { MechanicalVOpVisitor(params, v, ConstMultiVecId(), v, f).execute(ctx); }
    void v_op(MultiVecId v, ConstMultiVecId a, ConstMultiVecId b, SReal f = 1.0) { MechanicalVOpVisitor(params, v, a, b, f).execute(ctx); }
    void v_dot(ConstMultiVecId a, ConstMultiVecId b) { result = 0; MechanicalVDotVisitor(params, a, b, &result).execute(ctx); }
    SReal finish() { return result; }
};
struct VisitorExecuteFunc {
    objectmodel::BaseContext &ctx;
    VisitorExecuteFunc(objectmodel::BaseContext &c, bool = false) : ctx(c) {}
    template <class V> void operator()(V *v) { v->execute(&ctx); }
    template <class V> void operator()(V v) { v.execute(&ctx); }
};
class MechanicalOperations {
public:
    MechanicalParams mparams; objectmodel::BaseContext *ctx; VisitorExecuteFunc executeVisitor;
    MechanicalOperations(const MechanicalParams *p, const objectmodel::BaseContext *c, bool = false) : mparams(*p), ctx(const_cast<objectmodel::BaseContext *>(c)), executeVisitor(*ctx) {}
    MechanicalOperations(const ExecParams *p, const objectmodel::BaseContext *c, bool = false) : mparams(*p), ctx(const_cast<objectmodel::BaseContext *>(c)), executeVisitor(*ctx) {}
    MechanicalParams *operator->() { return &mparams; }
    operator const MechanicalParams *() { return &mparams; }
    void getMatrixDimension(unsigned *r, unsigned *c, component::linearsolver::DefaultMultiMatrixAccessor *a = nullptr) {
        struct V : MechanicalVisitor {
            component::linearsolver::DefaultMultiMatrixAccessor *a; unsigned n = 0;
            using MechanicalVisitor::MechanicalVisitor;
            Result fwdMechanicalState(Node *, behavior::BaseMechanicalState *m) override { n += m->getMatrixSize(); if (a) a->addMechanicalState(m); return RESULT_CONTINUE; }
            Result fwdMechanicalMapping(Node *, BaseMapping *m) override { if (a) a->addMechanicalMapping(m); return RESULT_CONTINUE; }
            bool stopAtMechanicalMapping(Node *, BaseMapping *m) override { return !m->areMatricesMapped(); }
        } v(&mparams);
        v.a = a; v.execute(ctx);
        if (r) *r = v.n;
        if (c) *c = v.n;
    }
    void multiVector2BaseVector(ConstMultiVecId s, linearalgebra::BaseVector *d, const behavior::MultiMatrixAccessor *a) { MechanicalMultiVectorToBaseVectorVisitor(&mparams, s, d, a).execute(ctx); }
    void baseVector2MultiVector(const linearalgebra::BaseVector *s, MultiVecId d, const behavior::MultiMatrixAccessor *a) { MechanicalMultiVectorFromBaseVectorVisitor(&mparams, d, s, a).execute(ctx); }
    void propagateDxAndResetDf(MultiVecDerivId dx, MultiVecDerivId df) { mparams.setDx(dx); mparams.setDf(df); MechanicalPropagateDxAndResetForceVisitor(&mparams, dx, df).execute(ctx); }
    void propagateDx(MultiVecDerivId dx, bool ignore_flag = false) { mparams.setDx(dx); MechanicalPropagateDxVisitor(&mparams, dx, ignore_flag).execute(ctx); }
    void addMBKdx(MultiVecDerivId df, SReal m, SReal b, SReal k, bool clear = true, bool accumulate = true) {
        mparams.setDf(df);
        if (clear) MechanicalResetForceVisitor(&mparams, df, true).execute(ctx);
        mparams.setBFactor(b); mparams.setKFactor(k); mparams.setMFactor(m);
        MechanicalAddMBKdxVisitor(&mparams, df, accumulate).execute(ctx);
    }
    void projectResponse(MultiVecDerivId d, void * = nullptr) { MechanicalApplyConstraintsVisitor(&mparams, d).execute(ctx); }
    void computeForce(MultiVecDerivId f, bool clear = true, bool accumulate = true, bool = true) {
        mparams.setF(f);
        if (clear) MechanicalResetForceVisitor(&mparams, f, false).execute(ctx);
        MechanicalComputeForceVisitor(&mparams, f, accumulate).execute(ctx);
    }
    void solveConstraint(MultiVecId id, ConstraintParams::ConstOrder order) {
        ConstraintParams c(mparams); c.setOrder(order);
        for (auto *s : ctx->getObjects<behavior::ConstraintSolver>(objectmodel::BaseContext::Local)) s->solveConstraint(&c, id);
    }
    void m_resetSystem() { ls()->resetSystem(); }
    void m_setSystemMBKMatrix(SReal m, SReal b, SReal k) { mparams.setMFactor(m); mparams.setBFactor(b); mparams.setKFactor(k); ls()->setSystemMBKMatrix(&mparams); }
    void m_setSystemRHVector(MultiVecDerivId v) { ls()->setSystemRHVector(v); }
    void m_setSystemLHVector(MultiVecDerivId v) { ls()->setSystemLHVector(v); }
    void m_solveSystem() { ls()->solveSystem(); }
private:
    behavior::LinearSolver *ls() { auto *s = ctx->get<behavior::LinearSolver>(objectmodel::BaseContext::SearchDown); if (!s) minisofa::die("no linear solver"); return s; }
};
} // namespace simulation::common

namespace core::behavior {
template <VecType t> class TMultiVec_ {
    using VO = simulation::common::VectorOperations;
public:
    using MyMultiVecId = TMultiVecId<t, V_WRITE>;
    TMultiVec_() = default;
    TMultiVec_(VO *o, MyMultiVecId i) : vop(o), v(i) {}
    explicit TMultiVec_(VO *o, bool = false) : vop(o) { vop->v_alloc(v); }
    template <class I, class = std::enable_if_t<std::is_convertible_v<I, TVecId<t, V_WRITE>>>> TMultiVec_(VO *o, const I &i) : vop(o), v(i) {}
    TMultiVec_(const TMultiVec_ &) = delete;
    void realloc(VO *o, bool = false, bool = true) { vop = o; o->v_realloc(v, false, true); }
    MyMultiVecId id() const { return v; }
    operator MyMultiVecId() { return v; }
    operator TMultiVecId<t, V_READ>() const { return v; }
    operator MultiVecId() { return v; }
    operator ConstMultiVecId() const { return v; }
    void clear() { vop->v_clear(v); }
    void eq(MyMultiVecId a) { vop->v_eq(v, a); }
    void eq(MyMultiVecId a, SReal f) { vop->v_eq(v, a, f); }
    template <class A, class B> void eq(A &a, B &b, SReal f = 1.0) { vop->v_op(v, ConstMultiVecId(a), ConstMultiVecId(b), f); }
    template <class A> void peq(A &a, SReal f = 1.0) { vop->v_peq(v, ConstMultiVecId(a), f); }
    void teq(SReal f) { vop->v_teq(v, f); }
    template <class A> SReal dot(A &a) { vop->v_dot(v, ConstMultiVecId(a)); return vop->finish(); }
    SReal norm() { return std::sqrt(dot(*this)); }
    TMultiVec_ &operator=(const TMultiVec_ &o) { vop->v_eq(v, o.v); return *this; }
private:
    VO *vop = nullptr;
    MyMultiVecId v;
};
using MultiVecDeriv = TMultiVec_<V_DERIV>;
using MultiVecCoord = TMultiVec_<V_COORD>;
struct MechanicalMatrix {
    SReal m = 0, b = 0, k = 0;
    static const MechanicalMatrix M, B, K;
    MechanicalMatrix operator*(SReal f) const { return {m * f, b * f, k * f}; }
    MechanicalMatrix operator+(const MechanicalMatrix &o) const { return {m + o.m, b + o.b, k + o.k}; }
};
inline const MechanicalMatrix MechanicalMatrix::M{1, 0, 0}, MechanicalMatrix::B{0, 1, 0}, MechanicalMatrix::K{0, 0, 1};
template <class P> class MultiMatrix {
public:
    explicit MultiMatrix(P *p) : p(p) {}
    void clear() { p->m_resetSystem(); }
    void reset() { p->m_resetSystem(); }
    void operator=(const MechanicalMatrix &m) { p->m_setSystemMBKMatrix(m.m, m.b, m.k); }
    void solve(MultiVecDerivId x, MultiVecDerivId b) { p->m_setSystemRHVector(b); p->m_setSystemLHVector(x); p->m_solveSystem(); }
private:
    P *p;
};
} // namespace core::behavior
} // namespace sofa
