// C30: the topology components and the way force fields find theirs.
// All histories (to a depth) of: set the indices, set the positions, attach a domain, init; then all scenes of topologies a force field can meet.
#include "fem.h"
#if SHARD == 2
#include <SofaCaribou/Forcefield/HyperelasticForcefield[Hexahedron].h>
#include <SofaCaribou/Forcefield/HyperelasticForcefield[Tetrahedron].h>
#include <SofaCaribou/Topology/CaribouTopology[Hexahedron].h>
#include <SofaCaribou/Topology/CaribouTopology[Tetrahedron].h>
#else
#include <SofaCaribou/Forcefield/TractionForcefield[Triangle].h>
#include <SofaCaribou/Forcefield/TractionForcefield[Quad].h>
#include <SofaCaribou/Topology/CaribouTopology[Triangle].h>
#include <SofaCaribou/Topology/CaribouTopology[Quad].h>
#endif
using namespace fem;
namespace ct = caribou::topology; namespace st = sofa::component::topology; namespace so = sofa::core::objectmodel;
template <class E> struct Topo {
    static constexpr int D = ref::g::traits<E>::Dimension, N = ref::g::traits<E>::NumberOfNodesAtCompileTime;
    using DT = typename SofaCaribou::topology::SofaVecType<D>::Type;
    using T = SofaCaribou::topology::CaribouTopology<E>;
    using A = sofa::type::fixed_array<sofa::Index, N>;
    using Indices = sofa::type::vector<A>; using Positions = typename DT::VecCoord;
    using MO = sofa::core::behavior::MechanicalState<DT>;
    using Domain = typename T::Domain;
    std::string nm;
    Positions positions(int k) const { // 0: just enough nodes; 1: others, as many; 2: more; 3: none
        Positions p; if (k == 3) return p; const int n = k == 2 ? N + 4 : N + 1; p.resize(n);
        for (int i = 0; i < n; ++i) for (int d = 0; d < D; ++d) p[i][d] = k == 1 ? 10. * i - d : i + 0.25 * d * (i % 3) + (d == 1 ? i * i : 0);
        return p;
    }
    Indices indices(int k) const { // 0: one element; 1: three; 2: two, the second with a node only the large set has; 3: none; 4: one past the end of the small sets, in the last node of the only element
        Indices v; if (k == 3) return v; v.resize(k == 1 ? 3 : k == 2 ? 2 : 1);
        for (size_t e = 0; e < v.size(); ++e) for (int i = 0; i < N; ++i) v[e][i] = (k == 0 ? i : e == 0 ? N - i : e == 1 ? i + 1 : (i * 2) % (N + 1));
        if (k == 2) v[1][N / 2] = N + 2;
        if (k == 4) { for (int i = 0; i < N; ++i) v[0][i] = i; v[0][N - 1] = N + 1; }
        return v;
    }
    static bool valid(const Indices &v, const Positions &p) { if (v.empty() || p.empty()) return false; for (auto &e : v) for (int i = 0; i < N; ++i) if (e[i] >= p.size()) return false; return true; }
    std::string show(const Indices &v) const { std::string s; for (auto &e : v) { s += "["; for (int i = 0; i < N; ++i) s += mc::str(i ? " " : "", e[i]); s += "]"; } return s; }
    // what the topology shows
    bool shows(const T &t, const Indices &v, const Positions &p) const {
        if ((size_t)t.number_of_elements() != v.size() || !t.domain() || (size_t)t.domain()->number_of_elements() != v.size()) return false;
        for (size_t e = 0; e < v.size(); ++e) {
            const auto ids = t.domain()->element_indices(e); const E el = t.element(e), el2 = t.domain()->element(e);
            for (int i = 0; i < N; ++i) { if ((sofa::Index)ids[i] != v[e][i]) return false; for (int d = 0; d < D; ++d) if (el.node(i)[d] != p[v[e][i]][d] || el2.node(i)[d] != p[v[e][i]][d]) return false; }
        }
        return true;
    }
    struct Outer { ct::Mesh<D> mesh; const Domain *domain; Indices v; Positions p; Outer(const Positions &p, const Indices &v) : mesh(nodes(p)), v(v), p(p) {
            Eigen::Matrix<sofa::Index, Eigen::Dynamic, N> m(v.size(), N); for (size_t e = 0; e < v.size(); ++e) for (int i = 0; i < N; ++i) m(e, i) = v[e][i];
            domain = mesh.template add_domain<E, sofa::Index>(m); }
        static std::vector<typename ct::Mesh<D>::WorldCoordinates> nodes(const Positions &p) { std::vector<typename ct::Mesh<D>::WorldCoordinates> r(p.size()); for (size_t i = 0; i < p.size(); ++i) for (int d = 0; d < D; ++d) r[i][d] = p[i][d]; return r; } };
    // operations 0..3 (4): set the indices; 5..8: set the positions; 9, 10: attach; 11: init
    static constexpr int OPS = 12;
    void history(const std::vector<int> &ops, int state /* 0 none, 1 with a mechanical state, 2 with one that has no rest positions */) {
        mc::trace();
        so::SPtr_<sofa::simulation::Node> node(new sofa::simulation::Node()); so::SPtr_<T> t(new T()); so::SPtr_<MO> mo(new MO());
        const Positions rest = positions(2); if (state == 1) { mo->x0_.setValue(rest); mo->x_.setValue(positions(1)); } if (state) node->addObject(mo);
        node->addObject(t);
        Outer a(positions(0), indices(1)), b(positions(2), indices(2));
        Indices v; Positions p; bool vset = false, pset = false; // the data
        Indices sv; Positions sp; const Domain *attached = nullptr; bool any = false, known = true; // what is shown: after a failure the old elements or none
        std::string what = mc::str(nm, state ? " state " : " ", state ? mc::str(state) : "", ":");
        for (int op : ops) {
            mc::step();
            if (op < 5) { v = indices(op); vset = true; data<Indices>(*t, "indices").setValue(v); what += mc::str(" indices", op); }
            else if (op < 9) { p = positions(op - 5); pset = true; data<Positions>(*t, "position").setValue(p); what += mc::str(" positions", op - 5); }
            else if (op < 11) { Outer &o = op == 9 ? a : b; what += op == 9 ? " attachA" : " attachB"; mc::crumb(what); t->attachDomain(o.domain); v = o.v; vset = true; attached = o.domain; sv = o.v; sp = o.p; any = known = true;
                mc::check(data<Indices>(*t, "indices").getValue().size() == v.size() && std::equal(v.begin(), v.end(), data<Indices>(*t, "indices").getValue().begin(), [](const A &x, const A &y) { for (int i = 0; i < N; ++i) if (x[i] != y[i]) return false; return true; }), "attached-indices", nm, what, " ", show(data<Indices>(*t, "indices").getValue())); }
            else {
                what += " init"; mc::crumb(what); t->init();
                if (vset) {
                    if (!pset && !v.empty() && state == 1) { p = rest; pset = true; } // linked to the rest positions of the state
                    if (valid(v, p)) { sv = v; sp = p; any = true; known = true; attached = nullptr; }
                    else known = false;
                }
            }
            mc::state();
            if (op < 9) continue; // not initialised with the new data yet
            if (!any) { mc::check(t->number_of_elements() == 0 && !t->domain(), "nothing-yet", nm, what, " ", t->number_of_elements(), " elements"); continue; }
            if (attached && known) mc::check(t->domain() == attached, "attached", nm, what);
            const bool none = t->number_of_elements() == 0;
            mc::check((!known && none) || shows(*t, sv, sp), "elements", nm, what, " ", t->number_of_elements(), " elements instead of ", sv.size(), " ", show(sv));
        }
    }
    void histories() {
        const int depth = mc::thorough() ? 5 : 4;
        std::vector<int> ops;
        for (int state = 0; state < 3; ++state) for (int n = 1; n <= depth - (state == 2); ++n) mc::product(std::vector<int>(n, OPS), [&](const std::vector<int> &k) {
            if (k.back() < 9) return; // ends with something to look at
            for (int i = 0; i + 1 < n; ++i) if (k[i] < 5 && k[i + 1] < 5 && n > 3) return; // written twice in a row: covered by shorter ones
            for (int i = 0; i + 1 < n; ++i) if (k[i] >= 5 && k[i] < 9 && k[i + 1] >= 5 && k[i + 1] < 9 && n > 3) return;
            history(k, state);
        });
        // further operations on a topology initialised with each set of indices and positions
        for (int state = 0; state < 2; ++state) for (int i = 0; i < 5; ++i) for (int q = 5; q < 9; ++q) for (int n = 1; n <= (state ? 2 : mc::thorough() ? 4 : 3); ++n) mc::product(std::vector<int>(n, OPS), [&](const std::vector<int> &k) {
            if (k.back() < 9) return;
            std::vector<int> h{i, q, 11}; h.insert(h.end(), k.begin(), k.end()); history(h, state);
        });
        mc::sample(nm, mc::str("all histories of up to ", depth, " operations"));
    }
};
// ---- force fields --------------------------------------------------------------------------------------------------
#if SHARD == 2
template <class E> using FF = SofaCaribou::forcefield::HyperelasticForcefield<E>;
#else
template <class E> using FF = SofaCaribou::forcefield::TractionForcefield<E>;
#endif
template <class S> void put(S &c, int kind, int n) { // n elements over nodes 0.. of each kind the container may hold
    auto fill = [&](auto &d, int N) { typename std::decay_t<decltype(d)>::value_type v(n); for (int e = 0; e < n; ++e) for (int i = 0; i < N; ++i) v[e][i] = (i + e) % (N + 1); d.setValue(v); };
    if (kind == ref::TRI || kind == ref::TET) fill(c.triangles, 3); if (kind == ref::QUAD || kind == ref::HEX) fill(c.quads, 4);
    if (kind == ref::TET) fill(c.tetrahedra, 4); if (kind == ref::HEX) fill(c.hexahedra, 8);
}
template <class E> void scenes(const std::string &nm) {
    using H = Topo<E>; using MO = typename H::MO; H h; h.nm = nm;
    constexpr int kind = ref::Info<E>::kind; constexpr bool linear = ref::Info<E>::order == 1;
    // objects 0, 1: CaribouTopology; 2: another CaribouTopology without elements; 3, 4: compatible containers; 5: container of another kind; 6: plain mesh topology
    // every subset of them in the node, in both orders, no link or a link to each of them; with and without a state
    for (int with = 0; with < 128; ++with) for (int order = 0; order < 2; ++order) for (int link = -1; link < 7; ++link) for (bool state : {true, false}) {
        if (link >= 0 && !(with >> link & 1)) continue;
        if (!state && (with & 0x26 || order)) continue;
        mc::trace(); mc::state();
        so::SPtr_<sofa::simulation::Node> node(new sofa::simulation::Node()); so::SPtr_<MO> mo(new MO());
        const auto p = h.positions(2); mo->x0_.setValue(p); mo->x_.setValue(p); { auto fr = p; for (auto &x : fr) x[0] += 100; mo->xfree_.setValue(fr); } typename H::DT::VecDeriv z(p.size()); mo->v_.setValue(z); mo->f_.setValue(z); mo->dx_.setValue(z);
        if (state) node->addObject(mo);
        std::vector<so::SPtr_<so::BaseObject>> objs(7); const int count[7] = {1, 3, 0, 2, 4, 5, 6};
        auto container = [&](int k, int n) -> so::BaseObject * {
            if (k == ref::TRI) { auto *c = new st::TriangleSetTopologyContainer(); put(*c, k, n); return c; } if (k == ref::QUAD) { auto *c = new st::QuadSetTopologyContainer(); put(*c, k, n); return c; }
            if (k == ref::TET) { auto *c = new st::TetrahedronSetTopologyContainer(); put(*c, k, n); return c; } auto *c = new st::HexahedronSetTopologyContainer(); put(*c, k, n); return c; };
        const int other = kind == ref::TRI ? ref::QUAD : kind == ref::QUAD ? ref::TRI : kind == ref::TET ? ref::HEX : ref::TET;
        for (int q = 0; q < 7; ++q) { const int i = order ? 6 - q : q; if (!(with >> i & 1)) continue;
            if (i < 3) { so::SPtr_<typename H::T> t(new typename H::T()); if (i < 2) { data<typename H::Indices>(*t, "indices").setValue(h.indices(i)); data<typename H::Positions>(*t, "position").setValue(p); } objs[i] = t; node->addObject(t); t->init(); }
            else { objs[i] = so::SPtr_<so::BaseObject>(i == 5 ? container(other, count[i]) : i == 6 ? (so::BaseObject *)[&] { auto *m = new st::MeshTopology(); put(*m, kind, count[6]); return m; }() : container(kind, count[i])); node->addObject(objs[i]); } }
        so::SPtr_<FF<E>> ff(new FF<E>()); node->addObject(ff);
        const std::string what = mc::str(nm, " objects ", with, order ? " reversed" : "", " link ", link, state ? "" : " without a state");
        if (link >= 0) { auto *l = ff->findLink("topology"); if (!l) { fprintf(stderr, "no link 'topology'\n"); _exit(3); } if (!l->assign(objs[link].get())) { fprintf(stderr, "cannot set the link\n"); _exit(3); } }
        mc::crumb(what); ff->init(); mc::step();
        int want = 0;
        if (link >= 0) want = link < 3 ? count[link] : !linear ? 0 : link == 5 ? -1 : count[link];
        else { int n = 0, last = -1; for (int i = 0; i < 5; ++i) if ((with >> i & 1) && (i < 3 || linear)) { ++n; last = i; } if (n == 1) want = count[last]; else if (n > 1) want = 0; }
        if (!state) want = link >= 0 && link < 3 ? -1 : 0;
        const int got = (int)ff->number_of_elements();
        if (want >= 0) mc::check(got == want, "elements", nm, what, ": ", got, " instead of ", want);
        if (want > 0) { const auto t = ff->topology();
            bool ok = t && (int)t->number_of_elements() == want; for (int e = 0; ok && e < want; ++e) for (int i = 0; i < H::N; ++i) { const auto id = t->domain()->element_indices(e)[i]; ok = ok && id < p.size(); for (int d = 0; ok && d < H::D; ++d) ok = t->element(e).node(i)[d] == p[id][d]; }
            mc::check(ok, "element-nodes", nm, what); }
    }
}
template <class E> void all(const char *nm) { Topo<E> t; t.nm = nm; t.histories(); scenes<E>(nm); }
int main(int c, char **v) {
    return mc::run(c, v, [] {
        using namespace ref::g; using caribou::Linear; using caribou::Quadratic;
        const char *a = getenv("MC_PART"); const int part = a ? atoi(a) : -1;
        auto mine = [&](int i) { return part < 0 || part == i; };
#if SHARD == 0
        if (mine(0)) all<Triangle<2, Linear>>("Triangle_2D"); if (mine(1)) all<Triangle<2, Quadratic>>("Triangle6_2D"); if (mine(2)) all<Triangle<3, Linear>>("Triangle"); if (mine(3)) all<Triangle<3, Quadratic>>("Triangle6");
#elif SHARD == 1
        if (mine(0)) all<Quad<2, Linear>>("Quad_2D"); if (mine(1)) all<Quad<2, Quadratic>>("Quad8_2D"); if (mine(2)) all<Quad<3, Linear>>("Quad"); if (mine(3)) all<Quad<3, Quadratic>>("Quad8");
#else
        if (mine(0)) all<Tetrahedron<Linear>>("Tetrahedron"); if (mine(1)) all<Tetrahedron<Quadratic>>("Tetrahedron10"); if (mine(2)) all<Hexahedron<Linear>>("Hexahedron"); if (mine(3)) all<Hexahedron<Quadratic>>("Hexahedron20");
#endif
        mc::bound("topology", "12 element types; all histories of up to 4 (thorough 5) of 5 sets of indices, 4 sets of positions, 2 attached domains and init, without a state, with one and with an empty one; all continuations of up to 3 (4) operations after each set of indices and positions was initialised");
        mc::bound("force fields", "every subset of 7 topology objects in a node in two orders x link unset or to each of them, with and without a state");
    });
}
