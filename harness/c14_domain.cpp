// C14: connectivity storage of domains: storage modes x strides x index types x element types x copy/clone/move chains.
#include "mc.h"
#include <memory>
#include <Eigen/Dense>
#include <Caribou/config.h>
#include <Caribou/constants.h>
#include <Caribou/Topology/Mesh.h>
#include <Caribou/Topology/Domain.h>
#include <Caribou/Geometry/Segment.h>
#include <Caribou/Geometry/Triangle.h>
#include <Caribou/Geometry/Quad.h>
#include <Caribou/Geometry/Tetrahedron.h>
#include <Caribou/Geometry/Hexahedron.h>
using namespace caribou; using namespace caribou::topology; namespace g = caribou::geometry;
using UI = UNSIGNED_INTEGER_TYPE;
#ifndef SHARD
#define SHARD 0
#endif
static int NODES = 90;
static double coord(int i, int d) { return i * 4 + d * 0.25 + 0.125; }
template <int D> Eigen::Matrix<double, Eigen::Dynamic, D, D == 1 ? Eigen::ColMajor : Eigen::RowMajor> positions() {
    Eigen::Matrix<double, Eigen::Dynamic, D, D == 1 ? Eigen::ColMajor : Eigen::RowMajor> p(NODES, D);
    for (int i = 0; i < NODES; ++i) for (int d = 0; d < D; ++d) p(i, d) = coord(i, d);
    return p;
}
template <class E, class I> struct Check {
    static constexpr int D = g::traits<E>::Dimension, N = g::traits<E>::NumberOfNodesAtCompileTime;
    using Dm = Domain<E, I>; using Idx = typename Dm::ElementsIndices;
    std::string nm; Mesh<D> mesh; Eigen::MatrixXd pd; Eigen::Matrix<double, Eigen::Dynamic, D, D == 1 ? Eigen::ColMajor : Eigen::RowMajor> pr;
    Check(const std::string &n) : nm(n), mesh(positions<D>()), pd(positions<D>()), pr(positions<D>()) {}
    static I value(int e, int j, int salt) { return (I)((e * N * 7 + j * 11 + salt * 5 + 3) % NODES); }
    void content(const Dm &d, int ne, int salt, const std::string &what, const BaseMesh *attached) {
        mc::crumb(nm + " " + what); mc::state(); mc::step();
        if (!mc::check(d.number_of_elements() == (UI)ne, "count", nm, what, " number_of_elements ", d.number_of_elements(), " want ", ne)) return;
        mc::check(d.number_of_nodes_per_elements() == (UI)N, "count", nm, what, " number_of_nodes_per_elements ", d.number_of_nodes_per_elements());
        mc::check(d.canonical_dimension() == (UI)g::traits<E>::CanonicalDimension, "dimension", nm, what, " canonical_dimension ", d.canonical_dimension());
        for (int e = 0; e < ne; ++e) {
            const auto ii = d.element_indices(e); mc::step();
            if (!mc::check(ii.size() == N, "index-size", nm, what)) continue;
            bool ok = true; for (int j = 0; j < N; ++j) ok = ok && ii[j] == value(e, j, salt);
            std::string got; if (!ok) for (int j = 0; j < N; ++j) got += mc::str((long long)ii[j], "/", (long long)value(e, j, salt), " ");
            if (!mc::check(ok, "indices", nm, what, " element ", e, " got/want: ", got)) continue;
            auto elem = [&](const E &el, const char *how) {
                bool ok2 = true; for (int j = 0; j < N; ++j) for (int k = 0; k < D; ++k) ok2 = ok2 && el.node(j)[k] == coord((int)value(e, j, salt), k);
                mc::check(ok2, "element", nm, what, " ", how, " element ", e, " has nodes at other positions");
            };
            elem(d.element(e, pd), "element(id, MatrixXd)"); elem(d.element(e, pr), "element(id, matrix)"); mc::step(2);
            if (attached) { elem(d.element(e), "element(id)"); mc::step(); }
        }
        mc::check(d.mesh() == attached, "mesh-link", nm, what, " mesh() is not the mesh it was attached to");
    }
    // chains of copy / clone / move / heap clone from a freshly made domain; the original is destroyed after each step
    void chains(const std::function<std::unique_ptr<Dm>(const BaseMesh *)> &make, int ne, int salt, const std::string &what, const std::function<void()> &spoil) {
        const int depth = mc::thorough() ? 4 : 3;
        for (int len = 0; len <= depth; ++len) mc::product(std::vector<int>(len, 4), [&](const std::vector<int> &ops) {
            mc::trace();
            auto d = make(&mesh); spoil();
            std::string w = what; const BaseMesh *att = &mesh;
            if (len == 0) content(*d, ne, salt, w, att);
            for (size_t k = 0; k < ops.size(); ++k) {
                std::unique_ptr<Dm> n; mc::step();
                const bool keep = ops[k] == 3;
                std::unique_ptr<Dm> old;
                switch (ops[k]) {
                    case 0: n.reset(new Dm(*d)); w += ">copy"; att = nullptr; break;
                    case 1: { BaseDomain *c = d->clone(); n.reset(dynamic_cast<Dm *>(c)); w += ">clone"; att = nullptr; if (!mc::check(bool(n), "clone-type", nm, w)) { delete c; return; } break; }
                    case 2: n.reset(new Dm(std::move(*d))); w += ">move"; break;
                    default: n.reset(new Dm(*d)); w += ">copy(original kept)"; break;
                }
                if (keep) { old = std::move(d); content(*old, ne, salt, w + " [original]", att); att = nullptr; }
                else d.reset(); // original destroyed first
                d = std::move(n);
                if (k + 1 == ops.size()) content(*d, ne, salt, w, att);
                if (keep) old.reset();
                if (k + 1 == ops.size() && keep) content(*d, ne, salt, w + " [after the original died]", att);
            }
            if (att == nullptr) { // an orphan can be attached to a mesh and then yields elements of that mesh
                mc::step(); d->attach_to(&mesh); content(*d, ne, salt, w + ">attach", &mesh);
            }
        });
    }
    // counts and indices beyond 8 and 16 bits
    void big(int ne) {
        mc::trace(); Idx src(ne, N); auto fill = [&](int salt) { for (int e = 0; e < ne; ++e) for (int j = 0; j < N; ++j) src(e, j) = value(e, j, salt); };
        const std::string w = mc::str(ne, " elements ");
        fill(1); Dm d(&mesh, src); src.setConstant(I(1)); content(d, ne, 1, w + "copied", &mesh);
        { Dm c(d); content(c, ne, 1, w + "copied>copy", nullptr); std::unique_ptr<BaseDomain> k(d.clone()); content(*dynamic_cast<Dm *>(k.get()), ne, 1, w + "copied>clone", nullptr); Dm mv(std::move(c)); content(mv, ne, 1, w + "copied>copy>move", nullptr); }
        fill(2); const Idx *ps = &src; Dm r(&mesh, ps); content(r, ne, 2, w + "referenced", &mesh); Dm rc(r); content(rc, ne, 2, w + "referenced>copy", nullptr);
        const int out = N + 1, in = 1; std::vector<I> b((size_t)ne * out); for (int e = 0; e < ne; ++e) for (int j = 0; j < N; ++j) b[(size_t)e * out + j * in] = value(e, j, 3);
        Dm s(&mesh, static_cast<const I *>(b.data()), Eigen::Index(ne), Eigen::Index(N), Eigen::Index(out), Eigen::Index(in)); content(s, ne, 3, w + "strided", &mesh); Dm sc(s); content(sc, ne, 3, w + "strided>copy", nullptr);
        std::vector<I> t((size_t)ne * N); for (int e = 0; e < ne; ++e) for (int j = 0; j < N; ++j) t[(size_t)j * ne + e] = value(e, j, 4);
        Dm q(&mesh, static_cast<const I *>(t.data()), Eigen::Index(ne), Eigen::Index(N), Eigen::Index(1), Eigen::Index(ne)); content(q, ne, 4, w + "column strided", &mesh);
    }
    void run() {
        for (int ne = 0; ne <= 3; ++ne) {
            Idx src(ne, N);
            auto fill = [&](int salt) { for (int e = 0; e < ne; ++e) for (int j = 0; j < N; ++j) src(e, j) = value(e, j, salt); };
            auto spoil_src = [&] { src.setConstant(I(1)); };
            auto nothing = [] {};
            // copied (const and non-const reference): the source changes right after
            chains([&](const BaseMesh *m) { fill(0); const Idx &c = src; return std::make_unique<Dm>(m, c); }, ne, 0, mc::str("copied(const&) ", ne, " elements"), spoil_src);
            chains([&](const BaseMesh *m) { fill(1); return std::make_unique<Dm>(m, src); }, ne, 1, mc::str("copied(&) ", ne, " elements"), spoil_src);
            { auto tmp = std::make_unique<Idx>(ne, N); // source destroyed
              chains([&](const BaseMesh *m) { tmp = std::make_unique<Idx>(ne, N); for (int e = 0; e < ne; ++e) for (int j = 0; j < N; ++j) (*tmp)(e, j) = value(e, j, 2); auto d = std::make_unique<Dm>(m, *tmp); return d; }, ne, 2, mc::str("copied, source destroyed ", ne, " elements"), [&] { tmp.reset(); }); }
            // referenced
            fill(3); const Idx *ps = &src;
            chains([&](const BaseMesh *m) { return std::make_unique<Dm>(m, ps); }, ne, 3, mc::str("referenced ", ne, " elements"), nothing);
            { Dm d(&mesh, ps); fill(4); content(d, ne, 4, mc::str("referenced, buffer changed ", ne, " elements"), &mesh); }
            // raw contiguous
            std::vector<I> raw(ne * N + 1); for (int e = 0; e < ne; ++e) for (int j = 0; j < N; ++j) raw[e * N + j] = value(e, j, 5);
            chains([&](const BaseMesh *m) { return std::make_unique<Dm>(m, static_cast<const I *>(raw.data()), Eigen::Index(ne), Eigen::Index(N)); }, ne, 5, mc::str("raw ", ne, " elements"), nothing);
            { Dm d(&mesh, static_cast<const I *>(raw.data()), Eigen::Index(ne), Eigen::Index(N)); for (int e = 0; e < ne; ++e) for (int j = 0; j < N; ++j) raw[e * N + j] = value(e, j, 9); content(d, ne, 9, mc::str("raw, buffer changed ", ne, " elements"), &mesh); }
            // raw with strides
            std::vector<std::pair<int, int>> strides = {{N, 1}, {N + 1, 1}, {2 * N + 3, 2}, {3 * N, 3}, {1, ne + 0}, {1, ne + 2}, {2, 2 * ne + 1}};
            for (auto st : strides) {
                int out = st.first, in = std::max(1, st.second);
                std::vector<I> b((size_t)std::max(0, (ne - 1)) * out + (size_t)(N - 1) * in + 1, I(85));
                for (int e = 0; e < ne; ++e) for (int j = 0; j < N; ++j) b[e * out + j * in] = value(e, j, 6);
                chains([&](const BaseMesh *m) { return std::make_unique<Dm>(m, static_cast<const I *>(b.data()), Eigen::Index(ne), Eigen::Index(N), Eigen::Index(out), Eigen::Index(in)); }, ne, 6, mc::str("raw strides ", out, ",", in, " ", ne, " elements"), nothing);
            }
            // through the mesh
            for (int named = 0; named < 2; ++named) {
                Mesh<D> m2(positions<D>()); fill(7);
                const std::string w = mc::str(named ? "mesh.add_domain(name) " : "mesh.add_domain ", ne, " elements");
                auto *d = named ? m2.template add_domain<E, I>(std::string("n"), src) : m2.template add_domain<E, I>(src); mc::step();
                spoil_src(); content(*d, ne, 7, w + "copied", &m2);
                fill(8); auto *dp = named ? m2.template add_domain<E, I>(std::string("p"), &src) : m2.template add_domain<E, I>(&src); mc::step();
                content(*dp, ne, 8, w + "referenced", &m2); content(*d, ne, 7, w + "copied, second look", &m2);
                if constexpr (std::is_same_v<I, UI>) { auto *e = named ? m2.template add_domain<E>("q", src) : m2.template add_domain<E>(src); spoil_src(); content(*e, ne, 8, w + "default index", &m2); mc::step(); }
                mc::trace();
            }
        }
    }
};
template <class E> constexpr bool N8 = g::traits<E>::NumberOfNodesAtCompileTime > 3;
template <class E> void run(const char *n) {
    Check<E, UI>(mc::str(n, "/default")).run();
    Check<E, int>(mc::str(n, "/int")).run();
    Check<E, unsigned short>(mc::str(n, "/ushort")).run();
    for (int k : {300, 70001}) { const int old = NODES; NODES = k; Check<E, UI>(mc::str(n, "/default, many nodes")).big(k == 300 ? 260 : 66000 / (N8<E> ? 8 : 1)); Check<E, int>(mc::str(n, "/int, many nodes")).big(k == 300 ? 260 : 3000); NODES = old; }
    if (mc::thorough()) { Check<E, signed char>(mc::str(n, "/schar")).run(); Check<E, long>(mc::str(n, "/long")).run(); }
    mc::sample(n, "copied, referenced, raw, 7 stride patterns; 0..3 elements; copy/clone/move chains");
}
int main(int c, char **v) {
    return mc::run(c, v, [] {
#if SHARD == 0
        run<g::Segment<1, Linear>>("Segment1D"); run<g::Segment<2, Quadratic>>("Segment2D-quadratic");
#elif SHARD == 1
        run<g::Triangle<3, Linear>>("Triangle3D"); run<g::Triangle<2, Quadratic>>("Triangle2D-quadratic");
#elif SHARD == 2
        run<g::Quad<2, Linear>>("Quad2D"); run<g::Quad<3, Quadratic>>("Quad3D-quadratic");
#elif SHARD == 3
        run<g::Tetrahedron<Linear>>("Tetrahedron"); run<g::Tetrahedron<Quadratic>>("Tetrahedron-quadratic");
#else
        run<g::Hexahedron<Linear>>("Hexahedron"); run<g::Hexahedron<Quadratic>>("Hexahedron-quadratic");
#endif
        mc::bound("domains", mc::str("0..3 elements (and 260, 3000, up to 66000 with indices beyond 16 bits), 12 storage patterns, all copy/clone/move/copy-and-keep chains up to length ", mc::thorough() ? 4 : 3, ", index types unsigned long long, int, unsigned short", mc::thorough() ? ", signed char, long" : ""));
    });
}
