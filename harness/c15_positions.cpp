// C15: node positions of a mesh: every source container, every way of reading.
#include "mc.h"
#include <memory>
#include <array>
#include <Eigen/Dense>
#include <Caribou/config.h>
#include <Caribou/constants.h>
#include <Caribou/Topology/Mesh.h>
using namespace caribou; using namespace caribou::topology;
using UI = UNSIGNED_INTEGER_TYPE;
#ifndef SHARD
#define SHARD 3
#endif
static double coord(int i, int d) { return (i % 2 ? -1 : 1) * (i * 8 + d * 2 + 0.25); } // exact in float

// a user-defined node container following the documented requirements (returns references)
template <class R, int D> struct ListHolder {
    using Scalar = R; using Node = Eigen::Matrix<R, 1, D>;
    std::vector<Node, Eigen::aligned_allocator<Node>> v;
    template <class N> void resize(N n) { v.resize(n); }
    template <class I> Node &node(I i) { return v[i]; }
    template <class I> const Node &node(I i) const { return v[i]; }
    Eigen::Index size() const { return (Eigen::Index)v.size(); }
};

template <class M> void same(const std::string &key, const char *rule, const M &got, const std::vector<int> &idx, int D, const std::string &what) {
    bool ok = got.rows() == (long)idx.size() && got.cols() == D;
    for (size_t i = 0; ok && i < idx.size(); ++i) for (int d = 0; d < D; ++d) ok = ok && double(got(i, d)) == coord(idx[i], d);
    mc::check(ok, rule, key, what, " rows ", got.rows(), " cols ", got.cols(), ok || got.rows() > 8 ? std::string() : " got " + mc::show(got));
}
template <int K, class Mesh, int D> void arrays(const Mesh &m, const std::vector<int> &idx, const std::string &key, const std::string &w) {
    if ((int)idx.size() != K) return;
    int a[K]; std::array<int, K> sa; std::array<UI, K> su; UI b[K]; unsigned char uc[K]; Eigen::Matrix<int, K, 1> ev; Eigen::Matrix<long, 1, K> er; Eigen::Array<int, K, 1> ea;
    for (int k = 0; k < K; ++k) { a[k] = sa[k] = ev[k] = ea[k] = idx[k]; er[k] = idx[k]; b[k] = su[k] = idx[k]; uc[k] = (unsigned char)idx[k]; }
    same(key, "positions-array", m.positions(a), idx, D, w + " int[]"); same(key, "positions-array", m.positions(b), idx, D, w + " unsigned[]"); if (*std::max_element(idx.begin(), idx.end()) < 256) same(key, "positions-array", m.positions(uc), idx, D, w + " uchar[]");
    same(key, "positions-stdarray", m.positions(sa), idx, D, w + " std::array<int>"); same(key, "positions-stdarray", m.positions(su), idx, D, w + " std::array<unsigned>");
    same(key, "positions-eigen", m.positions(ev), idx, D, w + " Matrix<int,K,1>"); same(key, "positions-eigen", m.positions(er), idx, D, w + " Matrix<long,1,K>"); same(key, "positions-eigen", m.positions(ea), idx, D, w + " Array<int,K,1>");
    mc::step(8);
}
template <int D, class Mesh> void read(const Mesh &m, int n, const std::string &src) {
    const std::string key = mc::str(D, "D ", src);
    mc::crumb(mc::str(key, " n=", n)); mc::trace(); mc::state();
    if (!mc::check(m.number_of_nodes() == (UI)n, "number-of-nodes", key, "n=", n, " got ", m.number_of_nodes())) return;
    mc::check(m.dimension() == (UI)D, "dimension", key, m.dimension());
    mc::check(m.number_of_domains() == 0, "no-domains", key, m.number_of_domains());
    for (int i = 0; i < n; ++i) {
        auto p = m.position(i); mc::step(2);
        bool ok = p.size() == D; for (int d = 0; ok && d < D; ++d) ok = double(p[d]) == coord(i, d);
        mc::check(ok, "position", key, "node ", i, " of ", n, ": ", mc::show(p));
        // poison the stack so that an uninitialised coordinate is visible
        { volatile double junk[64]; for (auto &j : junk) j = 1e300; }
        Eigen::Vector3d q = m.node(i); ok = true;
        for (int d = 0; d < 3; ++d) ok = ok && q[d] == (d < D ? coord(i, d) : 0.);
        mc::check(ok, "node", key, "node ", i, " of ", n, ": ", mc::show(q));
        const BaseMesh &bm = m; q = bm.node(i); for (int d = 0; d < 3; ++d) ok = ok && q[d] == (d < D ? coord(i, d) : 0.);
        mc::check(ok, "node", key, "node ", i, " of ", n, " through the base class: ", mc::show(q));
    }
    if (n > 8) { // whole lists only
        std::vector<int> rev, third; for (int i = n - 1; i >= 0; --i) rev.push_back(i); for (int i = 0; i < n; i += 3) third.push_back(i);
        for (auto &idx : {rev, third}) { mc::state(); std::vector<UI> vu(idx.begin(), idx.end()); Eigen::VectorXi xi(idx.size()); for (size_t k = 0; k < idx.size(); ++k) xi[k] = idx[k];
            same(key, "positions-vector", m.positions(idx), idx, D, mc::str(n, " nodes, vector<int>")); same(key, "positions-vector", m.positions(vu), idx, D, mc::str(n, " nodes, vector<unsigned>")); same(key, "positions-eigen", m.positions(xi), idx, D, mc::str(n, " nodes, VectorXi")); mc::step(3); }
        for (auto &idx : {std::vector<int>{n - 1}, std::vector<int>{n - 1, n / 2}, std::vector<int>{n - 2, n - 1, n / 2}}) { mc::state(); const std::string w = mc::str(n, " nodes, last and middle ones"); arrays<1, Mesh, D>(m, idx, key, w); arrays<2, Mesh, D>(m, idx, key, w); arrays<3, Mesh, D>(m, idx, key, w); }
        return;
    }
    const int L = n <= 3 ? 3 : 2;
    for (int len = 0; len <= L; ++len) mc::product(std::vector<int>(len, n), [&](const std::vector<int> &idx) {
        mc::state();
        std::string w; for (int i : idx) w += mc::str(i, ","); w = mc::str("n=", n, " indices ", w);
        std::vector<UI> vu(idx.begin(), idx.end()); std::vector<short> vs(idx.begin(), idx.end());
        Eigen::VectorXi xi(idx.size()); Eigen::Matrix<UI, 1, Eigen::Dynamic> xr(idx.size());
        for (size_t k = 0; k < idx.size(); ++k) { xi[k] = idx[k]; xr[k] = idx[k]; }
        same(key, "positions-vector", m.positions(idx), idx, D, w + " vector<int>"); same(key, "positions-vector", m.positions(vu), idx, D, w + " vector<unsigned>"); same(key, "positions-vector", m.positions(vs), idx, D, w + " vector<short>");
        same(key, "positions-eigen", m.positions(xi), idx, D, w + " VectorXi"); same(key, "positions-eigen", m.positions(xr), idx, D, w + " RowVector<unsigned>");
        // strided map of indices
        std::vector<int> buf(idx.size() * 3 + 1, 0); for (size_t k = 0; k < idx.size(); ++k) buf[k * 3] = idx[k];
        Eigen::Map<const Eigen::VectorXi, Eigen::Unaligned, Eigen::InnerStride<3>> mp(buf.data(), idx.size());
        same(key, "positions-eigen", m.positions(mp), idx, D, w + " strided map");
        mc::step(6);
        arrays<1, Mesh, D>(m, idx, key, w); arrays<2, Mesh, D>(m, idx, key, w); arrays<3, Mesh, D>(m, idx, key, w);
    });
}
template <int D, class R> void dims(const char *rn) {
    using H = EigenNodesHolder<Eigen::Matrix<R, Eigen::Dynamic, D, (D > 1 ? Eigen::RowMajor : Eigen::ColMajor)>>;
    using M = Mesh<D, H>; using ML = Mesh<D, ListHolder<R, D>>; using HC = EigenNodesHolder<Eigen::Matrix<R, Eigen::Dynamic, D>>; using MC = Mesh<D, HC>;
    using W = typename M::WorldCoordinates;
    for (int n : {0, 1, 2, 3, 4, 5, 300, 70000}) {
        auto fill = [&](auto &m) { for (int i = 0; i < n; ++i) for (int d = 0; d < D; ++d) m(i, d) = R(coord(i, d)); };
        auto nm = [&](const char *s) { return std::string(rn) + " " + s; };
        {
            std::vector<W> v(n); for (int i = 0; i < n; ++i) for (int d = 0; d < D; ++d) v[i][d] = R(coord(i, d));
            M a(v); ML l(v); MC cm(v); for (auto &w : v) w.setConstant(999); v.clear(); v.shrink_to_fit();
            read<D>(a, n, nm("vector of coordinates")); read<D>(l, n, nm("vector of coordinates, list container")); read<D>(cm, n, nm("vector of coordinates, col-major container"));
            M b(a); read<D>(b, n, nm("copy")); M c(std::move(b)); read<D>(c, n, nm("moved")); M d; d = c; read<D>(d, n, nm("assigned")); read<D>(c, n, nm("assigned from"));
            { M e; e = std::move(d); read<D>(e, n, nm("move-assigned")); using std::swap; M f; swap(e, f); read<D>(f, n, nm("swapped")); read<D>(e, 0, nm("swapped empty")); }
            { auto p = std::make_unique<M>(a); M q(*p); p.reset(); read<D>(q, n, nm("copy, original destroyed")); }
            { ML q(l); ML r2; r2 = q; read<D>(r2, n, nm("list container assigned")); }
        }
        auto from = [&](auto &src, const char *s) { M a(src); ML l(src); MC cm(src); src.setConstant(R(777)); read<D>(a, n, nm(s)); read<D>(l, n, nm(s) + ", list container"); read<D>(cm, n, nm(s) + ", col-major container"); };
        { Eigen::Matrix<R, Eigen::Dynamic, Eigen::Dynamic> m(n, D); fill(m); from(m, "dynamic col-major"); }
        { Eigen::Matrix<R, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> m(n, D); fill(m); from(m, "dynamic row-major"); }
        { Eigen::Matrix<R, Eigen::Dynamic, D> m(n, D); fill(m); from(m, "fixed columns"); }
        { Eigen::Matrix<R, Eigen::Dynamic, D, (D > 1 ? Eigen::RowMajor : Eigen::ColMajor)> m(n, D); fill(m); from(m, "fixed columns row-major"); }
        { Eigen::Matrix<R, Eigen::Dynamic, Eigen::Dynamic> big(n + 2, D + 2); big.setConstant(R(5)); auto blk = big.block(1, 1, n, D); fill(blk); from(blk, "block"); }
        { std::vector<R> buf((n + 1) * D * 3 + 3, R(0)); Eigen::Map<Eigen::Matrix<R, Eigen::Dynamic, Eigen::Dynamic>, Eigen::Unaligned, Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>> mp(buf.data(), n, D, {1 * 2, D * 2 + 1}); (void)mp;
          Eigen::Map<Eigen::Matrix<R, Eigen::Dynamic, Eigen::Dynamic>, Eigen::Unaligned, Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>> m2(buf.data(), n, D, Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>(1, D)); fill(m2); from(m2, "strided map"); }
        { Eigen::Matrix<R, Eigen::Dynamic, Eigen::Dynamic> t(D, n); for (int i = 0; i < n; ++i) for (int d = 0; d < D; ++d) t(d, i) = R(coord(i, d)); M a(t.transpose()); M b(t.transpose() * R(1)); M c((t + t).transpose() / R(2)); t.setZero(); read<D>(a, n, nm("transpose")); read<D>(b, n, nm("expression")); read<D>(c, n, nm("sum expression")); }
        { // other scalar: converted
          Eigen::Matrix<std::conditional_t<std::is_same_v<R, double>, float, double>, Eigen::Dynamic, D> m(n, D); fill(m); M a(m); read<D>(a, n, nm("other precision")); }
    }
    { Eigen::Matrix<R, 3, D> m; for (int i = 0; i < 3; ++i) for (int d = 0; d < D; ++d) m(i, d) = R(coord(i, d)); Mesh a(m); static_assert(decltype(a)::Dimension == D); m.setZero(); read<D>(a, 3, std::string(rn) + " deduced fixed matrix"); auto b = a; read<D>(b, 3, std::string(rn) + " deduced fixed matrix copy"); }
    { Eigen::Matrix<R, Eigen::Dynamic, D> m(4, D); for (int i = 0; i < 4; ++i) for (int d = 0; d < D; ++d) m(i, d) = R(coord(i, d)); Mesh a(m); m.setZero(); read<D>(a, 4, std::string(rn) + " deduced dynamic matrix"); }
    { std::vector<Eigen::Matrix<R, 1, D>> v(4); for (int i = 0; i < 4; ++i) for (int d = 0; d < D; ++d) v[i][d] = R(coord(i, d)); M a(v); read<D>(a, 4, std::string(rn) + " vector of row vectors"); }
    mc::sample(mc::str(D, "D ", rn), "0..5 nodes; 12 source containers x 3 node containers; all index tuples up to length 3 in 14 containers");
}
int main(int c, char **v) {
    return mc::run(c, v, [] {
#if SHARD < 10
        dims<SHARD, double>("double");
#else
        dims<SHARD - 10, float>("float");
#endif
        mc::bound("positions", "0..5, 300 and 70000 nodes, 1D/2D/3D, float/double, all index tuples up to length 3 (2 beyond 3 nodes)");
    });
}
