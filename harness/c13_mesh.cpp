// C13: every operation sequence over two meshes and one free domain, against a pure reference model.
//   1. all sequences up to a depth from the empty state and from populated states;
//   2. every transition of the reachable abstract state graph (breadth first on the model), each replayed on the real
//      meshes through its shortest history.
// After the last operation of a history the complete observable state is compared (earlier ones were last ones before).
#include "mc.h"
#include <deque>
#include <memory>
#include <optional>
#include <unordered_set>
#include <Eigen/Dense>
#include <Caribou/config.h>
#include <Caribou/constants.h>
#include <Caribou/Topology/Mesh.h>
#include <Caribou/Topology/Domain.h>
#include <Caribou/Geometry/Segment.h>
#include <Caribou/Geometry/Triangle.h>
using namespace caribou;
using namespace caribou::topology;
using Seg = geometry::Segment<2, Linear>;
using Tri = geometry::Triangle<2, Linear>;
using M = Mesh<2>;
using UI = UNSIGNED_INTEGER_TYPE;
using D0 = Domain<Seg>;          // copied connectivity, default index type
using D1 = Domain<Tri, int>;     // copied connectivity, int indices
// type 2 is D0 again but on an external strided buffer
static UNSIGNED_INTEGER_TYPE EXT[12] = {3, 9, 0, 9, 9, 9, 1, 9, 2, 9, 9, 9}; // elements (3,0),(1,2): outer stride 6, inner 2

static std::vector<std::vector<int>> conn_of(int type, int conn) {
    if (type == 0) return conn == 0 ? std::vector<std::vector<int>>{{0, 1}, {1, 2}} : std::vector<std::vector<int>>{{2, 3}};
    if (type == 1) return conn == 0 ? std::vector<std::vector<int>>{{0, 1, 2}} : std::vector<std::vector<int>>{{3, 1, 2}, {2, 0, 3}, {1, 0, 3}};
    return {{3, 0}, {1, 2}};
}
static double coord(int tag, int i, int d) { return tag * 100 + i * 10 + d + 0.5; }

// ------------------------------------------------------------------ model
struct Dom { int id, type, conn, gen; std::string name; };
struct MeshM { int nodes; std::vector<Dom> doms; }; // nodes: 0 unspecified (moved from), 1/2: which position set
struct State {
    MeshM m[2]; bool has = false; Dom o{}; int att = -1; int next = 0;
};
enum Out { DISABLED, OK, THROWS, IS_FALSE, IS_TRUE, EITHER };
enum Op { ADD_A0, ADD_B1, ADD_A2, ADD_U0, ADD_U1, RM_A, RM_B, RM_ZZ, RM_FIRST, RM_LAST, RM_FOREIGN, RM_LASTNAME, CLONE_FIRST, CLONE_LAST, ADDO_A, ADDO_B, ADDO_U,
          READD_SAME, READD_OTHER, READD_U, ADD_THEIRS, ATTACH_O, COPY_ASSIGN, MOVE_ASSIGN, COPY_CTOR, MOVE_CTOR, RECREATE, SELF, NPER };
enum { G_SWAP, G_NEWO, G_DELO, G_COPYO, G_MOVEO, NGLOB };
static const char *NAME[] = {"add_named(a,segments)", "add_named(b,triangles<int>)", "add_named(a,external segments)", "add_unnamed(segments)", "add_unnamed(triangles<int>)", "remove_domain(a)", "remove_domain(b)", "remove_domain(zz)", "remove(first)", "remove(last)", "remove(domain of the other mesh)", "remove_domain(name of last)", "clone first -> free domain", "clone last -> free domain", "add(free,a)", "add(free,b)", "add(free)",
                             "add(own first, same name)", "add(own first, other name)", "add(own first)", "add(first of the other mesh)", "free.attach_to", "= other (copy)", "= move(other)", "copy-construct from other", "move-construct from other", "destroy and recreate", "= itself"};
static const char *GNAME[] = {"swap(A,B)", "new free domain", "delete free domain", "copy free domain", "move free domain"};
static const int NOPS = 2 * NPER + NGLOB;
static std::string opname(int op) { return op < 2 * NPER ? mc::str(op < NPER ? "A." : "B.", NAME[op % NPER]) : GNAME[op - 2 * NPER]; }
static const size_t CAP = 3;

static int findname(const MeshM &m, const std::string &n) { for (size_t i = 0; i < m.doms.size(); ++i) if (m.doms[i].name == n) return (int)i; return -1; }
// symbolic unnamed names: "#<id>"
static Out step(State &s, int op) {
    if (op >= 2 * NPER) switch (op - 2 * NPER) {
        case G_SWAP: std::swap(s.m[0], s.m[1]); return OK;
        case G_NEWO: if (s.has) return DISABLED; s.has = true; s.att = -1; s.o = {s.next++, 1, 1, 0, ""}; return OK;
        case G_DELO: if (!s.has) return DISABLED; s.has = false; return OK;
        case G_COPYO: if (!s.has) return DISABLED; s.o.id = s.next++; s.o.gen = 1; s.att = -1; return OK;
        default: if (!s.has || s.att >= 0) return DISABLED; s.o.id = s.next++; s.o.gen = 2; return OK;
    }
    int x = op / NPER, y = 1 - x; MeshM &X = s.m[x], &Y = s.m[y];
    auto add = [&](int type, int conn, const std::string &n) { if (findname(X, n) >= 0) return THROWS; if (X.doms.size() >= CAP) return DISABLED; X.doms.push_back({s.next++, type, conn, 0, n}); return OK; };
    auto addu = [&](int type, int conn) { if (X.doms.size() >= CAP) return DISABLED; int id = s.next++; X.doms.push_back({id, type, conn, 0, mc::str("#", id)}); return OK; };
    auto rm = [&](int i) { if (i < 0) return IS_FALSE; X.doms.erase(X.doms.begin() + i); return IS_TRUE; };
    auto clone = [&](int i) { if (s.has || X.doms.empty()) return DISABLED; s.has = true; s.att = -1; s.o = X.doms[i]; s.o.id = s.next++; s.o.gen = 1; s.o.name = ""; return OK; };
    auto addo = [&](std::string n) {
        if (!s.has) return DISABLED;
        if (s.att == y) return THROWS;
        if (!n.empty() && findname(X, n) >= 0) return THROWS;
        if (X.doms.size() >= CAP) return DISABLED;
        Dom d = s.o; d.name = n.empty() ? mc::str("#", d.id) : n; X.doms.push_back(d); s.has = false; s.att = -1; return OK;
    };
    auto copyfrom = [&](const MeshM &src) { MeshM r; r.nodes = src.nodes; for (auto d : src.doms) { d.id = s.next++; d.gen = 1; r.doms.push_back(d); } X = r; };
    bool att = s.has && s.att == x;
    switch (op % NPER) {
        case ADD_A0: return add(0, 0, "a");
        case ADD_B1: return add(1, 0, "b");
        case ADD_A2: return add(2, 0, "a");
        case ADD_U0: return addu(0, 1);
        case ADD_U1: return addu(1, 1);
        case RM_A: return rm(findname(X, "a"));
        case RM_B: return rm(findname(X, "b"));
        case RM_ZZ: return rm(-1);
        case RM_FIRST: return X.doms.empty() ? DISABLED : rm(0);
        case RM_LAST: return X.doms.size() < 2 ? DISABLED : rm((int)X.doms.size() - 1);
        case RM_FOREIGN: return Y.doms.empty() ? DISABLED : rm(-1);
        case RM_LASTNAME: return X.doms.empty() ? DISABLED : rm((int)X.doms.size() - 1);
        case CLONE_FIRST: return clone(0);
        case CLONE_LAST: return X.doms.size() < 2 ? DISABLED : clone((int)X.doms.size() - 1);
        case ADDO_A: return addo("a");
        case ADDO_B: return addo("b");
        case ADDO_U: return addo("");
        case READD_SAME: return X.doms.empty() ? DISABLED : OK;
        case READD_OTHER: return X.doms.empty() ? DISABLED : THROWS;
        case READD_U: return X.doms.empty() ? DISABLED : (X.doms[0].name == mc::str("#", X.doms[0].id) ? OK : X.doms[0].name[0] == '#' ? EITHER /* generated name of its original: depends on addresses */ : THROWS);
        case ADD_THEIRS: return Y.doms.empty() ? DISABLED : THROWS;
        case ATTACH_O: if (!s.has) return DISABLED; if (s.att == y) return THROWS; s.att = x; return OK;
        case COPY_ASSIGN: copyfrom(Y); return OK;
        case MOVE_ASSIGN: X = Y; Y.doms.clear(); Y.nodes = 0; return OK;
        case COPY_CTOR: if (att) return DISABLED; copyfrom(Y); return OK;
        case MOVE_CTOR: if (att) return DISABLED; X = Y; Y.doms.clear(); Y.nodes = 0; return OK;
        case RECREATE: if (att) return DISABLED; X.doms.clear(); X.nodes = x + 1; return OK;
        default: { MeshM c = X; copyfrom(c); return OK; }
    }
}
static std::string key(const State &s) {
    std::map<std::string, int> names; std::string k;
    for (auto &m : s.m) { k += char('0' + m.nodes); for (auto &d : m.doms) { int n = d.name[0] == '#' ? 2 + names.emplace(d.name, names.size()).first->second : d.name[0] - 'a'; bool own = d.name == mc::str("#", d.id); k += mc::str(d.type, d.conn, d.gen, own ? "!" : "", n, ";"); } k += '|'; }
    if (s.has) k += mc::str(s.o.type, s.o.conn, s.o.gen, "@", s.att);
    return k;
}

// ------------------------------------------------------------------ implementation
static std::vector<M::WorldCoordinates> nodes_of(int tag) { std::vector<M::WorldCoordinates> p(4); for (int i = 0; i < 4; ++i) p[i] << coord(tag, i, 0), coord(tag, i, 1); return p; }
struct Real {
    std::unique_ptr<M> m[2]; BaseDomain *o = nullptr;
    std::map<int, const BaseDomain *> ptr;           // model id -> object
    std::map<std::string, std::string> names;        // symbolic -> actual
    Real() { for (int x = 0; x < 2; ++x) m[x] = std::make_unique<M>(nodes_of(x + 1)); }
    ~Real() { delete o; }
    std::string actual(const std::string &n) { return n.empty() || n[0] != '#' ? n : names[n]; }
};
static D0::ElementsIndices idx0(int conn) { auto c = conn_of(0, conn); D0::ElementsIndices r(c.size(), 2); for (size_t i = 0; i < c.size(); ++i) for (int j = 0; j < 2; ++j) r(i, j) = c[i][j]; return r; }
static D1::ElementsIndices idx1(int conn) { auto c = conn_of(1, conn); D1::ElementsIndices r(c.size(), 3); for (size_t i = 0; i < c.size(); ++i) for (int j = 0; j < 3; ++j) r(i, j) = c[i][j]; return r; }

static std::string HIST;
// executes op on the implementation; before = model state before, after = model state after. Returns "" or what went wrong.
static std::string apply(Real &r, const State &before, const State &after, int op, Out out) {
    std::string err;
    auto bad = [&](const std::string &w) { if (err.empty()) err = w; };
    auto expect_bool = [&](bool got) { if (got != (out == IS_TRUE)) bad(mc::str("returned ", got, " instead of ", out == IS_TRUE)); };
    const BaseDomain *ret = nullptr; bool expects_ret = false;
    try {
        if (op >= 2 * NPER) switch (op - 2 * NPER) {
            case G_SWAP: { using std::swap; swap(*r.m[0], *r.m[1]); break; }
            case G_NEWO: { auto i = idx1(1); r.o = new D1(nullptr, i); r.ptr[after.o.id] = r.o; break; }
            case G_DELO: delete r.o; r.o = nullptr; break;
            case G_COPYO: case G_MOVEO: {
                bool mv = op - 2 * NPER == G_MOVEO; BaseDomain *n = nullptr;
                if (auto *d = dynamic_cast<D0 *>(r.o)) n = mv ? new D0(std::move(*d)) : new D0(*d);
                else if (auto *e = dynamic_cast<D1 *>(r.o)) n = mv ? new D1(std::move(*e)) : new D1(*e);
                delete r.o; r.o = n; r.ptr[after.o.id] = n; break;
            }
        } else {
            int x = op / NPER, y = 1 - x; M &X = *r.m[x]; const MeshM &bx = before.m[x], &by = before.m[y], &ax = after.m[x];
            switch (op % NPER) {
                case ADD_A0: { auto i = idx0(0); expects_ret = true; ret = X.add_domain<Seg>(std::string("a"), i); i.setConstant(77); break; }
                case ADD_B1: { auto i = idx1(0); expects_ret = true; ret = X.add_domain<Tri, int>(std::string("b"), i); i.setConstant(77); break; }
                case ADD_A2: expects_ret = true; ret = X.add_domain<Seg>("a", static_cast<const UNSIGNED_INTEGER_TYPE *>(EXT), Eigen::Index(2), Eigen::Index(2), Eigen::Index(6), Eigen::Index(2)); break;
                case ADD_U0: { auto i = idx0(1); expects_ret = true; ret = X.add_domain<Seg>(i); i.setConstant(77); break; }
                case ADD_U1: { auto i = idx1(1); expects_ret = true; ret = X.add_domain<Tri, int>(i); i.setConstant(77); break; }
                case RM_A: expect_bool(X.remove_domain("a")); break;
                case RM_B: expect_bool(X.remove_domain("b")); break;
                case RM_ZZ: expect_bool(X.remove_domain("zz")); break;
                case RM_FIRST: expect_bool(X.remove(X.domain(UI(0)))); break;
                case RM_LAST: expect_bool(X.remove(r.ptr[bx.doms.back().id])); break;
                case RM_FOREIGN: expect_bool(X.remove(r.ptr[by.doms[0].id])); break;
                case RM_LASTNAME: expect_bool(X.remove_domain(r.actual(bx.doms.back().name))); break;
                case CLONE_FIRST: r.o = r.ptr[bx.doms[0].id]->clone(); r.ptr[after.o.id] = r.o; break;
                case CLONE_LAST: r.o = r.ptr[bx.doms.back().id]->clone(); r.ptr[after.o.id] = r.o; break;
                case ADDO_A: ret = X.add_domain(r.o, "a"); if (ret != r.o) bad("add_domain returned another domain"); r.o = nullptr; break;
                case ADDO_B: ret = X.add_domain(r.o, "b"); if (ret != r.o) bad("add_domain returned another domain"); r.o = nullptr; break;
                case ADDO_U: ret = X.add_domain(r.o); if (ret != r.o) bad("add_domain returned another domain"); r.o = nullptr; break;
                case READD_SAME: { auto *d = const_cast<BaseDomain *>(r.ptr[bx.doms[0].id]); if (X.add_domain(d, r.actual(bx.doms[0].name)) != d) bad("re-adding returned another domain"); break; }
                case READD_OTHER: X.add_domain(const_cast<BaseDomain *>(r.ptr[bx.doms[0].id]), "other name"); break;
                case READD_U: { auto *d = const_cast<BaseDomain *>(r.ptr[bx.doms[0].id]); if (X.add_domain(d) != d) bad("re-adding returned another domain"); break; }
                case ADD_THEIRS: X.add_domain(const_cast<BaseDomain *>(r.ptr[by.doms[0].id]), "theirs"); break;
                case ATTACH_O: r.o->attach_to(&X); break;
                case COPY_ASSIGN: X = *r.m[y]; break;
                case MOVE_ASSIGN: X = std::move(*r.m[y]); break;
                case COPY_CTOR: { auto n = std::make_unique<M>(*r.m[y]); r.m[x] = std::move(n); break; }
                case MOVE_CTOR: { auto n = std::make_unique<M>(std::move(*r.m[y])); r.m[x] = std::move(n); break; }
                case RECREATE: r.m[x] = std::make_unique<M>(nodes_of(x + 1)); break;
                case SELF: { M &self = X; X = self; break; }
            }
            if (expects_ret && out == OK) { r.ptr[ax.doms.back().id] = ret; if (!ret) bad("add_domain returned null"); }
            // objects whose identity is new: read them back
            auto &M2 = *r.m[x];
            if (out == OK && (op % NPER == COPY_ASSIGN || op % NPER == COPY_CTOR || op % NPER == SELF))
                for (size_t i = 0; i < ax.doms.size() && i < M2.number_of_domains(); ++i) r.ptr[ax.doms[i].id] = M2.domain(UI(i));
            // bind the name of a new unnamed domain
            if (out == OK && !ax.doms.empty() && ax.doms.back().name == mc::str("#", ax.doms.back().id) && !r.names.count(ax.doms.back().name)) {
                auto l = M2.domains(); if (l.size() == ax.doms.size()) r.names[ax.doms.back().name] = l.back().first;
            }
        }
        if (out == THROWS) bad("accepted although it must be rejected");
    } catch (const std::exception &e) {
        if (out != THROWS && out != EITHER) bad(mc::str("rejected: ", e.what()));
    }
    return err;
}
template <class D> std::string content(const D *d, const Dom &md, const M *mesh, int nodes) {
    auto c = conn_of(md.type, md.conn);
    if (d->number_of_elements() != c.size()) return mc::str("number_of_elements ", d->number_of_elements());
    if (d->number_of_nodes_per_elements() != c[0].size()) return mc::str("number_of_nodes_per_elements ", d->number_of_nodes_per_elements());
    for (size_t e = 0; e < c.size(); ++e) {
        auto ii = d->element_indices(e);
        for (size_t j = 0; j < c[e].size(); ++j) if ((long)ii[j] != c[e][j]) return mc::str("element ", e, " node ", j, " has index ", ii[j], " instead of ", c[e][j]);
        if (mesh && nodes) {
            const auto el = d->element(e);
            for (size_t j = 0; j < c[e].size(); ++j) for (int k = 0; k < 2; ++k)
                if (el.node(j)[k] != coord(nodes, c[e][j], k)) return mc::str("element ", e, " node ", j, " is at ", el.node(j)[0], ",", el.node(j)[1], " (not a position of its mesh)");
        }
    }
    return "";
}
static std::string content(const BaseDomain *d, const Dom &md, const M *mesh, int nodes) {
    if (!d) return "null domain";
    if (md.type == 1) { auto *p = dynamic_cast<const D1 *>(d); return p ? content(p, md, mesh, nodes) : "domain of another type"; }
    auto *p = dynamic_cast<const D0 *>(d); return p ? content(p, md, mesh, nodes) : "domain of another type";
}
static std::string compare(Real &r, const State &s) {
    std::set<const BaseDomain *> seen; std::string e;
    for (int x = 0; x < 2; ++x) {
        const M &X = *r.m[x]; const MeshM &mx = s.m[x]; const char n = "AB"[x];
        if (X.number_of_domains() != mx.doms.size()) return mc::str("mesh ", n, " has ", X.number_of_domains(), " domains instead of ", mx.doms.size());
        auto l = X.domains();
        if (l.size() != mx.doms.size()) return mc::str("mesh ", n, " lists ", l.size(), " domains instead of ", mx.doms.size());
        if (mx.nodes) {
            if (X.number_of_nodes() != 4) return mc::str("mesh ", n, " has ", X.number_of_nodes(), " nodes");
            for (int i = 0; i < 4; ++i) for (int k = 0; k < 2; ++k) if (X.position(i)[k] != coord(mx.nodes, i, k)) return mc::str("mesh ", n, " node ", i, " moved");
        }
        std::set<std::string> nm;
        for (size_t i = 0; i < l.size(); ++i) {
            const Dom &d = mx.doms[i];
            if (!nm.insert(l[i].first).second) return mc::str("mesh ", n, " has two domains named ", l[i].first);
            if (l[i].first != r.actual(d.name)) return mc::str("mesh ", n, " domain ", i, " is named ", l[i].first, " instead of ", r.actual(d.name));
            if (X.domain(UI(i)) != l[i].second) return mc::str("mesh ", n, " domain(", i, ") disagrees with the list");
            if (X.domain(l[i].first) != l[i].second) return mc::str("mesh ", n, " domain(\"", l[i].first, "\") is not the domain listed under that name");
            if (l[i].second != r.ptr[d.id]) return mc::str("mesh ", n, " domain ", i, " is another object than expected");
            if (!seen.insert(l[i].second).second) return mc::str("mesh ", n, " domain ", i, " is held twice");
            if (l[i].second->mesh() != &X) return mc::str("mesh ", n, " domain ", i, " does not refer to the mesh that holds it");
            if (!(e = content(l[i].second, d, &X, mx.nodes)).empty()) return mc::str("mesh ", n, " domain ", i, ": ", e);
        }
        if (X.domain("zz") != nullptr) return mc::str("mesh ", n, ": unknown name found");
        for (const char *q : {"A", "aa", "", "a ", "#0", "domain"}) if (X.domain(q) != nullptr) return mc::str("mesh ", n, ": a domain was found under the name \"", q, "\" that none has");
        for (const char *q : {"a", "b"}) if (findname(mx, q) < 0 && X.domain(q) != nullptr) return mc::str("mesh ", n, ": removed name ", q, " found");
    }
    if (s.has) {
        if (seen.count(r.o)) return "the free domain is held by a mesh";
        const BaseMesh *want = s.att < 0 ? nullptr : r.m[s.att].get();
        if (r.o->mesh() != want) return "the free domain refers to a mesh it is not attached to (or lost its mesh)";
        if (!(e = content(r.o, s.o, s.att < 0 ? nullptr : r.m[s.att].get(), s.att < 0 ? 0 : s.m[s.att].nodes)).empty()) return "free domain: " + e;
    }
    return "";
}
// one history: replayed from scratch, judged at every operation outcome and on the final state
static void replay(const std::vector<int> &h, const char *rule) {
    std::string hs; for (int op : h) hs += (hs.empty() ? "" : " ; ") + opname(op);
    mc::crumb(hs);
    Real r; State s; s.m[0].nodes = 1; s.m[1].nodes = 2;
    for (size_t i = 0; i < h.size(); ++i) {
        State b = s; Out o = step(s, h[i]);
        if (o == THROWS) s = b;
        std::string e = apply(r, b, s, h[i], o); mc::step();
        if (!e.empty()) { mc::check(false, rule, std::string(opname(h[i])), "history: ", hs, " => ", opname(h[i]), " ", e); return; }
        if (i + 1 == h.size()) { e = compare(r, s); mc::check(e.empty(), rule, opname(h[i]), "history: ", hs, " => ", e); }
    }
    mc::trace();
}
static std::unordered_set<std::string> KEYS;
static void all_sequences(std::vector<int> &h, const State &s, int depth, int part, int parts, unsigned long long &n, const char *rule) {
    for (int op = 0; op < NOPS; ++op) {
        State t = s; Out o = step(t, op);
        if (o == DISABLED) continue;
        if (o == THROWS) t = s;
        h.push_back(op);
        if (n++ % parts == (unsigned)part) { if (KEYS.insert(key(t)).second) mc::state(); replay(h, rule); }
        if (depth > 1) all_sequences(h, t, depth - 1, part, parts, n, rule);
        h.pop_back();
    }
}
int main(int c, char **v) {
    return mc::run(c, v, [] {
        mc::watchdog_seconds() = mc::thorough() ? 1 : 10;
        const char *a = getenv("MC_PART"), *b = getenv("MC_PARTS");
        int part = a ? atoi(a) : 0, parts = b ? atoi(b) : 1;
        State s0; s0.m[0].nodes = 1; s0.m[1].nodes = 2;
        const bool th = mc::thorough();
        unsigned long long n = 0;
        // many domains with names that are prefixes of each other; each one removed in turn
        if (part == 0) for (int cnt : {1, 2, 3, 11, 40}) for (int r = 0; r < cnt; ++r) for (int how = 0; how < 2; ++how) {
            mc::trace(); mc::crumb(mc::str(cnt, " domains, number ", r, " removed"));
            M m(nodes_of(1)); std::vector<const BaseDomain *> p; std::vector<std::string> nm;
            for (int i = 0; i < cnt; ++i) { nm.push_back(i == 6 ? std::string() : i % 3 == 2 ? std::string(i / 3 + 1, 'x') : mc::str("d", i)); if (i % 2) p.push_back(m.add_domain<Seg>(nm.back(), idx0(i % 4 / 2))); else p.push_back(m.add_domain<Tri, int>(nm.back(), idx1(i % 4 / 2))); mc::step(); }
            bool ok = how ? m.remove(p[r]) : m.remove_domain(nm[r]); mc::step();
            mc::check(ok, "many-domains", "remove", cnt, " domains, removal of number ", r, " refused");
            auto look = [&](const M &x, bool copy, const char *w) {
                mc::state(); auto l = x.domains(); bool good = l.size() == (size_t)cnt - 1 && x.number_of_domains() == (UI)cnt - 1 && x.domain(nm[r]) == nullptr;
                for (int i = 0, k = 0; good && i < cnt; ++i) { if (i == r) continue;
                    good = l[k].first == nm[i] && (copy ? l[k].second != p[i] : l[k].second == p[i]) && x.domain(UI(k)) == l[k].second && x.domain(nm[i]) == l[k].second && l[k].second->mesh() == &x;
                    if (good) good = content(l[k].second, Dom{0, i % 2 ? 0 : 1, i % 4 / 2, 0, ""}, &x, 1).empty();
                    ++k; }
                mc::check(good, "many-domains", w, cnt, " domains, number ", r, " removed ", how ? "by pointer" : "by name", ": the others are not what they were (", w, ")");
            };
            look(m, false, "remaining"); M c2(m); look(c2, true, "copy"); M c3(std::move(m)); look(c3, false, "moved"); M c4; c4 = c2; look(c4, true, "assigned");
            mc::check(!c3.remove_domain(nm[r]), "many-domains", "remove-again", cnt, " domains, number ", r, " removed twice");
        }
        { std::vector<int> h; all_sequences(h, s0, th ? 4 : 3, part, parts, n, "sequence"); }
        const std::vector<std::vector<int>> starts = {
            {ADD_A0, ADD_B1, ADD_U0, NPER + ADD_U1, NPER + ADD_A2, 2 * NPER + G_NEWO},
            {ADD_A2, ADD_U1, NPER + ADD_B1, NPER + COPY_ASSIGN, CLONE_LAST},
            {ADD_A0, ADD_U0, NPER + MOVE_ASSIGN, ADD_B1, ADD_U0, ADD_U1, CLONE_FIRST, NPER + ATTACH_O}};
        for (auto h : starts) {
            State s = s0; for (int op : h) if (step(s, op) == DISABLED) { fprintf(stderr, "bad start\n"); abort(); }
            all_sequences(h, s, th ? 3 : 2, part, parts, n, "sequence-from-populated");
        }
        mc::bound("sequences", mc::str("all of the ", NOPS, "-operation alphabet to depth ", th ? 4 : 3, " from empty meshes, to depth ", th ? 3 : 2, " from 3 populated states"));
        // abstract state graph
        const int maxdepth = th ? 6 : 5;
        struct N { State s; std::vector<int> h; };
        std::unordered_set<std::string> seen{key(s0)}; std::deque<N> q{{s0, {}}};
        unsigned long long t = 0, cap = th ? 2500000 : 400000; bool capped = false;
        while (!q.empty()) {
            N cur = std::move(q.front()); q.pop_front();
            if (part == 0) mc::state();
            for (int op = 0; op < NOPS; ++op) {
                State x = cur.s; Out o = step(x, op);
                if (o == DISABLED) continue;
                if (o == THROWS) x = cur.s;
                if (x.m[0].doms.size() + x.m[1].doms.size() > (th ? 4u : 3u)) continue;
                std::vector<int> h = cur.h; h.push_back(op);
                if (t++ % parts == (unsigned)part) { if (h.size() > 3) replay(h, "state-graph"); }
                if ((int)h.size() < maxdepth) { if (seen.size() >= cap) capped = true; else if (seen.insert(key(x)).second) q.push_back({x, h}); }
            }
        }
        mc::bound("state-graph", mc::str("every transition out of the ", seen.size(), " abstract states (at most ", th ? 4 : 3, " domains in total) reached within ", maxdepth - 1, " operations", capped ? " (capped)" : ""));
        if (part == 0) mc::sample("start", "A.add_named(a,segments) ; A.add_named(b,triangles<int>) ; ... ; B.= other (copy) ; A.remove_domain(a)");
    });
}
