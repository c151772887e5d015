// C16: VTK unstructured grids: what is read, from every small file and every truncation of a file.
#include "mc.h"
#include <memory>
#include <array>
#include <fstream>
#include <filesystem>
#include <algorithm>
#include <Eigen/Dense>
#include <Caribou/config.h>
#include <Caribou/constants.h>
#include <Caribou/Geometry/Segment.h>
#include <Caribou/Geometry/Triangle.h>
#include <Caribou/Geometry/Quad.h>
#include <Caribou/Geometry/Tetrahedron.h>
#include <Caribou/Geometry/Hexahedron.h>
#include <Caribou/Topology/Mesh.h>
#include <Caribou/Topology/IO/VTKReader.h>
#include <vtkObject.h>
#include <vtkCell.h>
#include <vtkGenericCell.h>
#include <vtkSmartPointer.h>
#include <vtkPoints.h>
#include <vtkUnstructuredGrid.h>
#include <vtkUnstructuredGridWriter.h>
#include <vtkNew.h>
using namespace caribou; using namespace caribou::topology; using namespace caribou::geometry;
using UI = UNSIGNED_INTEGER_TYPE;
#ifndef SHARD
#define SHARD 3
#endif
static std::string scratch;

struct Cell { int type; std::vector<int> n; };
struct File { std::vector<std::array<double, 3>> p; std::vector<Cell> c; };
struct TypeInfo { int type, nodes; const char *name; };
// supported by the reader (VTK's own numbering), then cells it does not know
static const TypeInfo T[] = {{3, 2, "line"}, {21, 3, "quadratic_edge"}, {9, 4, "quad"}, {23, 8, "quadratic_quad"}, {5, 3, "triangle"}, {22, 6, "quadratic_triangle"},
                             {10, 4, "tetra"}, {24, 10, "quadratic_tetra"}, {12, 8, "hexahedron"}, {25, 20, "quadratic_hexahedron"},
                             {1, 1, "vertex"}, {13, 6, "wedge"}, {7, 5, "polygon"}, {14, 5, "pyramid"}, {11, 8, "voxel"}, {28, 9, "biquadratic_quad"}, {4, 3, "poly_line"}};
static const int NT = sizeof(T) / sizeof(T[0]);

static std::string num(double v) { char b[40]; snprintf(b, 40, "%.17g", v); return b; }
static std::string ascii(const File &f, const char *scalar = "double") {
    std::string s = "# vtk DataFile Version 3.0\nmodel\nASCII\nDATASET UNSTRUCTURED_GRID\nPOINTS " + std::to_string(f.p.size()) + " " + scalar + "\n";
    for (auto &p : f.p) s += num(p[0]) + " " + num(p[1]) + " " + num(p[2]) + "\n";
    size_t tot = 0; for (auto &c : f.c) tot += c.n.size() + 1;
    s += "CELLS " + std::to_string(f.c.size()) + " " + std::to_string(tot) + "\n";
    for (auto &c : f.c) { s += std::to_string(c.n.size()); for (int i : c.n) s += " " + std::to_string(i); s += "\n"; }
    s += "CELL_TYPES " + std::to_string(f.c.size()) + "\n";
    for (auto &c : f.c) s += std::to_string(c.type) + "\n";
    return s;
}
static std::string put(const std::string &bytes, const char *name = "f.vtk") {
    std::string p = scratch + "/" + name; FILE *o = fopen(p.c_str(), "wb"); if (!bytes.empty()) fwrite(bytes.data(), 1, bytes.size(), o); fclose(o); return p;
}
static std::string vtkwrite(const File &f, bool binary, int version, bool flt) {
    vtkNew<vtkPoints> p; p->SetDataType(flt ? VTK_FLOAT : VTK_DOUBLE); for (auto &x : f.p) p->InsertNextPoint(x[0], x[1], x[2]);
    vtkNew<vtkUnstructuredGrid> g; g->SetPoints(p);
    for (auto &c : f.c) { std::vector<vtkIdType> ids(c.n.begin(), c.n.end()); g->InsertNextCell(c.type, ids.size(), ids.data()); }
    vtkNew<vtkUnstructuredGridWriter> w; w->SetInputData(g); w->SetFileVersion(version); if (binary) w->SetFileTypeToBinary(); else w->SetFileTypeToASCII();
    w->SetWriteToOutputString(1); w->Write();
    return std::string(reinterpret_cast<const char *>(w->GetBinaryOutputString()), w->GetOutputStringLength());
}
static std::string show(const File &f) {
    std::string s = mc::str(f.p.size(), " points, ", f.c.size(), " cells"); if (f.c.size() > 100) return s; for (auto &p : f.p) { if (f.p.size() > 6) break; s += mc::str(" (", p[0], " ", p[1], " ", p[2], ")"); }
    for (auto &c : f.c) { s += mc::str("; cell type ", c.type, ":"); for (int i : c.n) s += mc::str(" ", i); } return s;
}
// Position, in a VTK cell of this type, of the node that Caribou numbers k: both reference elements describe the same point.
template <class El> std::vector<int> to_caribou(int type) {
    vtkNew<vtkGenericCell> g; g->SetCellType(type); double *pc = g->GetParametricCoords();
    El e; const auto nodes = e.nodes(); const int n = (int)nodes.rows(); std::vector<int> r(n, -1);
    const bool simplex = type == 5 || type == 22 || type == 10 || type == 24;
    for (int k = 0; k < n; ++k) for (int j = 0; j < n; ++j) {
        bool same = true;
        for (int d = 0; d < El::CanonicalDimension; ++d) { double v = pc[3 * j + d]; if (!simplex) v = 2 * v - 1; same = same && std::fabs(v - double(nodes(k, d))) < 1e-12; }
        if (same) r[k] = j;
    }
    return r;
}
template <int D, class NI> struct Checker {
    using Reader = io::VTKReader<D, NI>; using M = Mesh<D>;
    File f; std::vector<int> axes; std::string key, what;
    template <class El, class ElRef> void domain(const M &m, int type, size_t &found) {
        using Dom = typename M::template Domain<El, NI>;
        const Dom *d = nullptr; int nd = 0;
        for (auto &p : m.domains()) if (auto *q = dynamic_cast<const Dom *>(p.second)) { d = q; ++nd; }
        std::vector<Cell> cells; for (auto &c : f.c) if (c.type == type) cells.push_back(c);
        found += nd;
        if (!mc::check(nd == (cells.empty() ? 0 : 1), "one-domain-per-type", key, what, ": ", nd, " domain(s) for the ", cells.size(), " cell(s) of type ", type) || !d) return;
        if (!mc::check(d->number_of_elements() == cells.size(), "number-of-elements", key, what, ": type ", type, " has ", d->number_of_elements(), " elements")) return;
        if (!mc::check((const BaseMesh *)d->mesh() == (const BaseMesh *)&m, "domain-attached", key, what)) return;
        static const std::vector<int> perm = to_caribou<ElRef>(type);
        static const int meshio[20] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 18, 11, 10, 14, 15, 12, 13, 16, 19, 17};
        for (size_t i = 0; i < cells.size(); ++i) {
            const auto ids = d->element_indices(i); mc::step(2);
            bool ok = ids.size() == (long)perm.size(), alt = ok && type == 25; std::string got;
            for (long k = 0; k < ids.size(); ++k) { got += mc::str(" ", ids[k]); ok = ok && (long)ids[k] == cells[i].n[perm[k]]; alt = alt && (long)ids[k] == cells[i].n[meshio[k]]; }
            if (!ok && alt) mc::check(false, "quadratic-hexahedron-order", "meshio 4.0 edge order", what, ": a valid file in VTK's node order is reordered as if it were in the order meshio 4.0 writes; element ", i, " got", got);
            else mc::check(ok, "connectivity", key, what, ": type ", type, " element ", i, " got", got);
            const auto e = d->element(i); const auto nodes = e.nodes(); bool geo = true;
            for (long k = 0; k < nodes.rows(); ++k) for (int a = 0; a < D; ++a) geo = geo && k < ids.size() && (UI)ids[k] < f.p.size() && double(nodes(k, a)) == f.p[ids[k]][axes[a]];
            mc::check(geo, "element-geometry", key, what, ": type ", type, " element ", i, " nodes ", mc::show(nodes));
        }
    }
    void mesh(const M &m) {
        if (!mc::check(m.number_of_nodes() == f.p.size(), "number-of-nodes", key, what, ": ", m.number_of_nodes())) return;
        for (size_t i = 0; i < f.p.size(); ++i) {
            const auto p = m.position(i); bool ok = true; for (int a = 0; a < D; ++a) ok = ok && double(p[a]) == f.p[i][axes[a]]; mc::step();
            mc::check(ok, "node", key, what, ": node ", i, " is ", mc::show(p));
        }
        size_t found = 0;
        domain<Segment<D, Linear>, Segment<1, Linear>>(m, 3, found); domain<Segment<D, Quadratic>, Segment<1, Quadratic>>(m, 21, found);
        if constexpr (D > 1) {
            domain<Quad<D, Linear>, Quad<2, Linear>>(m, 9, found); domain<Quad<D, Quadratic>, Quad<2, Quadratic>>(m, 23, found);
            domain<Triangle<D, Linear>, Triangle<2, Linear>>(m, 5, found); domain<Triangle<D, Quadratic>, Triangle<2, Quadratic>>(m, 22, found);
        }
        if constexpr (D > 2) {
            domain<Tetrahedron<Linear>, Tetrahedron<Linear>>(m, 10, found); domain<Tetrahedron<Quadratic>, Tetrahedron<Quadratic>>(m, 24, found);
            domain<Hexahedron<Linear>, Hexahedron<Linear>>(m, 12, found); domain<Hexahedron<Quadratic>, Hexahedron<Quadratic>>(m, 25, found);
        }
        mc::check(m.number_of_domains() == found, "no-other-domain", key, what, ": ", m.number_of_domains(), " domains, ", found, " of them expected");
        std::set<std::string> names; for (auto &p : m.domains()) names.insert(p.first);
        mc::check(names.size() == m.number_of_domains(), "domain-names", key, what);
    }
};
// The axes along which the points of a file differ (what a 1D or 2D mesh is made of).
static std::vector<int> varying(const File &f) {
    std::vector<int> a; for (int d = 0; d < 3; ++d) { bool v = false; for (auto &p : f.p) v = v || p[d] != f.p[0][d]; if (v) a.push_back(d); } return a;
}
template <int D, class NI> void read(const File &f, const std::string &bytes, const std::string &key, bool twice) {
    mc::state(); mc::trace();
    Checker<D, NI> ck{f, {}, key, {}}; ck.what = mc::str(D, "D ", key, ": ", show(f)); mc::crumb(ck.what);
    auto ax = varying(f); bool reject = D < 3 && (int)ax.size() != D && !f.p.empty();
    if (D == 3 || f.p.empty()) { ax.clear(); for (int d = 0; d < D; ++d) ax.push_back(d); }
    ck.axes = ax;
    const std::string path = put(bytes); mc::step(2);
    bool threw = false;
    try {
        auto r = std::make_unique<io::VTKReader<D, NI>>(io::VTKReader<D, NI>::Read(path));
        if (reject) { mc::check(false, "unconvertible-axes-rejected", key, ck.what, ": a file that varies along ", ax.size(), " axes was accepted"); return; }
        if (twice) { std::ostringstream o; r->print(o); auto m0 = r->mesh(); ck.mesh(m0); }
        auto m = r->mesh();
        if (twice) r.reset(); // the mesh must not depend on the reader
        ck.mesh(m);
    } catch (const std::exception &e) { threw = true; mc::check(reject, "valid-file-read", key, ck.what, ": rejected: ", e.what()); }
    if (reject) mc::check(threw, "unconvertible-axes-rejected", key, ck.what);
}
// n points with distinct coordinates (exact in float) along `axes`, constant elsewhere
static std::vector<std::array<double, 3>> points(int n, const std::vector<int> &axes, double constant) {
    std::vector<std::array<double, 3>> p(n, {constant, constant, constant});
    for (int i = 0; i < n; ++i) for (size_t a = 0; a < axes.size(); ++a) p[i][axes[a]] = (a == 0 ? i * 0.5 - 3 : a == 1 ? ((i * 7) % 23) * 0.25 + 1 : ((i * 5) % 29) * -0.125);
    return p;
}
static Cell cell(int t, int n, int start, int mul) { Cell c{T[t].type, {}}; for (int k = 0; k < T[t].nodes; ++k) c.n.push_back((start + k * mul) % n); return c; }

template <int D, class NI> void sequences(const std::vector<int> &alpha, int depth, const std::vector<int> &axes, double constant, const std::string &tag) {
    const int n = 23; // prime: every multiplier gives distinct nodes
    for (int len = 0; len <= depth; ++len) mc::product(std::vector<int>(len, (int)alpha.size()), [&](const std::vector<int> &d) {
        File f; f.p = points(n, axes, constant); int w = 0; for (int i = 0; i < n; ++i) for (int a : axes) f.p[i][a] += 0.1 * (i + 1); // not representable in single precision
        for (size_t k = 0; k < d.size(); ++k) { f.c.push_back(cell(alpha[d[k]], n, (3 * (int)k + d[k]) % n, 1 + (int)(k * 5 + d[k]) % (n - 1))); w += d[k]; }
        read<D, NI>(f, ascii(f), tag, w % 16 == 0);
        mc::sample(tag + mc::str(len), show(f).substr(0, 200));
    });
}
// which axes vary, and at which single node
template <int D, class NI> void axis_cases() {
    const int n = mc::thorough() ? 5 : 4;
    mc::product({n + 1, n + 1, n + 1, 3}, [&](const std::vector<int> &q) { // q[d]: 0 = constant along d, k = only node k-1 differs
        const double base[3] = {0., 1.5, -2.}; File f; f.p.assign(n, {base[q[3]], base[q[3]], base[q[3]]});
        for (int d = 0; d < 3; ++d) if (q[d]) f.p[q[d] - 1][d] += d == 0 ? 1. : d == 1 ? 1e-9 : -3.;
        f.c.push_back({3, {n - 1, 0}}); f.c.push_back({3, {0, 1}});
        read<D, NI>(f, ascii(f), "axes", false);
    });
    for (int np = 0; np <= 2; ++np) for (int mask = 0; mask < 8; ++mask) { // no, one, two points
        File f; for (int i = 0; i < np; ++i) f.p.push_back({(mask & 1) ? i + 1. : 1., (mask & 2) ? i - 1. : -1., (mask & 4) ? 2. * i + 1 : 1.});
        if (np == 2) f.c.push_back({3, {1, 0}});
        read<D, NI>(f, ascii(f), "few-points", true);
    }
}
template <int D, class NI> void formats(const std::vector<int> &alpha, const std::vector<int> &axes) {
    for (int bin = 0; bin < 2; ++bin) for (int ver : {42, 51}) for (int flt = 0; flt < 2; ++flt) for (int a : alpha) for (int b : alpha) {
        File f; f.p = points(23, axes, 1.5); f.c = {cell(a, 23, 2, 3), cell(b, 23, 5, 7), cell(a, 23, 1, 11)};
        if (bin && !flt) for (int i = 0; i < 23; ++i) for (int d : axes) f.p[i][d] += 0.1 * (i + 1);
        read<D, NI>(f, vtkwrite(f, bin, ver, flt), mc::str(bin ? "binary" : "ascii", " ", ver == 42 ? "4.2" : "5.1", flt ? " float" : " double"), false);
    }
}
// counts and indices beyond 8 and 16 bits
template <int D, class NI> void large(const std::vector<int> &axes) {
    for (int n : {300, 70001}) for (int bin = 0; bin < 2; ++bin) {
        File f; f.p.assign(n, {0.25, 0.25, 0.25}); for (int i = 0; i < n; ++i) for (size_t a = 0; a < axes.size(); ++a) f.p[i][axes[a]] = (a == 0 ? i * 0.5 : a == 1 ? (i % 997) * 0.25 : (i % 991) * -0.125) + 0.1;
        for (int i = 0; i + 4 < n; ++i) { f.c.push_back({3, {n - 1 - i, i}}); if (D > 1 && i % 3 == 0) f.c.push_back({5, {i, i + 2, n - 1 - i}}); if (D > 2 && i % 2) f.c.push_back({10, {i + 3, i, i + 1, n - 1}}); }
        read<D, NI>(f, bin ? vtkwrite(f, true, 51, false) : ascii(f), mc::str("large ", bin ? "binary" : "ascii"), false);
    }
}
// Every prefix of a file: an exception or a mesh that is consistent with what the file still says; never a crash or a hang.
template <int D, class NI> void truncations(const File &f, const std::string &bytes, const std::string &tag, size_t step) {
    std::vector<size_t> count(64, 0); for (auto &c : f.c) ++count[c.type];
    for (size_t cut = 0; cut < bytes.size(); cut += step) {
        mc::state(); mc::trace(); mc::step(2);
        const std::string what = mc::str(D, "D ", tag, " truncated to ", cut, " of ", bytes.size(), " bytes: ", show(f)); mc::crumb(what);
        const std::string path = put(bytes.substr(0, cut), "t.vtk");
        try {
            auto r = io::VTKReader<D, NI>::Read(path); std::ostringstream o; r.print(o);
            auto m = r.mesh();
            const UI n = m.number_of_nodes();
            mc::check(n <= f.p.size(), "truncated-nodes", tag, what, ": ", n, " nodes");
            size_t total = 0;
            for (auto &p : m.domains()) {
                const auto *dom = p.second; total += dom->number_of_elements();
                for (UI e = 0; e < dom->number_of_elements(); ++e) mc::check(dom->number_of_nodes_per_elements() > 0, "truncated-elements", tag, what);
            }
            mc::check(total <= f.c.size(), "truncated-elements", tag, what, ": ", total, " elements");
            mc::check(n > 0 || m.number_of_domains() == 0, "truncated-empty", tag, what);
        } catch (const std::exception &) { mc::check(true, "truncated-rejected", tag); }
    }
}
template <int D, class NI> void faults(const std::vector<int> &alpha, const std::vector<int> &axes) {
    auto rejected = [&](const std::string &what, const std::string &path, bool must_throw) {
        mc::state(); mc::trace(); mc::crumb(mc::str(D, "D ", what)); mc::step(2); bool threw = false; UI n = 0; size_t nd = 0;
        try { auto r = io::VTKReader<D, NI>::Read(path); std::ostringstream o; r.print(o); auto m = r.mesh(); n = m.number_of_nodes(); nd = m.number_of_domains(); } catch (const std::exception &) { threw = true; }
        mc::check(threw || (!must_throw && n == 0 && nd == 0), "bad-file-rejected", what, D, "D: exception ", threw, ", ", n, " nodes, ", nd, " domains");
    };
    rejected("missing file", scratch + "/does/not/exist.vtk", true);
    rejected("empty path", "", true);
    rejected("empty file", put("", "e.vtk"), false);
    rejected("a directory", scratch, false);
    rejected("not a vtk file", put("hello\nworld\n", "h.vtk"), false);
    rejected("header only", put("# vtk DataFile Version 3.0\nx\nASCII\n", "h.vtk"), false);
    rejected("another dataset", put("# vtk DataFile Version 3.0\nx\nASCII\nDATASET STRUCTURED_POINTS\nDIMENSIONS 2 2 2\nORIGIN 0 0 0\nSPACING 1 1 1\n", "h.vtk"), false);
    for (int a : alpha) {
        File f; f.p = points(T[a].nodes + 1, axes, 1.5); f.c = {cell(a, T[a].nodes + 1, 0, 1), cell(a, T[a].nodes + 1, 1, 1)};
        truncations<D, NI>(f, ascii(f), mc::str("ascii ", T[a].name), 1);
        truncations<D, NI>(f, vtkwrite(f, true, 42, false), mc::str("binary 4.2 ", T[a].name), mc::thorough() ? 1 : 3);
        truncations<D, NI>(f, vtkwrite(f, true, 51, true), mc::str("binary 5.1 ", T[a].name), mc::thorough() ? 1 : 3);
        if (mc::thorough()) truncations<D, NI>(f, vtkwrite(f, false, 51, false), mc::str("ascii 5.1 ", T[a].name), 1);
    }
}
// Registered builders: the given builder, and only it, receives the cells of its type.
template <int D, class NI> void builders(const std::vector<int> &alpha, const std::vector<int> &axes) {
    for (int t : alpha) for (int other : alpha) {
        File f; f.p = points(23, axes, 0.); f.c = {cell(t, 23, 1, 2), cell(other, 23, 3, 5), cell(t, 23, 2, 9)};
        const std::string what = mc::str(D, "D builder for ", T[t].name, ": ", show(f)); mc::crumb(what); mc::state(); mc::trace(); mc::step(3);
        auto r = io::VTKReader<D, NI>::Read(put(ascii(f)));
        int calls = 0; bool ok = true; std::vector<Cell> mine; for (auto &c : f.c) if (c.type == T[t].type) mine.push_back(c);
        r.register_element_type((VTKCellType)T[t].type, [&](Mesh<D> &m, const typename io::VTKReader<D, NI>::ElementsIndices &ids) -> BaseDomain * {
            ++calls; ok = ok && ids.rows() == (long)mine.size() && m.number_of_nodes() == f.p.size();
            for (size_t i = 0; ok && i < mine.size(); ++i) { ok = ids.cols() == (long)mine[i].n.size(); for (long k = 0; ok && k < ids.cols(); ++k) ok = (long)ids(i, k) == mine[i].n[k]; }
            return nullptr; });
        auto m = r.mesh();
        mc::check(calls == 1 && ok, "registered-builder", mc::str(D, "D ", T[t].name), what, ": calls ", calls, " content ", ok);
        const bool known = D == 3 ? other < 10 : D == 2 ? other < 6 : other < 2;
        mc::check(m.number_of_domains() == (other != t && known ? 1u : 0u), "registered-builder-others", mc::str(D, "D ", T[t].name), what, ": ", m.number_of_domains(), " domains");
    }
}
template <int D, class NI> void all(const char *ni) {
    const int part = atoi(getenv("MC_PART") ? getenv("MC_PART") : "0"), parts = atoi(getenv("MC_PARTS") ? getenv("MC_PARTS") : "1");
    (void)parts;
    std::vector<int> alpha; std::vector<std::vector<int>> ax;
    if (D == 3) { for (int t = 0; t < (mc::thorough() ? NT : 12); ++t) alpha.push_back(t); ax = {{0, 1, 2}}; }
    if (D == 2) { alpha = {0, 1, 2, 3, 4, 5, 6, 12, 10}; ax = {{0, 1}, {0, 2}, {1, 2}}; }
    if (D == 1) { alpha = {0, 1, 4, 10}; ax = {{0}, {1}, {2}}; }
    std::vector<int> every; for (int t = 0; t < NT; ++t) every.push_back(t);
    const bool main_type = sizeof(NI) == 8 && std::is_same<NI, unsigned long>::value;
    if (part == 0) for (size_t a = 0; a < ax.size(); ++a) sequences<D, NI>(alpha, D == 3 ? (main_type || mc::thorough() ? 3 : 2) : (a == 0 ? 3 : 2), ax[a], a == 1 ? -2.5 : a * 1., mc::str("sequence ", ni));
    if (part == 1) { axis_cases<D, NI>(); formats<D, NI>(main_type ? every : alpha, ax.back()); builders<D, NI>(every, ax.back()); }
    if (part == 2) large<D, NI>(ax.back());
    if (part == 2 && (main_type || mc::thorough())) faults<D, NI>(alpha, ax[0]);
}
int main(int argc, char **argv) {
    vtkObject::GlobalWarningDisplayOff();
    char tmpl[] = "vtkXXXXXX"; scratch = std::string(getcwd(nullptr, 0)) + "/" + mkdtemp(tmpl);
    int rc = mc::run(argc, argv, [] {
        all<SHARD, unsigned long>("unsigned long"); all<SHARD, unsigned int>("unsigned int"); all<SHARD, unsigned long long>("unsigned long long");
        mc::bound("files", "up to 3 cells, every sequence of cell types (supported and not), 23 nodes; also 300 and 70001 nodes with as many cells; ASCII and binary, legacy 4.2 and 5.1, float and double");
        mc::bound("truncations", mc::thorough() ? "every byte" : "every byte of ASCII files, every third byte of binary files");
    });
    std::filesystem::remove_all(scratch);
    return rc;
}
