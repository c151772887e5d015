// C05: quadrature rules: reported count, points inside, weights, exactness, element measure.
#include "ref.h"
using namespace ref;

static LD det_measure(const Elem &e, const Eigen::MatrixXd &n, const V3 &x) { // reference volume element
    auto d = e.dL(x); int D = n.cols(), C = e.dim;
    LD J[3][3] = {{0}};
    for (int r = 0; r < D; ++r) for (int k = 0; k < C; ++k) for (long i = 0; i < n.rows(); ++i) J[r][k] += d[i][k] * (LD)n(i, r);
    LD G[3][3]; for (int a = 0; a < C; ++a) for (int b = 0; b < C; ++b) { G[a][b] = 0; for (int r = 0; r < D; ++r) G[a][b] += J[r][a] * J[r][b]; }
    LD det = C == 1 ? G[0][0] : C == 2 ? G[0][0] * G[1][1] - G[0][1] * G[1][0]
        : G[0][0] * (G[1][1] * G[2][2] - G[1][2] * G[2][1]) - G[0][1] * (G[1][0] * G[2][2] - G[1][2] * G[2][0]) + G[0][2] * (G[1][0] * G[2][1] - G[1][1] * G[2][0]);
    return sqrtl(det);
}
template <class E> void run_elem(E *) {
    const Elem &e = Info<E>::e();
    const std::string nm = Info<E>::name();
    constexpr int D = g::traits<E>::Dimension, N = g::traits<E>::NumberOfNodesAtCompileTime;
    // degree each rule must integrate exactly: total degree for simplices, degree per direction otherwise
    int deg = e.simplex() ? e.order : (e.kind == LINE && e.order == 1 ? 1 : 3);
    auto rule = [&](const E &m, const std::string &desc) {
        const auto &gn = m.gauss_nodes(); mc::step();
        mc::check(m.number_of_gauss_nodes() == gn.size(), "count", nm, desc, " reported ", m.number_of_gauss_nodes(), " actual ", gn.size());
        LD s = 0;
        size_t i = 0;
        for (auto &p : gn) {
            mc::state();
            V3 x{0, 0, 0}; for (int k = 0; k < e.dim; ++k) x[k] = (LD)p.position[k];
            mc::check(e.margin(x) > 0, "point-inside", nm, desc, " point ", i, " ", show(x));
            mc::check(p.weight > 0 && std::isfinite(p.weight), "weight-positive", nm, desc, " point ", i, " weight ", p.weight);
            auto &q = m.gauss_node(i); mc::step();
            mc::check(q.weight == p.weight && mc::maxdiff(q.position, p.position) == 0, "single-access", nm, desc, " point ", i);
            s += (LD)p.weight; ++i;
        }
        mc::check(mc::near((double)s, (double)e.measure(), 1e-12), "weights-sum", nm, desc, " sum ", (double)s, " reference measure ", (double)e.measure());
        int mx = e.simplex() ? deg : deg;
        for (int a = 0; a <= mx; ++a) for (int b = 0; b <= (e.dim > 1 ? mx : 0); ++b) for (int c = 0; c <= (e.dim > 2 ? mx : 0); ++c) {
            if (e.simplex() && a + b + c > deg) continue;
            mc::state();
            LD v = 0;
            for (auto &p : gn) v += (LD)p.weight * Elem::ipow(p.position[0], a) * (e.dim > 1 ? Elem::ipow(p.position[e.dim > 1 ? 1 : 0], b) : 1) * (e.dim > 2 ? Elem::ipow(p.position[e.dim > 2 ? 2 : 0], c) : 1);
            mc::check(mc::near((double)v, (double)e.integral(a, b, c), 1e-12), "monomial", nm + mc::str(":", a, b, c), desc, " u^", a, " v^", b, " w^", c, " got ", (double)v, " want ", (double)e.integral(a, b, c));
        }
    };
    mc::crumb(nm);
    { E el; mc::trace(); rule(el, nm + " default"); }
    configurations<E>([&](const Eigen::MatrixXd &n, const std::string &desc, bool affine) {
        mc::trace(); mc::crumb(desc);
        E m = build<E>(n);
        rule(m, desc);
        Eigen::MatrixXd nodes = n;
        if (Info<E>::rect) { Eigen::Matrix<double, N, D> t = m.nodes(); nodes = t; affine = true; }
        // measure of the element = sum w |J|; exact whenever |J| is a polynomial the rule integrates
        bool exact = affine || (D == e.dim && !e.simplex() && e.order == 1) || (D == e.dim && e.kind == LINE);
        const double cond = [&] { double lo = 1e300, hi = 0; for (long r = 0; r < nodes.cols(); ++r) { hi = std::max(hi, nodes.col(r).cwiseAbs().maxCoeff()); } for (long i = 1; i < nodes.rows(); ++i) lo = std::min(lo, (nodes.row(i) - nodes.row(0)).norm()); return 1 + hi / lo * 1e-2; }();
        LD v = 0; for (auto &p : m.gauss_nodes()) {
            auto J = m.jacobian(p.position); mc::step();
            double dj; if constexpr (D == g::traits<E>::CanonicalDimension) dj = std::fabs(J.determinant()); else dj = std::sqrt((J.transpose() * J).determinant());
            v += (LD)p.weight * (LD)dj;
        }
        if (!exact) return;
        // independent: composite high-order integration of the reference volume element (Gauss-Legendre 5 per direction / Duffy for simplices)
        static const LD gx[5] = {0, 0.538469310105683091036314420700208804967L, -0.538469310105683091036314420700208804967L, 0.906179845938663992797626878299392965125L, -0.906179845938663992797626878299392965125L};
        static const LD gw[5] = {0.568888888888888888888888888888888888889L, 0.478628670499366468041291514835638192912L, 0.478628670499366468041291514835638192912L, 0.236926885056189087514264040719917362644L, 0.236926885056189087514264040719917362644L};
        LD ref = 0;
        mc::product(std::vector<int>(e.dim, 5), [&](const std::vector<int> &d) {
            V3 x{0, 0, 0}; LD w = 1;
            if (!e.simplex()) { for (int k = 0; k < e.dim; ++k) { x[k] = gx[d[k]]; w *= gw[d[k]]; } }
            else {
                LD t[3] = {0, 0, 0}; for (int k = 0; k < e.dim; ++k) { t[k] = (gx[d[k]] + 1) / 2; w *= gw[d[k]] / 2; }
                if (e.dim == 2) { x[0] = t[0]; x[1] = t[1] * (1 - t[0]); w *= (1 - t[0]); }
                else { x[0] = t[0]; x[1] = t[1] * (1 - t[0]); x[2] = t[2] * (1 - t[0]) * (1 - t[1]); w *= (1 - t[0]) * (1 - t[0]) * (1 - t[1]); }
            }
            ref += w * det_measure(e, nodes, x);
        });
        mc::check(mc::near((double)v, (double)ref, 1e-10 * std::fabs((double)ref) * cond), "element-measure", nm, desc, " got ", (double)v, " want ", (double)ref);
    }, 0.125);
    mc::sample(nm, mc::str(E().gauss_nodes().size(), " points, exact degree ", deg, e.simplex() ? " (total)" : " (per direction)"));
    mc::bound("monomials", "all monomials up to the rule's degree; measures of affine images and of displaced multilinear elements");
}
int main(int c, char **v) { return mc::run(c, v, [] { for_shard([](auto *p) { run_elem(p); }); }); }
