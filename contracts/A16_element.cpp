#include "vc.h"
#include <cmath>
#include <array>
#include <vector>
#include <map>
#include "general_definitions.hpp"
#include "shape/shapes_2D.hpp"
#include "shape/shapes_2D/shape_straighttriangle.cpp"
#include "master/master_elements_2D.hpp"
#include "basis/bases_2D.hpp"
#include "integration/integrations_2D.hpp"
#include "basis/bases_2D/basis_dubiner_2D.cpp"
#include "basis/polynomials/basis_polynomials.cpp"
#include "integration/integrations_1D.hpp"
#include "integration/integrations_2D/integration_dunavant_2D.cpp"
#include "integration/integrations_1D/integration_gausslegendre_1D.cpp"
#include "geometry/raw_boundary.hpp"
#include "geometry/element.hpp"
#include "geometry/boundary.hpp"
// A real element (order p, arbitrary counter-clockwise vertices) and its three real boundaries
namespace {
struct Sizes {  // stands for the problem's data class: only told the sizes
    uint nnode = 0, nvrtx = 0, nbound = 0, ndof = 0, ngp = 0, ngp_b[3] = {0, 0, 0};
    void set_nnode(uint n) { nnode = n; } void set_nvrtx(uint n) { nvrtx = n; } void set_nbound(uint n) { nbound = n; } void set_ndof(uint n) { ndof = n; }
    void set_ngp_internal(uint n) { ngp = n; } void set_ngp_boundary(uint b, uint n) { ngp_b[b] = n; }
};
struct NoCondition {};
typedef Master::Triangle<Basis::Dubiner_2D, Integration::Dunavant_2D> Tri;
typedef Geometry::Element<2, Tri, Shape::StraightTriangle, Sizes> Elem;
typedef Geometry::RawBoundary<1, Sizes> Raw;
typedef Geometry::Boundary<1, Integration::GaussLegendre_1D, Sizes, NoCondition> Bound;
struct V {
    double x[3], y[3];
    double area2() const { return (x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0]); }
    double edge2(uint b) const { uint i = (b + 1) % 3, j = (b + 2) % 3; return (x[j] - x[i]) * (x[j] - x[i]) + (y[j] - y[i]) * (y[j] - y[i]); }
};
V vertices() {
    V v; v.x[0] = REAL("x0"); v.y[0] = REAL("y0"); v.x[1] = REAL("x1"); v.y[1] = REAL("y1"); v.x[2] = REAL("x2"); v.y[2] = REAL("y2");
    REQUIRES(v.area2() > 0.0); NATIVE_REQUIRES(v.area2() > 0.05);
    for (uint b = 0; b < 3; ++b) REQUIRES(v.edge2(b) > 0.0);
    return v;
}
AlignedVector<Point<3>> nodes(const V& v) { AlignedVector<Point<3>> n(3); for (int i = 0; i < 3; ++i) { n[i][0] = v.x[i]; n[i][1] = v.y[i]; n[i][2] = 0.0; } return n; }
struct Face { Raw raw; Bound b; Face(Elem& e, Tri& m, uint id) : raw(m.p, id, e.GetShape().GetBoundaryNodeID(id, e.GetNodeID()), e.data, m.basis, m, const_cast<Shape::StraightTriangle&>(e.GetShape())), b(std::move(raw)) {} };
Elem element(const V& v, Tri& m) { return Elem(7, m, nodes(v), {10, 11, 12}, {1, 2, 3}, {0, 0, 0}); }
HybMatrix<double, 1> modes(uint n, const char* name) { HybMatrix<double, 1> u(1, n); for (uint i = 0; i < n; ++i) u(0, i) = REAL(name); return u; }
}
CONTRACT(projection) {  // any function of the discrete space is reproduced by its projection
    uint p = (uint)vc_choose("p", 1, 3); Tri m(p); V v = vertices(); Elem e = element(v, m);
    ENSURES("sizes handed to the data", e.data.nnode == 3 && e.data.nvrtx == 3 && e.data.nbound == 3 && e.data.ndof == m.ndof && e.data.ngp == m.ngp && e.GetID() == 7);
    HybMatrix<double, 1> u = modes(m.ndof, "u");
    HybMatrix<double, 1> ugp = e.ComputeUgp(u);
    HybMatrix<double, 1> r = e.L2Projection(ugp);
    HybMatrix<double, 1> s = e.ApplyMinv(e.IntegrationPhi(ugp));
    for (uint i = 0; i < m.ndof; ++i) { ENSURES_NEAR("projection of a discrete function", r(0, i), u(0, i), 1e-11); ENSURES_NEAR("inverse mass matrix of the weighted integrals", s(0, i), u(0, i), 1e-11); }
}
CONTRACT(integrals) {  // integrals over the element and tables of products of basis functions
    uint p = (uint)vc_choose("p", 1, 2); Tri m(p); V v = vertices(); Elem e = element(v, m);
    HybMatrix<double, 1> w = modes(m.ngp, "w");
    double det = v.area2() / 4;
    auto tot = e.Integration(w);
    HybMatrix<double, 1> all = e.IntegrationPhi(w);
    double s = 0; for (uint g = 0; g < m.ngp; ++g) s += w(0, g) * m.integration_rule.first[g] * det;
    ENSURES_NEAR("integral", tot[0], s, 1e-12);
    uint i = (uint)vc_choose("i", 0, 5), j = (uint)vc_choose("j", 0, 5); REQUIRES(i < m.ndof && j < m.ndof);
    double si = 0, sij = 0, d[2] = {0, 0}, dd[2] = {0, 0}; auto ji = e.GetShape().GetJinv(m.integration_rule.second)[0];
    for (uint g = 0; g < m.ngp; ++g) {
        double t = w(0, g) * m.integration_rule.first[g] * det;
        si += t * m.phi_gp(i, g); sij += t * m.phi_gp(i, g) * m.phi_gp(j, g);
        for (uint k = 0; k < 2; ++k) { double dk = m.dphi_gp[0](j, g) * ji(0, k) + m.dphi_gp[1](j, g) * ji(1, k); d[k] += t * dk; dd[k] += t * m.phi_gp(i, g) * dk; }
    }
    ENSURES_NEAR("with a basis function", e.IntegrationPhi(i, w)[0], si, 1e-11); ENSURES_NEAR("all basis functions", all(0, i), si, 1e-11);
    ENSURES_NEAR("with a product of basis functions", e.IntegrationPhiPhi(i, j, w)[0], sij, 1e-11);
    for (uint k = 0; k < 2; ++k) {
        HybMatrix<double, 1> da = e.IntegrationDPhi(k, w);
        ENSURES_NEAR("with a gradient", e.IntegrationDPhi(k, j, w)[0], d[k], 1e-11); ENSURES_NEAR("all gradients", da(0, j), d[k], 1e-11);
        ENSURES_NEAR("with a basis function and a gradient", e.IntegrationPhiDPhi(i, k, j, w)[0], dd[k], 1e-11);
    }
}
CONTRACT(gradient) {  // gradients of discrete, linear and nodal functions are gradients in space
    uint p = (uint)vc_choose("p", 1, 2); Tri m(p); V v = vertices(); Elem e = element(v, m);
    double gx = REAL("gx"), gy = REAL("gy"), c = REAL("c");
    HybMatrix<double, 1> n(1, 3); for (uint k = 0; k < 3; ++k) n(0, k) = c + gx * v.x[k] + gy * v.y[k];
    HybMatrix<double, 1> u = e.L2ProjectionNode(n), lin = e.ProjectBasisToLinear(u), back = e.ProjectLinearToBasis(n), ugp = e.ComputeUgp(u), ngp = e.ComputeNodalUgp(n), lgp = e.ComputeLinearUgp(n);
    HybMatrix<double, 1> fgp = e.ComputeFgp([=](const Point<2>& x) { StatVector<double, 1> r; r[0] = c + gx * x[0] + gy * x[1]; return r; });
    for (uint k = 0; k < 3; ++k) ENSURES_NEAR("vertex values of a projected linear function", lin(0, k), n(0, k), 1e-11);
    for (uint i = 0; i < m.ndof; ++i) ENSURES_NEAR("modes of a linear function", back(0, i), u(0, i), 1e-11);
    for (uint g = 0; g < m.ngp; ++g) {
        ENSURES_NEAR("projected linear function at a point", ugp(0, g), fgp(0, g), 1e-11); ENSURES_NEAR("nodal function at a point", ngp(0, g), fgp(0, g), 1e-11); ENSURES_NEAR("linear function at a point", lgp(0, g), fgp(0, g), 1e-11);
    }
    for (uint k = 0; k < 2; ++k) {
        double ex = k ? gy : gx;
        HybMatrix<double, 1> a = e.ComputeDUgp(k, u), b = e.ComputeNodalDUgp(k, n), l = e.ComputeLinearDUgp(k, n);
        for (uint g = 0; g < m.ngp; ++g) { ENSURES_NEAR("gradient of the projection", a(0, g), ex, 1e-10); ENSURES_NEAR("gradient of the nodal function", b(0, g), ex, 1e-11); ENSURES_NEAR("gradient of the linear function", l(0, g), ex, 1e-11); }
        ENSURES_NEAR("gradient at the barycentre", e.ComputeLinearDUbaryctr(k, n)[0], ex, 1e-11);
    }
}
CONTRACT(by_parts) {  // volume and boundary integrals balance: constant and polynomial fields leave no spurious residual
    uint p = (uint)vc_choose("p", 1, 2); Tri m(p); V v = vertices(); Elem e = element(v, m);
    HybMatrix<double, 1> fx = modes(m.ndof, "fx"), fy = modes(m.ndof, "fy");
    HybMatrix<double, 1> vol = e.IntegrationDPhi(0, e.ComputeUgp(fx)), vy = e.IntegrationDPhi(1, e.ComputeUgp(fy)), div = e.IntegrationPhi(e.ComputeDUgp(0, fx)), dy = e.IntegrationPhi(e.ComputeDUgp(1, fy));
    HybMatrix<double, 1> sum(1, m.ndof);
    for (uint i = 0; i < m.ndof; ++i) sum(0, i) = vol(0, i) + vy(0, i) + div(0, i) + dy(0, i);
    for (uint id = 0; id < 3; ++id) {
        Face f(e, m, id);
        HybMatrix<double, 1> x = f.b.ComputeUgp(fx), y = f.b.ComputeUgp(fy), fn(1, x.cols());
        ENSURES("boundary points announced", e.data.ngp_b[id] == (uint)x.cols());
        for (uint g = 0; g < (uint)x.cols(); ++g) fn(0, g) = x(0, g) * f.b.surface_normal(0, g) + y(0, g) * f.b.surface_normal(1, g);
        HybMatrix<double, 1> bi = f.b.IntegrationPhi(fn);
        for (uint i = 0; i < m.ndof; ++i) sum(0, i) -= bi(0, i);
    }
    for (uint i = 0; i < m.ndof; ++i) ENSURES_NEAR("integration by parts", sum(0, i), 0.0, 1e-10);
}
CONTRACT(boundary) {  // tables of one boundary
    uint p = (uint)vc_choose("p", 1, 2); Tri m(p); V v = vertices(); Elem e = element(v, m);
    uint id = (uint)vc_choose("edge", 0, 2), a = (id + 1) % 3, c = (id + 2) % 3; Face f(e, m, id);
    Integration::GaussLegendre_1D q; auto rule = q.GetRule(2 * p + 1); uint n = rule.second.size();
    auto zm = m.BoundaryToMasterCoordinates(id, rule.second); auto ph = m.basis.GetPhi(p, zm);
    HybMatrix<double, 1> w = modes(n, "w"), u = modes(m.ndof, "u"), nod = modes(3, "n"), bn(1, 2); bn(0, 0) = nod(0, a); bn(0, 1) = nod(0, c);
    HybMatrix<double, 1> ugp = f.b.ComputeUgp(u), ng = f.b.ComputeNodalUgp(nod), bg = f.b.ComputeBoundaryNodalUgp(bn), all = f.b.IntegrationPhi(w);
    double J = e.GetShape().GetSurfaceJ(id, zm)[0];
    ENSURES("identity", f.b.bound_id == id && &f.b.data == &e.data && f.b.GetNodeID().size() == 2 && f.b.GetNodeID()[0] == 10 + a && f.b.GetNodeID()[1] == 10 + c);
    auto nrm = e.GetShape().GetSurfaceNormal(id, zm)[0];
    double tot = 0;
    HybMatrix<double, 2> xy = f.b.ComputeFgp([](const Point<2>& x) { StatVector<double, 2> r; r[0] = x[0]; r[1] = x[1]; return r; });
    for (uint g = 0; g < n; ++g) {
        double z = rule.second[g][0], s = 0; for (uint i = 0; i < m.ndof; ++i) s += u(0, i) * ph(i, g);
        ENSURES_NEAR("value at a boundary point", ugp(0, g), s, 1e-12);
        ENSURES_NEAR("nodal value at a boundary point", ng(0, g), (1 - z) / 2 * nod(0, a) + (1 + z) / 2 * nod(0, c), 1e-13);
        ENSURES_NEAR("from the two boundary nodes alone", bg(0, g), ng(0, g), 1e-13);
        ENSURES_EQ("normal x", f.b.surface_normal(0, g), nrm[0]); ENSURES_EQ("normal y", f.b.surface_normal(1, g), nrm[1]);
        ENSURES_NEAR("x of a boundary point", xy(0, g), (1 - z) / 2 * v.x[a] + (1 + z) / 2 * v.x[c], 1e-13); ENSURES_NEAR("y of a boundary point", xy(1, g), (1 - z) / 2 * v.y[a] + (1 + z) / 2 * v.y[c], 1e-13);
        tot += w(0, g) * rule.first[g] * J;
    }
    ENSURES_NEAR("boundary integral", f.b.Integration(w)[0], tot, 1e-12);
    uint i = (uint)vc_choose("i", 0, 5), j = (uint)vc_choose("j", 0, 5); REQUIRES(i < m.ndof && j < m.ndof);
    double si = 0, sij = 0; for (uint g = 0; g < n; ++g) { si += w(0, g) * rule.first[g] * J * ph(i, g); sij += w(0, g) * rule.first[g] * J * ph(i, g) * ph(j, g); }
    ENSURES_NEAR("boundary integral with a basis function", f.b.IntegrationPhi(i, w)[0], si, 1e-11); ENSURES_NEAR("with all basis functions", all(0, i), si, 1e-11);
    ENSURES_NEAR("with a product", f.b.IntegrationPhiPhi(i, j, w)[0], sij, 1e-11);
}
CONTRACT(survey) {  // survey points and the error norm see the discrete function itself
    uint p = (uint)vc_choose("p", 1, 2); Tri m(p); V v = vertices(); Elem e = element(v, m);
    double gx = REAL("gx"), gy = REAL("gy"), c = REAL("c");
    HybMatrix<double, 1> n(1, 3); for (uint k = 0; k < 3; ++k) n(0, k) = c + gx * v.x[k] + gy * v.y[k];
    HybMatrix<double, 1> u = e.L2ProjectionNode(n);
    AlignedVector<Point<2>> s(2); for (uint k = 0; k < 2; ++k) { s[k][0] = REAL("sx"); s[k][1] = REAL("sy");
        REQUIRES((v.x[1] - v.x[0]) * (s[k][1] - v.y[0]) - (s[k][0] - v.x[0]) * (v.y[1] - v.y[0]) < v.area2()); }
    e.SetSurveyPoints(s);
    AlignedVector<StatVector<double, 1>> out; e.WriteSurveyPointData(u, out);
    ENSURES("one value for each survey point", out.size() == 2);
    for (uint k = 0; k < 2; ++k) ENSURES_NEAR("value at a survey point", out[k][0], c + gx * s[k][0] + gy * s[k][1], 1e-10);
}
CONTRACT(output) {  // values written for plotting are those of the discrete function at the written places
    uint p = (uint)vc_choose("p", 1, 2); Tri m(p); V v = vertices(); Elem e = element(v, m);
    double gx = REAL("gx"), gy = REAL("gy"), c = REAL("c");
    HybMatrix<double, 1> n(1, 3); for (uint k = 0; k < 3; ++k) n(0, k) = c + gx * v.x[k] + gy * v.y[k];
    HybMatrix<double, 1> u = e.L2ProjectionNode(n);
    AlignedVector<Point<3>> pts(1); Array2D<uint> cells;  // another element has written a point before
    e.InitializeVTK(pts, cells);
    AlignedVector<StatVector<double, 1>> cd, pd; e.WriteCellDataVTK(u, cd); e.WritePointDataVTK(u, pd);
    ENSURES("one value for each point and each cell", pts.size() == 1 + pd.size() && cells.size() == cd.size() && cells.size() > 0);
    for (uint k = 0; k < pd.size(); ++k) ENSURES_NEAR("value at a point", pd[k][0], c + gx * pts[1 + k][0] + gy * pts[1 + k][1], 1e-10);
    double area = 0;
    for (uint k = 0; k < cells.size(); ++k) {
        ENSURES("corners of a cell are points of this element", cells[k].size() == 4 && cells[k][1] >= 1 && cells[k][2] >= 1 && cells[k][3] >= 1 && cells[k][1] < pts.size() && cells[k][2] < pts.size() && cells[k][3] < pts.size());
        auto &a = pts[cells[k][1]], &b = pts[cells[k][2]], &d = pts[cells[k][3]];
        ENSURES_NEAR("value at the centre of a cell", cd[k][0], c + gx * (a[0] + b[0] + d[0]) / 3 + gy * (a[1] + b[1] + d[1]) / 3, 1e-10);
        double A = (b[0] - a[0]) * (d[1] - a[1]) - (d[0] - a[0]) * (b[1] - a[1]); area += A < 0 ? -A : A;
    }
    ENSURES_NEAR("cells cover the element", area, v.area2(), 1e-12);
}
CONTRACT(error_norm) {  // squared error against a linear function
    Tri m(1); V v = vertices(); Elem e = element(v, m);
    double gx = REAL("gx"), gy = REAL("gy"), c = REAL("c"), d = REAL("d");
    HybMatrix<double, 1> n(1, 3); for (uint k = 0; k < 3; ++k) n(0, k) = c + gx * v.x[k] + gy * v.y[k];
    HybMatrix<double, 1> u = e.L2ProjectionNode(n);
    auto f = [=](const Point<2>& x) { StatVector<double, 1> r; r[0] = c + d + gx * x[0] + gy * x[1]; return r; };
    ENSURES_NEAR("a constant error", e.ComputeResidualL2(f, u), d * d * v.area2() / 2, 1e-9);
}
