#include "vc.h"
#include <cmath>
#include <array>
#include <vector>
#include "general_definitions.hpp"
#include "shape/shapes_2D.hpp"
#include "shape/shapes_2D/shape_straighttriangle.cpp"
#include "master/master_elements_2D.hpp"
#include "basis/bases_2D.hpp"
#include "integration/integrations_2D.hpp"
#include "basis/bases_2D/basis_dubiner_2D.cpp"
#include "basis/polynomials/basis_polynomials.cpp"
#include "integration/integrations_1D.hpp"
#include "integration/integrations_2D/integration_dunavant_2D.cpp"
#include "integration/integrations_1D/integration_gausslegendre_1D.cpp"
// A triangle with arbitrary counter-clockwise vertices
namespace {
typedef Master::Triangle<Basis::Dubiner_2D, Integration::Dunavant_2D> Tri;
const double VX[3] = {-1, 1, -1}, VY[3] = {-1, -1, 1};
struct V { double x[3], y[3]; double area2() const { return (x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0]); } };
V vertices() {
    V v; v.x[0] = REAL("x0"); v.y[0] = REAL("y0"); v.x[1] = REAL("x1"); v.y[1] = REAL("y1"); v.x[2] = REAL("x2"); v.y[2] = REAL("y2");
    REQUIRES(v.area2() > 0.0); NATIVE_REQUIRES(v.area2() > 0.05);
    return v;
}
AlignedVector<Point<3>> nodes(const V& v) { AlignedVector<Point<3>> n(3); for (int i = 0; i < 3; ++i) { n[i][0] = v.x[i]; n[i][1] = v.y[i]; n[i][2] = 0.0; } return n; }
AlignedVector<Point<2>> pt(double x, double y) { AlignedVector<Point<2>> p(1); p[0][0] = x; p[0][1] = y; return p; }
AlignedVector<Point<1>> pt(double x) { AlignedVector<Point<1>> p(1); p[0][0] = x; return p; }
}
CONTRACT(mapping) {  // the map from the reference triangle: vertices to vertices, affine, inverse, Jacobian
    V v = vertices(); Shape::StraightTriangle s(nodes(v));
    uint k = (uint)vc_index("vertex", 3);
    auto c = s.LocalToGlobalCoordinates(pt(VX[k], VY[k]));
    ENSURES_EQ("vertex x", c[0][0], v.x[k]); ENSURES_EQ("vertex y", c[0][1], v.y[k]);
    double a = REAL("z1", -1, 1), b = REAL("z2", -1, 1);
    auto g = s.LocalToGlobalCoordinates(pt(a, b));
    auto ji = s.GetJinv(pt(a, b))[0];
    double det = s.GetJdet(pt(a, b))[0];
    double J[2][2];
    for (uint i = 0; i < 2; ++i) {
        J[i][0] = ((i ? v.y[1] : v.x[1]) - (i ? v.y[0] : v.x[0])) / 2; J[i][1] = ((i ? v.y[2] : v.x[2]) - (i ? v.y[0] : v.x[0])) / 2;
        auto along1 = [=, &s](double t) { return s.LocalToGlobalCoordinates(pt(t, b))[0][i]; };
        auto along2 = [=, &s](double t) { return s.LocalToGlobalCoordinates(pt(a, t))[0][i]; };
        ENSURES_DERIV("Jacobian is the derivative of the map", J[i][0], along1, a);
        ENSURES_DERIV("Jacobian is the derivative of the map", J[i][1], along2, b);
    }
    for (uint i = 0; i < 2; ++i) for (uint j = 0; j < 2; ++j) ENSURES_EQ("inverse Jacobian", ji(i, 0) * J[0][j] + ji(i, 1) * J[1][j], i == j ? 1.0 : 0.0);
    ENSURES_EQ("Jacobian determinant", det, J[0][0] * J[1][1] - J[0][1] * J[1][0]);
    ENSURES_EQ("area", s.GetArea(), 2 * det);
    ENSURES_EQ("area of the vertices", s.GetArea(), v.area2() / 2);
    auto l = s.GlobalToLocalCoordinates(g);
    ENSURES_EQ("inverse map 1", l[0][0], a); ENSURES_EQ("inverse map 2", l[0][1], b);
}
CONTRACT(clockwise) {  // a triangle given clockwise is stored counter-clockwise
    V v = vertices(); V w = v; w.x[0] = v.x[2]; w.y[0] = v.y[2]; w.x[2] = v.x[0]; w.y[2] = v.y[0];
    Shape::StraightTriangle s(nodes(w));
    ENSURES_EQ("area is positive", s.GetArea(), v.area2() / 2);
    ENSURES_EQ("determinant is positive", s.GetJdet(pt(0, 0))[0], v.area2() / 4);
}
CONTRACT(contains) {
    V v = vertices(); Shape::StraightTriangle s(nodes(v));
    double l1 = REAL("l1", -0.5, 1.5), l2 = REAL("l2", -0.5, 1.5), l0 = 1 - l1 - l2;
    Point<2> p; p[0] = l0 * v.x[0] + l1 * v.x[1] + l2 * v.x[2]; p[1] = l0 * v.y[0] + l1 * v.y[1] + l2 * v.y[2];
    NATIVE_REQUIRES(std::abs(l0) > 1e-9 && std::abs(l1) > 1e-9 && std::abs(l2) > 1e-9);
    bool in = l0 >= 0 && l1 >= 0 && l2 >= 0;
    bool r = s.ContainsPoint(p);
    ENSURES("a point is inside exactly when its barycentric coordinates are not negative", r == in);
}
CONTRACT(shape_functions) {
    V v = vertices(); Shape::StraightTriangle s(nodes(v));
    double a = REAL("z1", -1, 1), b = REAL("z2", -1, 1); uint k = (uint)vc_index("node", 3);
    auto psi = s.GetPsi(pt(a, b)); auto d = s.GetDPsi(pt(a, b)); auto at = s.GetPsi(pt(VX[k], VY[k]));
    ENSURES_EQ("partition of unity", psi(0, 0) + psi(1, 0) + psi(2, 0), 1.0);
    for (uint n = 0; n < 3; ++n) ENSURES_EQ("one at its node, zero at the others", at(n, 0), n == k ? 1.0 : 0.0);
    // gradient in space: the chain rule through the inverse map
    double x = REAL("x"), y = REAL("y");
    auto f = [&s, k](double x, double y) { return s.GetPsi(s.GlobalToLocalCoordinates(pt(x, y)))(k, 0); };
    ENSURES_DERIV("x derivative", d[0](k, 0), [=](double t) { return f(t, y); }, x);
    ENSURES_DERIV("y derivative", d[1](k, 0), [=](double t) { return f(x, t); }, y);
}
CONTRACT(edges) {  // edge b lies opposite to vertex b
    V v = vertices(); Shape::StraightTriangle s(nodes(v));
    uint b = (uint)vc_choose("edge", 0, 2), i = (b + 1) % 3, j = (b + 2) % 3;
    double ex = v.x[j] - v.x[i], ey = v.y[j] - v.y[i];
    REQUIRES(ex * ex + ey * ey > 0.0);
    auto n = s.GetSurfaceNormal(b, pt(0, 0))[0]; double J = s.GetSurfaceJ(b, pt(0, 0))[0];
    ENSURES_EQ("unit normal", n[0] * n[0] + n[1] * n[1], 1.0);
    ENSURES_EQ("normal to the edge", n[0] * ex + n[1] * ey, 0.0);
    ENSURES_EQ("pointing out, scaled by the edge length", (n[0] * (v.x[b] - v.x[i]) + n[1] * (v.y[b] - v.y[i])) * 2 * J, -v.area2());
    ENSURES("edge Jacobian is positive", J > 0.0);
    ENSURES_EQ("edge Jacobian is half the edge length", 4 * J * J, ex * ex + ey * ey);
    ENSURES_EQ("length", s.GetLengths()[b], 2 * J);
    auto m = s.GetMidpointCoordinates();
    ENSURES_EQ("midpoint x", m[b][0], (v.x[i] + v.x[j]) / 2); ENSURES_EQ("midpoint y", m[b][1], (v.y[i] + v.y[j]) / 2);
    auto c = s.GetBarycentricCoordinates();
    ENSURES_EQ("barycentre x", 3 * c[0], v.x[0] + v.x[1] + v.x[2]); ENSURES_EQ("barycentre y", 3 * c[1], v.y[0] + v.y[1] + v.y[2]);
    std::vector<uint> ids = {11, 22, 33}; auto bid = s.GetBoundaryNodeID(b, ids);
    ENSURES("edge nodes in order", bid.size() == 2 && bid[0] == ids[i] && bid[1] == ids[j]);
}
CONTRACT(closed) {  // normals times lengths around the triangle cancel: no spurious net flux
    V v = vertices(); Shape::StraightTriangle s(nodes(v));
    double sx = 0, sy = 0, per = 0;
    auto L = s.GetLengths();
    for (uint b = 0; b < 3; ++b) {
        uint i = (b + 1) % 3, j = (b + 2) % 3;
        REQUIRES((v.x[j] - v.x[i]) * (v.x[j] - v.x[i]) + (v.y[j] - v.y[i]) * (v.y[j] - v.y[i]) > 0.0);
        auto n = s.GetSurfaceNormal(b, pt(0, 0))[0]; double J = s.GetSurfaceJ(b, pt(0, 0))[0];
        sx += 2 * J * n[0]; sy += 2 * J * n[1]; per += 2 * J;
    }
    ENSURES_EQ("closed in x", sx, 0.0); ENSURES_EQ("closed in y", sy, 0.0);
    ENSURES_EQ("perimeter", s.GetPerimeter(), per);
    ENSURES_EQ("circumradius", 4 * s.GetRadius() * s.GetArea(), L[0] * L[1] * L[2]);
}
CONTRACT(edge_points) {  // a point z of edge b in the reference triangle, its position and the edge's nodal functions agree
    V v = vertices(); Shape::StraightTriangle s(nodes(v)); Tri m(1);
    uint b = (uint)vc_choose("edge", 0, 2), i = (b + 1) % 3, j = (b + 2) % 3;
    double z = REAL("z", -1, 1); REQUIRES(z >= -1.0 && z <= 1.0);
    auto zm = m.BoundaryToMasterCoordinates(b, pt(z));
    auto g = s.LocalToGlobalCoordinates(zm);
    ENSURES_EQ("x runs from the first to the second node of the edge", g[0][0], (1 - z) / 2 * v.x[i] + (1 + z) / 2 * v.x[j]);
    ENSURES_EQ("y runs from the first to the second node of the edge", g[0][1], (1 - z) / 2 * v.y[i] + (1 + z) / 2 * v.y[j]);
    auto psi = s.GetPsi(zm); auto pb = s.GetBoundaryPsi(b, pt(z));
    ENSURES_EQ("first edge function", pb(0, 0), psi(i, 0)); ENSURES_EQ("second edge function", pb(1, 0), psi(j, 0)); ENSURES_EQ("opposite node does not reach the edge", psi(b, 0), 0.0);
}
CONTRACT(shared_edge) {  // two triangles on the two sides of one edge: same points, opposite normals, same length
    V v = vertices(); Shape::StraightTriangle s(nodes(v)); Tri m(1);
    uint b = (uint)vc_choose("edge", 0, 2), c = (uint)vc_choose("other edge", 0, 2);
    V w; w.x[c] = REAL("xo"); w.y[c] = REAL("yo");
    w.x[(c + 1) % 3] = v.x[(b + 2) % 3]; w.y[(c + 1) % 3] = v.y[(b + 2) % 3]; w.x[(c + 2) % 3] = v.x[(b + 1) % 3]; w.y[(c + 2) % 3] = v.y[(b + 1) % 3];
    REQUIRES(w.area2() > 0.0);
    Shape::StraightTriangle t(nodes(w));
    double z = REAL("z", -1, 1); REQUIRES(z >= -1.0 && z <= 1.0);
    auto g = s.LocalToGlobalCoordinates(m.BoundaryToMasterCoordinates(b, pt(z))), h = t.LocalToGlobalCoordinates(m.BoundaryToMasterCoordinates(c, pt(-z)));
    ENSURES_EQ("same x", g[0][0], h[0][0]); ENSURES_EQ("same y", g[0][1], h[0][1]);
    double ex = v.x[(b + 2) % 3] - v.x[(b + 1) % 3], ey = v.y[(b + 2) % 3] - v.y[(b + 1) % 3];
    REQUIRES(ex * ex + ey * ey > 0.0);
    auto n = s.GetSurfaceNormal(b, pt(0, 0))[0], o = t.GetSurfaceNormal(c, pt(0, 0))[0];
    ENSURES_EQ("opposite normal x", n[0], -o[0]); ENSURES_EQ("opposite normal y", n[1], -o[1]);
    ENSURES_EQ("same length", s.GetSurfaceJ(b, pt(0, 0))[0], t.GetSurfaceJ(c, pt(0, 0))[0]);
}
CONTRACT(master) {  // quantities tabulated on the reference triangle
    uint p = (uint)vc_choose("p", 1, 4); Tri m(p); Basis::Dubiner_2D b;
    ENSURES("counts", m.nvrtx == 3 && m.nbound == 3 && m.ndof == (p + 1) * (p + 2) / 2 && m.ngp == m.integration_rule.second.size());
    auto f = b.GetPhi(p, m.integration_rule.second); auto d = b.GetDPhi(p, m.integration_rule.second);
    for (uint g = 0; g < m.ngp; ++g) {
        double x = m.integration_rule.second[g][0], y = m.integration_rule.second[g][1], w = m.integration_rule.first[g];
        const double hat[3] = {-(x + y) / 2, (1 + x) / 2, (1 + y) / 2};
        const double dh[2][3] = {{-0.5, 0.5, 0}, {-0.5, 0, 0.5}};
        for (uint k = 0; k < 3; ++k) {
            ENSURES_NEAR("linear function at a point", m.chi_gp(k, g), hat[k], 1e-14);
            for (uint z = 0; z < 2; ++z) ENSURES_NEAR("gradient of a linear function", m.dchi_gp[z](k, g), dh[z][k], 1e-14);
        }
        for (uint i = 0; i < m.ndof; ++i) {
            ENSURES_NEAR("basis value", m.phi_gp(i, g), f(i, g), 1e-14); ENSURES_NEAR("integration weight", m.int_phi_fact(g, i), w * f(i, g), 1e-13);
            for (uint z = 0; z < 2; ++z) { ENSURES_NEAR("basis gradient", m.dphi_gp[z](i, g), d[z](i, g), 1e-13); ENSURES_NEAR("gradient weight", m.int_dphi_fact[z](g, i), w * d[z](i, g), 1e-12); }
        }
    }
    // the rule used is strong enough for products of two basis functions
    for (uint i = 0; i < m.ndof; ++i) for (uint j = 0; j <= i; ++j) {
        double s = 0; for (uint g = 0; g < m.ngp; ++g) s += m.phi_gp(j, g) * m.int_phi_fact(g, i);
        ENSURES_NEAR("discrete mass matrix", s * m.m_inv(i, i), i == j ? 1.0 : 0.0, 1e-12);
    }
    // averages over linear functions at barycentre, midpoints (edge b opposite to vertex b) and vertices
    HybMatrix<double, 1> u(1, 3); u(0, 0) = REAL("u0"); u(0, 1) = REAL("u1"); u(0, 2) = REAL("u2");
    DynMatrix<double> ub = m.ComputeLinearUbaryctr(u), um = m.ComputeLinearUmidpts(u), uv = m.ComputeLinearUvrtx(u);
    ENSURES_NEAR("barycentre", ub(0, 0), (u(0, 0) + u(0, 1) + u(0, 2)) / 3, 1e-14);
    for (uint k = 0; k < 3; ++k) { ENSURES_NEAR("midpoint", um(0, k), (u(0, (k + 1) % 3) + u(0, (k + 2) % 3)) / 2, 1e-14); ENSURES_EQ("vertex", uv(0, k), u(0, k)); }
}
