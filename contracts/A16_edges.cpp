#include "vc.h"
#include <cmath>
#include <array>
#include <vector>
#include <map>
#include "general_definitions.hpp"
#include "shape/shapes_2D.hpp"
#include "shape/shapes_2D/shape_straighttriangle.cpp"
#include "master/master_elements_2D.hpp"
#include "basis/bases_1D.hpp"
#include "basis/bases_2D.hpp"
#include "integration/integrations_2D.hpp"
#include "basis/bases_1D/basis_legendre_1D.cpp"
#include "basis/bases_2D/basis_dubiner_2D.cpp"
#include "basis/polynomials/basis_polynomials.cpp"
#include "integration/integrations_1D.hpp"
#include "integration/integrations_2D/integration_dunavant_2D.cpp"
#include "integration/integrations_1D/integration_gausslegendre_1D.cpp"
#include "geometry/raw_boundary.hpp"
#include "geometry/element.hpp"
#include "geometry/boundary.hpp"
#include "geometry/interface.hpp"
#include "geometry/edge_interface.hpp"
#include "geometry/edge_boundary.hpp"
// Interfaces and the trace space on edges: real elements with arbitrary vertices joined along any edges
namespace {
struct Sizes {
    uint nnode = 0, nvrtx = 0, nbound = 0, ndof = 0, ngp = 0, ngp_b[3] = {0, 0, 0};
    void set_nnode(uint n) { nnode = n; } void set_nvrtx(uint n) { nvrtx = n; } void set_nbound(uint n) { nbound = n; } void set_ndof(uint n) { ndof = n; } uint get_ndof() const { return ndof; }
    void set_ngp_internal(uint n) { ngp = n; } void set_ngp_boundary(uint b, uint n) { ngp_b[b] = n; }
};
struct EdgeSizes { uint ndof = 0, ngp = 0; bool ready = false; void set_ndof(uint n) { ndof = n; } void set_ngp(uint n) { ngp = n; } void initialize() { ready = ndof && ngp; } uint get_ndof() const { return ndof; } };
struct Nothing {};
typedef Master::Triangle<Basis::Dubiner_2D, Integration::Dunavant_2D> Tri;
typedef Geometry::Element<2, Tri, Shape::StraightTriangle, Sizes> Elem;
typedef Geometry::RawBoundary<1, Sizes> Raw;
typedef Geometry::Boundary<1, Integration::GaussLegendre_1D, Sizes, Nothing> Bound;
typedef Geometry::Interface<1, Integration::GaussLegendre_1D, Sizes, Nothing> Iface;
typedef Geometry::EdgeInterface<1, Basis::Legendre_1D, EdgeSizes, Iface> EdgeI;
typedef Geometry::EdgeBoundary<1, Basis::Legendre_1D, EdgeSizes, Bound> EdgeB;
typedef HybMatrix<double, 1> Row;
struct V {
    double x[3], y[3];
    double area2() const { return (x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0]); }
    double edge2(uint b) const { uint i = (b + 1) % 3, j = (b + 2) % 3; return (x[j] - x[i]) * (x[j] - x[i]) + (y[j] - y[i]) * (y[j] - y[i]); }
    void valid() const { REQUIRES(area2() > 0.0); for (uint b = 0; b < 3; ++b) REQUIRES(edge2(b) > 0.0); NATIVE_REQUIRES(area2() > 0.05); }
    AlignedVector<Point<3>> nodes() const { AlignedVector<Point<3>> n(3); for (int i = 0; i < 3; ++i) { n[i][0] = x[i]; n[i][1] = y[i]; n[i][2] = 0.0; } return n; }
};
V vertices() { V v; for (int i = 0; i < 3; ++i) { v.x[i] = REAL("x"); v.y[i] = REAL("y"); } v.valid(); return v; }
V neighbour(const V& v, uint b, uint c) {
    V w; uint i = (b + 1) % 3, j = (b + 2) % 3, k = (c + 1) % 3, l = (c + 2) % 3;
    w.x[k] = v.x[j]; w.y[k] = v.y[j]; w.x[l] = v.x[i]; w.y[l] = v.y[i]; w.x[c] = REAL("far x"); w.y[c] = REAL("far y"); w.valid(); return w;
}
Raw raw(Elem& e, Tri& m, uint id) { return Raw(m.p, id, e.GetShape().GetBoundaryNodeID(id, e.GetNodeID()), e.data, m.basis, m, const_cast<Shape::StraightTriangle&>(e.GetShape())); }
Row modes(uint n, const char* name) { Row u(1, n); for (uint i = 0; i < n; ++i) u(0, i) = REAL(name); return u; }
struct Rule { uint n; std::pair<DynVector<double>, AlignedVector<Point<1>>> r; explicit Rule(uint p) { Integration::GaussLegendre_1D q; r = q.GetRule(2 * p + 1); n = r.second.size(); } };
// the Legendre polynomials
double legendre(uint i, double z) { return i == 0 ? 1.0 : i == 1 ? z : i == 2 ? (3 * z * z - 1) / 2 : (5 * z * z * z - 3 * z) / 2; }
struct Joint {
    uint p, q, b, c, P; Tri m, k; V v, w; Elem e, f; Iface i; Rule rule; double J;
    static uint pick(const char* n) { return (uint)vc_choose(n, 1, 2); }
    Joint() : p(pick("order in")), q(pick("order ex")), b((uint)vc_choose("edge", 0, 2)), c((uint)vc_choose("other edge", 0, 2)), P(p > q ? p : q), m(p), k(q), v(vertices()), w(neighbour(v, b, c)),
              e(0, m, v.nodes(), {0, 1, 2}, {1, 1, 1}, {0, 0, 0}), f(1, k, w.nodes(), {3, 4, 5}, {0, 0, 0}, {0, 0, 0}), i(raw(e, m, b), raw(f, k, c)), rule(P), J(std::sqrt(v.edge2(b)) / 2) {}
    DynMatrix<double> phi(bool ex) { auto z = ex ? k.BoundaryToMasterCoordinates(c, rule.r.second) : m.BoundaryToMasterCoordinates(b, rule.r.second); return ex ? k.basis.GetPhi(q, z) : m.basis.GetPhi(p, z); }
};
}
CONTRACT(interface) {  // both sides of an interface evaluate and integrate their own element's functions over the common edge
    Joint t; auto in = t.phi(false), ex = t.phi(true); uint n = t.rule.n;
    Row u = modes(t.m.ndof, "u"), x = modes(t.k.ndof, "x"), w = modes(n, "w");
    ENSURES("identity", t.i.bound_id_in == t.b && t.i.bound_id_ex == t.c && &t.i.data_in == &t.e.data && &t.i.data_ex == &t.f.data);
    ENSURES("sizes", t.e.data.ngp_b[t.b] == n && t.f.data.ngp_b[t.c] == n);
    Row ui = t.i.ComputeUgpIN(u), ue = t.i.ComputeUgpEX(x), ai = t.i.IntegrationPhiIN(w), ae = t.i.IntegrationPhiEX(w);
    double tot = 0;
    for (uint g = 0; g < n; ++g) {
        double s = 0, r = 0; for (uint d = 0; d < t.m.ndof; ++d) s += u(0, d) * in(d, g); for (uint d = 0; d < t.k.ndof; ++d) r += x(0, d) * ex(d, g);
        ENSURES_NEAR("value in", ui(0, g), s, 1e-12); ENSURES_NEAR("value ex", ue(0, g), r, 1e-12);
        uint h = n - 1 - g;
        ENSURES_EQ("opposite normals x", t.i.surface_normal_in(0, g), -t.i.surface_normal_ex(0, h)); ENSURES_EQ("opposite normals y", t.i.surface_normal_in(1, g), -t.i.surface_normal_ex(1, h));
        tot += w(0, g) * t.rule.r.first[g] * t.J;
    }
    ENSURES_NEAR("integral in", t.i.IntegrationIN(w)[0], tot, 1e-12); ENSURES_NEAR("integral ex", t.i.IntegrationEX(w)[0], tot, 1e-12);
    for (uint d = 0; d < t.m.ndof; ++d) { double s = 0; for (uint g = 0; g < n; ++g) s += w(0, g) * t.rule.r.first[g] * t.J * in(d, g); ENSURES_NEAR("moment in", ai(0, d), s, 1e-11); ENSURES_NEAR("one moment in", t.i.IntegrationPhiIN(d, w)[0], s, 1e-11); }
    for (uint d = 0; d < t.k.ndof; ++d) { double s = 0; for (uint g = 0; g < n; ++g) s += w(0, g) * t.rule.r.first[g] * t.J * ex(d, g); ENSURES_NEAR("moment ex", ae(0, d), s, 1e-11); ENSURES_NEAR("one moment ex", t.i.IntegrationPhiEX(d, w)[0], s, 1e-11); }
}
namespace {
template <class Edge> void trace_space(Edge& e, const Rule& rule, uint p, double J, bool ccw) {
    uint n = rule.n; ENSURES("sizes", e.edge_data.ndof == p + 1 && e.edge_data.ngp == n && e.edge_data.ready);
    Row u = modes(p + 1, "trace"), w = modes(n, "w"), at = e.ComputeUgp(u), back = e.L2Projection(at);
    for (uint g = 0; g < n; ++g) { double s = 0, z = rule.r.second[g][0]; for (uint d = 0; d <= p; ++d) s += u(0, d) * legendre(d, ccw ? z : -z); ENSURES_NEAR("value of the trace", at(0, g), s, 1e-12); }
    Row all(1, p + 1);
    for (uint d = 0; d <= p; ++d) {
        ENSURES_NEAR("projection", back(0, d), u(0, d), 1e-11);
        double s = 0; for (uint g = 0; g < n; ++g) { double z = rule.r.second[g][0]; s += w(0, g) * rule.r.first[g] * J * legendre(d, ccw ? z : -z); }
        all(0, d) = e.IntegrationLambda(d, at)[0];
        ENSURES_NEAR("moment of the trace", e.IntegrationLambda(d, w)[0], s, 1e-11);
        for (uint f = 0; f <= p; ++f) { double s = 0; for (uint g = 0; g < n; ++g) { double z = rule.r.second[g][0]; s += w(0, g) * rule.r.first[g] * J * legendre(d, ccw ? z : -z) * legendre(f, ccw ? z : -z); } ENSURES_NEAR("product of trace functions", e.IntegrationLambdaLambda(d, f, w)[0], s, 1e-11); }
    }
    Row inv = e.ApplyMinv(all); for (uint d = 0; d <= p; ++d) ENSURES_NEAR("inverse mass matrix", inv(0, d), u(0, d), 1e-11);
}
}
CONTRACT(edge_interface) {  // the trace on an interface and its products with the functions of both sides
    Joint t; bool ccw = vc_choose("ccw", 0, 1); EdgeI e(t.i, ccw); uint n = t.rule.n;
    trace_space(e, t.rule, t.P, t.J, ccw);
    auto in = t.phi(false), ex = t.phi(true); Row w = modes(n, "weight");
    for (uint j = 0; j <= t.P; ++j) {
        for (uint d = 0; d < t.m.ndof; ++d) { double s = 0; for (uint g = 0; g < n; ++g) { double z = t.rule.r.second[g][0]; s += w(0, g) * t.rule.r.first[g] * t.J * in(d, g) * legendre(j, ccw ? z : -z); } ENSURES_NEAR("product with the in side", e.IntegrationPhiLambdaIN(d, j, w)[0], s, 1e-11); }
        for (uint d = 0; d < t.k.ndof; ++d) { double s = 0; for (uint g = 0; g < n; ++g) { double z = -t.rule.r.second[g][0]; s += w(0, g) * t.rule.r.first[g] * t.J * ex(d, g) * legendre(j, ccw ? z : -z); } ENSURES_NEAR("product with the ex side", e.IntegrationPhiLambdaEX(d, j, w)[0], s, 1e-11); }
    }
}
CONTRACT(edge_boundary) {
    uint p = (uint)vc_choose("p", 1, 3), id = (uint)vc_choose("edge", 0, 2); bool ccw = vc_choose("ccw", 0, 1); Tri m(p); V v = vertices(); Rule rule(p);
    Elem el(0, m, v.nodes(), {0, 1, 2}, {1, 1, 1}, {0, 0, 0}); Bound b(raw(el, m, id)); EdgeB e(b, ccw); double J = std::sqrt(v.edge2(id)) / 2;
    trace_space(e, rule, p, J, ccw);
    auto phi = m.basis.GetPhi(p, m.BoundaryToMasterCoordinates(id, rule.r.second)); Row w = modes(rule.n, "weight");
    for (uint j = 0; j <= p; ++j) for (uint d = 0; d < m.ndof; ++d) { double s = 0; for (uint g = 0; g < rule.n; ++g) { double z = rule.r.second[g][0]; s += w(0, g) * rule.r.first[g] * J * phi(d, g) * legendre(j, ccw ? z : -z); } ENSURES_NEAR("product with the element", e.IntegrationPhiLambda(d, j, w)[0], s, 1e-11); }
}
