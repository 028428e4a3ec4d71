// Real elements, boundaries and interfaces of a mesh of one or two triangles with arbitrary vertices.
#ifndef SWE_MESH_H
#define SWE_MESH_H
#include "vc.h"
#include "shape/shapes_2D.hpp"
#include "shape/shapes_2D/shape_straighttriangle.cpp"
#include "master/master_elements_2D.hpp"
#include "basis/bases_2D.hpp"
#include "integration/integrations_2D.hpp"
#include "basis/bases_2D/basis_dubiner_2D.cpp"
#include "basis/polynomials/basis_polynomials.cpp"
#include "integration/integrations_1D.hpp"
#include "integration/integrations_2D/integration_dunavant_2D.cpp"
#include "integration/integrations_1D/integration_gausslegendre_1D.cpp"
#include "geometry/raw_boundary.hpp"
#include "geometry/element.hpp"
#include "geometry/boundary.hpp"
#include "geometry/interface.hpp"
typedef Master::Triangle<Basis::Dubiner_2D, Integration::Dunavant_2D> Tri;
typedef Geometry::Element<2, Tri, Shape::StraightTriangle, SWE::Data> Elem;
typedef Geometry::RawBoundary<1, SWE::Data> Raw;
struct Vertices {
    double x[3], y[3], z[3];
    double area2() const { return (x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0]); }
    double edge2(uint b) const { uint i = (b + 1) % 3, j = (b + 2) % 3; return (x[j] - x[i]) * (x[j] - x[i]) + (y[j] - y[i]) * (y[j] - y[i]); }
    void valid() const { REQUIRES(area2() > 0.0); for (uint b = 0; b < 3; ++b) REQUIRES(edge2(b) > 0.0); NATIVE_REQUIRES(area2() > 0.05); }
    AlignedVector<Point<3>> nodes() const { AlignedVector<Point<3>> n(3); for (int i = 0; i < 3; ++i) { n[i][0] = x[i]; n[i][1] = y[i]; n[i][2] = z[i]; } return n; }
};
inline Vertices vc_vertices() {
    Vertices v;
    for (int i = 0; i < 3; ++i) { v.x[i] = REAL("x"); v.y[i] = REAL("y"); v.z[i] = REAL("depth", 0.5, 4); }
    v.valid(); return v;
}
// a triangle across edge b of v, whose edge c is shared; its third vertex lies on the other side
inline Vertices vc_neighbour(const Vertices& v, uint b, uint c) {
    Vertices w; uint i = (b + 1) % 3, j = (b + 2) % 3, k = (c + 1) % 3, l = (c + 2) % 3;
    w.x[k] = v.x[j]; w.y[k] = v.y[j]; w.z[k] = v.z[j]; w.x[l] = v.x[i]; w.y[l] = v.y[i]; w.z[l] = v.z[i];
    w.x[c] = REAL("far_x"); w.y[c] = REAL("far_y"); w.z[c] = REAL("far_depth", 0.5, 4);
    w.valid(); return w;
}
inline Raw vc_raw(Elem& e, Tri& m, uint id) { return Raw(m.p, id, e.GetShape().GetBoundaryNodeID(id, e.GetNodeID()), e.data, m.basis, m, const_cast<Shape::StraightTriangle&>(e.GetShape())); }
// The mesh as the kernels see it: calls the given kernel for each of its parts in turn
template <class Bound, class Iface> struct MiniMesh {
    std::vector<Elem*> elements; std::vector<Bound*> boundaries; std::vector<Iface*> interfaces;
    uint p = 1; uint GetP() const { return p; }
    template <class F> void CallForEachElement(const F& f) { for (auto e : elements) f(*e); }
    template <class F> void CallForEachBoundary(const F& f) { for (auto b : boundaries) f(*b); }
    template <class F> void CallForEachInterface(const F& f) { for (auto i : interfaces) f(*i); }
    template <class F> void CallForEachDistributedBoundary(const F&) {}
};
#endif
