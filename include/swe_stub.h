// Stand-ins for the geometric side of boundaries and interfaces: the real state containers (SWE::Data) with arbitrary
// contents and arbitrarily many points; the code under contract is a template on these types.
#ifndef SWE_STUB_H
#define SWE_STUB_H
#include "swe_vc.h"
#include "problem/SWE/problem_data_structure/swe_data.hpp"
#include "problem/SWE/problem_data_structure/swe_edge_data.hpp"
struct StubStepper {  // any time, any ramp
    double t, ramp, tn, rampn, dt;
    StubStepper() : t(REAL("t", 0, 10)), ramp(REAL("ramp", 0, 1)), tn(REAL("t_next", 0, 10)), rampn(REAL("ramp_next", 0, 1)), dt(POS("dt", 0.01, 1)) {}
    double GetTimeAtCurrentStage() const { return t; }
    double GetRamp() const { return ramp; }
    double GetTimeAtNextStage() const { return tn; }
    double GetRampNext() const { return rampn; }
    double GetDT() const { return dt; }
};
inline void vc_boundary(SWE::Boundary& b, std::size_t n, const char* nq, const char* na, const char* nh, const char* nf) {
    b = SWE::Boundary(n);
    vc_fill_mat(b.aux_at_gp, na, {{0, 1.2, 4}, {1, 0.1, 3}, {1, 0.5, 1.5}});
    vc_fill_wet(b.q_at_gp.data(), b.aux_at_gp.data(), n, nq, na, nh, 0, 0.2, 4);
    vc_fill_mat(b.F_hat_at_gp, nf, {{0, -2, 2}, {0, -2, 2}, {0, -2, 2}});
}
inline void vc_data(SWE::Data& d, std::size_t n, const char* nq, const char* na, const char* nh, const char* nf) {
    d.set_nbound(1);
    d.set_ngp_boundary(0, n);
    d.boundary.resize(1);
    d.state.resize(1);
    vc_boundary(d.boundary[0], n, nq, na, nh, nf);
}
template <class Cond> struct StubBound {
    SWE::Data data; uint bound_id = 0; N2 surface_normal; Cond boundary_condition;
    explicit StubBound(std::size_t n) : surface_normal(2, n) {
        vc_data(data, n, "q", "aux", "h", "F0");
        vc_fill_unit(surface_normal.data(), n, "n");
    }
    SWE::Boundary& b() { return data.boundary[0]; }
    template <class A> Q3 ComputeUgp(const A&) { return data.boundary[0].q_at_gp; }
    // nodal values times arbitrary weights (the real boundary multiplies by its psi_bound_gp)
    DynRowVector<double> ComputeBoundaryNodalUgp(const DynRowVector<double>& u) {
        if (weights.cols() == 0) { weights.resize(2, surface_normal.cols()); vc_fill_mat(weights, "weight", {{0, 0, 1}, {0, 0, 1}}); }
        DynRowVector<double> r(surface_normal.cols());
        for (std::size_t j = 0; j < std::size_t(r.size()); ++j) r[j] = u[0] * weights(0, j) + u[1] * weights(1, j);
        return r;
    }
    N2 weights{2, 0};
    // the given function at the points, one point per column
    template <class F> DynMatrix<double> ComputeFgp(const F& f) {
        std::size_t n = surface_normal.cols(); points.resize(2, n); vc_fill_mat(points, "point", {{0, -5, 5}, {0, -5, 5}});
        DynMatrix<double> v(3, n);
        for (std::size_t j = 0; j < n; ++j) { Point<2> p; p[0] = points(0, j); p[1] = points(1, j); StatVector<double, 3> r = f(p); v(0, j) = r[0]; v(1, j) = r[1]; v(2, j) = r[2]; }
        return v;
    }
    N2 points{2, 0};
};
// Skeleton edge of the hybridized schemes; the trace values at the points are arbitrary wet states (trace bathymetry equals
// the element's), the projection hands back what it is given.
template <class Bound> struct StubEdge {
    SWE::EdgeData edge_data; Bound& boundary; std::size_t n; Q3 trace;
    StubEdge(Bound& b, std::size_t n, std::size_t ndof = 0) : boundary(b), n(n), trace(3, n) {
        edge_data.set_ndof(ndof); edge_data.set_ngp(n); edge_data.initialize();
        e().delta_hat_global.resize(3 * ndof, 3 * ndof); e().rhs_global.resize(3 * ndof);
        for (std::size_t d = 0; d < ndof; ++d) for (int r = 0; r < 3; ++r) edge_data.edge_state.q_hat(r, d) = 0.0;
        auto& B = b.b();
        edge_data.edge_internal.aux_hat_at_gp = B.aux_at_gp;
        vc_fill_wet(trace.data(), B.aux_at_gp.data(), n, "trace", "aux", "trace_h", 0, 0.2, 4);
        edge_data.edge_internal.q_hat_at_gp = trace;
    }
    SWE::EdgeInternal& e() { return edge_data.edge_internal; }
    template <class A> const Q3& ComputeUgp(const A&) { return trace; }
    template <class A> Q3 L2Projection(const A& u) { return u; }
    // Newton step of the trace equation: identity matrix and zero right hand side, so the given trace is its solution
    template <class A> StatVector<double, 9> IntegrationLambdaLambda(unsigned, unsigned, const A&) { StatVector<double, 9> I; for (int r = 0; r < 9; ++r) I[r] = r % 4 ? 0.0 : 1.0; return I; }
    template <class A> StatVector<double, 3> IntegrationLambda(unsigned, const A&) { StatVector<double, 3> z; z[0] = 0; z[1] = 0; z[2] = 0; return z; }
};
// Interface between two elements: point j of the in side is point n-1-j of the ex side; same bathymetry and metric factor, opposite normals
template <class Spec> struct StubIface {
    SWE::Data data_in, data_ex; uint bound_id_in = 0, bound_id_ex = 0; N2 surface_normal_in, surface_normal_ex; Spec specialization; std::size_t n;
    explicit StubIface(std::size_t n) : surface_normal_in(2, n), surface_normal_ex(2, n), n(n) {
        vc_data(data_in, n, "q", "aux", "h", "F0");
        data_ex.set_nbound(1); data_ex.set_ngp_boundary(0, n); data_ex.boundary.resize(1); data_ex.state.resize(1);
        SWE::Boundary& E = data_ex.boundary[0]; SWE::Boundary& I = data_in.boundary[0];
        E = SWE::Boundary(n);
        for (std::size_t j = 0; j < n; ++j) for (int r = 0; r < 3; ++r) E.aux_at_gp(r, j) = I.aux_at_gp(r, n - 1 - j);
        vc_fill_wet(E.q_at_gp.data(), I.aux_at_gp.data(), n, "q_ex", "aux", "h_ex", 1, 0.2, 4);
        vc_fill_mat(E.F_hat_at_gp, "F0_ex", {{0, -2, 2}, {0, -2, 2}, {0, -2, 2}});
        vc_fill_unit(surface_normal_in.data(), n, "n");
        for (std::size_t j = 0; j < n; ++j) for (int r = 0; r < 2; ++r) surface_normal_ex(r, j) = -surface_normal_in(r, n - 1 - j);
    }
    SWE::Boundary& in() { return data_in.boundary[0]; }
    SWE::Boundary& ex() { return data_ex.boundary[0]; }
    template <class A> Q3 ComputeUgpIN(const A&) { return data_in.boundary[0].q_at_gp; }
    template <class A> Q3 ComputeUgpEX(const A&) { return data_ex.boundary[0].q_at_gp; }
};
// Skeleton edge between two elements
template <class Iface> struct StubEdgeInt {
    SWE::EdgeData edge_data; Iface& interface; std::size_t n; Q3 trace;
    StubEdgeInt(Iface& f, std::size_t n) : interface(f), n(n), trace(3, n) {
        edge_data.set_ndof(0); edge_data.set_ngp(n); edge_data.initialize();
        edge_data.edge_internal.aux_hat_at_gp = f.in().aux_at_gp;
        vc_fill_wet(trace.data(), f.in().aux_at_gp.data(), n, "trace", "aux", "trace_h", 0, 0.2, 4);
        edge_data.edge_internal.q_hat_at_gp = trace;
    }
    SWE::EdgeInternal& e() { return edge_data.edge_internal; }
    template <class A> const Q3& ComputeUgp(const A&) { return trace; }
    template <class A> Q3 L2Projection(const A& u) { return u; }
};
#endif
