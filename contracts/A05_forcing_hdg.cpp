// ASSUME: the forced exterior water column is nonzero at the other points
// OPT *: divzero=1
#include "swe_forcing.h"
#include "problem/SWE/problem_flux/swe_flux.hpp"
#include "problem/SWE/problem_jacobian/swe_jacobian.hpp"
#include "problem/SWE/problem_stabilization_parameters/swe_stabilization_params.hpp"
#include "problem/SWE/problem_function_files/swe_initial_condition_functions.hpp"
#include "problem/SWE/discretization_EHDG/boundary_conditions/ehdg_swe_boundary_conditions.hpp"
#include "problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_boundary_conditions.hpp"
// Open boundaries of the hybridized schemes at arbitrary point k: the trace equation is the characteristic condition
// A+ (q - q^) - A- (q_ext - q^) = 0 with the forced exterior state q_ext
namespace {
template <class Cond> struct In {
    std::size_t n, k; StubBound<Cond> bound; StubEdge<StubBound<Cond>> edge; StubStepper st; double q[3], nx, ny;
    In() : n(SIZE("n")), k(vc_index("k", n)), bound(n), edge(bound, n, 1) {
        SWE::Boundary& B = bound.b();
        for (int r = 0; r < 3; ++r) q[r] = B.q_at_gp(r, k);
        nx = bound.surface_normal(0, k); ny = bound.surface_normal(1, k);
    }
    void residual(double e0, double e1, double e2) {
        auto& e = edge.e(); double ext[3] = {e0, e1, e2};
        AlignedVector<StatMatrix<double, 3, 3>> P(n), M(n);
        SWE::get_Aplus(e.q_hat_at_gp, e.aux_hat_at_gp, bound.surface_normal, P);
        SWE::get_Aminus(e.q_hat_at_gp, e.aux_hat_at_gp, bound.surface_normal, M);
        for (int r = 0; r < 3; ++r) {
            double s = 0;
            for (int c = 0; c < 3; ++c) s += P[k](r, c) * (q[c] - edge.trace(c, k)) - M[k](r, c) * (ext[c] - edge.trace(c, k));
            ENSURES_EQ("characteristic condition", e.rhs_global_kernel_at_gp(r, k), s);
        }
    }
    void flux() {  // numerical flux Fn(q^) + tau (q - q^) of the trace
        SWE::Boundary& B = bound.b(); auto& e = edge.e(); Q3 F(3, 1); StatMatrix<double, 3, 3> tau;
        SWE::get_Fn(SWE::Global::g, column(e.q_hat_at_gp, k), column(e.aux_hat_at_gp, k), column(bound.surface_normal, k), column(F, 0));
        SWE::get_tau_LF(SWE::Global::g, column(e.q_hat_at_gp, k), column(e.aux_hat_at_gp, k), column(bound.surface_normal, k), tau);
        for (int r = 0; r < 3; ++r) {
            double s = F(r, 0);
            for (int c = 0; c < 3; ++c) s += tau(r, c) * (q[c] - edge.trace(c, k));
            ENSURES_EQ("flux of the trace", B.F_hat_at_gp(r, k), s);
        }
    }
};
}
CONTRACT(explicit_tide) {
    Forcing<SWE::TideNode> f; In<SWE::EHDG::BC::Tide> i; auto& bc = i.bound.boundary_condition; bc = SWE::EHDG::BC::Tide(f.nodes);
    bc.Initialize(i.bound); bc.ComputeNumericalFlux(i.st, i.edge);
    i.residual(f.value(i.bound, i.k, i.st.t, i.st.ramp), i.q[1], i.q[2]); i.flux();
}
CONTRACT(explicit_flow) {
    Forcing<SWE::FlowNode> f; In<SWE::EHDG::BC::Flow> i; auto& bc = i.bound.boundary_condition; bc = SWE::EHDG::BC::Flow(f.nodes);
    bc.Initialize(i.bound); bc.ComputeNumericalFlux(i.st, i.edge);
    double v = f.value(i.bound, i.k, i.st.t, i.st.ramp); i.residual(i.q[0], v * i.nx, v * i.ny); i.flux();
}
CONTRACT(explicit_function) {
    In<SWE::EHDG::BC::Function> i; auto& bc = i.bound.boundary_condition;
    bc.Initialize(i.bound); bc.ComputeNumericalFlux(i.st, i.edge);
    Point<2> p; p[0] = i.bound.points(0, i.k); p[1] = i.bound.points(1, i.k); StatVector<double, 3> v = SWE::ic_q(i.st.t, p);
    i.residual(v[0], v[1], v[2]); i.flux();
}
CONTRACT(implicit_tide) {  // at the end of the step
    Forcing<SWE::TideNode> f; In<SWE::IHDG::BC::Tide> i; auto& bc = i.bound.boundary_condition; bc = SWE::IHDG::BC::Tide(f.nodes);
    bc.Initialize(i.bound); bc.ComputeGlobalKernels(i.st, i.edge);
    i.residual(f.value(i.bound, i.k, i.st.tn, i.st.rampn), i.q[1], i.q[2]);
}
CONTRACT(implicit_flow) {
    Forcing<SWE::FlowNode> f; In<SWE::IHDG::BC::Flow> i; auto& bc = i.bound.boundary_condition; bc = SWE::IHDG::BC::Flow(f.nodes);
    bc.Initialize(i.bound); bc.ComputeGlobalKernels(i.st, i.edge);
    double v = f.value(i.bound, i.k, i.st.tn, i.st.rampn); i.residual(i.q[0], v * i.nx, v * i.ny);
}
CONTRACT(implicit_function) {
    In<SWE::IHDG::BC::Function> i; auto& bc = i.bound.boundary_condition;
    bc.Initialize(i.bound); bc.ComputeGlobalKernels(i.st, i.edge);
    Point<2> p; p[0] = i.bound.points(0, i.k); p[1] = i.bound.points(1, i.k); StatVector<double, 3> v = SWE::ic_q(i.st.tn, p);
    i.residual(v[0], v[1], v[2]);
}
CONTRACT(implicit_tide_init) {
    Forcing<SWE::TideNode> f; In<SWE::IHDG::BC::Tide> i; auto& bc = i.bound.boundary_condition; bc = SWE::IHDG::BC::Tide(f.nodes);
    bc.Initialize(i.bound); bc.ComputeInitTrace(i.st, i.edge);
    i.residual(f.value(i.bound, i.k, i.st.t, i.st.ramp), i.q[1], i.q[2]);
}
CONTRACT(implicit_flow_init) {
    Forcing<SWE::FlowNode> f; In<SWE::IHDG::BC::Flow> i; auto& bc = i.bound.boundary_condition; bc = SWE::IHDG::BC::Flow(f.nodes);
    bc.Initialize(i.bound); bc.ComputeInitTrace(i.st, i.edge);
    double v = f.value(i.bound, i.k, i.st.t, i.st.ramp); i.residual(i.q[0], v * i.nx, v * i.ny);
}
