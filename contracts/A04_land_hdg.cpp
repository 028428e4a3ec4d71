#include "swe_stub.h"
#include "problem/SWE/problem_flux/swe_flux.hpp"
#include "problem/SWE/problem_stabilization_parameters/swe_stabilization_params.hpp"
#include "problem/SWE/discretization_EHDG/boundary_conditions/ehdg_swe_bc_land.hpp"
#include "problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_land.hpp"
// Land (wall) boundary of the hybridized schemes on arbitrary point k of arbitrarily many
namespace {
template <class L> struct In {
    std::size_t n, k; StubBound<L> bound; StubEdge<StubBound<L>> edge; StubStepper st; L land; double ze, qx, qy, b, nx, ny, qn;
    In() : n(SIZE("n")), k(vc_index("k", n)), bound(n), edge(bound, n) {
        SWE::Boundary& B = bound.b();
        ze = B.q_at_gp(0, k); qx = B.q_at_gp(1, k); qy = B.q_at_gp(2, k); b = B.aux_at_gp(0, k);
        nx = bound.surface_normal(0, k); ny = bound.surface_normal(1, k); qn = qx * nx + qy * ny;
        land.Initialize(bound);
    }
};
using E = In<SWE::EHDG::BC::Land>; using I = In<SWE::IHDG::BC::Land>;
}
CONTRACT(explicit_trace) {
    E i; auto& B = i.bound.b(); auto& e = i.edge.e();
    i.land.ComputeNumericalFlux(i.st, i.edge);
    ENSURES_EQ("elevation of the trace", e.q_hat_at_gp(0, i.k), i.ze);
    ENSURES_EQ("trace does not cross", e.q_hat_at_gp(1, i.k) * i.nx + e.q_hat_at_gp(2, i.k) * i.ny, 0.0);
    ENSURES_EQ("along the wall", -e.q_hat_at_gp(1, i.k) * i.ny + e.q_hat_at_gp(2, i.k) * i.nx, -i.qx * i.ny + i.qy * i.nx);
    ENSURES_EQ("depth", e.aux_hat_at_gp(1, i.k), i.ze + i.b);
    ENSURES_EQ("no water crosses", B.F_hat_at_gp(0, i.k), 0.0);
    double p = SWE::Global::g * (i.ze * i.ze / 2 + i.ze * i.b), tau = std::sqrt(SWE::Global::g * (i.ze + i.b));
    ENSURES_EQ("x-momentum", B.F_hat_at_gp(1, i.k), p * i.nx + tau * i.qn * i.nx);
    ENSURES_EQ("y-momentum", B.F_hat_at_gp(2, i.k), p * i.ny + tau * i.qn * i.ny);
    ENSURES_EQ("q unchanged", B.q_at_gp(1, i.k), i.qx);
}
CONTRACT(explicit_point) {
    E i; auto& B = i.bound.b(); auto& e = i.edge.e();
    double h0 = e.aux_hat_at_gp(1, i.k);
    i.land.ComputeFlux(column(i.bound.surface_normal, i.k), column(B.q_at_gp, i.k), column(B.aux_at_gp, i.k), e.tau[i.k], column(e.q_hat_at_gp, i.k), column(B.F_hat_at_gp, i.k));
    ENSURES_EQ("elevation of the trace", e.q_hat_at_gp(0, i.k), i.ze);
    ENSURES_EQ("trace does not cross", e.q_hat_at_gp(1, i.k) * i.nx + e.q_hat_at_gp(2, i.k) * i.ny, 0.0);
    ENSURES_EQ("no water crosses", B.F_hat_at_gp(0, i.k), 0.0);
    (void)h0;
}
CONTRACT(implicit_init) {
    I i; i.land.ComputeInitTrace(i.st, i.edge);
    auto& t = i.edge.edge_data.edge_state.q_hat; 
    ENSURES_EQ("elevation of the trace", t(0, i.k), i.ze);
    ENSURES_EQ("trace does not cross", t(1, i.k) * i.nx + t(2, i.k) * i.ny, 0.0);
    ENSURES_EQ("along the wall", -t(1, i.k) * i.ny + t(2, i.k) * i.nx, -i.qx * i.ny + i.qy * i.nx);
}
CONTRACT(implicit_kernels) {  // residual q_hat - (q - (q.n) n) and its derivatives in q and q_hat
    I i; auto& B = i.bound.b(); auto& e = i.edge.e(); auto& t = i.edge.trace;
    i.land.ComputeGlobalKernels(i.st, i.edge);
    double r[3] = {t(0, i.k) - i.ze, t(1, i.k) - (i.qx - i.qn * i.nx), t(2, i.k) - (i.qy - i.qn * i.ny)};
    double q[3] = {i.ze, i.qx, i.qy};
    for (int a = 0; a < 3; ++a) ENSURES_EQ("residual", e.rhs_global_kernel_at_gp(a, i.k), r[a]);
    double D[3][3] = {{-1, 0, 0}, {0, -1 + i.nx * i.nx, i.nx * i.ny}, {0, i.nx * i.ny, -1 + i.ny * i.ny}};
    for (int a = 0; a < 3; ++a) for (int c = 0; c < 3; ++c) {
        ENSURES_EQ("derivative in q", B.delta_global_kernel_at_gp(3 * a + c, i.k), D[a][c]);
        ENSURES_EQ("derivative in the trace", e.delta_hat_global_kernel_at_gp(3 * a + c, i.k), a == c ? 1.0 : 0.0);
    }
    (void)q;
}
